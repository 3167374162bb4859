"""C04: every description of a crater's and projectile's size agrees with the one the user gave."""
import math

from cratermaker import Crater, Projectile, Scaling, Target
from cratermaker.components.crater import CraterFixed
from pyvc.core import fresh_real
from pyvc.kit import Kit, scenario

C = "cratermaker.components.crater:"
MC = "cratermaker.components.scaling.montecarlo:MonteCarloScaling."
LOG = []


def _contract(name):
    def f(it, self, x=None, *a, **kw):
        """Contract of a scaling relation at its call site: a positive size that is a function of the argument."""
        if x is None:
            x = next(iter(kw.values()))
        for n, xi, r in LOG:
            if n == name and xi is x:
                return r
        v = fresh_real(name)
        Kit("sym", interp=it).assume(v > 0)
        r = (v, "simple") if name in ("final_to_transient", "transient_to_final") else v
        LOG.append((name, x, r))
        return r
    return f


CONTRACTS = {MC + n: _contract(n) for n in ("final_to_transient", "transient_to_final", "projectile_to_transient",
                                            "transient_to_projectile")}
SIZES = ["diameter", "radius", "final_diameter", "final_radius", "semiaxes", "transient_diameter", "transient_radius",
         "projectile_diameter", "projectile_radius", "projectile_mass"]


def mkscaling():
    t = Target.maker("Moon")
    p = Projectile.maker("generic", target=t, mean_velocity=20e3, density=2500.0, sample=False, velocity=20e3, angle=45.0,
                         direction=0.0, location=(0.0, 0.0))
    return Scaling.maker("montecarlo", target=t, projectile=p, monte_carlo_scaling=False)


def scaled(k, s, name, x):
    """The scaling relation `name` at x (the value the contract gave, or the real function's)."""
    if k.sym:
        for n, xi, r in LOG:
            if n == name:
                c = xi == x
                if c is True or (not isinstance(c, bool) and Kit("sym").truth(c)):
                    return r[0] if isinstance(r, tuple) else r
        return None
    r = getattr(s, name)(x)
    return r[0] if isinstance(r, tuple) else r


def size_kwargs(k, kind):
    if kind == "semiaxes":
        b = k.real("b", 0, lo_open=True, sample=(1.0, 1e5))
        a = k.real("a", 0, lo_open=True, sample=(1.0, 1e5))
        return {"semimajor_axis": a, "semiminor_axis": b}
    hi = 1e12 if kind == "projectile_mass" else (1e4 if "projectile" in kind else 1e6)
    return {kind: k.real("x", 0, lo_open=True, sample=(1.0, hi))}


@scenario("C04", "one_size_determines_all", functions=[C + "Crater.maker", C + "CraterFixed.__post_init__", C + "Crater.__init__",
          "cratermaker.components.projectile:Projectile.new_projectile"],
          contracts=CONTRACTS, budget=120, search_s=5,
          assumes=["scaling relations enter through their contract (a positive function of the size; see C06)"])
def s1(k):
    LOG.clear()
    s = mkscaling()
    kind = k.choice("kind", SIZES)
    kw = size_kwargs(k, kind)
    v = k.real("v", 0, lo_open=True, sample=(1e3, 5e4))
    ang = k.real("ang", 0, 90, lo_open=True, sample=(1.0, 90.0))
    rho = k.real("rho", 0, lo_open=True, sample=(500.0, 8000.0))
    lon, lat = k.real("lon", -180, 180, hi_open=True), k.real("lat", -90, 90)
    az = k.real("az", 0, 360, hi_open=True)
    c = k.call(Crater.maker, scaling=s, projectile_velocity=v, projectile_angle=ang, projectile_density=rho,
               projectile_direction=az, location=(lon, lat), **kw)
    g = lambda n: k.get(c, n)
    x = list(kw.values())[0]
    if kind in ("diameter", "final_diameter"):
        k.ensure("given-value-kept", k.eq(g("diameter"), x), lambda: c)
    elif kind in ("radius", "final_radius"):
        k.ensure("given-value-kept", k.eq(g("radius"), x), lambda: c)
    elif kind == "semiaxes":
        a, b = kw["semimajor_axis"], kw["semiminor_axis"]
        k.ensure("given-value-kept", k.and_(k.eq(g("semimajor_axis"), a), k.eq(g("semiminor_axis"), b)), lambda: c)
    elif kind == "projectile_mass":
        k.ensure("given-value-kept", k.eq(g("projectile_mass"), x, rtol=1e-8) if not k.sym else
                 k.eq(g("projectile_mass"), (4.0 / 3.0) * math.pi * g("projectile_radius") * g("projectile_radius") * g("projectile_radius") * rho), lambda: c)
    else:
        k.ensure("given-value-kept", k.eq(g(kind), x), lambda: c)
    # the descriptions agree with each other
    k.ensure("radius-is-geometric-mean", k.eq(g("radius") * g("radius"), g("semimajor_axis") * g("semiminor_axis")))
    k.ensure("diameter-twice-radius", k.and_(k.eq(g("diameter"), 2 * g("radius")), k.eq(g("transient_diameter"), 2 * g("transient_radius")),
                                             k.eq(g("projectile_diameter"), 2 * g("projectile_radius"))))
    pr = g("projectile_radius")
    k.ensure("mass-density-size", k.eq(g("projectile_mass"), (4.0 / 3.0) * math.pi * (pr * pr * pr) * rho, rtol=1e-8), lambda: c)
    if not k.sym:
        k.ensure("density-as-given", k.eq(g("projectile_density"), rho, rtol=1e-8))
    k.ensure("velocity-as-given", k.and_(k.eq(g("projectile_velocity"), v), k.eq(g("projectile_angle"), ang)))
    k.ensure("location-as-given", k.and_(same_lon(k, g("location")[0], lon), k.eq(g("location")[1], lat)), lambda: c)
    k.ensure("direction-as-given", k.and_(k.eq(g("orientation"), az), k.eq(g("projectile_direction"), az)))
    sin = k.f("sin", k.rad(ang))
    k.ensure("vertical-velocity", k.eq(g("projectile_vertical_velocity"), v * sin))
    # final, transient and projectile sizes are linked by the scaling model, starting from the size given
    s2 = s
    if not k.sym:
        p = s.projectile.new_projectile(velocity=v, angle=ang, density=rho)
        s2 = mkscaling()
        s2.projectile = p
    td, fd, pd = g("transient_diameter"), g("diameter"), g("projectile_diameter")
    if kind in ("diameter", "final_diameter", "radius", "final_radius", "semiaxes"):
        k.ensure("transient-from-final", eqn(k, td, scaled(k, s2, "final_to_transient", fd)), lambda: c)
        k.ensure("projectile-from-transient", eqn(k, pd, scaled(k, s2, "transient_to_projectile", td)), lambda: c)
    elif "transient" in kind:
        k.ensure("final-from-transient", eqn(k, fd, scaled(k, s2, "transient_to_final", td)), lambda: c)
        k.ensure("projectile-from-transient", eqn(k, pd, scaled(k, s2, "transient_to_projectile", td)), lambda: c)
    else:
        k.ensure("transient-from-projectile", eqn(k, td, scaled(k, s2, "projectile_to_transient", pd)), lambda: c)
        k.ensure("final-from-transient", eqn(k, fd, scaled(k, s2, "transient_to_final", td)), lambda: c)


def same_lon(k, a, b):
    return k.eq(a, b) if k.sym else abs((a - b + 180.0) % 360.0 - 180.0) < 1e-9


def eqn(k, a, b):
    return False if b is None else k.eq(a, b, rtol=1e-6)


PAIRS = [(a, b) for i, a in enumerate(SIZES) for b in SIZES[i + 1:]
         if not ({a, b} <= {"diameter", "final_diameter"} or {a, b} <= {"radius", "final_radius"})]


@scenario("C04", "redundant_sizes_rejected", functions=[C + "Crater.maker"], contracts=CONTRACTS, budget=120)
def s2(k):
    LOG.clear()
    s = mkscaling()
    a, b = k.choice("pair", PAIRS)
    x = k.real("x", 0, lo_open=True, sample=(1.0, 1e5))
    y = k.real("y", 0, lo_open=True, sample=(1.0, 1e5))
    kw = {}
    for nm, v in ((a, x), (b, y)):
        if nm == "semiaxes":
            kw["semimajor_axis"], kw["semiminor_axis"] = v, v
        else:
            kw[nm] = v
    o = k.outcome(Crater.maker, scaling=s, **kw)
    k.ensure("rejected-with-ValueError", o.raised(ValueError), lambda: (kw, o))


@scenario("C04", "missing_or_ambiguous_inputs_rejected", functions=[C + "Crater.maker"], contracts=CONTRACTS)
def s3(k):
    LOG.clear()
    s = mkscaling()
    x = k.real("x", 0, lo_open=True, sample=(1.0, 1e5))
    y = k.real("y", -90, 90)
    what = k.choice("what", ["no_size", "lon_only", "lat_only", "two_locations", "lonlat_and_location", "three_velocities",
                             "direction_twice", "mean_and_velocity", "mean_and_vertical", "measured_twice"])
    kw = {"no_size": {}, "lon_only": {"diameter": x, "longitude": y}, "lat_only": {"diameter": x, "latitude": y},
          "two_locations": {"diameter": x, "location": (y, y), "projectile_location": (y, y)},
          "lonlat_and_location": {"diameter": x, "location": (y, y), "longitude": y, "latitude": y},
          "three_velocities": {"diameter": x, "projectile_velocity": x, "projectile_vertical_velocity": x, "projectile_angle": 45.0},
          "direction_twice": {"diameter": x, "orientation": y + 90, "projectile_direction": y + 90},
          "mean_and_velocity": {"diameter": x, "projectile_mean_velocity": x, "projectile_velocity": x},
          "mean_and_vertical": {"diameter": x, "projectile_mean_velocity": x, "projectile_vertical_velocity": x},
          "measured_twice": {"diameter": x, "measured_diameter": x, "measured_radius": x}}[what]
    o = k.outcome(Crater.maker, scaling=s, **kw)
    k.ensure("rejected-with-ValueError", o.raised(ValueError), lambda: (what, kw, o))


@scenario("C04", "derived_quantities_of_any_crater", functions=[C + "CraterFixed.__post_init__"])
def s4(k):
    a = k.real("a", 0, lo_open=True, sample=(1e-3, 1e6))
    b = k.real("b", 0, lo_open=True, sample=(1e-3, 1e6))
    td = k.real("td", 0, lo_open=True, sample=(1e-3, 1e6))
    pd = k.real("pd", 0, lo_open=True, sample=(1e-3, 1e5))
    pm = k.real("pm", 0, lo_open=True, sample=(1e-3, 1e12))
    v = k.real("v", 0, sample=(0, 1e5))
    ang = k.real("ang", 0, 90)
    az = k.real("az", 0, 360)
    c = k.call(CraterFixed, semimajor_axis=a, semiminor_axis=b, transient_diameter=td, projectile_diameter=pd,
               projectile_mass=pm, projectile_velocity=v, projectile_angle=ang, orientation=az)
    k.ensure("radius", k.and_(k.eq(c.radius * c.radius, a * b), c.radius > 0, k.eq(c.diameter, 2 * c.radius)))
    k.ensure("transient-radius", k.eq(c.transient_radius, td / 2))
    k.ensure("projectile-radius", k.eq(c.projectile_radius, pd / 2))
    k.ensure("density", k.eq(c.projectile_density * (4.0 * math.pi) * (pd / 2) * (pd / 2) * (pd / 2), 3.0 * pm))
    k.ensure("vertical-velocity", k.eq(c.projectile_vertical_velocity, v * k.f("sin", k.rad(ang))))
    k.ensure("direction", k.eq(c.projectile_direction, az))


@scenario("C04", "non_positive_sizes_rejected", functions=[C + "Crater.maker"],
          search_only="real scaling relations: generated non-positive or non-finite sizes")
def s5(k):
    s = mkscaling()
    kind = k.choice("kind", [x for x in SIZES if x != "semiaxes" and x != "projectile_mass"])
    x = k.real("x", hi=0.0, sample=(-1e6, 0.0), hints=(0.0, -1.0))
    x = k.choice("special", [x, math.inf, math.nan])
    o = k.outcome(Crater.maker, scaling=s, **{kind: x})
    k.ensure("rejected", not o.ok, lambda: (kind, x, o))


@scenario("C04", "identity_follows_the_physical_description", functions=[C + "Crater.maker"],
          search_only="differential: craters built twice and with one property changed", search_s=4, search_n=400)
def s6(k):
    s = mkscaling()
    base = dict(diameter=k.real("d", 10.0, 1e5), location=(k.real("lon", -180, 180, hi_open=True), k.real("lat", -90, 90)),
                projectile_velocity=k.real("v", 1e3, 5e4), projectile_angle=k.real("ang", 10, 90),
                projectile_direction=k.real("az", 0, 359), time=k.real("t", 0, 4000.0))
    if k.bool("ellipse"):
        base["semimajor_axis"] = base.pop("diameter")
        base["semiminor_axis"] = base["semimajor_axis"] * k.real("flat", 0.2, 0.9)
    a = Crater.maker(scaling=s, **base)
    b = Crater.maker(scaling=mkscaling(), **base)
    k.ensure("same-description-same-id", a.id == b.id)
    ch = k.choice("change", list(base))
    mod = dict(base)
    mod[ch] = (base[ch][0], base[ch][1] * 0.5 + 3.0) if ch == "location" else base[ch] * (1.25 if ch == "semimajor_axis" else 0.75) + 1.0 - ("semi" in ch)
    c = Crater.maker(scaling=mkscaling(), **mod)
    k.ensure("different-description-different-id", a.id != c.id, lambda: ch)
    d = Crater.maker(crater=a)
    k.ensure("copy-keeps-everything", d.id == a.id and all(getattr(d, n) == getattr(a, n) for n in (
        "diameter", "semimajor_axis", "semiminor_axis", "transient_diameter", "projectile_diameter", "projectile_mass",
        "projectile_velocity", "projectile_angle", "orientation", "location", "morphology_type", "time")),
        lambda: (a.as_dict(), d.as_dict()))


@scenario("C04", "velocity_triangle", functions=[C + "Crater.maker", "cratermaker.components.projectile:Projectile.new_projectile"],
          contracts=CONTRACTS, budget=120)
def s7(k):
    """Any two of velocity, vertical velocity and angle determine the third."""
    LOG.clear()
    s = mkscaling()
    d = k.real("d", 0, lo_open=True, sample=(10.0, 1e5))
    v = k.real("v", 0, lo_open=True, sample=(1e3, 5e4))
    ang = k.real("ang", 0, 90, lo_open=True, sample=(5.0, 90.0))
    vv = k.real("vv", 0, lo_open=True, sample=(1e3, 5e4))
    how = k.choice("how", ["v+ang", "vv+ang", "v+vv"])
    kw = {"v+ang": dict(projectile_velocity=v, projectile_angle=ang), "vv+ang": dict(projectile_vertical_velocity=vv, projectile_angle=ang),
          "v+vv": dict(projectile_velocity=v, projectile_vertical_velocity=vv)}[how]
    o = k.outcome(Crater.maker, scaling=s, diameter=d, **kw)
    if how == "v+vv" and k.truth(vv > v):
        k.ensure("impossible-velocities-rejected", o.raised(ValueError), lambda: o)
        return
    k.ensure("accepted", o.ok, lambda: o)
    c = o.value
    g = lambda n: k.get(c, n)
    if "v+" in how[:2] or how == "v+vv":
        k.ensure("velocity-as-given", k.eq(g("projectile_velocity"), v))
    if "ang" in how:
        k.ensure("angle-as-given", k.eq(g("projectile_angle"), ang))
    if "vv" in how:
        k.ensure("vertical-velocity-as-given", k.eq(g("projectile_vertical_velocity"), vv), lambda: c)
    k.ensure("triangle", k.eq(g("projectile_vertical_velocity"), g("projectile_velocity") * k.f("sin", k.rad(g("projectile_angle")))))


@scenario("C04", "resizing_a_crater_keeps_the_rest", functions=[C + "Crater.maker", C + "Crater.__init__"], contracts=CONTRACTS, budget=120)
def s8(k):
    """A crater rebuilt from another with one size changed takes that size and keeps the impact it came from."""
    LOG.clear()
    s = mkscaling()
    d = k.real("d", 0, lo_open=True, sample=(10.0, 1e5))
    v = k.real("v", 0, lo_open=True, sample=(1e3, 5e4))
    ang = k.real("ang", 0, 90, lo_open=True, sample=(5.0, 90.0))
    az = k.real("az", 0, 360, hi_open=True)
    rho = k.real("rho", 0, lo_open=True, sample=(500.0, 8000.0))
    t = k.real("t", 0, sample=(0.0, 4500.0))
    lon, lat = k.real("lon", -179, 179), k.real("lat", -90, 90)
    c = k.call(Crater.maker, scaling=s, diameter=d, projectile_velocity=v, projectile_angle=ang, projectile_direction=az,
               projectile_density=rho, location=(lon, lat), time=t)
    kind = k.choice("kind", SIZES)
    kw = size_kwargs(k, kind)
    LOG.clear()
    e = k.call(Crater.maker, crater=c, scaling=s, **kw)
    g = lambda n: k.get(e, n)
    x = list(kw.values())[0]
    if kind == "semiaxes":
        k.ensure("new-size", k.eq(g("semimajor_axis"), x))
    elif kind == "projectile_mass":
        k.ensure("new-size", True if k.sym else k.eq(g(kind), x, rtol=1e-8))
    else:
        k.ensure("new-size", k.eq(g(kind.replace("final_", "")), x), lambda: (kind, e))
    k.ensure("impact-kept", k.and_(k.eq(g("projectile_velocity"), v), k.eq(g("projectile_angle"), ang), k.eq(g("orientation"), az),
                                   k.eq(g("time"), t), same_lon(k, g("location")[0], lon), k.eq(g("location")[1], lat)), lambda: e)
    k.ensure("original-unchanged", k.and_(k.eq(k.get(c, "diameter"), d), k.eq(k.get(c, "projectile_velocity"), v)))


@scenario("C04", "surroundings_by_name_or_as_objects", functions=[C + "Crater.maker"], search_only="the scaling relations are the real ones", bounded="generated sizes on five bodies", search_s=4, search_n=300)
def s9(k):
    body = k.choice("body", ["Moon", "Mars", "Mercury", "Vesta", "Earth"])
    kw = dict(projectile_velocity=k.real("v", 5e3, 4e4), projectile_angle=k.real("ang", 5.0, 90.0), projectile_direction=10.0, location=(3.0, 4.0), projectile_density=k.real("rho", 500.0, 8000.0))
    kw[k.choice("size", ["diameter", "projectile_diameter"])] = k.real("D", 10.0, 1e4, log=True)
    t = Target.maker(body)
    s = Scaling.maker("ctem", target=t, projectile=Projectile.maker("asteroids", target=t), monte_carlo_scaling=False)
    ref = Crater.maker(scaling=s, **kw)
    how = k.choice("how", ["names", "target object", "scaling object and its target", "scaling object and its body's name"])
    if how == "names":
        c = k.call(Crater.maker, scaling="ctem", target=body, projectile="asteroids", monte_carlo_scaling=False, **kw)
    elif how == "target object":
        c = k.call(Crater.maker, scaling="ctem", target=t, projectile="asteroids", monte_carlo_scaling=False, **kw)
    elif how == "scaling object and its target":
        c = k.call(Crater.maker, scaling=s, target=t, **kw)
    else:
        c = k.call(Crater.maker, scaling=s, target=body, **kw)
    for n in ("diameter", "transient_diameter", "projectile_diameter", "projectile_mass", "projectile_velocity", "projectile_density", "morphology_type"):
        a, b = getattr(ref, n), getattr(c, n)
        k.ensure("the-same-crater", a == b if isinstance(a, str) else math.isclose(a, b, rel_tol=1e-9), lambda n=n, a=a, b=b: (how, n, a, b))
