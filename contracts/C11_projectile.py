"""C11: projectiles keep what was specified, sample only what was not, and never disturb the population they come from."""
import math
import warnings

from cratermaker import Projectile, Target
from pyvc.core import fresh_real
from pyvc.kit import Kit, scenario

P = "cratermaker.components.projectile:Projectile."
MCU = "cratermaker.utils.montecarlo_utils:"
FIELDS = ["velocity", "angle", "direction", "location", "density"]
# Published mean impact speeds (m/s): the oracle
ASTEROIDS = {"Mercury": 41100.0, "Venus": 29100.0, "Earth": 24600.0, "Moon": 22100.0, "Mars": 10700.0, "Ceres": 5300.0, "Vesta": 5300.0}
COMETS = {"Mercury": 18400.0, "Venus": 26300.0, "Earth": 17670.0, "Moon": 17670.0, "Mars": 14210.0, "Io": 32000.0, "Europa": 26000.0,
          "Ganymede": 20000.0, "Callisto": 15000.0, "Mimas": 27000.0, "Enceladus": 24000.0, "Tethys": 21000.0, "Dione": 19000.0,
          "Rhea": 16000.0, "Titan": 10500.0, "Miranda": 12500.0, "Ariel": 10300.0, "Umbriel": 8700.0, "Titania": 6800.0,
          "Oberon": 5900.0, "Triton": 8200.0, "Pluto": 1900.0, "Charon": 1800.0}


def quiet(k, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return k.call(*a, **kw)


def given(k, name, tag=""):
    if name == "velocity":
        return k.real("v" + tag, 0, lo_open=True, sample=(1e3, 5e4))
    if name == "angle":
        return k.real("ang" + tag, 0, 90)
    if name == "direction":
        return k.real("dir" + tag, 0, 360, hi_open=True)
    if name == "location":
        return (k.real("lon" + tag, -180, 180, hi_open=True), k.real("lat" + tag, -90, 90))
    return k.real("rho" + tag, 0, lo_open=True, sample=(500, 8000))


def same(k, a, b):
    if isinstance(b, tuple):
        d = a[0] - b[0]     # a longitude within rounding of 180 is -180
        return k.and_(k.or_(k.eq(a[0], b[0], atol=1e-9), k.eq(d, -360.0)), k.eq(a[1], b[1]))
    return k.eq(a, b)


SUBSETS = [(), *[(f,) for f in FIELDS], ("velocity", "angle"), ("direction", "location", "density"), tuple(FIELDS)]


@scenario("C11", "given_values_kept_others_sampled", functions=[P + "new_projectile", P + "maker", P + "_copy", MCU + "get_random_velocity",
          MCU + "get_random_impact_angle", MCU + "get_random_impact_direction", MCU + "get_random_location"], budget=150)
def s1(k):
    pop = k.choice("population", ["asteroids", "comets", "generic"])
    rng = k.rng()
    kw = {"mean_velocity": k.real("vmean", 3e3, 1e5)} if pop == "generic" else {}
    t = Target.maker("Moon")
    p = quiet(k, Projectile.maker, pop, target=t, rng=rng, density=3000.0, **kw)
    vm = k.get(p, "mean_velocity")
    k.ensure("mean-speed", k.eq(vm, kw["mean_velocity"]) if kw else k.eq(vm, {"asteroids": ASTEROIDS, "comets": COMETS}[pop]["Moon"]))
    before = {f: k.get(p, f) for f in FIELDS}
    sub = k.choice("given", SUBSETS)
    g = {f: given(k, f) for f in sub}
    n0 = rng.count
    q = k.call(p.new_projectile, **g)
    for f in sub:
        k.ensure("given-value-kept", same(k, k.get(q, f), g[f]), lambda: (f, k.get(q, f), g[f]))
    ve = k.get(t, "escape_velocity")
    v, a, d, (lon, lat) = (k.get(q, f) for f in FIELDS[:4])
    if "velocity" not in sub:
        k.ensure("speed-at-least-escape-speed", k.le(ve, v, rtol=1e-9), lambda: (v, ve))
    if "angle" not in sub:
        k.ensure("angle-in-range", k.and_(a >= 0, k.le(a, 90.0)), lambda: a)
    if "direction" not in sub:
        k.ensure("direction-in-range", k.and_(d >= 0, d < 360 + 1e-9), lambda: d)
    if "location" not in sub:
        k.ensure("location-on-the-sphere", k.and_(lon >= -180, k.le(lon, 180.0), k.le(-90.0, lat), k.le(lat, 90.0)), lambda: (lon, lat))
    if "density" not in sub:
        k.ensure("density-inherited", k.eq(k.get(q, "density"), 3000.0))
    if len(sub) == len(FIELDS):
        k.ensure("nothing-drawn-when-all-is-given", rng.count == n0, lambda: rng.log)
    else:
        k.ensure("drawn-from-its-own-generator", rng.count > n0 or set(sub) >= set(FIELDS[:4]) or sub == ())
    k.ensure("vertical-speed", k.eq(k.get(q, "vertical_velocity"), v * k.f("sin", k.rad(a))), lambda: q)
    k.ensure("new-object", q is not p and type(q) is type(p))
    k.ensure("shares-target-and-generator", k.get(q, "target") is t and k.get(q, "rng") is rng)
    if sub == ():
        for f in FIELDS[:4]:
            n1 = rng.count
            k.call(p.new_projectile, **{x: given(k, x, "3" + f) for x in FIELDS if x != f})
            k.ensure("what-is-not-given-is-drawn-anew", rng.count > n1, f)
    for f in FIELDS:
        k.ensure("population-undisturbed", same(k, k.get(p, f), before[f]), lambda: (f, k.get(p, f), before[f]))


@scenario("C11", "unsampled_projectiles_are_fixed", functions=[P + "new_projectile", P + "__init__", P + "_copy"])
def s2(k):
    pop = k.choice("population", ["asteroids", "comets", "generic"])
    rng = k.rng()
    kw = {f: given(k, f) for f in FIELDS if pop == "generic" or f != "velocity"}
    t = Target.maker("Mars")
    p = quiet(k, Projectile.maker, pop, target=t, rng=rng, sample=False, mean_velocity=1e4, **kw)
    q = k.call(p.new_projectile)
    for f, v in kw.items():
        k.ensure("kept", same(k, k.get(p, f), v), lambda: (f, k.get(p, f), v))
        k.ensure("inherited", same(k, k.get(q, f), v), lambda: (f, k.get(q, f), v))
    if pop != "generic":
        want = {"asteroids": ASTEROIDS, "comets": COMETS}[pop]["Mars"]
        k.ensure("mean-speed-of-the-body", k.and_(k.eq(k.get(p, "velocity"), want), k.eq(k.get(q, "velocity"), want)), lambda: (p, q))
    k.ensure("nothing-drawn", rng.count == 0, lambda: rng.log)
    k.ensure("still-not-sampling", k.get(q, "sample") is False)
    g = {f: given(k, f, "2") for f in FIELDS}
    r = k.call(p.new_projectile, **g)
    for f in FIELDS:
        k.ensure("given-value-kept", same(k, k.get(r, f), g[f]), lambda: (f, k.get(r, f), g[f]))


@scenario("C11", "an_existing_projectile_can_be_respecified", functions=[P + "maker", P + "new_projectile", P + "_copy"], budget=120)
def s2b(k):
    """Handing a projectile to the maker with new values gives one with those values; with none, the same one."""
    rng = k.rng()
    p = quiet(k, Projectile.maker, "generic", target="Moon", sample=False, mean_velocity=2e4, velocity=1.8e4, angle=30.0, direction=10.0, location=(5.0, 6.0), density=3000.0, rng=rng)
    before = {f: k.get(p, f) for f in FIELDS}
    sub = k.choice("given", SUBSETS)
    g = {f: given(k, f) for f in sub}
    q = quiet(k, Projectile.maker, p, **g)
    for f in sub:
        k.ensure("given-value-kept", same(k, k.get(q, f), g[f]), lambda: (f, k.get(q, f), g[f]))
    k.ensure("used-as-is-when-nothing-is-given", bool(sub) or q is p)
    k.ensure("original-undisturbed", k.and_(*[same(k, k.get(p, f), before[f]) for f in FIELDS]), lambda: (before, p))
    k.ensure("original-population", type(q) is type(p) and k.get(q, "target") is k.get(p, "target"))


@scenario("C11", "malformed_projectiles_are_rejected", functions=[P + f for f in FIELDS] + [P + "mean_velocity", P + "sample", P + "__init__"])
def s3(k):
    p = Projectile.maker("generic", target="Moon", mean_velocity=2e4, density=2000.0, sample=False, velocity=2e4, angle=45.0, direction=0.0,
                         location=(0.0, 0.0))
    bad = k.real("bad", None, 0, hi_open=True, sample=(-1e5, 0))
    f = k.choice("field", ["velocity", "angle", "direction", "density", "mean_velocity", "sample"])
    before = k.get(p, f)
    val = k.choice("bad_type", [bad, "fast", [1.0, 2.0]]) if f != "sample" else "yes"
    o = k.set_outcome(p, f, val)
    k.ensure("rejected", o.raised(ValueError, TypeError), lambda: (f, val, o))
    k.ensure("unchanged", k.get(p, f) == before)
    if f in ("velocity", "angle", "direction", "density"):
        o = k.outcome(p.new_projectile, **{f: val})
        k.ensure("rejected-at-creation", o.raised(ValueError, TypeError), lambda: (f, val, o))
    miss = k.choice("missing", ["velocity", "angle", "direction", "location"])
    kw = dict(velocity=2e4, angle=45.0, direction=0.0, location=(0.0, 0.0))
    del kw[miss]
    rng = k.rng()
    o = k.outcome(Projectile.maker, k.choice("population", ["asteroids", "comets", "generic"]), sample=False, mean_velocity=2e4, density=2e3,
                  rng=rng, target="Moon", **kw)
    k.ensure("incomplete-fixed-projectile-rejected-or-default", o.raised(ValueError) if not o.ok else
             same(k, k.get(o.value, miss), {"velocity": k.get(o.value, "mean_velocity"), "angle": 90.0, "direction": 0.0, "location": (0.0, 0.0)}[miss]),
             lambda: (miss, o))
    k.ensure("nothing-drawn", rng.count == 0)


@scenario("C11", "population_follows_the_body", functions=[P + "maker"], bounded="the bodies of the target catalogue, one by one")
def s4(k):
    name = k.choice("body", [*sorted(set(ASTEROIDS) | set(COMETS)), "Bennu"])
    t = Target.maker(name) if name != "Bennu" else Target.maker(name, radius=245.0, mass=7.3e10, transition_scale_type="silicate", density=1500.0)
    p = quiet(k, Projectile.maker, target=t, density=2500.0, rng_seed=3)
    want = "asteroids" if name in ASTEROIDS else "comets" if name in COMETS else "generic"
    k.ensure("population", k.get(p, "population") == want, lambda: p.population)
    k.ensure("mean-speed", k.eq(k.get(p, "mean_velocity"), ASTEROIDS.get(name, COMETS.get(name, 2e4))), lambda: p.mean_velocity)
    for pop, cat in (("asteroids", ASTEROIDS), ("comets", COMETS)):
        if name in cat:
            q = quiet(k, Projectile.maker, pop, target=t, rng_seed=3)
            k.ensure("mean-speed-by-population", k.eq(k.get(q, "mean_velocity"), cat[name]), lambda: (pop, q.mean_velocity))
            k.ensure("bulk-density", k.eq(k.get(q, "density"), {"asteroids": 2250.0, "comets": 500.0}[pop]))
    k.ensure("target-used", k.get(p, "target") is t)
