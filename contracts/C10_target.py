"""C10: a target body's properties are the ones requested and physically consistent."""
import copy
import math

import numpy as np

from cratermaker import Target
from pyvc.kit import need, scenario

T = "cratermaker.components.target:Target."
G = 6.6743e-11
BODIES = {  # published mean radius (km) and GM (km^3/s^2) or mass (kg): the oracle
    "Mercury": (2439.7, 22031.9), "Venus": (6051.8, 324858.6), "Earth": (6371.0, 398600.4), "Moon": (1737.4, 4902.8),
    "Mars": (3389.5, 42828.4), "Phobos": (11.1, 7.08e-4), "Deimos": (6.2, 9.6e-5), "Ceres": (469.7, 62.63), "Vesta": (262.7, 17.29),
    "Io": (1821.5, 5959.9), "Europa": (1560.8, 3202.7), "Ganymede": (2631.2, 9887.8), "Callisto": (2410.3, 7179.3), "Titan": (2575.5, 8978.1),
    "Rhea": (764.5, 153.94), "Dione": (562.5, 73.12), "Tethys": (536.3, 41.21), "Enceladus": (252.3, 7.21), "Mimas": (198.8, 2.503),
    "Ariel": (578.9, 83.43), "Umbriel": (584.7, 85.4), "Titania": (788.9, 222.8), "Oberon": (761.4, 205.3), "Miranda": (235.7, 4.3),
    "Triton": (1352.6, 1428.5), "Charon": (606.0, 106.1), "Pluto": (1188.3, 869.3)}
ICE = {"Europa", "Ganymede", "Callisto", "Titan", "Rhea", "Dione", "Tethys", "Enceladus", "Mimas", "Ariel", "Umbriel", "Titania", "Oberon",
       "Miranda", "Triton", "Charon", "Pluto", "Ceres"}
DENS = {"Water": 1000.0, "Sand": 1750.0, "Dry Soil": 1500.0, "Wet Soil": 2000.0, "Soft Rock": 2250.0, "Hard Rock": 2500.0, "Ice": 900.0}
INDEX = "the bodies of the catalogue, one by one"


@scenario("C10", "derived_quantities", functions=[T + n for n in ("__init__", "maker", "diameter", "surface_area", "volume", "circumference",
                                                                   "gravity", "escape_velocity", "radius", "mass")])
def s1(k):
    r = k.real("r", 0, lo_open=True, sample=(1e2, 1e8))
    m = k.real("m", 0, lo_open=True, sample=(1e10, 1e27))
    how = k.choice("how", ["radius", "diameter"])
    name = k.choice("name", ["Moon", "Bennu"])
    kw = {how: r if how == "radius" else 2 * r}
    t = k.call(Target.maker, name, mass=m, transition_scale_type=k.choice("ts", ["silicate", "ice"]), **kw)
    g = lambda n: k.get(t, n)
    pi = k.rad(180.0 + 0 * r)
    k.ensure("named", g("name") == name)
    k.ensure("size", k.and_(k.eq(g("radius"), r), k.eq(g("diameter"), 2 * r)), lambda: g("radius"))
    k.ensure("mass", k.eq(g("mass"), m), lambda: g("mass"))
    k.ensure("area-volume-circumference", k.and_(k.eq(g("surface_area"), 4 * pi * r * r), k.eq(g("volume") * 3, 4 * pi * r * r * r),
                                                 k.eq(g("circumference"), 2 * pi * r)), lambda: (g("surface_area"), g("volume"), g("circumference")))
    gr, ve = g("gravity"), g("escape_velocity")
    k.ensure("gravity", k.eq(gr * r * r, m * G, rtol=1e-4), lambda: gr)
    k.ensure("escape-velocity", k.and_(k.eq(ve * ve, 2 * gr * r), ve > 0), lambda: ve)
    r2 = k.real("r2", 0, lo_open=True, sample=(1e2, 1e8))
    m2 = k.real("m2", 0, lo_open=True, sample=(1e10, 1e27))
    k.set(t, "radius", r2)
    k.set(t, "mass", m2)
    k.ensure("follows-a-change", k.and_(k.eq(g("diameter"), 2 * r2), k.eq(g("gravity") * r2 * r2, m2 * G, rtol=1e-4),
                                        k.eq(g("surface_area"), 4 * pi * r2 * r2)), lambda: (g("diameter"), g("gravity")))
    ve2 = g("escape_velocity")
    k.ensure("speed-and-volume-follow-a-change", k.and_(k.eq(ve2 * ve2, 2 * g("gravity") * r2), k.eq(g("volume") * 3, 4 * pi * r2 * r2 * r2), k.eq(g("circumference"), 2 * pi * r2)),
             lambda: (ve2, g("volume"), g("circumference")))


@scenario("C10", "arguments_override_the_catalogue", functions=[T + "__init__", "cratermaker.utils.general_utils:_set_properties"], budget=120)
def s2(k):
    name = k.choice("name", ["Moon", "Europa", "Mars"])
    before = copy.deepcopy(Target._catalogue)
    ref = {"radius": BODIES[name][0] * 1e3, "mass": BODIES[name][1] * 1e9 / G, "ts": "ice" if name in ICE else "silicate"}
    kw = {}
    if k.bool("give_radius"):
        kw["radius"] = k.real("r", 0, lo_open=True, sample=(1e2, 1e8))
    if k.bool("give_mass"):
        kw["mass"] = k.real("m", 0, lo_open=True, sample=(1e10, 1e27))
    if k.bool("give_density"):
        kw["density"] = k.real("rho", 0, lo_open=True, sample=(1e2, 1e4))
    if k.bool("give_material"):
        kw["material"] = k.choice("material", ["Sand", "Ice", "Unobtainium"])
    if k.bool("give_ts"):
        kw["transition_scale_type"] = k.choice("ts", ["silicate", "ice"])
    t = k.call(Target.maker, name, **kw)
    for a, v in kw.items():
        k.ensure("given-value-kept", k.eq(k.get(t, a), v), lambda: (a, k.get(t, a), v))
    if "radius" not in kw:
        k.ensure("catalogue-radius", k.eq(k.get(t, "radius"), ref["radius"], rtol=1e-3))
    if "mass" not in kw:
        k.ensure("catalogue-mass", k.eq(k.get(t, "mass"), ref["mass"], rtol=1e-2))
    if "transition_scale_type" not in kw:
        k.ensure("catalogue-transition", k.get(t, "transition_scale_type") == ref["ts"])
    mat = k.get(t, "material")
    if "density" not in kw:
        want = DENS.get(mat)
        got = k.get(t, "density")
        k.ensure("density-of-the-material", got is None if want is None else k.eq(got, want), lambda: (mat, got))
    k.ensure("catalogue-unchanged", Target._catalogue == before)
    u = k.call(Target.maker, name)
    k.ensure("next-target-unaffected", k.and_(k.eq(k.get(u, "radius"), ref["radius"], rtol=1e-3), k.eq(k.get(u, "mass"), ref["mass"], rtol=1e-2),
                                              k.get(u, "transition_scale_type") == ref["ts"]))


@scenario("C10", "malformed_targets_are_rejected", functions=[T + "__init__", T + "maker", T + "radius", T + "mass", T + "density",
                                                             T + "transition_scale_type"])
def s3(k):
    bad = k.real("bad", None, 0, sample=(-1e6, 0.0))
    case = k.choice("case", ["radius", "diameter", "mass", "density", "both", "ts", "unknown", "unknown-no-mass", "unknown-no-size", "type", "material",
                             "density-type"])
    full = dict(radius=1e5, mass=1e18, transition_scale_type="ice")
    if case in ("radius", "diameter", "mass", "density"):
        kw = dict(mass=1e18, transition_scale_type="ice", radius=1e5) if case in ("mass", "density") else dict(mass=1e18, transition_scale_type="ice")
        kw[case] = bad
        name = k.choice("who", ["Moon", "Bennu"])
        o = k.outcome(Target.maker, name, **kw)
    elif case == "both":
        o = k.outcome(Target.maker, "Moon", radius=1e5, diameter=2e5)
    elif case == "ts":
        o = k.outcome(Target.maker, "Moon", transition_scale_type="cheese")
    elif case == "unknown":
        o = k.outcome(Target.maker, "Nibiru")
    elif case == "unknown-no-mass":
        o = k.outcome(Target.maker, "Nibiru", radius=1e5, transition_scale_type="ice")
    elif case == "unknown-no-size":
        o = k.outcome(Target.maker, "Nibiru", mass=1e18, transition_scale_type="ice")
    elif case == "type":
        o = k.outcome(Target.maker, 42)
    elif case == "material":
        o = k.outcome(Target.maker, "Moon", material=7)
    else:
        o = k.outcome(Target.maker, "Moon", density="heavy")
    k.ensure("rejected", o.raised(ValueError, TypeError, RuntimeError, KeyError), lambda: (case, o))
    t = k.call(Target.maker, "Bennu", **full)
    for a in ("radius", "mass", "density"):
        o = k.set_outcome(t, a, bad)
        k.ensure("setter-rejects", o.raised(ValueError), lambda: (a, o))
    k.ensure("unchanged-by-rejected-values", k.and_(k.eq(k.get(t, "radius"), 1e5), k.eq(k.get(t, "mass"), 1e18)))


@scenario("C10", "catalogue_is_the_published_one", functions=[T + "__init__"], bounded=INDEX)
def s4(k):
    name = k.choice("body", sorted(BODIES))
    R, GM = BODIES[name]
    t = k.call(Target.maker, name)
    k.ensure("radius", k.eq(k.get(t, "radius"), R * 1e3, rtol=2e-2), lambda: (name, t.radius))
    k.ensure("surface-gravity", k.eq(k.get(t, "gravity"), GM * 1e9 / (R * 1e3) ** 2, rtol=2e-2 if R > 100 else 0.25), lambda: (name, t.gravity))
    k.ensure("transition", k.get(t, "transition_scale_type") == ("ice" if name in ICE else "silicate"), name)
    k.ensure("surface-density", k.eq(k.get(t, "density"), DENS[k.get(t, "material")]))
    rho = t.mass / t.volume
    k.ensure("bulk-density-plausible", 800 < rho < 6000, lambda: (name, rho))


@scenario("C10", "default_and_passthrough", functions=[T + "maker"])
def s5(k):
    t = k.call(Target.maker, None)
    k.ensure("default-is-the-moon", k.get(t, "name") == "Moon")
    r = k.real("r", 0, lo_open=True, sample=(1e2, 1e8))
    u = k.call(Target.maker, "Moon", radius=r)
    v = k.call(Target.maker, u)
    k.ensure("an-existing-target-is-used-as-is", v is u and k.truth(k.eq(k.get(v, "radius"), r)))
