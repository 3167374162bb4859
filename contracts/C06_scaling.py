"""C06: projectile, transient and final sizes are related by consistent, invertible, monotone scaling laws."""
import math

import numpy as np

from cratermaker import Projectile, Scaling, Target
from contracts._common import NORM_CONTRACT, ROOT, ROOT_MODELS
from pyvc.core import SymBase
from pyvc.kit import scenario

M = "cratermaker.components.scaling.montecarlo:MonteCarloScaling."
CT = "cratermaker.components.scaling.ctem:CTEMScaling."


MODELS, CONTRACTS = ROOT_MODELS, NORM_CONTRACT


def mk(k, model=None, mc=None, rng=None, sizes=False, **kw):
    """A scaling model on an arbitrary body with an arbitrary projectile."""
    R = k.real("R", 0, lo_open=True, sample=(1e5, 7e6))
    g = k.real("g", 0, lo_open=True, sample=(0.1, 12.0))
    scale = k.choice("scale", ["silicate", "ice"])
    mass = g * R * R / 6.674e-11
    t = k.call(Target, "Body", radius=R, mass=mass, transition_scale_type=scale, material="Soft Rock")
    v = k.real("v", 0, lo_open=True, sample=(500.0, 7e4))
    ang = k.real("ang", 0, 90, lo_open=True, sample=(5.0, 90.0))
    rho = k.real("rho", 0, lo_open=True, sample=(500.0, 8000.0))
    p = k.call(Projectile.maker, "generic", target=t, sample=False, velocity=v, angle=ang, direction=0.0, location=(0.0, 0.0), density=rho)
    model = model or k.choice("model", ["montecarlo", "ctem"])
    if model == "montecarlo":
        kw["monte_carlo_scaling"] = k.bool("mc") if mc is None else mc
    if rng is not None:
        kw["rng"] = rng
    s = k.call(Scaling.maker, model, target=t, projectile=p, **kw)
    return s, model, kw.get("monte_carlo_scaling", False)


def consts(k, s):
    return tuple(k.get(s, n) for n in ("simple_enlargement_factor", "complex_enlargement_factor", "final_exp", "transition_diameter",
                                       "transition_nominal"))


def law(k, s, D, simple):
    """The final -> transient relation."""
    sef, cef, fe, T, _ = consts(k, s)
    if simple:
        return D / sef
    return D / (sef * cef) * k.f("pow", D / T, -fe)


def size(k, s, name, ref=None):
    """A size, generated around the transition diameter in the concrete reading."""
    x = k.real(name, 0, lo_open=True, sample=(1e-3, 30.0), hints=(0.5, 1.0, 2.0, 0.84))
    return x if k.sym else x * float(ref if ref is not None else s.transition_nominal)


@scenario("C06", "final_to_transient", functions=[M + "final_to_transient", M + "_get_morphology_type", M + "_f2t_simple", M + "_f2t_complex",
          M + "recompute", CT + "recompute"], models=MODELS, contracts=CONTRACTS, budget=100)
def s1(k):
    rng = k.rng()
    s, model, mc = mk(k, rng=rng)
    sef, cef, fe, T, nom = consts(k, s)
    n0 = len(rng.log)
    D = size(k, s, "D")
    td, mt = k.call(s.final_to_transient, D)
    k.ensure("positive", td > 0)
    lo, hi = k.truth(D < 0.5 * nom), k.truth(D > 2 * nom)
    if lo:
        k.ensure("small-craters-are-simple", mt == "simple", lambda: (D / nom, mt))
    elif hi:
        k.ensure("large-craters-are-complex", mt == "complex", lambda: (D / nom, mt))
    elif not mc:
        k.ensure("in-between-is-transitional", mt == "transitional", lambda: (D / nom, mt))
    elif k.truth(D < nom):
        k.ensure("in-between-type", mt in ("simple", "transitional"))
    else:
        k.ensure("in-between-type", mt in ("complex", "transitional"))
    for p in rng.probs:
        k.ensure("probabilities", k.and_(*[k.and_(x >= 0, x <= 1) for x in p], k.eq(sum(p), 1.0)))
    k.ensure("relation", k.eq(td, law(k, s, D, mt == "simple")), lambda: (D, mt, td))
    if not mc:
        k.ensure("deterministic-models-draw-nothing", len(rng.log) == n0 and not rng.probs)


@scenario("C06", "type_is_certain_at_the_seams", functions=[M + "final_to_transient", M + "_get_morphology_type"], models=MODELS,
          contracts=CONTRACTS, budget=100)
def s1c(k):
    """The chance of each type is continuous: no size is drawn as a type its neighbours on the other side of a seam never have."""
    rng = k.rng()
    s, model, mc = mk(k, model="montecarlo", mc=True, rng=rng)
    nom = consts(k, s)[4]
    f, want = k.choice("seam", [(0.5, "simple"), (1, "transitional"), (2, "complex")])
    _, mt = k.call(s.final_to_transient, nom * f)
    k.ensure("type-at-the-seam", mt == want, lambda: (f, mt))


@scenario("C06", "type_follows_size", functions=[M + "_get_morphology_type"],
          search_only="frequencies of 200 draws of the real generator at three sizes of each half of the transition range", search_s=3, search_n=40)
def s1d(k):
    s, model, mc = mk(k, model="montecarlo", mc=True, rng=np.random.default_rng(k.int("seed", 0, 10**6)))
    nom = s.transition_nominal
    n = 200
    def freq(f, kind):
        return sum(s.final_to_transient(nom * f)[1] == kind for _ in range(n)) / n
    a, b, c = freq(0.55, "simple"), freq(0.75, "simple"), freq(0.95, "simple")
    k.ensure("simple-becomes-rarer", a > b > c and a > 0.6 and c < 0.4, lambda: (a, b, c))
    a, b, c = freq(1.1, "complex"), freq(1.5, "complex"), freq(1.9, "complex")
    k.ensure("complex-becomes-commoner", a < b < c and a < 0.4 and c > 0.6, lambda: (a, b, c))


@scenario("C06", "morphology_can_be_given", functions=[M + "final_to_transient"], models=MODELS, contracts=CONTRACTS, budget=60)
def s1b(k):
    s, model, mc = mk(k, model="montecarlo", mc=False)
    D = size(k, s, "D")
    mt = k.choice("mt", ["simple", "transitional", "complex"])
    td, out = k.call(s.final_to_transient, D, morphology_type=mt)
    k.ensure("type-kept", out == mt)
    k.ensure("relation", k.eq(td, law(k, s, D, mt == "simple")))


@scenario("C06", "transient_to_final_inverts", functions=[M + "transient_to_final", M + "_get_morphology_type", M + "_f2t_complex"],
          models=MODELS, contracts=CONTRACTS, budget=150, assumes=[ROOT, "the simple and complex final sizes are not exactly equal (the code divides by their difference)"], search_s=5)
def s2(k):
    rng = k.rng()
    s, model, mc = mk(k, rng=rng)
    sef, cef, fe, T, nom = consts(k, s)
    td = size(k, s, "td")
    k.assume(law(k, s, td * sef, False) != td)   # the two relations do not cross exactly at this size (0/0 in the code)
    D, mt = k.call(s.transient_to_final, td)
    k.ensure("known-type", str(mt) in ("simple", "transitional", "complex"))
    k.ensure("positive", D > 0)
    k.ensure("inverse-of-the-forward-relation", k.eq(law(k, s, D, mt == "simple"), td, rtol=1e-6), lambda: (td, D, mt))
    if not k.sym:
        td2, mt2 = s.final_to_transient(D, morphology_type=str(mt))
        k.ensure("round-trip", k.eq(td2, td, rtol=1e-6), lambda: (td, D, mt, td2))


@scenario("C06", "deterministic_round_trip", functions=[M + "transient_to_final", M + "final_to_transient"],
          search_only="root finding on the real code: generated sizes away from the transition", search_s=4)
def s2b(k):
    s, model, mc = mk(k, mc=False)
    D = size(k, s, "D")
    nom = s.transition_nominal
    k.assume(D < 0.5 * nom or D > 3 * nom)
    td, mt = s.final_to_transient(D)
    D2, mt2 = s.transient_to_final(td)
    k.ensure("final-transient-final", k.eq(D, D2, rtol=1e-6) and mt == mt2, lambda: (D, mt, td, D2, mt2))
    k.ensure("final-larger-than-transient", D >= td * (1 - 1e-9), lambda: (D, td))


@scenario("C06", "projectile_to_transient", functions=[M + "projectile_to_transient"], models=MODELS, contracts=CONTRACTS, budget=100)
def s3(k):
    s, model, mc = mk(k, model="montecarlo", mc=False)
    d = k.real("d", 0, lo_open=True, sample=(1e-3, 1e5))
    td = k.call(s.projectile_to_transient, d)
    k.ensure("never-smaller-than-the-projectile", k.le(d, td), lambda: (d, td))
    K1, mu, Y = (k.get(s, n) for n in ("K1", "mu", "Ybar"))
    t, p = k.get(s, "target"), k.get(s, "projectile")
    rt, rp, g, vv = k.get(t, "density"), k.get(p, "density"), k.get(t, "gravity"), k.get(p, "vertical_velocity")
    if not k.sym:
        r = d / 2
        pi2, pi3, pi4 = g * r / vv**2, Y / (rt * vv**2), rt / rp
        V = K1 * (pi2 * pi4 ** (-1 / 3) + pi3 ** (1 + mu / 2)) ** (-3 * mu / (2 + mu)) * (4 / 3 * math.pi * r**3 * rp) / rt
        k.ensure("pi-group-law", k.eq(td, max(d, 2 * (3 * V / math.pi) ** (1 / 3)), rtol=1e-7), lambda: (d, td))


@scenario("C06", "larger_impacts_larger_craters", functions=[M + "projectile_to_transient", M + "final_to_transient"],
          models=MODELS, contracts=CONTRACTS, budget=100)
def s3b(k):
    """Final to transient and back is monotone within each morphology."""
    s, model, mc = mk(k, mc=False)
    D1, f = size(k, s, "D"), k.real("f", 1, lo_open=True, sample=(1.0001, 100.0))
    D2 = D1 * f
    mt = k.choice("mt", ["simple", "complex"])
    a, _ = k.call(s.final_to_transient, D1, morphology_type=mt)
    b, _ = k.call(s.final_to_transient, D2, morphology_type=mt)
    k.ensure("transient-size-grows-with-final-size", a < b, lambda: (D1, D2, a, b))


@scenario("C06", "transient_size_responds_to_the_impact", functions=[M + "projectile_to_transient"],
          search_only="monotonicity of the pi-group law in each argument, on generated pairs", search_s=4)
def s3c(k):
    s, model, mc = mk(k, mc=False)
    d = k.real("d", 1e-2, 1e5)
    a = s.projectile_to_transient(d)
    what = k.choice("what", ["size", "velocity", "density", "gravity", "strength"])
    f = k.real("f", 1.01, 20.0)
    p = s.projectile
    if what == "size":
        b = s.projectile_to_transient(d * f)
    elif what == "strength":
        s.Ybar = s.Ybar * f
        b = s.projectile_to_transient(d)
        a, b = b, a
    elif what == "gravity":
        s.target.mass = s.target.mass * f
        b = s.projectile_to_transient(d)
        a, b = b, a
    else:
        kw = {"velocity": p.velocity, "angle": p.angle, "density": p.density}
        kw[what] *= f
        q = Projectile.maker("generic", target=s.target, sample=False, direction=0.0, location=(0.0, 0.0), **kw)
        s.projectile = q
        b = s.projectile_to_transient(d)
    k.ensure("monotone:" + what, a <= b * (1 + 1e-12), lambda: (what, a, b))


@scenario("C06", "transient_to_projectile_inverts", functions=[M + "transient_to_projectile", M + "projectile_to_transient"], models=MODELS,
          contracts=CONTRACTS, budget=120, assumes=[ROOT], search_s=5)
def s4(k):
    s, model, mc = mk(k, model="montecarlo", mc=False)
    td = k.real("td", 0, lo_open=True, sample=(1.0, 1e6))
    d = k.call(s.transient_to_projectile, td)
    k.ensure("positive", d > 0)
    k.ensure("projectile-makes-that-transient", k.eq(k.call(s.projectile_to_transient, d), td, rtol=1e-6), lambda: (td, d))


BAD = ["neg", "zero", "inf", "nan", "str", "none"]


@scenario("C06", "invalid_sizes_rejected", functions=[M + n for n in ("final_to_transient", "transient_to_final", "projectile_to_transient",
          "transient_to_projectile", "_get_morphology_type")], models=MODELS, contracts=CONTRACTS, budget=100)
def s5(k):
    t = Target("Moon")
    p = Projectile.maker("generic", target=t, sample=False, velocity=2e4, angle=45.0, direction=0.0, location=(0.0, 0.0))
    s = Scaling.maker(k.choice("model", ["montecarlo", "ctem"]), target=t, projectile=p, monte_carlo_scaling=False)
    fn = k.choice("fn", ["final_to_transient", "transient_to_final", "projectile_to_transient", "transient_to_projectile"])
    x = k.real("x", hi=0, sample=(-1e6, 0.0))
    bad = {"neg": x, "zero": 0.0, "inf": math.inf, "nan": math.nan, "str": "10", "none": None}[k.choice("bad", BAD)]
    o = k.outcome(getattr(s, fn), bad)
    k.ensure("rejected-with-ValueError", o.raised(ValueError), lambda: (fn, bad, o))


@scenario("C06", "model_constants", functions=[M + "recompute", CT + "recompute", M + "__init__"], models=MODELS, contracts=CONTRACTS, budget=100)
def s6(k):
    rng = k.rng()
    s, model, mc = mk(k, rng=rng)
    sef, cef, fe, T, nom = consts(k, s)
    k.ensure("positive", k.and_(sef > 0, cef > 0, fe > 0, fe < 1, T > 0, nom > 0))
    k.ensure("enlargement", sef * cef >= 1)
    g = k.get(k.get(s, "target"), "gravity")
    kind = k.get(k.get(s, "target"), "transition_scale_type")
    if model == "ctem":
        fac, ex = (16533.8, -1.0303) if kind == "silicate" else (3081.39, -1.22486)
        k.ensure("nominal-transition", k.eq(nom, fac * k.f("pow", g, ex)), lambda: (nom, g))
        k.ensure("exponent", k.eq(fe, 1 / 0.885 - 1.0 if kind == "silicate" else 0.155))
    else:
        A, B = (-0.5484575694575697, 4.201369948094472) if kind == "silicate" else (-0.7066985617230864, 3.52268633631802)
        if not k.sym:
            k.ensure("nominal-transition", k.eq(nom, 10 ** (A * math.log10(g) + B), rtol=1e-7), lambda: (nom, g))
    if not mc:
        k.ensure("no-variability", k.and_(k.eq(sef, 1.0 / 0.84), k.eq(cef, 1.02), k.eq(T, nom)))
        if model == "montecarlo":
            k.ensure("exponent", k.eq(fe, 0.079))
        k.ensure("no-draws", not [x for x in rng.log])
    else:
        k.ensure("variability-bounded", k.and_(sef >= 1 / 0.88001, sef <= 1 / 0.79999, fe >= 0.0789 - 1e-12, fe <= 0.0791 + 1e-12))


@scenario("C06", "material_parameters", functions=[M + "K1", M + "mu", M + "Ybar", M + "material", M + "__init__"], models=MODELS,
          contracts=CONTRACTS, budget=100)
def s7(k):
    t = Target("Moon")
    p = Projectile.maker("generic", target=t, sample=False, velocity=2e4, angle=45.0, direction=0.0, location=(0.0, 0.0))
    cat = {"Water": (2.3, 0.55, 0.0, 1000.0), "Sand": (0.24, 0.41, 0.0, 1750.0), "Dry Soil": (0.24, 0.41, 0.18e6, 1500.0),
           "Wet Soil": (0.2, 0.55, 1.14e6, 2000.0), "Soft Rock": (0.2, 0.55, 7.6e6, 2250.0), "Hard Rock": (0.2, 0.55, 18.0e6, 2500.0),
           "Ice": (15.625, 0.48, 0.0, 900.0)}
    mat = k.choice("mat", list(cat))
    over = k.choice("over", ["none", "K1", "mu", "Ybar", "density", "all"])
    x = k.real("x", 0, lo_open=True, sample=(0.01, 1e4))
    kw = {} if over == "none" else ({n: x for n in ("K1", "mu", "Ybar", "density")} if over == "all" else {over: x})
    s = k.call(Scaling.maker, "montecarlo", target=t, projectile=p, material=mat, monte_carlo_scaling=False, **kw)
    for n, want in zip(("K1", "mu", "Ybar"), cat[mat][:3], strict=True):
        k.ensure("explicit-over-catalogue:" + n, k.eq(k.get(s, n), kw.get(n, want)), lambda n=n: (mat, over, n, k.get(s, n)))
    k.ensure("explicit-over-catalogue:density", k.eq(k.get(k.get(s, "target"), "density"), kw.get("density", cat[mat][3])))
    n = k.choice("n", ["K1", "mu", "Ybar"])
    y = k.real("y", hi=0, hi_open=True, sample=(-1e3, -1e-9))
    before = k.get(s, n)
    o = k.set_outcome(s, n, y)
    k.ensure("negative-rejected", o.raised(ValueError), lambda: o)
    k.ensure("unchanged-after-rejection", k.eq(k.get(s, n), before))


CAT = {"Water": (2.3, 0.55, 0.0, 1000.0), "Sand": (0.24, 0.41, 0.0, 1750.0), "Dry Soil": (0.24, 0.41, 0.18e6, 1500.0), "Wet Soil": (0.2, 0.55, 1.14e6, 2000.0),
       "Soft Rock": (0.2, 0.55, 7.6e6, 2250.0), "Hard Rock": (0.2, 0.55, 18.0e6, 2500.0), "Ice": (15.625, 0.48, 0.0, 900.0)}


@scenario("C06", "the_model_follows_its_bodies", functions=[M + "recompute", CT + "recompute", M + "material", M + "__init__"], models=MODELS, contracts=CONTRACTS, budget=150)
def follow(k):
    """What the model knows of its target and projectile is what they are now, whatever they were before."""
    s, model, mc = mk(k, mc=False)
    t, p = k.get(s, "target"), k.get(s, "projectile")
    what = k.choice("what", ["gravity", "kind", "material", "densities"])
    if what in ("gravity", "kind"):
        if what == "gravity":
            k.set(t, "radius", k.real("R2", 0, lo_open=True, sample=(1e5, 7e6)))
            k.set(t, "mass", k.real("m2", 0, lo_open=True, sample=(1e18, 1e25)))
        else:
            k.set(t, "transition_scale_type", "ice" if k.get(t, "transition_scale_type") == "silicate" else "silicate")
        k.call(s.recompute)
        new = k.call(Scaling.maker, model, target=t, projectile=p, **({"monte_carlo_scaling": False} if model == "montecarlo" else {}))
        for n, a, b in zip(("simple_enlargement_factor", "complex_enlargement_factor", "final_exp", "transition_diameter", "transition_nominal"), consts(k, s), consts(k, new), strict=True):
            k.ensure("as-a-fresh-model:" + n, k.eq(a, b), lambda n=n, a=a, b=b: (n, a, b))
    elif what == "material":
        mat = k.choice("material", sorted(CAT))
        k.set(s, "material", k.choice("case", [mat, mat.lower()]))
        for n, want in zip(("K1", "mu", "Ybar"), CAT[mat][:3], strict=True):
            k.ensure("of-the-new-material:" + n, k.eq(k.get(s, n), want), lambda n=n: (mat, n, k.get(s, n)))
        k.ensure("of-the-new-material:density", k.eq(k.get(t, "density"), CAT[mat][3]))
    else:
        rt, rp = k.real("rt", 0, lo_open=True, sample=(500.0, 8000.0)), k.real("rp", 0, lo_open=True, sample=(500.0, 8000.0))
        mat = k.choice("material", ["Soft Rock", "Sand"])
        t2 = k.call(Target.maker, "Moon", density=rt, material=mat)
        q = k.call(Projectile.maker, "generic", target=t2, sample=False, velocity=2e4, angle=45.0, direction=0.0, location=(0.0, 0.0), density=rp)
        new = k.call(Scaling.maker, model, target=t2, projectile=q)
        k.ensure("the-targets-own-density-is-kept", k.eq(k.get(t2, "density"), rt), lambda: k.get(t2, "density"))
        k.ensure("the-targets-own-material", k.get(new, "material") == mat)
        k.ensure("the-projectiles-own-density-is-kept", k.eq(k.get(k.get(new, "projectile"), "density"), rp), lambda: k.get(k.get(new, "projectile"), "density"))
