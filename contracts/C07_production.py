"""C07: production functions are separable, additive in time, decreasing in size and invertible."""
import numpy as np
import z3

from cratermaker import Production
from contracts._common import ROOT, ROOT_MODELS
from pyvc import core
from pyvc.core import SBool, SymBase
from pyvc.kit import scenario

B = "cratermaker.components.production:Production."
N = "cratermaker.components.production.neukum:NeukumProduction."
W = "cratermaker.components.production.powerlaw:PowerLawProduction."

# Published coefficients (Neukum, Ivanov & Hartmann 2001; Ivanov 2001): the oracle
SFD = {"Moon": [-3.0876, -3.557528, 0.781027, 1.021521, -0.156012, -0.444058, 0.019977, 0.086850, -0.005874, -0.006809, 8.25e-4, 5.54e-5],
       "Mars": [-3.384, -3.197, 1.257, 0.7915, -0.4861, -0.3630, 0.1016, 6.756e-2, -1.181e-2, -4.753e-3, 6.233e-4, 5.805e-5]}
RANGE = {"Moon": (10.0, 1000.0e3), "Mars": (15.0, 362.0e3)}


def mk(k, which=("Moon", "Mars", "power law")):
    m = k.choice("model", list(which))
    if m == "power law":
        N1 = k.real("N1", 0, lo_open=True, sample=(1e-9, 1.0))
        slope = k.real("slope", -6, 6, hints=(-3.3, 3.3))
        k.assume(slope != 0)
        return k.call(Production.maker, "powerlaw", N1_coef=N1, slope=slope), m
    return k.call(Production.maker, "neukum", target=m), m


def diam(k, name="D", m=None):
    return k.real(name, 0, lo_open=True, sample=(0.1, 3e6), log=True, hints=(10.0, 15.0, 362e3, 1e6, 1e3))


def age(k, name, m):
    return k.real(name, 0, 4500.0, hints=(0.0, 1000.0, 4500.0))


def sc(x):
    """The scalar a scalar question is answered with (0-d arrays included)."""
    return x.item() if isinstance(x, np.ndarray) and x.size == 1 else x


def fn(k, p, *a, **kw):
    return sc(k.call(p.function, *a, **kw))


@scenario("C07", "function_is_csfd_times_chronology", functions=[N + "function", N + "chronology", W + "function", W + "chronology", W + "csfd"])
def s1(k):
    p, m = mk(k)
    D = diam(k)
    t1, t0 = age(k, "t1", m), age(k, "t0", m)
    k.assume(t1 >= t0)
    n = fn(k, p, D, t1, t0)
    k.ensure("separable", k.eq(n, sc(k.call(p.csfd, D)) * sc(k.call(p.chronology, t1, t0)), atol=0))
    k.ensure("default-window-ends-now", k.eq(fn(k, p, D, t1), fn(k, p, D, t1, 0.0), atol=0))
    k.ensure("age-keyword", k.eq(fn(k, p, D, age=t1), fn(k, p, D, t1), atol=0))


@scenario("C07", "production_accumulates", functions=[N + "function", N + "chronology", W + "function"])
def s2(k):
    p, m = mk(k)
    D = diam(k)
    t2, t1, t0 = age(k, "t2", m), age(k, "t1", m), age(k, "t0", m)
    k.assume(k.and_(t2 >= t1, t1 >= t0))
    a, b, c = fn(k, p, D, t2, t0), fn(k, p, D, t2, t1), fn(k, p, D, t1, t0)
    k.ensure("never-negative", k.and_(a >= 0, b >= 0, c >= 0), lambda: (a, b, c))
    k.ensure("additive-over-adjacent-windows", k.eq(a, b + c, rtol=1e-6, atol=1e-9 * (a if not k.sym else 1)), lambda: (a, b, c))
    k.ensure("longer-windows-make-more", k.le(c, a))
    k.ensure("empty-window-makes-none", k.eq(fn(k, p, D, t1, t1), 0.0, atol=0))
    if k.truth(t1 > t0 + 1e-3):
        k.ensure("strictly-more", c > 0, lambda: c)


@scenario("C07", "chronology_is_the_published_one", functions=[N + "chronology", N + "Cexp", N + "Clin", N + "tau"])
def s3(k):
    p, m = mk(k, ("Moon", "Mars"))
    t = age(k, "t", m)
    clin = 10 ** SFD[m][0]
    cexp = 5.44e-14 * clin / 10 ** SFD["Moon"][0]
    want = 1e-6 * (cexp * (k.f("exp", t * 1e-3 * 6.93) - 1) + clin * t * 1e-3)
    got = sc(k.call(p.chronology, t))
    k.ensure("published-chronology", k.eq(got, want, rtol=1e-9, atol=1e-22), lambda: (t, got, want))


def poly(k, c, y):
    s = 0
    for i, a in enumerate(c):
        s = s + a * y**i
    return s


@scenario("C07", "csfd_is_the_published_one", functions=[N + "csfd", N + "sfd_tables", N + "sfd_range"])
def s4(k):
    p, m = mk(k, ("Moon", "Mars"))
    lo, hi = RANGE[m]
    D = k.real("D", lo, hi, log=True, hints=(1e3,))
    y = k.f("log10", D * 1e-3)
    want = 1e3 * k.f("pow", 10.0, poly(k, SFD[m], y))
    got = sc(k.call(p.csfd, D))
    k.ensure("published-polynomial", k.eq(got, want, rtol=1e-8, atol=0), lambda: (m, D, got, want))
    k.ensure("positive", got > 0)


@scenario("C07", "csfd_decreases_inside_the_calibrated_range", functions=[N + "csfd", N + "sfd_coef"],
          assumes=["a differentiable function with a negative derivative on an interval decreases strictly there; the derivative is that of "
                   "the polynomial csfd_is_the_published_one ties the code to"])
def s5(k):
    p, m = mk(k, ("Moon", "Mars"))
    lo, hi = RANGE[m]
    if k.sym:
        y = core.fresh_real("y")
        k.assume(k.and_(y >= float(np.log10(lo * 1e-3)), y <= float(np.log10(hi * 1e-3))))
        c = list(k.get(p, "sfd_coef"))
        k.ensure("negative-derivative", poly(k, [i * a for i, a in enumerate(c)][1:], y) < 0)
    else:
        d1 = k.real("d1", lo, hi, log=True)
        f = k.real("f", 1.0, 10.0, lo_open=True)
        k.assume(d1 * f <= hi and f > 1 + 1e-9)
        k.ensure("decreasing", sc(p.csfd(d1)) > sc(p.csfd(d1 * f)), lambda: (d1, d1 * f))


@scenario("C07", "csfd_extrapolates_continuously_and_decreases", functions=[N + "csfd"])
def s6(k):
    p, m = mk(k, ("Moon", "Mars"))
    lo, hi = RANGE[m]
    side = k.choice("side", ["lo", "hi"])
    edge = lo if side == "lo" else hi
    A = sc(k.call(p.csfd, edge))
    r = k.real("r", 0, 1, lo_open=True, hi_open=True, sample=(1e-4, 1.0))
    r2 = k.real("r2", 0, 1, lo_open=True, hi_open=True, sample=(1e-4, 1.0))
    k.assume(r2 < r)
    near = edge * r if side == "lo" else edge / r       # nearer to the edge than far
    far = edge * r2 if side == "lo" else edge / r2
    n1, n2 = sc(k.call(p.csfd, near)), sc(k.call(p.csfd, far))
    k.ensure("positive", k.and_(n1 > 0, n2 > 0))
    if side == "lo":
        k.ensure("decreasing", k.and_(k.le(A, n1), k.le(n1, n2)), lambda: (A, n1, n2))
    else:
        k.ensure("decreasing", k.and_(k.le(n1, A), k.le(n2, n1)), lambda: (A, n1, n2))


@scenario("C07", "csfd_has_no_jump_at_the_edges", functions=[N + "csfd"], search_only="continuity checked at the edges of the calibrated range of "
          "each model, at distances 1e-9..1e-3", search_s=2)
def s6b(k):
    p, m = mk(k, ("Moon", "Mars"))
    edge = k.choice("edge", RANGE[m])
    e = 10 ** k.real("e", -9, -3)
    a, b = sc(p.csfd(edge * (1 - e))), sc(p.csfd(edge * (1 + e)))
    k.ensure("continuous", a > b and a / b < 1 + 20 * e + 1e-9, lambda: (m, edge, e, a, b))


@scenario("C07", "power_law", functions=[W + "__init__", W + "csfd", W + "slope", W + "N1_coef", W + "function"])
def s7(k):
    p, m = mk(k, ("power law",))
    N1, slope = k.get(p, "N1_coef"), k.get(p, "slope")
    if k.bool("assign"):
        s = k.real("s", -6, 6, hints=(2.0, -2.0))
        k.assume(s != 0)
        k.set(p, "slope", s)
        slope = k.get(p, "slope")
        k.ensure("assigned-size", k.or_(slope == s, slope == -s))
    k.ensure("negative-slope", slope < 0, lambda: slope)
    D1, D2 = diam(k, "D1"), diam(k, "D2")
    k.assume(D1 < D2)
    t = age(k, "t", m)
    a, b = fn(k, p, D1, t), fn(k, p, D2, t)
    k.ensure("relation", k.eq(a, N1 * k.f("pow", D1, slope) * t, atol=0), lambda: (a, D1, t))
    k.ensure("decreasing", k.le(b, a), lambda: (a, b))


@scenario("C07", "power_law_inputs_validated", functions=[W + "__init__", W + "slope", W + "N1_coef"])
def s7b(k):
    x = k.real("x", -1e6, 0, hi_open=True)
    o = k.outcome(Production.maker, "powerlaw", N1_coef=x)
    k.ensure("negative-coefficient-rejected", o.raised(ValueError), lambda: o)
    p = k.call(Production.maker, "powerlaw")
    n0, s0 = k.get(p, "N1_coef"), k.get(p, "slope")
    o = k.set_outcome(p, "N1_coef", x)
    k.ensure("negative-coefficient-rejected", o.raised(ValueError), lambda: o)
    for bad in ("3", None, [1.0]):
        k.ensure("non-numbers-rejected", k.and_(k.set_outcome(p, "N1_coef", bad).raised(TypeError), k.set_outcome(p, "slope", bad).raised(TypeError)))
    k.ensure("nothing-changed", k.and_(k.get(p, "N1_coef") == n0, k.get(p, "slope") == s0))


@scenario("C07", "age_of_a_number_density", functions=[B + "age_from_D_N"], models=ROOT_MODELS, assumes=[ROOT])
def s8(k):
    p, m = mk(k, ("Moon", "Mars"))
    D = diam(k)
    if k.sym:
        n = k.real("n", 0)
    else:
        n = float(fn(k, p, D, k.real("t", 0, 4500)))
    t = k.call(p.age_from_D_N, D, n)
    k.ensure("in-the-valid-times", k.and_(t >= 0, t <= 4500))
    k.ensure("produces-that-number", k.eq(fn(k, p, D, t), n, rtol=1e-5, atol=1e-9 * n if not k.sym else 0), lambda: (D, n, t))


@scenario("C07", "age_of_a_number_density_power_law", functions=[B + "age_from_D_N"], models=ROOT_MODELS, assumes=[ROOT])
def s8b(k):
    p, m = mk(k, ("power law",))
    D = diam(k)
    t0 = age(k, "t", m)
    n = fn(k, p, D, t0)
    k.assume(n > 1e-300)
    t = k.call(p.age_from_D_N, D, n)
    k.ensure("returns-the-age", k.eq(t, t0, rtol=1e-5, atol=1e-6), lambda: (D, n, t0, t))


@scenario("C07", "size_of_a_number_density", functions=[B + "D_from_N_age"], models=ROOT_MODELS, assumes=[ROOT])
def s9(k):
    p, m = mk(k)
    t1, t0 = age(k, "t1", m), age(k, "t0", m)
    k.assume(t1 > t0 + 1)
    if k.sym:
        n = k.real("n", 0, lo_open=True)
    else:
        n = float(fn(k, p, k.real("Dn", 1e-1, 9e5, log=True), t1, t0))
        if not n > 0 or not float(fn(k, p, 1e-6, t1, t0)) > n > float(fn(k, p, 1e6, t1, t0)):
            return
    D = k.call(p.D_from_N_age, n, t1, t0)
    k.ensure("produces-that-number", k.eq(fn(k, p, D, t1, t0), n, rtol=1e-3, atol=0), lambda: (n, t1, t0, D))


@scenario("C07", "arrays_answer_elementwise", functions=[B + "age_from_D_N", B + "D_from_N_age", N + "function", W + "function"],
          search_only="arrays of 1..4 diameters and times against the scalar answers", search_s=3)
def s10(k):
    p, m = mk(k)
    nd, nt = k.int("nd", 1, 4), k.int("nt", 1, 4)
    Ds = [diam(k, f"D{i}") for i in range(nd)]
    ts = [k.real(f"t{i}", 1.0, 4000.0) for i in range(nt)]
    wrap = k.choice("wrap", [list, np.array])
    a = p.function(wrap(Ds), wrap(ts))
    k.ensure("shape", a.shape == (nd, nt), lambda: a.shape)
    for i in range(nd):
        for j in range(nt):
            k.ensure("elementwise", k.eq(float(a[i, j]), float(fn(k, p, Ds[i], ts[j])), atol=0))
    # whole numbers of My answer like the same numbers written with a decimal point; the second time may be one for all or one each
    whole = wrap([int(t) for t in ts])
    e = k.real("end", 0.0, 1.0)
    ends = [e * int(t) for t in ts]
    for end, each in ((e, [e] * nt), (int(ts[0] > 4000), [int(ts[0] > 4000)] * nt), (wrap(ends), ends)):
        a2 = p.function(wrap(Ds), whole, end)
        k.ensure("shape", a2.shape == (nd, nt), lambda: a2.shape)
        for i in range(nd):
            for j in range(nt):
                k.ensure("between-two-times", k.eq(float(a2[i, j]), float(fn(k, p, Ds[i], float(int(ts[j])), float(each[j]))), atol=0), lambda: (Ds, ts, end))
    c = p.csfd(np.array(Ds))
    b = p.function(wrap(Ds), ts[0])
    k.ensure("shape", np.shape(b) == (nd,))
    for i in range(nd):
        k.ensure("elementwise", k.eq(float(b[i]), float(fn(k, p, Ds[i], ts[0])), atol=0) and k.eq(float(c[i]), float(sc(p.csfd(Ds[i]))), atol=0))
    tt = p.age_from_D_N(wrap(Ds), wrap([float(x) for x in b]))
    k.ensure("ages-elementwise", len(tt) == nd and all(abs(x - ts[0]) <= 1e-4 * ts[0] + 1e-3 for x in tt), lambda: (m, Ds, ts[0], tt))


@scenario("C07", "projectile_population_decreases", functions=[N + "csfd"], search_only="the projectile version integrates its relative "
          "distribution numerically: generated sizes", search_s=4)
def s11(k):
    p = Production.maker("neukum", version="projectile", target=k.choice("t", ["Moon", "Mars", "Earth", "Venus"]))
    k.ensure("makes-projectiles", p.generator_type == "projectile" and p.version == "Projectile")
    d = k.real("d", 0.2, 1e5, log=True)
    f = k.real("f", 1.001, 10.0)
    a, b = float(sc(p.csfd(d))), float(sc(p.csfd(d * f)))
    k.ensure("positive-and-decreasing", a > b > 0, lambda: (d, f, a, b))


@scenario("C07", "invalid_questions_rejected", functions=[B + "_validate_csfd", B + "_validate_age", N + "function", W + "function"])
def s12(k):
    p, m = mk(k)
    D, t = diam(k), age(k, "t", m)
    x = k.real("x", -1e6, 0, hi_open=True)
    k.assume(t > 0)
    case = k.choice("case", ["negative diameter", "negative density", "window reversed", "time not a number", "nothing", "lengths"])
    if case == "negative diameter":
        o = k.outcome(p.function, x, t)
        o2 = k.outcome(p.age_from_D_N, x, 1e-9)
    elif case == "negative density":
        o = o2 = k.outcome(p.age_from_D_N, D, x)
    elif case == "window reversed":
        t2 = k.real("t2", 0, 4500)
        k.assume(t2 > t)
        o = k.outcome(p.function, D, t, t2)
        o2 = k.outcome(p.chronology, t, t2)
    elif case == "time not a number":
        o = k.outcome(p.function, D, "10")
        o2 = k.outcome(p.function, D, t, "10")
        k.ensure("rejected", o.raised(TypeError, ValueError) and o2.raised(TypeError, ValueError), lambda: (case, o, o2))
        return
    elif case == "nothing":
        o = o2 = k.outcome(p.age_from_D_N, None, None)
    else:
        o = o2 = k.outcome(p.age_from_D_N, [1e3, 2e3], [1e-9])
    k.ensure("rejected", o.raised(ValueError) and o2.raised(ValueError), lambda: (case, o, o2))


@scenario("C07", "neukum_valid_times", functions=[B + "_validate_age", N + "valid_time"])
def s13(k):
    p, m = mk(k, ("Moon", "Mars"))
    D = diam(k)
    t = k.real("t", -100, 1e5, hints=(4500.0, 0.0))
    e = k.real("e", -100, 1e5, hints=(0.0,))
    k.assume(e <= t)
    arr = k.bool("array")
    bad = k.truth(k.or_(t > 4500, e < 0))
    o = k.outcome(p.function, D, [t] if arr else t, [e] if arr else e)
    k.ensure("outside-the-calibrated-times-rejected", o.raised(ValueError) if bad else o.ok, lambda: (t, e, o))


@scenario("C07", "default_model_follows_the_body", functions=[B + "maker", N + "version"])
def s14(k):
    name = k.choice("name", ["Moon", "Mars", "Mercury", "Venus", "Earth", "Vesta", "Ceres", "Europa", "Phobos"])
    prod = k.choice("prod", [None, "neukum"])
    p = k.call(Production.maker, prod, target=name)
    cls = type(p).__name__
    if name in ("Moon", "Mars"):
        k.ensure("neukum-for-the-body", cls == "NeukumProduction" and k.get(p, "version") == name and k.get(p, "generator_type") == "crater")
    elif name in ("Mercury", "Venus", "Earth"):
        k.ensure("neukum-projectiles", cls == "NeukumProduction" and k.get(p, "version") == "Projectile" and k.get(p, "generator_type") == "projectile")
    else:
        k.ensure("power-law-elsewhere", cls == "PowerLawProduction", lambda: (name, cls))


@scenario("C07", "changing_the_version", functions=[N + "version", N + "Cexp", N + "Clin"])
def s15(k):
    a, b = k.choice("a", ["Moon", "Mars"]), k.choice("b", ["Moon", "Mars"])
    p = k.call(Production.maker, "neukum", target=a)
    t = age(k, "t", a)
    k.call(p.chronology, t)
    k.set(p, "version", b)
    q = k.call(Production.maker, "neukum", target=b)
    k.ensure("same-as-made-with-it", k.and_(k.eq(sc(k.call(p.chronology, t)), sc(k.call(q.chronology, t)), atol=0), k.get(p, "sfd_range") == k.get(q, "sfd_range")))
    o = k.set_outcome(p, "version", "Pluto")
    k.ensure("unknown-rejected", o.raised(ValueError) and k.get(p, "version") == b)


@scenario("C07", "unit_conversion_factors", functions=[B + "N_conversion_factor", B + "D_conversion_factor"])
def s16(k):
    p = k.call(Production.maker, "powerlaw")
    k.ensure("defaults", k.get(p, "N_conversion_factor") == 1e12 and k.get(p, "D_conversion_factor") == 1000.0)
    x = k.real("x", sample=(0, 2e12), hints=(1.0, 1e6, 1e12, 1000.0))
    o = k.set_outcome(p, "N_conversion_factor", x)
    good = k.truth(k.or_(x == 1.0, x == 1e6, x == 1e12))
    k.ensure("known-area-units-only", o.ok if good else o.raised(ValueError))
    unit = k.get(p, "N_unit")
    v = k.get(p, "N_conversion_factor")
    if not good:
        k.ensure("kept", v == 1e12)
    want = "per m²" if k.truth(v == 1.0) else "per km²" if k.truth(v == 1e6) else "per 10⁶ km²"
    k.ensure("unit-label", unit == want)
    o = k.set_outcome(p, "D_conversion_factor", x)
    good = k.truth(k.or_(x == 1.0, x == 1000.0))
    k.ensure("known-length-units-only", o.ok if good else o.raised(ValueError))
    k.ensure("length-label", k.get(p, "D_unit") == ("m" if k.truth(k.get(p, "D_conversion_factor") == 1.0) else "km"))


PROJ = [0.0, 1.375458, 1.272521e-1, -1.282166, -3.074558e-1, 4.149280e-1, 1.910668e-1, -4.260980e-2, -3.976305e-2, -3.180179e-3, 2.799369e-3, 6.892223e-4,
        2.614385e-6, -1.416178e-5, -1.191124e-6]     # R-plot polynomial of the projectiles (Ivanov, Neukum & Wagner 2001)


@scenario("C07", "projectile_version_follows_its_polynomial", functions=[N + "csfd", N + "sfd_tables", N + "sfd_range", N + "Cexp", N + "Clin", "cratermaker.components.counting:R_to_CSFD"],
          search_only="the cumulative number is a numerical sum over the size bins", bounded="generated sizes, compared with an independent quadrature within 12 %", search_s=6, search_n=120)
def sproj(k):
    from scipy.integrate import quad
    with np.errstate(all="ignore"):
        p = Production.maker("neukum", version="projectile")
        D = k.real("D", 0.2, 150e3, log=True)
        t = k.real("t", 1.0, 4400.0)

        def R(x):
            return 10 ** sum(c * np.log10(x) ** i for i, c in enumerate(PROJ))
        got = sc(p.csfd(D))
        hi = sc(p.csfd(2 * D))
        want = 2.94e-2 * quad(lambda u: R(np.exp(u)) * np.exp(-2 * u), np.log(D * 1e-3), np.log(2 * D * 1e-3), limit=200)[0] if 2 * D < 200e3 else None
        if want is not None:
            k.ensure("published-polynomial", abs((got - hi) / want - 1) < 0.12, lambda: (D, got - hi, want))
        k.ensure("coefficients", len(p.sfd_coef) == len(PROJ) and np.allclose(p.sfd_coef, PROJ, rtol=1e-9, atol=0), lambda: p.sfd_coef)
        k.ensure("decreasing", got > hi > 0, lambda: (D, got, hi))
        k.ensure("of-projectiles", p.generator_type == "projectile" and p.version == "Projectile")
        c = (5.44e-14 / 10 ** SFD["Moon"][0] * (np.exp(6.93e-3 * t) - 1) + 1e-3 * t) * 1e-6
        k.ensure("lunar-chronology", abs(sc(p.chronology(t)) / c - 1) < 1e-9, lambda: (t, p.chronology(t), c))

