"""C15: the shape of a crater, the reach of its ejecta and the smoothing by unresolved craters are physical for every size."""
import numpy as np
import scipy.integrate

from cratermaker import Crater
from cratermaker.components.morphology.basicmoon import BasicMoonCrater, BasicMoonCraterFixed
from contracts._common import ROOT, ROOT_MODELS
from contracts._sim import simulation
from pyvc.kit import Stub, scenario

M = "cratermaker.components.morphology:"
B = "cratermaker.components.morphology.basicmoon:"
DIMS = ("rim_height", "rim_width", "floor_depth", "floor_diameter", "peak_height", "ejrim")


class Plain(Stub):
    """Stands in for the crater whose dimensions are asked for."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


@scenario("C15", "dimensions_are_physical", functions=[B + "BasicMoonCrater.maker", B + "BasicMoonCraterFixed.depth_to_diameter"],
          search_s=6, assumes=["Crater.maker and the record that keeps the dimensions are stand-ins (their contracts are C04 and C05)"])
def s1(k):
    kind = k.choice("type", ["simple", "transitional", "complex", "peakring", "multiring"])
    k.anchors(0.01, 1.0, 100.0, 3000.0)
    span = (1.0, 5e4) if kind in ("simple", "transitional") else (5e3, 3e6)
    D = k.real("D", *span)
    given = k.choice("given", [None, *DIMS])
    own = {} if given is None else {given: k.real("own", sample=(1.0, 100.0))}
    m = simulation().morphology
    got = dims(k, m, D, kind, own)
    for n in DIMS:
        if n == given:
            k.ensure("what-is-given-is-kept", k.eq(got[n], own[n]), lambda: got)
            continue
        if n == "floor_depth":
            k.ensure("floor-below-the-surface", got[n] < 0, lambda: got)
        elif n == "peak_height":
            k.ensure("peak-only-in-complex-craters", (got[n] is None) == (kind in ("simple", "transitional")), lambda: got)
            if got[n] is not None:
                k.ensure("peak-up", got[n] > 0, lambda: got)
        else:
            k.ensure("positive", got[n] > 0, lambda: (n, got))
        if n == "floor_diameter":
            k.ensure("floor-inside-the-rim", got[n] < D, lambda: (D, got))
        if n == "rim_width":
            k.ensure("rim-narrower-than-the-crater", got[n] < D, lambda: (D, got))
    D2 = k.real("D2", *span)
    k.assume(D2 > D * 1.001)
    more = dims(k, m, D2, kind, own)
    for n in DIMS:
        if n != given and got[n] is not None:
            a, b = (got[n], more[n]) if n != "floor_depth" else (-got[n], -more[n])
            k.ensure("larger-craters-are-larger", a < b, lambda: (n, D, got, D2, more))


def dims(k, m, D, kind, own):
    rec = {}

    def fake_init(self, crater=None, morphology=None, **kw):
        rec.update(kw)
    saved = BasicMoonCrater.__init__
    up = BasicMoonCrater.__mro__[1]
    saved_up = up.__dict__["maker"]
    fake_init.__pyvc_stub__ = True
    BasicMoonCrater.__init__ = fake_init
    plain = Plain(diameter=D, radius=D / 2, morphology_type=kind)
    up.maker = staticmethod(lambda *a, **kw: plain)
    try:
        k.call(BasicMoonCrater.maker, crater=None, morphology=m, **own)
    finally:
        BasicMoonCrater.__init__ = saved
        up.maker = saved_up
    return {n: rec.get(n) for n in DIMS}


@scenario("C15", "depth_is_measured_from_rim_to_floor", functions=[B + "BasicMoonCraterFixed.depth_to_diameter"])
def s1b(k):
    D = k.real("D", 1.0, 3e6)
    h, f = k.real("h", 0, sample=(0.0, 1e4)), k.real("f", None, 0, sample=(-1e4, 0.0))
    known = k.choice("known", ["both", "rim", "floor", "neither"])
    rim = h if known in ("both", "rim") else None
    floor = f if known in ("both", "floor") else None

    class Fixed(BasicMoonCraterFixed):
        __pyvc_stub__ = True

        def __init__(self):
            pass
        diameter, rim_height, floor_depth = D, rim, floor
    got = k.get(Fixed(), "depth_to_diameter")
    if known != "both":
        k.ensure("unknown-without-both", got is None, lambda: got)
        return
    k.ensure("rim-to-floor-over-diameter", k.eq(got * D, h - f, rtol=1e-9), lambda: (got, D, h, f))


@scenario("C15", "ejecta_may_be_cut_off", functions=[B + "BasicMoonMorphology.ejecta_truncation"])
def s1c(k):
    m = simulation().morphology
    x = k.real("x", 0, lo_open=True, sample=(1.0, 100.0))
    k.set(m, "ejecta_truncation", x)
    k.ensure("as-set", k.eq(k.get(m, "ejecta_truncation"), x))
    for bad in ("far", [1.0], {}):
        k.ensure("not-a-number-rejected", k.set_outcome(m, "ejecta_truncation", bad).raised(TypeError), lambda: bad)
    k.set(m, "ejecta_truncation", None)
    k.ensure("limit-removed", k.get(m, "ejecta_truncation") is None)


@scenario("C15", "reach_of_ejecta", functions=[B + "BasicMoonMorphology.rmax", B + "BasicMoonMorphology.ejecta_truncation"], models=ROOT_MODELS, search_s=6,
          assumes=[ROOT, "the Rust profile kernel is any strictly decreasing function of distance (rational stand-in c*(r0/r)^2)"])
def s2(k):
    m = simulation().morphology
    r = k.real("radius", 0, lo_open=True, sample=(1e2, 1e5))
    t0 = k.real("rim thickness", 0, lo_open=True, sample=(1e-3, 1e3))
    mini = k.real("minimum", 0, lo_open=True, sample=(1e-3, 10.0))
    R = k.real("body", 0, lo_open=True, sample=(1e5, 1e6))
    trunc = k.choice("truncated", [None, 5.0, 100.0])
    k.assume(k.and_(3.1 * R > 1.01 * r))
    feature = k.choice("feature", ["ejecta", "crater", "rays"])
    k.set(m, "ejecta_truncation", trunc)

    class T(Stub):
        radius = R

    class Mesh(Stub):
        target = T()
    object.__setattr__(m, "_surface", Mesh())

    class C(BasicMoonCrater):
        __pyvc_stub__ = True

        def __init__(self):
            pass

        def __getattr__(self, n):
            return Stub.__getattr__(self, n)
        radius, diameter = r, 2 * r

    def f(x):
        return t0 * (r / x) * (r / x)

    def profile(c, x, *a):
        x = x if not isinstance(x, np.ndarray) else x.ravel()[0]
        out = np.empty(1, dtype=object if k.sym else float)
        out[0] = f(x)
        return out
    object.__setattr__(m, "ejecta_profile", profile)
    object.__setattr__(m, "crater_profile", profile)
    o = k.outcome(m.rmax, C(), mini, feature) if k.bool("positional") else k.outcome(m.rmax, C(), minimum_thickness=mini, feature=feature)
    if feature == "rays":
        k.ensure("unknown-feature-rejected", o.raised(ValueError), lambda: o)
        return
    k.ensure("answers", o.ok, lambda: o)
    ans = o.value
    top = trunc * r if trunc else np.pi * R
    lo = r * 1.0001
    k.ensure("outside-the-rim-and-within-the-limit", k.and_(k.le(r, ans), k.le(ans, top, rtol=1e-6)), lambda: (ans, r, top))
    k.ensure("thick-enough-inside", k.or_(k.le(ans, lo, rtol=1e-6), k.le(mini, f(ans), rtol=1e-6)), lambda: (ans, f(ans), mini))
    k.ensure("too-thin-outside", k.or_(k.le(top, ans, rtol=1e-6), k.le(f(ans), mini, rtol=1e-6)), lambda: (ans, f(ans), mini))


@scenario("C15", "degradation_grows_with_the_crater", functions=[B + "BasicMoonMorphology.degradation_function"], budget=120, search_s=6)
def s3(k):
    m = simulation().morphology
    D = k.real("D", 0, lo_open=True, sample=(1e-8, 1e6), log=True)
    D2 = k.real("D2", 0, lo_open=True, sample=(1e-8, 1e6), log=True)
    k.assume(D < D2)
    fe = k.choice("fe", [None, 10.0, 100.0])
    kw = {} if fe is None else {"fe": fe}
    a, b = k.call(m.degradation_function, D, **kw), k.call(m.degradation_function, D2, **kw)
    k.ensure("positive", a > 0, lambda: (D, a))
    k.ensure("larger-craters-degrade-more", a < b, lambda: (D, a, D2, b))


def quad_model(it, args, kwargs):
    """Assumed contract of quad: linear in the integrand. One-point rule at the middle of the interval."""
    f, a, b = args[:3]
    x = (a + b) / 2
    return it.call(f, (x,), {}) * (b - a), 0.0


class Flux(Stub):
    """A production function linear in time with an arbitrary density."""

    def __init__(self, k):
        self.d = k.real("density", 0, sample=(1e-12, 1e-6))

    def function(self, diameter=None, time_start=None, time_end=None, **kw):
        out = np.empty(1, dtype=object)
        out[0] = self.d / diameter * (time_start - time_end)
        return out if isinstance(out[0], (int, float)) is False else out.astype(float)


class Rec(Stub):
    def __init__(self):
        self.applied, self.tallied = [], 0
        self.n = 3

    def apply_diffusion(self, kd):
        self.applied.append(np.array(kd))

    def tally(self, **kw):
        self.tallied += 1


@scenario("C15", "no_degradation_is_lost_or_applied_twice", functions=[B + "BasicMoonMorphology.compute_subpixel_degradation", B + "BasicMoonMorphology.apply_subpixel_degradation"],
          models={scipy.integrate.quad: quad_model}, assumes=["scipy quad: any rule linear in the integrand (one-point rule)", "the production function is linear in time (C07)",
          "degradation_function is an arbitrary constant (its contract is above)"], budget=120, search_s=6)
def s4(k):
    m = simulation().morphology
    p = Flux(k)
    kd = k.real("kd", 0, sample=(0.0, 1e3))
    object.__setattr__(m, "_production", p)
    object.__setattr__(m, "degradation_function", lambda *a, **kw: kd)
    object.__setattr__(m, "_do_counting", k.bool("count"))
    mesh = Rec()
    a = [k.real(f"a{i}", 0, lo_open=True, sample=(1e2, 1e8)) for i in range(3)]
    mesh.face_area = np.array(a, dtype=object if k.sym else float)
    mesh.face_elevation = np.array([k.real(f"z{i}", sample=(-1e3, 1e3)) for i in range(3)], dtype=object if k.sym else float)
    mesh.face_bin_indices = [np.array([0, 2]), np.array([1])]
    d = [k.real("dmax0", 1.0, 1e5), k.real("dmax1", 1.0, 1e5)]
    mesh.face_bin_max_sizes = d
    mesh.n_face = 3
    object.__setattr__(m, "_surface", mesh)
    cnt = Rec()
    object.__setattr__(m, "_counting", cnt)
    if hasattr(m, "_Kdiff"):
        object.__delattr__(m, "_Kdiff")
    t = [k.real(f"t{i}", 0.0, 4000.0) for i in range(3)]
    k.assume(k.and_(t[0] > t[1] + 0.1, t[1] > t[2] + 0.1))
    bad = k.choice("wrong order", [False, True])
    if bad:
        o = k.outcome(m.compute_subpixel_degradation, time_start=t[1], time_end=t[0])
        k.ensure("backwards-rejected", o.raised(ValueError) and mesh.applied == [], lambda: o)
        return
    k.call(m.compute_subpixel_degradation, time_start=t[0], time_end=t[1])
    n1 = len(mesh.applied)
    k.ensure("applied-at-most-once-per-step", n1 <= 1 and cnt.tallied == (n1 if m.do_counting else 0))
    k.call(m.compute_subpixel_degradation, time_start=t[1], time_end=t[2])
    k.call(m.apply_subpixel_degradation)
    tot = [0.0, 0.0, 0.0]
    for ap in mesh.applied:
        for i in range(3):
            tot[i] = tot[i] + ap[i]
            k.ensure("not-negative", ap[i] >= 0)
    ref = simulation().morphology
    for n in ("_production", "degradation_function", "_surface", "_counting", "_do_counting"):
        object.__setattr__(ref, n, object.__getattribute__(m, n))
    if hasattr(ref, "_Kdiff"):
        object.__delattr__(ref, "_Kdiff")
    mesh.applied.clear()
    k.call(ref.compute_subpixel_degradation, time_start=t[0], time_end=t[2])
    k.call(ref.apply_subpixel_degradation)
    for i in range(3):
        one = sum([ap[i] for ap in mesh.applied], 0.0)
        k.ensure("whole-span-applied-once", k.eq(tot[i], one, rtol=1e-6), lambda: (tot, one))
        k.ensure("none-without-degrading-craters", k.implies(k.and_(kd == 0), k.eq(one, 0.0)))
    before = len(mesh.applied)
    k.call(m.apply_subpixel_degradation)
    for ap in mesh.applied[before:]:
        k.ensure("nothing-left-to-apply", k.and_(*[k.eq(x, 0.0) for x in ap]), lambda: mesh.applied)
