"""C13: populate draws every crater that the requested window holds, on the part of the surface that can hold it, and emplaces them in
the order they formed."""
import numpy as np
import tqdm

from cratermaker import Crater, Production
from contracts._common import ROOT, ROOT_MODELS
from contracts._sim import bar_model, simulation
from pyvc.kit import Stub, finding, named, scenario

S = "cratermaker.core.simulation:Simulation."
F = "cratermaker.components.surface:Surface."
N1, SLOPE = 7.883e-3, -3.328
FUNCS = [S + "populate", S + "_validate_run_args", S + "smallest_crater", S + "largest_crater"]
MODELS = {**ROOT_MODELS, tqdm.tqdm: bar_model}
ASSUMES = [ROOT, "the surface is a stand-in with three faces in two size bins of arbitrary areas; sample, the location of a point on a face, Crater.maker and emplace are "
           "recorders (their own contracts are C08, C02, C05 and C14)"]


class Mesh(Stub):
    """Three faces of arbitrary areas in two bins."""

    def __init__(self, k):
        a = [k.real(f"a{i}", 0, lo_open=True, sample=(1e8, 1e10)) for i in range(3)]
        m = [k.real("size0", 0, lo_open=True, sample=(1e3, 1e5)), k.real("size1", 0, lo_open=True, sample=(1e3, 1e5))]
        k.assume(m[0] <= m[1])
        self.k = k
        self.face_area = np.array(a, dtype=object if k.sym else float)
        self.area = a[0] + a[1] + a[2]
        self.face_bin_indices = [np.array([0, 2]), np.array([1])]
        self.face_bin_area = [a[0] + a[2], a[1]]
        self.face_bin_min_sizes = m
        self.face_bin_max_sizes = m
        self.face_size = np.array([m[0], m[1], m[0]], dtype=object if k.sym else float)
        self.n_face = 3
        self.face_bin_argmin, self.face_bin_argmax = [0, 1], [2, 1]
        self.face_bin_min_areas, self.face_bin_max_areas = [a[0], a[1]], [a[2], a[1]]
        self.calls = []

    def get_random_location_on_face(self, face_index, **kw):
        lon = np.array([10.0 * f + j for j, f in enumerate(face_index)])
        self.calls.append((list(face_index), lon))
        return lon, lon / 2


class Body(Stub):
    """Stands in for a crater: what populate gave Crater.maker."""

    def __init__(self, kw):
        self.kw = kw
        self.time, self.location = kw["time"], kw["location"]


class Maker(Stub):
    def __init__(self, log):
        self.log = log

    def maker(self, **kw):
        b = Body(kw)
        self.log.append(b)
        return b


class Morph(Stub):
    def __init__(self, log):
        self.Crater = Maker(log)


def setup(k, kind="crater"):
    p = Production.maker("powerlaw", N1_coef=N1, slope=SLOPE, generator_type=kind)
    s = simulation(p)
    s._config_readonly = True
    mesh = Mesh(k)
    made, emplaced, samples = [], [], []
    rng = k.rng()
    object.__setattr__(s, "_surface", mesh)
    object.__setattr__(s, "_rng", rng)
    object.__setattr__(s, "_morphology", Morph(made))
    object.__setattr__(s, "emplace", lambda c, **kw: emplaced.append(c) or c)
    lo = k.real("dlo", 0, lo_open=True, sample=(1e3, 1e5))
    hi = k.real("dhi", 0, lo_open=True, sample=(1e5, 1e6))
    k.assume(k.and_(lo < hi, mesh.face_bin_min_sizes[1] < hi))
    object.__setattr__(p, "_diameter_range", (lo, hi))

    real = p.sample

    def sample(*a, **kw):
        kw = named(real, a, kw)
        b = len(samples)
        n = k.choice(f"count{b}", [0, 1, 2] if b == 0 else [0, 1])
        d = np.array([k.real(f"d{b}{i}", 0, lo_open=True, sample=(1e3, 1e6)) for i in range(n)], dtype=object if k.sym else float)
        t = np.array([k.real(f"t{b}{i}", 0.0, 4000.0) for i in range(n)], dtype=object if k.sym else float)
        samples.append((kw, d, t))
        return d, t
    object.__setattr__(p, "sample", sample)
    if kind == "projectile":
        lim = s._get_diameter_limit

        def limit(*a, **kw):
            kw = named(lim, a, kw)
            if kw.get("projectile_diameter") is not None:
                return kw["projectile_diameter"] * 20
            return kw["crater_diameter"] / 20
        object.__setattr__(s, "_get_diameter_limit", limit)
    return s, p, mesh, rng, samples, made, emplaced, lo, hi


@scenario("C13", "every_part_of_the_surface_gets_its_share", functions=FUNCS, models=MODELS, assumes=ASSUMES, budget=200)
def s1(k):
    check_shares(k, 'crater')


def check_shares(k, kind):
    key = 'diameter' if kind == 'crater' else 'projectile_diameter'
    s, p, mesh, rng, samples, made, emplaced, lo, hi = setup(k, kind)
    t1 = k.real("t1", 1.0, 4000.0)
    t0 = k.real("t0", 0.0, 4000.0)
    k.assume(t0 <= t1 - 0.5)
    k.call(s.populate, time_start=t1, time_end=t0)
    k.ensure("every-bin-sampled-once", len(samples) == 2, lambda: samples)
    rate = 0.0
    for b, (kw, d, t) in enumerate(samples):
        D = kw["diameter_number"][0] if kw.get("diameter_number") is not None else None
        area = kw["area"]
        k.ensure("area-of-the-bin", k.eq(area, mesh.face_bin_area[b]), lambda: kw)
        size = mesh.face_bin_min_sizes[b]
        dmin = k.f_max(size / 20 if kind == "projectile" else size, lo)
        k.ensure("sizes-the-faces-can-hold", k.and_(k.eq(kw["diameter_range"][0], dmin), k.eq(kw["diameter_range"][1], hi)), lambda: (kw, size, lo, hi))
        for end, t_ in (("diameter_number", t1), ("diameter_number_end", t0)):
            Dn, n = kw[end]
            c = k.call(p.csfd, Dn)
            k.ensure("share-of-the-window", k.eq(n, c.item() * t_ * mesh.face_bin_area[b] if hasattr(c, "item") else c * t_ * mesh.face_bin_area[b], rtol=1e-6), lambda: (end, kw, t_))
    total = sum(len(d) for _, d, _ in samples)
    k.ensure("every-sample-becomes-a-crater", len(made) == total and sum(len(c) for c in emplaced) == total, lambda: (made, emplaced))
    if total:
        out = emplaced[0]
        k.ensure("oldest-first", k.and_(*[a.time >= b.time for a, b in zip(out, out[1:], strict=False)], True), lambda: [c.time for c in out])
        want = [(dd, tt, b) for b, (_, d, t) in enumerate(samples) for dd, tt in zip(d, t, strict=True)]
        for c, (dd, tt, b) in zip(made, want, strict=True):
            k.ensure("size-and-time-kept-together", k.and_(c.kw[key] == dd, c.kw["time"] == tt), lambda: (c.kw, dd, tt))
        k.ensure("same-craters", sorted(map(id, out)) == sorted(map(id, made)))
        j = 0
        bins = [b for b, (_, d, _) in enumerate(samples) if len(d)]
        for b, (faces, lon), pr in zip(bins, mesh.calls, rng.probs, strict=True):
            idx = mesh.face_bin_indices[b]
            k.ensure("on-a-face-of-the-bin", all(f in idx for f in faces), lambda: (faces, idx))
            for f, q in zip(idx, pr, strict=True):
                k.ensure("chance-proportional-to-area", k.eq(q * mesh.face_bin_area[b], mesh.face_area[f]), lambda: (pr, mesh.face_area))
            for x in lon:
                loc = made[j].kw["location"]
                k.ensure("location-of-its-own", k.and_(k.eq(loc[0], x), k.eq(loc[1], x / 2)), lambda: (loc, x))
                j += 1
    else:
        k.ensure("nothing-emplaced", emplaced == [] or emplaced == [[]])


@scenario("C13", "projectile_productions_too", functions=[*FUNCS, S + "smallest_projectile", S + "largest_projectile"], models=MODELS,
          assumes=[*ASSUMES, "the projectile that makes a crater of given size is taken as a twentieth of it"], budget=200)
def s2(k):
    check_shares(k, "projectile")


BINS = ("face_bin_indices", "face_bin_area", "face_bin_min_sizes", "face_bin_max_sizes", "face_bin_argmin", "face_bin_argmax")
BIN_ORDERS = [BINS[i:] + BINS[:i] for i in range(6)]


@scenario("C13", "face_bins_partition_the_surface", functions=[F + "_compute_face_bins", F + "face_bin_indices", F + "face_bin_area", F + "face_bin_min_sizes",
          F + "face_bin_max_sizes", F + "face_bin_argmin", F + "face_bin_argmax"],
          bounded="grids of three faces with area ratios below 8, arbitrary areas", budget=200)
def s3(k):
    s = simulation()
    su = s.surface
    a = [k.real(f"a{i}", 0, lo_open=True, sample=(1e8, 8e8), hints=(1e8, 2e8, 4e8)) for i in range(3)]
    for x in a:
        for y in a:
            k.assume(x < 8 * y * (1 - 1e-9))
    for nm in ("_face_bin_indices", "_face_bin_area", "_face_bin_argmin", "_face_bin_argmax"):
        object.__setattr__(su, nm, None)
    object.__setattr__(su, "_face_area", np.array(a, dtype=object if k.sym else float))
    object.__setattr__(su, "_face_size", np.array([k.f("sqrt", x) for x in a], dtype=object if k.sym else float))
    got = {nm: k.get(su, nm) for nm in BIN_ORDERS[k.choice("asked for first", [0, 4, 5])]}
    bins = got["face_bin_indices"]
    areas, lo, hi = got["face_bin_area"], got["face_bin_min_sizes"], got["face_bin_max_sizes"]
    k.ensure("smallest-and-largest", all(k.truth(k.and_(k.eq(lo[n], k.f("sqrt", a[int(got["face_bin_argmin"][n])])), k.eq(hi[n], k.f("sqrt", a[int(got["face_bin_argmax"][n])])))) for n in range(len(bins))), lambda: (bins, a, lo, hi))
    k.ensure("every-face-in-exactly-one-bin", sorted(int(i) for b in bins for i in b) == [0, 1, 2], lambda: (bins, a))
    k.ensure("no-empty-bin", all(len(b) > 0 for b in bins) and len(areas) == len(lo) == len(hi) == len(bins))
    for n, b in enumerate(bins):
        tot = 0.0
        for i in b:
            tot = tot + a[int(i)]
            k.ensure("between-the-extremes", k.and_(k.le(lo[n], k.f("sqrt", a[int(i)])), k.le(k.f("sqrt", a[int(i)]), hi[n])), lambda: (bins, a, lo, hi))
            for j in b:
                k.ensure("alike-within-a-factor-two", k.le(a[int(i)], 2 * a[int(j)]), lambda: (bins, a))
        k.ensure("area-is-the-sum", k.eq(areas[n], tot), lambda: (areas, a))
    for n in range(len(bins) - 1):
        k.ensure("ascending", k.le(hi[n], lo[n + 1]), lambda: (bins, a))


@scenario("C13", "given_craters_are_merged_in_for_the_same_window", functions=[*FUNCS, S + "do_quasimc"], models=MODELS,
          assumes=[*ASSUMES, "quasimc_merge is a recorder (its own contract is C09)"], budget=200)
def s4(k):
    s, p, mesh, rng, samples, made, emplaced, lo, hi = setup(k)
    on = k.choice("quasi", [True, False])
    object.__setattr__(s, "_do_quasimc", on)
    merges = []
    merged = [Body({"time": 3.0, "location": (0, 0)}), Body({"time": 2.0, "location": (0, 0)})][:k.choice("merged", [0, 2])]
    real = p.quasimc_merge

    def merge(*a, **kw):
        merges.append(named(real, a, kw))
        return merged
    object.__setattr__(p, "quasimc_merge", merge)
    if k.choice("by", ["time", "number"]) == "time":
        t1 = k.real("t1", 1.0, 4000.0)
        t0 = k.real("t0", 0.0, 4000.0)
        k.assume(t0 <= t1 - 0.5)
        kw = {"time_start": t1, "time_end": t0}
    else:
        D = k.real("D", 1000.0, 1e5)
        c = k.call(p.csfd, D)
        c = c.item() if hasattr(c, "item") else c
        n1 = c * k.real("t1", 1.0, 4000.0) * mesh.area
        n0 = n1 * k.real("rest", 0.0, 0.5)
        kw = {"diameter_number": (D, n1), "diameter_number_end": (D, n0)}
    k.call(s.populate, **kw)
    if not on:
        k.ensure("only-random-craters", merges == [] and sorted(id(c) for g in emplaced for c in g) == sorted(map(id, made)), lambda: (merges, emplaced))
        return
    k.ensure("merged-once", len(merges) == 1, lambda: merges)
    m = merges[0]
    k.ensure("all-random-craters-merged", sorted(map(id, next(v for v in m.values() if isinstance(v, list)))) == sorted(map(id, made)), lambda: m)
    if "time_start" in kw:
        k.ensure("the-same-window", k.and_(k.eq(m["time_start"], kw["time_start"]), k.eq(m["time_end"], kw["time_end"])), lambda: (m, kw))
    else:
        for mine, its in (("diameter_number", "N_D"), ("diameter_number_end", "N_D_end")):
            t_name = "time_start" if its == "N_D" else "time_end"
            if m.get(its) is None:
                # given as an age instead: the age at which that number is reached
                c = k.call(p.csfd, kw[mine][0])
                c = c.item() if hasattr(c, "item") else c
                k.ensure("the-same-window", k.eq(m[t_name] * c * mesh.area, kw[mine][1], rtol=1e-6, atol=1e-9), lambda: (m, kw))
            else:
                k.ensure("the-same-window", k.and_(k.eq(m[its][0] * p.D_conversion_factor, kw[mine][0]),
                         k.eq(m[its][1] * mesh.area, kw[mine][1] * p.N_conversion_factor)), lambda: (m, kw))
    k.ensure("the-merged-list-is-emplaced", [c for g in emplaced for c in g] == merged, lambda: (emplaced, merged))


class Scaled(Stub):
    """Stands in for the crater classes: sizes of craters and projectiles are proportional, the more so the faster the impact."""

    def __init__(self, v):
        self.v = v

    def maker(self, diameter=None, projectile_diameter=None, projectile_velocity=None, **kw):
        if (diameter is None) == (projectile_diameter is None):
            raise ValueError("one of the two sizes is needed")
        f = 40.0 if projectile_velocity > self.v else 10.0
        return Size(diameter=projectile_diameter * f, projectile_diameter=projectile_diameter) if diameter is None else Size(diameter=diameter, projectile_diameter=diameter / f)


class Size(Stub):
    def __init__(self, **kw):
        self.__dict__.update(kw)


@scenario("C13", "given_craters_are_used_unless_told_otherwise", functions=[S + "do_quasimc", S + "quasimc_craters"], search_s=3)
def s4b(k):
    s = simulation(Production.maker("powerlaw", rng_seed=1))
    k.ensure("nothing-given", k.get(s, "do_quasimc") is False)
    c = [Crater.maker(diameter=k.choice("D", [1e5, 4e5, 1e6]), production_time=(1000.0, 0.0))]
    k.set(s, "quasimc_craters", c)
    k.ensure("reaches-the-production", len(s.production.quasimc_craters) == 1 and k.get(s, "quasimc_craters") == s.production.quasimc_craters)
    k.ensure("used-when-given", k.get(s, "do_quasimc") is True)
    for v, w in ((False, False), (True, True), (None, True)):
        k.set(s, "do_quasimc", v)
        k.ensure("as-told", k.get(s, "do_quasimc") is w, lambda v=v: v)
    for bad in ("yes", 1, []):
        k.ensure("only-yes-or-no", k.set_outcome(s, "do_quasimc", bad).raised(TypeError), lambda bad=bad: bad)
    k.set(s, "quasimc_craters", None)
    k.ensure("forgotten", k.get(s, "do_quasimc") is False and s.production.quasimc_craters == [])


@scenario("C13", "limits_of_the_sizes_reach_the_production", functions=[S + n for n in ("smallest_crater", "largest_crater", "smallest_projectile", "largest_projectile", "_get_diameter_limit")],
          assumes=["the slowest and the fastest impacts considered make craters ten and forty times as large as their projectile"], budget=100)
def s5(k):
    kind = k.choice("kind", ["crater", "projectile"])
    p = Production.maker("powerlaw", N1_coef=N1, slope=SLOPE, generator_type=kind)
    s = simulation(p)
    s._config_readonly = True
    lo, hi = (float(x) for x in s.max_crater_diameter_range)
    object.__setattr__(s, "_morphology", Morph([]))
    s.morphology.Crater = Scaled(float(s.scaling.projectile.mean_velocity))
    start = (k.real("lo0", lo, 1e6, lo_open=True), k.real("hi0", 1e6, hi, hi_open=True, lo_open=True)) if kind == "crater" else (k.real("plo0", lo / 10, 6e4, lo_open=True), k.real("phi0", 6e4, hi / 40, hi_open=True, lo_open=True))
    object.__setattr__(p, "_diameter_range", start)
    which, of = k.choice("which", ["smallest", "largest"]), k.choice("of", ["crater", "projectile"])
    i = 0 if which == "smallest" else 1
    f = (10.0, 40.0)[i]
    x = k.real("x", 1e5, 3.6e6) if of == "crater" else k.real("px", 1e3, 3e5)
    k.set(s, f"{which}_{of}", x)
    got = k.get(p, "diameter_range")

    def inside(v):      # the sizes of craters a surface can hold
        return k.f_max(v, lo) if i == 0 else -k.f_max(-v, -hi)
    if of == kind == "crater":
        want = inside(x)
    elif of == kind:
        want = k.f_max(x, lo / f) if i == 0 else -k.f_max(-x, -hi / f)
    elif kind == "crater":
        want = inside(x * f)
    else:
        want = inside(x) / f
    k.ensure("the-limit-set", k.eq(got[i], want, rtol=1e-6), lambda: (kind, which, of, x, got, want))
    if of == kind == "crater":
        k.ensure("the-other-limit-kept", k.eq(got[1 - i], start[1 - i]), lambda: (got, start))
    k.ensure("read-back", k.eq(k.get(s, f"{which}_{kind}"), got[i]))
    other = "projectile" if kind == "crater" else "crater"
    k.ensure("converted-when-read", k.eq(k.get(s, f"{which}_{other}"), inside(got[i]) / f if kind == "crater" else inside(got[i] * f), rtol=1e-6), lambda: got)


@finding("C13", "limits_of_the_sizes_are_random")
def random_limits(k):
    """The angle of the slowest and fastest impacts is not the one stated but drawn at random, again at every question."""
    s = simulation(scaling="ctem", projectile="asteroids")
    a = [s._get_diameter_limit("largest", projectile_diameter=1e4) for _ in range(4)]
    k.ensure("the-same-answer-every-time", max(a) <= min(a) * 1.001, lambda: a)


@finding("C13", "projectile_populations_stop_short")
def short(k):
    """The projectiles of a projectile population make craters far larger than the smallest the faces can hold."""
    p = Production.maker("powerlaw", N1_coef=N1, slope=SLOPE, generator_type="projectile")
    s = simulation(p, scaling="ctem", projectile="asteroids")
    d = s._get_diameter_limit("smallest", crater_diameter=s.smallest_crater)
    typical = s.Crater.maker(projectile_diameter=d, angle=45.0, projectile_velocity=s.scaling.projectile.mean_velocity, **vars(s.common_args)).diameter
    k.ensure("down-to-the-smallest-crater", typical <= 1.1 * s.smallest_crater, lambda: (d, typical, s.smallest_crater))
