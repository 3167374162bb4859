"""C20: the craters counted are those still visible on the surface."""
import dataclasses
import shutil

import numpy as np

from cratermaker.bindings import counting_bindings
from cratermaker.components.counting import csfd_equilibrium, csfd_geometric_saturation
from cratermaker.components.counting.depthcount import DepthCount
from cratermaker.constants import _VSMALL
from contracts.C16_surface import haversine, kernel
from contracts.C18_files import World, quiet
from contracts._sim import bar_model
from pyvc.kit import Stub, scenario
import tqdm

C = "cratermaker.components.counting:"
D = "cratermaker.components.counting.depthcount:DepthCount."
LS = "cratermaker.components.surface:LocalSurface."
SU = "cratermaker.components.surface:Surface."

WORLD = {}


def edges(w):
    """The lengths of edges play no part here."""
    with kernel("compute_edge_distances", lambda **kw: np.ones(len(kw["edge_connectivity"]))):
        w.surface.edge_face_distance
        w.surface.edge_length


def world():
    """A real surface of 162 faces with its tally and lunar craters, built once; every use starts it afresh."""
    if "w" not in WORLD:
        w = World(gridlevel=2, moon=True)
        WORLD["w"] = w
        edges(w)
        shutil.rmtree(w.dir, ignore_errors=True)
    w = WORLD["w"]
    w.surface.uxds["crater_id"].data[:] = 0
    object.__setattr__(w.counting, "_emplaced", [])
    object.__setattr__(w.counting, "_observed", {})
    return w


def tags(w, i):
    return set(np.nonzero((np.asarray(w.surface.uxds["crater_id"].data) == i).any(axis=1))[0].tolist())


# ------------------------------------------------------------------ how degraded, how visible
class Rim(Stub):
    """Stands in for a crater, with the depth the kernels measure."""
    degradation_state = None

    def __init__(self, **kw):
        self.__dict__.update(kw)


def rim(k, n=""):
    r = k.real("radius" + n, 0.5, 5e6, sample=(1.0, 1e6))
    made = k.real("size_when_made" + n, 0.5, 5e6, sample=(1.0, 1e6))
    return Rim(radius=made, diameter=2.0 * made, measured_radius=r, measured_diameter=2.0 * r, measured_depth_to_diameter=k.real("measured" + n, -10.0, 10.0), depth_to_diameter=k.real("original" + n, 1e-3, 1.0))


@scenario("C20", "degradation_follows_the_depth", functions=[D + "measure_degradation_state"], search_s=4, budget=200)
def degradation(k):
    w = world()
    a = rim(k)
    out = k.call(w.counting.measure_degradation_state, a)
    q = a.measured_depth_to_diameter / a.depth_to_diameter
    k.ensure("as-deep-as-made-is-not-degraded", k.implies(q == 1.0, k.eq(out, 0.0)), lambda: out)
    k.ensure("shallower-is-degraded", k.implies(q <= 0.999, out > 0.0), lambda: (q, out))
    k.ensure("deeper-is-not-degraded", k.implies(q >= 1.001, out < 0.0), lambda: (q, out))
    k.ensure("recorded", a.degradation_state == out)
    other = k.real("another_size", 0.5, 5e6, sample=(1.0, 1e6))
    again = k.call(w.counting.measure_degradation_state, Rim(**{**a.__dict__, "radius": other, "diameter": 2.0 * other}))
    k.ensure("judged-by-the-measured-size", out == again, lambda: (out, again))


@scenario("C20", "deeper_craters_are_less_degraded", functions=[D + "measure_degradation_state"], search_s=4, budget=200)
def monotone(k):
    w = world()
    k.anchors(_VSMALL)
    a = rim(k)
    m = k.real("shallower", -10.0, 10.0)
    k.assume(m <= a.measured_depth_to_diameter)
    b = Rim(**{**a.__dict__, "measured_depth_to_diameter": m})
    x, y = k.call(w.counting.measure_degradation_state, a), k.call(w.counting.measure_degradation_state, b)
    k.ensure("never-more-degraded-for-being-deeper", k.or_(k.le(x, y), x <= y * (1 + 1e-6)), lambda: (x, y))
    k.ensure("unmeasured-counts-as-fresh", k.call(w.counting.measure_degradation_state, Rim(**{**a.__dict__, "measured_depth_to_diameter": None})) == 0.0)


@scenario("C20", "larger_craters_stay_visible_longer", functions=[D + "visibility_function"], search_s=3)
def visibility(k):
    w = world()
    r, q = k.real("r", 0.5, 5e6), k.real("q", 0.5, 5e6)
    k.assume(r <= q)
    made = k.real("made", 0.5, 5e6)
    f = lambda x, **kw: k.call(w.counting.visibility_function, Rim(measured_radius=x, measured_diameter=2.0 * x, radius=made, diameter=2.0 * made), **kw)
    k.ensure("positive", f(r) > 0.0)
    k.ensure("grows-with-size", f(r) <= f(q))
    c = k.real("coefficient", 1e-3, 10.0)
    k.ensure("in-proportion-to-the-coefficient", k.eq(f(r, Kv1=2.0 * c), 2.0 * f(r, Kv1=c), 1e-9), lambda: (f(r, Kv1=2.0 * c), f(r, Kv1=c)))
    k.ensure("default-law", k.eq(f(2.0 * r), 4.0 * f(r), 1e-9))


@scenario("C20", "equilibrium_is_a_fraction_of_saturation", functions=[C + "csfd_geometric_saturation", C + "csfd_equilibrium"], search_s=2)
def csfd(k):
    d, f = k.real("d", 1e-3, 1e7), k.real("f", 1e-4, 1.0)
    s = k.call(csfd_geometric_saturation, d)
    k.ensure("saturation", k.eq(s * d * d, 1.54, 1e-9))
    k.ensure("fraction", k.eq(k.call(csfd_equilibrium, d, f), f * s, 1e-9))
    k.ensure("default-fraction", k.eq(k.call(csfd_equilibrium, d), 0.0218 * s, 1e-9))


# ------------------------------------------------------------------ the tally
@scenario("C20", "counted_while_degradation_is_below_visibility", functions=[C + "Counting.tally", C + "Counting.remove", C + "Counting.remove_complex_data", LS + "remove_tag", SU + "remove_tag"],
          models={tqdm.tqdm: bar_model, tqdm.std.tqdm: bar_model}, search_s=4, budget=200,
          assumes=["degradation and visibility are arbitrary numbers for each crater (their contracts: degradation_follows_the_depth, larger_craters_stay_visible_longer)"])
def tally(k):
    w = world()
    s, cnt = w.surface, w.counting
    ids = np.asarray(s.uxds["crater_id"].data)
    where = {11: [3, 4, 5], 22: [5, 6], 33: [100], 44: [7]}
    for n, (i, faces) in enumerate(where.items()):
        ids[faces, n] = i
    asked = {"Kd": {}, "Kv": {}}

    class Counted(Stub):
        def __init__(self, i):
            self.id = i
            self.complex = True

        def remove_complex_data(self, **kw):
            self.complex = False
    craters = {i: Counted(i) for i in (11, 22, 33)}  # 44 marks the surface but is not in the list
    object.__setattr__(cnt, "_observed", dict(craters))
    object.__setattr__(cnt, "_emplaced", [craters[11], craters[33]])

    def ask(what):
        def f(crater, **kw):
            v = asked[what].setdefault(crater.id, k.real(f"{what}{crater.id}", -10.0, 10.0, hints=(1.0,)))
            return v
        return f
    object.__setattr__(cnt, "measure_degradation_state", ask("Kd"))
    object.__setattr__(cnt, "visibility_function", ask("Kv"))
    rims = []

    def fit(crater, fit_center=False, fit_ellipse=False, **kw):
        rims.append((crater.id, fit_center, fit_ellipse))
        return crater
    object.__setattr__(cnt, "fit_rim", fit)
    measure = k.bool("measure_rim")
    opts = {}
    if measure and k.bool("with_options"):
        opts = {"fit_center": True, "fit_ellipse": True}
    try:
        region = None
        if k.bool("region"):
            region = s.extract_region(location=(float(s.face_lon[3]), float(s.face_lat[3])), region_radius=0.2 * s.radius)
        inside = set(range(s.n_face)) if region is None else set(np.arange(s.n_face)[region.face_indices].tolist())
        here = [i for i, faces in where.items() if inside & set(faces)]
        with quiet():
            k.call(cnt.tally, region, measure_rim=measure, quiet=k.bool("quiet"), **opts)
    finally:
        for f in ("measure_degradation_state", "visibility_function", "fit_rim"):
            object.__delattr__(cnt, f)
    for i in (11, 22, 33):
        if i not in here:
            k.ensure("elsewhere-is-left-alone", i in cnt.observed and tags(w, i) == set(where[i]))
            continue
        k.ensure("each-crater-is-judged", i in asked["Kd"] and i in asked["Kv"], lambda: asked)
        gone = k.truth(asked["Kd"][i] >= asked["Kv"][i])
        k.ensure("removed-exactly-when-too-degraded", (i not in cnt.observed) == gone, lambda: (i, asked, list(cnt.observed)))
        k.ensure("marks-follow-the-list", tags(w, i) == (set() if gone else set(where[i])), lambda: (i, tags(w, i)))
        k.ensure("same-crater", gone or cnt.observed[i] is craters[i])
    k.ensure("marks-without-a-crater-are-removed", tags(w, 44) == (set() if 44 in here else set(where[44])) and 44 not in cnt.observed, lambda: tags(w, 44))
    k.ensure("emplaced-list-unchanged", cnt.emplaced == [craters[11], craters[33]])
    k.ensure("every-rim-is-measured-alike", sorted(rims) == ([(i, bool(opts), bool(opts)) for i in sorted(here) if i != 44] if measure else []), lambda: rims)


@scenario("C20", "measured_rims_are_recorded", functions=[C + "Counting.fit_rim"], search_s=2)
def fit(k):
    w = world()
    ap = k.real("a", 1.0, 1e6)
    bp = k.real("b", 1.0, 1e6)
    k.assume(bp <= ap)
    loc = (k.real("lon", -180.0, 180.0), k.real("lat", -90.0, 90.0))
    o = k.real("orientation", 0.0, 3.0)
    got = []

    def kernel(*a):
        got.append(a)
        return loc, ap, bp, o
    saved = vars(counting_bindings).get("fit_rim")
    setattr(counting_bindings, "fit_rim", kernel)
    from cratermaker.components.crater import Crater
    c = Crater.maker(diameter=1e4, location=(0.0, 0.0), measured_diameter=9e3)
    before = (c.diameter, c.location, c.id)
    try:
        out = k.call(w.counting.fit_rim, c, fit_center=k.bool("centre"), fit_ellipse=k.bool("ellipse"))
    finally:
        if saved is None:
            delattr(counting_bindings, "fit_rim")
        else:
            setattr(counting_bindings, "fit_rim", saved)
    k.ensure("same-crater", out is c)
    k.ensure("axes", k.and_(k.get(c, "measured_semimajor_axis") == ap, k.get(c, "measured_semiminor_axis") == bp), lambda: (c.measured_semimajor_axis, c.measured_semiminor_axis))
    k.ensure("orientation", k.eq(k.get(c, "measured_orientation"), o * 180.0 / np.pi, 1e-9), lambda: c.measured_orientation)
    k.ensure("true-size-kept", (c.diameter, c.location, c.id) == before)


# ------------------------------------------------------------------ adding and removing
PLACES = {}


def places(w):
    """The region of a new crater and its interior, on the real surface."""
    if not PLACES:
        s = w.surface
        a = s.extract_region(location=(20.0, 10.0), region_radius=0.45 * s.radius)
        with kernel("compute_distances", haversine):
            b = a.extract_subregion(subregion_radius=0.2 * s.radius)
        PLACES["a"], PLACES["b"] = a, b
    return PLACES["a"], PLACES["b"]


@scenario("C20", "a_new_crater_hides_smaller_ones_inside_it", functions=[C + "Counting.add", LS + "add_tag", LS + "remove_tag"], search_s=4, budget=250,
          assumes=["the region of the crater and its interior are two fixed regions of a real surface of 162 faces (regions themselves: C16)"])
def cookie(k):
    w = world()
    s, cnt = w.surface, w.counting
    A, B = places(w)
    ia, ib = set(A.face_indices.tolist()), set(B.face_indices.tolist())
    far = [f for f in range(s.n_face) if f not in ia][:2]
    rim_only = [f for f in sorted(ia) if f not in ib][:2]
    inner = sorted(ib)[:2]
    r = k.real("radius", 1.0, 1e6)

    def crater(i, radius):
        with quiet():
            c = w.Crater.maker(diameter=1e4, location=(20.0, 10.0))
        object.__setattr__(c._fixed, "id", i)
        for n, v in (("semimajor_axis", radius), ("semiminor_axis", radius), ("radius", radius), ("diameter", 2.0 * radius)):
            if n in {f.name for f in dataclasses.fields(c._fixed)}:
                object.__setattr__(c._fixed, n, v)
        return c
    old, data = {}, np.asarray(s.uxds["crater_id"].data)
    marks = {}
    for n in range(k.choice("n_old", [1, 2])):
        i = 101 + n
        rr = k.real(f"old_radius{n}", 1.0, 1e6)
        old[i] = crater(i, rr)
        marks[i] = {"inside": inner, "across": inner + rim_only + far, "rim": rim_only, "far": far}[k.choice(f"place{n}", ["inside", "across", "rim", "far"])]
        data[marks[i], n] = i
    object.__setattr__(cnt, "_observed", dict(old))
    new = crater(999, r)
    small = k.bool("too_small_to_count")

    class Region(Stub):
        """The region of the new crater; its interior does not depend on the (arbitrary) radius."""

        def __init__(self):
            self.asked = []

        def __getattr__(self, name):
            return getattr(A, name)

        @property
        def n_face(self):
            return 1 if small else 10000

        def add_tag(self, *a, **kw):
            return k.call(A.add_tag, *a, **kw) if not k.sym else A.add_tag(*a, **kw)

        def extract_subregion(self, subregion_radius, **kw):
            self.asked.append(subregion_radius)
            return B
    region = Region()
    new._var._crater_region = region
    before = data.copy()
    with quiet():
        out = k.call(cnt.add, new)
    k.ensure("the-crater-is-returned", out is new)
    if small:
        k.ensure("too-small-leaves-no-trace", np.array_equal(before, np.asarray(s.uxds["crater_id"].data)) and set(cnt.observed) == set(old), lambda: list(cnt.observed))
        return
    k.ensure("counted", cnt.observed.get(999) is new)
    k.ensure("marks-its-region", tags(w, 999) == ia)
    k.ensure("interior-is-within-its-rim", len(region.asked) == 0 or all(k.truth(x == r) for x in region.asked), lambda: region.asked)
    for i, c in old.items():
        smaller = k.truth(c._fixed.semimajor_axis < r)
        left = set(marks[i]) - ib if smaller else set(marks[i])
        k.ensure("only-smaller-craters-lose-marks-and-only-inside", tags(w, i) == left, lambda: (i, tags(w, i), left))
        k.ensure("counted-while-marked", (i in cnt.observed) == bool(left), lambda: (i, left, list(cnt.observed)))


# ------------------------------------------------------------------ histories on the real surface
@scenario("C20", "the_list_and_the_surface_agree", functions=[C + "Counting.add", C + "Counting.remove", C + "Counting.tally", LS + "add_tag", LS + "remove_tag", LS + "sort_tags"],
          bounded="generated histories of up to twelve additions, removals and tallies on a surface of 2562 faces", search_only="regions of the real surface", search_s=40, search_n=300)
def history(k):
    rnd = np.random.default_rng(k.int("data", 0, 10 ** 6))
    if "h" not in WORLD:
        WORLD["h"] = World(gridlevel=4, moon=True)
        edges(WORLD["h"])
        shutil.rmtree(WORLD["h"].dir, ignore_errors=True)
    w = WORLD["h"]
    s, cnt = w.surface, w.counting
    data = s.uxds["crater_id"].data
    data[:] = 0
    object.__setattr__(cnt, "_observed", {})
    R = s.radius
    spots = [(float(rnd.uniform(-180, 180)), float(rnd.uniform(-90, 90))) for _ in range(3)] + [(180.0, 0.0), (0.0, 90.0)]
    full = False
    with quiet(), kernel("compute_distances", haversine):
        for step in range(int(rnd.integers(1, 13))):
            op = rnd.choice(["add", "add", "add", "remove", "tally"])
            prior = {i: tags(w, i) for i in cnt.observed}
            sizes = {i: c.diameter for i, c in cnt.observed.items()}
            full = full or bool((np.asarray(data) > 0).all(axis=1).any())
            if op == "add":
                lon, lat = spots[int(rnd.integers(0, len(spots)))]
                c = w.Crater.maker(diameter=float(rnd.choice([0.1, 0.4, 0.5, 0.8, 1.1]) * R * rnd.uniform(0.8, 1.2)), location=(lon + float(rnd.normal()) * 3, float(np.clip(lat + rnd.normal() * 3, -90, 90))))
                region = c.crater_region
                faces = set(np.arange(s.n_face)[region.face_indices].tolist()) if region else set()
                inner = set()
                if region is not None:
                    sub = region.extract_subregion(subregion_radius=c.radius)
                    inner = set(np.arange(s.n_face)[sub.face_indices].tolist()) if sub is not None else set()
                cnt.add(c)
                if c.id in cnt.observed:
                    k.ensure("marks-its-region", tags(w, c.id) == faces, lambda: c)
                else:
                    k.ensure("uncounted-craters-leave-no-marks", not tags(w, c.id))
                    k.ensure("only-small-craters-go-uncounted", region is None or len(faces) < 120, lambda: (len(faces), c))
                    faces = inner = set()
                if not full:
                    for i, before in prior.items():
                        want = before - inner if sizes[i] < c.diameter else before
                        k.ensure("only-smaller-craters-lose-marks-and-only-inside", tags(w, i) == want, lambda: (i, len(before), len(want), len(tags(w, i))))
            elif op == "remove" and prior:
                i = list(prior)[int(rnd.integers(0, len(prior)))]
                cnt.remove(i)
                k.ensure("removed", i not in cnt.observed and not tags(w, i))
                for j in prior:
                    if j != i:
                        k.ensure("others-kept", j in cnt.observed and tags(w, j) == prior[j])
            elif op == "tally":
                gone = {i for i in prior if rnd.random() < 0.3}
                object.__setattr__(cnt, "measure_degradation_state", lambda c, **kw: 2.0 if c.id in gone else 0.5)
                object.__setattr__(cnt, "visibility_function", lambda c, **kw: 1.0)
                try:
                    cnt.tally(quiet=True)
                finally:
                    object.__delattr__(cnt, "measure_degradation_state")
                    object.__delattr__(cnt, "visibility_function")
                if not full:
                    k.ensure("tally", set(cnt.observed) == set(prior) - gone, lambda: (set(cnt.observed), set(prior), gone))
            full = full or bool((np.asarray(data) > 0).all(axis=1).any())
            if not full:
                on = {int(i) for i in np.unique(np.asarray(data)) if i > 0}
                k.ensure("counted-exactly-when-marked", on == {int(i) for i in cnt.observed}, lambda: (on, list(cnt.observed)))
