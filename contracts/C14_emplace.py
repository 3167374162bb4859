"""C14: every crater handed to the morphology is emplaced once, in the order given, without touching ground another crater of its batch touches;
what a crater excavates its ejecta returns."""
import numpy as np
import tqdm

from cratermaker import Crater
from cratermaker.bindings import morphology_bindings
from cratermaker.components.morphology import Morphology
from cratermaker.components.morphology.basicmoon import BasicMoonCrater
from contracts._sim import bar_model, simulation
from contracts._common import ROOT, ROOT_MODELS, haversine, kernel
from pyvc.kit import Stub, scenario

M = "cratermaker.components.morphology:"
B = "cratermaker.components.morphology.basicmoon:"
MODELS = {**ROOT_MODELS, tqdm.tqdm: bar_model}


class Body(BasicMoonCrater):
    """A crater whose surroundings are stand-ins."""
    __pyvc_stub__ = True

    def __init__(self, **kw):
        for n, v in kw.items():
            object.__setattr__(self, "x_" + n, v)
        object.__setattr__(self, "cleaned", 0)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Stub.__getattr__(self, name)

    def remove_complex_data(self):
        object.__setattr__(self, "cleaned", self.cleaned + 1)

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"Body({getattr(self, 'x_name', '')})"


def _p(n):
    return property(lambda self: object.__getattribute__(self, "x_" + n))


for _n in ("name", "emplaceable", "crater_region", "ejecta_region", "face_index", "radius", "diameter", "time", "affected_face_indices", "affected_node_indices"):
    setattr(Body, _n, _p(_n))


class Region(Stub):
    """Two faces and one node."""

    def __init__(self, k, log, name, radius=None):
        self.k, self.log, self.name = k, log, name
        self.n_face, self.n_node = 2, 1
        self.radius = self.region_radius = radius
        self.face_area = np.array([k.real(f"{name}.area{i}", 0, lo_open=True, sample=(1e6, 1e9)) for i in range(2)], dtype=object if k.sym else float)

    def _rec(self, what, *a):
        self.log.append((self.name, what, *a))

    def update_elevation(self, new_elevation, overwrite=False, **kw):
        self._rec("elevation", np.array(new_elevation), overwrite)

    def slope_collapse(self, *a, **kw):
        self._rec("collapse")

    def compute_volume(self, elevation):
        if len(elevation) != 2:
            raise ValueError("elevation must have one value for each face")
        return elevation[0] * self.face_area[0] + elevation[1] * self.face_area[1]

    def add_data(self, name, data=None, overwrite=False, **kw):
        self._rec("data", name, np.array(data) if not np.isscalar(data) else data, overwrite)

    def apply_diffusion(self, kdiff):
        self._rec("diffuse", np.array(kdiff))

    def extract_subregion(self, subregion_radius, **kw):
        self._rec("inner", subregion_radius)
        return self.sub


class Tally(Stub):
    def __init__(self, log):
        self.log, self.emplaced = log, []

    def add(self, crater, **kw):
        self.log.append(("counting", "add", crater))

    def tally(self, *a, **kw):
        self.log.append(("counting", "tally"))


def arr(k, *v):
    return np.array(v, dtype=object if k.sym else float)


@scenario("C14", "what_a_crater_excavates_its_ejecta_returns", functions=[M + "Morphology.form_crater", M + "Morphology.form_ejecta", B + "BasicMoonMorphology.form_crater",
          B + "BasicMoonMorphology.form_ejecta", B + "BasicMoonMorphology.ejecta_burial_degradation"],
          assumes=["the regions are stand-ins of two faces with arbitrary areas; the Rust profile kernels behind crater_shape and ejecta_shape give arbitrary elevations and thicknesses"], budget=200)
def s1(k):
    s = simulation()
    m = s.morphology
    log = []
    r = k.real("radius", 0, lo_open=True, sample=(1e3, 1e5))
    ej, cr, sub = Region(k, log, "ejecta"), Region(k, log, "crater", 1.5 * r), Region(k, log, "inner")
    cr.sub = sub if k.bool("inner faces") else None
    fit = k.choice("case", ["large", "tiny", "off grid"])
    counting = Tally(log)
    object.__setattr__(m, "_counting", counting)
    object.__setattr__(m, "_do_counting", k.bool("count"))
    object.__setattr__(m, "_do_slope_collapse", k.bool("collapse"))
    face = k.real("face area", 0, lo_open=True, sample=(1e6, 1e9))
    k.assume(face < 3.14 * (1.5 * r) ** 2 if fit == "large" else face > 3.15 * (1.5 * r) ** 2)

    class Mesh(Stub):
        face_area = [1.0, face, 1.0]
    object.__setattr__(m, "_surface", Mesh())
    c = Body(name="c", emplaceable=fit != "off grid", crater_region=cr, ejecta_region=ej, face_index=1, radius=r, diameter=2 * r, time=None)
    dz = [k.real(f"dz{i}", sample=(-1e3, 1e2)) for i in range(3)]
    th = [k.real(f"th{i}", sample=(-1.0, 1e2)) for i in range(3)]
    it = [k.real(f"it{i}", 0.0, 10.0) for i in range(3)]
    object.__setattr__(m, "crater_shape", lambda *a, **kw: arr(k, *dz))
    object.__setattr__(m, "ejecta_shape", lambda *a, **kw: (arr(k, *th), arr(k, *it)))
    kd = k.real("k per crater", 0, sample=(0.0, 1e4))
    object.__setattr__(m, "degradation_function", lambda *a, **kw: kd)
    dug = dz[0] * ej.face_area[0] + dz[1] * ej.face_area[1]
    raw = k.f_max(th[0], 0.0) * ej.face_area[0] + k.f_max(th[1], 0.0) * ej.face_area[1]
    k.assume(k.and_(dug < -1e-6, raw > 1e-6))
    k.call(m.form_crater, c)
    if fit != "large":
        k.ensure("nothing-happens-below-the-resolution", log == [] and counting.emplaced == [], lambda: log)
        return
    up = [e for e in log if e[1] == "elevation"]
    k.ensure("two-elevation-changes", len(up) == 2 and all(e[0] == "ejecta" for e in up) and not any(e[3] for e in up), lambda: log)
    k.ensure("the-crater-first", k.and_(*[k.eq(a, b) for a, b in zip(up[0][2], dz, strict=True)]), lambda: (up, dz))
    back = up[1][2][0] * ej.face_area[0] + up[1][2][1] * ej.face_area[1]
    k.ensure("volume-conserved", k.eq(back, -dug, rtol=1e-6), lambda: (log, dug))
    for i in range(3):
        k.ensure("ejecta-never-lower-the-ground", up[1][2][i] >= 0, lambda: (up, th))
        k.ensure("ejecta-only-where-the-profile-has-any", k.implies(th[i] <= 0, up[1][2][i] == 0), lambda: (up, th))
    k.ensure("ejecta-shaped-as-their-profile", k.eq(up[1][2][0] * k.f_max(th[1], 0.0), up[1][2][1] * k.f_max(th[0], 0.0), rtol=1e-6), lambda: (up, th))
    lay = [e for e in log if e[1] == "data" and e[0] == "ejecta"]
    k.ensure("layer-thickness-recorded", len(lay) == 1 and lay[0][2] == "ejecta_thickness" and not lay[0][4] and len(lay[0][3]) == 2, lambda: log)
    k.ensure("layer-is-what-was-added", k.and_(k.eq(lay[0][3][0], up[1][2][0]), k.eq(lay[0][3][1], up[1][2][1])), lambda: log)
    clear = [e for e in log if e[0] == "inner"]
    k.ensure("old-ejecta-excavated", (len(clear) == 1 and clear[0][1:] == ("data", "ejecta_thickness", 0.0, True)) if cr.sub is not None else clear == [], lambda: log)
    asked = [e for e in log if e[1] == "inner"]
    k.ensure("excavated-within-the-rim", len(asked) == 1 and k.eq(asked[0][2], r) is not False, lambda: log)
    k.ensure("within-one-radius", k.eq(asked[0][2], r))
    k.ensure("collapse-as-configured", [e for e in log if e[1] == "collapse"] == ([("ejecta", "collapse")] if m.do_slope_collapse else []), lambda: log)
    k.ensure("recorded-once", counting.emplaced == [c] and [e for e in log if e[0] == "counting"] == ([("counting", "add", c)] if m.do_counting else []), lambda: log)
    dif = [e for e in log if e[1] == "diffuse"]
    k.ensure("smoothed-by-burial-and-by-the-impact", len(dif) == 2 and all(len(e[2]) == 2 for e in dif))
    for e in dif:
        k.ensure("diffusivity-not-negative", k.and_(e[2][0] >= 0, e[2][1] >= 0), lambda: dif)
    want = [[1.5 * up[1][2][i] * up[1][2][i] for i in range(2)], [kd * it[i] for i in range(2)]]
    k.ensure("burial-grows-with-thickness-squared", k.and_(*[k.eq(a, b, rtol=1e-6) for a, b in zip(dif[0][2], want[0], strict=True)]), lambda: dif)
    k.ensure("impact-scales-with-intensity", k.and_(*[k.eq(a, b, rtol=1e-6) for a, b in zip(dif[1][2], want[1], strict=True)]), lambda: dif)
    order = [(e[0], e[1]) for e in log]
    k.ensure("old-ejecta-cleared-before-new-fall", cr.sub is None or order.index(("inner", "data")) < order.index(("ejecta", "data")), lambda: order)


@scenario("C14", "a_crater_that_excavates_nothing", functions=[M + "Morphology.form_crater", M + "Morphology.form_ejecta", B + "BasicMoonMorphology.form_crater", B + "BasicMoonMorphology.form_ejecta"],
          assumes=["regions, the shape of the crater and of its ejecta are stand-ins"], search_s=6)
def s1b(k):
    m = simulation().morphology
    log = []
    ej, cr = Region(k, log, "ejecta"), Region(k, log, "crater", 1.5e4)
    cr.sub = None
    object.__setattr__(m, "_counting", Tally(log))
    object.__setattr__(m, "_do_counting", False)

    class Mesh(Stub):
        face_area = [1.0, 1.0, 1.0]
    object.__setattr__(m, "_surface", Mesh())
    c = Body(name="c", emplaceable=True, crater_region=cr, ejecta_region=ej, face_index=1, radius=1e4, diameter=2e4, time=None)
    z = k.real("node", sample=(-1.0, 1.0))
    object.__setattr__(m, "crater_shape", lambda *a, **kw: arr(k, 0.0, 0.0, z))
    object.__setattr__(m, "ejecta_shape", lambda *a, **kw: (arr(k, 1.0, 2.0, 3.0), arr(k, 1.0, 1.0, 1.0)))
    how = k.choice("how", ["crater", "ejecta alone"])
    if how == "crater":
        o = k.outcome(m.form_crater, c)
    else:
        object.__setattr__(m, "_excavated_volume", k.choice("volume", [None, 0.0]))
        o = k.outcome(m.form_ejecta, c)
    k.ensure("no-failure", o.ok, lambda: o)
    up = [e for e in log if e[0] == "ejecta" and e[1] == "elevation"]
    k.ensure("no-ejecta-without-excavation", len(up) == (1 if how == "crater" else 0) and not [e for e in log if e[:2] == ("ejecta", "data")], lambda: log)


@scenario("C14", "plain_craters_are_formed_like_those_of_the_morphology", functions=[M + "Morphology.form_crater", M + "Morphology.form_ejecta", B + "BasicMoonMorphology.form_crater",
          B + "BasicMoonMorphology.form_ejecta"], search_only="the ground of a crater is found by native search trees", bounded="generated craters on an icosphere of 162 faces", search_s=10, search_n=60,
          assumes=["the shape of the crater and of its ejecta are recorders"])
def s1c(k):
    s = simulation()
    m = s.morphology
    seen = []

    def shape(crater, region, *a, **kw):
        seen.append(("crater", crater, region))
        return -np.ones(region.n_face + region.n_node)

    def ejecta(crater, region, *a, **kw):
        seen.append(("ejecta", crater, region))
        n = region.n_face + region.n_node
        return np.ones(n), np.zeros(n)
    object.__setattr__(m, "crater_shape", shape)
    object.__setattr__(m, "ejecta_shape", ejecta)
    object.__setattr__(m, "_do_slope_collapse", False)
    object.__setattr__(m, "_do_counting", False)
    object.__setattr__(m, "degradation_function", lambda *a, **kw: 0.0)
    D = k.real("D", 6e5, 9e5)
    own = Crater.maker(diameter=D, location=(k.real("lon", -180, 179), k.real("lat", -89, 89)))
    c = own if k.bool("plain") else s.Crater.maker(crater=own)
    what = k.choice("what", ["crater", "ejecta alone"])
    with kernel("compute_distances", haversine), kernel("apply_diffusion", lambda region=None, **kw: np.zeros(region.n_face)), \
            kernel("interpolate_node_elevation_from_faces", lambda region=None, **kw: np.zeros(region.n_node)), kernel(
                "ejecta_profile", lambda r, d, h: h * (np.asarray(r) / (d / 2)) ** -3.0, morphology_bindings):
        form(k, s, m, own, c, what, seen)


def form(k, s, m, own, c, what, seen):
    if what == "crater":
        k.call(m.form_crater, c)
        k.ensure("formed", [x[0] for x in seen][:1] == ["crater"], lambda: seen)
    else:
        m._excavated_volume = k.choice("volume", [-1e9, None])
        k.call(m.form_ejecta, c)
        k.ensure("ejecta-laid-down-after-excavation", (len(seen) > 0) == (m._excavated_volume is not None), lambda: seen)
    like = s.Crater.maker(crater=own)
    for _, x, reg in seen:
        k.ensure("a-crater-of-this-morphology", isinstance(x, BasicMoonCrater) and x.morphology is m and x.morphology.surface is s.surface, lambda: x)
        k.ensure("the-crater-given", x.id == own.id and x.diameter == own.diameter and x.location == own.location)
        k.ensure("shaped-as-on-this-surface", all(getattr(x, n) == getattr(like, n) for n in ("rim_height", "rim_width", "floor_depth", "floor_diameter", "peak_height", "ejrim")), lambda: (x, like))
        k.ensure("on-its-own-ground", np.array_equal(np.arange(s.surface.n_face)[reg.face_indices], np.arange(s.surface.n_face)[like.ejecta_region.face_indices]))


@scenario("C14", "each_crater_once_in_order_in_disjoint_batches", functions=[M + "Morphology.CraterQueueManager." + n for n in ("push", "peek_next_batch", "pop_batch", "is_empty")] +
          [M + "Morphology._process_queue", M + "Morphology._enqueue_crater", M + "Morphology._init_queue_manager", M + "Morphology.emplace", B + "BasicMoonMorphology.emplace",
           B + "BasicMoonMorphology.overlap_function"], models=MODELS, budget=240, max_paths=6000,
          bounded="queues of at most four craters, with every overlap relation between them",
          assumes=["form_crater, the degradation steps and the tally are recorders"])
def s2(k):
    s = simulation()
    m = s.morphology
    log = []
    object.__setattr__(m, "_counting", Tally(log))
    object.__setattr__(m, "_do_counting", k.bool("count"))
    object.__setattr__(m, "_do_subpixel_degradation", k.bool("degrade"))
    n = k.choice("n", [1, 2, 3, 4])
    faces, nodes = [set() for _ in range(n)], [set() for _ in range(n)]
    for i in range(n):
        for j in range(i):
            how = k.choice(f"overlap{j}{i}", ["none", "faces", "nodes"] if n < 4 else ["none", "faces"])
            if how != "none":
                for x in (i, j):
                    (faces if how == "faces" else nodes)[x].add(10 * j + i)
    skip = k.choice("below resolution", [None, *range(n)]) if n < 4 else None
    timed = k.bool("timed")
    t = [[1000.0 - 10 * i for i in range(n)], [800.0, 1000.0, 600.0, 900.0][:n]][k.choice("sorted", [0, 1]) if n == 3 else n % 2]
    cs = [Body(name=f"c{i}", emplaceable=i != skip, affected_face_indices=faces[i], affected_node_indices=nodes[i], time=t[i] if timed else None, diameter=1e4, radius=5e3) for i in range(n)]
    object.__setattr__(m, "form_crater", lambda c, **kw: log.append(("form", c)))
    object.__setattr__(m, "compute_subpixel_degradation", lambda time_start, time_end, **kw: log.append(("degrade", time_start, time_end)))
    object.__setattr__(m, "apply_subpixel_degradation", lambda **kw: log.append(("apply",)))
    out = k.call(m.emplace, cs if n > 1 or k.bool("as list") else cs[0])
    formed = [e[1] for e in log if e[0] == "form"]
    want = [c for i, c in enumerate(cs) if i != skip]
    k.ensure("each-once-in-the-order-given", formed == want, lambda: (formed, want))
    k.ensure("all-reported", out == cs, lambda: (out, cs))
    k.ensure("queue-empty-afterwards", m._queue_manager.is_empty and all(c.cleaned == 1 for c in want))
    k.ensure("counted-at-the-end", (log[-1:] == [("counting", "tally")]) == bool(m.do_counting), lambda: log)
    k.ensure("degradation-applied-at-the-end", [e for e in log if e == ("apply",)] == ([("apply",)] if m.do_subpixel_degradation else []))
    for e in log:
        if e[0] == "degrade":
            k.ensure("degrades-forward-within-the-craters-times", timed and max(t) >= e[1] > e[2] >= min(t) and e[1] in t and e[2] in t and m.do_subpixel_degradation, lambda: log)
            last = [x[1].time for x in log[:log.index(e)] if x[0] == "form"][-2:]
            k.ensure("for-the-whole-time-of-the-batch", all(e[1] >= x >= e[2] for x in last), lambda: (log, last))
    k.ensure("nothing-left-over", k.call(m.emplace, [Body(name="late", emplaceable=True, affected_face_indices=set(), affected_node_indices=set(), time=None, diameter=1.0, radius=.5)]) is not None
             and len([e for e in log if e[0] == "form"]) == len(want) + 1, lambda: log)


@scenario("C14", "a_long_queue_is_tallied_as_asked", functions=[M + "Morphology._process_queue", M + "Morphology.emplace"], search_s=30, search_n=6,
          search_only="a queue of more than four thousand craters is run on the real code", bounded="queues of 2100 to 4500 craters",
          assumes=["form_crater, the degradation steps and the tally are recorders"])
def s2b(k):
    s = simulation()
    m = s.morphology
    n = k.choice("n", [4100, 4500, 2100])
    asked = k.choice("asked", [{"measure_rim": True}, {"measure_rim": True, "quiet": True, "tol": 0.02}, {"quiet": True}])
    done, calls = [], []

    class Recorder(Tally):
        def tally(self, *a, **kw):
            calls.append((len(done), a, kw))
    object.__setattr__(m, "_counting", Recorder([]))
    object.__setattr__(m, "_do_counting", True)
    object.__setattr__(m, "_do_subpixel_degradation", False)
    object.__setattr__(m, "form_crater", lambda c, **kw: done.append(c))
    cs = [Body(name=f"c{i}", emplaceable=True, affected_face_indices={i // 2 if i % 3 else i}, affected_node_indices={i}, time=None, diameter=1e4, radius=5e3) for i in range(n)]
    k.call(m.emplace, cs, **asked)
    k.ensure("each-once-in-the-order-given", done == cs, lambda: (len(done), len(cs)))
    k.ensure("counted-at-the-end", bool(calls) and calls[-1][0] == n, lambda: [c[0] for c in calls])
    k.ensure("every-tally-with-the-options-asked-for", all(not a and all(kw.get(x) == v for x, v in asked.items()) for _, a, kw in calls), lambda: calls)


@scenario("C14", "batches_never_overlap", functions=[M + "Morphology.CraterQueueManager." + n for n in ("push", "peek_next_batch", "pop_batch", "is_empty")], budget=120, max_paths=6000,
          bounded="queues of at most four craters, with every overlap relation between them")
def s3(k):
    n = k.choice("n", [1, 2, 3, 4])
    faces, nodes = [set() for _ in range(n)], [set() for _ in range(n)]
    over = {}
    for i in range(n):
        for j in range(i):
            how = k.choice(f"overlap{j}{i}", ["none", "faces", "nodes"])
            over[(j, i)] = how != "none"
            if how != "none":
                for x in (i, j):
                    (faces if how == "faces" else nodes)[x].add(10 * j + i)
    cs = [Body(name=f"c{i}", i=i) for i in range(n)]
    q = k.call(Morphology.CraterQueueManager, lambda c: (nodes[c.x_i], faces[c.x_i]))
    for c in cs:
        k.call(q.push, c)
    done = []
    for _ in range(n + 1):
        if k.get(q, "is_empty"):
            break
        b = k.call(q.peek_next_batch)
        k.ensure("progress", len(b) > 0)
        ids = [c.x_i for c in b]
        k.ensure("the-oldest-waiting", ids == list(range(len(done), len(done) + len(ids))), lambda: (ids, done))
        k.ensure("disjoint", not any(over[(min(a, c), max(a, c))] for a in ids for c in ids if a != c), lambda: (ids, over))
        k.call(q.pop_batch, b)
        done += ids
    k.ensure("all-out", done == list(range(n)) and k.get(q, "is_empty"), lambda: done)
