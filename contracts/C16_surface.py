"""C16: an edit of a region changes exactly the faces and nodes of that region, by exactly what was asked; regions know their neighbourhood."""
import numpy as np

from cratermaker.components.surface import INT_FILL_VALUE, LocalSurface, Surface
from contracts._common import haversine, kernel
from contracts._sim import simulation
from pyvc.kit import Stub, scenario

L = "cratermaker.components.surface:LocalSurface."
S = "cratermaker.components.surface:Surface."


class Var(Stub):
    def __init__(self, a):
        self.data = self.values = a


class Data(Stub):
    """The variables of the whole surface."""

    def __init__(self):
        self.data_vars = {}

    def __contains__(self, n):
        return n in self.data_vars

    def __getitem__(self, n):
        return self.data_vars[n]


class Whole(Stub):
    """A surface of four faces, six nodes and three edges."""

    def __init__(self, k):
        self.k, self.uxds = k, Data()
        self.n_face, self.n_node, self.n_edge = 4, 6, 3
        self.radius = 1.0e6
        self.new = []
        self.face_area = np.array([k.real(f"area{i}", 0, lo_open=True, sample=(1e6, 1e9)) for i in range(4)], dtype=object if k.sym else float)

    def add(self, name, n):
        k = self.k
        v = np.array([k.real(f"{name}{i}", sample=(-1e3, 1e3)) for i in range(n)], dtype=object if k.sym else float)
        self.uxds.data_vars[name] = Var(v)
        return v.copy()

    def _add_new_data(self, name, long_name=None, units=None, data=None, isfacedata=True, **kw):
        n = self.n_face if isfacedata else self.n_node
        a = np.empty(n, dtype=object if self.k.sym else float)
        a[:] = 0.0 if data is None else data
        self.new.append((name, isfacedata))
        self.uxds.data_vars[name] = Var(a)


def region(k, w, faces=(0, 2), nodes=(1, 2, 5)):
    r = object.__new__(LocalSurface)
    for n, v in {"_surface": w, "_face_indices": np.array(faces), "_node_indices": np.array(nodes), "_edge_indices": np.array([0]), "_n_face": None, "_n_node": None,
                 "_n_edge": None, "_area": None, "_location": (0.0, 0.0), "_region_radius": 1.0, "_desloped_face_elevation": None, "_uxds": None, "_uxgrid": None}.items():
        object.__setattr__(r, n, v)
    return r


def vals(k, name, n):
    return np.array([k.real(f"{name}{i}", sample=(-1e3, 1e3)) for i in range(n)], dtype=object if k.sym else float)


def same(k, label, got, want, detail=None):
    k.ensure(label, len(got) == len(want) and k.and_(*[k.eq(a, b) for a, b in zip(got, want, strict=True)], True), lambda: (got, want))


@scenario("C16", "adding_data_to_a_region", functions=[L + "add_data", L + "n_face", L + "n_node", L + "face_indices", L + "node_indices", L + "surface"],
          assumes=["the surface is a stand-in of four faces and six nodes with arbitrary data"])
def s1(k):
    w = Whole(k)
    known = k.bool("known")
    on = k.choice("on", ["face", "node"])
    n_all = w.n_face if on == "face" else w.n_node
    old = w.add("thing", n_all) if known else np.zeros(n_all)
    other = w.add("other", w.n_face)
    nodes = k.choice("shape", [(1, 2, 5), (3, 4)])   # the second has as many nodes as faces
    r = region(k, w, nodes=nodes)
    idx = (0, 2) if on == "face" else nodes
    how = k.choice("how", ["scalar", "array", "list"])
    if len(nodes) == 2 and on == "node" and how != "scalar":
        k.assume(False)      # ambiguous by its size alone
    if how == "scalar":
        x = k.real("x", sample=(-1e3, 1e3))
        data, new = x, [x] * len(idx)
    else:
        data = vals(k, "x", len(idx))
        new = list(data)
        data = new if how == "list" else data
    over = k.bool("overwrite")
    pos = k.bool("positive")
    fill = k.choice("fill", [0.0, 7.0])
    kw = {"isfacedata": on == "face"}
    if how != "scalar" and k.bool("by size"):
        kw = {}
    k.call(r.add_data, "thing", data=data, overwrite=over, positive_only=pos, fill_value=fill, **kw)
    got = w.uxds["thing"].data
    want = list(old) if known else [fill] * n_all
    for i, v in zip(idx, new, strict=True):
        want[i] = v if over or not known else want[i] + v
        if pos:
            want[i] = k.f_max(want[i], 0.0)
    same(k, "exactly-the-region-changes", got, want)
    same(k, "other-data-untouched", w.uxds["other"].data, other)
    k.ensure("created-once", w.new == ([] if known else [("thing", on == "face")]), lambda: w.new)


@scenario("C16", "data_of_the_wrong_size_is_rejected", functions=[L + "add_data", L + "update_elevation"])
def s2(k):
    w = Whole(k)
    fe, ne = w.add("face_elevation", 4), w.add("node_elevation", 6)
    r = region(k, w)
    n = k.choice("n", [4, 6, 7, 0])
    x = vals(k, "x", n)
    what = k.choice("what", ["data", "elevation"])
    o = k.outcome(r.add_data, "face_elevation", data=x) if what == "data" else k.outcome(r.update_elevation, x)
    k.ensure("rejected", o.raised(ValueError), lambda: o)
    same(k, "faces-untouched", w.uxds["face_elevation"].data, fe)
    same(k, "nodes-untouched", w.uxds["node_elevation"].data, ne)


@scenario("C16", "elevation_changes_where_asked", functions=[L + "update_elevation", L + "add_data", L + "interpolate_node_elevation_from_faces"],
          assumes=["the Rust interpolation kernel gives arbitrary node elevations"])
def s3(k):
    w = Whole(k)
    fe, ne = w.add("face_elevation", 4), w.add("node_elevation", 6)
    nodes = k.choice("shape", [(1, 2, 5), (3, 4)])
    faces = (0, 2)
    r = region(k, w, nodes=nodes)
    seen = []
    object.__setattr__(r, "interpolate_node_elevation_from_faces", lambda: seen.append(list(w.uxds["face_elevation"].data)))
    over = k.bool("overwrite")
    how = k.choice("how", ["scalar", "one", "faces", "nodes", "both"])
    if how in ("scalar", "one"):
        x = k.real("x", sample=(-1e3, 1e3))
        f, n = [x, x], [x] * len(nodes)
        arg = x if how == "scalar" else np.array([x], dtype=object if k.sym else float)
    else:
        if len(nodes) == 2 and how == "nodes":
            k.assume(False)
        f = list(vals(k, "f", 2)) if how != "nodes" else None
        n = list(vals(k, "n", len(nodes))) if how != "faces" else None
        arg = (f or []) + (n or [])
        arg = np.array(arg, dtype=object if k.sym else float)
    k.call(r.update_elevation, arg, overwrite=over)
    for name, old, idx, new in (("face_elevation", fe, faces, f), ("node_elevation", ne, nodes, n)):
        want = list(old)
        if new is not None:
            for i, v in zip(idx, new, strict=True):
                want[i] = v if over else want[i] + v
        same(k, "exactly-what-was-asked", w.uxds[name].data, want)
    k.ensure("nodes-follow-faces", len(seen) == (1 if how == "faces" else 0), lambda: seen)
    if seen:
        same(k, "after-the-faces-have-moved", seen[0], list(w.uxds["face_elevation"].data))


@scenario("C16", "node_elevations_come_from_the_faces_of_the_region", functions=[L + "interpolate_node_elevation_from_faces", L + "add_data"],
          assumes=["the Rust interpolation kernel gives arbitrary node elevations"])
def s3b(k):
    w = Whole(k)
    fe, ne = w.add("face_elevation", 4), w.add("node_elevation", 6)
    nodes = k.choice("shape", [(1, 2, 5), (3, 4, 0, 1), (0, 1, 2, 3, 4, 5)])
    r = region(k, w, nodes=nodes)
    n, asked = vals(k, "n", len(nodes)), []
    with kernel("interpolate_node_elevation_from_faces", lambda region: (asked.append(region), n)[1]):
        k.call(r.interpolate_node_elevation_from_faces)
    want = list(ne)
    for i, v in zip(nodes, n, strict=True):
        want[i] = v
    k.ensure("of-this-region", len(asked) == 1 and asked[0] is r)
    same(k, "its-nodes-only", w.uxds["node_elevation"].data, want)
    same(k, "faces-stay", w.uxds["face_elevation"].data, list(fe))


@scenario("C16", "a_region_of_given_faces", functions=[L + "node_indices", L + "edge_indices", L + "__init__", L + "n_node", L + "n_edge"],
          bounded="faces picked at random from an icosphere, its tables closed with the filling value at random", search_only="the grid is a native data set", search_s=5, search_n=200)
def s8b(k):
    su = grid()
    n = k.int("n", 1, 6)
    faces = np.unique([k.int(f"f{i}", 0, su.n_face - 1) for i in range(n)])
    fn, fe = su.face_node_connectivity, su.face_edge_connectivity
    pad = np.full((su.n_face, 1), INT_FILL_VALUE)
    cut = k.bool("filled")

    class Part(Stub):
        face_node_connectivity = np.hstack([fn, pad]) if cut else fn
        face_edge_connectivity = np.hstack([fe, pad]) if cut else fe
        n_face, n_node, n_edge = su.n_face, su.n_node, su.n_edge

    r = object.__new__(LocalSurface)
    for name, v in {"_surface": Part(), "_face_indices": faces, "_node_indices": None, "_edge_indices": None, "_n_node": None, "_n_edge": None, "_n_face": None,
                    "_location": (0.0, 0.0)}.items():
        object.__setattr__(r, name, v)
    for table, got, m in ((fn, r.node_indices, r.n_node), (fe, r.edge_indices, r.n_edge)):
        want = sorted(set(table[faces].ravel().tolist()) - {INT_FILL_VALUE})
        k.ensure("exactly-those-of-its-faces", sorted(np.asarray(got).tolist()) == want and m == len(want), lambda: (faces, got, want, m))


@scenario("C16", "noise_and_volume", functions=[L + "apply_noise", L + "compute_volume", L + "area", L + "face_area"],
          assumes=["the Rust noise kernel gives arbitrary values"])
def s4(k):
    w = Whole(k)
    fe, ne = w.add("face_elevation", 4), w.add("node_elevation", 6)
    r = region(k, w)
    z = vals(k, "z", 2)
    v = k.call(r.compute_volume, z)
    k.ensure("volume-is-height-times-area", k.eq(v, z[0] * w.face_area[0] + z[1] * w.face_area[2]), lambda: (v, z, w.face_area))
    k.ensure("area-is-the-sum", k.eq(k.get(r, "area"), w.face_area[0] + w.face_area[2]))
    k.ensure("wrong-size-rejected", k.outcome(r.compute_volume, vals(k, "y", 3)).raised(ValueError))
    raw = vals(k, "noise", 5)

    class Rng(Stub):
        def uniform(self, *a, size=None, **kw):
            return np.zeros(size)

        def integers(self, *a, **kw):
            return 1
    w.rng = Rng()
    for n in ("face_x", "face_y", "face_z"):
        setattr(w, n, np.zeros(4))
    for n in ("node_x", "node_y", "node_z"):
        setattr(w, n, np.zeros(6))
    sent = []
    object.__setattr__(r, "update_elevation", lambda new_elevation, **kw: sent.append((np.array(new_elevation), kw)))
    with kernel("turbulence_noise", lambda **kw: raw.copy()):
        k.call(r.apply_noise)
    k.ensure("one-change", len(sent) == 1 and not sent[0][1].get("overwrite"))
    d = sent[0][0]
    k.ensure("volume-conserved", k.eq(d[0] * w.face_area[0] + d[1] * w.face_area[2], 0.0, atol=1e-3), lambda: (d, w.face_area))
    for i in range(4):
        k.ensure("only-shifted", k.eq(d[i + 1] - d[i], raw[i + 1] - raw[i], atol=1e-9), lambda: (d, raw))
    o = k.outcome(r.apply_noise, model="sandpaper")
    k.ensure("unknown-model-rejected", o.raised(ValueError) and len(sent) == 1, lambda: o)


@scenario("C16", "diffusivity_is_validated", functions=[L + "apply_diffusion"], assumes=["the Rust diffusion kernel gives arbitrary changes"])
def s5(k):
    w = Whole(k)
    fe, ne = w.add("face_elevation", 4), w.add("node_elevation", 6)
    r = region(k, w)
    dz = vals(k, "dz", 2)
    moved, layer, asked = [], [], []
    object.__setattr__(r, "update_elevation", lambda new_elevation, overwrite=False, **kw: moved.append((new_elevation, overwrite)))
    object.__setattr__(r, "add_data", lambda name, data=None, overwrite=False, positive_only=False, **kw: layer.append((name, data, overwrite, positive_only)))

    def diffuse(face_kappa=None, face_variable=None, region=None):
        asked.append((face_kappa, face_variable, region))
        return dz
    how = k.choice("how", ["scalar", "array", "short"])
    a = [k.real(f"k{i}", sample=(-1.0, 1e3)) for i in range(2)]
    kd = a[0] if how == "scalar" else np.array(a if how == "array" else a[:1], dtype=object if k.sym else float)
    if how == "scalar":
        a = [a[0], a[0]]
    with kernel("apply_diffusion", diffuse):
        o = k.outcome(r.apply_diffusion, kd)
    if how == "short":
        k.ensure("wrong-size-rejected", o.raised(ValueError) and not moved)
        return
    if o.ok:
        k.ensure("negative-diffusivity-rejected", k.and_(a[0] >= 0, a[1] >= 0), lambda: a)
        if asked:
            same(k, "diffusivity-passed-on", asked[0][0], a)
            same(k, "of-this-region", asked[0][1], [fe[0], fe[2]])
            k.ensure("moved-once", len(asked) == 1 and len(moved) == 1 and moved[0][1] is False and moved[0][0] is dz and asked[0][2] is r)
            k.ensure("ejecta-layer-follows", len(layer) == 1 and layer[0][0] == "ejecta_thickness" and layer[0][1] is dz and not layer[0][2] and layer[0][3], lambda: layer)
        else:
            k.ensure("skipped-only-without-diffusion", k.and_(a[0] <= 1e-20, a[1] <= 1e-20), lambda: a)
            k.ensure("untouched", not moved and not layer)
    else:
        k.ensure("only-negative-rejected", o.raised(ValueError) and k.or_(a[0] < 0, a[1] < 0) is not False and not moved, lambda: (o, a))
        k.ensure("some-negative", k.or_(a[0] < 0, a[1] < 0), lambda: (o, a))


@scenario("C16", "local_connectivity_names_the_same_elements", functions=[L + "_remap_connectivity_to_local"], bounded="tables of two rows and three columns over four elements",
          search_only=None, budget=60)
def s6(k):
    table = np.array([[k.choice(f"c{i}{j}", [0, 3, INT_FILL_VALUE]) for j in range(2)] for i in range(2)])
    rows = k.choice("rows", [np.array([0]), np.array([1, 0]), slice(None)])
    values = k.choice("values", [np.array([3, 1]), np.array([0, 3]), np.array([2]), slice(None), slice(1, 4)])
    got = k.call(LocalSurface._remap_connectivity_to_local, table, rows, values, 4)
    if isinstance(rows, slice):
        k.ensure("whole-surface-unchanged", np.array_equal(got, table))
        return
    ids = np.arange(4)[values]
    for a, b in zip(got.ravel(), table[rows].ravel(), strict=True):
        if b in ids and b != INT_FILL_VALUE:
            k.ensure("same-element", 0 <= a < len(ids) and ids[a] == b, lambda: (got, table))
        else:
            k.ensure("outside-is-fill", a == INT_FILL_VALUE, lambda: (got, table))


@scenario("C16", "extents_contain_the_region", functions=[S + "get_location_extents"],
          bounded="points of the rim at generated bearings (trigonometry of the sphere is not within the solver's reach)", search_only="spherical trigonometry")
def s7(k):
    R = 1.7e6

    class T(Stub):
        radius = R

    class Su(Stub):
        target = T()
        radius = R
    lon, lat = k.real("lon", -180.0, 180.0), k.real("lat", -90.0, 90.0)
    alpha = k.real("alpha", 0.01, 120.0)
    b = np.radians(k.real("bearing", 0.0, 360.0))
    frac = k.real("frac", 0.0, 1.0)
    lo0, lo1, la0, la1 = Surface.get_location_extents(Su(), (lon, lat), np.radians(alpha) * R)
    a, p = np.radians(alpha * frac), np.radians(lat)
    x = np.sin(p) * np.cos(a) + np.cos(p) * np.sin(a) * np.cos(b)
    la = np.degrees(np.arcsin(np.clip(x, -1, 1)))
    dl = np.degrees(np.arctan2(np.sin(b) * np.sin(a) * np.cos(p), np.cos(a) - np.sin(p) * x))
    k.ensure("latitude-within", la0 - 1e-6 <= la <= la1 + 1e-6 and -90 <= la0 <= la1 <= 90, lambda: (la, la0, la1))
    k.ensure("longitude-within", any(lo0 - 1e-6 <= lon + dl + t <= lo1 + 1e-6 for t in (-360, 0, 360)), lambda: (lon + dl, lo0, lo1))


GRID = {}


def grid():
    if "su" not in GRID:
        su = GRID["su"] = simulation().surface
        with kernel("compute_edge_distances", lambda **kw: np.ones(len(kw["edge_connectivity"]))):
            su.edge_face_distance, su.edge_length
    return GRID["su"]


def angle(lon, lat, lon2, lat2):
    a, b, c, d = (np.radians(x) for x in (lon, lat, lon2, lat2))
    v = np.array([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)])
    w = np.array([np.cos(d) * np.cos(c), np.cos(d) * np.sin(c), np.sin(d)])
    return np.degrees(np.arctan2(np.linalg.norm(np.cross(v, w.T), axis=1), v @ w))


def neighbourhood(su, core):
    """Faces that share a node with the core, and the nodes of them all."""
    fn = su.face_node_connectivity
    nodes = {int(n) for f in core for n in fn[f] if n != INT_FILL_VALUE}
    faces = {f for f in range(su.n_face) if any(int(n) in nodes for n in fn[f] if n != INT_FILL_VALUE)} if nodes else set()
    return faces, {int(n) for f in faces for n in fn[f] if n != INT_FILL_VALUE}, nodes


@scenario("C16", "regions_hold_their_faces_and_neighbours", functions=[S + "extract_region", L + "extract_subregion", L + "__getattr__", L + "face_node_connectivity", L + "node_face_connectivity",
          L + "face_face_connectivity", L + "face_edge_connectivity", L + "edge_face_connectivity", L + "edge_node_connectivity"],
          bounded="one icosphere of 42 faces or more, generated centres and radii", search_only="the grid is a native data set", search_s=8, search_n=400)
def s8(k):
    su = grid()
    lon, lat = k.real("lon", -180.0, 540.0), k.real("lat", -90.0, 90.0)
    deg = k.real("deg", 0.5, 200.0, hints=(3.0, 10.0, 20.0, 180.0))
    must = k.bool("at least one")
    d = angle(lon, lat, su.face_lon, su.face_lat)
    if np.any(np.abs(d - deg) < 1e-6):
        k.assume(False)
    reg = su.extract_region((lon, lat), np.radians(deg) * su.radius, **({"at_least_one_face": True} if must else {}))
    core = {int(i) for i in np.nonzero(d < deg)[0]}
    if not core and must:
        near = np.sort(d)[:2]
        if near[1] - near[0] < 1e-6:
            k.assume(False)
        core = {int(np.argmin(d))}
    if deg >= 180:
        core = set(range(su.n_face))
    if not core:
        k.ensure("no-region-without-faces", reg is None, lambda: (lon, lat, deg))
        return
    k.ensure("region-found", reg is not None)
    faces, nodes, inner = neighbourhood(su, core)
    got = np.arange(su.n_face)[reg.face_indices]
    k.ensure("its-faces-and-their-neighbours", set(got.tolist()) == faces and len(got) == len(faces) == reg.n_face, lambda: (sorted(got), sorted(faces)))
    gn = np.arange(su.n_node)[reg.node_indices]
    k.ensure("their-nodes", set(gn.tolist()) == nodes and len(gn) == len(nodes) == reg.n_node, lambda: (sorted(gn), sorted(nodes)))
    check_views(k, su, reg, got, gn)
    if reg.is_local:
        with kernel("compute_distances", haversine):
            part = k.real("part", 0.1, 1.0)
            if np.any(np.abs(d - deg * part) < 1e-6):
                k.assume(False)
            sub = reg.extract_subregion(np.radians(deg * part) * su.radius)
            core2 = {int(f) for f in got if d[f] < deg * part} if part < 1 else None
            if part < 1 and not core2:
                k.ensure("no-subregion-without-faces", sub is None)
                return
            sg = np.arange(su.n_face)[sub.face_indices]
            f2, n2, i2 = neighbourhood(su, core2) if part < 1 else (faces, nodes, nodes)
            k.ensure("part-of-a-region", set(sg.tolist()) == f2 and len(sg) == len(f2), lambda: (sorted(sg), sorted(f2)))
            sn = np.arange(su.n_node)[sub.node_indices]
            k.ensure("nodes-of-the-part", i2 <= set(sn.tolist()) <= n2, lambda: (sorted(sn), sorted(i2), sorted(n2)))
            check_views(k, su, sub, sg, sn)


def check_views(k, su, reg, faces, nodes):
    edges = np.arange(su.n_edge)[reg.edge_indices]
    k.ensure("areas-of-its-faces", np.allclose(reg.face_area, su.face_area[faces]) and np.isclose(reg.area, su.face_area[faces].sum()))
    k.ensure("places-of-its-elements", np.array_equal(reg.face_lon, su.face_lon[faces]) and np.array_equal(reg.node_lat, su.node_lat[nodes]))
    su.uxds["face_elevation"].data[:] = np.arange(su.n_face)
    su.uxds["node_elevation"].data[:] = np.arange(su.n_node)
    k.ensure("data-of-its-elements", np.array_equal(reg.face_elevation, faces) and np.array_equal(reg.node_elevation, nodes))
    ids = {"face": faces, "node": nodes, "edge": edges}
    if len(faces) == su.n_face and not reg.is_local:
        return
    for a, b in (("face", "node"), ("node", "face"), ("face", "face"), ("face", "edge"), ("edge", "face"), ("edge", "node")):
        loc = np.asarray(getattr(reg, f"{a}_{b}_connectivity"))
        glo = np.asarray(getattr(su, f"{a}_{b}_connectivity"))[ids[a]]
        inside = np.isin(glo, ids[b]) & (glo != INT_FILL_VALUE)
        k.ensure(f"{a}-{b}-neighbours", loc.shape == glo.shape and np.array_equal(ids[b][loc[inside]], glo[inside]) and np.all(loc[~inside] == INT_FILL_VALUE), lambda: (a, b, loc, glo))


@scenario("C16", "a_region_shows_its_part_of_the_data", functions=[L + "__getattr__"], search_only="the data set is a native one", bounded="generated data of faces, nodes and edges on an icosphere",
          search_s=3, search_n=100)
def s8b(k):
    su = grid()
    reg = su.extract_region((k.real("lon", -180, 179), k.real("lat", -89, 89)), k.real("f", 0.3, 1.2) * su.radius)
    kind = k.choice("kind", ["face", "node", "edge", "other"])
    n = {"face": su.n_face, "node": su.n_node, "edge": su.n_edge, "other": su.n_edge + 7}[kind]
    data = np.random.default_rng(k.int("seed", 0, 10**6)).normal(size=(n, 2) if k.bool("pairs") else n)
    dims = {"face": "n_face", "node": "n_node", "edge": "n_edge", "other": "n_other"}[kind]
    had = su.uxds
    try:
        su._uxds = su.uxds.assign(probe=((dims, "two")[: data.ndim], data))
        if kind == "other":
            k.ensure("data-of-nothing-on-the-surface-is-not-shown", k.outcome(getattr, reg, "probe").raised(AttributeError))
            return
        idx = getattr(reg, f"{kind}_indices")
        k.ensure("its-own-part", np.array_equal(reg.probe, data[idx]), lambda: (kind, reg.probe.shape, data.shape))
        k.ensure("no-other-names", k.outcome(getattr, reg, "no_such_data").raised(AttributeError))
    finally:
        su._uxds = had


@scenario("C16", "tags_stay_with_their_faces", functions=[L + "add_tag", L + "remove_tag", L + "sort_tags", S + "add_tag", S + "remove_tag"],
          bounded="six operations on overlapping regions of one grid, with fewer tags on a face than there are layers", search_only="the grid is a native data set", search_s=8, search_n=200)
def s9(k):
    su = grid()
    name = "crater_id"
    su.add_tag(name=name)       # empties the layers
    model = {f: set() for f in range(su.n_face)}
    if k.bool("no layer is free everywhere"):
        n = su.uxds[name].data.shape[1]
        for f in range(su.n_face):
            su.uxds[name].data[f, f % n] = 100 + f
            model[f].add(100 + f)
    for j in range(6):
        op = k.choice(f"op{j}", ["add", "add", "remove", "whole", "sort"])
        tag = k.choice(f"tag{j}", [7, 8, 2**32 - 1, 300000 + j])
        c = [(0.0, 0.0), (20.0, 5.0), (60.0, -30.0)][k.choice(f"at{j}", [0, 1, 2])]
        reg = su.extract_region(c, np.radians(k.choice(f"deg{j}", [15.0, 40.0])) * su.radius, at_least_one_face=True)
        if op == "whole":
            reg = su
        f = np.arange(su.n_face)[reg.face_indices].tolist()
        if op in ("add", "whole"):
            if any(tag in model[i] for i in f):
                continue
            reg.add_tag(name=name, tag=tag)
            for i in f:
                model[i].add(tag)
        elif op == "remove":
            reg.remove_tag(name=name, tag=tag)
            for i in f:
                model[i].discard(tag)
        elif reg is not su:
            reg.sort_tags(name)
        data = su.uxds[name].data
        for i in range(su.n_face):
            k.ensure("tags-of-every-face", sorted(int(x) for x in data[i] if x != 0) == sorted(model[i]), lambda: (j, op, tag, i, data[i], model[i]))


# ------------------------------------------------------------------ the ground a crater is dug into
def lstsq_model(it, args, kw):
    """numpy.linalg.lstsq of a matrix of numbers: the least squares solution, a linear function of the right hand side."""
    A, z = np.array(args[0], dtype=float), args[1]
    p = np.linalg.pinv(A)
    out = np.empty(p.shape[0], dtype=object)
    for i, row in enumerate(p):
        v = 0.0
        for c, x in zip(row, z, strict=True):
            v = v + float(c) * x
        out[i] = v
    return out, None, A.shape[1], None


FX = np.array([0.0, 30.0, -20.0, 10.0, -45.0, 60.0, 5.0, 90.0])
FY = np.array([5.0, -10.0, 25.0, -40.0, -15.0, 35.0, 70.0, -20.0])
NX = np.array([15.0, -30.0, 40.0, -70.0])
NY = np.array([20.0, -5.0, -45.0, 60.0])


@scenario("C16", "the_ground_before_a_crater", functions=[L + "get_reference_surface", L + "compute_desloped_face_elevation", L + "desloped_face_elevation"], models={np.linalg.lstsq: lstsq_model},
          assumes=["eight faces and four nodes at fixed places, with arbitrary elevations; numpy.linalg.lstsq gives the least squares solution"], search_s=4)
def ground(k):
    w = Whole(k)
    w.n_face, w.n_node = 10, 6
    fi, ni = np.array([0, 1, 3, 4, 5, 6, 8, 9]), np.array([0, 2, 3, 5])
    heights = lambda name, n: np.array([k.real(f"{name}{i}", -2e4, 2e4) for i in range(n)], dtype=object if k.sym else float)
    w.uxds.data_vars = {"face_elevation": Var(heights("f", 10)), "node_elevation": Var(heights("n", 6))}
    before = [list(w.uxds[v].data) for v in ("face_elevation", "node_elevation")]
    r = region(k, w, faces=fi, nodes=ni)
    R = k.choice("region radius", [1e3, 50.0])
    object.__setattr__(r, "_region_radius", R)
    for n, v in {"_face_distance": np.hypot(FX, FY), "_node_distance": np.hypot(NX, NY), "_face_bearing": np.degrees(np.arctan2(FX, FY)), "_node_bearing": np.degrees(np.arctan2(NX, NY)),
                 "_face_proj_x": None, "_face_proj_y": None, "_node_proj_x": None, "_node_proj_y": None}.items():
        object.__setattr__(r, n, v)
    faces = k.bool("only faces")
    given = k.choice("radius", [None, 55.0, 30.0, 75.0, 1.0, 2e3])
    kw = {} if given is None else {"reference_radius": given}
    got = k.call(r.get_reference_surface, only_faces=faces, **kw)
    z = [before[0][i] for i in fi] + ([] if faces else [before[1][i] for i in ni])
    x, y = (FX, FY) if faces else (np.concatenate([FX, NX]), np.concatenate([FY, NY]))
    inside = np.nonzero(np.hypot(x, y) <= (R if given is None else given))[0]
    n_nodes = sum(i >= len(fi) for i in inside)
    want = list(z)
    if len(inside) >= 5 and (faces or n_nodes):
        A = np.stack([x[inside], y[inside], np.ones(len(inside))], axis=1)
        H = A @ np.linalg.pinv(A)
        for a, i in enumerate(inside):
            v = 0.0
            for b, j in enumerate(inside):
                v = v + float(H[a, b]) * z[j]
            want[i] = v
    k.ensure("one-value-per-point", len(got) == len(want), lambda: (len(got), len(want)))
    for i in range(len(want)):
        k.ensure("the-mean-slope-within-the-radius" if i in inside else "as-it-is-elsewhere", k.and_(got[i] - want[i] <= 1e-3, want[i] - got[i] <= 1e-3), lambda: (i, got[i], want[i], list(inside)))
    for v, old in zip(("face_elevation", "node_elevation"), before, strict=True):
        same(k, "looking-changes-nothing", w.uxds[v].data, old)
