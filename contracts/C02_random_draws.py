"""C02: every randomly drawn physical quantity stays in its domain and follows the documented distribution."""
import math

import numpy as np

from cratermaker.utils import montecarlo_utils as mc
from pyvc.core import Unsupported
from pyvc.kit import need, scenario

M = "cratermaker.utils.montecarlo_utils:"


def plain(f):
    """The Python body of a function that may be compiled by numba."""
    return getattr(f, "py_func", f)


def uniform_draws(k, rng):
    """The draws made so far, in [0, 1); the distribution contract only speaks about uniform draws."""
    if any(m not in ("uniform", "random") for m in rng.log):
        if not k.sym:
            return None
        raise Unsupported("drawn with something other than uniform deviates")
    return [v for n, v in k.inputs.items() if n.startswith(rng.name + ".")]


@scenario("C02", "random_location_on_sphere", functions=[M + "get_random_location"])
def s1(k):
    n = k.choice("n", [1, 2])
    rng = k.rng()
    r = k.call(mc.get_random_location, size=n, rng=rng)
    us = uniform_draws(k, rng)
    k.ensure("as-many-as-asked", len(r) == n)
    for i in range(n):
        lon, lat = r["lon"][i], r["lat"][i]
        k.ensure("longitude-in-range", k.and_(lon >= -180.0, lon < 180.0 + 1e-9), lambda: r)
        k.ensure("latitude-in-range", k.and_(lat >= -90.0 - 1e-9, lat <= 90.0 + 1e-9), lambda: r)
        if us is None:
            continue
        k.ensure("uniform-in-longitude", k.or_(*[k.or_(k.eq(lon, 360.0 * u - 180.0, atol=1e-6), k.eq(lon, 180.0 - 360.0 * u, atol=1e-6))
                                                 for u in us]), lambda: (r, us))
        k.ensure("uniform-in-area", k.or_(*[k.or_(k.eq(lat, k.deg(k.f("arcsin", 2 * u - 1)), atol=1e-4),
                                                  k.eq(lat, -k.deg(k.f("arcsin", 2 * u - 1)), atol=1e-4))
                                            for u in us]), lambda: (r, us))


@scenario("C02", "random_impact_angle", functions=[M + "get_random_impact_angle"])
def s2(k):
    n = k.choice("n", [1, 2])
    rng = k.rng()
    r = k.call(mc.get_random_impact_angle, size=n, rng=rng)
    us = uniform_draws(k, rng)
    k.ensure("as-many-as-asked", len(r) == n)
    for i in range(n):
        k.ensure("angle-in-range", k.and_(r[i] >= 0.0, r[i] <= 90.0 + 1e-9), lambda: r)
        if us is None:
            continue
        k.ensure("sin-squared-uniform", k.or_(*[k.or_(k.eq(r[i], k.deg(k.f("arcsin", k.f("sqrt", u))), atol=1e-4),
                                                      k.eq(r[i], k.deg(k.f("arccos", k.f("sqrt", u))), atol=1e-4))
                                                for u in us]), lambda: (r, us))


@scenario("C02", "random_impact_direction", functions=[M + "get_random_impact_direction"])
def s3(k):
    n = k.choice("n", [1, 2])
    rng = k.rng()
    r = k.call(mc.get_random_impact_direction, size=n, rng=rng)
    k.ensure("as-many-as-asked", len(r) == n)
    for i in range(n):
        k.ensure("direction-in-range", k.and_(r[i] >= 0.0, r[i] < 360.0), lambda: r)


@scenario("C02", "random_velocity_unbound", functions=[M + "get_random_velocity"])
def s4(k):
    rng = k.rng()
    vm = k.real("vmean", 0, lo_open=True, sample=(1.0, 1e5))
    r = k.call(mc.get_random_velocity, vm, size=1, rng=rng)
    k.ensure("non-negative", r[0] >= 0, lambda: r)


@scenario("C02", "one_value_unless_asked_for_more", functions=[M + f for f in ("get_random_location", "get_random_impact_angle", "get_random_impact_direction", "get_random_velocity")],
          search_only="numpy generators", bounded="generated seeds and sizes", search_s=2, search_n=100)
def s4b(k):
    seed, n = k.int("seed", 0, 10**6), k.choice("n", [None, 1, 2, 7, (2, 3)])
    for f, a in ((mc.get_random_location, ()), (mc.get_random_impact_angle, ()), (mc.get_random_impact_direction, ()), (mc.get_random_velocity, (2e4,))):
        out = np.asarray(k.call(f, *a, rng_seed=seed, **({} if n is None else {"size": n})))
        k.ensure("as-many-as-asked", out.size == (1 if n is None else int(np.prod(n))), lambda f=f: (f, n, out.shape))


@scenario("C02", "random_velocity_at_least_escape", functions=[M + "get_random_velocity"])
def s5(k):
    rng = k.rng()
    vm = k.real("vmean", 0, lo_open=True, sample=(1.0, 1e5))
    ve = k.real("vescape", 0, lo_open=True, sample=(1.0, 1e5))
    k.assume(vm > ve)
    r = k.call(mc.get_random_velocity, vm, vescape=ve, size=1, rng=rng)
    k.ensure("impact-no-slower-than-escape", r[0] >= ve * (1 - 1e-9), lambda: (vm, ve, r))


@scenario("C02", "random_velocity_below_escape", functions=[M + "get_random_velocity"],
          search_only="rejection loop: real generator, sampled mean and escape speeds", search_s=2)
def s6(k):
    rng = np.random.default_rng(k.int("seed", 0, 10**6))
    ve = k.real("vescape", 100.0, 1e5)
    vm = ve * k.real("f", 0.05, 1.0)
    n = k.choice("n", [1, 3, 10])
    r = mc.get_random_velocity(vm, vescape=ve, size=n, rng=rng)
    k.ensure("bound-projectiles-stay-below-escape", np.all(r < ve) and np.all(r >= 0) and r.shape == (n,), lambda: r)


def ks(x):
    x = np.sort(x)
    n = len(x)
    return max(np.max(np.arange(1, n + 1) / n - x), np.max(x - np.arange(n) / n)) * math.sqrt(n)


@scenario("C02", "distributions_statistical", functions=[M + f for f in (
    "get_random_location", "get_random_impact_angle", "get_random_impact_direction", "get_random_velocity")],
    search_only="Kolmogorov statistic on 4000 draws of the real generator, threshold 3.0 (p about 3e-8)", search_s=3,
    search_n=60)
def s7(k):
    seed = k.int("seed", 0, 10**9)
    n = 4000
    def rng():
        return np.random.default_rng(seed)
    loc = mc.get_random_location(size=n, rng=rng())
    k.ensure("longitude-uniform", ks((loc["lon"] + 180) / 360) < 3.0)
    k.ensure("sin-latitude-uniform", ks((np.sin(np.radians(loc["lat"])) + 1) / 2) < 3.0)
    k.ensure("longitude-and-latitude-independent", abs(np.corrcoef(loc["lon"], loc["lat"])[0, 1]) < 0.1)
    a = mc.get_random_impact_angle(size=n, rng=rng())
    k.ensure("sin-squared-angle-uniform", ks(np.sin(np.radians(a)) ** 2) < 3.0)
    d = mc.get_random_impact_direction(size=n, rng=rng())
    k.ensure("direction-uniform", ks(d / 360) < 3.0)
    vm = k.real("vmean", 1e3, 1e5)
    v = mc.get_random_velocity(vm, size=n, rng=rng())
    k.ensure("mean-speed-as-asked", abs(v.mean() / vm - 1) < 0.05, lambda: v.mean() / vm)
    from scipy.stats import maxwell
    k.ensure("maxwellian-speed", ks(maxwell.cdf(v, scale=vm / math.sqrt(8 / math.pi))) < 3.0)


def _table(k, n):
    """A size table with diameters in any order and a cumulative number decreasing with diameter."""
    ds, ns = [], []
    d, c = 1.0, 1.0
    for i in range(n):
        d = d * k.real(f"dstep{i}", 1.001, 100.0)
        ds.append(d)
    for i in range(n):
        c = c * k.real(f"cstep{i}", 1.001, 100.0)
        ns.append(c)
    ns = ns[::-1]
    order = k.choice("order", ["up", "down", "mixed"])
    idx = list(range(n))
    if order == "down":
        idx = idx[::-1]
    elif order == "mixed":
        idx = idx[1:] + idx[:1]
    return [ds[i] for i in idx], [ns[i] for i in idx], ds, ns


@scenario("C02", "random_size_inverts_the_table", functions=[M + "get_random_size"],
          search_only="generated tables of 2-12 entries, stubbed draws, loglog-interpolation oracle")
def s8(k):
    n = k.choice("n", [2, 3, 5, 12])
    dd, cc, ds, ns = _table(k, n)
    rng = k.rng()
    m = k.choice("m", [1, 3])
    scale = k.real("scale", 1e-6, 1e6)
    cdf = np.array(cc) * scale
    keep = cdf.copy()
    r = mc.get_random_size(np.array(dd), cdf, size=m, rng=rng)
    k.ensure("as-many-as-asked", r.shape == (m,))
    k.ensure("within-the-table", np.all(r >= ds[0] * (1 - 1e-6)) and np.all(r <= ds[-1] * (1 + 1e-6)), lambda: (r, ds))
    k.ensure("input-untouched", np.array_equal(cdf, keep))
    us = [v for nm, v in k.inputs.items() if ".uniform" in nm][:m]
    if any(x != "uniform" for x in rng.log):
        return
    c0 = ns[-1] / ns[0]
    us = [c0 + (1 - c0) * u for u in us]
    frac = np.exp(np.interp(np.log(r), np.log(ds), np.log(np.array(ns) / ns[0])))
    k.ensure("cumulative-at-draw-equals-uniform-deviate", np.allclose(frac, us, rtol=1e-4), lambda: (frac, us))


@scenario("C02", "random_size_rejects_bad_tables", functions=[M + "get_random_size"])
def s9(k):
    d1 = k.real("d1", 0, sample=(0, 100.0), hints=(0.0,))
    d2 = k.real("d2", 0, sample=(0, 100.0), hints=(0.0,))
    c1 = k.real("c1", 0, sample=(0, 100.0), hints=(0.0,))
    c2 = k.real("c2", 0, sample=(0, 100.0), hints=(0.0,))
    mk = (lambda *x: np.array(x, dtype=object)) if k.sym else (lambda *x: np.array(x))
    bad = k.or_(d1 <= 0, d2 <= 0, c1 <= 0, c2 <= 0, k.and_(d1 < d2, c1 < c2), k.and_(d1 > d2, c1 > c2))
    k.assume(bad)
    k.assume(d1 != d2)
    o = k.outcome(mc.get_random_size, mk(d1, d2), mk(c1, c2), size=1, rng=k.rng())
    k.ensure("rejected-with-ValueError", o.raised(ValueError), lambda: (d1, d2, c1, c2, o))


@scenario("C02", "bounded_normal", functions=[M + "bounded_norm"],
          search_only="scipy truncnorm: real generator, sampled parameters", search_s=2, search_n=400)
def s10(k):
    rng = np.random.default_rng(k.int("seed", 0, 10**6))
    loc = k.real("loc", -10.0, 10.0)
    sc = k.real("scale", 0.01, 10.0)
    lo = k.real("lo", -3.0, 0.0)
    hi = k.real("hi", 0.1, 3.0)
    given = k.bool("given")
    kw = dict(lower_bound=loc + lo * sc, upper_bound=loc + hi * sc) if given else {}
    r = mc.bounded_norm(loc, sc, size=20, rng=rng, **kw)
    a, b = (loc + lo * sc, loc + hi * sc) if given else (loc - sc, loc + sc)
    k.ensure("within-bounds", np.all(r >= a - 1e-9) and np.all(r <= b + 1e-9) and np.shape(r) == (20,), lambda: (a, b, r))


@scenario("C02", "random_point_inside_face", functions=[M + "_get_one_random_location"],
          search_only="generated convex polygons of 3-8 nodes with padding, stubbed draws")
def s11(k):
    n = k.choice("n", [3, 4, 6, 8])
    pad = k.choice("pad", [0, 2])
    rnd = np.random.default_rng(k.int("poly", 0, 10**6))
    ang = np.sort(rnd.uniform(0, 2 * np.pi, n))
    node = np.column_stack([np.cos(ang), np.sin(ang), np.full(n, 2.0)])
    perm = rnd.permutation(20)[:n]
    xyz = rnd.normal(size=(20, 3)) * 100
    xyz[perm] = node
    face = np.concatenate([perm, np.full(pad, -1)]).astype(np.int64)
    u = [k.real(f"u{i}", 0.0, 1.0, hi_open=True) for i in range(3)]
    p = plain(need(mc, "_get_one_random_location"))(face, xyz[:, 0], xyz[:, 1], xyz[:, 2], np.array(u))
    q = node[:, :2]
    e = np.roll(q, -1, axis=0) - q
    d = p[:2] - q
    k.ensure("in-the-plane", abs(p[2] - 2.0) < 1e-9)
    k.ensure("inside-the-face", np.all(e[:, 0] * d[:, 1] - e[:, 1] * d[:, 0] >= -1e-9), lambda: (p, q))


@scenario("C02", "random_point_convex_combination", functions=[M + "_get_one_random_location"],
          assumes=["triangular faces with arbitrary vertices (polygons: bounded contract random_point_inside_face)"])
def s12(k):
    u = [k.real(f"u{i}", 0.0, 1.0, hi_open=True, lo_open=(i == 0)) for i in range(3)]
    pos = [[k.real(f"x{i}{c}", sample=(-10, 10)) for c in range(3)] for i in range(3)]
    mk = (lambda x: np.array(x, dtype=object)) if k.sym else (lambda x: np.array(x, dtype=float))
    # a proper triangle in the plane z = const, so its area is known to be positive
    z = k.real("z", sample=(-10, 10))
    h = k.real("h", 0.0, lo_open=True, sample=(0.1, 10))
    v = [[pos[0][0], pos[0][1], z], [pos[0][0] + h, pos[0][1], z], [pos[2][0], pos[0][1] + h, z]]
    f = need(mc, "_get_one_random_location")
    r = k.call(f if k.sym else plain(f), np.array([0, 1, 2]), mk([a[0] for a in v]), mk([a[1] for a in v]),
               mk([a[2] for a in v]), mk(u))
    k.ensure("in-the-plane", k.eq(r[2], z, atol=1e-9))
    k.ensure("between-base-and-apex", k.and_(k.le(v[0][1], r[1], atol=1e-9), k.le(r[1], v[2][1], atol=1e-9)), lambda: r)
    # left and right edges: cross products keep their sign (divided by h)
    t = r[1] - v[0][1]
    k.ensure("right-of-the-left-edge", k.le((pos[2][0] - pos[0][0]) * t, (r[0] - pos[0][0]) * h, atol=1e-7), lambda: r)
    k.ensure("left-of-the-right-edge", k.le((r[0] - pos[0][0] - h) * h, (pos[2][0] - pos[0][0] - h) * t, atol=1e-7), lambda: r)


@scenario("C02", "random_points_cover_the_face_evenly", functions=[M + "_get_one_random_location"],
          search_only="first and second moments of 2048 evenly spread draws on generated convex polygons of 3-8 nodes", search_s=4, search_n=60)
def s13(k):
    n = k.choice("n", [3, 4, 5, 8])
    rnd = np.random.default_rng(k.int("poly", 0, 10**6))
    ang = np.sort(rnd.uniform(0, 2 * np.pi, n))
    q = np.column_stack([np.cos(ang), np.sin(ang)]) * 10.0
    from scipy.stats import qmc
    us = qmc.Sobol(3, scramble=True, seed=int(rnd.integers(10**6))).random(2048)
    us = np.clip(us, 1e-9, 1 - 1e-9)
    f = plain(need(mc, "_get_one_random_location"))
    face = np.arange(n, dtype=np.int64)
    z = np.full(n, 2.0)
    p = np.array([f(face, q[:, 0].copy(), q[:, 1].copy(), z, u) for u in us])[:, :2]
    # exact moments of the uniform distribution over the polygon, from its fan of triangles
    A, m1, m2 = 0.0, np.zeros(2), np.zeros((2, 2))
    for j in range(1, n - 1):
        t = q[[0, j, j + 1]]
        d1, d2 = t[1] - t[0], t[2] - t[0]
        a = abs(d1[0] * d2[1] - d1[1] * d2[0]) / 2
        c = t.sum(axis=0)
        A, m1, m2 = A + a, m1 + a * c / 3, m2 + a * (np.outer(c, c) + t.T @ t) / 12
    m1, m2 = m1 / A, m2 / A
    s2 = np.sqrt(np.trace(m2 - np.outer(m1, m1)))
    k.ensure("mean-is-the-centroid", np.all(np.abs(p.mean(axis=0) - m1) < 0.05 * s2), lambda: (q, p.mean(axis=0), m1, s2))
    v = (p - m1).T @ (p - m1) / len(p)
    k.ensure("spread-is-that-of-the-face", np.all(np.abs(v - (m2 - np.outer(m1, m1))) < 0.08 * s2**2), lambda: (q, v, m2 - np.outer(m1, m1)))


@scenario("C02", "random_locations_on_faces", functions=[M + "get_random_location_on_face", M + "_get_one_random_location"],
          search_only="generated meshes of up to 6 faces of 3-6 nodes anywhere on the sphere, real generator", search_s=6, search_n=200)
def s14(k):
    """One location per face asked for, each on its own face, reproducible from the seed."""
    import xarray as xr
    rnd = np.random.default_rng(k.int("mesh", 0, 10**6))
    nf = int(rnd.integers(1, 7))
    nodes, faces = [], []
    for _ in range(nf):
        n = int(rnd.integers(3, 7))
        c = rnd.normal(size=3)
        c /= np.linalg.norm(c)
        a = np.cross(c, rnd.normal(size=3))
        a /= np.linalg.norm(a)
        b = np.cross(c, a)
        ang = np.sort(rnd.uniform(0, 2 * np.pi, n))
        r = rnd.uniform(0.01, 0.4)
        v = c + r * (np.cos(ang)[:, None] * a + np.sin(ang)[:, None] * b)
        v /= np.linalg.norm(v, axis=1)[:, None]
        faces.append(list(range(len(nodes), len(nodes) + n)))
        nodes += v.tolist()
    nodes = np.array(nodes)
    conn = np.full((nf, 6), -1, dtype=np.int64)
    for i, f in enumerate(faces):
        conn[i, :len(f)] = f

    class Grid:
        face_node_connectivity = xr.DataArray(conn, dims=("n_face", "n_max"))
        node_x, node_y, node_z = (xr.DataArray(nodes[:, j].copy(), dims="n_node") for j in range(3))
        n_face = nf
    idx = rnd.integers(0, nf, size=int(rnd.integers(1, 6)))
    ask = int(idx[0]) if k.bool("scalar") else idx
    seed = int(rnd.integers(10**6))

    def draw():
        import unittest.mock as mock
        with mock.patch.object(mc, "_get_one_random_location", plain(getattr(mc, "_get_one_random_location", None)), create=True):
            return mc.get_random_location_on_face(Grid, ask, rng_seed=seed)     # interpreted: compiling takes seconds
    loc = draw()
    idx = np.atleast_1d(ask)
    k.ensure("one-per-face", np.shape(loc) == (len(idx),), lambda: loc)
    k.ensure("reproducible", np.array_equal(loc, draw()))
    lon, lat = np.radians(loc["lon"]), np.radians(loc["lat"])
    p = np.column_stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
    for i, f in enumerate(idx):
        v = nodes[faces[f]]
        side = np.einsum("ij,j->i", np.cross(v, np.roll(v, -1, axis=0)), p[i])
        # only the fan of the polygon from its first node: its chord planes bound the face, which is convex
        k.ensure("on-its-own-face", np.all(side >= -1e-9), lambda i=i: (f, side, loc[i]))
    if len(idx) > 1:
        k.ensure("independent-draws", len({(float(a), float(b)) for a, b in loc}) == len(idx))
