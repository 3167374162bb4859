"""C01: coordinates are normalised to the canonical range without moving the point."""
import contextlib
import io
import os
import tempfile

import numpy as np

from cratermaker import Surface
from cratermaker.utils import general_utils as gu
from contracts._common import haversine, kernel
from pyvc.core import fresh_real
from pyvc.kit import Kit, scenario

SU = "cratermaker.components.surface:Surface."
LS = "cratermaker.components.surface:LocalSurface."
FN = ["cratermaker.utils.general_utils:normalize_coords",
      "cratermaker.utils.general_utils:validate_and_normalize_location"]
LON = dict(hints=(0.0, 180.0, -180.0, 360.0, 540.0, -540.0, 179.999999, -0.0))
LAT = dict(hints=(0.0, 90.0, -90.0, 180.0, -180.0, 270.0, -270.0, 360.0, 450.0, 90.0000001))


def same_point(k, lon, lat, lon2, lat2, tol=1e-6):
    """(lon2, lat2) is the same point of the sphere as (lon, lat): same latitude up to whole turns and same meridian,
    or the latitude mirrored over a pole and the opposite meridian, or both at the same pole."""
    same = k.and_(k.is_integer((lat2 - lat) / 360.0, tol), k.is_integer((lon2 - lon) / 360.0, tol))
    flip = k.and_(k.is_integer((lat2 + lat - 180.0) / 360.0, tol), k.is_integer((lon2 - lon - 180.0) / 360.0, tol))
    pole = k.and_(k.or_(k.eq(lat2, 90.0, atol=1e-4), k.eq(lat2, -90.0, atol=1e-4)),
                  k.is_integer((lat2 - lat) / 360.0, tol))
    return k.or_(same, flip, pole)


def canonical(k, lon2, lat2):
    return k.and_(lon2 >= -180.0, lon2 < 180.0, lat2 >= -90.0, lat2 <= 90.0)


@scenario("C01", "normalize_canonical_and_same_point", functions=FN)
def s1(k):
    lon = k.real("lon", -1e5, 1e5, **LON)
    lat = k.real("lat", -1e5, 1e5, **LAT)
    r = k.call(gu.normalize_coords, (lon, lat))
    k.ensure("two-components", len(r) == 2)
    k.ensure("canonical-range", canonical(k, r[0], r[1]), lambda: r)
    k.ensure("same-point-on-the-sphere", same_point(k, lon, lat, r[0], r[1]), lambda: (lon, lat, r))


def _point(k, name):
    return (k.real(f"{name}.lon", -1e5, 1e5, sample=(-1000, 1000), **LON),
            k.real(f"{name}.lat", -1e5, 1e5, sample=(-1000, 1000), **LAT))


def _ndarray(k, rows):
    if k.sym:
        a = np.empty(np.shape(rows), dtype=object)
        for i in np.ndindex(a.shape):
            v = rows
            for j in i:
                v = v[j]
            a[i] = v
        return a
    return np.array(rows, dtype=float)


@scenario("C01", "every_single_location_form", functions=FN,
          assumes=["record (structured) arrays are covered by the bounded contract record_forms"])
def s2(k):
    p = _point(k, "p")
    form = k.choice("form", ["tuple", "list", "array", "array2d", "nested", "nested_list", "dict"])
    x = {"tuple": lambda: p, "list": lambda: list(p), "array": lambda: _ndarray(k, list(p)),
         "array2d": lambda: _ndarray(k, [list(p)]), "nested": lambda: [p], "nested_list": lambda: [list(p)],
         "dict": lambda: {"lat": p[1], "lon": p[0]}}[form]()
    r = k.call(gu.validate_and_normalize_location, x)
    k.ensure("pair", isinstance(r, tuple) and len(r) == 2)
    k.ensure("canonical-range", canonical(k, r[0], r[1]), lambda: r)
    k.ensure("same-point-on-the-sphere", same_point(k, p[0], p[1], r[0], r[1]), lambda: (p, form, r))


def c_normalize(it, location):
    """The contract of normalize_coords (proved by normalize_canonical_and_same_point), used at its call sites."""
    k = Kit("sym", interp=it)
    lon, lat = location
    r = (fresh_real("nlon"), fresh_real("nlat"))
    k.assume(k.and_(canonical(k, *r), same_point(k, lon, lat, *r)))
    return r


@scenario("C01", "collections_keep_order_and_points", functions=FN,
          contracts={"cratermaker.utils.general_utils:normalize_coords": c_normalize},
          assumes=["collections of 2 or 3 locations (the loop treats each element alike)"])
def s3(k):
    n = k.choice("n", [2, 3])
    ps = [_point(k, f"p{i}") for i in range(n)]
    form = k.choice("form", ["tuples", "lists", "array"])
    x = {"tuples": lambda: list(ps), "lists": lambda: [list(p) for p in ps],
         "array": lambda: _ndarray(k, [list(p) for p in ps])}[form]()
    r = k.call(gu.validate_and_normalize_location, x)
    k.ensure("one-result-per-point", len(r) == n)
    for i, p in enumerate(ps):
        k.ensure("canonical-range", canonical(k, r[i][0], r[i][1]), lambda: r)
        k.ensure("same-point-on-the-sphere", same_point(k, p[0], p[1], r[i][0], r[i][1]), lambda: (ps, r))


@scenario("C01", "idempotent", functions=FN)
def s4(k):
    lon = k.real("lon", -180, 180, hi_open=True, **LON)
    lat = k.real("lat", -90, 90, **LAT)
    r = k.call(gu.normalize_coords, (lon, lat))
    k.ensure("canonical-input-unchanged", k.and_(k.or_(k.eq(r[0], lon), not k.sym and lon > 179.99999999),
                                                   k.eq(r[1], lat)), lambda: (lon, lat, r))


@scenario("C01", "record_forms", functions=FN,
          search_only="numpy structured arrays: generated records of 1-3 points in both field orders")
def s5(k):
    n = k.choice("n", [1, 2, 3])
    ps = [_point(k, f"p{i}") for i in range(n)]
    order = k.choice("order", [("lon", "lat"), ("lat", "lon")])
    a = np.empty(n, dtype=[(o, "f8") for o in order])
    for i, p in enumerate(ps):
        a["lon"][i], a["lat"][i] = p
    one = n == 1 and k.bool("record")
    r = gu.validate_and_normalize_location(a[0] if one else a)
    rs = [r] if n == 1 else r
    k.ensure("one-result-per-point", len(rs) == n)
    for p, q in zip(ps, rs, strict=True):
        k.ensure("canonical-range", canonical(k, *q), lambda: q)
        k.ensure("same-point-on-the-sphere", same_point(k, *p, *q), lambda: (p, q))


@scenario("C01", "rejects_what_is_not_a_location", functions=FN)
def s6(k):
    x = k.real("x", sample=(-500, 500))
    bad = k.choice("bad", ["three", "one", "empty_dict", "lon_only"])
    v = {"three": (x, x, x), "one": (x,), "empty_dict": {}, "lon_only": {"lon": x}}[bad]
    o = k.outcome(gu.validate_and_normalize_location, v)
    k.ensure("rejected", not o.ok, lambda: (v, o))


# ------------------------------------------------------------------ distances, bearings and destinations
def kernels():
    """Stand-ins for the Rust kernels, by their documentation: radians and metres, the reference first."""
    def bearings(lon1=None, lat1=None, lon2=None, lat2=None):
        y = np.sin(lon2 - lon1) * np.cos(lat2)
        x = np.cos(lat1) * np.sin(lat2) - np.sin(lat1) * np.cos(lat2) * np.cos(lon2 - lon1)
        return np.mod(np.arctan2(y, x), 2 * np.pi)

    def destination(lon1=None, lat1=None, distances=None, bearings=None, radius=None):
        d = distances / radius
        lat = np.arcsin(np.sin(lat1) * np.cos(d) + np.cos(lat1) * np.sin(d) * np.cos(bearings))
        lon = lon1 + np.arctan2(np.sin(bearings) * np.sin(d) * np.cos(lat1), np.cos(d) - np.sin(lat1) * np.sin(lat))
        return np.stack([np.mod(lon + np.pi, 2 * np.pi) - np.pi, lat], axis=1)
    out = contextlib.ExitStack()
    for n, f in (("compute_distances", haversine), ("compute_bearings", bearings), ("compute_location_from_distance_bearing", destination)):
        out.enter_context(kernel(n, f))
    return out


def xyz(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], axis=-1)


def away(p, q):
    """Angle between the points and direction of q from p, east of north, in degrees, by vectors."""
    a, b = xyz(*p), xyz(*q)
    east, north = np.array([-np.sin(np.radians(p[0])), np.cos(np.radians(p[0])), 0.0]), None
    north = np.cross(a, east)
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), b @ a), np.degrees(np.arctan2(b @ east, b @ north)) % 360


def turn(a, b):
    return np.abs((np.asarray(a) - b + 180) % 360 - 180)


GRID = []


@scenario("C01", "distances_and_bearings_are_between_the_points_given", functions=[SU + "compute_distances", SU + "compute_bearings", SU + "compute_location_from_distance_bearing",
          SU + "calculate_face_and_node_distances", SU + "calculate_face_and_node_bearings", LS + "compute_distances", LS + "compute_bearings", LS + "compute_location_from_distance_bearing",
          LS + "calculate_face_and_node_distances", LS + "calculate_face_and_node_bearings", LS + "face_distance", LS + "node_distance", LS + "face_bearing", LS + "node_bearing"],
          search_only="the grid is a native data set", bounded="generated points and regions of two grids", assumes=["the Rust kernels are stand-ins written from their documentation"], search_s=6, search_n=200)
def measured(k):
    with kernels():
        if not GRID:
            d = tempfile.mkdtemp(prefix="sim-", dir=os.environ.get("PYVC_SCRATCH"))
            with contextlib.redirect_stdout(io.StringIO()):
                GRID.extend(Surface.maker("icosphere", gridlevel=2, target=t, simdir=os.path.join(d, t), ask_overwrite=False) for t in ("Moon", "Mars"))
        su = GRID[k.choice("body", [0, 1])]
        R = su.radius
        lon, lat = k.real("lon", -360.0, 540.0), k.real("lat", -89.0, 89.0)
        here = (lon, lat)
        n = k.choice("points", [1, 2, 3])
        pts = [(k.real(f"lon{i}", -180.0, 180.0, hi_open=True), k.real(f"lat{i}", -89.0, 89.0)) for i in range(n)]
        ang, az = away(here, np.array(pts).T)
        if np.any(ang < 1e-3) or np.any(ang > np.pi - 1e-3):
            k.assume(False)
        view = k.choice("view", ["surface", "region", "region by default"])
        obj = su if view == "surface" else su.extract_region(here, 0.4 * R, at_least_one_face=True)
        ref = {} if view == "region by default" else {"reference_location": here}
        form = k.choice("form", ["list", "array", "one"]) if n == 1 else k.choice("form", ["list", "array"])
        arg = {"list": pts, "array": np.array(pts), "one": pts[0]}[form]
        got = np.asarray(k.call(obj.compute_distances, arg, **ref))
        k.ensure("distances-in-metres", got.shape == (n,) and np.allclose(got, ang * R, rtol=1e-6), lambda: (got, ang * R))
        got = np.asarray(k.call(obj.compute_bearings, arg, **ref))
        k.ensure("bearings-in-degrees-east-of-north", got.shape == (n,) and np.all(turn(got, az) < 1e-4), lambda: (got, az))
        to = k.call(obj.compute_location_from_distance_bearing, distance=ang * R if form != "one" else ang[0] * R, bearing=az if form != "one" else az[0], **ref)
        to = np.asarray(to, float).reshape(-1, 2)
        k.ensure("the-way-leads-there", to.shape == (n, 2) and np.all(np.linalg.norm(xyz(to[:, 0], to[:, 1]) - xyz(*np.array(pts).T), axis=1) < 1e-6), lambda: (to, pts))
        k.ensure("destinations-are-canonical", np.all((to[:, 0] >= -180) & (to[:, 0] < 180) & (np.abs(to[:, 1]) <= 90)), lambda: to)
        at = {} if view == "region by default" else {"location": here}
        for name, i in (("calculate_face_and_node_distances", 0), ("calculate_face_and_node_bearings", 1)):
            out = k.call(getattr(obj, name), **at)
            k.ensure("faces-and-nodes", len(out) == 2)
            for what, mine in zip(("face", "node"), out, strict=True):
                w = away(here, (np.asarray(getattr(obj, what + "_lon")), np.asarray(getattr(obj, what + "_lat"))))
                mine = np.asarray(mine)
                ok = mine.shape == w[i].shape and (np.allclose(mine, w[0] * R, rtol=1e-6, atol=1e-3 * R) if i == 0 else np.all((turn(mine, w[1]) < 1e-4) | (w[0] < 1e-3) | (w[0] > np.pi - 1e-3)))
                k.ensure("each-face-and-node-from-there", ok, lambda what=what, mine=mine, w=w: (what, mine, w[i]))
                if view != "surface":
                    kept = np.asarray(getattr(obj, f"{what}_{'distance' if i == 0 else 'bearing'}"))
                    k.ensure("the-region-knows-its-own", np.allclose(kept, mine, rtol=1e-9), lambda what=what: what)
