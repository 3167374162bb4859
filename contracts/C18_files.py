"""C18: what was saved for an interval reads back and is exported as it was, whatever was saved or exported since."""
import contextlib
import glob
import io
import os
import shutil
import tempfile

import numpy as np

from cratermaker import Counting, Crater, Surface
from cratermaker.components.crater import _convert_tuple_vars
from cratermaker.components.morphology import Morphology
from contracts._sim import simulation
from contracts._common import haversine, kernel
from pyvc.kit import Stub, scenario

B = "cratermaker.core.base:CratermakerBase."
CR = "cratermaker.components.crater:"
CO = "cratermaker.components.counting:Counting."
SU = "cratermaker.components.surface:Surface."
LS = "cratermaker.components.surface:LocalSurface."


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def scratch():
    return tempfile.mkdtemp(prefix="sim-", dir=os.environ.get("PYVC_SCRATCH"))


# ------------------------------------------------------------------ the flattening of a record
PAIRS = {"location": ("longitude", "latitude"), "measured_location": ("measured_longitude", "measured_latitude"),
         "production_ND": ("production_D", "production_N", "production_N_stdev"), "production_time": ("production_time", "production_time_stdev")}


@scenario("C18", "records_are_flattened_and_restored", functions=[CR + "_convert_tuple_vars"], search_s=4)
def flat(k):
    d = {"semimajor_axis": k.real("a", 1.0, 1e6), "time": k.real("t", 0.0, 4500.0)}
    for n, parts in PAIRS.items():
        if k.bool("has_" + n):
            d[n] = tuple(k.real(p, -1e6, 1e6) for p in parts)
    if k.bool("named"):
        d["name"] = "Tycho"
    if k.bool("seq"):
        d["production_sequence"] = k.int("sequence", 0, 1000)
    if k.bool("unknown"):
        d["measured_rim_height"] = None
    want = dict(d)
    out = k.call(_convert_tuple_vars, input_dict=dict(d), inverse=False)
    for n, parts in PAIRS.items():
        for i, p in enumerate(parts):
            k.ensure(f"{p}-written", (p in out and k.truth(out[p] == want[n][i])) if n in want else p not in out, lambda: out)
    k.ensure("others-written", k.truth(k.and_(out["semimajor_axis"] == want["semimajor_axis"], out["time"] == want["time"])))
    k.ensure("only-single-values", all(not isinstance(v, (tuple, list)) for v in out.values()), lambda: out)
    back = k.call(_convert_tuple_vars, input_dict=dict(out), inverse=True)
    for n, v in want.items():
        if v is None:
            k.ensure(f"{n}-stays-unknown", back.get(n) is None, lambda: back)
            continue
        w = back.get(n)
        k.ensure(f"{n}-restored", w is not None and (k.truth(k.and_(*[x == y for x, y in zip(w, v, strict=True)])) if isinstance(v, tuple) else k.truth(w == v)),
                 lambda: (w, v))
    k.ensure("nothing-made-up", all(n in want for n in PAIRS if back.get(n) is not None), lambda: back)


# ------------------------------------------------------------------ craters through files
BASE = ("id", "name", "diameter", "radius", "semimajor_axis", "semiminor_axis", "orientation", "transient_diameter", "projectile_diameter", "projectile_mass",
        "projectile_velocity", "projectile_angle", "projectile_density", "location", "morphology_type", "time", "measured_diameter", "measured_semimajor_axis",
        "measured_semiminor_axis", "measured_orientation", "measured_location", "measured_rim_height", "measured_floor_depth", "degradation_state", "production_time",
        "production_ND", "production_sequence")
MOON = ("rim_height", "rim_width", "floor_depth", "floor_diameter", "peak_height", "ejrim")


def near(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return np.shape(a) == np.shape(b) and bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=0))


def record(c):
    return {n: getattr(c, n) for n in (*BASE, *MOON) if hasattr(c, n)}


def differ(a, b):
    """Of two lists of records, by id."""
    out = []
    x, y = {int(r["id"]): r for r in a}, {int(r["id"]): r for r in b}
    if sorted(x) != sorted(y) or len(b) != len(y):
        return [("ids", sorted(x), sorted(y), len(b))]
    for i, r in x.items():
        d = {n: (r[n], y[i].get(n)) for n in r if not near(r[n], y[i].get(n))}
        if d:
            out.append((i, d))
    return out


def draw(rnd, maker):
    u = lambda a, b: float(rnd.uniform(a, b))
    kw = {"location": (u(-180, 180), u(-90, 90))}
    if rnd.random() < 0.5:
        kw["diameter"] = 10 ** u(1, 5)
    else:
        a = 10 ** u(1, 5)
        kw.update(semimajor_axis=a, semiminor_axis=a * u(0.3, 1))
    if rnd.random() < 0.4:
        kw["name"] = rnd.choice(["Tycho", "A b,c", 'q"x', "7", "nan"]).item()
    if rnd.random() < 0.5:
        kw["time"] = u(0, 4000)
    if rnd.random() < 0.3:
        kw["orientation"] = u(0, 359)
    r = rnd.random()
    if r < 0.3:
        kw["production_time"] = (u(0, 4000), u(0, 100))
    elif r < 0.5:
        kw["production_time"] = u(0, 4000)
    r = rnd.random()
    if r < 0.3:
        kw["production_ND"] = (1e4, u(1, 100), u(1, 10))
    elif r < 0.5:
        kw["production_ND"] = (1e4, u(1, 100))
    if rnd.random() < 0.3:
        kw["production_sequence"] = int(rnd.integers(0, 100))
    for n, a, b in (("measured_rim_height", 1, 100), ("measured_floor_depth", -100, 100), ("degradation_state", 1, 100), ("measured_orientation", 0, 180)):
        if rnd.random() < 0.3:
            kw[n] = u(a, b)
    if rnd.random() < 0.3:
        kw["measured_location"] = (u(-180, 180), u(-90, 90))
    r = rnd.random()
    if r < 0.3:
        kw["measured_diameter"] = 10 ** u(1, 5)
    elif r < 0.6:
        a = 10 ** u(1, 5)
        kw.update(measured_semimajor_axis=a, measured_semiminor_axis=a * u(0.3, 1))
    return maker(**kw)


class World:
    """One small surface with its crater tally, on a scratch directory."""

    def __init__(self, gridlevel=2, moon=False):
        self.dir = scratch()
        with quiet():
            self.surface = Surface.maker("icosphere", gridlevel=gridlevel, simdir=self.dir, ask_overwrite=False)
            self.counting = Counting.maker(surface=self.surface, simdir=self.dir, ask_overwrite=False)
            self.counting.reset()
            self.Crater = Crater
            if moon:
                m = Morphology.maker("basicmoon", surface=self.surface, counting=self.counting, simdir=self.dir, ask_overwrite=False)
                self.Crater = m.Crater

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


@scenario("C18", "craters_survive_files", functions=[CO + "to_xarray", CO + "save", CO + "to_csv_file", CO + "_validate_export_args", CR + "Crater.from_xarray", CR + "Crater.from_csv_file",
          CR + "Crater.from_file", CR + "_convert_tuple_vars", CR + "Crater.as_dict", CR + "CraterVariable.as_dict"],
          bounded="generated lists of up to four craters with any subset of their optional properties", search_only="the files are written and read by netCDF and csv", search_s=60, search_n=400)
def craters_files(k):
    moon = k.choice("class", ["plain", "plain", "moon"]) == "moon"
    with World(moon=moon) as w, quiet():
        rnd = np.random.default_rng(k.int("data", 0, 10 ** 6))
        cs = [draw(rnd, w.Crater.maker) for _ in range(k.choice("n", [1, 2, 4]))]
        if len({c.id for c in cs}) < len(cs):
            return
        want = [record(c) for c in cs]
        cnt = w.counting
        cnt._emplaced, cnt._observed = list(cs), {c.id: c for c in cs}
        i = k.choice("interval", [0, 7, 999999])
        cnt.save(interval=i)
        obs, emp = cnt.read_saved_output(interval=i)
        for label, ds in (("observed", obs), ("emplaced", emp)):
            bad = differ(want, [record(c) for c in w.Crater.from_xarray(ds, interval=i)])
            k.ensure(f"{label}-craters-read-back", not bad, lambda: bad)
            f = os.path.join(w.dir, "counting", f"{label}_craters{i:06d}.nc")
            bad = differ(want, [record(c) for c in w.Crater.from_file(f)])
            k.ensure(f"{label}-file-reads-back", not bad, lambda: bad)
        k.ensure("lists-unchanged", not differ(want, [record(c) for c in cnt.emplaced]) and not differ(want, [record(c) for c in cnt.observed.values()]))
        for label, source in (("observed", None), ("emplaced", list(cs))):
            cnt.to_csv_file(label, craters=source, interval=i)
            f = os.path.join(w.dir, "export", f"{label}_craters{i:06d}.csv")
            bad = differ(want, [record(c) for c in w.Crater.from_file(f)])
            k.ensure(f"{label}-table-reads-back", not bad, lambda: bad)
        # the crater count format holds the measured diameters (in km) and locations
        cnt.to_scc_file("observed", interval=i)
        got = sorted(scc(os.path.join(w.dir, "export", f"observed{i:06d}.scc")))
        exp = sorted((r["measured_diameter"] * 1e-3, *r["measured_location"]) for r in want)
        k.ensure("crater-count-file", len(got) == len(exp) and np.allclose(got, exp, rtol=1e-9), lambda: (got, exp))


def scc(f):
    out, on = [], False
    with open(f) as h:
        for line in h:
            if line.startswith("crater ="):
                on = True
            elif line.startswith("}"):
                on = False
            elif on:
                v = line.split("\t")
                if float(v[1]) != 1.0:
                    raise AssertionError(f"fraction {v[1]} of a crater on a global surface")
                out.append((float(v[0]), float(v[2]), float(v[3])))
    return out


# ------------------------------------------------------------------ intervals
@scenario("C18", "each_interval_is_kept", functions=[B + "get_saved_interval_numbers", B + "read_saved_output", B + "_output_file_processor", B + "output_filename", B + "get_time_variables",
          SU + "save", SU + "_save_data", SU + "read_saved_output", SU + "export", LS + "save", LS + "export", LS + "to_vtk_file", LS + "to_vtk_mesh", CO + "save", CO + "export"],
          bounded="generated histories of up to six saves, reads and exports of a surface of 162 faces", search_only="the files are written and read by netCDF and VTK", search_s=120, search_n=400)
def intervals(k):
    import pyvista
    with World() as w, quiet():
        s, cnt = w.surface, w.counting
        rnd = np.random.default_rng(k.int("data", 0, 10 ** 6))
        pool = sorted({0, *(int(x) for x in rnd.choice([1, 2, 3, 9, 10, 11, 99, 100, 12345, 999999], size=int(rnd.integers(0, 4)), replace=False))})
        late = rnd.random() < 0.4      # the first craters come after the first save of the surface
        book = {}

        def state():
            return {"face": np.array(s.face_elevation), "node": np.array(s.node_elevation), "tags": np.sort(np.array(s.uxds["crater_id"].data), axis=-1)}

        def put(i):
            s.uxds["face_elevation"].data[:] = rnd.normal(size=s.n_face) * 100
            s.uxds["node_elevation"].data[:] = rnd.normal(size=s.n_node) * 100
            s.uxds["crater_id"].data[:] = rnd.integers(0, 3, size=s.uxds["crater_id"].shape)
            cs = [draw(rnd, Crater.maker) for _ in range(int(rnd.choice([0, 1, 2])))]
            ob = [draw(rnd, Crater.maker) for _ in range(int(rnd.choice([0, 1, 2])))]
            cnt._emplaced, cnt._observed = cs, {c.id: c for c in ob}
            t = {"time": float(rnd.uniform(0, 4000)), "elapsed_time": float(rnd.uniform(0, 100)), "elapsed_n1": float(rnd.uniform(0, 100))}
            s.save(interval=i, time_variables=t)
            if late and i == 0:
                cs, ob = [], []
            else:
                cnt.save(interval=i, time_variables=t)
            book[i] = (state(), [record(c) for c in cs], [record(c) for c in ob], t)

        def check(what):
            numbers = s.get_saved_interval_numbers()
            k.ensure(f"intervals-listed{what}", list(numbers[0]) == sorted(book), lambda: (numbers, sorted(book)))
            for i, (st, emp, ob, t) in book.items():
                ds = s.read_saved_output(interval=i)
                k.ensure(f"interval-number{what}", np.asarray(ds.interval.data).ravel().tolist() == [i], lambda: (i, ds.interval.data))
                for n, v in (("face", "face_elevation"), ("node", "node_elevation"), ("tags", "crater_id")):
                    x = np.asarray(ds[v].data).reshape(st[n].shape)
                    x = np.sort(x, axis=-1) if n == "tags" else x
                    k.ensure(f"{n}-data{what}", np.array_equal(x, st[n]), lambda: (i, n))
                for n, v in t.items():
                    k.ensure(f"{n}{what}", float(np.ravel(ds[n].data)[0]) == v, lambda: (i, n, ds[n].data, v))
                if "" == what or i == max(book):
                    tv = s.get_time_variables(interval=i)[0] if isinstance(s.get_time_variables(interval=i), tuple) else s.get_time_variables(interval=i)
                    k.ensure(f"time-variables{what}", all(float(np.ravel(tv[n].data)[0]) == v for n, v in t.items()), lambda: (tv, t))
                o, e = cnt.read_saved_output(interval=i)
                for label, d, want in (("observed", o, ob), ("emplaced", e, emp)):
                    got = Crater.from_xarray(d, interval=i) if d else []
                    bad = differ(want, [record(c) for c in got])
                    k.ensure(f"{label}{what}", not bad, lambda: (i, bad))
            for j in range(1, len(book) + 1):        # counted from the last one
                i = sorted(book)[-j]
                last = s.read_saved_output(interval=-j)
                k.ensure(f"last-interval{what}", np.array_equal(np.ravel(last["face_elevation"].data), book[i][0]["face"]), lambda: (j, sorted(book)))

        for i in pool:
            put(i)
        ops = k.choice("ops", [("again",), ("vtk",), ("vtk-last",), ("csv",), ("vtk", "again"), ("all-vtk",), ("region",)])
        check("")
        now = state(), [record(c) for c in cnt.emplaced], [record(c) for c in cnt.observed.values()]
        for op in ops:
            i = pool[int(rnd.integers(0, len(pool)))]
            if op == "again":
                put(i)
                now = state(), [record(c) for c in cnt.emplaced], [record(c) for c in cnt.observed.values()]
            elif op in ("vtk", "vtk-last", "all-vtk"):
                arg = {"vtk": i, "vtk-last": -1, "all-vtk": None}[op]
                s.export(driver="VTK", interval=arg)
                cnt.export(driver="CSV", interval=arg)
                done = {"vtk": [i], "vtk-last": [max(book)], "all-vtk": sorted(book)}[op]
                files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(w.dir, "export", "surface*.vtp")))
                k.ensure("only-those-exported", files == [f"surface{j:06d}.vtp" for j in done], lambda: (files, done))
                for j in done:
                    m = pyvista.read(os.path.join(w.dir, "export", f"surface{j:06d}.vtp"))
                    k.ensure("exported-elevation", np.allclose(np.asarray(m.cell_data["face_elevation"]), book[j][0]["face"], rtol=1e-6), lambda: (op, j))
                    r = np.linalg.norm(np.asarray(m.points, float), axis=1)
                    h = np.sort(r - s.radius)
                    e = np.sort(book[j][0]["node"])
                    k.ensure("exported-shape", len(h) == len(e) and np.abs(h - e).max() < 1.0, lambda: (op, j, h[:3], e[:3]))
            elif op == "csv":
                kind = str(rnd.choice(["both", "observed", "emplaced"]))
                cnt.export(driver="CSV", interval=i, **({} if kind == "both" else {"crater_type": kind}))
                for label, want in (("observed", book[i][2]), ("emplaced", book[i][1])):
                    f = os.path.join(w.dir, "export", f"{label}_craters{i:06d}.csv")
                    if kind not in ("both", label):
                        k.ensure("only-the-kind-asked-for", not os.path.exists(f), lambda: (kind, f))
                        continue
                    if not want:
                        continue
                    bad = differ(want, [record(c) for c in Crater.from_file(f)])
                    k.ensure("exported-craters", not bad, lambda: (i, bad))
            elif op == "region":
                reg = s.extract_region((20.0, 30.0), 0.5 * s.radius)
                ds = reg.read_saved_output(interval=i)
                k.ensure("region-reads-its-part", np.array_equal(np.ravel(ds["face_elevation"].data), book[i][0]["face"][np.asarray(reg.face_indices)]), lambda: i)
            check("-afterwards")
            k.ensure("state-in-memory-unchanged", all(np.array_equal(a, b) for a, b in zip(now[0].values(), state().values(), strict=True)) and
                     not differ(now[1], [record(c) for c in cnt.emplaced]) and not differ(now[2], [record(c) for c in cnt.observed.values()]), lambda: op)
        absent = next(j for j in range(5, 50) if j not in book)
        ds = s.read_saved_output(interval=absent)
        k.ensure("nothing-for-other-intervals", "face_elevation" not in ds, lambda: absent)


# ------------------------------------------------------------------ which interval is exported
@scenario("C18", "a_simulation_exports_the_interval_asked_for", functions=["cratermaker.core.simulation:Simulation.export"], search_s=3,
          assumes=["saving, and the exports of the surface and of the craters, are recorders (their own contracts: each_interval_is_kept, exports_do_not_overwrite_unasked)"])
def sim_export(k):
    s = simulation()
    now = k.int("now", 0, 999999)
    object.__setattr__(s, "_interval", now)
    log = []
    object.__setattr__(s, "save", lambda **kw: log.append(("save", kw)))
    for c, n in ((s.surface, "surface"), (s.counting, "counting")):
        object.__setattr__(c, "export", lambda n=n, **kw: log.append((n, kw)))
    ask = k.choice("ask", [True, False])
    object.__setattr__(s, "_ask_overwrite", ask)
    how = k.choice("how", ["last", "back", "given", "all"])
    kw, want = {}, now
    if how == "back":
        b = k.int("b", 1, 1000)
        k.assume(b <= now + 1)
        kw, want = {"interval": -b}, now + 1 - b
    elif how == "given":
        want = k.int("i", 0, 999999)
        kw = {"interval": want}
    elif how == "all":
        kw, want = {"interval": None}, None
    driver = k.choice("driver", ["OpenCraterTool", "opencratertool", "VTK", "GPKG"])
    if driver != "OpenCraterTool":
        kw["driver"] = driver
    over = k.choice("ask_overwrite", [None, True, False])
    if over is not None:
        kw["ask_overwrite"] = over
    k.call(s.export, **kw)
    k.ensure("current-state-saved-first", [n for n, _ in log] == ["save", "surface", "counting"] and log[0][1].get("skip_actions") is True, lambda: log)
    names = {"surface": "GeoTIFF", "counting": "SCC"} if driver.lower() == "opencratertool" else {"surface": driver, "counting": driver}
    for n, a in log[1:]:
        i = a["interval"]
        k.ensure("the-interval-asked-for", (i is None) if want is None else (i is not None and i == want), lambda: (log, want))
        k.ensure("the-format-asked-for", a["driver"] == names[n], lambda: log)
        k.ensure("consent-as-asked", a.get("ask_overwrite") == over, lambda: log)
    k.ensure("consent-setting-kept", k.get(s, "ask_overwrite") == ask, lambda: s.ask_overwrite)


WORLD = []


def ellipse_miss(lon0, lat0, a, b, phi, lon, lat, R):
    """How far the points lie from the ellipse of semiaxes a (towards azimuth phi) and b about (lon0, lat0), relative to a: bearings and distances on the sphere."""
    p, q = np.deg2rad(lat0), np.deg2rad(lat)
    dl = np.deg2rad(np.asarray(lon) - lon0)
    x = np.cos(q) * np.sin(dl)
    y = np.cos(p) * np.sin(q) - np.sin(p) * np.cos(q) * np.cos(dl)
    d = R * np.arctan2(np.hypot(x, y), np.sin(p) * np.sin(q) + np.cos(p) * np.cos(q) * np.cos(dl))
    t = np.arctan2(x, y) - np.deg2rad(phi)
    return np.abs(d - a * b / np.sqrt((b * np.cos(t)) ** 2 + (a * np.sin(t)) ** 2)) / a


@scenario("C18", "craters_are_drawn_where_and_as_large_as_they_are", functions=[CR + "Crater.to_geoseries", CO + "to_vtk_mesh", CO + "to_vtk_file"],
          bounded="generated elliptical craters with another measured shape, as outlines and as VTK files", search_only="the outlines are made by pyproj and shapely, the files by VTK", search_s=12, search_n=600)
def outlines(k):
    import pyvista
    if not WORLD:
        WORLD.append(World(moon=True))
    w = WORLD[0]
    s, cnt = w.surface, w.counting
    R = s.radius
    kw = {}
    for m in ("", "measured_"):
        a = k.real(m + "a", 0.01, 0.3) * R
        kw[m + "semimajor_axis"], kw[m + "semiminor_axis"] = a, a * k.real(m + "flat", 0.2, 1.0)
        kw[m + "location"] = (k.real(m + "lon", -180, 180, hi_open=True), k.real(m + "lat", -88, 88))
    kw.update(projectile_direction=k.real("az", 0, 360, hi_open=True), measured_orientation=k.real("maz", 0, 360, hi_open=True))
    with quiet():
        c = w.Crater.maker(**kw)
    measured = k.choice("properties", [None, True, False])
    opt = {} if measured is None else {"use_measured_properties": measured}
    pre = "" if measured is False else "measured_"
    phi = c.orientation if measured is False else c.measured_orientation
    shape = (*getattr(c, pre + "location"), getattr(c, pre + "semimajor_axis"), getattr(c, pre + "semiminor_axis"), phi)
    with quiet():
        if k.bool("file"):
            shutil.rmtree(os.path.join(w.dir, "export"), ignore_errors=True)
            style = k.choice("style", ["rings", "points", None])
            cnt.to_vtk_file(craters=[c], interval=3, crater_type="emplaced", **opt, **({"crater_style": style} if style else {}))
            f = glob.glob(os.path.join(w.dir, "export", "*.vtp"))
            k.ensure("one-file", len(f) == 1, lambda: f)
            p = np.asarray(pyvista.read(f[0]).points, float)
            r = np.linalg.norm(p, axis=1)
            lon, lat = np.rad2deg(np.arctan2(p[:, 1], p[:, 0])), np.rad2deg(np.arcsin(p[:, 2] / r))
            k.ensure("on-the-surface", np.all(np.abs(r / R - 1) < (0.2 if style == "points" else 1e-6)), lambda: r / R - 1)
            if style == "points":
                k.ensure("at-its-place", len(p) == 1 and abs((lon[0] - c.location[0] + 180) % 360 - 180) < 1e-3 and abs(lat[0] - c.location[1]) < 1e-3, lambda: (lon, lat, c.location))
                return
        else:
            split = k.choice("split", [None, True, False])
            if abs(shape[1]) + np.rad2deg(shape[2] / R) > 89:
                split = False   # around a pole no outline in longitude and latitude can be cut at a meridian
            g = c.to_geoseries(surface=s, **opt, **({} if split is None else {"split_antimeridian": split})).item()
            parts = list(getattr(g, "geoms", [g]))
            v = np.concatenate([np.asarray(x.exterior.coords)[:, :2] for x in parts])
            v = v[np.abs(np.abs(v[:, 0]) - 180.0) > 1e-6] if split is not False else v
            lon, lat = v[:, 0], v[:, 1]
    k.ensure("a-whole-outline", len(lon) >= 60, lambda: len(lon))
    miss = ellipse_miss(*shape[:2], *shape[2:], lon, lat, R)
    k.ensure("outline-is-the-craters", miss.max() < 1e-3, lambda: (miss.max(), shape))


class Drawn(Stub):
    """Stands in for the axes and the outlines: what is drawn on them."""

    def __init__(self, log):
        self.log = log

    def outlines(self, craters=None, use_measured_properties=None, **kw):
        self.pending = ([record(c) for c in (craters.values() if isinstance(craters, dict) else craters)], use_measured_properties)
        return self

    def to_crs(self, *a, **kw):
        return self

    def plot(self, ax=None, edgecolor=None, **kw):
        self.log.append((edgecolor, *self.pending))
        return self


@scenario("C18", "plots_show_the_craters_of_their_interval", functions=[CO + "plot", CO + "read_saved_output", B + "read_saved_output"],
          bounded="generated histories of up to four saved intervals, the one asked for plotted with any choice of colours", search_only="the intervals are read by netCDF; the axes and outlines are recorders", search_s=20, search_n=100)
def plots(k):
    rnd = np.random.default_rng(k.int("data", 0, 10 ** 6))
    with World() as w, quiet():
        s, cnt = w.surface, w.counting
        book = {}
        pool = sorted(rnd.choice(20, size=int(rnd.integers(1, 5)), replace=False).tolist())
        for i in pool:
            cs = [draw(rnd, Crater.maker) for _ in range(int(rnd.integers(0, 3)))]
            ob = [draw(rnd, Crater.maker) for _ in range(int(rnd.integers(0, 3)))]
            cnt._emplaced, cnt._observed = cs, {c.id: c for c in ob}
            s.save(interval=i)
            cnt.save(interval=i)
            book[i] = ([record(c) for c in cs], [record(c) for c in ob])
        log, arg = [], []
        ax = Drawn(log)
        object.__setattr__(s, "plot", lambda **kw: arg.append(kw) or ax)
        object.__setattr__(cnt, "to_geoseries", ax.outlines)
        i = k.choice("interval", [None, -1, "any", "any"])
        i = pool[int(rnd.integers(0, len(pool)))] if i == "any" else i
        emp, ob = book[pool[-1] if i in (None, -1) else i]
        kw = {n: c for n, c in (("observed_color", "blue"), ("observed_original_color", "green"), ("emplaced_color", "red")) if k.bool(n)}
        cnt.plot(**({} if i is None else {"interval": i}), save=False, **kw)
        want = {"red": (emp, False) if "emplaced_color" in kw else None, "green": (ob, False) if "observed_original_color" in kw else None, kw.get("observed_color", "white"): (ob, True)}
        want = {c: v for c, v in want.items() if v and v[0]}
        got = {c: (cs, m) for c, cs, m in log}
        k.ensure("each-kind-once", len(got) == len(log) and set(got) == set(want), lambda: (i, pool, sorted(got), sorted(want)))
        for c in want:
            if c in got:
                bad = differ(want[c][0], got[c][0])
                k.ensure("the-craters-of-the-interval", not bad, lambda: (i, pool, c, bad))
                k.ensure("formation-or-measured-as-meant", got[c][1] is want[c][1], lambda: (c, got[c][1]))
        k.ensure("the-surface-of-the-interval", arg[0].get("interval") == (None if i is None else pool[-1] if i == -1 else i), lambda: (arg, i))


def table(lines, name):
    """The columns and rows of a block of an SCC file."""
    i = next((j for j, l in enumerate(lines) if l.replace(" ", "").startswith(name + "={")), None)
    if i is None:
        return None
    cols = [c.strip() for c in lines[i].split("{", 1)[1].split(",")]
    end = next((j for j, l in enumerate(lines[i + 1:], i + 1) if l.strip() == "}"), None)
    rows = lines[i + 1:end]
    return None if end is None or any(len(r.split("\t")) != len(cols) for r in rows) else [dict(zip(cols, map(str.strip, r.split("\t")), strict=True)) for r in rows]


@scenario("C18", "exports_hold_the_craters_asked_for", functions=[CO + "to_scc_file", CO + "to_vtk_mesh", CO + "_validate_export_args", B + "read_saved_output"],
          bounded="generated histories of up to three saved intervals and the present, read back from SCC files and VTK meshes", search_only="the files are read by their formats", search_s=15, search_n=100)
def exported(k):
    rnd = np.random.default_rng(k.int("data", 0, 10 ** 6))
    with World(moon=True) as w, quiet():
        s, cnt = w.surface, w.counting
        book = {}
        pool = sorted(rnd.choice(20, size=int(rnd.integers(1, 4)), replace=False).tolist())
        for i in pool:
            cs = [draw(rnd, w.Crater.maker) for _ in range(int(rnd.integers(0, 3)))]
            ob = [draw(rnd, w.Crater.maker) for _ in range(int(rnd.integers(0, 3)))]
            cnt._emplaced, cnt._observed = cs, {c.id: c for c in ob}
            s.save(interval=i)
            cnt.save(interval=i)
            book[i] = {"emplaced": cs, "observed": ob}
        now = {"emplaced": cs, "observed": ob}
        kind = k.choice("kind", ["observed", "emplaced"])
        if k.choice("as", ["scc", "vtk"]) == "scc":
            i = k.choice("interval", [None, 0, 7])
            want = now[kind]
            kw = {}
            how = k.choice("craters", ["its own", "a list", "by interval"])
            if how == "a list":
                want = kw["craters"] = [draw(rnd, w.Crater.maker) for _ in range(3)]
            elif how == "by interval" and i is not None:
                want = [draw(rnd, w.Crater.maker) for _ in range(2)]
                kw["craters"] = {i: cnt.to_xarray(want), 12: cnt.to_xarray([draw(rnd, w.Crater.maker)])}
            k.call(cnt.to_scc_file, crater_type=kind, **({} if i is None else {"interval": i}), **kw)
            f = glob.glob(os.path.join(w.dir, "export", "*.scc"))
            k.ensure("one-file-of-its-kind-and-interval", len(f) == 1 and kind in os.path.basename(f[0]) and (i is None or f"{i:06d}" in f[0]), lambda: (kind, i, f))
            lines = open(f[0]).read().split("\n")
            v = {l.split("=")[0].strip(): float(l.split("=")[1].split("<")[0]) for l in lines if "=" in l and "<" in l and not l.startswith("#")}
            k.ensure("the-size-of-the-body", all(abs(v[n + "-axis radius"] - s.radius / 1e3) < 1e-3 for n in "abc"), lambda: v)
            k.ensure("the-area-counted", abs(v["Total_area"] / (s.area / 1e6) - 1) < 1e-6, lambda: v)
            edge = table(lines, "unit_boundary")
            k.ensure("the-whole-surface-is-the-area", edge is not None and {(float(p["lon"]), float(p["lat"])) for p in edge} >= {(x, y) for x in (-180.0, 180.0) for y in (-90.0, 90.0)}
                     and (edge[0]["lon"], edge[0]["lat"]) == (edge[-1]["lon"], edge[-1]["lat"]), lambda: edge)
            rows = table(lines, "crater")
            k.ensure("each-crater-once", rows is not None and len(rows) == len(want), lambda: (rows, len(want)))
            miss = [(c.measured_diameter / 1e3, *c.measured_location) for c in want]
            for r in rows:
                got = float(r["diam"]), float(r["lon"]), float(r["lat"])
                hit = next((m for m in miss if near(m, got)), None)
                k.ensure("the-crater-as-measured", hit is not None, lambda got=got: (got, miss))
                miss.remove(hit)
                k.ensure("wholly-inside", float(r["fraction"]) == 1.0, lambda r=r: r)
            return
        i = k.choice("saved", [None, "any", "any"])
        i = pool[int(rnd.integers(0, len(pool)))] if i == "any" else i
        want = (now if i is None else book[i])[kind]
        style = k.choice("style", ["points", "rings"])
        m = k.call(cnt.to_vtk_mesh, crater_type=kind, interval=i, crater_style=style)
        if m is None:
            k.ensure("nothing-only-where-there-are-none", want == [], lambda: (i, kind, len(want)))
            return
        p = np.array([m.GetPoint(j) for j in range(m.GetNumberOfPoints())], float).reshape(-1, 3)
        if style == "points":
            got = [p[j] for j in range(len(p))]
            where = [c.location for c in want]
        else:
            import vtk
            ids, got = vtk.vtkIdList(), []
            seen = []
            m.GetLines().InitTraversal()
            while m.GetLines().GetNextCell(ids):
                j = [ids.GetId(n) for n in range(ids.GetNumberOfIds())]
                k.ensure("lines-join-the-points-of-one-outline-in-order", j == list(range(j[0], j[0] + len(j))) and j[-1] < len(p), lambda j=j: (j, len(p)))
                seen += j
                k.ensure("closed-outlines", np.allclose(p[j[0]], p[j[-1]], atol=1e-3 * s.radius), lambda j=j: (p[j[0]], p[j[-1]]))
                got.append(p[j[:-1]].mean(axis=0))
            k.ensure("every-point-belongs-to-one-outline", sorted(seen) == list(range(len(p))), lambda: (len(seen), len(p)))
            where = [c.measured_location for c in want]
        k.ensure("each-crater-drawn-once", len(got) == len(want), lambda: (i, kind, len(got), len(want)))
        left = [np.array([np.cos(np.radians(la)) * np.cos(np.radians(lo)), np.cos(np.radians(la)) * np.sin(np.radians(lo)), np.sin(np.radians(la))]) for lo, la in where]
        for g in got:
            d = [float(np.linalg.norm(g / np.linalg.norm(g) - u)) for u in left]
            k.ensure("where-it-is", min(d) < 5e-3, lambda d=d: (d, where))
            left.pop(int(np.argmin(d)))


def lens(a, b, d):
    """The area two circles of radii a and b share whose centres are d apart."""
    if d >= a + b:
        return 0.0
    if d <= abs(a - b):
        return np.pi * min(a, b) ** 2
    p, q = (d * d + a * a - b * b) / (2 * d), (d * d + b * b - a * a) / (2 * d)
    return a * a * np.arccos(p / a) + b * b * np.arccos(q / b) - d * np.sqrt(a * a - p * p)


@scenario("C18", "counts_of_a_region_give_the_part_inside_it", functions=[CO + "to_scc_file"], bounded="generated circular craters in, across and outside a circular region of a small surface, in a plane, to 2 % of the crater",
          search_only="the outlines are intersected by shapely", assumes=["the Rust distance kernel is a haversine stand-in"], search_s=8, search_n=60)
def counted_region(k):
    with World() as w, quiet(), kernel("compute_distances", haversine), kernel("compute_edge_distances", lambda **kw: np.ones(len(kw["edge_connectivity"]))):
        s, cnt = w.surface, w.counting
        R = s.radius
        lon, lat, rad = k.real("lon", -180, 180, hi_open=True), k.real("lat", -70, 70), k.real("region", 0.01, 0.03) * R
        region = s.extract_region((lon, lat), rad, at_least_one_face=True)
        for n, v in (("local_location", (lon, lat)), ("local_radius", rad), ("local", region)):
            object.__setattr__(s, n, v)
        cs, want = [], []
        for j in range(3):
            r, d, az = k.real(f"size{j}", 0.05, 0.8) * rad, k.real(f"away{j}", 0.0, 1.6) * rad, k.real(f"azimuth{j}", 0, 2 * np.pi)
            p, q = np.radians(lat), d / R
            la = np.arcsin(np.sin(p) * np.cos(q) + np.cos(p) * np.sin(q) * np.cos(az))
            lo = np.radians(lon) + np.arctan2(np.sin(az) * np.sin(q) * np.cos(p), np.cos(q) - np.sin(p) * np.sin(la))
            here = (float(np.degrees(lo)), float(np.degrees(la)))
            cs.append(w.Crater.maker(radius=r, location=here) if k.bool(f"as formed{j}") else w.Crater.maker(radius=r / 2, location=(lon, lat), measured_radius=r, measured_location=here))
            want.append(lens(rad, r, d) / (np.pi * r * r))
        k.call(cnt.to_scc_file, crater_type="observed", interval=0, craters=cs)
        lines = open(glob.glob(os.path.join(w.dir, "export", "*.scc"))[0]).read().split("\n")
        rows = table(lines, "crater")
        k.ensure("each-crater-once", rows is not None and len(rows) == len(cs), lambda: rows)
        for c, f, r in zip(cs, want, rows, strict=True):
            k.ensure("the-part-of-the-crater-inside", abs(float(r["fraction"]) - f) < 0.02, lambda c=c, f=f, r=r: (r, f, c.radius, rad))
        area = next(float(l.split("=")[1].split("<")[0]) for l in lines if l.startswith("Total_area"))
        k.ensure("the-area-of-the-region", abs(area * 1e6 / float(region.area) - 1) < 1e-6, lambda: (area, region.area))
        edge = table(lines, "unit_boundary")
        miss = ellipse_miss(lon, lat, rad, rad, 0.0, np.array([float(p["lon"]) for p in edge]), np.array([float(p["lat"]) for p in edge]), R)
        k.ensure("the-boundary-is-that-of-the-region", len(edge) >= 60 and miss.max() < 1e-2, lambda: miss.max())
        back = k.call(Crater.from_file, glob.glob(os.path.join(w.dir, "export", "*.scc"))[0])
        k.ensure("reads-back", len(back) == len(cs) and all(near((c.diameter, *c.location), (b.measured_diameter, *b.measured_location)) for c, b in zip(sorted(back, key=lambda c: c.diameter), sorted(cs, key=lambda c: c.measured_diameter), strict=True)), lambda: [(record(a), record(b)) for a, b in zip(back, cs, strict=False)])


def sky(lon, lat):
    """Unit vectors of locations in degrees."""
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def spread(s):
    """How far (radians) the corners of each face lie from its centre."""
    c, n = sky(s.face_lon, s.face_lat), sky(s.node_lon, s.node_lat)
    return np.array([max(np.arccos(np.clip(c[f] @ n[v], -1, 1)) for v in s.face_node_connectivity[f][:s.n_nodes_per_face[f]]) for f in range(s.n_face)])


@scenario("C18", "maps_show_the_faces_of_their_interval", functions=[LS + "to_raster", LS + "to_geotiff_file", LS + "to_vector_file", LS + "get_raster_dims", SU + "to_raster", SU + "to_geotiff_file",
          SU + "to_vector_file", LS + "export", SU + "export"],
          bounded="generated elevations of up to three saved intervals of a surface of 162 faces or a region of it, exported as GeoTIFF or GeoPackage and read back",
          search_only="the files are written and read by rasterio and geopandas", search_s=25, search_n=100)
def maps(k):
    import geopandas
    import rasterio
    rnd = np.random.default_rng(k.int("data", 0, 10 ** 6))
    with World() as w, quiet(), kernel("compute_distances", haversine), kernel("compute_edge_distances", lambda **kw: np.ones(len(kw["edge_connectivity"]))):
        s = w.surface
        book, pool = {}, [0, *sorted(rnd.choice(range(1, 20), size=int(rnd.integers(0, 3)), replace=False).tolist())]
        for i in pool:
            s.uxds["face_elevation"].data[:] = np.arange(s.n_face) * 10.0 + 10000.0 * i
            s.save(interval=i)
        whole = k.bool("whole")
        r = s if whole else s.extract_region((k.real("lon", -180.0, 180.0, hints=(180.0, 0.0)), k.real("lat", -90.0, 90.0, hints=(90.0, 0.0))), k.real("radius", 0.3, 1.0) * s.radius)
        ask = k.choice("interval", [None, -1, "any"])
        i = pool[int(rnd.integers(0, len(pool)))] if ask == "any" else ask
        want = pool if i is None else [pool[-1] if i == -1 else i]
        how = k.choice("how", ["GeoTIFF", "GPKG", "to_geotiff_file", "to_raster"])
        c, reach = sky(s.face_lon, s.face_lat), spread(s)
        faces = np.arange(s.n_face) if whole else np.arange(s.n_face)[r.face_indices]
        if how == "to_raster":
            raster, extent, transform, crs = r.to_raster(**({} if k.bool("default") else {"variable_name": "face_elevation"} if whole else {"uxda": "face_elevation"}))
            check_raster(k, s, faces, c, reach, pool[-1], raster, transform, crs, None if whole else r)
            return
        if how == "to_geotiff_file":
            r.to_geotiff_file(interval=i)
        else:
            r.export(driver=how, interval=i)
        out = glob.glob(os.path.join(w.dir, "export", "*"))
        prefix, ext = "surface" if whole else "local_surface", "gpkg" if how == "GPKG" else "tif"
        k.ensure("one-file-for-each-interval-asked-for", {os.path.basename(f) for f in out} >= {f"{prefix}{j:06d}.{ext}" for j in want} and len([f for f in out if f.endswith(ext)]) == len(want), lambda: (out, want, pool))
        for j in want:
            f = os.path.join(w.dir, "export", f"{prefix}{j:06d}.{ext}")
            if ext == "tif":
                with rasterio.open(f) as d:
                    check_raster(k, s, faces, c, reach, j, d.read(1), d.transform, d.crs, None if whole else r)
            else:
                g = geopandas.read_file(f)
                ll = g.geometry.centroid.to_crs(s.crs)
                got = np.round((g["face_elevation"].to_numpy() - 10000.0 * j) / 10.0).astype(int)
                k.ensure("elevations-of-the-interval", np.all((got >= 0) & (got < s.n_face)) and np.allclose(g["face_elevation"], got * 10.0 + 10000.0 * j), lambda: (j, pool, g["face_elevation"][:5]))
                k.ensure("each-face-at-most-once", len(set(got)) == len(got) and set(got) <= set(faces.tolist()), lambda: (i, sorted(got)))
                k.ensure("hardly-any-face-is-missing", len(got) == len(faces) if not whole else len(got) > 0.8 * len(faces), lambda: (len(got), len(faces)))
                d = np.arccos(np.clip(np.einsum("ij,ij->i", sky(ll.x.to_numpy(), ll.y.to_numpy()), c[got]), -1, 1))
                k.ensure("faces-lie-where-they-are", np.all(d <= reach[got]), lambda: (np.max(d / reach[got]), got[np.argmax(d / reach[got])]))


def check_raster(k, s, faces, c, reach, j, raster, transform, crs, region):
    from pyproj import Transformer
    rows, cols = np.nonzero(np.isfinite(raster))
    v = raster[rows, cols]
    got = np.round((v - 10000.0 * j) / 10.0).astype(int)
    k.ensure("elevations-of-the-interval", np.all((got >= 0) & (got < s.n_face)) and np.allclose(v, got * 10.0 + 10000.0 * j), lambda: (j, v[:5]))
    k.ensure("of-its-faces", set(got.tolist()) <= set(faces.tolist()), lambda: sorted(set(got) - set(faces.tolist())))
    back = Transformer.from_crs(crs.to_wkt(), s.crs, always_xy=True)

    def at(a, b):
        x, y = transform * (cols + a, rows + b)
        lon, lat = back.transform(x, y)
        return sky(np.asarray(lon), np.asarray(lat))
    mid = at(0.5, 0.5)
    half = np.max([np.arccos(np.clip(np.einsum("ij,ij->i", mid, at(a, b)), -1, 1)) for a in (0, 1) for b in (0, 1)], 0)
    ok = np.isfinite(mid).all(1) & np.isfinite(half)
    d = np.arccos(np.clip(np.einsum("ij,ij->i", mid, c[got]), -1, 1))
    k.ensure("each-pixel-shows-a-face-that-reaches-it", np.all((d <= 1.05 * (reach[got] + half))[ok]), lambda: (np.max((d / (reach[got] + half))[ok])))
    if region is None:
        k.ensure("hardly-any-pixel-is-empty", len(v) > 0.8 * raster.size, lambda: len(v) / raster.size)
    else:
        rr, cc = np.indices(raster.shape)
        x, y = transform * (cc + 0.5, rr + 0.5)
        k.ensure("no-pixel-of-the-region-is-empty", np.all(np.isfinite(raster[np.hypot(x, y) < 0.95 * region.region_radius])), lambda: raster)
