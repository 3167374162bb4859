"""C17: a simulation resumed from its directory is the one that was saved."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np
import tqdm
import xarray
import yaml
import z3

from cratermaker import Counting, Simulation, Surface
from cratermaker.core import simulation as module
from contracts._common import NORM_CONTRACT, ROOT, ROOT_MODELS
from contracts._sim import bar_model
from contracts.C16_surface import haversine
from cratermaker.bindings import counting_bindings, surface_bindings
from cratermaker.utils.general_utils import format_large_units
from pyvc.core import SNum, TaintStr, fresh_real
from pyvc.kit import Kit, Stub, finding, named, scenario

S = "cratermaker.core.simulation:Simulation."
G = "cratermaker.utils.general_utils:"
B = "cratermaker.core.base:"
FUNCS = [S + n for n in ("__init__", "to_config", "__setattr__")] + [B + "_to_config", B + "_convert_for_yaml", G + "_set_properties", G + "Parameter.setter"]


def plain(x, where="config"):
    """What a YAML file can hold and gives back: the file is an exact copy of plain data."""
    t = type(x)
    if isinstance(x, dict):
        return {k: plain(v, f"{where}.{k}") for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v, where) for v in x]
    if x is None or t in (bool, int, float, str) or hasattr(x, "e") or hasattr(x, "b"):
        return x
    raise yaml.representer.RepresenterError("cannot represent an object", x)


class Disk:
    """The configuration file, as the safe YAML dumper and loader see it."""

    def __init__(self):
        self.config = None
        self.on_write = None


DISK = Disk()


def dump(it, a, kw):
    DISK.config = plain(a[0])
    if DISK.on_write:
        DISK.on_write()


def load(it, a, kw):
    return plain(DISK.config)


MODELS = {yaml.safe_dump: dump, yaml.safe_load: load}
NATIVE = {}
NATIVE_FUNCS = {"cratermaker.components.morphology:Morphology.Crater"}


def surface_maker(it, *a, **kw):
    kw = named(Surface.maker, [x for x in a if not isinstance(x, type)], kw)
    if isinstance(kw.get("surface"), Surface):
        return kw["surface"]
    NATIVE["args"] = kw
    s = NATIVE["surface"]
    object.__setattr__(s, "_target", kw["target"])
    object.__setattr__(s, "_is_new", bool(kw.get("reset")))     # the grid on disk fits: nothing to regrid
    return s


def counting_maker(it, *a, **kw):
    return NATIVE["counting"]


def velocity(it, vmean, vescape=None, size=1, **kw):
    """Contract of get_random_velocity (C02): positive speeds."""
    out = np.empty(int(size), dtype=object)
    for i in range(len(out)):
        v = fresh_real("velocity")
        Kit("sym", interp=it).assume(v > 0)
        out[i] = SNum(v.e, np.float64)
    return out


CONTRACTS = {**NORM_CONTRACT,
             "cratermaker.utils.montecarlo_utils:get_random_velocity": velocity,
             "cratermaker.components.surface:Surface.maker": surface_maker,
             "cratermaker.components.counting:Counting.maker": counting_maker}


def fresh_int(name):
    return SNum(z3.ToReal(z3.Int(name)), int)


def fresh(**kw):
    DISK.on_write = None
    d = tempfile.mkdtemp(prefix="sim-", dir=os.environ.get("PYVC_SCRATCH"))
    with contextlib.redirect_stdout(io.StringIO()):
        return Simulation(**{**dict(simdir=d, gridlevel=2, ask_overwrite=False, save_actions=None, rng_seed=5, reset=True), **kw})


def resume(k, s, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return k.call(Simulation, simdir=s.simdir, ask_overwrite=False, **kw)



def pos(k, name, lo, hi):
    return k.real(name, 0, lo_open=True, sample=(lo, hi))


def settings(k, kind):
    """Arbitrary values of the settings a user may give, by component."""
    out = {"target": {"mass": pos(k, "mass", 1e20, 1e25), "transition_scale_type": k.choice("ts", ["silicate", "ice"])},
           "projectile": {"mean_velocity": pos(k, "mean_velocity", 1e2, 1e5)},
           "scaling": {"K1": pos(k, "K1", 0.05, 1.0), "mu": pos(k, "mu", 0.3, 0.6), "Ybar": pos(k, "Ybar", 0.1, 1e8)},
           "production": {"N1_coef": pos(k, "N1_coef", 1e-8, 1e-2), "slope": -pos(k, "slope", 1.0, 4.0)},
           "morphology": {"ejecta_truncation": pos(k, "ejecta_truncation", 1.0, 10.0)}}
    for n in ("do_slope_collapse", "do_subpixel_degradation", "dorays", "do_counting"):
        out["morphology"][n] = kind == 1
    out["scaling"]["monte_carlo_scaling"] = kind == 1
    if kind == 1:
        out["scaling"]["material"] = "Hard Rock"
        out["target"]["material"] = "Sand"
    return out


def same(k, a, b):
    return a == b if isinstance(b, (str, bool)) else k.eq(a, b)


def check(k, t, want, tag=""):
    for comp, vals in want.items():
        c = k.get(t, comp)
        for n, v in vals.items():
            w = k.get(c, n)
            k.ensure(f"{comp}-{n}{tag}", same(k, w, v), lambda: (w, v))


def components(s, want, names):
    for comp, name in names.items():
        if getattr(s, comp).component_name != name:
            raise AssertionError((comp, name))


@scenario("C17", "settings_assigned_later_survive", functions=FUNCS, models=MODELS, contracts=CONTRACTS, native=NATIVE_FUNCS, search_s=8, budget=200)
def s1(k):
    kind = k.choice("kind", [0, 1])
    s = fresh(production="powerlaw", projectile="generic", density=2000.0, mean_velocity=1e4)
    NATIVE.update(surface=s.surface, counting=s.counting)
    want = settings(k, kind)
    want["target"]["density"] = pos(k, "density", 500.0, 8000.0)
    for comp in ("scaling", "target", "projectile", "production", "morphology"):    # (the material of the scaling sets the density too)
        for n in sorted(want[comp], key=lambda n: n != "material"):
            k.set(getattr(s, comp), n, want[comp][n])
    k.call(s.to_config)
    t = resume(k, s)
    check(k, t, want)


@scenario("C17", "settings_given_at_the_start_survive", functions=FUNCS, models=MODELS, contracts=CONTRACTS, native=NATIVE_FUNCS, search_s=8, budget=200)
def s2(k):
    kind = k.choice("kind", [0, 1])
    s0 = fresh()
    NATIVE.update(surface=s0.surface, counting=s0.counting)
    want = settings(k, kind)
    want["target"].pop("material", None)
    kw = {n: v for c in want.values() for n, v in c.items()}
    with contextlib.redirect_stdout(io.StringIO()):
        s = k.call(Simulation, simdir=s0.simdir, reset=True, ask_overwrite=False, save_actions=None, production="powerlaw", projectile="generic", gridlevel=2, rng_seed=5, **kw)
    check(k, s, want, "-at-the-start")
    t = resume(k, s)
    check(k, t, want)


class Recorder:
    """Stands in for the writing of the surface and crater files (their own contract is C18): which state each of them holds."""

    def __init__(self, k, s, real=False):
        self.k, self.s = k, s
        self.surf = self.cnt = self.both = None
        for c, key in ((s.surface, "surf"), (s.counting, "cnt")):
            object.__setattr__(c, "save", self.saver(key))
        DISK.on_write = self.check

    def saver(self, key):
        def save(*a, interval=None, time_variables=None, **kw):
            self.check()
            tv = time_variables or {}
            state = (interval, tv.get("time"), tv.get("elapsed_time"), tv.get("elapsed_n1"))
            setattr(self, key, state)
            if self.surf is not None and self.cnt is not None and self.k.truth(self.equal(self.surf, self.cnt)):
                self.both = state
        return save

    def equal(self, a, b):
        k = self.k
        return k.and_(*[(x is None and y is None) if x is None or y is None else x == y for x, y in zip(a, b, strict=True)])

    def config(self):
        c = disk(self.k, self.s)
        if c is None:
            return None
        t = c.get("time")
        return (c.get("interval", 0), t, *((None, None) if t is None else (c.get("elapsed_time", 0.0), c.get("elapsed_n1", 0.0))))

    def check(self):
        c = self.config()
        if c is not None and self.both is not None:
            self.k.ensure("recorded-progress-has-its-data-saved", self.equal(c, self.both), lambda: (c, self.both, self.surf, self.cnt))

    def populate(self, **kw):
        self.check()
        return []


def disk(k, s):
    if k.sym:
        return DISK.config
    if not s.config_file.exists():
        return None
    with open(s.config_file) as f:
        return yaml.safe_load(f)


RUN = [S + n for n in ("run", "save", "to_config", "__setattr__", "time_variables", "interval", "time", "elapsed_time", "elapsed_n1")]


@scenario("C17", "recorded_progress_is_never_ahead_of_the_data", functions=RUN, models={**MODELS, **ROOT_MODELS, tqdm.tqdm: bar_model, format_large_units: lambda it, a, k: TaintStr("<quantity>")},
          search_s=8, budget=200, assumes=["the writing of the surface and crater files is replaced by a recorder; populate forms no craters"])
def s3(k):
    s = fresh(production="powerlaw")
    DISK.config = None
    rec = Recorder(k, s)
    object.__setattr__(s, "populate", rec.populate)
    state = k.choice("state", ["new", "resumed", "partly-run"])
    if state != "new":
        object.__setattr__(s, "_is_new", False)
        if k.bool("readonly"):
            object.__setattr__(s, "_config_readonly", True)
    t1 = k.real("t1", 1.0, 4000.0)
    t0 = k.real("t0", 0.0, 4000.0, hints=(0.0,))
    k.assume(t0 <= t1 - 0.5)
    n = k.int("n", 2, 1000000 if k.sym else 12)
    if state == "partly-run":
        k.set(s, "time", t1)
        k.set(s, "interval", k.int("i0", 0, 1000))
        k.set(s, "elapsed_time", k.real("e0", 0.0, 1000.0))
        k.set(s, "elapsed_n1", k.real("n0", 0.0, 1000.0))
    k.call(s.save, skip_actions=True)

    def havoc():
        for a in ("time", "elapsed_time", "elapsed_n1"):
            object.__setattr__(s, "_" + a, fresh_real(a))
            DISK.config[a] = fresh_real(a)
        object.__setattr__(s, "_interval", fresh_int("interval!"))
        DISK.config["interval"] = fresh_int("config!")
        for a in ("surf", "cnt", "both"):
            setattr(rec, a, (fresh_int(a + "!"), fresh_real(a), fresh_real(a), fresh_real(a)))

    def inv(i):
        # where the clocks are is the subject of C12; here, that the files follow them
        now = tuple(k.get(s, a) for a in ("interval", "time", "elapsed_time", "elapsed_n1"))
        c = rec.config()
        return [("each-interval-is-saved", k.or_(i == 0, rec.equal(rec.both, now)) if rec.both else i == 0),
                ("configuration-follows-the-data", rec.equal(c, rec.both) if rec.both else True),
                ("both-files-saved-together", k.and_(rec.equal(rec.both, rec.surf), rec.equal(rec.both, rec.cnt)) if rec.both else True),
                ("interval-number-is-not-negative", now[0] >= 0)]
    if k.sym:
        k.invariant(havoc, inv)
    k.call(s.run, time_start=t1, time_end=t0, ninterval=n, skip_actions=True)
    now = tuple(k.get(s, a) for a in ("interval", "time", "elapsed_time", "elapsed_n1"))
    k.ensure("final-state-saved", k.and_(rec.equal(rec.both, now), rec.equal(rec.surf, now), rec.equal(rec.cnt, now)), lambda: (rec.both, now))
    k.ensure("final-state-recorded", rec.equal(rec.config(), now), lambda: (rec.config(), now))


@scenario("C17", "progress_and_limits_survive", functions=FUNCS + [S + "save", S + "smallest_crater", S + "largest_crater"], models=MODELS, contracts=CONTRACTS,
          native=NATIVE_FUNCS, search_s=8, budget=200)
def s4(k):
    s = fresh(production="powerlaw", save_actions=[{"plot": {"plot_style": "hillshade", "show": False}}])
    NATIVE.update(surface=s.surface, counting=s.counting)
    if k.sym:
        Recorder(k, s)
    s.rng.random(k.choice("draws", [0, 3]))
    want = {}
    if k.bool("has_run"):
        want = {"time": k.real("time", 0.0, 4000.0), "elapsed_time": k.real("elapsed_time", 0.0, 4000.0), "elapsed_n1": k.real("elapsed_n1", 0.0, 1e9),
                "interval": k.int("interval", 0, 999999)}
        for n, v in want.items():
            k.set(s, n, v)
    lo, hi = float(min(s.surface.face_size)), float(s.target.diameter)
    if k.bool("limits"):
        a = k.real("smallest", lo, hi)
        b = k.real("largest", lo, hi)
        k.assume(a < b)
        k.set(s, "smallest_crater", a)
        k.set(s, "largest_crater", b)
        k.ensure("limits-are-as-set", k.and_(k.eq(k.get(s, "smallest_crater"), a), k.eq(k.get(s, "largest_crater"), b)))
    lim = (k.get(s, "smallest_crater"), k.get(s, "largest_crater"))
    k.call(s.save, skip_actions=True)
    ahead = np.random.Generator(type(s.rng.bit_generator)())
    ahead.bit_generator.state = s.rng.bit_generator.state
    t = resume(k, s)
    k.ensure("not-started-again", k.get(t, "is_new") is False)
    k.ensure("seed", t.rng_seed == 5)
    k.ensure("random-stream-continues", t.rng.random(4).tolist() == ahead.random(4).tolist())
    k.ensure("one-random-stream", all(c.rng is t.rng for c in (t.production, t.scaling, t.projectile)))
    for n in ("time", "elapsed_time", "elapsed_n1", "interval"):
        v, w = k.get(t, n), want.get(n, {"time": None, "interval": 0}.get(n, 0.0))
        k.ensure(n, v is None if w is None else v == w, lambda: (v, w))
    k.ensure("size-limits", k.and_(k.eq(k.get(t, "smallest_crater"), lim[0]), k.eq(k.get(t, "largest_crater"), lim[1])),
             lambda: (t.smallest_crater, t.largest_crater, lim))
    k.ensure("save-actions", t.save_actions == s.save_actions, lambda: t.save_actions)
    if k.sym:
        i = NATIVE["args"].get("interval")
        k.ensure("the-data-of-that-interval", i == want.get("interval", 0), lambda: i)


OTHER = {"production": "neukum", "scaling": "ctem", "projectile": "asteroids", "target": "Mars"}


@scenario("C17", "arguments_override_what_was_saved", functions=FUNCS, models=MODELS, contracts=CONTRACTS, native=NATIVE_FUNCS, search_s=8, budget=200)
def s5(k):
    s = fresh(production="powerlaw", projectile="generic", density=1234.0, mean_velocity=1e4)
    NATIVE.update(surface=s.surface, counting=s.counting)
    saved = {"production": {"N1_coef": pos(k, "N1_coef", 1e-8, 1e-2), "slope": -pos(k, "slope", 1.0, 4.0)},
             "scaling": {"K1": pos(k, "K1", 0.05, 1.0), "mu": pos(k, "mu", 0.3, 0.6)},
             "projectile": {"mean_velocity": pos(k, "mean_velocity", 1e2, 1e5)},
             "target": {"mass": pos(k, "mass", 1e20, 1e25)},
             "morphology": {"ejecta_truncation": pos(k, "ejecta_truncation", 1.0, 10.0)}}
    for c, vals in saved.items():
        for n, v in vals.items():
            k.set(getattr(s, c), n, v)
    k.call(s.to_config)
    what = k.choice("what", [*OTHER, "setting", "seed"])
    kw = {}
    if what == "setting":
        comp, n = k.choice("which", [(c, n) for c, vals in saved.items() for n in vals])
        v = pos(k, "value", 0.4, 0.5)
        kw[n] = -v if n == "slope" else v
        saved[comp][n] = kw[n]
    elif what == "seed":
        kw["rng_seed"] = 77
    else:
        kw[what] = OTHER[what]
    t = resume(k, s, **kw)
    if what in OTHER:
        with contextlib.redirect_stdout(io.StringIO()):
            d = fresh(**kw)
        c = k.get(t, what)
        k.ensure("the-component-given", c.component_name == OTHER[what] and type(c) is type(getattr(d, what)), lambda: c)
        for n in {"production": ("version", "generator_type"), "scaling": ("K1", "mu", "Ybar", "material"), "projectile": (),
                  "target": ("radius", "mass", "material", "transition_scale_type")}[what]:
            v, w = k.get(c, n), getattr(getattr(d, what), n)
            k.ensure("its-own-settings-not-the-saved-ones", same(k, v, w), lambda: (n, v, w))
        saved.pop(what)
        if what == "target":
            saved.pop("scaling")       # the material of the saved scaling was that of the saved target
    if what == "seed":
        k.ensure("seed", t.rng_seed == 77)
        k.ensure("random-stream-of-the-seed", t.rng.bit_generator.seed_seq.entropy == 77, lambda: t.rng.bit_generator.seed_seq)
    check(k, t, saved)


MODELS_OF = {"neukum": [None, "projectile"], "powerlaw": [None, "crater", "projectile"]}    # (other versions of the Neukum model follow the body)


@scenario("C17", "the_chosen_models_survive", functions=FUNCS + ["cratermaker.components.production.neukum:NeukumProduction.__init__", "cratermaker.components.production.neukum:NeukumProduction.version"],
          models=MODELS, contracts=CONTRACTS, native=NATIVE_FUNCS, search_s=20, search_n=40, budget=200)
def chosen(k):
    """Which component of each kind, and which version of the production function, whether chosen at the start or later."""
    s0 = fresh()
    NATIVE.update(surface=s0.surface, counting=s0.counting)
    pick = k.choice("production", sorted(MODELS_OF))
    version = k.choice("version", MODELS_OF[pick])
    rest = k.choice("others", [("Moon", "montecarlo", "asteroids"), ("Mars", "ctem", "comets"), ("Mercury" if pick == "neukum" else "Ceres", "montecarlo", "generic")])
    kw = dict(zip(("target", "scaling", "projectile"), rest, strict=True), production=pick, monte_carlo_scaling=False)
    if rest[2] == "generic":
        kw.update(mean_velocity=1.5e4, density=2500.0)
    key = {"neukum": "version", "powerlaw": "generator_type"}[pick]
    later = version is not None and k.bool("later")
    if version is not None and not later:
        kw[key] = version
    with contextlib.redirect_stdout(io.StringIO()):
        s = k.call(Simulation, simdir=s0.simdir, reset=True, ask_overwrite=False, save_actions=None, gridlevel=2, rng_seed=5, **kw)
    if later:
        k.set(k.get(s, "production"), key, version)
        k.call(s.to_config)

    def state(x):
        p = k.get(x, "production")
        t = k.get(x, "target")
        return [k.get(p, n) for n in ("component_name", "version" if pick == "neukum" else "slope", "generator_type")] + [k.get(t, "name"), k.get(k.get(x, "scaling"), "component_name"), k.get(k.get(x, "projectile"), "component_name")]
    a = state(s)
    if version is not None:
        k.ensure("as-chosen", str(k.get(k.get(s, "production"), key)).lower() == version.lower(), lambda: a)
    k.ensure("components-as-chosen", a[0] == pick and a[3:] == list(rest), lambda: (a, pick, rest))
    for i in (1, 2):
        t = resume(k, s)
        b = state(t)
        k.ensure("the-same-models", a == b, lambda: (i, a, b))
        k.call(t.to_config)


@scenario("C17", "settings_given_as_numpy_values_survive", functions=FUNCS + ["cratermaker.core.base:_convert_for_yaml"], search_s=15, search_n=30,
          search_only="the configuration file is written and read by the real code", bounded="generated settings as numpy scalars of every kind")
def numpy_settings(k):
    kind = k.choice("kind", [0, 1])
    s0 = fresh()
    want = settings(k, kind)
    if k.bool("later"):
        want["target"]["density"] = pos(k, "density", 500.0, 8000.0)
    else:
        want["target"].pop("material", None)
    size = {}

    def as_numpy(c, n, v):
        t = k.choice(f"{c} {n} as", ["float64", "float32"])
        size[n] = 1e-6 if t == "float32" else 1e-12
        return v if isinstance(v, bool) else np.str_(v) if isinstance(v, str) else np.dtype(t).type(v)
    args = {c: {n: as_numpy(c, n, v) for n, v in vals.items()} for c, vals in want.items()}
    common = dict(simdir=s0.simdir, reset=True, ask_overwrite=False, save_actions=None, production="powerlaw", projectile="generic", gridlevel=np.int64(2), rng_seed=int(5))
    with contextlib.redirect_stdout(io.StringIO()):
        if "density" in want["target"]:
            s = Simulation(**common, density=2000.0, mean_velocity=1e4)
            for comp in ("scaling", "target", "projectile", "production", "morphology"):
                for n in sorted(args[comp], key=lambda n: n != "material"):
                    setattr(getattr(s, comp), n, args[comp][n])
        else:
            s = Simulation(**common, **{n: v for c in args.values() for n, v in c.items()})
    k.call(s.to_config)
    for again in ("", "-again"):
        t = resume(k, s)
        for comp, vals in want.items():
            for n, v in vals.items():
                w = getattr(getattr(t, comp), n)
                k.ensure(f"{comp}-{n}{again}", w == v if isinstance(v, (str, bool)) else abs(float(w) / v - 1) < size[n], lambda: (n, w, v))
        k.ensure("grid", t.surface.gridlevel == 2 and type(t.surface) is type(s.surface), lambda: t.surface.gridlevel)
        k.call(t.to_config)


def user_file(d, rows):
    f = os.path.join(d, "user.csv")
    with open(f, "w") as h:
        h.write("name,latitude,longitude,diameter,production_time,production_time_stdev,production_sequence\n")
        h.writelines(",".join("" if v is None else str(v) for v in r) + "\n" for r in rows)
    return f


def user_craters(s):
    return [(c.name, c.diameter, *c.location, c.time) for c in s.quasimc_craters]


@scenario("C17", "dated_craters_of_a_file_survive", functions=FUNCS + ["cratermaker.components.production:Production.quasimc_file"], search_s=15, search_n=25,
          search_only="the craters are read from a file by the real code", bounded="generated files of one to four craters with exact dates")
def from_file(k):
    n = k.choice("n", [1, 2, 3, 4])
    d = tempfile.mkdtemp(prefix="sim-", dir=os.environ.get("PYVC_SCRATCH"))
    rows = [(f"u{i}", k.real(f"lat{i}", -89, 89), k.real(f"lon{i}", -179, 179), k.real(f"D{i}", 5e4, 2e6), k.real(f"t{i}", 10, 4200), 0.0, i if k.bool(f"tag{i}") else None) for i in range(n)]
    rows = [r[:4] + (4200 - 50 * i if r[6] is not None else r[4],) + r[5:] for i, r in enumerate(rows)]
    f = user_file(d, rows)
    s = fresh(simdir=d, quasimc_file=f)
    want = sorted([(r[0], r[3], r[2], r[1], r[4]) for r in rows], key=lambda r: -r[4])

    def agree(x):
        got = user_craters(x)
        return len(got) == n and all(g[0] == w[0] and np.allclose(np.array(g[1:], float), np.array(w[1:], float), rtol=1e-9) for g, w in zip(sorted(got), sorted(want), strict=True)), (got, want)
    ok, detail = agree(s)
    k.ensure("as-given", ok, lambda: detail)
    top = s.production.diameter_range
    s.rng.random(k.choice("draws", [0, 3]))
    k.call(s.to_config)
    for i in (1, 2):
        t = resume(k, s, **({"quasimc_file": f} if k.bool(f"again{i}") else {}))
        ok, detail = agree(t)
        k.ensure("the-craters-of-the-file", ok, lambda: detail)
        k.ensure("the-file-itself", str(t.production.quasimc_file) == f and t.do_quasimc, lambda: t.production.quasimc_file)
        k.ensure("random-craters-as-small", np.allclose(top, t.production.diameter_range), lambda: (top, t.production.diameter_range))
        k.call(t.to_config)


@finding("C17", "uncertain_dates_are_drawn_again")
def redated(k):
    d = tempfile.mkdtemp(prefix="sim-", dir=os.environ.get("PYVC_SCRATCH"))
    f = user_file(d, [("u0", 10, 20, 3e5, 3500, 100, None)])
    s = fresh(simdir=d, quasimc_file=f)
    s.to_config()
    t = resume(k, s)
    k.ensure("same-dates", user_craters(s) == user_craters(t), lambda: (user_craters(s), user_craters(t)))


@finding("C17", "craters_given_as_a_list_are_not_saved")
def relisted(k):
    s = fresh()
    with kernels():
        s.quasimc_craters = [s.Crater.maker(diameter=3e5, location=(20, 10), production_time=3500.0, name="u0")]
    s.to_config()
    t = resume(k, s)
    k.ensure("same-craters", user_craters(s) == user_craters(t), lambda: (user_craters(s), user_craters(t)))


@contextlib.contextmanager
def kernels():
    """Stand-ins for the Rust kernels that loading a crater reaches (the extension is not built here)."""
    with contextlib.ExitStack() as st:
        for mod, name, fn in ((surface_bindings, "compute_distances", haversine),
                              (surface_bindings, "compute_edge_distances", lambda **kw: np.ones(len(kw["edge_connectivity"]))),
                              (counting_bindings, "measure_rim_height", lambda *a, **kw: 1.0),
                              (counting_bindings, "measure_floor_depth", lambda *a, **kw: 2.0)):
            had = vars(mod).get(name)
            setattr(mod, name, fn)
            st.callback(lambda m=mod, n=name, h=had: delattr(m, n) if h is None else setattr(m, n, h))
        yield


RECORD = ["id", "semimajor_axis", "semiminor_axis", "orientation", "transient_diameter", "projectile_diameter", "projectile_velocity", "projectile_angle",
          "projectile_mass", "projectile_direction", "location", "morphology_type", "time", "name", "measured_semimajor_axis", "measured_semiminor_axis",
          "measured_location"]


def record(c):
    return {n: getattr(c, n) for n in RECORD}


def snapshot(s):
    su = s.surface
    return {"face": np.array(su.face_elevation), "node": np.array(su.node_elevation), "layer": np.array(su.uxds["crater_id"].data),
            "observed": {i: record(c) for i, c in s.counting.observed.items()}, "emplaced": sorted((record(c) for c in s.counting.emplaced), key=lambda r: r["id"]),
            "progress": (s.interval, s.time, s.elapsed_time, s.elapsed_n1), "rng": s.rng.bit_generator.state}


def unequal(a, b):
    out = []
    for n in a:
        x, y = a[n], b[n]
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or not np.array_equal(x, y):
                out.append((n, "data differ"))
        elif n in ("observed", "emplaced"):
            xs = x if n == "observed" else {r["id"]: r for r in x}
            ys = y if n == "observed" else {r["id"]: r for r in y}
            if set(xs) != set(ys):
                out.append((n, sorted(xs), sorted(ys)))
            else:
                for i in xs:
                    d = {m: (xs[i][m], ys[i][m]) for m in RECORD if not near(xs[i][m], ys[i][m])}
                    if d:
                        out.append((n, i, d))
        elif x != y:
            out.append((n, x, y) if n != "rng" else (n,))
    return out


def near(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b, strict=True))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9 * abs(a)
    return a == b


class Crash(Exception):
    pass


def crash(*a, **kw):
    raise Crash


@contextlib.contextmanager
def torn_file(which):
    """The process ends while a file is being written: the configuration, or the n-th data file; half of it is on the disk."""
    calls = [0]
    dump_all, to_netcdf = yaml.dump_all, xarray.Dataset.to_netcdf

    def torn_dump(docs, stream=None, *a, **kw):
        text = dump_all(docs, None, *a, **kw)
        if stream is None:
            return text
        stream.write(text[:len(text) // 2])
        raise Crash

    def torn_netcdf(self, path=None, *a, **kw):
        calls[0] += 1
        if calls[0] != which:
            return to_netcdf(self, path, *a, **kw)
        to_netcdf(self, path, *a, **kw)
        os.truncate(path, os.path.getsize(path) // 2)
        raise Crash
    try:
        if which == "config":
            yaml.dump_all = torn_dump
        else:
            xarray.Dataset.to_netcdf = torn_netcdf
        yield
    finally:
        yaml.dump_all, xarray.Dataset.to_netcdf = dump_all, to_netcdf


@scenario("C17", "saved_history_is_restored", functions=[S + "__init__", S + "save", S + "reset", "cratermaker.components.surface:Surface.save", "cratermaker.components.surface:Surface._load_from_files",
          "cratermaker.components.counting:Counting.__init__", "cratermaker.components.counting:Counting.save", "cratermaker.components.crater:Crater.from_xarray"],
          bounded="generated histories of up to five saves of a simulation of 162 faces, with a crash at any step of the last one",
          search_only="the files are written and read by netCDF and PyYAML", search_s=25, search_n=400)
def s6(k):
    with kernels():
        s = fresh(**k.choice("config", [{}, {"do_counting": False}, {"target": "Mars", "production": "powerlaw"}, {"projectile": "comets", "scaling": "ctem"}]))
        rnd = np.random.default_rng(k.int("data", 0, 10 ** 6))
        state = None
        n = k.choice("saves", [1, 2, 3, 5])
        ends = k.choice("ends", ["saved", "saved", "crash-before", "crash-after-surface", "crash-after-craters", "crash-while-writing", "crash-while-writing"])
        torn = k.choice("file", ["config", "config", 1, 2, 3]) if ends == "crash-while-writing" else None
        if ends == "saved" and k.bool("restart"):
            n, again = max(1, n - 1), True
        else:
            again = False
        cid = [0]

        def step(s, j):
            s.time, s.elapsed_time, s.elapsed_n1 = 4000.0 - 100 * j - rnd.random(), 100.0 * j, 17.0 * j
            s.interval = j
            s.rng.random(int(rnd.integers(0, 5)))
            s.surface.uxds["face_elevation"].data[:] = rnd.normal(size=s.surface.n_face) * 100
            s.surface.uxds["node_elevation"].data[:] = rnd.normal(size=s.surface.n_node) * 100
            made = []
            for _ in range(int(rnd.choice([0, 0, 1, 3]))):
                cid[0] += 1
                kw = {"name": "X"} if rnd.random() < 0.2 else {}
                made.append(s.Crater.maker(diameter=float(rnd.uniform(5e5, 9e5)), location=(float(rnd.uniform(-180, 180)), float(rnd.uniform(-80, 80))),
                                           time=float(s.time + rnd.random() * 100), **kw))
            s.counting._emplaced = made
            for c in made:
                if rnd.random() < 0.7:
                    s.counting.observed[c.id] = c
            if s.counting.observed and rnd.random() < 0.3:
                s.counting.observed.pop(next(iter(s.counting.observed)))

        for j in range(n + 1):
            if j:
                step(s, j)
            if j == n and ends == "crash-before":
                break
            if j == n and torn is not None:
                try:
                    with torn_file(torn):
                        s.save(skip_actions=True)
                except Crash:
                    break
                state = snapshot(s)
                break
            if j == n and ends != "saved":
                target = s.counting if ends == "crash-after-surface" else s
                object.__setattr__(target, "save" if target is s.counting else "to_config", crash)
                try:
                    s.save(skip_actions=True)
                except Crash:
                    break
            s.save(skip_actions=True)
            state = snapshot(s)
        t = resume(k, s)
        bad = unequal(state, snapshot(t))
        k.ensure("the-last-completed-save-is-restored", not bad, lambda: (bad, ends))
        if ends == "saved":
            alone = Counting.maker(surface=t.surface, reset=False, simdir=s.simdir)
            same = {**state, "observed": {i: record(c) for i, c in alone.observed.items()}, "emplaced": sorted((record(c) for c in alone.emplaced), key=lambda r: r["id"])}
            bad = unequal(state, same)
            k.ensure("its-counts-are-restored-without-a-simulation", not bad, lambda: bad)
        if again or ends != "saved":
            # a resumed simulation goes on and can itself be resumed
            step(t, t.interval + 1)
            t.save(skip_actions=True)
            state = snapshot(t)
            u = resume(k, t)
            bad = unequal(state, snapshot(u))
            k.ensure("a-resumed-simulation-can-be-resumed-again", not bad, lambda: (bad, ends))
    shutil.rmtree(s.simdir)
