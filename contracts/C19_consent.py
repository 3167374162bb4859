"""C19: files are removed or overwritten only with the user's consent, and only the component's own."""
import builtins
import hashlib
import os
import shutil

import numpy as np

from cratermaker import Crater, cleanup
from cratermaker.core.base import CratermakerBase
from contracts.C18_files import World, quiet, record, scratch
from contracts._common import haversine, kernel
from contracts._sim import simulation
from pyvc.kit import Stub, scenario

B = "cratermaker.core.base:CratermakerBase."
CO = "cratermaker.components.counting:Counting."
LS = "cratermaker.components.surface:LocalSurface."
SU = "cratermaker.components.surface:Surface."
S = "cratermaker.core.simulation:Simulation."
G = "cratermaker.utils.general_utils:"
ANSWERS = ["y", "Y", "a", "A", "n", "", "never"]


def tree(d):
    """Every file below a directory, with what it holds."""
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = hashlib.sha256(h.read()).hexdigest()
    return out


class Asked:
    """Stands in for the user at the prompt: which questions came, what was answered."""

    def __init__(self, answer):
        self.answer, self.prompts = answer, []

    def __call__(self, prompt=""):
        self.prompts.append(str(prompt))
        return self.answer(len(self.prompts) - 1)

    def __enter__(self):
        self.saved = builtins.input
        builtins.input = self
        return self

    def __exit__(self, *a):
        builtins.input = self.saved


class Maker(Stub):
    """Stands in for the morphology and its record type: the craters of a saved interval."""

    @property
    def Crater(self):
        return self

    def from_xarray(self, ds, interval=None):
        return [(ds, interval)]


PROMPT = []


def input_model(it, a, kw):
    return PROMPT[-1](*a)


# ------------------------------------------------------------------ the question itself
@scenario("C19", "asks_unless_told_not_to", functions=[B + "ask_overwrite", B + "__init__"], budget=60)
def default(k):
    d = scratch()
    try:
        given = k.choice("given", ["nothing", None, True, False])
        kw = {} if given == "nothing" else {"ask_overwrite": given}
        c = k.call(CratermakerBase, simdir=d, **kw)
        want = given if isinstance(given, bool) else True
        k.ensure("asks-by-default", k.get(c, "ask_overwrite") is want, lambda: (given, c.ask_overwrite))
        for v, w in ((False, False), (None, True), (False, False), (True, True)):
            k.set(c, "ask_overwrite", v)
            k.ensure("as-set-last", k.get(c, "ask_overwrite") is w, lambda v=v: (v, c.ask_overwrite))
        for bad in ("no", 0, 1, []):
            k.ensure("only-yes-or-no", k.set_outcome(c, "ask_overwrite", bad).raised(TypeError), lambda bad=bad: bad)
            k.ensure("refused-values-change-nothing", k.get(c, "ask_overwrite") is True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@scenario("C19", "only_what_was_agreed_to_is_removed", functions=[B + "_overwrite_check", B + "ask_overwrite"], models={builtins.input: input_model, print: lambda it, a, kw: None},
          search_s=4, budget=300, assumes=["lists of up to three files or directories, in a real scratch directory; answers y, Y, a, A, n, empty or another word"])
def agreed(k):
    d = scratch()
    try:
        n = k.choice("n", [1, 2, 3])
        kinds = [k.choice(f"kind{i}", ["absent", "file", "directory"] if n < 3 or i == 1 else ["file"]) for i in range(n)]
        names = [os.path.join(d, "abc"[i]) for i in range(n)]
        for p, kind in zip(names, kinds, strict=True):
            if kind == "file":
                open(p, "w").write(p)
            elif kind == "directory":
                os.mkdir(p)
                open(os.path.join(p, "inside"), "w").write(p)
        open(os.path.join(d, "other"), "w").write("other")
        before = tree(d)
        c = CratermakerBase(simdir=d, ask_overwrite=False)
        ask = k.bool("ask")
        k.set(c, "ask_overwrite", ask)
        said = {}
        answers = ANSWERS if n < 3 else ["y", "a", ""]

        def answer(i):
            said[i] = k.choice(f"answer{i}", answers)
            return said[i]
        user = Asked(answer)
        arg = names[0] if n == 1 and k.bool("single") else list(names)
        PROMPT.append(user)
        try:
            with user if not k.sym else quiet(), quiet():
                ok = k.call(c._overwrite_check, arg)
        finally:
            PROMPT.pop()
        # what the user agreed to
        agreed, want, asking, asked = {}, True, ask, 0
        for p, kind in zip(names, kinds, strict=True):
            if kind == "absent":
                continue
            if asking:
                a = said.get(asked, "never asked")
                asked += 1
                if a.lower() == "a":
                    asking = False
                elif a.lower() != "y":
                    want = False
                    break
            agreed[p] = True
        after = tree(d)
        gone = {p for p in names if not os.path.exists(p)}
        k.ensure("removed-exactly-what-was-agreed-to", gone == {p for p, kind in zip(names, kinds, strict=True) if kind == "absent" or p in agreed}, lambda: (kinds, said, gone))
        k.ensure("everything-else-is-kept", all(after.get(f) == h for f, h in before.items() if not any(os.path.join(d, f) == p or os.path.join(d, f).startswith(p + os.sep) for p in agreed)), lambda: (kinds, said))
        k.ensure("nothing-is-made", set(after) <= set(before), lambda: after)
        k.ensure("says-whether-to-go-on", ok is want, lambda: (ok, want, said))
        k.ensure("asks-once-for-each-until-told-otherwise", len(user.prompts) == asked, lambda: (user.prompts, asked))
        k.ensure("names-the-file", all(any(p in q for p in names) for q in user.prompts), lambda: user.prompts)
        k.ensure("setting-unchanged", k.get(c, "ask_overwrite") is ask)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ resetting
def litter(d, rnd):
    """Files of the user's own beside those of the components."""
    for p in ("notes.txt", "surface/notes.txt", "surface/surface_backup.txt", "counting/my_list.csv", "counting/crater.txt", "export/figure.pdf", "surface_images/readme.md", "mine/surface000000.nc"):
        if rnd.random() < 0.7:
            p = os.path.join(d, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(p)


def own(f):
    """Output of the components, which a reset removes or replaces."""
    f = f.replace(os.sep, "/")
    return (f.startswith("surface/surface") and f.endswith(".nc")) or (f.startswith("counting/") and f.endswith(".nc")) or (f.startswith(("surface_images/", "counting_images/")) and f.endswith(".png"))


def settings(kind, w):
    s, cnt = (w.surface, w.counting)
    return {"face": np.array(s.face_elevation), "node": np.array(s.node_elevation), "emplaced": [record(c) for c in cnt.emplaced], "observed": sorted(cnt.observed),
            "ask": [s.ask_overwrite, cnt.ask_overwrite, getattr(w, "ask_overwrite", None)], "clock": [getattr(w, n, None) for n in ("time", "interval", "elapsed_time", "elapsed_n1")]}


def same(a, b):
    return all(np.array_equal(a[n], b[n]) if n in ("face", "node") else repr(a[n]) == repr(b[n]) for n in a)


@scenario("C19", "a_refused_reset_changes_nothing", functions=[B + "reset", B + "saved_output_files", SU + "reset", LS + "saved_output_files", LS + "_load_from_files", CO + "reset", S + "reset", S + "__init__", B + "_overwrite_check"],
          bounded="generated histories of up to three saved intervals, with files of the user beside them; every answer", search_only="works on real files", search_s=45, search_n=300)
def refused(k):
    kind = k.choice("what", ["surface", "counting", "simulation", "new-simulation"])
    rnd = np.random.default_rng(k.int("data", 0, 10 ** 6))
    answers = k.choice("answers", [("y",), ("a",), ("n",), ("",), ("y", "n"), ("n", "y")])
    ask = k.choice("ask", [True, True, True, False])
    with quiet():
        if kind in ("surface", "counting"):
            w = World()
            d = w.dir
        else:
            w = simulation(production="powerlaw")
            d = str(w.simdir)
    try:
        with quiet():
            s, cnt = w.surface, w.counting
            for i in sorted({0, *rnd.integers(0, 4, size=2).tolist()}):
                s.uxds["face_elevation"].data[:] = rnd.normal(size=s.n_face)
                s.uxds["node_elevation"].data[:] = rnd.normal(size=s.n_node)
                cs = [Crater.maker(diameter=1e4, location=(float(j), 5.0)) for j in range(int(rnd.integers(0, 3)))]
                cnt._emplaced, cnt._observed = cs, {c.id: c for c in cs}
                s.save(interval=i)
                cnt.save(interval=i)
            litter(d, rnd)
            if kind in ("simulation", "new-simulation"):
                w.interval = 2
                w.save(skip_actions=True)
            for c in (s, cnt, w):
                if hasattr(c, "ask_overwrite"):
                    c.ask_overwrite = ask
        before, state = tree(d), settings(kind, w)
        user = Asked(lambda i: answers[min(i, len(answers) - 1)])
        exc = None
        with user, quiet():
            try:
                if kind == "surface":
                    s.reset()
                elif kind == "counting":
                    cnt.reset()
                elif kind == "simulation":
                    w.reset()
                else:
                    from cratermaker import Simulation
                    Simulation(simdir=d, ask_overwrite=ask, gridlevel=2, production="powerlaw", save_actions=None)
            except RuntimeError as e:
                exc = e
        after = tree(d)
        foreign = {f for f in before if not own(f) and f != "cratermaker.yaml"}
        k.ensure("other-files-untouched", all(after.get(f) == before[f] for f in foreign), lambda: [f for f in foreign if after.get(f) != before[f]])
        mine = [f for f in before if own(f) and (f.startswith(kind) or "simulation" in kind)]
        others = [f for f in before if own(f) and f not in mine]
        k.ensure("other-components-untouched", all(after.get(f) == before[f] for f in others), lambda: [f for f in others if after.get(f) != before[f]])
        if not ask:
            k.ensure("no-question", not user.prompts, lambda: user.prompts)
        yes = not ask or all(a in ("y", "a") for a in answers)
        no = ask and answers[0] in ("n", "")
        if kind == "new-simulation":
            # started without being told to reset: resumes unless the user says otherwise
            if no or not ask:
                k.ensure("old-run-kept", all(after.get(f) == before[f] for f in mine), lambda: exc)
                k.ensure("old-run-resumed", exc is None, lambda: exc)
            elif yes:
                k.ensure("old-run-removed", exc is None and not [f for f in mine if f in after and f != "surface/surface000000.nc"], lambda: (exc, sorted(after)))
            return
        if no and user.prompts:
            k.ensure("refused-reset-is-reported", exc is not None)
            k.ensure("refused-reset-keeps-the-files", after == before, lambda: [f for f in {*before, *after} if after.get(f) != before.get(f)])
            k.ensure("refused-reset-keeps-the-state", same(state, settings(kind, w)))
        elif yes:
            k.ensure("reset-done", exc is None, lambda: exc)
            left = [f for f in mine if f in after and f != "surface/surface000000.nc"]
            k.ensure("output-removed", not left, lambda: left)
            now = settings(kind, w)
            if kind != "counting":
                k.ensure("surface-flat", not now["face"].any() and not now["node"].any())
            if kind != "surface":
                k.ensure("no-craters", not now["emplaced"] and not now["observed"])
        k.ensure("setting-unchanged", exc is not None or settings(kind, w)["ask"] == state["ask"], lambda: (state["ask"], settings(kind, w)["ask"]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ exporting
@scenario("C19", "exports_do_not_overwrite_unasked", functions=[CO + "export", CO + "to_csv_file", CO + "to_scc_file", CO + "to_vtk_file", LS + "export", LS + "to_vtk_file", LS + "to_geotiff_file", LS + "to_vector_file", LS + "export_region_polygon", SU + "export", B + "_overwrite_check", B + "ask_overwrite"],
          bounded="generated exports (craters as CSV, SCC or VTK, the surface as VTK, GeoTIFF or GeoPackage, the outline of a region) onto files that exist or not; every answer", search_only="works on real files", search_s=40, search_n=300)
def exports(k):
    what = k.choice("what", ["CSV", "SCC", "counting-VTK", "surface-VTK", "surface-GeoTIFF", "surface-GPKG", "outline"])
    rnd = np.random.default_rng(k.int("data", 0, 10 ** 6))
    answer = k.choice("answer", ["y", "a", "n", ""])
    ask = k.bool("ask")
    override = k.choice("override", [None, None, True, False])
    exists = k.bool("exists")
    with World() as w, quiet():
        s, cnt = w.surface, w.counting
        cs = [Crater.maker(diameter=1e5, location=(float(j), 5.0)) for j in range(1, 3)]
        cnt._emplaced, cnt._observed = cs, {c.id: c for c in cs}
        s.save(interval=3)
        cnt.save(interval=3)
        litter(w.dir, rnd)
        new = {"CSV": ["observed_craters000003.csv", "emplaced_craters000003.csv"], "SCC": ["observed000003.scc", "emplaced000003.scc"],
               "counting-VTK": ["observed_craters000003.vtp", "emplaced_craters000003.vtp"], "surface-VTK": ["surface000003.vtp"],
               "surface-GeoTIFF": ["surface000003.tif"], "surface-GPKG": ["surface000003.gpkg"], "outline": ["local_surface_AREA.gpkg"]}[what]
        new = [os.path.join("export", f) for f in new]
        os.makedirs(os.path.join(w.dir, "export"), exist_ok=True)
        if exists:
            for f in new:
                open(os.path.join(w.dir, f), "w").write("mine")
        for c in (s, cnt):
            c.ask_overwrite = ask
        if what == "outline":
            with kernel("compute_distances", haversine):
                region = s.extract_region((10.0, 20.0), 1e6)
            region.ask_overwrite, override = ask, None
        before = tree(w.dir)
        user = Asked(lambda i: answer)
        with user:
            if what == "outline":
                region.export_region_polygon()
            elif what.startswith("surface"):
                s.export(driver=what.split("-")[1], interval=3, ask_overwrite=override)
            else:
                cnt.export(driver=what[-3:], interval=3, ask_overwrite=override)
        after = tree(w.dir)
        asking = ask if override is None else override
        k.ensure("other-files-untouched", all(after.get(f) == h for f, h in before.items() if f not in new), lambda: [f for f in before if f not in new and after.get(f) != before[f]])
        k.ensure("only-the-export-is-made", {f for f in after if f not in before} <= {*new, os.path.join("export", "grid.vtp")}, lambda: set(after) - set(before))
        if exists and asking and answer in ("n", ""):
            k.ensure("refused-export-keeps-the-file", all(after.get(f) == before[f] for f in new), lambda: new)
        else:
            k.ensure("exported", all(f in after and after[f] != before.get(f) for f in new), lambda: (new, sorted(after)))
        k.ensure("asked-when-it-should", bool(user.prompts) == bool(exists and asking), lambda: user.prompts)
        k.ensure("setting-unchanged", s.ask_overwrite is ask and cnt.ask_overwrite is ask, lambda: (ask, s.ask_overwrite, cnt.ask_overwrite))


EXPORTS = {"surface": ["get_saved_interval_numbers", "save", "to_vtk_file", "to_geotiff_file", "to_vector_file"], "counting": ["read_saved_output", "to_vtk_file", "to_csv_file", "to_scc_file", "to_vector_file"],
           "simulation": ["save", "surface", "counting"]}


@scenario("C19", "consent_settings_outlive_an_export", functions=[CO + "export", LS + "export", S + "export", B + "ask_overwrite"], search_s=3,
          assumes=["what reads or writes the files is a recorder that returns or fails at a chosen step"])
def outlive(k):
    what = k.choice("what", ["surface", "counting", "simulation"])
    s = simulation()
    c = s if what == "simulation" else s.counting if what == "counting" else s.surface.extract_region(location=(10.0, 20.0), region_radius=1e6)
    ask, over = k.choice("ask", [True, False]), k.choice("ask_overwrite", [None, True, False])
    k.set(c, "ask_overwrite", ask)
    fails = k.choice("fails", [None, *EXPORTS[what]])
    seen = []

    def step(n, value=None):
        def f(*a, **kw):
            seen.append((n, bool(c.ask_overwrite)))
            if n == fails:
                raise OSError(n)
            return value
        return f
    if what == "simulation":
        object.__setattr__(c, "save", step("save"))
        for n in ("surface", "counting"):
            object.__setattr__(getattr(s, n), "export", step(n))
    else:
        values = {"get_saved_interval_numbers": ([0], [0.0]), "read_saved_output": (None, None)}
        if what == "counting":
            now = k.choice("craters", [True, False])
            values["read_saved_output"] = ({0: "observed"}, {0: "emplaced"}) if now else (None, None)
            object.__setattr__(c, "_morphology", Maker())
        for n in EXPORTS[what]:
            object.__setattr__(s.surface if n in ("get_saved_interval_numbers", "save") else c, n, step(n, values.get(n)))
    driver = k.choice("driver", {"surface": ["VTK", "GeoTIFF", "GPKG"], "counting": ["VTK", "SCC", "CSV", "GPKG", "bad-type"], "simulation": ["VTK"]}[what])
    kw = {"driver": driver, "interval": k.choice("interval", [0, 1]) if what == "surface" else 0}
    if over is not None:
        kw["ask_overwrite"] = over
    if driver == "bad-type":
        kw.update(driver="SCC", crater_type="neither")
    r = k.outcome(c.export, **kw)
    k.ensure("a-failure-is-reported", r.exc is None or isinstance(r.exc, (OSError, ValueError)), lambda: r.exc)
    k.ensure("fails-when-a-step-fails", (fails in [n for n, _ in seen]) <= (r.exc is not None), lambda: (seen, r.exc))
    k.ensure("asks-as-told-during-the-export", all(a is (ask if over is None else over) for n, a in seen), lambda: (seen, ask, over))
    k.ensure("setting-as-before", k.get(c, "ask_overwrite") is ask, lambda: (ask, over, c.ask_overwrite, fails))


# ------------------------------------------------------------------ cleaning up
@scenario("C19", "cleaning_up_removes_only_the_simulation", functions=[G + "cleanup"], bounded="generated directory trees", search_only="works on real files", search_s=6, search_n=200)
def clean(k):
    rnd = np.random.default_rng(k.int("data", 0, 10 ** 6))
    d, cwd = scratch(), os.getcwd()
    try:
        parts = ["counting", "target", "scaling", "production", "morphology", "projectile", "surface"]
        dirs = [*parts, *(p + "_images" for p in parts), "export", "mine", "surface2", "old/surface", "surfaces", "my_surface", "images"]
        for p in dirs:
            if rnd.random() < 0.6:
                os.makedirs(os.path.join(d, p))
                open(os.path.join(d, p, "x.nc"), "w").write(p)
        for f in ("cratermaker.yaml", "cratermaker.yaml.bak", "other.yaml", "notes.txt", "sub/cratermaker.yaml"):
            if rnd.random() < 0.7:
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                open(os.path.join(d, f), "w").write(f)
        before = tree(d)
        how = k.choice("how", ["string", "path", "here"])
        with quiet():
            if how == "here":
                os.chdir(d)
                cleanup()
            else:
                from pathlib import Path
                cleanup(d if how == "string" else Path(d))
        after = tree(d)
        own = {f for f in before if f == "cratermaker.yaml" or f.split(os.sep)[0] in {*parts, *(p + "_images" for p in parts)}}
        k.ensure("simulation-removed", not own & set(after), lambda: own & set(after))
        k.ensure("everything-else-is-kept", after == {f: h for f, h in before.items() if f not in own}, lambda: set(before) - own - set(after))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ what follows a refusal
class Log:
    def __init__(self):
        self.calls = []

    def to(self, name, result=None):
        def call(*a, **kw):
            self.calls.append(name)
            return result() if callable(result) else result
        return call


BEGUN = {}


def begun():
    if "w" not in BEGUN:
        with quiet():
            BEGUN["w"] = simulation(production="powerlaw")
    return BEGUN["w"]


@scenario("C19", "nothing_is_reset_after_a_refusal", functions=[B + "reset", SU + "reset", CO + "reset", S + "reset"], models={builtins.input: input_model, print: lambda it, a, kw: None}, search_s=3,
          assumes=["the question about the files answers arbitrarily (its contract: only_what_was_agreed_to_is_removed); what resets the data is replaced by a recorder"])
def follows(k):
    w = begun()
    s, cnt = w.surface, w.counting
    log = Log()
    agreed = {}

    def answer(name):
        def f():
            agreed[name] = k.bool("agreed_" + name)
            return agreed[name]
        return f
    found = {n: k.bool("has_files_" + n) for n in ("surface", "counting")}
    parts = {"surface": s, "counting": cnt}
    for n, c in parts.items():
        object.__setattr__(c, "_overwrite_check", log.to("question-" + n, answer(n)))
        object.__setattr__(c, "saved_output_files", log.to("list-" + n, [os.path.join("/nonexistent", n)] if found[n] else []))
        for f in ("add_tag", "add_data", "save", "_save_data", "update_elevation"):
            if hasattr(c, f):
                object.__setattr__(c, f, log.to("data-counting" if f == "add_tag" else "data-" + n))
    crater = Crater.maker(diameter=1e4, location=(1.0, 1.0))
    object.__setattr__(cnt, "_emplaced", [crater])
    object.__setattr__(cnt, "_observed", {crater.id: crater})
    object.__setattr__(w, "_interval", 7)
    object.__setattr__(w, "_ask_overwrite", k.bool("ask"))
    reply = k.choice("reply", ["y", "a", "n", ""])
    user = Asked(lambda i: reply)
    what = k.choice("what", ["surface", "counting", "simulation"])
    PROMPT.append(user)
    try:
        with user if not k.sym else quiet(), quiet():
            out = k.outcome({"surface": s, "counting": cnt, "simulation": w}[what].reset)
    finally:
        PROMPT.pop()
        for c in parts.values():
            for f in list(vars(c)):
                if f in ("_overwrite_check", "saved_output_files", "add_tag", "add_data", "save", "_save_data", "update_elevation"):
                    object.__delattr__(c, f)
        ask = w._ask_overwrite
        object.__setattr__(w, "_ask_overwrite", False)
    no = [n for n, a in agreed.items() if not k.truth(a)]
    refused = bool(no) or (what == "simulation" and bool(user.prompts) and reply in ("n", ""))
    k.ensure("refusal-is-reported", (out.exc is not None) == refused, lambda: (out.exc, no, reply))
    k.ensure("asked-only-about-files", all(found[n] for n in agreed), lambda: agreed)
    for n in parts:
        touched = "data-" + n in log.calls or (n == "counting" and (not cnt._emplaced or not cnt._observed))
        k.ensure(f"{n}-kept-when-refused", not (touched and (n in no or (refused and not no))), lambda: log.calls)
        mine = what in (n, "simulation")
        k.ensure(f"{n}-kept-unless-asked-for", mine or not touched, lambda: log.calls)
        k.ensure(f"{n}-asked-first", not (mine and found[n] and touched) or "question-" + n in log.calls, lambda: log.calls)
        if mine and not refused:
            k.ensure(f"{n}-reset", touched, lambda: log.calls)
    k.ensure("clock-kept-when-refused", not refused or w._interval == 7)
    if what == "simulation" and not refused:
        k.ensure("clock-reset", w._interval == 0 and w._time is None)
        k.ensure("asks-again-next-time", k.truth(ask) == (len(user.prompts) > 0 or not any(found.values())) if found["surface"] or found["counting"] else True)
