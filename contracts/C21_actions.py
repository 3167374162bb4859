"""C21: the save actions of a component are all carried out, in order, at every save, with their options and for the interval saved."""
import contextlib
import io
import os
import shutil
import tempfile

from cratermaker import Simulation
from cratermaker.components.counting import Counting
from cratermaker.components.surface import Surface
from cratermaker.core.base import CratermakerBase
from contracts._sim import simulation
from pyvc.kit import scenario

B = "cratermaker.core.base:CratermakerBase."
FUNCS = [B + "save", B + "add_save_action", B + "save_actions"]
NAMES = ["first", "second", "third"]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class Doer(CratermakerBase):
    """A component whose actions only record how they were called."""
    __pyvc_stub__ = True
    broken = 3

    def __init__(self, d):
        super().__init__(simdir=d, ask_overwrite=False, rng_seed=1)
        object.__setattr__(self, "_output_file_prefix", "doer")
        object.__setattr__(self, "calls", [])

    name = "doer"

    def first(self, **a):
        self.calls.append(("first", a))

    def second(self, **a):
        self.calls.append(("second", a))

    def third(self, **a):
        self.calls.append(("third", a))


@contextlib.contextmanager
def doer():
    d = tempfile.mkdtemp(prefix="sim-c21-", dir=os.environ.get("PYVC_SCRATCH"))
    try:
        yield Doer(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def actions(k, longest=3):
    """A list of save actions with arbitrary options, and what it means one action after another."""
    entries, flat = [], []
    for i in range(k.choice("entries", list(range(longest + 1)))):
        entry = {}
        for j, name in enumerate(NAMES[:k.choice(f"actions{i}", [1, 2]) if i < 2 else 1] if i != 1 else NAMES[::-1][:1]):
            options = {}
            if k.bool(f"option{i}.{j}"):
                options["width"] = k.real(f"width{i}.{j}", -10, 10)
            if i == 0 and j == 0:
                options["style"] = "dots"
            entry[name] = options
            flat.append((name, dict(options)))
        entries.append(entry)
    return entries, flat


@scenario("C21", "each_action_once_in_order_with_its_options", functions=FUNCS, bounded="lists of up to three entries; arbitrary options, arguments and interval", search_s=2)
def each(k):
    with doer() as c:
        entries, flat = actions(k)
        given = [{n: dict(o) for n, o in e.items()} for e in entries]
        if k.bool("one by one"):
            for e in entries:
                k.call(c.add_save_action, e)
        else:
            k.set(c, "save_actions", entries)
        kept = k.get(c, "save_actions")
        k.ensure("the-actions-are-the-ones-given", kept == given, lambda: (kept, given))
        interval = k.int("interval", 0, 10 ** 6)
        extra = {"width": k.real("given width", -10, 10)} if k.bool("overridden") else {}
        for skip in (True, False):
            k.call(c.save, interval=interval, skip_actions=skip, **extra) if skip else k.call(c.save, interval=interval, **extra)
            if skip:
                k.ensure("skipped-when-told", c.calls == [], lambda: c.calls)
        k.ensure("each-action-once-in-order", [n for n, _ in c.calls] == [n for n, _ in flat], lambda: (c.calls, flat))
        for (_, got), (_, options) in zip(c.calls, flat, strict=True):
            want = {**options, **extra}
            k.ensure("no-other-options", set(got) == set(want) | {"interval"}, lambda got=got, want=want: (got, want))
            k.ensure("for-the-interval-saved", k.eq(got["interval"], interval), lambda got=got: got)
            for n, v in want.items():
                k.ensure("with-its-options", got[n] == v if isinstance(v, str) else k.eq(got[n], v), lambda got=got, n=n: (n, got))
        k.ensure("the-list-given-is-not-altered", entries == given, lambda: (entries, given))
        # and again at the next save
        n = len(c.calls)
        later = k.int("later", 0, 10 ** 6)
        k.call(c.save, interval=later)
        k.ensure("at-every-save", [x for x, _ in c.calls[n:]] == [x for x, _ in flat], lambda: c.calls)
        for (_, got), (_, options) in zip(c.calls[n:], flat, strict=True):
            k.ensure("with-that-saves-interval", k.eq(got["interval"], later), lambda got=got: got)
            k.ensure("options-are-not-carried-over", set(got) == set(options) | {"interval"}, lambda got=got: got)


@scenario("C21", "adding_leaves_other_lists_alone", functions=FUNCS, search_s=2)
def adding(k):
    with doer() as c, doer() as other:
        start = [{"first": {"width": 1.0}}]
        k.set(c, "save_actions", start)
        k.set(other, "save_actions", start)
        extra = {"second": {"width": k.real("w", -5, 5)}}
        k.call(c.add_save_action, extra)
        k.ensure("appended-at-the-end", [list(e) for e in k.get(c, "save_actions")] == [["first"], ["second"]], lambda: c.save_actions)
        k.ensure("the-list-given-is-left-alone", start == [{"first": {"width": 1.0}}], lambda: start)
        k.ensure("nor-that-of-another-component", [list(e) for e in k.get(other, "save_actions")] == [["first"]], lambda: other.save_actions)
        k.call(c.save, interval=3)
        k.ensure("both-carried-out", [n for n, _ in c.calls] == ["first", "second"], lambda: c.calls)
        none = k.choice("none", [None, []])
        k.set(c, "save_actions", none)
        k.call(c.save, interval=4)
        k.ensure("no-actions-none-carried-out", len(c.calls) == 2 and k.get(c, "save_actions") == [], lambda: c.calls)
        k.call(c.add_save_action, {"third": {}})
        k.ensure("an-empty-list-given-is-left-alone", none in (None, []), lambda: none)
        k.call(c.save, interval=5)
        k.ensure("after-emptying", [n for n, _ in c.calls[2:]] == ["third"], lambda: c.calls)


BAD = [("not a list", {"first": {}}, TypeError), ("text", "first", TypeError), ("not dictionaries", ["first"], TypeError), ("unknown", [{"unknown": {}}], ValueError),
       ("not callable", [{"broken": {}}], ValueError), ("options", [{"first": [1]}], TypeError), ("options", [{"first": None}], TypeError),
       ("second of two", [{"first": {}}, {"unknown": {}}], ValueError), ("second of one", [{"first": {}, "second": 1}], TypeError)]


@scenario("C21", "actions_that_cannot_be_carried_out_are_refused", functions=FUNCS, search_s=2)
def refused(k):
    with doer() as c:
        start = [{"first": {"width": 1.0}}]
        k.set(c, "save_actions", [dict(e) for e in start])
        what, bad, err = k.choice("bad", BAD)
        k.ensure("refused", k.set_outcome(c, "save_actions", bad).raised(err), lambda: (what, bad))
        k.ensure("and-the-list-stays", k.get(c, "save_actions") == start, lambda: c.save_actions)
        if isinstance(bad, list):
            k.ensure("refused-when-added", k.outcome(c.add_save_action, bad[-1]).raised(err), lambda: (what, bad))
            k.ensure("and-the-list-stays-when-adding", k.get(c, "save_actions") == start, lambda: c.save_actions)
        k.call(c.save, interval=1)
        k.ensure("the-others-are-carried-out", [n for n, _ in c.calls] == ["first"], lambda: c.calls)


class Recorder:
    """Actions of the real classes that only record how they were called."""

    def __init__(self, who):
        self.who, self.log, self.saved = who, [], {}

    def __enter__(self):
        for cls in self.who:
            self.saved[cls] = cls.__dict__.get("note_down")

            def note(obj, **a):
                self.log.append((obj, a, files(obj)))
            cls.note_down = note
        return self

    def __exit__(self, *a):
        for cls, old in self.saved.items():
            if old is None:
                del cls.note_down
            else:
                cls.note_down = old


def files(obj):
    d = obj.output_dir
    return set() if d is None or not os.path.isdir(d) else set(os.listdir(d))


@scenario("C21", "saving_the_simulation_carries_out_the_actions_of_its_parts", functions=["cratermaker.core.simulation:Simulation.save", "cratermaker.components.surface:Surface.save",
          "cratermaker.components.surface:LocalSurface.save", "cratermaker.components.counting:Counting.save", *FUNCS],
          search_only="files are really written", bounded="generated lists on a simulation of 162 faces", search_s=8, search_n=12)
def parts(k):
    s = simulation()
    try:
        with Recorder([Simulation, Surface, Counting]) as r, quiet():
            objs = {"surface": s.surface, "counting": s.counting, "simulation": s}
            want = {}
            for n, o in objs.items():
                m = k.choice(f"actions of {n}", [0, 1, 2])
                for i in range(m):
                    k.call(o.add_save_action, {"note_down": {"tag": f"{n}{i}"}})
                want[n] = [f"{n}{i}" for i in range(m)]
            for interval in (0, k.choice("next", [1, 5])):
                s._interval = interval
                r.log.clear()
                k.call(s.save, skip_actions=True)
                k.ensure("none-when-skipped", r.log == [], lambda: r.log)
                k.call(s.save)
                for n, o in objs.items():
                    mine = [a for obj, a, _ in r.log if obj is o]
                    k.ensure(f"each-action-of-the-{n}-once", [a.get("tag") for a in mine] == want[n], lambda n=n, mine=mine: (n, mine))
                    k.ensure("for-the-interval-saved", all(a.get("interval") == interval for a in mine), lambda mine=mine: (interval, mine))
                k.ensure("nothing-else-is-carried-out", len(r.log) == sum(map(len, want.values())), lambda: r.log)
                for obj, _, there in r.log:
                    if obj is s.surface:
                        k.ensure("after-the-surface-is-written", f"surface{interval:06d}.nc" in there, lambda there=there: there)
        # the parts on their own
        with Recorder([Simulation, Surface, Counting]) as r, quiet():
            which = k.choice("part", ["surface", "counting"])
            k.call(objs[which].save, interval=7)
            k.ensure("a-part-saved-alone-carries-out-its-own", [(obj is objs[which], a.get("tag"), a.get("interval")) for obj, a, _ in r.log] == [(True, t, 7) for t in want[which]], lambda: r.log)
            r.log.clear()
            k.call(objs[which].save, interval=8, skip_actions=True)
            k.ensure("a-part-told-to-skip", r.log == [], lambda: r.log)
    finally:
        shutil.rmtree(s.simdir, ignore_errors=True)


@scenario("C21", "actions_survive_a_resume", functions=["cratermaker.core.simulation:Simulation.__init__", *FUNCS], search_only="the configuration is really written and read",
          bounded="generated lists on a simulation of 162 faces", search_s=8, search_n=8)
def resumed(k):
    s = simulation()
    again = None
    try:
        with Recorder([Simulation, Surface, Counting]) as r, quiet():
            for n in ("surface", "counting", "simulation"):
                o = s if n == "simulation" else getattr(s, n)
                for i in range(k.choice(f"actions of {n}", [0, 1, 2])):
                    o.add_save_action({"note_down": {"tag": f"{n}{i}", "show": False}})
            s.save()
            want = [a for _, a, _ in r.log]
            again = k.call(Simulation, simdir=s.simdir, ask_overwrite=False)
            r.log.clear()
            again._interval = 0
            again.save()
            got = [a for _, a, _ in r.log]
            k.ensure("a-resumed-simulation-carries-out-the-same-actions", [a.get("tag") for a in got] == [a.get("tag") for a in want] and all(a.get("show") is False for a in got), lambda: (got, want))
            fresh = k.call(Simulation, simdir=s.simdir, ask_overwrite=False, reset=True, gridlevel=2, save_actions=None)
            r.log.clear()
            fresh.save()
            k.ensure("a-new-simulation-does-not", r.log == [], lambda: r.log)
    finally:
        shutil.rmtree(s.simdir, ignore_errors=True)


@scenario("C21", "the_default_shows_the_surface", functions=["cratermaker.core.simulation:Simulation.__init__", "cratermaker.core.simulation:Simulation.save_actions"], search_only="files are really written",
          bounded="a simulation of 162 faces", search_s=8, search_n=3)
def default(k):
    s = simulation(save_actions="default")
    try:
        with quiet():
            k.ensure("one-plot", [list(e) for e in k.get(s, "save_actions")] == [["plot"]], lambda: s.save_actions)
            for interval in (0, 3):
                s._interval = interval
                k.call(s.save)
                out = sorted(p for p in os.listdir(s.surface.plot_dir) if p.endswith(".png"))
                k.ensure("an-image-of-each-interval", sum(f"{interval:06d}" in p for p in out) == 1, lambda out=out: out)
    finally:
        shutil.rmtree(s.simdir, ignore_errors=True)
