"""C12: a run emplaces exactly the requested span of time, once, and its clocks agree with it."""
import math

import numpy as np
import tqdm
import z3

from cratermaker import Production
from contracts._common import ROOT, ROOT_MODELS
from contracts._sim import bar_model, simulation
from cratermaker.utils.general_utils import format_large_units
from pyvc.core import SNum, TaintStr, fresh_real, rv
from pyvc.kit import scenario

S = "cratermaker.core.simulation:Simulation."
FUNCS = [S + "run", S + "_validate_run_args", S + "time", S + "elapsed_time", S + "elapsed_n1", S + "interval"]
N1, SLOPE = 7.883e-3, -3.328
MODELS = {**ROOT_MODELS, tqdm.tqdm: bar_model, format_large_units: lambda it, a, k: TaintStr("<quantity>")}
ASSUMES = [ROOT, "the simulation and its grid are built natively; populate and save are replaced by recorders (their own contracts are C13 and C16)"]
N1RATE = float(N1 * np.float64(1000.0) ** SLOPE) * 1e12     # craters larger than 1 km per 10^6 km^2 and My


class Log:
    """What the run did: the windows it populated, the states it saved."""

    def __init__(self, k, s):
        self.k, self.s = k, s
        self.windows, self.saves = [], []
        self.end = None
        self.nsave = 0

    def populate(self, **a):
        k, s = self.k, self.s
        w = window(k, s, a)
        self.windows.append((*w, a))
        k.ensure("window-starts-at-the-current-time", close(k, w[0], s._time), lambda: (w, s._time))
        k.ensure("window-is-not-empty", w[0] > w[1], lambda: w)
        self.end = w[1]
        return []

    def save(self, **a):
        self.nsave = self.nsave + 1
        self.saves.append((self.s._interval, self.s._time))
        if self.end is not None:
            self.k.ensure("the-saved-time-is-the-end-of-what-was-emplaced", close(self.k, self.s._time, self.end), lambda: (self.s._time, self.end))


def setup(k, p=None, **kw):
    p = p or Production.maker("powerlaw", N1_coef=N1, slope=SLOPE)
    s = simulation(p)
    s._config_readonly = True
    log = Log(k, s)
    object.__setattr__(s, "populate", log.populate)
    object.__setattr__(s, "save", log.save)
    return s, log


def rate(k, s, D):
    """Craters larger than D formed on the whole surface in 1 My."""
    c, a = N1 * np.float64(D) ** SLOPE, float(s.surface.area)
    return SNum(rv(c), float) * SNum(rv(a), float) if k.sym else c * a


def window(k, s, w):
    """The window of a call of populate, as times."""
    out = []
    for a, b in (("time_start", "diameter_number"), ("time_end", "diameter_number_end")):
        if w.get(a) is not None:
            out.append(w[a])
        elif w.get(b) is not None:
            out.append(w[b][1] / rate(k, s, w[b][0]))
        else:
            out.append(0.0)
    return out


def close(k, a, b, tol=1e-6):
    return k.eq(a, b, rtol=tol, atol=tol)


def spec(k, s, t1, t0, hows=("time_start", "age", "N_D", "diameter_number")):
    """A way of asking for the span from t1 to t0; returns the keyword arguments."""
    how = k.choice("how", hows)
    if how == "age":
        k.assume(t0 == 0.0)
        return {"age": t1}
    if how == "time_start":
        return {"time_start": t1, "time_end": t0}
    if how == "N_D":
        c = rate(k, s, 2000.0) / float(s.surface.area) * 1e12
        return {"N_D": (2.0, c * t1), "N_D_end": (2.0, c * t0)}
    c = rate(k, s, 5000.0)
    return {"diameter_number": (5000.0, c * t1), "diameter_number_end": (5000.0, c * t0)}


def span(k):
    t1 = k.real("t1", 1.0, 4000.0)
    t0 = k.real("t0", 0.0, 4000.0, hints=(0.0, 0.0, 0.0))
    k.assume(t0 <= t1 - 0.5)
    return t1, t0


def clocks(k, s, t1, t0, e0=0.0, tag=""):
    k.ensure("current-time" + tag, close(k, k.get(s, "time"), t0), lambda: (s.time, t0))
    k.ensure("elapsed-time" + tag, close(k, k.get(s, "elapsed_time"), e0 + t1 - t0), lambda: (s.elapsed_time, t1 - t0))
    k.ensure("elapsed-number" + tag, close(k, k.get(s, "elapsed_n1"), N1RATE * (e0 + t1 - t0)), lambda: (s.elapsed_n1, N1RATE * (t1 - t0)))


@scenario("C12", "single_interval", functions=FUNCS, models=MODELS, assumes=ASSUMES)
def s1(k):
    s, log = setup(k)
    t1, t0 = span(k)
    kw = spec(k, s, t1, t0)
    if k.bool("explicit"):
        kw["ninterval"] = 1
    k.call(s.run, **kw)
    k.ensure("one-window", len(log.windows) == 1)
    a, b, _ = log.windows[0]
    k.ensure("the-whole-span", k.and_(close(k, a, t1), close(k, b, t0)), lambda: (log.windows, t1, t0))
    clocks(k, s, t1, t0)
    k.ensure("interval-number", k.get(s, "interval") == 1)
    k.ensure("saved", log.saves[-1][0] == 1 and sum(x[0] == 1 for x in log.saves) == 1, lambda: log.saves)


def fresh_int(name):
    return SNum(z3.ToReal(z3.Int(name)), int)


def loop_contract(k, s, log, t1, t0, step, i0, e0=0.0, n=None, start=None):
    """The invariant of the loop of a run: where the clock is when iteration i starts, and that everything so far has been emplaced
    (populate has its own contract, checked at each call: its window starts at the clock)."""
    base = []

    def havoc():
        for a in ("time", "elapsed_time", "elapsed_n1"):
            object.__setattr__(s, "_" + a, fresh_real(a))
        object.__setattr__(s, "_interval", fresh_int("interval!"))
        log.end = fresh_real("end")
        log.nsave = fresh_int("nsave!")

    def inv(i):
        now = k.get(s, "time")
        if not base:
            base.append(log.nsave - i)
        nom = t1 - i * step
        if n is None:
            k.lemma("product and quotient", lambda i, a, d: z3.Implies(d > 0, z3.And((i < a / d) == (i * d < a), (i <= a / d) == (i * d <= a))), i, t1 - t0, step)
        else:
            k.lemma("fraction of a whole", lambda i, a, n: z3.Implies(z3.And(n > 0, a > 0), z3.And((i <= n) == (i * (a / n) <= a), (i < n) == (i * (a / n) < a))),
                    i, t1 - t0, n)
        clock = k.or_(k.and_(nom >= t0, now == nom), k.and_(nom < t0, now == t0))
        if start is not None:
            clock = k.or_(k.and_(i == start[0], now == start[1]), k.and_(i > start[0], clock))
        return [("clock-follows-the-intervals", clock),
                ("everything-up-to-the-clock-is-emplaced", k.eq(now, log.end)),
                ("elapsed-time", k.eq(k.get(s, "elapsed_time"), e0 + t1 - now)),
                ("elapsed-number", k.eq(k.get(s, "elapsed_n1"), N1RATE * (e0 + t1 - now))),
                ("interval-number", k.get(s, "interval") == i - i0),
                ("one-save-per-interval", log.nsave == base[0] + i)]
    k.invariant(havoc, inv)


@scenario("C12", "equal_time_intervals", functions=FUNCS, models=MODELS, assumes=ASSUMES, budget=200)
def s2(k):
    s, log = setup(k)
    t1, t0 = span(k)
    dt = k.real("dt", 0, lo_open=True, sample=(20.0, 4000.0))
    k.assume(k.and_(dt <= (t1 - t0) * (1 - 1e-6), dt * 200 >= t1 - t0))
    kw = {**spec(k, s, t1, t0), "time_interval": dt}
    if k.sym:
        log.end = t1
        loop_contract(k, s, log, t1, t0, dt, 0)
    k.call(s.run, **kw)
    clocks(k, s, t1, t0)
    k.ensure("everything-is-emplaced", close(k, log.end, t0), lambda: (log.windows, t0))
    n = k.get(s, "interval")
    k.ensure("number-of-intervals", k.and_(n * dt >= t1 - t0 - 1e-6 * dt, (n - 1) * dt < t1 - t0 + 1e-6 * dt), lambda: (n, t1, t0, dt))
    if not k.sym:
        k.ensure("starts-at-the-beginning", close(k, log.windows[0][0], t1))
        for a, b, _ in log.windows[:-1]:
            k.ensure("equal-durations", close(k, a - b, dt), lambda: (a, b, dt))
        k.ensure("one-save-per-interval", [x[0] for x in log.saves if x[0]] == list(range(1, len(log.windows) + 1)), lambda: log.saves)


@scenario("C12", "equal_number_intervals", functions=FUNCS, models=MODELS, assumes=ASSUMES, budget=200)
def s3(k):
    s, log = setup(k)
    t1, t0 = span(k)
    n = k.int("n", 2, 1000000 if k.sym else 60)
    kw = {**spec(k, s, t1, t0), "ninterval": n}
    step = (t1 - t0) / n
    if k.sym:
        log.end = t1
        loop_contract(k, s, log, t1, t0, step, 0, n=n)
    k.call(s.run, **kw)
    clocks(k, s, t1, t0)
    k.ensure("everything-is-emplaced", close(k, log.end, t0), lambda: (log.windows, t0))
    k.ensure("number-of-intervals", k.get(s, "interval") == n, lambda: (s.interval, n))
    if not k.sym:
        k.ensure("starts-at-the-beginning", close(k, log.windows[0][0], t1))
        for a, b, _ in log.windows:
            k.ensure("equal-numbers", close(k, a - b, step), lambda: (a, b, step))
        k.ensure("one-save-per-interval", [x[0] for x in log.saves if x[0]] == list(range(1, len(log.windows) + 1)), lambda: log.saves)


@scenario("C12", "resumed_run_does_the_rest_only", functions=FUNCS, models=MODELS, assumes=ASSUMES, budget=250)
def s4(k):
    s, log = setup(k)
    t1, t0 = span(k)
    mode = k.choice("mode", ["time_interval", "ninterval"])
    n = None
    if mode == "time_interval":
        dt = k.real("dt", 0, lo_open=True, sample=(20.0, 2000.0))
        k.assume(k.and_(dt <= (t1 - t0) * (1 - 1e-6), dt * 200 >= t1 - t0))
        kw = {"time_interval": dt}
    else:
        n = k.int("n", 2, 1000000 if k.sym else 60)
        dt = (t1 - t0) / n
        kw = {"ninterval": n}
    j = k.int("j", 0, 1000000 if k.sym else 60)
    f = k.real("f", 0.0, 0.999, hints=(0.0, 0.0, 0.5))
    tc = t1 - (j + f) * dt
    k.assume(k.and_(tc >= t0 + 1e-3 * dt, tc >= t0 + 1e-8 * (t1 - t0)))
    k.lemma("quotient of a product", lambda x, d: z3.Implies(d > 0, (x * d) / d == x), j + f, dt)
    if n is not None:
        k.lemma("less than the whole", lambda x, a, n: z3.Implies(z3.And(n > 0, a > 0), (x * (a / n) < a) == (x < n)), j + f, t1 - t0, n)
        k.lemma("quotient of numbers", lambda x, a, n, c: z3.Implies(z3.And(a > 0, n > 0, c > 0), c * (x * (a / n)) / (c * a / n) == x), j + f, t1 - t0, n,
                float(N1 * np.float64(1000.0) ** SLOPE))
        k.lemma("quotient of a fraction", lambda x, a, n: z3.Implies(z3.And(a > 0, n > 0), z3.And(x * (a / n) / (a / n) == x, a / n > 0)), j + f, t1 - t0, n)
    k.set(s, "time", tc)
    k.set(s, "interval", j)
    k.set(s, "elapsed_time", t1 - tc)
    k.set(s, "elapsed_n1", N1RATE * (t1 - tc))
    kw = {**spec(k, s, t1, t0, ("time_start", "age")), **kw}
    if k.sym:
        log.end = tc
        loop_contract(k, s, log, t1, t0, dt, 0, n=n, start=(j, tc))
    k.call(s.run, **kw)
    clocks(k, s, t1, t0)
    k.ensure("everything-is-emplaced", close(k, log.end, t0), lambda: (log.windows, t0))
    m = k.get(s, "interval")
    k.ensure("interval-number-continues", k.and_(m * dt >= t1 - t0 - 1e-6 * dt, (m - 1) * dt < t1 - t0 + 1e-6 * dt), lambda: (m, t1, t0, dt, tc))
    if not k.sym:
        k.ensure("starts-where-it-stopped", close(k, log.windows[0][0], tc), lambda: (log.windows, tc))
    done = (m, len(log.windows), log.nsave)
    if not k.sym:
        k.call(s.run, **kw)
        k.ensure("a-complete-run-is-not-repeated", (s.interval, len(log.windows), log.nsave) == done, lambda: (log.windows, done))


@scenario("C12", "contradictory_requests_are_rejected", functions=FUNCS, models=MODELS, assumes=ASSUMES)
def s5(k):
    s, log = setup(k)
    t = k.real("t", 1.0, 4000.0)
    u = k.real("u", 1.0, 4000.0)
    D, n = 5000.0, 10.0
    nd = {"N_D": (2.0, n)}
    dn = {"diameter_number": (D, n)}
    bad = k.choice("request", [
        {}, {"age": t, "time_start": u}, {"age": t, "time_end": 0.5}, {"age": t, **nd}, {"age": t, **dn}, {"time_start": t, **nd}, {"time_start": t, **dn},
        {**nd, **dn}, {"N_D_end": (2.0, n)}, {"time_end": 0.5}, {"N_D": 5.0}, {"N_D": (1.0, 2.0, 3.0)}, {"age": [t, u]},
        {"time_start": t, "time_end": t + u}, {"age": t, "ninterval": 0}, {"age": t, "ninterval": -3}, {"age": t, "ninterval": 2.5},
        {"age": t, "ninterval": 3, "time_interval": 0.3}, {"age": t, "time_interval": 0.0}, {"age": t, "time_interval": -u}, {"age": t, "time_interval": t + u},
        {"age": -t}, {"time_start": -t}, {"time_start": t, "time_end": -u}, {"N_D": (-2.0, n)}, {"N_D": (2.0, -n)}, {"diameter_number": (D, -n)},
        {"diameter_number": (-D, n)}, {"diameter_number": 7.0}])
    o = k.outcome(s.run, **bad)
    k.ensure("rejected", o.raised(ValueError, TypeError), lambda: (bad, o, log.windows))
    k.ensure("nothing-emplaced", log.windows == [] and log.nsave == 0, lambda: log.windows)
    k.ensure("clock-not-started", s._time is None and k.get(s, "interval") == 0 and k.get(s, "elapsed_time") == 0.0)


@scenario("C12", "time_does_not_run_backwards", functions=FUNCS, models=MODELS, assumes=ASSUMES)
def s6(k):
    s, log = setup(k)
    tc = k.real("tc", 1.0, 4000.0)
    t1 = k.real("t1", 0.5, 4000.0)
    k.set(s, "time", tc)
    k.set(s, "interval", 3)
    k.set(s, "elapsed_time", 7.0)
    k.set(s, "elapsed_n1", N1RATE * 7.0)
    if k.bool("younger_start"):
        k.assume(t1 < tc - 1e-6)
        o = k.outcome(s.run, age=t1)
        k.ensure("rejected", o.raised(RuntimeError, ValueError), lambda: (t1, tc, o))
        k.ensure("nothing-done", log.windows == [] and log.nsave == 0 and k.truth(k.get(s, "time") == tc) and k.get(s, "interval") == 3)
        return
    t0 = k.real("t0", 0.0, 4000.0)
    k.assume(t0 <= tc - 0.5)
    k.call(s.run, time_end=t0)
    k.ensure("continues-from-the-current-time", len(log.windows) == 1 and k.truth(k.and_(close(k, log.windows[0][0], tc), close(k, log.windows[0][1], t0))),
             lambda: (log.windows, tc, t0))
    clocks(k, s, tc, t0, e0=7.0)
    k.ensure("interval-number-continues", k.get(s, "interval") == 4)
