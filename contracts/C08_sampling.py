"""C08: sampled populations respect the requested window, size range and expected number."""
import math

import numpy as np

from cratermaker import Production
from contracts._common import ROOT, ROOT_MODELS
from pyvc.core import SNum, SymBase, fresh_real
from pyvc.kit import Kit, scenario
from pyvc.models import oarr

B = "cratermaker.components.production:Production."
SIZE = "cratermaker.utils.montecarlo_utils:get_random_size"


def _logspace(it, args, kwargs):
    """numpy.logspace: from 10**a to 10**b, increasing (the inner points stay abstract)."""
    a, b = args[:2]
    if not isinstance(a, SymBase) and not isinstance(b, SymBase):
        return NotImplemented
    num = args[2] if len(args) > 2 else kwargs.get("num", 50)
    k = Kit("sym", interp=it)
    out = np.empty(num, dtype=object)
    lo, hi = k.f("pow", 10.0, a), k.f("pow", 10.0, b)
    for i in range(num):
        out[i] = SNum((lo if i == 0 else hi if i == num - 1 else fresh_real("d")).e, np.float64)
    for i in range(1, num):
        k.assume(out[i] >= out[i - 1])
    return out


def _csfd(it, self, diameter, **kw):
    """The power law on scalars; on the sampling grid its ends are exact and it is positive and decreasing (C07)."""
    k = Kit("sym", interp=it)
    N1, sl = k.get(self, "N1_coef"), k.get(self, "slope")
    if not isinstance(diameter, np.ndarray):
        return N1 * k.f("pow", diameter, sl)
    d = oarr(diameter)
    out = np.empty(d.shape, dtype=object)
    for i in range(d.size):
        v = N1 * k.f("pow", d[i], sl) if i in (0, d.size - 1) else fresh_real("n")
        out[i] = SNum(v.e, np.float64)
    for i in range(1, d.size):
        k.assume(k.and_(out[i] > 0, out[i] <= out[i - 1]))
    return out


def _size(it, diameters=None, cdf=None, size=None, mu=None, **kw):
    """Contract of the size sampler (C02): a Poisson number of sizes with the given mean, within the table."""
    k = Kit("sym", interp=it)
    SEEN.append(dict(diameters=diameters, cdf=cdf, mu=mu, size=size, rng=kw.get("rng")))
    n = k.choice("ncraters", [0, 2])
    out = np.empty(n, dtype=object)
    for i in range(n):
        v = fresh_real("drawn")
        k.assume(k.and_(v >= oarr(diameters)[0], v <= oarr(diameters)[-1]))
        out[i] = SNum(v.e, np.float64)
    return out if n else np.empty(0)


SEEN = []
MODELS = {**ROOT_MODELS, np.logspace: _logspace}
CONTRACTS = {SIZE: _size, "cratermaker.components.production.powerlaw:PowerLawProduction.csfd": _csfd}


def spy_times(p, log, val):
    """Stands in for compute_time: records the window it is asked for."""
    def compute_time(diameters, time_start, time_end=0.0, **kw):
        log.append((diameters, time_start, time_end))
        return val
    object.__setattr__(p, "compute_time", compute_time)


def powerlaw(k, **kw):
    return k.call(Production.maker, "powerlaw", N1_coef=k.real("N1", 0, lo_open=True, sample=(1e-4, 1e-2)),
                  slope=k.real("slope", -5, 0, hi_open=True, sample=(-4, -2)), **kw)


def affordable(k, n):
    """Concrete runs draw the craters for real."""
    if not k.sym:
        k.assume(n < 1e5)


def dens(k, p, D, t):
    return k.get(p, "N1_coef") * k.f("pow", D, k.get(p, "slope")) * t


@scenario("C08", "window_from_any_specification", functions=[B + "sample", B + "_validate_sample_args", B + "age_from_D_N"], models=MODELS,
          contracts=CONTRACTS, budget=200, assumes=[ROOT, "get_random_size carries its contract C02"])
def s1(k):
    p = powerlaw(k)
    lo = k.real("lo", 0, lo_open=True, sample=(500.0, 2e3))
    hi = k.real("hi", 0, lo_open=True, sample=(2e3, 1e5))
    k.assume(lo <= hi * (1 - 1e-6))
    area = k.real("area", 0, lo_open=True, sample=(1e9, 1e12))
    t1 = k.real("t1", 0, 4000, lo_open=True, sample=(1, 4000))
    t0 = k.real("t0", 0, 4000, sample=(0, 4000))
    k.assume(t0 <= t1 * (1 - 1e-6))
    Dr = k.real("Dr", 0, lo_open=True, sample=(1e2, 1e5))
    De = k.real("De", 0, lo_open=True, sample=(1e2, 1e5))
    kw = {"diameter_range": (lo, hi), "area": area}
    start = k.choice("start", ["age", "time_start", "N_D", "diameter_number"])
    if start in ("age", "time_start"):
        kw[start] = t1
    elif start == "N_D":
        kw["N_D"] = (Dr / 1000.0, dens(k, p, Dr, t1) * 1e12)
    else:
        kw["diameter_number"] = (Dr, dens(k, p, Dr, t1) * area)
    end = k.choice("end", ["none", "time_end", "N_D_end", "diameter_number_end", "diameter_number_end elsewhere"])
    if end == "none":
        t0 = 0.0
    elif end == "time_end":
        kw["time_end"] = t0
    elif end == "N_D_end":
        kw["N_D_end"] = (De / 1000.0, dens(k, p, De, t0) * 1e12)
    elif end == "diameter_number_end":
        De = Dr if start == "diameter_number" else 1000.0
        kw["diameter_number_end"] = (De, dens(k, p, De, t0) * area)
    else:
        kw["diameter_number_end"] = (De, dens(k, p, De, t0) * area)
    del SEEN[:]
    log = []
    val = object()
    spy_times(p, log, val)
    affordable(k, dens(k, p, lo, t1) * area)
    d, t = k.call(p.sample, **kw)
    if len(d) == 0:
        k.ensure("nothing-drawn", len(t) == 0)
    else:
        k.ensure("one-window", len(log) == 1 and t is val and log[0][0] is d)
        ws, we = log[0][1:]
        k.ensure("window-start", k.eq(ws, t1, rtol=1e-6, atol=1e-6), lambda: (start, end, ws, t1))
        k.ensure("window-end", k.eq(we, t0, rtol=1e-6, atol=1e-6), lambda: (start, end, we, t0))
        for x in list(d):
            k.ensure("within-the-size-range", k.and_(k.le(lo, x, rtol=1e-6), k.le(x, hi, rtol=1e-6)), lambda: (lo, hi, x))
    if k.sym:
        a = SEEN[-1]
        k.ensure("expected-number", k.eq(a["mu"], (dens(k, p, lo, t1) - dens(k, p, lo, t0)) * area))
        k.ensure("table-spans-the-range", k.and_(k.eq(oarr(a["diameters"])[0], lo), k.eq(oarr(a["diameters"])[-1], hi)))
        k.ensure("own-generator", a["rng"] is k.get(p, "rng"))


@scenario("C08", "range_defaults_to_the_models_own", functions=[B + "sample", B + "diameter_range"], models=MODELS, contracts=CONTRACTS,
          assumes=["get_random_size carries its contract C02"])
def s2(k):
    lo = k.real("lo", 0, lo_open=True, sample=(500.0, 2e3))
    hi = k.real("hi", 0, lo_open=True, sample=(2e3, 1e5))
    k.assume(lo <= hi * (1 - 1e-6))
    p = powerlaw(k, diameter_range=(lo, hi))
    dr = k.get(p, "diameter_range")
    k.ensure("reads-back", k.and_(dr[0] == lo, dr[1] == hi))
    log = []
    spy_times(p, log, [])
    t1, area = k.real("t", 1, 1000), k.real("area", 0, lo_open=True, sample=(1.0, 1e10))
    affordable(k, dens(k, p, lo, t1) * area)
    d, t = k.call(p.sample, time_start=t1, area=area)
    for x in list(d):
        k.ensure("within-the-models-range", k.and_(k.le(lo, x, rtol=1e-6), k.le(x, hi, rtol=1e-6)), lambda: (lo, hi, x))
    q = k.call(Production.maker, "powerlaw")
    o = k.outcome(q.sample, time_start=10.0, area=1.0)
    k.ensure("unset-range-rejected", o.raised(ValueError), lambda: o)
    for bad in ((1.0,), (1.0, 2.0, 3.0), 5.0, "ab c"):
        o = k.set_outcome(q, "diameter_range", bad)
        k.ensure("not-a-pair-rejected", o.raised(TypeError, ValueError), lambda: (bad, o))


BAD = ["no start", "two starts", "two starts N_D", "two ends", "two ends N_D", "range of one", "min zero or less", "max below min", "negative area",
       "number pair of one", "negative number", "negative number diameter", "end pair of one", "window reversed", "array age", "compute_time"]


@scenario("C08", "contradictory_requests_rejected", functions=[B + "sample", B + "_validate_sample_args", B + "_validate_age"], models=MODELS,
          contracts=CONTRACTS, budget=100, assumes=[ROOT])
def s3(k):
    p = powerlaw(k)
    t = k.real("t", 0, 4000, lo_open=True)
    x = k.real("x", 0, sample=(0, 1e5), hints=(0.0,))
    D = k.real("D", 0, lo_open=True, sample=(1, 1e5))
    n = k.real("n", 0, lo_open=True, sample=(1e-9, 1e-6))
    kw = {"diameter_range": (10.0, 100.0), "area": 1e3, "time_start": t}
    case = k.choice("case", BAD)
    both = (ValueError,)
    if case == "no start":
        del kw["time_start"]
    elif case == "two starts":
        kw["diameter_number"] = (D, n)
    elif case == "two starts N_D":
        kw["N_D"] = (D, n)
    elif case == "two ends":
        kw.update(time_end=0.0, diameter_number_end=(D, n))
    elif case == "two ends N_D":
        kw.update(time_end=0.0, N_D_end=(D, n))
    elif case == "range of one":
        kw["diameter_range"] = (D,)
    elif case == "min zero or less":
        kw["diameter_range"] = (-x, D)
    elif case == "max below min":
        kw["diameter_range"] = (D, D * k.real("f", 0, 1, hi_open=True))
    elif case == "negative area":
        k.assume(x > 0)
        kw["area"] = -x
    elif case == "number pair of one":
        del kw["time_start"]
        kw["diameter_number"] = (D,)
    elif case == "negative number":
        del kw["time_start"]
        kw["diameter_number"] = (D, -n)
    elif case == "negative number diameter":
        del kw["time_start"]
        kw["diameter_number"] = (-D, n)
    elif case == "end pair of one":
        kw["diameter_number_end"] = (D,)
    elif case == "window reversed":
        kw["time_end"] = t + D
    elif case == "array age":
        kw["time_start"] = [t, t]
    else:
        kw["compute_time"] = "yes"
        both = (TypeError, ValueError)
    o = k.outcome(p.sample, **kw)
    k.ensure("rejected", o.raised(*both), lambda: (case, kw, o))


@scenario("C08", "sizes_only", functions=[B + "sample"], models=MODELS, contracts=CONTRACTS)
def s4(k):
    p = powerlaw(k)
    log = []
    spy_times(p, log, [])
    t1, area = k.real("t", 1, 1000), k.real("area", 0, lo_open=True, sample=(1.0, 1e11))
    affordable(k, dens(k, p, 1e3, t1) * area)
    d, t = k.call(p.sample, time_start=t1, diameter_range=(1e3, 1e4), area=area, compute_time=False)
    k.ensure("no-times", len(t) == 0 and not log)


@scenario("C08", "times_lie_in_the_window", functions=[B + "compute_time"], search_only="the lookup over 1000 subintervals of the window: generated "
          "windows, diameters and generator draws (draws at both ends of [0, 1) included), both models", search_s=4)
def s5(k):
    m = k.choice("m", ["Moon", "Mars", "power law"])
    rng = k.rng()
    p = Production.maker("powerlaw", rng=rng) if m == "power law" else Production.maker("neukum", target=m, rng=rng)
    t0 = k.real("t0", 0, 4499.0)
    dt = k.real("dt", 1e-3, 4500.0, log=True)
    t1 = min(4500.0, t0 + dt)
    n = k.int("n", 1, 3)
    d = np.array([k.real(f"d{i}", 10.0, 1e5, log=True) for i in range(n)])
    t = np.atleast_1d(p.compute_time(d, t1, t0))
    k.ensure("one-time-each", t.size == n, lambda: t)
    k.ensure("in-the-window", bool(np.all((t >= t0 - 1e-9 * t1) & (t <= t1 * (1 + 1e-12)))), lambda: (t0, t1, t))
    k.ensure("oldest-first", bool(np.all(np.diff(t) <= 0)), lambda: t)
    u = k.inputs.get("rng.uniform1")
    if n == 1 and u is not None:   # the draw is the fraction of the production that is younger than the chosen subinterval
        f = lambda x: float(np.asarray(p.function(float(d[0]), x, t0)).ravel()[0])  # noqa: E731
        w = (t1 - t0) / 999 * 1.001 + 1e-9
        tot = f(t1)
        lo, hi = f(max(t0, t[0] - w)) / tot, f(min(t1, t[0] + w)) / tot
        k.ensure("follows-the-production-function", lo - 1e-6 <= u <= hi + 1e-6, lambda: (u, lo, hi, t0, t1, t))


@scenario("C08", "times_follow_the_production_function", functions=[B + "compute_time"], search_only="Kolmogorov-Smirnov distance of 20000 drawn "
          "times from the production function over generated windows", search_s=4, search_n=40)
def s6(k):
    m = k.choice("m", ["Moon", "Mars", "power law"])
    p = Production.maker("powerlaw", rng_seed=7) if m == "power law" else Production.maker("neukum", target=m, rng_seed=7)
    t1 = k.real("t1", 100.0, 4400.0)
    t0 = t1 * k.real("f", 0.0, 0.9)
    n = 4000
    t = np.sort(p.compute_time(np.full(n, 1e3) if k.bool("same") else np.geomspace(10.0, 1e5, n), t1, t0))
    F = p.function(1e3, t, np.full_like(t, t0)) / float(np.asarray(p.function(1e3, t1, t0)).ravel()[0])
    dist = float(np.max(np.abs(np.ravel(F) - (np.arange(n) + 0.5) / n)))
    k.ensure("distribution", dist < 2.5 / math.sqrt(n), lambda: (m, t0, t1, dist))


@scenario("C08", "populations_end_to_end", functions=[B + "sample", SIZE, B + "compute_time"], search_only="generated requests on the real models: "
          "sizes, times and counts (count within 6 standard deviations of its Poisson mean)", search_s=5)
def s7(k):
    m = k.choice("m", ["Moon", "Mars", "power law", "projectiles"])
    seed = k.int("seed", 0, 10**6)
    p = (Production.maker("powerlaw", rng_seed=seed) if m == "power law" else Production.maker("neukum", target="Moon", version="projectile", rng_seed=seed)
         if m == "projectiles" else Production.maker("neukum", target=m, rng_seed=seed))
    lo = k.real("lo", 10.0, 1e4, log=True)
    hi = lo * k.real("r", 1.5, 100.0)
    t1 = k.real("t1", 1.0, 4400.0)
    t0 = t1 * k.real("f", 0.0, 0.95)
    want = k.real("want", 0.01, 3000.0, log=True)
    area = want / float(np.asarray(p.function(lo, t1, t0)).ravel()[0])
    d, t = p.sample(time_start=t1, time_end=t0, diameter_range=(lo, hi), area=area)
    k.ensure("one-time-each", len(d) == len(t))
    k.ensure("sizes-in-range", bool(np.all((d >= lo * (1 - 1e-9)) & (d <= hi * (1 + 1e-9)))), lambda: (lo, hi, d))
    k.ensure("times-in-window", bool(np.all((t >= t0 * (1 - 1e-9)) & (t <= t1 * (1 + 1e-9)))), lambda: (t0, t1, t))
    k.ensure("expected-number", abs(len(d) - want) <= 6 * math.sqrt(want) + 6, lambda: (want, len(d)))
    d2, t2 = p.sample(time_start=t1, time_end=t0, diameter_range=(lo, hi), area=0.01 * area, compute_time=False)
    k.ensure("no-times-unless-asked", len(t2) == 0)
