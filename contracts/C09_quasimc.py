"""C09: user-supplied (quasi-Monte Carlo) craters are dated by their metadata and merged without loss or reordering."""
import os
import pathlib
import shutil
import tempfile

import numpy as np

from cratermaker import Crater, Production
from contracts._common import NORM_CONTRACT, ROOT, ROOT_MODELS
from pyvc.core import fresh_real
from pyvc.kit import Kit, scenario

B = "cratermaker.components.production:Production."
DSTD = 1000.0


def crater(k, D, t=None, **kw):
    c = k.call(Crater, semimajor_axis=D / 2, semiminor_axis=D / 2, orientation=0.0, transient_diameter=D, projectile_diameter=D / 10, projectile_velocity=1e4,
               projectile_angle=45.0, projectile_mass=1.0, location=(0.0, 0.0), morphology_type="simple", time=t, id=None)
    for n, v in kw.items():
        k.set(c, n, v)
    return c


def size(k, n, hi=1e6):
    return k.real(n, 0, lo_open=True, sample=(1e3, hi))


def _times(it, self, diameters, time_start, time_end=0.0, **kw):
    """Contract of compute_time (C08): one time per crater, within the window."""
    k = Kit("sym", interp=it)
    out = []
    for _ in range(len(diameters)):
        v = fresh_real("time")
        k.assume(k.and_(v >= time_end, v <= time_start))
        out.append(v)
    return out


@scenario("C09", "merge", functions=[B + "quasimc_merge"], budget=250, contracts={B + "compute_time": _times}, max_paths=4000,
          bounded="every list of up to 2 random and 2 user-supplied craters, with arbitrary times and sizes")
def s1(k):
    p = k.call(Production.maker, "powerlaw", diameter_range=(10.0, 1e7))
    t0 = k.real("t0", 0, 4000)
    t1 = k.real("t1", 0, 4000)
    k.assume(t0 < t1)
    nr, nq = k.choice("nr", [0, 1, 2]), k.choice("nq", [0, 1, 2])
    R = [crater(k, size(k, f"rD{i}"), k.real(f"rt{i}", 0, 4500, hints=(0.0,))) for i in range(nr)]
    Q = [crater(k, size(k, f"qD{i}"), k.real(f"qt{i}", 0, 4500, hints=(0.0,))) for i in range(nq)]
    object.__setattr__(p, "_quasimc_craters", list(Q))
    if [id(c) for c in k.get(p, "quasimc_craters")] != [id(c) for c in Q]:
        return
    out = k.call(p.quasimc_merge, list(R), time_start=t1, time_end=t0)
    T = {id(c): k.get(c, "time") for c in R + Q}
    D = {id(c): k.get(c, "diameter") for c in R + Q}

    def inside(c):
        return k.truth(k.and_(T[id(c)] <= t1, T[id(c)] > t0))
    check_merge(k, R, Q, out, T, D, inside)


def check_merge(k, R, Q, out, T, D, inside):
    ids = [id(c) for c in out]
    k.ensure("no-duplicates", len(set(ids)) == len(ids), lambda: ids)
    k.ensure("only-known-craters", all(i in T for i in ids))
    q_in = [c for c in Q if inside(c)]
    r_in = [c for c in R if inside(c)]
    k.ensure("every-user-crater-of-the-window-is-there", all(id(c) in ids for c in q_in), lambda: (len(q_in), ids))
    k.ensure("nothing-outside-the-window", all(any(c is d for d in q_in + r_in) for c in out))
    lost = [c for c in r_in if id(c) not in ids]
    k.ensure("one-for-one-replacement", len(out) == max(len(r_in) - len(lost), 0) + len(q_in) and len(lost) <= len(q_in), lambda: (len(r_in), len(q_in), len(out)))
    for i in range(1, len(out)):
        k.ensure("oldest-first", T[ids[i]] <= T[ids[i - 1]])
    if q_in:
        for c in lost:    # a random crater gives way only to a user crater no larger than itself
            k.ensure("replaced-by-no-larger", k.or_(*[D[id(q)] <= D[id(c)] for q in q_in]))
    if not q_in:
        k.ensure("random-craters-kept", len(lost) == 0)


@scenario("C09", "merge_of_longer_lists", functions=[B + "quasimc_merge"], search_only="generated lists of up to 30 random and 12 user-supplied craters", search_s=4)
def s1b(k):
    r = np.random.default_rng(k.int("seed", 0, 10**6))
    p = Production.maker("powerlaw", diameter_range=(10.0, 1e7))
    t0, t1 = sorted(r.uniform(0, 4000, 2))
    R = [crater(k, float(r.uniform(1e3, 1e5)), float(r.uniform(0, 4500))) for _ in range(r.integers(0, 30))]
    Q = [crater(k, float(r.uniform(1e3, 1e5)), float(r.uniform(0, 4500)), production_time=(1000.0, 0.0)) for _ in range(r.integers(0, 12))]
    if Q:
        p.quasimc_craters = [crater(k, c.diameter, production_time=(c.time, 0.0), name=str(i)) for i, c in enumerate(Q)]
        Q = list(p.quasimc_craters)
    out = p.quasimc_merge(list(R), time_start=t1, time_end=t0)
    T = {id(c): c.time for c in R + Q}
    D = {id(c): c.diameter for c in R + Q}
    check_merge(k, R, Q, out, T, D, lambda c: t0 < T[id(c)] <= t1)


@scenario("C09", "undated_craters_are_dated_in_the_window", functions=[B + "quasimc_merge", B + "compute_time"],
          search_only="generated lists of up to 10 craters without a time", search_s=3)
def s1c(k):
    r = np.random.default_rng(k.int("seed", 0, 10**6))
    p = Production.maker(k.choice("m", ["powerlaw", "neukum"]), target="Moon", rng_seed=3, diameter_range=(10.0, 1e7))
    t0, t1 = sorted(r.uniform(0, 4000, 2))
    R = [crater(k, float(r.uniform(1e3, 1e5))) for _ in range(r.integers(0, 10))]
    out = p.quasimc_merge(list(R), time_start=t1, time_end=t0)
    k.ensure("all-kept", sorted(c.diameter for c in out) == sorted(c.diameter for c in R))
    k.ensure("dated-in-the-window", all(t0 - 1e-9 <= c.time <= t1 + 1e-9 for c in out))
    k.ensure("oldest-first", all(a.time >= b.time for a, b in zip(out[:-1], out[1:], strict=True)))
    k.ensure("originals-untouched", all(c.time is None for c in R))


@scenario("C09", "not_craters_rejected", functions=[B + "quasimc_merge", B + "quasimc_craters"])
def s2(k):
    p = k.call(Production.maker, "powerlaw")
    for bad in ("abc", 3, [1.0], [None], {"a": 1}):
        k.ensure("merge-rejects", k.outcome(p.quasimc_merge, bad, time_start=10.0).raised(ValueError, TypeError), bad)
        k.ensure("assignment-rejects", k.set_outcome(p, "quasimc_craters", bad).raised(TypeError, ValueError), bad)
    k.ensure("list-empty", k.get(p, "quasimc_craters") == [])


@scenario("C09", "certain_dates_are_exact", functions=[B + "quasimc_craters", B + "_process_quasimc_craters", B + "__init__", B + "D_conversion_factor", B + "N_conversion_factor",
                                                         "cratermaker.components.production.powerlaw:PowerLawProduction.__init__"], models=ROOT_MODELS, contracts=NORM_CONTRACT,
          assumes=[ROOT], budget=100)
def s3(k):
    gen = k.choice("gen", ["crater", "projectile"])
    D = size(k, "D")
    t = k.real("t", 0, 4000)
    how = k.choice("how", ["time", "N(D)"])
    kw = dict(N1_coef=7.883e-3, slope=-3.328, generator_type=gen)
    if how == "time":
        c = crater(k, D, production_time=(t, 0.0))
    else:
        # the units of D and N are those of the production function
        dfac, nfac = k.choice("units", [(1000.0, 1e12), (1.0, 1e12), (1000.0, 1e6), (1.0, 1.0), (None, None)])
        kw.update(D_conversion_factor=dfac, N_conversion_factor=nfac)
        dm = k.real("Dm", 0, lo_open=True, sample=(1e3, 1e5))
        n = 7.883e-3 * k.f("pow", dm, -3.328) * t
        c = crater(k, D, production_ND=(dm / (dfac or 1000.0), n * (nfac or 1e12), 0.0))
    if k.choice("given", ["later", "at the start"]) == "later":
        p = k.call(Production.maker, "powerlaw", **kw)
        hi0 = k.get(p, "diameter_range")[1]
        k.set(p, "quasimc_craters", [c])
    else:
        p = k.call(Production.maker, "powerlaw", quasimc_craters=[c], **kw)
        hi0 = np.inf
    out = k.get(p, "quasimc_craters")
    k.ensure("kept", len(out) == 1)
    k.ensure("dated-as-given", k.eq(k.get(out[0], "time"), t, rtol=1e-5, atol=1e-5), lambda: (how, out[0].time, t))
    k.ensure("same-crater", k.eq(k.get(out[0], "diameter"), D))
    k.ensure("original-untouched", k.get(c, "time") is None)
    hi = k.get(p, "diameter_range")[1]
    own = D if gen == "crater" else k.get(c, "projectile_diameter")      # the size the random population is drawn in
    k.ensure("random-craters-stay-smaller", k.eq(hi, own), lambda: (gen, hi, hi0, own))


@scenario("C09", "uncertain_dates", functions=[B + "quasimc_craters", B + "_process_quasimc_craters"], models=ROOT_MODELS, contracts=NORM_CONTRACT, assumes=[ROOT],
          budget=100)
def s4(k):
    rng = k.rng()
    p = k.call(Production.maker, "powerlaw", N1_coef=7.883e-3, slope=-3.328, rng=rng)
    t = k.real("t", 0, 4000)
    sig = k.real("sig", 0, 500, lo_open=True)
    c = crater(k, size(k, "D"), production_time=(t, sig))
    k.set(p, "quasimc_craters", [c])
    out = k.get(p, "quasimc_craters")
    T = k.get(out[0], "time")
    k.ensure("never-in-the-future", T >= 0, lambda: T)
    z = k.inputs.get("rng.normal1")
    if z is not None:
        k.ensure("drawn-about-the-mean", k.or_(k.eq(T, t + sig * z), k.and_(t + sig * z <= 0, T == 0)))


@scenario("C09", "dated_lists", functions=[B + "quasimc_craters", B + "_process_quasimc_craters"], search_only="generated lists of 1..8 craters with times, "
          "densities, sequence numbers or none of them, on both models", search_s=8)
def s5(k):
    r = np.random.default_rng(k.int("seed", 0, 10**6))
    p = Production.maker(str(r.choice(["powerlaw", "neukum"])), target="Moon", rng_seed=int(r.integers(1000)))
    p.diameter_range = (1e3, 5e5)
    cs, want = [], {}
    for i in range(r.integers(1, 9)):
        kw = {}
        seq = int(r.integers(1, 5)) if r.random() < 0.5 else None
        base = 4200.0 - (seq or r.integers(1, 5)) * float(r.choice([100.0, 300.0]))
        kind = r.integers(0, 4)
        D = float(r.uniform(1e4, 4e5))
        if kind == 0:
            sg = float(r.choice([0.0, 10.0, 80.0]))
            kw["production_time"] = (base, sg)
            if seq is None:
                want[D] = (base - 9 * sg, base + 9 * sg)
        elif kind == 1:
            sg = float(r.choice([0.0, 0.05]))
            n = float(np.ravel(p.function(2e4, base))[0]) * 1e12
            kw["production_ND"] = (20.0, n, sg * n)
            if seq is None:
                want[D] = (base * (1 - 9 * sg) - 1e-3, base * (1 + 9 * sg) + 1e-3) if type(p).__name__.startswith("Power") or sg == 0 else (0, 4500)
        if seq is not None:
            kw["production_sequence"] = seq
        if kw:
            want.setdefault(D, (0.0, 4500.0))
        cs.append(crater(k, D, name=str(i), **kw))
    try:
        p.quasimc_craters = cs
    except (ValueError, RuntimeError):     # contradictory or unanchored sequences are refused
        return
    out = p.quasimc_craters
    k.ensure("dated-craters-kept", sorted(c.diameter for c in out) == sorted(want), lambda: (sorted(want), [c.diameter for c in out]))
    for c in out:
        lo, hi = want[c.diameter]
        k.ensure("date-agrees-with-the-metadata", max(lo, 0.0) - 1e-3 <= c.time <= hi + 1e-3, lambda c=c: (c.time, lo, hi))
    k.ensure("oldest-first", all(a.time >= b.time for a, b in zip(out[:-1], out[1:], strict=True)))
    for a in out:
        for b in out:
            if a.production_sequence is not None and b.production_sequence is not None and a.production_sequence < b.production_sequence:
                k.ensure("sequence-order", a.time >= b.time - 1e-3, lambda a=a, b=b: (a.production_sequence, a.time, b.production_sequence, b.time))
    if out:
        lim = p.diameter_range[1]
        k.ensure("random-craters-stay-smaller", lim <= min(c.diameter for c in out) + 1e-9 and lim >= min([5e5] + [c.diameter for c in out]) - 1e-9,
                 lambda: (lim, [c.diameter for c in out]))


@scenario("C09", "craters_of_a_file", functions=[B + "__init__", B + "quasimc_file", B + "quasimc_craters", B + "maker"], search_only="the craters are read from a file by the real code",
          bounded="generated files of one to five craters with exact dates, densities or sequence numbers", search_s=6)
def s6(k):
    r = np.random.default_rng(k.int("seed", 0, 10**6))
    model, gen = k.choice("m", ["powerlaw", "neukum"]), k.choice("gen", ["crater", "projectile"])
    rows = []
    for i in range(int(r.integers(1, 6))):
        rows.append((f"u{i}", float(r.uniform(1e4, 4e5)), float(r.uniform(-80, 80)), float(r.uniform(-170, 170)), 4200.0 - 50 * i - float(r.integers(0, 40))))
    d = tempfile.mkdtemp(prefix="tmp-", dir=os.environ.get("PYVC_SCRATCH"))
    try:
        f = os.path.join(d, "user.csv")
        with open(f, "w") as h:
            exact = k.choice("stdev", ["given", "absent"])
            h.write("name,diameter,latitude,longitude,production_time" + (",production_time_stdev" if exact == "given" else "") + "\n")
            h.writelines(",".join(map(str, (*x, 0.0) if exact == "given" else x)) + "\n" for x in rows)
        kw = {"generator_type": gen} if model == "powerlaw" else {"target": "Moon"}
        how = k.choice("how", ["at the start", "later", "as a path"])
        if how == "later":
            p = k.call(Production.maker, model, rng_seed=1, **kw)
            k.set(p, "quasimc_file", f)
        else:
            p = k.call(Production.maker, model, rng_seed=1, quasimc_file=f if how == "at the start" else pathlib.Path(f), **kw)
        k.ensure("the-file-is-known", str(k.get(p, "quasimc_file")) == f, lambda: p.quasimc_file)
        got = [(c.name, c.diameter, c.location[1], c.location[0], c.time) for c in k.get(p, "quasimc_craters")]
        k.ensure("every-crater-of-the-file-oldest-first", [g[0] for g in got] == [x[0] for x in sorted(rows, key=lambda x: -x[4])], lambda: (got, rows))
        for g in got:
            x = next(x for x in rows if x[0] == g[0])
            k.ensure("as-written", np.allclose(g[1:], x[1:], rtol=1e-9, atol=1e-5), lambda g=g, x=x: (g, x))
        k.set(p, "diameter_range", (1.0, k.get(p, "diameter_range")[1]))
        out = k.call(p.quasimc_merge, [], time_start=4300.0, time_end=0.0)
        k.ensure("merged-into-a-population", [c.name for c in out] == [g[0] for g in got], lambda: out)
        k.ensure("not-both", k.outcome(Production.maker, model, quasimc_file=f, quasimc_craters=[crater(k, 1e4, production_time=(1.0, 0.0))], **kw).raised(ValueError))
        k.ensure("missing-file-refused", k.set_outcome(p, "quasimc_file", f + "x").raised(FileNotFoundError))
        k.ensure("kept-after-a-refusal", [c.name for c in p.quasimc_craters] == [g[0] for g in got])
    finally:
        shutil.rmtree(d, ignore_errors=True)
