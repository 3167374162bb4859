"""Runs the contracts of one property against /repo's working tree and reports.

  exit 0   every obligation of every contract was discharged, or (labelled bounded in the evidence) a bounded stand-in
           found no failing input
  exit 1   VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
from __future__ import annotations

import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .boot import REPO, boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "pyvc (this directory): path explorer and AST interpreter of the Python subset, cross-checked against CPython by "
    "re-running every contract concretely on generated inputs in the same run",
    "z3 5.3 (python bindings); second opinions z3 nlsat and cvc5 1.1.2",
    "floating-point numbers are treated as mathematical reals in the deductive reading (the concrete reading uses the "
    "real floats with the tolerances stated in each contract)",
    "axioms of sqrt/exp/log/sin/cos/arcsin/arccos/arctan2/pow listed in pyvc/core.py (instances, true of the real "
    "functions)",
    "models of numpy/math/builtins primitives in pyvc/models.py",
]


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def perturb(values, rnd):
    out = dict(values)
    for k, v in values.items():
        if isinstance(v, float) and not isinstance(v, bool):
            p = rnd.random()
            if p < 0.35:
                continue
            if p < 0.7:
                out[k] = v * (1 + rnd.gauss(0, 1) * 10 ** rnd.uniform(-6, 0))
            elif p < 0.85:
                out[k] = v + rnd.gauss(0, 1) * 10 ** rnd.uniform(-6, 2)
            else:
                del out[k]
        elif rnd.random() < 0.1:
            del out[k]
    return out


def run_one(scen, tier, seed):
    """Worker: one scenario, symbolic and concrete. Returns a plain dict."""
    from . import core, kit
    t0 = time.time()
    mult = 1 if tier == "quick" else 6
    out = {"name": scen.name, "functions": list(scen.functions), "bounded": scen.bounded,
           "search_only": scen.search_only, "assumes": list(scen.assumes), "evaluations": 0, "skipped": 0,
           "witness": None, "samples": [], "labels": {}, "sym": None, "error": None}
    os.chdir(tempfile.mkdtemp(prefix="pyvc-", dir=os.environ.get("PYVC_SCRATCH")))
    rnd = random.Random(f"{seed}/{scen.prop}/{scen.name}")

    def concrete(mode, values=None, s=0):
        status, info, inputs, checked = kit.run_concrete(scen, mode, values, s)
        for lb, n in checked.items():
            out["labels"][lb] = out["labels"].get(lb, 0) + n
        if status == "skip":
            out["skipped"] += 1
        else:
            out["evaluations"] += 1
            if len(out["samples"]) < 2:
                out["samples"].append(jsonable(inputs))
        if status == "violated" and out["witness"] is None:
            out["witness"] = {"scenario": scen.name, "mode": mode, "inputs": jsonable(inputs), "seed": s,
                              "label": info["label"], "detail": str(info.get("detail"))[:2000],
                              "trace": info.get("trace")}
        return status

    def search(seconds, n):
        t1 = time.time() + seconds
        i = 0
        while i < n and time.time() < t1 and out["witness"] is None:
            concrete("search", None, rnd.randrange(2**31))
            i += 1

    try:
        # 1. concrete reading: cross-check of the contract and of the engine against CPython
        search(scen.search_s * mult, scen.search_n * mult)
        # 2. deductive reading
        if scen.search_only is None:
            res = kit.run_symbolic(scen, budget=scen.budget * mult)
            out["sym"] = {"paths": res.paths, "infeasible": res.infeasible, "obligations": res.obligations,
                          "discharged": res.discharged, "labels": res.labels, "failures": jsonable(res.failures),
                          "unknown": res.unknown, "unsupported": res.unsupported, "budget": res.budget,
                          "solver_s": round(res.solver_s, 2), "queries": res.branch_queries,
                          "backends": res.backends, "slowest": res.slowest, "proved": res.proved,
                          "interpreted": sorted(res.funcs)}
            # 3. counter-models are replayed against the real code in CPython
            for f in res.failures:
                if out["witness"] is not None:
                    break
                concrete("replay", dict(f["inputs"]), 1)
            if res.failures and out["witness"] is None:
                t1 = time.time() + (8 if tier == "quick" else 40)
                while time.time() < t1 and out["witness"] is None:
                    f = rnd.choice(res.failures)
                    concrete("replay", perturb(f["inputs"], rnd), rnd.randrange(2**31))
                search(8 * mult, 10**6)
            if (res.unsupported or res.unknown or res.budget) and out["witness"] is None:
                # the bounded stand-in gets more time when the proof did not go through
                search(max(6, 2 * scen.search_s) * mult, 10**6)
    except BaseException as e:  # an error of the machinery, reported as such
        if isinstance(e, KeyboardInterrupt):
            raise
        out["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def _child(scen, tier, seed, conn):
    try:
        if not os.environ.get("PYVC_LOUD"):      # what the code under test prints is not the check's output
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
        out = run_one(scen, tier, seed)
    except BaseException as e:
        out = {"name": scen.name, "error": f"{type(e).__name__}: {e}"}
    sys.stdout.flush()
    conn.send(out)
    conn.close()
    os._exit(0)


def run_all(scens, tier, seed, jobs=8):
    """One forked process per scenario (the solver state and the heap of the code under test stay separate)."""
    ctx = mp.get_context("fork")
    pending = sorted(scens, key=lambda s: -s.budget)
    running, results = [], {}
    mult = 1 if tier == "quick" else 6
    end = time.time() + (780 if tier == "quick" else 6 * 3600)   # a quick check always answers within its 900 s
    while pending or running:
        if time.time() > end:
            for s in pending:
                results[s.name] = {"name": s.name, "error": "not reached within the time of the check", "timeout": True}
            pending = []
        while pending and len(running) < jobs:
            s = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(s, tier, seed, w))
            p.start()
            w.close()
            limit = time.time() + (scen_limit(s)) * mult
            running.append((s, p, r, limit))
        for item in list(running):
            s, p, r, limit = item
            if r.poll(0.02):
                try:
                    results[s.name] = r.recv()
                except EOFError:
                    results[s.name] = {"name": s.name, "error": "worker ended without an answer"}
                p.join()
                running.remove(item)
            elif time.time() > min(limit, end):
                os.kill(p.pid, signal.SIGKILL)
                p.join()
                results[s.name] = {"name": s.name, "error": f"worker exceeded {limit} s", "timeout": True}
                running.remove(item)
    return [results[s.name] for s in scens]


def scen_limit(s):
    return s.budget + s.search_s * 3 + 90


def load(prop):
    for path in sorted(glob.glob(os.path.join(VERIF, "contracts", "*.py"))):
        name = os.path.basename(path)[:-3]
        if name.startswith("_"):
            continue
        if prop is None or re.match(rf"{prop}(_|$)", name):
            importlib.import_module(f"contracts.{name}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="pyvc-run-")
    os.environ["PYVC_SCRATCH"] = scratch
    try:
        rc = check(a, seed, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def check(a, seed, t0):
    prop = a.property
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "evidence", f"{prop}.replay.json")
    if os.path.exists(replay):
        os.unlink(replay)
    try:
        boot()
        from . import kit
        load(prop)
    except BaseException as e:
        # the package cannot even be imported: everything it promises is broken
        tb = traceback.format_exc()
        last = traceback.extract_tb(e.__traceback__)
        own = [f for f in last if "importlib" not in f.filename]
        if isinstance(e, (ImportError, AttributeError)) and own and os.path.realpath(own[-1].filename).startswith(os.path.join(VERIF, "contracts")):
            # a name the contracts reach for has moved: nothing is proved, and nothing is shown to be wrong
            print(f"{prop}: NOT-PROVED the contracts do not fit the code any more: {e}")
            write_evidence(prop, a.tier, seed, [], 0, time.time() - t0, [])
            return 0
        if "/repo/" in tb or "contracts" in tb:
            with open(replay, "w") as f:
                json.dump({"property": prop, "obligation": "the package imports and exposes the functions under "
                           "contract", "trace": tb}, f, indent=1)
            print(tb, file=sys.stderr)
            write_evidence(prop, a.tier, seed, [], 1, time.time() - t0, [])
            print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
            return 1
        raise
    scens = [s for s in kit.SCENARIOS.get(prop, []) if (a.tier == "thorough" or not s.thorough)
             and (not a.only or re.search(a.only, s.name))]
    if not scens:
        print(f"no contracts for {prop}")
        return 2
    results = run_all(scens, a.tier, seed, a.jobs)
    violations, notes = [], []
    for r in results:
        if r.get("error"):
            notes.append(f"{r['name']}: machinery error: {r['error']}")
        if r.get("witness"):
            violations.append(("witness", r))
        elif r.get("sym") and any(not f.get("inexact") for f in r["sym"]["failures"]):
            # (a counter-model that leans on the axioms of a transcendental function and does not replay is not a refutation)
            violations.append(("refuted", r))
    for r in results:
        s = r.get("sym") or {}
        tag = ("VIOLATED" if r.get("witness") else "REFUTED" if any(not f.get("inexact") for f in s.get("failures") or []) else "NOT-PROVED" if s.get("failures") else "proved" if s.get("proved") and
               not r.get("bounded") else "bounded" if r.get("bounded") or r.get("search_only") else "NOT-PROVED")
        if r.get("error"):
            tag = "ERROR"
        print(f"{prop}/{r['name']}: {tag} obligations={s.get('obligations', 0)} discharged={s.get('discharged', 0)} "
              f"paths={s.get('paths', 0)} concrete={r.get('evaluations', 0)} wall={r.get('wall_s')}s")
        if a.v or tag in ("ERROR", "NOT-PROVED", "REFUTED", "VIOLATED"):
            for key in ("unsupported", "unknown", "failures"):
                for x in (s.get(key) or [])[:3]:
                    print(f"   {key}: {str(x)[:300 if not a.v else 1500]}")
            if s.get("budget"):
                print("   budget:", s["budget"])
            if r.get("witness"):
                print("   witness:", json.dumps({k: v for k, v in r["witness"].items() if k != "trace" or a.v})[:900 if not a.v else 4000])
            if r.get("error"):
                print("   error:", r["error"][-2500:])
        if r.get("evaluations") == 0 and not r.get("error"):
            print(f"   note: {r['name']} has no concrete evaluation (skipped {r.get('skipped')})")
        if a.v:
            print("   labels:", {k: (v["paths"], v["discharged"]) for k, v in (s.get("labels") or {}).items()},
                  "| concrete", r.get("labels"), "| solver", s.get("solver_s"), s.get("backends"), s.get("slowest"))
            print("   interpreted:", s.get("interpreted"))
    findings = run_findings(prop, kit)
    for line in findings:
        print(line)
    write_evidence(prop, a.tier, seed, results, len(violations), time.time() - t0, findings)
    if violations:
        kind, r = sorted(violations, key=lambda v: v[0] != "witness")[0]
        doc = {"property": prop, "scenario": r["name"], "repo": REPO, "seed": seed, "kind": kind}
        if kind == "witness":
            doc["failed_obligation"] = r["witness"]["label"]
            doc["witness"] = r["witness"]
            doc["how"] = f"bash /verif/replay.sh {replay}"
        else:
            doc["failed_obligation"] = next(f["label"] for f in r["sym"]["failures"] if not f.get("inexact"))
        if r.get("sym"):
            doc["verifier_output"] = r["sym"]["failures"]
        doc["all"] = [{"scenario": x["name"], "kind": kd, "label": (x["witness"] or {}).get("label") if kd == "witness"
                       else x["sym"]["failures"][0]["label"]} for kd, x in violations]
        with open(replay, "w") as f:
            json.dump(jsonable(doc), f, indent=1)
        tail = "" if kind == "witness" else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={replay}{tail}")
        return 1
    if notes:
        hard = [n for n in notes if "machinery error" in n]
        if hard and not any(r.get("evaluations") for r in results):
            print("\n".join(hard))
            return 2
    return 0


def run_findings(prop, kit):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    lines = []
    with open(path) as f:
        doc = json.load(f)
    for ent in doc.get("findings", []):
        if ent["property"] != prop:
            continue
        fn = kit.FINDINGS.get((prop, ent["name"]))
        if fn is None:
            continue
        k = kit.Kit("replay", None, values=ent.get("input", {}), rnd=random.Random(0))
        try:
            fn(k)
        except kit.Skip:
            continue
        except Exception:
            lines.append(f"KNOWN-FINDING: property={prop} {ent['what']}")
    return lines


def write_evidence(prop, tier, seed, results, nviol, wall, findings):
    obs = dis = ev = 0
    solver = 0.0
    backends, funcs, interp, assumed, table, bounded, undec = {}, set(), set(), set(), [], [], []
    labels, samples = 0, []
    for r in results:
        s = r.get("sym") or {}
        ev += r.get("evaluations", 0)
        funcs |= set(r.get("functions") or [])
        assumed |= set(r.get("assumes") or [])
        row = {"contract": r["name"], "paths": s.get("paths", 0), "obligations": s.get("obligations", 0),
               "discharged": s.get("discharged", 0), "solver_s": s.get("solver_s", 0),
               "concrete_evaluations": r.get("evaluations", 0), "wall_s": r.get("wall_s")}
        interp |= set(s.get("interpreted") or [])
        if r.get("bounded") or r.get("search_only"):
            row["status"] = "bounded"
            row["bound"] = r.get("bounded") or r.get("search_only")
            bounded.append(row)
        else:
            obs += s.get("obligations", 0)
            dis += s.get("discharged", 0)
            labels += len(s.get("labels") or {})
            row["status"] = "proved" if s.get("proved") else "not proved (bounded fallback)"
            if not s.get("proved"):
                row["why"] = (s.get("unsupported") or [])[:3] + [u["label"] for u in (s.get("unknown") or [])[:3]] + \
                    ([s["budget"]] if s.get("budget") else []) + ([r["error"][:300]] if r.get("error") else [])
                undec.append(row)
            table.append(row)
        solver += s.get("solver_s") or 0
        for b, n in (s.get("backends") or {}).items():
            backends[b] = backends.get(b, 0) + n
        if r.get("samples") and len(samples) < 6:
            samples.append({r["name"]: r["samples"][0]})
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
           "coverage": {"obligations": obs, "discharged": dis, "distinct_postconditions": labels,
                        "checker_cmd": f"bash check.sh {prop} {tier}", "trusted_base": TRUSTED,
                        "functions_under_contract": sorted(funcs), "functions_interpreted": sorted(interp),
                        "backends": backends, "solver_s": round(solver, 2), "contracts": table,
                        "bounded_contracts_not_counted_as_proved": bounded, "undischarged": undec,
                        "evaluations": ev, "rule": "concrete re-runs of the contracts in CPython on generated inputs "
                        "meeting the precondition (engine cross-check and witness search)", "samples": samples,
                        "known_findings": findings},
           "assumptions": sorted(assumed) + ["machine floats treated as mathematical reals in the proofs; overflow, "
                                             "NaN and rounding are outside them"],
           "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(jsonable(doc), f, indent=1)


if __name__ == "__main__":
    main()
