"""Contracts as scenarios: one body, three readings.

A scenario states the precondition (k.real/k.int/k.choice/k.assume), calls the real function (k.call / k.outcome) and
states the postconditions (k.ensure).  It is read
  sym     symbolically: every path of the real code's AST, every postcondition an SMT obligation for all inputs;
  replay  concretely, in CPython on the real function objects, with the inputs of a counter-model;
  search  concretely, with generated inputs (CPython cross-check of the engine and witness search).
"""
from __future__ import annotations

import math
import random
import re
import traceback

import numpy as np
import z3

from . import core
from .core import SBool, SNum, SymBase, Unsupported


class Skip(Exception):
    """The generated input does not meet the precondition."""


class Violated(Exception):
    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and (not types or isinstance(self.exc, types))

    def __repr__(self):
        return f"Outcome({self.value!r}, {self.exc!r})"


SCENARIOS = {}


FINDINGS = {}


def finding(prop, name):
    """The concrete reproduction of a known finding (listed in known_findings.json)."""
    def deco(fn):
        FINDINGS[(prop, name)] = fn
        return fn
    return deco


class Scenario:
    def __init__(self, prop, name, fn, **kw):
        self.prop, self.name, self.fn = prop, name, fn
        self.functions = kw.pop("functions", [])
        self.models = kw.pop("models", None)
        self.contracts = kw.pop("contracts", None)
        self.loops = kw.pop("loops", None)
        self.native = kw.pop("native", None)
        self.bounded = kw.pop("bounded", None)      # text: what is bounded (never counted as proved)
        self.search_only = kw.pop("search_only", None)  # text: why no symbolic reading
        self.budget = kw.pop("budget", 60)
        self.search_s = kw.pop("search_s", 3)
        self.search_n = kw.pop("search_n", 2000)
        self.max_paths = kw.pop("max_paths", 3000)
        self.assumes = kw.pop("assumes", [])
        self.ob_ms = kw.pop("ob_ms", 15000)
        self.branch_ms = kw.pop("branch_ms", 1500)
        self.thorough = kw.pop("thorough_only", False)
        if kw:
            raise TypeError(f"unknown scenario options {list(kw)}")


def scenario(prop, name=None, **kw):
    def deco(fn):
        s = Scenario(prop, name or fn.__name__, fn, **kw)
        SCENARIOS.setdefault(prop, []).append(s)
        return fn
    return deco


class Kit:
    def __init__(self, mode, scen=None, values=None, rnd=None, interp=None):
        self.mode = mode
        self.scen = scen
        self.values = values or {}
        self.rnd = rnd
        self.interp = interp
        self.inputs = {}
        self.checked = {}
        self.sym = mode == "sym"
        self._n = 0

    # ------------------------------------------------------------------ inputs
    def _rec(self, name, v):
        if name in self.inputs:
            raise RuntimeError(f"duplicate input {name}")
        self.inputs[name] = v
        if self.sym:
            core.ctx().inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, hints=(), log=False, pytype=float,
             sample=None):
        """An arbitrary real within [lo, hi]; `sample` only steers the generator of the concrete reading."""
        if self.sym:
            v = SNum(z3.Real(name), pytype)
            self._rec(name, v)
            c = core.ctx()
            if lo is not None:
                c.assume((v > lo) if lo_open else (v >= lo))
            if hi is not None:
                c.assume((v < hi) if hi_open else (v <= hi))
            return v
        if name in self.values:
            v = pytype(self.values[name])
        else:
            g = (lo, hi) if sample is None else sample
            v = pytype(self._gen_real(g[0], g[1], lo_open and g[0] == lo, hi_open and g[1] == hi, hints, log))
        if lo is not None and (v < lo or (lo_open and v <= lo)):
            raise Skip()
        if hi is not None and (v > hi or (hi_open and v >= hi)):
            raise Skip()
        return self._rec(name, v)

    def _gen_real(self, lo, hi, lo_open, hi_open, hints, log):
        r = self.rnd
        p = r.random()
        specials = list(hints)
        if lo is not None:
            specials += [lo] if not lo_open else [math.nextafter(lo, math.inf), lo + 1e-6]
        if hi is not None:
            specials += [hi] if not hi_open else [math.nextafter(hi, -math.inf)]
        if specials and p < 0.3:
            return float(r.choice(specials))
        if hints and p < 0.45:
            x = float(r.choice(list(hints)))
            return x + r.choice([-1, 1]) * 10 ** r.uniform(-12, 1)
        if lo is not None and hi is not None:
            if log and lo >= 0:
                l2 = max(lo, hi * 1e-12) if lo == 0 else lo
                return math.exp(r.uniform(math.log(l2), math.log(hi)))
            if p < 0.6 and lo > 0 and hi / lo > 1e3:
                return math.exp(r.uniform(math.log(lo), math.log(hi)))
            return r.uniform(lo, hi)
        if lo is not None:
            return lo + 10 ** r.uniform(-8, 9)
        if hi is not None:
            return hi - 10 ** r.uniform(-8, 9)
        m = 10 ** r.uniform(-6, 6)
        return r.choice([-1, 1]) * m if p < 0.8 else float(r.randint(-1000, 1000))

    def int(self, name, lo, hi, hints=()):
        if self.sym:
            iv = z3.Int(name)
            v = SNum(z3.ToReal(iv), int)
            self._rec(name, v)
            core.ctx().assume((v >= lo) & (v <= hi))
            return v
        if name in self.values:
            v = int(self.values[name])
        else:
            p = self.rnd.random()
            if p < 0.4:
                v = self.rnd.choice([lo, hi, *hints])
            else:
                v = self.rnd.randint(lo, hi)
        if not lo <= v <= hi:
            raise Skip()
        return self._rec(name, v)

    def choice(self, name, options):
        """Case split over a finite list; exhaustive in the symbolic reading."""
        if self.sym:
            i = core.ctx().choose(len(options))
        elif name in self.values:
            i = int(self.values[name])
        else:
            i = self.rnd.randrange(len(options))
        self._rec(name, i)
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond):
        if self.sym:
            core.ctx().assume(cond)
        elif not bool(np.all(cond)):
            raise Skip()

    # ------------------------------------------------------------------ calls
    def call(self, f, *args, **kwargs):
        if self.sym:
            return self.interp.call(f, args, kwargs)
        return f(*args, **kwargs)

    def get(self, obj, name):
        if self.sym:
            return self.interp.getattr(obj, name)
        return getattr(obj, name)

    def set(self, obj, name, v):
        if self.sym:
            return self.interp.setattr(obj, name, v)
        return setattr(obj, name, v)

    def outcome(self, f, *args, **kwargs):
        try:
            return Outcome(self.call(f, *args, **kwargs))
        except Skip:
            raise
        except Exception as e:
            return Outcome(exc=e)

    def get_outcome(self, obj, name):
        try:
            return Outcome(self.get(obj, name))
        except Exception as e:
            return Outcome(exc=e)

    def set_outcome(self, obj, name, v):
        try:
            return Outcome(self.set(obj, name, v))
        except Exception as e:
            return Outcome(exc=e)

    def invariant(self, havoc, inv):
        """Loop contract for the loop over a symbolic range in the code called next: `havoc()` gives the state the loop changes
        arbitrary values, `inv(i)` lists (label, condition) that hold when iteration i starts."""
        if self.sym:
            self.interp.range_spec = (havoc, inv)

    def anchors(self, *a):
        """Points at which the proof may use the values of powers x^c."""
        if self.sym:
            core.ctx().anchors = a

    def lemma(self, name, fn, *args):
        """A fact of arithmetic (fn maps solver terms to a formula): proved on its own for all values of its variables, then used for
        the given ones."""
        if not self.sym:
            return
        c = core.ctx()
        done = self.scen.__dict__.setdefault("_lemmas", set())
        if name not in done:
            vs = [z3.Real(f"lemma!{name}!{i}") for i in range(len(args))]
            saved = c.pc, c.axioms
            c.pc, c.axioms = [], []
            try:
                c.prove(f"lemma {name}", SBool(fn(*vs)))
            finally:
                c.pc, c.axioms = saved
            done.add(name)
        c.add(fn(*[core.as_num(a).e for a in args]))

    # ------------------------------------------------------------------ postconditions
    def ensure(self, label, cond, detail=""):
        self.checked[label] = self.checked.get(label, 0) + 1
        if self.sym:
            if isinstance(cond, np.ndarray):
                from .models import m_all
                cond = m_all(self.interp, cond)
            core.ctx().prove(label, cond)
        else:
            if isinstance(cond, np.ndarray):
                cond = bool(np.all(cond))
            if not bool(cond):
                raise Violated(label, detail() if callable(detail) else str(detail))

    def eq(self, a, b, rtol=1e-9, atol=1e-12):
        if isinstance(a, SymBase) or isinstance(b, SymBase):
            r = a == b
            if isinstance(r, SBool) and rtol:
                x, y = core.as_num(a).e, core.as_num(b).e
                d, m = z3.If(x >= y, x - y, y - x), z3.If(y >= 0, y, -y)
                r.alt = d <= m * core.rv(min(rtol, 1e-6))
            return r if r is not NotImplemented else False
        if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
            if a == b:
                return True
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            if math.isinf(a) or math.isinf(b):
                return False
            return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
        return a == b

    def le(self, a, b, rtol=1e-9, atol=1e-12):
        if isinstance(a, SymBase) or isinstance(b, SymBase):
            r = a <= b
            if isinstance(r, SBool):
                x, y = core.as_num(a).e, core.as_num(b).e
                r.alt = x <= y + z3.If(y >= 0, y, -y) * core.rv(min(rtol, 1e-6))
            return r
        return bool(a <= b) or abs(a - b) <= atol + rtol * max(abs(a), abs(b))

    def lt(self, a, b):
        return a < b

    def and_(self, *cs):
        if any(isinstance(c, SBool) for c in cs):
            alt = None
            if any(getattr(c, "alt", None) is not None for c in cs):
                alt = z3.And([a if (a := getattr(c, "alt", None)) is not None else core.lift_bool(c) for c in cs])
            return SBool(z3.And([core.lift_bool(c) for c in cs]), alt)
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        if any(isinstance(c, SBool) for c in cs):
            alt = None
            if any(getattr(c, "alt", None) is not None for c in cs):
                alt = z3.Or([a if (a := getattr(c, "alt", None)) is not None else core.lift_bool(c) for c in cs])
            return SBool(z3.Or([core.lift_bool(c) for c in cs]), alt)
        return any(bool(c) for c in cs)

    def not_(self, c):
        return ~c if isinstance(c, SBool) else not c

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def truth(self, c):
        return bool(c)

    # spec-level functions usable in both readings
    def f(self, name, *args):
        """Spec-level real function (sqrt, sin, pow, ...)."""
        if any(isinstance(a, SymBase) for a in args):
            if name == "pow":
                return core.power(*args)
            return core.app(name, *args) if name != "floor" else core.floor(args[0])
        fn = {"pow": math.pow, "sin": math.sin, "cos": math.cos, "sqrt": math.sqrt, "exp": math.exp, "log": math.log,
              "log10": math.log10, "floor": math.floor, "arcsin": math.asin, "arccos": math.acos}[name]
        return fn(*args)

    def f_max(self, a, b):
        if isinstance(a, SymBase) or isinstance(b, SymBase):
            a, b = core.as_num(a), core.as_num(b)
            return SNum(z3.If(a.e >= b.e, a.e, b.e), float)
        return max(a, b)

    def deg(self, x):
        return x * SNum(180 / core.PI, float) if isinstance(x, SymBase) else math.degrees(x)

    def rad(self, x):
        return x * SNum(core.PI / 180, float) if isinstance(x, SymBase) else math.radians(x)

    def is_integer(self, x, tol=1e-6):
        """x is an integer (a number of whole turns)."""
        if isinstance(x, SymBase):
            return SBool(z3.IsInt(x.e))
        return abs(x - round(x)) <= tol

    # ------------------------------------------------------------------ stub random generator
    def rng(self, name="rng"):
        return StubRng(self, name)


class StubRng(np.random.Generator):
    """A numpy Generator whose draws are inputs of the scenario (every value its documentation allows)."""

    __pyvc_stub__ = True

    def __new__(cls, kit, name):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, kit, name):
        super().__init__(np.random.PCG64(0))
        self.kit, self.name, self.count, self.log, self.probs = kit, name, 0, [], []

    def _draw(self, method, lo, hi, hi_open, size, lo_open=False, integer=False):
        def one():
            self.count += 1
            nm = f"{self.name}.{method}{self.count}"
            if integer:
                return self.kit.int(nm, lo, hi)
            return self.kit.real(nm, lo, hi, lo_open=lo_open, hi_open=hi_open)
        self.log.append(method)
        if size is None or (isinstance(size, tuple) and size == ()):
            return one()
        n = int(np.prod(size))
        if self.kit.sym and n > 8:
            raise Unsupported("stub generator: large size")
        out = np.empty(n, dtype=object if self.kit.sym else float)
        for i in range(n):
            v = one()
            out[i] = SNum(v.e, np.float64) if isinstance(v, SNum) else v
        return out.reshape(size)

    def random(self, size=None, **k):
        return self._draw("random", 0.0, 1.0, True, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        from .models import vec
        if size is None and (isinstance(low, np.ndarray) or isinstance(high, np.ndarray)):
            size = np.broadcast_shapes(np.shape(low), np.shape(high))
        u = self._draw("uniform", 0.0, 1.0, True, size)
        if not isinstance(low, (np.ndarray, SymBase)) and not isinstance(high, (np.ndarray, SymBase)) \
                and low == 0.0 and high == 1.0:
            return u
        if self.kit.sym:
            return vec(lambda x, a, b: a + (b - a) * x, u, low, high)
        return low + (high - low) * u

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self._draw("normal", -9.0, 9.0, False, size)
        from .models import vec
        return vec(lambda x, m, s: m + s * x, z, loc, scale)

    def standard_normal(self, size=None, **k):
        return self._draw("normal", -9.0, 9.0, False, size)

    def integers(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        return self._draw("integers", low, high - 1, False, size, integer=True)

    def poisson(self, lam=1.0, size=None):
        return self._draw("poisson", 0, 2**31, False, size, integer=True)

    def choice(self, a, size=None, p=None, **k):
        if p is not None:
            self.probs.append(list(p))
        seq = list(range(a)) if isinstance(a, int) else list(a)
        if size is None:
            self.count += 1
            r = self.kit.choice(f"{self.name}.choice{self.count}", seq)
            if p is not None and seq.count(r) == 1:
                self.kit.assume(list(p)[seq.index(r)] > 0)     # an outcome of probability zero is never drawn
            return np.str_(r) if type(r) is str else r
        n = int(np.prod(size))
        if n > 12:
            raise Unsupported("stub generator: choice with a large size")
        out = []
        for _ in range(n):
            self.count += 1
            out.append(self.kit.choice(f"{self.name}.choice{self.count}", seq))
        self.log.append("choice")
        return np.array(out).reshape(size)


class Stub:
    """Base of stand-ins: what a stand-in does not provide is outside the contract, not an error of the code."""

    __pyvc_stub__ = True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{type(self).__name__} stands in for the real object and has no {name}")


def named(real, args, kwargs):
    """The arguments of a call by the parameter names of the real function."""
    import inspect
    b = inspect.signature(real).bind(*args, **kwargs)
    out = dict(b.arguments)
    for n, p in b.signature.parameters.items():
        if p.kind is p.VAR_KEYWORD:
            out.update(out.pop(n, {}))
    return out


def harness_mismatch(e):
    """A private name or signature the harness reaches for is no longer there: the contract has nothing to say (the
    obligations are then not discharged and not counted), rather than the code being wrong."""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    where = tb.tb_frame.f_code.co_filename if tb is not None else ""
    here = "/contracts/" in where or "/pyvc/" in where
    if isinstance(e, AttributeError) and here and str(getattr(e, "name", "") or "").startswith("_"):
        return True
    if isinstance(e, ImportError) and here:
        return True
    return isinstance(e, TypeError) and here and re.search(r"\b_[A-Za-z]\w*\(\) (got|missing|takes)", str(e)) is not None


def need(owner, name):
    """A private function the contract is written on; the scenario is skipped where it no longer exists."""
    try:
        return getattr(owner, name)
    except AttributeError:
        raise Skip() from None


def run_concrete(scen, mode, values=None, seed=0):
    """One concrete run. Returns ('ok'|'skip'|'violated'|'error', info, inputs, checked)."""
    k = Kit(mode, scen, values=values, rnd=random.Random(seed))
    try:
        scen.fn(k)
        return "ok", None, k.inputs, k.checked
    except (Skip, core.EngineSignal):
        return "skip", None, k.inputs, k.checked
    except Violated as e:
        return "violated", {"label": e.label, "detail": e.detail}, k.inputs, k.checked
    except Exception as e:
        if harness_mismatch(e):
            return "skip", None, k.inputs, k.checked
        return "violated", {"label": "no-unexpected-exception", "detail": f"{type(e).__name__}: {e}",
                            "trace": traceback.format_exc()[-1500:]}, k.inputs, k.checked
    except BaseException as e:
        if type(e).__name__ == "RustBindingsMissing":       # the code reached a kernel that is not built here and has no stand-in
            return "skip", None, k.inputs, k.checked
        raise


def run_symbolic(scen, budget=None, max_paths=None):
    from .interp import Interp

    def path(c):
        it = Interp(models=scen.models() if callable(scen.models) else scen.models,
                    contracts=scen.contracts, loop_specs=scen.loops, native=scen.native)
        k = Kit("sym", scen, interp=it)
        try:
            scen.fn(k)
        except core.EngineSignal:
            raise
        except Skip:
            raise core.Infeasible() from None
        except Exception as e:
            if harness_mismatch(e) or isinstance(e, (RecursionError, MemoryError)) or (
                    isinstance(e, TypeError) and re.search(r"\b(SNum|SBool|__array_ufunc__)\b", str(e))):
                raise core.Unsupported(f"harness: {type(e).__name__}: {e}") from None
            ob = c.res.label("no-unexpected-exception")
            ob["paths"] += 1
            c.res.obligations += 1
            # is the path real?
            s = z3.Solver()
            s.set("timeout", c.ob_ms)
            s.add(c.pc)
            s.add(c.axioms)
            r = s.check()
            if r == z3.sat:
                ob["failed"] += 1
                c.res.failures.append({"label": "no-unexpected-exception", "inputs": c.model_inputs(s.model()),
                                       "decisions": [t[0] for t in c.trace], "inexact": c.inexact,
                                       "goal": f"{type(e).__name__}: {e}"[:300],
                                       "trace": traceback.format_exc()[-1200:]})
            elif r == z3.unknown:
                ob["unknown"] += 1
                c.res.unknown.append({"label": "no-unexpected-exception", "goal": f"{type(e).__name__}: {e}"[:300]})
            else:
                ob["discharged"] += 1
                c.res.discharged += 1

        except BaseException as e:
            if type(e).__name__ == "RustBindingsMissing":
                raise core.Unsupported(f"kernel: {e}") from None
            raise
    return core.explore(f"{scen.prop}/{scen.name}", path, budget or scen.budget, max_paths or scen.max_paths,
                        scen.branch_ms, scen.ob_ms)
