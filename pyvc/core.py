"""Symbolic values, path exploration and proof obligations for pyvc.

pyvc is a small deductive verifier for the Python that runs: it interprets the AST of the real functions of the
package under /repo (see interp.py) on symbolic arguments, explores every path, and turns every postcondition of a
contract into one SMT obligation per path (path condition => postcondition).  Floats are mathematical reals;
transcendental functions are fresh constants constrained by instantiated axioms (see `Ctx.app`).
"""
from __future__ import annotations

import fractions
import math
import time
import zlib

import numpy as np
import z3

z3.set_param("smt.random_seed", 1)


class EngineSignal(BaseException):
    """Never visible to interpreted code."""


class Unsupported(EngineSignal):
    """The code left the subset the verifier understands."""


class Infeasible(EngineSignal):
    """The current path condition is contradictory (an assumption excluded the path)."""


class Budget(EngineSignal):
    """Path or time budget exhausted."""


class Refuted(EngineSignal):
    pass


class PathDone(EngineSignal):
    """The path ends here (the inductive step of a loop invariant)."""


CTX: "Ctx | None" = None


def ctx() -> "Ctx":
    if CTX is None:
        raise Unsupported("symbolic value used outside a symbolic run")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def frac(x):
    """Rational of a Python/numpy number: the decimal it prints as (0.001 is 1/1000, not its binary neighbour)."""
    if isinstance(x, (bool, np.bool_)):
        return fractions.Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return fractions.Fraction(int(x))
    x = float(x)
    return _PI_MULTIPLES.get(x) or fractions.Fraction(repr(x))


def _pi_multiples():
    """Multiples of pi as the same multiple of one rational pi, so that pi/2 + pi/2 is pi."""
    pi, out = fractions.Fraction(repr(math.pi)), {}
    for p, q in ((1, 1), (1, 2), (2, 1), (3, 2), (1, 4), (3, 4), (4, 1), (4, 3), (1, 3), (2, 3), (1, 6), (1, 180), (1, 8), (1, 12)):
        out[math.pi * p / q] = out[math.pi * (p / q)] = out[math.pi / q * p] = pi * p / q
    for n in (1, 2, 180, 360, 0.5):
        out[n / math.pi] = fractions.Fraction(n) / pi
    return out


_PI_MULTIPLES = _pi_multiples()


def rv(x):
    f = frac(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_)) and not isinstance(x, SymBase)


class SymBase:
    __slots__ = ()
    __array_ufunc__ = None  # numpy scalars defer to our reflected operators

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return TaintStr("<sym>")

    def __str__(self):
        return TaintStr("<sym>")


class TaintStr(str):
    """A string built from a symbolic value (error messages); its content must not influence control flow."""

    def __eq__(self, o):
        raise Unsupported("comparison of a string that depends on a symbolic value")

    def __ne__(self, o):
        raise Unsupported("comparison of a string that depends on a symbolic value")

    def __hash__(self):
        raise Unsupported("hash of a string that depends on a symbolic value")

    def __add__(self, o):
        return TaintStr(str.__str__(self) + str(o))

    def __radd__(self, o):
        return TaintStr(str(o) + str.__str__(self))


def lift_bool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    raise Unsupported(f"not a boolean: {type(x)}")


class SBool(SymBase):
    """A symbolic truth value. `alt` is a weaker reading (equalities up to a part in 10^9) tried when `e` is not proved."""
    __slots__ = ("e", "alt")
    pytype = bool

    def __init__(self, e, alt=None):
        self.e = e
        self.alt = alt

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SBool(z3.And(self.e, lift_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SBool(z3.Or(self.e, lift_bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return SBool(self.e == lift_bool(o))
        if is_num(o) or isinstance(o, SNum):
            return as_num(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    __hash__ = SymBase.__hash__

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    all = any

    def _n(self):
        return SNum(z3.If(self.e, z3.RealVal(1), z3.RealVal(0)), int)

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __repr__(self):
        return f"SBool({self.e})"


def as_num(x):
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return x._n()
    if is_num(x):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            raise Unsupported("non-finite constant lifted to a real")
        return SNum(rv(x), int if isinstance(x, (int, np.integer, np.bool_)) else float)
    raise Unsupported(f"not a number: {type(x)}")


def _nonfinite(o):
    return isinstance(o, (float, np.floating)) and not isinstance(o, SymBase) and not math.isfinite(o)


def _join(a, b):
    if a is np.float64 or b is np.float64:
        return np.float64
    return float if (a is float or b is float) else int


def _pt(o):
    if isinstance(o, SNum):
        return o.pytype
    if isinstance(o, (np.floating, np.integer)):
        return np.float64
    return int if isinstance(o, (int, bool)) else float


class SNum(SymBase):
    """A real (or integer) number; `pytype` is the Python type the running code would see."""

    __slots__ = ("e", "pytype")

    def __init__(self, e, pytype=float):
        self.e = e
        self.pytype = pytype

    def _bin(self, o, fn, pt=None):
        if isinstance(o, (np.ndarray,)):
            return NotImplemented
        if isinstance(o, SBool):
            o = o._n()
        if not isinstance(o, SNum):
            if not is_num(o):
                return NotImplemented
            o2 = SNum(rv(o), _pt(o))
        else:
            o2 = o
        return SNum(fn(self.e, o2.e), pt or _join(self.pytype, o2.pytype))

    def __add__(self, o):
        if _nonfinite(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if _nonfinite(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if _nonfinite(o):
            return o
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if _nonfinite(o):
            if math.isnan(o):
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return float("nan")
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SNum(-self.e, self.pytype)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.e >= 0, self.e, -self.e), self.pytype)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if _nonfinite(o):
            return float("nan") if math.isnan(o) else 0.0
        if not isinstance(o, (SNum, SBool)) and not is_num(o):
            return NotImplemented
        return div(self, as_num(o) if not isinstance(o, np.floating) else SNum(rv(o), np.float64))

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if _nonfinite(o):
            if math.isnan(o):
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            raise ZeroDivisionError("float division by zero")
        if not is_num(o):
            return NotImplemented
        return div(SNum(rv(o), _pt(o)), self)

    def __mod__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return fmod(self, as_num(o))

    def __rmod__(self, o):
        return fmod(as_num(o), self)

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        q = floor(div(self, as_num(o)))
        return SNum(q.e, _join(self.pytype, as_num(o).pytype))

    def __rfloordiv__(self, o):
        return as_num(o) // self

    def __pow__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def _cmp(self, o, fn, inf_result):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if _nonfinite(o):
            return inf_result(float(o))
        if isinstance(o, SBool):
            o = o._n()
        if not isinstance(o, SNum):
            if not is_num(o):
                return NotImplemented
            o = SNum(rv(o), _pt(o))
        return SBool(z3.simplify(fn(self.e, o.e)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda v: 0.0 < v)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda v: 0.0 <= v)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda v: 0.0 > v)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda v: 0.0 >= v)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda v: False)
        if r is NotImplemented and not isinstance(o, np.ndarray):
            return False
        return r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda v: True)
        if r is NotImplemented and not isinstance(o, np.ndarray):
            return True
        return r

    __hash__ = SymBase.__hash__

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic value in native code")

    def __int__(self):
        raise Unsupported("int() of a symbolic value in native code")

    def __index__(self):
        raise Unsupported("symbolic index in native code")

    def __round__(self, nd=None):
        return round_(self, nd)

    def __repr__(self):
        return f"SNum({self.e})"

    # numpy-scalar look-alikes
    def item(self, *a):
        return SNum(self.e, int if self.pytype is int else float)

    def tolist(self):
        return self.item()

    def astype(self, t, **k):
        if t in (int, np.int64, np.int32):
            return trunc(self)
        return SNum(self.e, np.float64)

    def copy(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def real(self):
        return self

    # object-dtype numpy ufuncs call these
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return app("exp", self)

    def log(self):
        return app("log", self)

    def sin(self):
        return app("sin", self)

    def cos(self):
        return app("cos", self)

    def floor(self):
        return floor(self)

    def ceil(self):
        return ceil(self)

    def isnan(self):
        return False

    def mean(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    min = sum = max


def div(a, b):
    if z3.is_rational_value(z3.simplify(b.e)) and z3.simplify(b.e).as_fraction() != 0:
        return SNum(a.e / b.e, _join(_join(a.pytype, b.pytype), float))
    zero = ctx().branch(b.e == 0)
    if zero:
        if np.float64 in (a.pytype, b.pytype):
            if bool(a > 0):
                return float("inf")
            if bool(a < 0):
                return float("-inf")
            return float("nan")
        raise ZeroDivisionError("float division by zero")
    num = z3.simplify(a.e)
    if z3.is_rational_value(num) and num.as_fraction() == 0:
        return SNum(rv(0), _join(_join(a.pytype, b.pytype), float))
    return SNum(a.e / b.e, _join(_join(a.pytype, b.pytype), float))


def whole(e):
    """Whether a real term is a whole number by its form."""
    if z3.is_rational_value(e):
        return e.denominator_as_long() == 1
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_TO_REAL:
        return True
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return all(whole(x) for x in e.children())
    return k == z3.Z3_OP_ITE and whole(e.arg(1)) and whole(e.arg(2))


def floor(a):
    c = ctx()
    s = z3.simplify(a.e)
    if whole(s):
        return SNum(s, float)
    if z3.is_rational_value(s):
        return SNum(rv(math.floor(s.as_fraction())), float)
    key = ("floor", s.get_id())
    if key not in c.apps:
        k = z3.Int(c.fresh("flr"))
        r = z3.ToReal(k)
        c.apps[key] = (r, s)
        c.add_axiom(z3.And(r <= s, s < r + 1))
    return SNum(c.apps[key][0], float)


def ceil(a):
    return -floor(-a)


def trunc(a):
    s = z3.simplify(a.e)
    if whole(s):
        return SNum(s, int)
    if ctx().entails(s >= 0):
        return SNum(floor(a).e, int)
    return SNum(z3.If(a.e >= 0, floor(a).e, (-floor(-a)).e), int)


def round_(a, nd=None):
    """Half-to-even rounding, over-approximated: the nearest integer, either one at a tie."""
    c = ctx()
    if a.pytype is int and not nd:
        return a
    scale = 10 ** (nd or 0)
    k = z3.ToReal(z3.Int(c.fresh("rnd")))
    x = a.e * scale
    c.add_axiom(z3.And(k - x <= rv(0.5), x - k <= rv(0.5)))
    return SNum(k / scale, int if nd is None else a.pytype)


def fmod(a, b):
    """Python/numpy remainder with the sign of the divisor."""
    if ctx().branch(b.e == 0):
        raise ZeroDivisionError("float modulo")
    q = floor(div(a, b))
    return SNum(a.e - b.e * q.e, _join(a.pytype, b.pytype))


def sqrt(a, complex_ok=False):
    a = as_num(a)
    if bool(a < 0):
        return float("nan")
    return app("sqrt", a)


def power(a, b):
    if not isinstance(b, SymBase) and is_num(b):
        fb = frac(b)
        a2 = as_num(a)
        if fb.denominator == 1 and abs(fb.numerator) <= 16:
            n = fb.numerator
            r = SNum(z3.RealVal(1), a2.pytype if n >= 0 else _join(a2.pytype, float))
            if isinstance(b, (float, np.floating)):
                r.pytype = _join(r.pytype, float)
            for _ in range(abs(n)):
                r = SNum(r.e * a2.e, r.pytype)
            return r if n >= 0 else div(SNum(rv(1), float), r)
        if fb == fractions.Fraction(1, 2):
            if bool(a2 < 0):
                raise Unsupported("fractional power of a negative number")
            return app("sqrt", a2)
        if bool(a2 < 0):
            raise Unsupported("fractional power of a negative number")
        if bool(a2 == 0):
            if fb > 0:
                return 0.0
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return app("pow", a2, SNum(rv(b), float))
    a2, b2 = as_num(a), as_num(b)
    if bool(a2 < 0):
        raise Unsupported("fractional power of a negative number")
    if bool(a2 == 0):
        if bool(b2 > 0):
            return 0.0
        if bool(b2 == 0):
            return 1.0
        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
    return app("pow", a2, b2)


def app(name, *args):
    return ctx().app(name, *[as_num(a) for a in args])


def fresh_real(base="v", pytype=float):
    return SNum(z3.Real(ctx().fresh(base)), pytype)


PI = rv(math.pi)


_PROBE = {}


def _probe(e):
    """(free symbols, values at two fixed points) of a real term, None where it does not evaluate."""
    got = _PROBE.get(e.get_id())
    if got is not None and got[0].eq(e):
        return got[1]
    todo, seen, free = [e], set(), {}
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > 400 or (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD)):
            # only rational functions are told apart by two points: a piecewise term agrees with another on whole regions
            free = None
            break
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            free[x.decl().name()] = x
        todo.extend(x.children())
    out = None
    if free is not None:
        vals = []
        for salt in (1, 2):
            sub = []
            for n, x in free.items():
                h = zlib.crc32(f"{salt}:{n}".encode()) % 1000003
                sub.append((x, z3.RealVal(f"{h + 300000}/997001") if x.sort() == z3.RealSort() else z3.IntVal(h)
                            if x.sort() == z3.IntSort() else z3.BoolVal(h % 2 == 0)))
            r = z3.simplify(z3.substitute(e, *sub))
            vals.append(r.as_fraction() if z3.is_rational_value(r) else None)
        if None not in vals:
            out = (frozenset(free), vals)
    if len(_PROBE) > 20000:
        _PROBE.clear()
    _PROBE[e.get_id()] = (e, out)
    return out


def near_same(a, b):
    """Two terms over the same symbols that differ only by the rounding of their constants."""
    if a.eq(b):
        return True
    p, q = _probe(a), _probe(b)
    if p is None or q is None or p[0] != q[0] or not p[0]:
        return False
    return all(abs(x - y) * 10**12 <= max(abs(x), abs(y)) for x, y in zip(p[1], q[1], strict=True))


class Ctx:
    """One symbolic run (one path) of a scenario; obligations accumulate in `self.res`."""

    def __init__(self, res, prefix, deadline, branch_ms=2000, ob_ms=20000):
        self.res = res
        self.prefix = prefix
        self.trace = []  # decisions taken: (value, has_alternative)
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", branch_ms)
        self.ob_ms = ob_ms
        self.pc = []
        self.axioms = []
        self.apps = {}
        self.applist = []
        self.n = 0
        self.inputs = {}
        self.inexact = False
        self.deadline = deadline
        self.funcs = set()
        self.keep = []
        self.depth = 0
        self.induction = False
        self.anchors = ()
        self.hard = 0

    # ---- naming / constraints
    def fresh(self, base):
        self.n += 1
        return f"{base}!{self.n}"

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def add_axiom(self, e):
        self.axioms.append(e)
        self.solver.add(e)

    def check_time(self):
        if time.time() > self.deadline:
            raise Budget("time budget")

    # ---- branching
    def choose(self, n):
        """Non-deterministic choice 0..n-1, all explored."""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.trace.append((v, False))
            self.pos += 1
            return v
        self.pos += 1
        for alt in range(n - 1, 0, -1):
            self.res.worklist.append([t[0] for t in self.trace] + [alt])
        self.trace.append((0, False))
        return 0

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.check_time()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, False))
            self.add(e if v else z3.Not(e))
            return bool(v)
        self.pos += 1
        t = self._sat(e)
        f = self._sat(z3.Not(e)) if t != z3.unsat else z3.sat
        if t == z3.unsat and f == z3.unsat:
            raise Infeasible()
        if t == z3.unsat:
            v = False
        elif f == z3.unsat:
            v = True
        else:
            v = True
            self.res.worklist.append([x[0] for x in self.trace] + [0])
        self.trace.append((int(v), False))
        self.add(e if v else z3.Not(e))
        return v

    def _sat(self, e):
        t0 = time.time()
        self.solver.push()
        self.solver.add(e)
        r = self.solver.check()
        if r == z3.unknown:
            self.hard += 1
            if self.hard == 3:   # the facts of this path are beyond the solver: do not wait for it at every branch
                self.solver.set("timeout", 300)
            if linear_unsat([*self.pc, *self.axioms, e], 1500):
                r = z3.unsat
        self.solver.pop()
        self.res.solver_s += time.time() - t0
        self.res.branch_queries += 1
        return r

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise Infeasible()
            return
        e = z3.simplify(lift_bool(cond))
        if z3.is_false(e):
            raise Infeasible()
        self.add(e)
        if self._sat(z3.BoolVal(True)) == z3.unsat:
            raise Infeasible()

    def entails(self, e):
        return self._sat(z3.Not(e)) == z3.unsat

    # ---- transcendental functions: fresh constants plus instantiated axioms
    def app(self, name, *args):
        args = [SNum(z3.simplify(a.e), a.pytype) for a in args]
        pt = float
        for a in args:
            pt = _join(pt, a.pytype)
        vals = [a.e for a in args]
        if all(z3.is_rational_value(v) for v in vals):
            conc = self._concrete(name, [float(v.as_fraction()) for v in vals])
            if conc is not None:
                # the value the running code computes, as an exact rational
                if not math.isfinite(conc):
                    return conc
                return SNum(rv(conc), pt)
        inner = self._inverse_of(name, vals)
        if inner is not None:
            return SNum(inner, pt)
        key = (name,) + tuple(v.get_id() for v in vals)
        if key in self.apps:
            return SNum(self.apps[key][0], pt)
        for (n2, v2, args2) in self.applist:
            # the same argument written with differently rounded constants (x/tau and x*6.93): one value
            if n2 == name and all(near_same(x, y) for x, y in zip(vals, args2, strict=True)):
                self.apps[key] = (v2, vals)
                self.keep.append(vals)
                return SNum(v2, pt)
        v = z3.Real(self.fresh(name))
        self.apps[key] = (v, vals)
        self.keep.append(vals)
        self.inexact = True
        AX = AXIOMS.get(name)
        if AX is None:
            raise Unsupported(f"no axioms for {name}")
        for a in AX(self, v, *vals):
            self.add_axiom(a)
        for (n2, v2, args2) in self.applist:
            if n2 == name:
                self.add_axiom(z3.Implies(z3.And([x == y for x, y in zip(vals, args2, strict=True)]), v == v2))
                mono = MONO.get(name)
                if mono:
                    for a in mono(v, vals, v2, args2):
                        self.add_axiom(a)
            elif (name, n2) in CROSS:
                for a in CROSS[(name, n2)](v, vals, v2, args2):
                    self.add_axiom(a)
        self.applist.append((name, v, vals))
        return SNum(v, pt)

    def _inverse_of(self, name, vals):
        """exp(log x), log(exp x), 10**log10(x), log10(10**x): x."""
        def arg_of(fn, e):
            for (n2, v2, args2) in self.applist:
                if n2 == fn and v2.eq(e):
                    return args2
            return None
        if name in ("exp", "log"):
            a = arg_of("log" if name == "exp" else "exp", vals[0])
            return a[0] if a else None
        if name == "pow" and z3.is_rational_value(vals[0]) and vals[0].as_fraction() == 10:
            a = arg_of("log10", vals[1])
            return a[0] if a else None
        if name == "log10":
            a = arg_of("pow", vals[0])
            if a and z3.is_rational_value(a[0]) and a[0].as_fraction() == 10:
                return a[1]
        return None

    @staticmethod
    def _concrete(name, a):
        try:
            fn = {"sqrt": np.sqrt, "exp": np.exp, "log": np.log, "log10": np.log10, "log2": np.log2, "sin": np.sin,
                  "cos": np.cos, "tan": np.tan, "arcsin": np.arcsin, "arccos": np.arccos, "arctan": np.arctan,
                  "pow": np.power, "expm1": np.expm1, "log1p": np.log1p}.get(name)
            return None if fn is None else float(fn(*a))
        except Exception:
            return None

    # ---- obligations
    def prove(self, label, cond):
        r = self.res
        ob = r.label(label)
        ob["paths"] += 1
        if isinstance(cond, (bool, np.bool_)):
            e = z3.BoolVal(bool(cond))
        else:
            e = z3.simplify(lift_bool(cond))
        t0 = time.time()
        status, model, backend = self._discharge(e)
        alt = getattr(cond, "alt", None)
        if status != "unsat" and alt is not None:
            st2, m2, b2 = self._discharge(z3.simplify(alt))
            if st2 == "unsat":
                status, backend = st2, b2 + " (to a part in 10^9)"
            elif st2 == "sat":
                status, model, backend = st2, m2, b2
        dt = time.time() - t0
        r.solver_s += dt
        r.obligations += 1
        if status == "unsat":
            r.discharged += 1
            ob["discharged"] += 1
            r.backends[backend] = r.backends.get(backend, 0) + 1
            if dt > r.slowest[0]:
                r.slowest = (round(dt, 2), label)
            return
        if status == "sat" and self.induction:
            # the state is the one a loop invariant allows, which may be unreachable: not a refutation of the code
            status = "not inductive"
        if status == "sat":
            ob["failed"] += 1
            vals = self.model_inputs(model)
            r.failures.append({"label": label, "inputs": vals, "decisions": [t[0] for t in self.trace],
                               "inexact": self.inexact, "goal": str(e)[:600]})
            return
        ob["unknown"] += 1
        r.unknown.append({"label": label, "goal": str(e)[:300], "status": status})

    def _discharge(self, e):
        if z3.is_true(e):
            return "unsat", None, "trivial"
        if self.induction and linear_unsat([*self.pc, *self.axioms, z3.Not(e)], 1500):
            return "unsat", None, "z3 (linear)"
        s = z3.Solver()
        s.set("timeout", min(1500, self.ob_ms))
        s.add(self.pc)
        s.add(self.axioms)
        s.add(z3.Not(e))
        r = s.check()
        if r == z3.unknown:
            if not self.induction and linear_unsat([*self.pc, *self.axioms, z3.Not(e)]):
                return "unsat", None, "z3 (linear)"
            s.set("timeout", self.ob_ms)
            r = s.check()
        if r == z3.unsat:
            return "unsat", None, "z3"
        if r == z3.sat:
            return "sat", s.model(), "z3"
        # second opinion: nlsat
        try:
            t = z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver()
            t.set("timeout", self.ob_ms)
            t.add(self.pc)
            t.add(self.axioms)
            t.add(z3.Not(e))
            r = t.check()
            if r == z3.unsat:
                return "unsat", None, "z3-nlsat"
            if r == z3.sat:
                return "sat", t.model(), "z3-nlsat"
        except z3.Z3Exception:
            pass
        r = cvc5_check(s, self.ob_ms)
        if r == "unsat":
            return "unsat", None, "cvc5"
        return "unknown", None, None

    def model_inputs(self, model):
        out = {}
        for name, v in self.inputs.items():
            if isinstance(v, (SNum, SBool)):
                m = model.eval(v.e, model_completion=True)
                out[name] = z3_to_py(m, v)
            else:
                out[name] = v
        return out


def z3_to_py(m, v):
    if isinstance(v, SBool):
        return bool(z3.is_true(m))
    if z3.is_rational_value(m):
        f = m.as_fraction()
    elif z3.is_int_value(m):
        f = fractions.Fraction(m.as_long())
    elif z3.is_algebraic_value(m):
        f = m.approx(30).as_fraction()
    else:
        return 0.0
    if v.pytype is int:
        return int(f)
    try:
        return float(f)
    except OverflowError:
        return 1e300 if f > 0 else -1e300


def linear_unsat(facts, ms=4000):
    """Unsatisfiability in linear real arithmetic: every product of unknowns is read as an unknown of its own, a quotient as a product
    with the reciprocal, and of whole numbers only a < b => a + 1 <= b is kept (a weakening, so sound)."""
    seen, names, inv, inverses, side = {}, {}, {}, {}, []

    def const(e):
        return z3.is_rational_value(e) or z3.is_int_value(e)

    def opaque(e, real=True):
        if e not in names:
            n = f"opaque!{len(names)}"
            names[e] = z3.Real(n) if real else z3.Bool(n)
        return names[e]

    def undivide(e):
        """x / y as x times the reciprocal of y, so that products of the same factors have one form."""
        key = e.get_id()
        if key in inv:
            return inv[key][0]
        r = e
        if z3.is_app(e) and e.num_args():
            args = [undivide(a) for a in e.children()]
            if e.decl().kind() == z3.Z3_OP_DIV and not const(e.arg(1)):
                y = z3.simplify(args[1], som=True)
                if y not in inverses:
                    inverses[y] = z3.Real(f"inverse!{len(inverses)}")
                r = args[0] * inverses[y]
            else:
                r = e.decl()(*args)
        inv[key] = (r, e)
        return r

    def go(e):
        key = e.get_id()
        if key in seen:
            return seen[key][0]
        kind = e.decl().kind() if z3.is_app(e) else None
        if kind is None:
            r = opaque(e, z3.is_arith(e))
        elif e.num_args() == 0:
            r = opaque(e) if z3.is_int(e) and not const(e) else z3.RealVal(e.as_long()) if z3.is_int_value(e) else e
        elif kind == z3.Z3_OP_TO_REAL:
            r = go(e.arg(0))
        elif kind == z3.Z3_OP_MUL:
            consts = [a for a in e.children() if const(a)]
            rest = sorted((a for a in e.children() if not const(a)), key=lambda a: a.get_id())
            if len(rest) <= 1:
                r = go(rest[0]) if rest else z3.RealVal(1)
            else:
                m = rest[0]
                for a in rest[1:]:
                    m = m * a
                r = opaque(m)
            for a in consts:
                r = go(a) * r
        elif kind == z3.Z3_OP_DIV and const(e.arg(1)):
            r = go(e.arg(0)) / go(e.arg(1))
        elif kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            args = [go(a) for a in e.children()]
            r = -args[0] if kind == z3.Z3_OP_UMINUS else z3.Sum(args) if kind == z3.Z3_OP_ADD else args[0] - z3.Sum(args[1:])
        elif kind in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            a, b = (go(x) for x in e.children())
            if kind in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            strict = kind in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            if all(whole(x) or z3.is_int(x) for x in e.children()):
                p = opaque(e, False)
                lo, hi = (a + 1 <= b, b <= a) if strict else (a <= b, b + 1 <= a)
                side.extend([z3.Implies(p, lo), z3.Implies(z3.Not(p), hi)])
                r = p
            else:
                r = a < b if strict else a <= b
        elif kind in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_XOR, z3.Z3_OP_IFF):
            args = [go(a) for a in e.children()]
            r = {z3.Z3_OP_AND: lambda: z3.And(*args), z3.Z3_OP_OR: lambda: z3.Or(*args), z3.Z3_OP_NOT: lambda: z3.Not(*args),
                 z3.Z3_OP_IMPLIES: lambda: z3.Implies(*args), z3.Z3_OP_XOR: lambda: z3.Xor(*args), z3.Z3_OP_ITE: lambda: z3.If(*args)}.get(
                     kind, lambda: args[0] == args[1])()
        else:
            r = opaque(e, z3.is_arith(e))
        seen[key] = (r, e)
        return r

    try:
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", ms)
        fs = [undivide(f) for f in facts]
        fs += [z3.Implies(y != 0, y * v == 1) for y, v in inverses.items()]
        for f in fs:
            s.add(go(z3.simplify(f, som=True)))
        s.add(side)
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


def cvc5_check(solver, ms):
    try:
        import subprocess
        txt = "(set-logic ALL)\n" + solver.to_smt2()
        txt = "\n".join(ln for ln in txt.splitlines() if not ln.startswith("(set-info"))
        p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={ms}"], input=txt, capture_output=True, text=True,
                           timeout=ms / 1000 + 5)
        first = p.stdout.strip().splitlines()[:1]
        return first[0] if first else "unknown"
    except Exception:
        return "unknown"


# --------------------------------------------------------------------------------------------------------------------
# Axioms.  Each is a true fact of real analysis about the function named; nothing is assumed of the repository's code.
def _ax_sqrt(c, v, x):
    return [v >= 0, v * v == x]


def _ax_exp(c, v, x):
    return [v > 0, v >= 1 + x, (x > 0) == (v > 1), (x == 0) == (v == 1)]


def _ax_log(c, v, x):
    return [v <= x - 1, (x > 1) == (v > 0), (x == 1) == (v == 0)]


def _ax_logb(c, v, x):
    return [(x > 1) == (v > 0), (x == 1) == (v == 0)]


def _ax_log10(c, v, x):
    return _ax_logb(c, v, x) + [(x > 10) == (v > 1), (x == 10) == (v == 1)]


def _ax_log2(c, v, x):
    return [v == z3.RealVal(0) if z3.is_rational_value(x) and x.as_fraction() == 1 else z3.BoolVal(True)] + \
        [(x >= rv(2.0 ** n)) == (v >= n) for n in range(-3, 11)] + [(x == rv(2.0 ** n)) == (v == n) for n in range(-3, 11)]


def _ax_sin(c, v, x):
    o = c.apps.get(("cos", x.get_id()))
    pih = rv(math.pi) / 2
    return [v >= -1, v <= 1, z3.Implies(x == 0, v == 0),
            z3.Implies(z3.And(x > 0, x <= pih), z3.And(v > 0, v < x)),
            z3.Implies(z3.And(x < 0, x >= -pih), z3.And(v < 0, v > x)),
            z3.Implies(z3.And(x >= pih, x < PI), v > 0)] + ([v * v + o[0] * o[0] == 1] if o else [])


def _ax_cos(c, v, x):
    o = c.apps.get(("sin", x.get_id()))
    pih = rv(math.pi) / 2
    return [v >= -1, v <= 1, z3.Implies(x == 0, v == 1),
            z3.Implies(z3.And(x >= -pih, x <= pih), v >= 0),
            z3.Implies(z3.And(x > -pih, x < pih), v > 0)] + ([v * v + o[0] * o[0] == 1] if o else [])


def _ax_asin(c, v, x):
    pih = rv(math.pi) / 2
    return [v >= -pih, v <= pih, (x > 0) == (v > 0), (x < 0) == (v < 0)]


def _ax_acos(c, v, x):
    return [v >= 0, v <= PI]


def _ax_atan(c, v, x):
    pih = rv(math.pi) / 2
    return [v > -pih, v < pih, (x > 0) == (v > 0), (x < 0) == (v < 0)]


def _ax_atan2(c, v, y, x):
    return [v >= -PI, v <= PI, z3.Implies(y > 0, v > 0), z3.Implies(y < 0, v < 0)]


def _ax_tan(c, v, x):
    return []


def _ax_pow(c, v, x, y):
    return [v > 0, z3.Implies(y == 0, v == 1), z3.Implies(y == 1, v == x), z3.Implies(x == 1, v == 1),
            z3.Implies(z3.And(x > 1, y > 0), v > 1), z3.Implies(z3.And(x > 1, y < 0), v < 1),
            z3.Implies(z3.And(x < 1, y > 0), v < 1), z3.Implies(z3.And(x < 1, y < 0), v > 1),
            z3.Implies(z3.And(x > 1, y > 1), v > x), z3.Implies(z3.And(x > 1, y > 0, y < 1), v < x),
            z3.Implies(z3.And(x < 1, y > 1), v < x), z3.Implies(z3.And(x < 1, y > 0, y < 1), v > x)] + _pow_anchors(c, v, x, y)


def _pow_anchors(c, v, x, y):
    """x^y/x = x^(y-1) is monotone: compared with its value at the anchors a scenario asks for (rounded outwards)."""
    if not c.anchors or not z3.is_rational_value(y):
        return []
    q = float(y.as_fraction())
    out = []
    for a in c.anchors:
        with np.errstate(all="ignore"):
            at, slope = float(np.float64(a) ** q), float(np.float64(a) ** (q - 1))
        if 0 < at < 1e300:
            hi, lo = rv(at * (1 + 1e-9)), rv(at * (1 - 1e-9))
            if q > 0:
                out += [z3.Implies(x <= rv(a), v <= hi), z3.Implies(x >= rv(a), v >= lo)]
            else:
                out += [z3.Implies(x <= rv(a), v >= lo), z3.Implies(x >= rv(a), v <= hi)]
        if not 0 < slope < 1e300:
            continue
        up, dn = rv(a ** (q - 1) * (1 + 1e-9)), rv(a ** (q - 1) * (1 - 1e-9))
        if q > 1:
            out += [z3.Implies(x <= rv(a), v <= x * up), z3.Implies(x >= rv(a), v >= x * dn)]
        else:
            out += [z3.Implies(x <= rv(a), v >= x * dn), z3.Implies(x >= rv(a), v <= x * up)]
    return out


def _ax_gamma(c, v, x):
    return []


AXIOMS = {"sqrt": _ax_sqrt, "exp": _ax_exp, "log": _ax_log, "log10": _ax_log10, "log2": _ax_log2, "sin": _ax_sin,
          "cos": _ax_cos, "arcsin": _ax_asin, "arccos": _ax_acos, "arctan": _ax_atan, "arctan2": _ax_atan2,
          "tan": _ax_tan, "pow": _ax_pow, "expm1": lambda c, v, x: [v > -1, v >= x, (x > 0) == (v > 0)],
          "log1p": lambda c, v, x: [v <= x, (x > 0) == (v > 0)]}


def _mono1(v, a, v2, b):
    return [z3.Implies(a[0] < b[0], v < v2), z3.Implies(a[0] > b[0], v > v2)]


def _mono_dec(v, a, v2, b):
    return [z3.Implies(a[0] < b[0], v > v2), z3.Implies(a[0] > b[0], v < v2)]


def _mono_pow(v, a, v2, b):
    x, y, x2, y2 = a[0], a[1], b[0], b[1]
    return [z3.Implies(z3.And(y == y2, y > 0, x < x2), v < v2), z3.Implies(z3.And(y == y2, y > 0, x > x2), v > v2),
            z3.Implies(z3.And(y == y2, y < 0, x < x2), v > v2), z3.Implies(z3.And(y == y2, y < 0, x > x2), v < v2),
            *([z3.Implies(z3.And(y2 == y, x < x2), v * x < v2 * x2), z3.Implies(z3.And(y2 == y, x > x2), v * x > v2 * x2)]
              if z3.is_rational_value(y) and -1 < y.as_fraction() < 0 else []),
            z3.Implies(z3.And(y == -y2, x == x2), v * v2 == 1),
            # (x^y2)^y = x^(y*y2): inverse powers
            z3.Implies(z3.And(x == v2, y * y2 == 1), v == x2), z3.Implies(z3.And(x2 == v, y * y2 == 1), v2 == x)]


def _mono_sin(v, a, v2, b):
    pih = rv(math.pi) / 2
    x, y = a[0], b[0]
    inr = z3.And(x >= -pih, x <= pih, y >= -pih, y <= pih)
    return [z3.Implies(z3.And(inr, x < y), v < v2), z3.Implies(z3.And(inr, x > y), v > v2),
            z3.Implies(x == -y, v == -v2), z3.Implies(x == PI - y, v == v2)]


MONO = {"sqrt": _mono1, "exp": _mono1, "log": _mono1, "log10": _mono1, "log2": _mono1, "arcsin": _mono1,
        "arccos": _mono_dec, "arctan": _mono1, "pow": _mono_pow, "sin": _mono_sin, "expm1": _mono1, "log1p": _mono1}


def _odd(v, a, v2, b):
    return _mono1(v, a, v2, b) + [z3.Implies(a[0] == -b[0], v == -v2)]


def _acos2(v, a, v2, b):
    return _mono_dec(v, a, v2, b) + [z3.Implies(a[0] == -b[0], v == PI - v2)]


MONO["arcsin"] = MONO["arctan"] = _odd
MONO["arccos"] = _acos2


def _asin_acos(v, a, v2, b):
    """arcsin x + arccos x = pi/2"""
    return [z3.Implies(a[0] == b[0], v + v2 == PI / 2), z3.Implies(a[0] == -b[0], v2 - v == PI / 2)]


def _acos_asin(v, a, v2, b):
    return _asin_acos(v2, b, v, a)


def _inv(v, a, v2, b):
    """f(g(x)) = x where a = (g(x),)"""
    return [z3.Implies(a[0] == v2, v == b[0])]


def _inv_r(v, a, v2, b):
    return [z3.Implies(b[0] == v, v2 == a[0])]


CROSS = {("arcsin", "arccos"): _asin_acos, ("arccos", "arcsin"): _acos_asin}
# exp/log and sin/arcsin, cos/arccos, tan/arctan cancel (on the range of the inner function)
for _f, _g in (("exp", "log"), ("log", "exp"), ("sin", "arcsin"), ("cos", "arccos"), ("tan", "arctan")):
    for _k, _h in (((_f, _g), _inv), ((_g, _f), _inv_r)):
        _old = CROSS.get(_k)
        CROSS[_k] = _h if _old is None else (lambda *z, _o=_old, _n=_h: _o(*z) + _n(*z))


class Result:
    """Outcome of exploring all paths of one scenario."""

    def __init__(self, name):
        self.name = name
        self.worklist = []
        self.labels = {}
        self.obligations = 0
        self.discharged = 0
        self.failures = []
        self.unknown = []
        self.unsupported = []
        self.paths = 0
        self.infeasible = 0
        self.solver_s = 0.0
        self.branch_queries = 0
        self.backends = {}
        self.slowest = (0.0, "")
        self.funcs = set()
        self.trusted = set()
        self.budget = None

    def label(self, name):
        return self.labels.setdefault(name, {"paths": 0, "discharged": 0, "failed": 0, "unknown": 0})

    @property
    def proved(self):
        return (not self.failures and not self.unknown and not self.unsupported and self.budget is None
                and self.obligations > 0 and self.paths > 0)


def explore(name, run_path, budget_s, max_paths=4000, branch_ms=2000, ob_ms=20000, max_failures=6):
    """Depth-first exploration by re-execution; `run_path(ctx)` runs the scenario once."""
    res = Result(name)
    res.worklist.append([])
    t_end = time.time() + budget_s
    while res.worklist:
        if res.paths + res.infeasible >= max_paths or time.time() > t_end:
            res.budget = f"stopped after {res.paths} paths with {len(res.worklist)} open"
            break
        if len(res.failures) >= max_failures:
            break
        prefix = res.worklist.pop()
        c = Ctx(res, prefix, t_end, branch_ms, ob_ms)
        set_ctx(c)
        try:
            run_path(c)
            res.paths += 1
        except PathDone:
            res.paths += 1
        except Infeasible:
            res.infeasible += 1
        except Unsupported as e:
            res.unsupported.append(str(e)[:300])
            res.paths += 1
            if len(res.unsupported) > 20:
                break
        except Budget as e:
            res.budget = str(e)
            break
        except RecursionError:
            res.unsupported.append("recursion limit")
            break
        finally:
            res.funcs |= c.funcs
            set_ctx(None)
    return res
