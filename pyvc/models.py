"""Models of builtins, math and numpy on symbolic values (the trusted base of the verifier, together with core.AXIOMS).

A model returns NotImplemented when no argument is symbolic: the real function then runs natively.
numpy arrays that hold symbolic numbers are object arrays of concrete shape; elementwise operations map the scalar
model over the elements.
"""
from __future__ import annotations

import builtins
import math
import warnings

import numpy as np
import z3

from . import core
from .core import SBool, SNum, SymBase, TaintStr, Unsupported, as_num, is_num
from .interp import deep_sym, isinstance_

MODELS = {}


def model(*fns, always=False):
    def deco(m):
        def wrapped(it, args, kwargs):
            if not always and not deep_sym(args) and not deep_sym(kwargs):
                return NotImplemented
            return m(it, *args, **kwargs)
        for f in fns:
            if f is not None:
                MODELS[f] = wrapped
        return m
    return deco


# ------------------------------------------------------------------ arrays
def oarr(x):
    """Object array with the same elements."""
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (list, tuple)):
        flat = [oarr(e) if isinstance(e, (list, tuple, np.ndarray)) else e for e in x]
        if flat and all(isinstance(e, np.ndarray) for e in flat):
            shp = flat[0].shape
            out = np.empty((len(flat), *shp), dtype=object)
            for i, e in enumerate(flat):
                out[i] = e
            return out
        out = np.empty(len(flat), dtype=object)
        for i, e in enumerate(flat):
            out[i] = e
        return out
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def npify(x):
    """Element of a float64 array: numpy scalar semantics."""
    if isinstance(x, SNum):
        return SNum(x.e, np.float64)
    return x


def vec(fn, *args):
    """Apply a scalar function elementwise with broadcasting; scalars in, scalar out."""
    if any(isinstance(a, (list, tuple)) for a in args):
        args = [oarr(a) if isinstance(a, (list, tuple)) else a for a in args]
    if not any(isinstance(a, np.ndarray) for a in args):
        return fn(*args)
    arrs = np.broadcast_arrays(*[oarr(a) for a in args], subok=False)
    shape = arrs[0].shape
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        out[idx] = fn(*[a[idx] for a in arrs])
    if shape == ():
        return out[()]
    return shrink(out)


def shrink(a):
    """Back to a native dtype when nothing symbolic is left."""
    if isinstance(a, np.ndarray) and a.dtype == object and a.size and not deep_sym(a):
        try:
            return np.array(a.tolist())
        except Exception:
            return a
    return a


def arr_binop(f, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if deep_sym(a) or deep_sym(b):
            return vec(f, a, b)
    return NotImplemented


def _bools(k):
    return isinstance(k, np.ndarray) and k.dtype == object and any(isinstance(x, SBool) for x in k.ravel())


def _conc_mask(k):
    """Decide a symbolic mask (forks once per undecided element)."""
    out = np.empty(k.shape, dtype=bool)
    for i in np.ndindex(*k.shape):
        out[i] = bool(k[i])
    return out


def conc_key(k):
    if _bools(k):
        return _conc_mask(k)
    if isinstance(k, np.ndarray) and k.dtype == object and not deep_sym(k):
        return np.array(k.tolist())
    if isinstance(k, SBool):
        return bool(k)
    if isinstance(k, tuple):
        return tuple(conc_key(x) for x in k)
    if isinstance(k, SNum):
        raise Unsupported("symbolic array index")
    return k


def arr_getitem(o, k):
    r = o[conc_key(k)]
    return r


def arr_setitem(o, k, v):
    if o.dtype != object and deep_sym(v):
        raise Unsupported("symbolic store into a native array")
    if isinstance(v, (list, tuple)):
        v = oarr(v)
    o[conc_key(k)] = v


# ------------------------------------------------------------------ builtins
@model(builtins.isinstance, always=True)
def m_isinstance(it, obj, t):
    return isinstance_(obj, t)


@model(builtins.float)
def m_float(it, x=0.0):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.ravel()[0]
    if isinstance(x, SBool):
        x = x._n()
    if not isinstance(x, SNum):
        raise Unsupported("float()")
    return SNum(x.e, float)


@model(builtins.int)
def m_int(it, x=0, *a):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.ravel()[0]
    if isinstance(x, SBool):
        return x._n()
    if x.pytype is int:
        return x
    return core.trunc(x)


@model(builtins.bool)
def m_bool(it, x=False):
    return it.truth(x)


@model(builtins.range)
def m_range(it, *args):
    from .interp import SymRange
    if len(args) == 3:
        return NotImplemented
    lo, hi = (0, args[0]) if len(args) == 1 else args
    vals = [z3.simplify(as_num(x).e) for x in (lo, hi)]
    if all(z3.is_rational_value(v) for v in vals):
        return range(*[int(v.as_fraction()) for v in vals])
    return SymRange(lo, hi)


@model(builtins.abs, np.abs, np.absolute, np.fabs, math.fabs)
def m_abs(it, x):
    return vec(abs, x)


@model(builtins.round)
def m_round(it, x, nd=None):
    return core.round_(x, nd)


@model(builtins.len, always=True)
def m_len(it, x):
    if isinstance(x, SymBase):
        raise TypeError("object of type 'float' has no len()")
    cls = type(x)
    if it.repo_class(cls):
        d, o = it.mro_lookup(cls, "__len__")
        from .interp import is_repo_func
        if o is not None and is_repo_func(d):
            return it.call(d, (x,), {})
    h = getattr(x, "__pyvc_len__", None)
    if h is not None:
        return h()
    return len(x)


def smin(a, b):
    if core._nonfinite(a) or core._nonfinite(b):
        return b if bool(b < a) else a
    if isinstance(a, SNum) or isinstance(b, SNum):
        a2, b2 = as_num(a), as_num(b)
        return SNum(z3.If(b2.e < a2.e, b2.e, a2.e), a2.pytype if a2.pytype is b2.pytype else core._join(a2.pytype, b2.pytype))
    return b if b < a else a


def smax(a, b):
    if core._nonfinite(a) or core._nonfinite(b):
        return b if bool(b > a) else a
    if isinstance(a, SNum) or isinstance(b, SNum):
        a2, b2 = as_num(a), as_num(b)
        return SNum(z3.If(b2.e > a2.e, b2.e, a2.e), a2.pytype if a2.pytype is b2.pytype else core._join(a2.pytype, b2.pytype))
    return b if b > a else a


def _minmax(fn, it, args, key=None, default=None):
    xs = it.iterate(args[0]) if len(args) == 1 else list(args)
    if not xs:
        if default is not None:
            return default
        raise ValueError("min() arg is an empty sequence")
    for x in xs:
        if x is None or isinstance(x, str):
            raise TypeError("'<' not supported")
    if key is not None:
        best, bk = xs[0], it.call(key, (xs[0],), {})
        for x in xs[1:]:
            k = it.call(key, (x,), {})
            if (bool(k < bk) if fn is smin else bool(k > bk)):
                best, bk = x, k
        return best
    r = xs[0]
    for x in xs[1:]:
        r = fn(r, x)
    return r


@model(builtins.min)
def m_min(it, *args, key=None, default=None):
    return _minmax(smin, it, args, key, default)


@model(builtins.max)
def m_max(it, *args, key=None, default=None):
    return _minmax(smax, it, args, key, default)


@model(builtins.sum)
def m_sum(it, xs, start=0):
    for x in it.iterate(xs):
        start = start + x
    return start


@model(builtins.any, np.any)
def m_any(it, xs, **k):
    if isinstance(xs, SymBase):
        return xs if isinstance(xs, SBool) else xs != 0
    vals = list(oarr(xs).ravel()) if isinstance(xs, np.ndarray) else it.iterate(xs)
    r = False
    for x in vals:
        if isinstance(x, SBool):
            r = SBool(z3.Or(core.lift_bool(r), x.e))
        elif it.truth(x):
            return True
    return r


@model(builtins.all, np.all)
def m_all(it, xs, **k):
    if isinstance(xs, SymBase):
        return xs if isinstance(xs, SBool) else xs != 0
    vals = list(oarr(xs).ravel()) if isinstance(xs, np.ndarray) else it.iterate(xs)
    r = True
    for x in vals:
        if isinstance(x, SBool):
            r = SBool(z3.And(core.lift_bool(r), x.e))
        elif not it.truth(x):
            return False
    return r


@model(builtins.sorted)
def m_sorted(it, xs, key=None, reverse=False):
    xs = it.iterate(xs)
    ks = [x if key is None else it.call(key, (x,), {}) for x in xs]
    order = []
    for i in range(len(xs)):  # stable insertion sort, forks on symbolic comparisons
        j = len(order)
        while j > 0 and (bool(ks[order[j - 1]] < ks[i]) if reverse else bool(ks[i] < ks[order[j - 1]])):
            j -= 1
        order.insert(j, i)
    return [xs[i] for i in order]


@model(builtins.getattr, always=True)
def m_getattr(it, o, name, *d):
    try:
        return it.getattr(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


@model(builtins.hasattr, always=True)
def m_hasattr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except AttributeError:
        return False


@model(builtins.setattr, always=True)
def m_setattr(it, o, name, v):
    it.setattr(o, name, v)


@model(object.__setattr__, always=True)
def m_osetattr(it, o, name, v):
    it.object_setattr(o, name, v)


@model(object.__getattribute__, always=True)
def m_ogetattr(it, o, name):
    return it.generic_getattr(o, type(o), name, fallback=False)


@model(builtins.str, always=True)
def m_str(it, x="", *a):
    if isinstance(x, SymBase):
        return TaintStr("<sym>")
    if a:
        return str(x, *a)
    return it.to_str(x)


@model(builtins.repr)
def m_repr(it, x):
    return TaintStr("<sym>")


@model(builtins.print, always=True)
def m_print(it, *a, **k):
    return None


@model(builtins.type, always=True)
def m_type(it, x, *a):
    if isinstance(x, SymBase):
        return x.pytype
    return type(x, *a) if a else type(x)


@model(builtins.vars, always=True)
def m_vars(it, x):
    return vars(x)


@model(builtins.callable, always=True)
def m_callable(it, x):
    return callable(x)


@model(builtins.zip)
def m_zip(it, *xs, strict=False):
    ls = [it.iterate(x) for x in xs]
    if strict and len({len(x) for x in ls}) > 1:
        raise ValueError("zip() arguments have different lengths")
    return list(zip(*ls, strict=False))


@model(builtins.enumerate)
def m_enumerate(it, xs, start=0):
    return list(enumerate(it.iterate(xs), start))


@model(builtins.reversed)
def m_reversed(it, xs):
    return list(reversed(it.iterate(xs)))


@model(builtins.map)
def m_map(it, f, *xs):
    return [it.call(f, t, {}) for t in zip(*[it.iterate(x) for x in xs], strict=False)]


@model(builtins.filter)
def m_filter(it, f, xs):
    return [x for x in it.iterate(xs) if it.truth(x if f is None else it.call(f, (x,), {}))]


@model(builtins.list)
def m_list(it, xs=()):
    return it.iterate(xs)


@model(builtins.tuple)
def m_tuple(it, xs=()):
    return tuple(it.iterate(xs))


@model(builtins.set)
def m_set(it, xs=()):
    return set(it.iterate(xs))


@model(builtins.pow, math.pow)
def m_pow(it, a, b):
    return core.power(a, b)


@model(builtins.divmod)
def m_divmod(it, a, b):
    return a // b, a % b


@model(warnings.warn, always=True)
def m_warn(it, *a, **k):
    return None


try:
    from tqdm import tqdm as _tqdm

    @model(_tqdm, always=True)
    def m_tqdm(it, iterable=None, *a, **k):
        if iterable is None:
            raise Unsupported("tqdm progress object")
        return iterable
except ImportError:
    pass


# ------------------------------------------------------------------ math / numpy scalar functions
def _uf(name):
    def f(x):
        if isinstance(x, SBool):
            x = x._n()
        if isinstance(x, SNum):
            return core.app(name, x)
        return Ctx_concrete(name, x)
    return f


def Ctx_concrete(name, *x):
    return float(getattr(np, name)(*x))


def _sqrt(x):
    return core.sqrt(x) if isinstance(x, SNum) else float(np.sqrt(x))


def _log(name):
    f = _uf(name)

    def g(x):
        if isinstance(x, SNum):
            if bool(x < 0):
                return float("nan")
            if bool(x == 0):
                return float("-inf")
        return f(x)
    return g


def _arc(name):
    f = _uf(name)

    def g(x):
        if isinstance(x, SNum):
            if not bool((x >= -1) & (x <= 1)):
                return float("nan")
        return f(x)
    return g


SCALAR = {
    "sqrt": _sqrt, "exp": _uf("exp"), "log": _log("log"), "log10": _log("log10"), "log2": _log("log2"),
    "sin": _uf("sin"), "cos": _uf("cos"), "tan": _uf("tan"), "arcsin": _arc("arcsin"), "arccos": _arc("arccos"),
    "arctan": _uf("arctan"), "expm1": _uf("expm1"), "log1p": _uf("log1p"),
    "floor": lambda x: core.floor(x) if isinstance(x, SNum) else float(np.floor(x)),
    "ceil": lambda x: core.ceil(x) if isinstance(x, SNum) else float(np.ceil(x)),
    "isnan": lambda x: False if isinstance(x, SymBase) else bool(np.isnan(x)),
    "isinf": lambda x: False if isinstance(x, SymBase) else bool(np.isinf(x)),
    "isfinite": lambda x: True if isinstance(x, SymBase) else bool(np.isfinite(x)),
    "radians": lambda x: x * core.SNum(core.PI / 180, np.float64) if isinstance(x, SNum) else float(np.radians(x)),
    "degrees": lambda x: x * core.SNum(180 / core.PI, np.float64) if isinstance(x, SNum) else float(np.degrees(x)),
    "square": lambda x: x * x,
    "negative": lambda x: -x,
    "sign": lambda x: SNum(z3.If(x.e > 0, z3.RealVal(1), z3.If(x.e < 0, z3.RealVal(-1), z3.RealVal(0))), np.float64)
    if isinstance(x, SNum) else float(np.sign(x)),
}
_ALIAS = {"deg2rad": "radians", "rad2deg": "degrees"}


def _reg_unary():
    for nm, sf in SCALAR.items():
        fns = [getattr(np, nm, None)]
        mf = {"arcsin": "asin", "arccos": "acos", "arctan": "atan"}.get(nm, nm)
        if hasattr(math, mf):
            fns.append(getattr(math, mf))
        fns += [getattr(np, k) for k, v in _ALIAS.items() if v == nm]

        def mk(sf):
            def m(it, x, **k):
                k.pop("dtype", None)
                if k:
                    raise Unsupported(f"numpy keyword {list(k)}")
                r = vec(sf, x)
                return r
            return m
        model(*fns)(mk(sf))


_reg_unary()


@model(math.floor)
def m_mfloor(it, x):
    return SNum(core.floor(x).e, int)


@model(math.ceil)
def m_mceil(it, x):
    return SNum(core.ceil(x).e, int)


@model(math.trunc)
def m_mtrunc(it, x):
    return core.trunc(x)


@model(np.arctan2, math.atan2)
def m_atan2(it, y, x):
    return vec(lambda a, b: core.app("arctan2", a, b), y, x)


@model(math.hypot, np.hypot)
def m_hypot(it, a, b):
    return vec(lambda x, y: _sqrt(x * x + y * y), a, b)


@model(np.mod, np.remainder)
def m_mod(it, a, b):
    return vec(lambda x, y: core.fmod(as_num(x), as_num(y)), a, b)


@model(math.fmod, np.fmod)
def m_fmod(it, a, b):
    def f(x, y):
        x, y = as_num(x), as_num(y)
        q = core.trunc(core.div(x, y))
        return SNum(x.e - y.e * q.e, float)
    return vec(f, a, b)


@model(np.power, np.float_power)
def m_nppow(it, a, b):
    return vec(core.power, a, b)


@model(np.minimum, np.fmin)
def m_minimum(it, a, b):
    return vec(smin, a, b)


@model(np.maximum, np.fmax)
def m_maximum(it, a, b):
    return vec(smax, a, b)


@model(np.clip)
def m_clip(it, x, lo=None, hi=None, **k):
    lo, hi = k.get("a_min", lo), k.get("a_max", hi)

    def f(v):
        if lo is not None:
            v = smax(v, lo)
        if hi is not None:
            v = smin(v, hi)
        return v
    if isinstance(lo, np.ndarray) or isinstance(hi, np.ndarray):
        return vec(lambda v, a, b: smin(smax(v, a), b), x, lo, hi)
    return vec(f, x)


@model(np.where)
def m_where(it, c, *ab):
    if not ab:
        raise Unsupported("np.where with one argument on symbolic values")
    a, b = ab

    def f(cc, x, y):
        if isinstance(cc, SBool):
            if (is_num(x) or isinstance(x, SNum)) and (is_num(y) or isinstance(y, SNum)) and not core._nonfinite(x) \
                    and not core._nonfinite(y):
                x2, y2 = as_num(x), as_num(y)
                return SNum(z3.If(cc.e, x2.e, y2.e), np.float64)
            return x if bool(cc) else y
        return x if bool(cc) else y
    r = vec(f, c, a, b)
    return r if isinstance(r, np.ndarray) else oarr(r)


def _binf(f):
    def m(it, a, b, **k):
        return vec(f, a, b)
    return m


import operator as _op

for _nm, _f in (("add", _op.add), ("subtract", _op.sub), ("multiply", _op.mul), ("divide", _op.truediv),
                ("true_divide", _op.truediv), ("less", _op.lt), ("greater", _op.gt), ("less_equal", _op.le),
                ("greater_equal", _op.ge), ("equal", _op.eq), ("not_equal", _op.ne), ("floor_divide", _op.floordiv)):
    model(getattr(np, _nm))(_binf(_f))


def _lor(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return SBool(z3.Or(core.lift_bool(a), core.lift_bool(b)))
    return bool(a) or bool(b)


def _land(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return SBool(z3.And(core.lift_bool(a), core.lift_bool(b)))
    return bool(a) and bool(b)


model(np.logical_or, np.bitwise_or)(_binf(_lor))
model(np.logical_and, np.bitwise_and)(_binf(_land))


@model(np.logical_not, np.invert)
def m_lnot(it, a):
    return vec(lambda x: ~x if isinstance(x, SBool) else not x, a)


@model(np.isclose, math.isclose)
def m_isclose(it, a, b, rtol=1e-5, atol=1e-8, rel_tol=None, abs_tol=None, **k):
    raise Unsupported("isclose on symbolic values")


# ------------------------------------------------------------------ array construction
@model(np.asarray, np.array, np.asanyarray, np.ascontiguousarray)
def m_asarray(it, x, dtype=None, copy=None, **k):
    a = oarr(x)
    if isinstance(x, np.ndarray) and copy is not False:
        a = a.copy()
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        v = a[i]
        if dtype is not None and np.dtype(dtype).kind == "f":
            v = npify(as_num(v)) if isinstance(v, SymBase) else np.float64(v)
        elif isinstance(v, SNum):
            v = npify(v)
        out[i] = v
    return out


@model(np.atleast_1d)
def m_atleast1(it, x):
    a = oarr(x)
    return a.reshape(1) if a.ndim == 0 else a


@model(np.float64, np.float32)
def m_float64(it, x=0.0):
    return SNum(as_num(x).e, np.float64)


@model(np.int64, np.int32, np.uint32)
def m_int64(it, x=0):
    return core.trunc(as_num(x))


@model(np.isscalar, always=True)
def m_isscalar(it, x):
    return True if isinstance(x, SymBase) else np.isscalar(x)


@model(np.ravel)
def m_ravel(it, x, **k):
    return oarr(x).ravel()


@model(np.reshape)
def m_reshape(it, x, shape, **k):
    return oarr(x).reshape(shape)


@model(np.squeeze)
def m_squeeze(it, x, **k):
    return oarr(x).squeeze(**k)


class RecArr:
    """A numpy record array (fields of object arrays) and its records."""
    __pyvc_stub__ = True

    def __init__(self, fields, names):
        self.fields, self.names = fields, names

    def __len__(self):
        return len(self.fields[self.names[0]])

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.fields[k]
        return Rec({n: self.fields[n][k] for n in self.names}, self.names)

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("store into a record array")
        self.fields[k][...] = oarr(v)

    def __iter__(self):
        return (self[i] for i in range(len(self)))


class Rec(RecArr):
    def __len__(self):
        return len(self.names)

    def __getitem__(self, k):
        return self.fields[k if isinstance(k, str) else self.names[k]]

    def __iter__(self):
        return (self.fields[n] for n in self.names)


def _alloc(shape, dtype, fill, real):
    if isinstance(dtype, list):
        names = [d[0] for d in dtype]
        return RecArr({n: _alloc(shape, float, 0.0, None) for n in names}, names)
    if dtype is not None and np.dtype(dtype).kind != "f":
        return real()
    if int(np.prod(shape)) > 600:
        return real()
    a = np.empty(shape, dtype=object)
    a[...] = fill
    return a


@model(np.empty, always=True)
def m_empty(it, shape, dtype=None, **k):
    return _alloc(shape, dtype, 0.0, lambda: np.empty(shape, dtype, **k))


@model(np.zeros, always=True)
def m_zeros(it, shape, dtype=None, **k):
    return _alloc(shape, dtype, 0.0, lambda: np.zeros(shape, dtype, **k))


@model(np.ones, always=True)
def m_ones(it, shape, dtype=None, **k):
    return _alloc(shape, dtype, 1.0, lambda: np.ones(shape, dtype, **k))


@model(np.searchsorted)
def m_searchsorted(it, a, v, side="left", **k):
    xs = list(oarr(a))

    def one(x):
        n = 0
        for y in xs:
            if not bool(y < x if side == "left" else y <= x):
                break
            n += 1
        return n
    return vec(one, v)


@model(np.full)
def m_full(it, shape, v, dtype=None, **k):
    a = np.empty(shape, dtype=object)
    vv = oarr(v)
    a[...] = vv if vv.ndim else npify(vv[()])
    return a


@model(np.full_like)
def m_full_like(it, x, v, dtype=None, **k):
    a = np.empty(oarr(x).shape, dtype=object)
    a[...] = v
    return a


@model(np.zeros_like)
def m_zeros_like(it, x, dtype=None, **k):
    a = np.empty(oarr(x).shape, dtype=object)
    a[...] = 0.0
    return a


@model(np.ones_like)
def m_ones_like(it, x, dtype=None, **k):
    a = np.empty(oarr(x).shape, dtype=object)
    a[...] = 1.0
    return a


@model(np.empty_like)
def m_empty_like(it, x, dtype=None, **k):
    return m_zeros_like(it, x)


@model(np.concatenate)
def m_concatenate(it, xs, axis=0, **k):
    return np.concatenate([oarr(x) for x in it.iterate(xs)], axis=axis)


@model(np.stack)
def m_stack(it, xs, axis=0, **k):
    return np.stack([oarr(x) for x in it.iterate(xs)], axis=axis)


@model(np.column_stack)
def m_colstack(it, xs):
    return np.column_stack([oarr(x) for x in it.iterate(xs)])


@model(np.vstack)
def m_vstack(it, xs, **k):
    return np.vstack([oarr(x) for x in it.iterate(xs)])


@model(np.sum, np.nansum)
def m_npsum(it, x, axis=None, **k):
    a = oarr(x)
    if axis is not None:
        return np.add.reduce(a, axis=axis)
    r = 0.0
    for v in a.ravel():
        r = r + v
    return npify(r)


@model(np.mean)
def m_mean(it, x, axis=None, **k):
    a = oarr(x)
    if axis is not None:
        raise Unsupported("mean over an axis")
    return m_npsum(it, a) / a.size


@model(np.max, np.nanmax, np.amax)
def m_npmax(it, x, **k):
    if k:
        raise Unsupported("max keyword")
    a = list(oarr(x).ravel())
    r = a[0]
    for v in a[1:]:
        r = smax(r, v)
    return r


@model(np.min, np.nanmin, np.amin)
def m_npmin(it, x, **k):
    if k:
        raise Unsupported("min keyword")
    a = list(oarr(x).ravel())
    r = a[0]
    for v in a[1:]:
        r = smin(r, v)
    return r


@model(np.dot)
def m_dot(it, a, b):
    a, b = oarr(a), oarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return m_npsum(it, a * b)
    raise Unsupported("np.dot on matrices")


@model(np.cross)
def m_cross(it, a, b, **k):
    a, b = list(oarr(a)), list(oarr(b))
    return oarr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


@model(np.linalg.norm)
def m_norm(it, a, **k):
    if k:
        raise Unsupported("norm keyword")
    r = 0.0
    for x in list(oarr(a).ravel()):
        r = r + x * x
    return _sqrt(r)


@model(np.argsort)
def m_argsort(it, x, **k):
    a = list(oarr(x))
    idx = m_sorted(it, list(range(len(a))), key=lambda i: a[i])
    return np.array(idx, dtype=int)


@model(np.sort)
def m_npsort(it, x, **k):
    return oarr(m_sorted(it, list(oarr(x))))


@model(np.argmin)
def m_argmin(it, x, **k):
    a = list(oarr(x).ravel())
    b = 0
    for i in range(1, len(a)):
        if bool(a[i] < a[b]):
            b = i
    return b


@model(np.argmax)
def m_argmax(it, x, **k):
    a = list(oarr(x).ravel())
    b = 0
    for i in range(1, len(a)):
        if bool(a[i] > a[b]):
            b = i
    return b


@model(np.cumsum)
def m_cumsum(it, x, **k):
    out, s = [], 0.0
    for v in oarr(x).ravel():
        s = s + v
        out.append(s)
    return oarr(out)


@model(np.diff)
def m_diff(it, x, **k):
    a = list(oarr(x))
    return oarr([b - c for b, c in zip(a[1:], a[:-1], strict=True)])


@model(np.size)
def m_size(it, x):
    return oarr(x).size


@model(np.ndim)
def m_ndim(it, x):
    return oarr(x).ndim


@model(np.shape)
def m_shape(it, x):
    return oarr(x).shape


@model(np.copy)
def m_copy(it, x):
    return oarr(x).copy()


@model(np.expand_dims)
def m_expand(it, x, axis):
    return np.expand_dims(oarr(x), axis)


@model(np.allclose, np.array_equal)
def m_allclose(it, *a, **k):
    raise Unsupported("allclose on symbolic values")


@model(np.flip)
def m_flip(it, x, **k):
    return np.flip(oarr(x), **k)


@model(np.polynomial.polynomial.polyval)
def m_polyval(it, x, c, **k):
    cs = list(oarr(c))
    r = cs[-1] + (x * 0 if not isinstance(x, np.ndarray) else oarr(x) * 0)
    for co in reversed(cs[:-1]):
        r = r * x + co
    return r


@model(np.ndenumerate)
def m_ndenumerate(it, x):
    a = oarr(x)
    return [(i, npify(a[i])) for i in np.ndindex(a.shape)]


@model(np.vectorize, always=True)
def m_vectorize(it, f, **k):
    if k:
        return NotImplemented
    return Native(lambda *xs: vec(lambda *v: it.call(f, v, {}), *[oarr(x) for x in xs]))


@model(np.linspace)
def m_linspace(it, start, stop, num=50, **k):
    if k or not isinstance(num, int) or num > 64:
        raise Unsupported("linspace on symbolic values")
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = npify(start + (stop - start) * i / (num - 1) if num > 1 else start)
    return out


def array_attr(it, a, name):
    """Attribute of an ndarray; methods of object arrays that need the models above."""
    if a.dtype != object or not deep_sym(a):
        if a.dtype == object and name == "dtype" and a.size and all(isinstance(v, (float, int)) for v in a.ravel()):
            return np.dtype(float)
        return getattr(a, name)
    m = {"sum": m_npsum, "max": m_npmax, "min": m_npmin, "mean": m_mean, "any": m_any, "all": m_all,
         "cumsum": m_cumsum, "argsort": m_argsort, "argmin": m_argmin, "argmax": m_argmax}.get(name)
    if m is not None:
        return Native(lambda *x, **k: m(it, a, *x, **k))
    if name == "astype":
        return Native(lambda t, **k: vec((lambda v: as_num(v).astype(t)), a))
    if name == "item":
        return Native(lambda *x: (a.ravel()[x[0] if x else 0] if a.size == 1 or x else _bad_item()))
    if name in ("shape", "ndim", "size", "T", "copy", "ravel", "reshape", "flatten", "dtype", "squeeze", "tolist",
                "transpose", "fill"):
        r = getattr(a, name)
        return np.dtype(float) if name == "dtype" else (Native(r) if callable(r) else r)
    raise Unsupported(f"ndarray.{name} on symbolic values")


def _bad_item():
    raise ValueError("can only convert an array of size 1 to a Python scalar")


class Native:
    """A callable of the verifier itself."""
    __pyvc_native__ = True

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


@model(np.random.Generator.normal)
def m_normal(it, rng, loc=0.0, scale=1.0, size=None):
    if size is not None or isinstance(loc, np.ndarray) or isinstance(scale, np.ndarray):
        raise Unsupported("Generator.normal of several symbolic values")
    rng.normal()        # the stream advances by one draw; the value may be any real number
    return core.fresh_real("normal", np.float64)
