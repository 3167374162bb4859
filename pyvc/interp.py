"""AST interpreter for the real functions of the package under verification.

The text interpreted is the function's own source in /repo, parsed on every run (nothing is dropped except docstrings,
annotations and decorators that are plain property/classmethod/staticmethod/registration wrappers, whose effect is
taken from the imported class).  The heap is made of real instances of the real classes; symbolic leaves are
core.SNum/SBool.  Whatever the interpreter does not understand raises core.Unsupported - it never guesses.
"""
from __future__ import annotations

import ast
import builtins
import inspect
import operator
import types
import typing

import numpy as np
import z3

from . import core
from .core import EngineSignal, SBool, SNum, SymBase, TaintStr, Unsupported

PKG = "cratermaker"


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


CONTROL = (ReturnSig, BreakSig, ContinueSig)

_TREES = {}


def module_tree(path):
    if path not in _TREES:
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx.setdefault((first, n.name), n)
                idx.setdefault((n.lineno, n.name), n)
            elif isinstance(n, ast.Lambda):
                idx.setdefault((n.lineno, "<lambda>", n.col_offset), n)
        _TREES[path] = (tree, idx)
    return _TREES[path]


def func_ast(fn):
    code = fn.__code__
    _, idx = module_tree(code.co_filename)
    if code.co_name == "<lambda>":
        cands = [n for k, n in idx.items() if len(k) == 3 and k[0] == code.co_firstlineno]
        if len(cands) == 1:
            return cands[0]
        raise Unsupported(f"cannot locate lambda at {code.co_filename}:{code.co_firstlineno}")
    n = idx.get((code.co_firstlineno, code.co_name))
    if n is None:
        raise Unsupported(f"no source for {fn.__qualname__}")
    return n


def is_repo_func(f):
    return isinstance(f, types.FunctionType) and (getattr(f, "__module__", "") or "").split(".")[0] == PKG \
        and not f.__code__.co_filename.startswith("<")


def deep_sym(v, depth=0, seen=None):
    """Does `v` contain a symbolic value?"""
    if isinstance(v, SymBase) or isinstance(v, TaintStr):
        return True
    if getattr(v, "__pyvc_symbolic__", False):
        return True
    if isinstance(v, (str, bytes, int, float, bool, type(None), np.number, types.ModuleType, type, types.FunctionType)):
        return False
    if depth > 6:
        return False
    if isinstance(v, np.ndarray):
        return v.dtype == object and any(deep_sym(x, depth + 1) for x in v.ravel())
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(deep_sym(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(deep_sym(x, depth + 1) for x in v.values())
    return False


class Closure:
    """A function defined in interpreted code."""

    def __init__(self, interp, node, env, name, defaults, kwdefaults, glob, cls=None):
        self.interp, self.node, self.env = interp, node, env
        self.__name__ = self.__qualname__ = name
        self.__module__ = PKG + ".<closure>"
        self.defaults, self.kwdefaults, self.glob, self.cls = defaults, kwdefaults, glob, cls
        self.__doc__ = None

    def __call__(self, *a, **k):
        return self.interp.run_closure(self, a, k)

    def __get__(self, obj, typ=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)


HAVOC = object()


class SymRange:
    """range() with a symbolic bound: the loop is verified by induction with the invariant the contract states."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __iter__(self):
        """Without an invariant: unrolled, each iteration a branch (ends only where the path bounds the range)."""
        i = self.lo
        for _ in range(40):
            if not bool(i < self.hi):
                return
            yield i
            i = i + 1
        raise Unsupported("loop with an unbounded symbolic number of iterations and no invariant")

    def __pyvc_for__(self, it, s, env):
        if it.range_spec is None:
            for x in self:
                it.assign(s.target, x, env)
                try:
                    it.exec_block(s.body, env)
                except BreakSig:
                    return
                except ContinueSig:
                    continue
            it.exec_block(s.orelse, env)
            return
        havoc, inv = it.range_spec
        c = core.ctx()
        c.induction = True
        for label, cond in inv(self.lo):
            c.prove(f"{label} (on entry)", cond)
        which = c.choose(2)
        names = {n.id for b in [s.target, *s.body] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in names:
            if n in env.vars:
                env.vars[n] = HAVOC
        havoc()
        c.nloop = getattr(c, "nloop", 0) + 1
        i = core.SNum(z3.ToReal(z3.Int(f"iteration!{c.nloop}")), int)
        if which == 0:
            c.assume((i >= self.lo) & (i < self.hi))
            for _, cond in inv(i):
                c.assume(cond)
            it.assign(s.target, i, env)
            try:
                it.exec_block(s.body, env)
            except ContinueSig:
                pass
            except BreakSig:
                raise Unsupported("break inside a loop verified by induction") from None
            for label, cond in inv(i + 1):
                c.prove(f"{label} (maintained)", cond)
            raise core.PathDone()
        if c.branch(core.lift_bool(self.lo <= self.hi)):
            c.assume(i == self.hi)
        else:
            c.assume(i == self.lo)
        for _, cond in inv(i):
            c.assume(cond)
        it.exec_block(s.orelse, env)


class Env:
    __slots__ = ("vars", "parent", "glob", "nonlocals", "globals_", "cls", "fn", "first")

    def __init__(self, parent, glob, cls=None, fn=None):
        self.vars = {}
        self.parent = parent
        self.glob = glob
        self.nonlocals = set()
        self.globals_ = set()
        self.cls = cls
        self.fn = fn
        self.first = None

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is HAVOC:
                    raise Unsupported(f"local variable {name} carried from one loop iteration to the next")
                return v
            e = e.parent
        if name in self.glob:
            return self.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError(f"name {name!r} is not defined")

    def store(self, name, v):
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        if name in self.globals_:
            raise Unsupported("assignment to a global")
        self.vars[name] = v


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
          ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
          ast.MatMult: operator.matmul}
IOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
        ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.BitAnd: operator.iand,
        ast.BitOr: operator.ior}
CMPOPS = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq,
          ast.NotEq: operator.ne}

NATIVE_OK_TYPES = (list, dict, tuple, set, str, frozenset)


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Interp:
    def __init__(self, models=None, contracts=None, loop_specs=None, native=None):
        from . import models as M
        self.models = dict(M.MODELS)
        if models:
            self.models.update(models)
        self.contracts = contracts or {}
        self.loop_specs = loop_specs or {}
        self.range_spec = None
        self.native = native or set()  # repo functions executed natively (trusted, listed)
        self.max_unroll = 400

    # ------------------------------------------------------------------ attribute protocol
    def getattr(self, obj, name):
        if isinstance(obj, SymBase):
            try:
                return getattr(obj, name)
            except AttributeError:
                if name.startswith("__"):
                    raise
                raise Unsupported(f"attribute {name!r} of a symbolic value") from None
        if isinstance(obj, SuperProxy):
            return self.super_getattr(obj, name)
        if isinstance(obj, types.ModuleType) or isinstance(obj, Closure):
            return getattr(obj, name)
        if isinstance(obj, type):
            return self.class_getattr(obj, name)
        cls = type(obj)
        if isinstance(obj, np.ndarray):
            from .models import array_attr
            return array_attr(self, obj, name)
        if not self.repo_class(cls):
            return getattr(obj, name)
        ga = cls.__getattribute__
        if ga is not object.__getattribute__:
            if is_repo_func(ga):
                return self.call(ga, (obj, name), {})
        return self.generic_getattr(obj, cls, name)

    def generic_getattr(self, obj, cls, name, fallback=True):
        d, owner = self.mro_lookup(cls, name)
        found = owner is not None
        if found:
            tg = getattr(type(d), "__get__", None)
            ts = getattr(type(d), "__set__", None)
            if tg is not None and ts is not None:
                try:
                    return self.descr_get(d, obj, cls)
                except AttributeError:
                    h, ho = self.mro_lookup(cls, "__getattr__")
                    if ho is not None and fallback and is_repo_func(h):
                        return self.call(h, (obj, name), {})
                    raise
        dct = getattr(obj, "__dict__", None)
        if dct is not None and name in dct:
            return dct[name]
        if found:
            if tg is not None:
                return self.descr_get(d, obj, cls)
            return d
        h, ho = self.mro_lookup(cls, "__getattr__")
        if ho is not None and fallback and is_repo_func(h):
            return self.call(h, (obj, name), {})
        if ho is not None and fallback and getattr(cls, "__pyvc_stub__", False):
            return h(obj, name)     # says that the stand-in does not provide it
        if name in ("__class__", "__dict__", "__doc__", "__module__"):
            return getattr(obj, name)
        raise AttributeError(f"{cls.__name__!r} object has no attribute {name!r}")

    def super_getattr(self, sp, name):
        obj = sp.obj
        cls = obj if isinstance(obj, type) else type(obj)
        mro = cls.__mro__
        start = mro.index(sp.cls) + 1
        for k in mro[start:]:
            if name in k.__dict__:
                d = k.__dict__[name]
                if isinstance(obj, type):
                    if isinstance(d, classmethod):
                        return types.MethodType(d.__func__, obj)
                    if isinstance(d, staticmethod):
                        return d.__func__
                    return d
                if hasattr(type(d), "__get__"):
                    return self.descr_get(d, obj, cls)
                return d
        raise AttributeError(f"'super' object has no attribute {name!r}")

    @staticmethod
    def mro_lookup(cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name], k
        return None, None

    def repo_class(self, cls):
        return (cls.__module__ or "").split(".")[0] in (PKG, "contracts") or getattr(cls, "__pyvc_stub__", False)

    def class_getattr(self, cls, name):
        if not self.repo_class(cls):
            return getattr(cls, name)
        meta = type(cls)
        d, owner = self.mro_lookup(cls, name)
        if owner is None:
            return getattr(cls, name)
        if isinstance(d, classmethod):
            return types.MethodType(d.__func__, cls)
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, property) or isinstance(d, types.FunctionType):
            return d
        g = getattr(type(d), "__get__", None)
        if g is not None and is_repo_func(g):
            return self.call(g, (d, None, cls), {})
        del meta
        return getattr(cls, name)

    def descr_get(self, d, obj, cls):
        if isinstance(d, property):
            if d.fget is None:
                raise AttributeError("unreadable attribute")
            return self.call(d.fget, (obj,), {})
        if isinstance(d, types.FunctionType):
            return types.MethodType(d, obj)
        if isinstance(d, Closure):
            return types.MethodType(d, obj)
        if isinstance(d, classmethod):
            return types.MethodType(d.__func__, cls)
        if isinstance(d, staticmethod):
            return d.__func__
        g = getattr(type(d), "__get__", None)
        if g is not None and is_repo_func(g):
            return self.call(g, (d, obj, cls), {})
        return d.__get__(obj, cls)

    def setattr(self, obj, name, v):
        if isinstance(obj, SymBase):
            raise Unsupported("attribute assignment on a symbolic value")
        cls = type(obj)
        if isinstance(obj, type) or not self.repo_class(cls):
            setattr(obj, name, v)
            return
        sa, owner = self.mro_lookup(cls, "__setattr__")
        if owner is not object and owner is not None:
            if is_repo_func(sa) and not sa.__code__.co_filename.startswith("<"):
                self.call(sa, (obj, name, v), {})
                return
            setattr(obj, name, v)  # dataclass-generated frozen __setattr__: raises
            return
        self.object_setattr(obj, name, v)

    def object_setattr(self, obj, name, v):
        cls = type(obj)
        d, owner = self.mro_lookup(cls, name)
        if owner is not None:
            if isinstance(d, property):
                if d.fset is None:
                    raise AttributeError(f"property {name!r} of {cls.__name__!r} object has no setter")
                self.call(d.fset, (obj, v), {})
                return
            s = getattr(type(d), "__set__", None)
            if s is not None and is_repo_func(s):
                self.call(s, (d, obj, v), {})
                return
        object.__setattr__(obj, name, v)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        c = core.CTX
        if c is not None:
            c.check_time()
        if isinstance(f, (types.MethodType, types.BuiltinMethodType)) and not isinstance(f, types.BuiltinFunctionType):
            pass
        # 1. models
        m = self.find_model(f)
        if m is not None:
            r = m(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, (f.__self__, *args), kwargs)
        if not isinstance(f, type) and is_repo_func(getattr(f, "py_func", None)):
            f = f.py_func  # numba-compiled: the Python function it was compiled from
        if isinstance(f, Closure):
            return self.run_closure(f, args, kwargs)
        if is_repo_func(f):
            q = f"{f.__module__}:{f.__qualname__}"
            if q in self.contracts:
                c.res.trusted.add(f"contract used at call site: {q}")
                return self.contracts[q](self, *args, **kwargs)
            if q in self.native:
                return f(*args, **kwargs)
            return self.run_function(f, args, kwargs)
        if isinstance(f, types.FunctionType) and (f.__module__ or "").split(".")[0] in ("pyvc", "contracts"):
            return f(*args, **kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        # callable object of a repo class
        if self.repo_class(type(f)):
            d, owner = self.mro_lookup(type(f), "__call__")
            if owner is not None and is_repo_func(d):
                return self.call(d, (f, *args), kwargs)
        return self.call_native(f, args, kwargs)

    def find_model(self, f):
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is None and isinstance(f, types.MethodType):
            try:
                m0 = self.models.get(f.__func__)
            except TypeError:
                m0 = None
            if m0 is not None:
                slf = f.__self__
                return lambda it, a, k: m0(it, (slf, *a), k)
        if m is None and isinstance(f, types.MethodWrapperType) and f.__objclass__ is object:
            m0 = self.models.get(getattr(object, f.__name__, None))
            if m0 is not None:
                slf = f.__self__
                return lambda it, a, k: m0(it, (slf, *a), k)
        return m

    def call_native(self, f, args, kwargs):
        if deep_sym(args) or deep_sym(kwargs) or deep_sym(getattr(f, "__self__", None)):
            slf = getattr(f, "__self__", None)
            ok = (isinstance(slf, NATIVE_OK_TYPES) or isinstance(slf, SymBase) or getattr(f, "__pyvc_native__", False)
                  or getattr(type(slf), "__pyvc_stub__", False) or isinstance(slf, np.ndarray))
            if not ok:
                raise Unsupported(f"native call {getattr(f, '__qualname__', f)!s} with symbolic arguments")
            try:
                return f(*args, **kwargs)
            except (TypeError,) as e:
                raise Unsupported(f"native call {getattr(f, '__qualname__', f)!s} on symbolic values: {e}") from None
        if (getattr(f, "__module__", None) or "").startswith(("numpy", "scipy")) or isinstance(f, np.ufunc):
            from .models import shrink
            args = tuple(shrink(a) if isinstance(a, np.ndarray) else a for a in args)
        return f(*args, **kwargs)

    def construct(self, cls, args, kwargs):
        if not self.repo_class(cls):
            if issubclass(cls, BaseException):
                return cls(*args, **kwargs)
            if cls in (list, tuple, dict, set, frozenset):
                return self.construct_container(cls, args, kwargs)
            return self.call_native(cls, args, kwargs)
        if issubclass(cls, BaseException):
            return cls(*args, **kwargs)
        new, owner = self.mro_lookup(cls, "__new__")
        if owner is object:
            ab = getattr(cls, "__abstractmethods__", None)
            if ab:
                raise TypeError(f"Can't instantiate abstract class {cls.__name__}")
            obj = object.__new__(cls)
        elif isinstance(new, staticmethod) and is_repo_func(new.__func__):
            obj = self.call(new.__func__, (cls, *args), kwargs)
        else:
            obj = cls.__new__(cls)
        init, owner = self.mro_lookup(cls, "__init__")
        if owner is object:
            return obj
        if is_repo_func(init):
            self.call(init, (obj, *args), kwargs)
        else:
            # dataclass-generated: plain assignments; then __post_init__
            if inspect.isfunction(init) and init.__code__.co_filename.startswith("<"):
                post, po = self.mro_lookup(cls, "__post_init__")
                if po is not None and is_repo_func(post):
                    self.dataclass_init(cls, obj, args, kwargs)
                    self.call(post, (obj,), {})
                    return obj
            init(obj, *args, **kwargs)
        return obj

    def dataclass_init(self, cls, obj, args, kwargs):
        import dataclasses
        fs = list(dataclasses.fields(cls))
        params = [f for f in fs if f.init]
        if len(args) > len(params):
            raise TypeError(f"{cls.__name__}() takes {len(params)} arguments")
        given = dict(zip([f.name for f in params], args, strict=False))
        for kk, v in kwargs.items():
            if kk in given or kk not in {f.name for f in params}:
                raise TypeError(f"{cls.__name__}() got an unexpected keyword argument '{kk}'")
            given[kk] = v
        for f in fs:
            if f.name in given:
                v = given[f.name]
            elif f.default is not dataclasses.MISSING:
                v = f.default
            elif f.default_factory is not dataclasses.MISSING:
                v = f.default_factory()
            elif f.init:
                raise TypeError(f"{cls.__name__}() missing argument '{f.name}'")
            else:
                continue
            object.__setattr__(obj, f.name, v)

    def construct_container(self, cls, args, kwargs):
        if args and isinstance(args[0], SymBase):
            raise Unsupported("container built from a symbolic scalar")
        return cls(*args, **kwargs)

    def bind(self, a: ast.arguments, defaults, kwdefaults, args, kwargs, name):
        vars_ = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos = len(pos)
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kwargs and i >= len(a.posonlyargs):
                    raise TypeError(f"{name}() got multiple values for argument {p!r}")
                vars_[p] = args[i]
            elif p in kwargs:
                vars_[p] = kwargs.pop(p)
            else:
                j = i - (npos - len(defaults))
                if j < 0:
                    raise TypeError(f"{name}() missing 1 required positional argument: {p!r}")
                vars_[p] = defaults[j]
        if len(args) > npos:
            if a.vararg is None:
                raise TypeError(f"{name}() takes {npos} positional arguments but {len(args)} were given")
            vars_[a.vararg.arg] = tuple(args[npos:])
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vars_[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                vars_[x.arg] = kwdefaults[x.arg]
            else:
                raise TypeError(f"{name}() missing keyword-only argument {x.arg!r}")
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = kwargs
        elif kwargs:
            raise TypeError(f"{name}() got an unexpected keyword argument {next(iter(kwargs))!r}")
        return vars_

    def run_function(self, f, args, kwargs):
        w = getattr(f, "__wrapped__", None)
        if w is not None and not is_repo_func(f):
            f = w
        node = func_ast(f)
        c = core.CTX
        q = f"{f.__module__}:{f.__qualname__}"
        if c is not None:
            c.funcs.add(q)
        env = Env(None, f.__globals__, cls=self.owner_class(f), fn=f)
        if f.__closure__:
            outer = Env(None, f.__globals__)
            for nm, cell in zip(f.__code__.co_freevars, f.__closure__, strict=True):
                try:
                    outer.vars[nm] = cell.cell_contents
                except ValueError:
                    pass
            env.parent = outer
        if isinstance(node, ast.Lambda):
            env.vars = self.bind(node.args, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), args, kwargs, q)
            return self.eval(node.body, env)
        env.vars = self.bind(node.args, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), args, kwargs,
                             f.__name__)
        env.first = args[0] if args else None
        return self.run_body(node, env)

    def owner_class(self, f):
        if f.__closure__ and "__class__" in f.__code__.co_freevars:
            return f.__closure__[f.__code__.co_freevars.index("__class__")].cell_contents
        return None

    def run_closure(self, cl, args, kwargs):
        env = Env(cl.env, cl.glob, cls=cl.cls, fn=cl)
        env.vars = self.bind(cl.node.args, cl.defaults, cl.kwdefaults, args, kwargs, cl.__name__)
        env.first = args[0] if args else None
        if isinstance(cl.node, ast.Lambda):
            return self.eval(cl.node.body, env)
        return self.run_body(cl.node, env)

    def run_body(self, node, env):
        c = core.CTX
        if c is not None:
            c.depth += 1
            if c.depth > 60:
                raise Unsupported("call depth")
        try:
            if getattr(node, "_is_gen", None) is None:
                node._is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _walk_own(node))
            if node._is_gen:
                raise Unsupported(f"generator function {node.name}")
            self.exec_block(node.body, env)
        except ReturnSig as r:
            return r.v
        finally:
            if c is not None:
                c.depth -= 1
        return None

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Return(self, s, env):
        raise ReturnSig(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise BreakSig()

    def x_Continue(self, s, env):
        raise ContinueSig()

    def x_Global(self, s, env):
        env.globals_.update(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = env.lookup(t.id)
            env.store(t.id, self.iop(s.op, cur, self.eval(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(s.op, cur, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            val = self.eval(s.value, env)
            if isinstance(o, np.ndarray) and isinstance(cur, np.ndarray) and (deep_sym(val) or deep_sym(cur)):
                self.setitem(o, k, self.binop(s.op, cur, val))
            else:
                self.setitem(o, k, self.iop(s.op, cur, val))
        else:
            raise Unsupported("augmented assignment target")

    def iop(self, op, a, b):
        if isinstance(a, np.ndarray) and a.dtype != object and deep_sym(b):
            if a.base is None and a.size:
                raise Unsupported("in-place update of a native array with symbolic values")
            return self.binop(op, a, b)
        if isinstance(a, np.ndarray) and a.dtype == object and (deep_sym(a) or deep_sym(b)):
            r = self.binop(op, a, b)
            if np.shape(r) != a.shape:
                raise Unsupported("in-place update that changes shape")
            a[...] = r
            return a
        f = IOPS.get(type(op))
        if f is None or isinstance(a, (SymBase,)):
            return self.binop(op, a, b)
        return self.guard(f, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ValueError("not enough values to unpack")
                parts = vals[:i] + [vals[i:len(vals) - after]] + vals[len(vals) - after:]
                for e, x in zip(t.elts, parts, strict=True):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            if len(vals) != len(t.elts):
                raise ValueError(f"unpack: expected {len(t.elts)}, got {len(vals)}")
            for e, x in zip(t.elts, vals, strict=True):
                self.assign(e, x, env)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                del env.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                del o[self.eval_index(t.slice, env)]
            elif isinstance(t, ast.Attribute):
                delattr(self.eval(t.value, env), t.attr)

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_While(self, s, env):
        spec = self.loop_spec(s, env)
        if spec is not None:
            spec(self, s, env)
            return
        n = 0
        while self.truth(self.eval(s.test, env)):
            n += 1
            if n > self.max_unroll:
                raise Unsupported(f"while loop at line {s.lineno} exceeds the unrolling limit")
            try:
                self.exec_block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(s.orelse, env)

    def x_For(self, s, env):
        spec = self.loop_spec(s, env)
        if spec is not None:
            spec(self, s, env)
            return
        it = self.eval(s.iter, env)
        handler = getattr(it, "__pyvc_for__", None)
        if handler is not None:
            handler(self, s, env)
            return
        for x in self.iterate_live(it):
            self.assign(s.target, x, env)
            try:
                self.exec_block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(s.orelse, env)

    def loop_spec(self, s, env):
        if not self.loop_specs or env.fn is None:
            return None
        q = f"{env.fn.__module__}:{env.fn.__qualname__}"
        specs = self.loop_specs.get(q)
        if not specs:
            return None
        node = func_ast(env.fn) if isinstance(env.fn, types.FunctionType) else env.fn.node
        loops = [n for n in _walk_own(node) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        return specs.get(loops.index(s)) if s in loops else None

    def x_Raise(self, s, env):
        if s.exc is None:
            e = env
            while e is not None:
                if "__exc__" in e.vars:
                    raise e.vars["__exc__"]
                e = e.parent
            raise RuntimeError("No active exception to reraise")
        v = self.eval(s.exc, env)
        if isinstance(v, type):
            v = v()
        cause = self.eval(s.cause, env) if s.cause is not None else None
        if cause is not None:
            v.__cause__ = cause
        raise v

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise AssertionError(self.eval(s.msg, env) if s.msg else "")

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except (EngineSignal, *CONTROL):
                raise
            except BaseException as e:
                for h in s.handlers:
                    types_ = self.eval(h.type, env) if h.type is not None else BaseException
                    if isinstance(e, types_):
                        if h.name:
                            env.store(h.name, e)
                        saved = env.vars.get("__exc__")
                        env.vars["__exc__"] = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            if saved is None:
                                env.vars.pop("__exc__", None)
                            else:
                                env.vars["__exc__"] = saved
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except EngineSignal:
            raise
        except BaseException:
            self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        mgrs = []
        for item in s.items:
            m = self.eval(item.context_expr, env)
            v = self.call(self.getattr(m, "__enter__"), (), {})
            mgrs.append(m)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        try:
            self.exec_block(s.body, env)
        except EngineSignal:
            raise
        except CONTROL:
            for m in reversed(mgrs):
                self.call(self.getattr(m, "__exit__"), (None, None, None), {})
            raise
        except BaseException as e:
            for m in reversed(mgrs):
                if self.truth(self.call(self.getattr(m, "__exit__"), (type(e), e, e.__traceback__), {})):
                    return
            raise
        else:
            for m in reversed(mgrs):
                self.call(self.getattr(m, "__exit__"), (None, None, None), {})

    def x_Import(self, s, env):
        import importlib
        for a in s.names:
            mod = importlib.import_module(a.name)
            if a.asname:
                env.store(a.asname, mod)
            else:
                env.store(a.name.split(".")[0], importlib.import_module(a.name.split(".")[0]))

    def x_ImportFrom(self, s, env):
        import importlib
        mod = importlib.import_module("." * s.level + (s.module or ""), env.glob.get("__package__"))
        for a in s.names:
            try:
                v = getattr(mod, a.name)
            except AttributeError:
                v = importlib.import_module(f"{mod.__name__}.{a.name}")
            env.store(a.asname or a.name, v)

    def x_FunctionDef(self, s, env):
        if s.decorator_list:
            raise Unsupported(f"decorated nested function {s.name}")
        env.store(s.name, self.make_closure(s, env, s.name))

    def make_closure(self, node, env, name):
        return Closure(self, node, env, name, [self.eval(d, env) for d in node.args.defaults],
                       {a.arg: self.eval(d, env) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults,
                                                                 strict=True) if d is not None},
                       env.glob, cls=env.cls)

    # ------------------------------------------------------------------ expressions
    def eval(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at line {n.lineno}")
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return env.lookup(n.id)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return self.elts(n.elts, env)

    def e_Set(self, n, env):
        return set(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values, strict=True):
            if k is None:
                d.update(self.eval(v, env))
            else:
                d[self.eval(k, env)] = self.eval(v, env)
        return d

    def guard(self, f, *a):
        """Native operator; a TypeError on symbolic operands means the model is incomplete, not that the code raises."""
        try:
            return f(*a)
        except TypeError as e:
            if any(isinstance(x, np.ndarray) and deep_sym(x) for x in a):
                raise Unsupported(f"operator on symbolic arrays: {e}") from None
            raise

    def binop(self, op, a, b):
        f = BINOPS[type(op)]
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return TaintStr("<fmt>")
        # dunder defined by repo classes
        if self.repo_class(type(a)) or self.repo_class(type(b)):
            return self.guard(f, a, b)
        if isinstance(op, (ast.Add,)) and isinstance(a, TaintStr) | isinstance(b, TaintStr):
            return TaintStr("<str>")
        from .models import arr_binop
        r = arr_binop(f, a, b)
        if r is not NotImplemented:
            return r
        return self.guard(f, a, b)

    def e_BinOp(self, n, env):
        return self.binop(n.op, self.eval(n.left, env), self.eval(n.right, env))

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def e_BoolOp(self, n, env):
        v = None
        for e in n.values:
            v = self.eval(e, env)
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return v if not isinstance(v, SBool) else False
            if isinstance(n.op, ast.Or) and t:
                return v if not isinstance(v, SBool) else True
        return v

    def truth(self, v):
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, SymBase):
            return bool(v)
        if isinstance(v, np.ndarray):
            if v.dtype == object and v.size == 1:
                return bool(v.ravel()[0])
            return bool(v)
        if v is None:
            return False
        cls = type(v)
        if self.repo_class(cls):
            for nm in ("__bool__", "__len__"):
                d, o = self.mro_lookup(cls, nm)
                if o is not None and is_repo_func(d):
                    return bool(self.call(d, (v,), {}))
        return bool(v)

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = True
        for op, rn in zip(n.ops, n.comparators, strict=True):
            right = self.eval(rn, env)
            res = self.compare(op, left, right)
            if len(n.ops) > 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b
        if isinstance(op, ast.IsNot):
            return a is not b
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return ~r if isinstance(r, SBool) else not r
        f = CMPOPS[type(op)]
        from .models import arr_binop
        r = arr_binop(f, a, b)
        if r is not NotImplemented:
            return r
        if isinstance(a, (np.ndarray,)) and isinstance(b, SymBase) and isinstance(op, (ast.Eq, ast.NotEq)):
            raise Unsupported("array/symbolic equality")
        if isinstance(a, SymBase) and b is None or isinstance(b, SymBase) and a is None:
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                raise TypeError("'<' not supported between instances of 'float' and 'NoneType'")
        if isinstance(a, SymBase) and isinstance(b, str) or isinstance(b, SymBase) and isinstance(a, str):
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                raise TypeError("comparison not supported between instances of 'float' and 'str'")
        return f(a, b)

    def contains(self, coll, x):
        h = getattr(coll, "__pyvc_contains__", None)
        if h is not None:
            return h(x)
        cls = type(coll)
        if self.repo_class(cls):
            d, o = self.mro_lookup(cls, "__contains__")
            if o is not None and is_repo_func(d):
                return self.call(d, (coll, x), {})
        if isinstance(coll, dict) and isinstance(x, SymBase):
            return any(bool(k == x) for k in coll)
        if isinstance(coll, (set, frozenset)) and (isinstance(x, SymBase)):
            return any(bool(k == x) for k in coll)
        return x in coll

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            cls, first = self.find_cls(env)
            return SuperProxy(cls, first)
        if isinstance(n.func, ast.Name) and n.func.id == "locals" and not n.args:
            return dict(env.vars)
        f = self.eval(n.func, env)
        args = self.elts(n.args, env)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                for kk, vv in self.eval(k.value, env).items():
                    if kk in kwargs:
                        raise TypeError(f"got multiple values for keyword argument {kk!r}")
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    raise TypeError(f"got multiple values for keyword argument {k.arg!r}")
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, tuple(args), kwargs)

    def find_cls(self, env):
        e = env
        while e is not None:
            if e.cls is not None and e.fn is not None and e.first is not None:
                return e.cls, e.first
            e = e.parent
        raise Unsupported("super() outside a method")

    def e_Lambda(self, n, env):
        return self.make_closure(n, env, "<lambda>")

    def e_JoinedStr(self, n, env):
        parts, taint = [], False
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.eval(v.value, env)
            if deep_sym(x):
                taint = True
                parts.append("<sym>")
                continue
            if v.conversion == 114:
                x = repr(x)
            elif v.conversion == 115:
                x = self.to_str(x)
            spec = self.eval(v.format_spec, env) if v.format_spec is not None else ""
            if self.repo_class(type(x)):
                x = self.to_str(x)
            if isinstance(x, TaintStr):
                taint = True
            parts.append(format(x, spec))
        s = "".join(str.__str__(p) for p in parts)
        return TaintStr(s) if taint else s

    def to_str(self, x):
        cls = type(x)
        if self.repo_class(cls):
            d, o = self.mro_lookup(cls, "__str__")
            if o is not None and is_repo_func(d):
                return self.call(d, (x,), {})
        return str(x)

    def e_FormattedValue(self, n, env):
        x = self.eval(n.value, env)
        return TaintStr("<sym>") if deep_sym(x) else format(x)

    def e_Subscript(self, n, env):
        return self.getitem(self.eval(n.value, env), self.eval_index(n.slice, env))

    def eval_index(self, s, env):
        return self.eval(s, env)

    def e_Slice(self, n, env):
        return slice(*(None if x is None else self.eval(x, env) for x in (n.lower, n.upper, n.step)))

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        env.store(n.target.id, v)
        return v

    def getitem(self, o, k):
        from .models import arr_getitem
        if isinstance(o, np.ndarray):
            return arr_getitem(o, k)
        if isinstance(o, SymBase):
            raise TypeError("'float' object is not subscriptable")
        if isinstance(o, dict) and isinstance(k, SymBase):
            for kk, v in o.items():
                if bool(kk == k):
                    return v
            raise KeyError(k)
        if self.repo_class(type(o)) and not getattr(type(o), "__pyvc_stub__", False):
            d, ow = self.mro_lookup(type(o), "__getitem__")
            if ow is not None and is_repo_func(d):
                return self.call(d, (o, k), {})
        if isinstance(o, (list, tuple)) and isinstance(k, SNum):
            i = self.concrete_index(k, len(o))
            return o[i]
        return o[k]

    def concrete_index(self, k, n):
        for i in range(-n, n):
            if bool(k == i):
                return i
        raise IndexError("index out of range")

    def setitem(self, o, k, v):
        from .models import arr_setitem
        if isinstance(o, np.ndarray):
            arr_setitem(o, k, v)
            return
        if isinstance(o, list) and isinstance(k, SNum):
            k = self.concrete_index(k, len(o))
        o[k] = v

    # comprehensions
    def comp(self, gens, env, emit):
        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            it = self.eval(g.iter, e)
            for x in self.iterate_live(it):
                self.assign(g.target, x, e)
                if all(self.truth(self.eval(c, e)) for c in g.ifs):
                    rec(i + 1, e)
        e = Env(env, env.glob, cls=None, fn=env.fn)
        rec(0, e)

    def e_ListComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        return out

    def e_GeneratorExp(self, n, env):
        return self.e_ListComp(n, env)

    def e_SetComp(self, n, env):
        out = set()
        self.comp(n.generators, env, lambda e: out.add(self.eval(n.elt, e)))
        return out

    def e_DictComp(self, n, env):
        out = {}

        def emit(e):
            k = self.eval(n.key, e)
            out[k] = self.eval(n.value, e)
        self.comp(n.generators, env, emit)
        return out

    def iterate(self, it):
        return list(self.iterate_live(it))

    def iterate_live(self, it):
        if isinstance(it, SymBase):
            raise TypeError("'float' object is not iterable")
        if isinstance(it, np.ndarray) and it.dtype == object and it.ndim >= 1:
            for i in range(it.shape[0]):
                yield it[i]
            return
        cls = type(it)
        if self.repo_class(cls):
            d, o = self.mro_lookup(cls, "__iter__")
            if o is not None and is_repo_func(d):
                yield from self.call(d, (it,), {})
                return
        n = 0
        for x in it:
            n += 1
            if n > 20000:
                raise Unsupported("iteration limit")
            yield x


def _walk_own(node):
    """Walk a function body without descending into nested functions."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(n))


def isinstance_(obj, t):
    """isinstance that sees through symbolic numbers."""
    if isinstance(obj, SymBase):
        pt = obj.pytype
        if isinstance(t, tuple):
            return any(isinstance_(obj, x) for x in t)
        if isinstance(t, types.UnionType) or typing.get_origin(t) is typing.Union:
            return any(isinstance_(obj, x) for x in typing.get_args(t))
        if isinstance(t, type):
            if t in (SNum, SBool, SymBase):
                return isinstance(obj, t)
            return issubclass(pt, t)
        raise Unsupported(f"isinstance against {t}")
    if isinstance(t, tuple):
        return any(isinstance_(obj, x) for x in t)
    return isinstance(obj, t)
