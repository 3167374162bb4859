"""Shared assumed contracts of dependencies, used at their call sites."""
import contextlib

import numpy as np
import scipy.optimize

from cratermaker.bindings import surface_bindings
from pyvc.core import SNum, fresh_real
from pyvc.kit import Kit


class Root:
    __pyvc_stub__ = True

    def __init__(self, r):
        self.root, self.converged, self.flag = r, True, "converged"


def _root(it, args, kwargs, wrap):
    """Assumed contract of the scipy root finders: a point of the bracket where the function is zero."""
    f = args[0] if args else kwargs.get("f")
    br = kwargs.get("bracket") or (args[1:3] if len(args) >= 3 else (kwargs.get("a"), kwargs.get("b")))
    fargs = kwargs.get("args", ())
    k = Kit("sym", interp=it)
    r = fresh_real("root")
    k.assume(k.and_(r >= br[0], r <= br[1]))
    v = it.call(f, (r, *fargs), {})
    k.assume(v == 0)
    return Root(r) if wrap else r


def bounded_norm(it, loc, scale, size=1, **kw):
    """Contract of bounded_norm (C02): within its bounds (one scale of the mean by default)."""
    v = fresh_real("bounded_norm")
    lo, hi = kw.get("lower_bound"), kw.get("upper_bound")
    lo = loc - scale if lo is None else lo
    hi = loc + scale if hi is None else hi
    Kit("sym", interp=it).assume((v >= lo) & (v <= hi))
    out = np.empty(1, dtype=object)
    out[0] = SNum(v.e, np.float64)
    return out


ROOT_MODELS = {scipy.optimize.root_scalar: lambda it, a, kw: _root(it, a, kw, True),
               scipy.optimize.brentq: lambda it, a, kw: _root(it, a, kw, False)}
NORM_CONTRACT = {"cratermaker.utils.montecarlo_utils:bounded_norm": bounded_norm}
ROOT = "scipy root finders: assumed to return a zero of the given function inside the bracket"


@contextlib.contextmanager
def kernel(name, fn, module=surface_bindings):
    """A stand-in for a Rust kernel (the extension is not built here)."""
    had = vars(module).get(name)
    setattr(module, name, fn)
    try:
        yield
    finally:
        if had is None:
            delattr(module, name)
        else:
            setattr(module, name, had)


def haversine(lon1=None, lat1=None, lon2=None, lat2=None, radius=None):
    a = np.sin((lat2 - lat1) / 2) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin((lon2 - lon1) / 2) ** 2
    return 2 * radius * np.arcsin(np.sqrt(np.clip(a, 0, 1)))
