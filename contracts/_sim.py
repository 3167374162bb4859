"""A small real Simulation (icosphere of 162 faces) for the contracts that need one, built natively in a scratch directory."""
import contextlib
import io
import os
import shutil
import tempfile

from pyvc.kit import Stub

TEMPLATE = {}


def simulation(production=None, **kw):
    """A fresh simulation of its own directory; the grid is built once per worker."""
    from cratermaker import Simulation
    args = dict(gridlevel=2, ask_overwrite=False, rng_seed=1, save_actions=None)
    with contextlib.redirect_stdout(io.StringIO()):
        if "dir" not in TEMPLATE:
            d = tempfile.mkdtemp(prefix="sim-template-", dir=os.environ.get("PYVC_SCRATCH"))
            Simulation(simdir=d, **args)
            TEMPLATE["dir"] = d
        d = tempfile.mkdtemp(prefix="sim-", dir=os.environ.get("PYVC_SCRATCH"))
        src = os.path.join(TEMPLATE["dir"], "surface")
        shutil.copytree(src, os.path.join(d, "surface"))
        s = Simulation(simdir=d, production=production, **{**args, **kw})
    return s


class Bar(Stub):
    """Stands in for the progress bar."""
    __pyvc_stub__ = True

    def __init__(self, it=()):
        self.it = it

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(self.it)

    def set_description(self, *a, **k):
        pass

    def update(self, *a, **k):
        pass

    def close(self):
        pass


def bar_model(it, args, kwargs):
    return Bar(args[0] if args else kwargs.get("iterable", ()))
