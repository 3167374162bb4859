"""Puts the code of /repo (current working tree) and the solvers on the import path."""
from __future__ import annotations

import importlib.machinery
import os
import sys
import types

REPO = os.environ.get("PYVC_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def boot():
    sys.dont_write_bytecode = True
    os.environ.setdefault("TQDM_DISABLE", "1")
    # never trust a cached .pyc of the code under verification: always compile the current source
    orig = importlib.machinery.SourceFileLoader.path_stats

    def path_stats(self, path):
        if str(path).startswith(REPO + "/"):
            raise OSError("no cache for the code under verification")
        return orig(self, path)

    importlib.machinery.SourceFileLoader.path_stats = path_stats
    if VT not in sys.path:
        sys.path.append(VT)
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import no_rust_bindings  # noqa: F401  (the sandbox has no compiled bindings)
    if not os.path.exists(os.path.join(REPO, "cratermaker", "_version.py")):
        m = types.ModuleType("cratermaker._version")
        m.__version__ = m.version = "0.0.0"
        m.__version_tuple__ = m.version_tuple = (0, 0, 0)
        sys.modules["cratermaker._version"] = m
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import cratermaker  # noqa: F401
    root = os.path.realpath(os.path.dirname(cratermaker.__file__))
    if root != os.path.realpath(os.path.join(REPO, "cratermaker")):
        raise SystemExit(f"cratermaker imported from {root}, not from {REPO}")
