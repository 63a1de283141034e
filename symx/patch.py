"""Import the opinf sources a second time against the facades.

`real()` is the ordinary package; `symbolic()` is a fresh import of the same
source files in /repo/src during which `numpy`, `scipy.*` and `h5py` resolve to
the facades, so that everything evaluated at import time (default arguments,
class-level tables, decorators) uses them as well.
"""

import os
import sys
import types
import warnings
import importlib

import numpy as np
import scipy
import scipy.linalg
import scipy.sparse
import scipy.special
import scipy.interpolate
import scipy.integrate
import scipy.optimize
import scipy.stats
import h5py
import builtins
import math

REPO_SRC = os.environ.get("OPINF_SRC", "/repo/src")
_REAL = None
_SYM = None
_FACADES = None
EXTRA = ("opinf.utils._reprojection",)  # part of the package, not imported by it


def extras():
    for name in EXTRA:
        if os.path.exists(os.path.join(REPO_SRC, *name.split(".")) + ".py"):
            importlib.import_module(name)


def real():
    global _REAL
    if _REAL is None:
        if REPO_SRC not in sys.path:
            sys.path.insert(0, REPO_SRC)
        import opinf

        assert os.path.abspath(opinf.__file__).startswith(os.path.abspath(REPO_SRC)), opinf.__file__
        extras()
        _REAL = opinf
    return _REAL


def facades():
    from . import arr, lin, sps, h5fake, interp, stats

    NP = arr.NpFacade()
    LA = lin.LinalgFacade(scipy.linalg, "sp")
    NPLA = lin.LinalgFacade(np.linalg, "np")
    SP = sps.SparseFacade()
    H5 = h5fake.H5Facade()
    IN = interp.InterpFacade(scipy.interpolate)
    IG = interp.IntegrateFacade(scipy.integrate)
    SF = interp.SpecialFacade(scipy.special)
    ST = stats.StatsFacade(scipy.stats)
    OP = stats.OptimizeFacade(scipy.optimize)
    subs = {"linalg": LA, "sparse": SP, "interpolate": IN, "integrate": IG, "special": SF, "stats": ST, "optimize": OP}

    class ScipyFacade(types.ModuleType):
        def __getattr__(self, name):
            if name in subs:
                return subs[name]
            return getattr(scipy, name)

    out = {"math": MathFacade("math"), "numpy": NP, "numpy.linalg": NPLA, "scipy": ScipyFacade("scipy"), "h5py": H5}
    for k, v in subs.items():
        out["scipy." + k] = v
    return out


def symbolic():
    global _SYM, _FACADES
    if _SYM is None:
        real()
        mine = {k: v for k, v in sys.modules.items() if k == "opinf" or k.startswith("opinf.")}
        for k in mine:
            del sys.modules[k]
        fac = _FACADES = facades()
        saved = {k: sys.modules.get(k) for k in fac}
        sys.modules.update(fac)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                import opinf as sym

                extras()
            symmods = {k: v for k, v in sys.modules.items() if k == "opinf" or k.startswith("opinf.")}
            for v in symmods.values():
                v.__dict__.setdefault("float", SymFloat)
        finally:
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
            for k in [k for k in sys.modules if k == "opinf" or k.startswith("opinf.")]:
                del sys.modules[k]
            sys.modules.update(mine)
        _SYM = (sym, symmods)
    return _SYM[0]


class MathFacade(types.ModuleType):
    """`math` as the symbolic modules see it."""

    VIA = {"sqrt": "sqrt", "fabs": "abs", "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "hypot": "hypot", "prod": "prod", "pow": "power",
           "isclose": None, "fsum": "sum"}

    def __getattr__(self, name):
        f = getattr(math, name)
        if name not in self.VIA or self.VIA[name] is None:
            return f
        from . import arr

        def g(*a, **k):
            a = tuple(list(x) if hasattr(x, "__next__") else x for x in a)
            if not any(arr.issym(x) for x in a):
                return f(*a, **k)
            out = getattr(_FACADES["numpy"], self.VIA[name])(*[arr.asarray_(x) if isinstance(x, list) else x for x in a])
            return out.item() if isinstance(out, np.ndarray) and out.ndim == 0 else out

        g.__name__ = name
        return g


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, x):
        return issubclass(x, float)


class SymFloat(float, metaclass=_FloatMeta):
    """`float` as the symbolic modules see it: symbolic scalars pass through."""

    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        from . import core

        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = np.asarray(x).reshape(-1)[0]
        if isinstance(x, core.Sym):
            return x
        return float(x)


class active_symbolic:
    """Make function-level imports inside opinf resolve to the symbolic copy and the facades."""

    def __enter__(self):
        symbolic()
        self.imp = orig = builtins.__import__

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and globals and str(globals.get("__name__", "")).split(".")[0] == "opinf":
                if name in _FACADES:
                    return _FACADES[name] if fromlist else _FACADES[name.split(".")[0]]
            return orig(name, globals, locals, fromlist, level)

        builtins.__import__ = imp
        self.mine = {k: v for k, v in sys.modules.items() if k == "opinf" or k.startswith("opinf.")}
        sys.modules.update(_SYM[1])

    def __exit__(self, *a):
        builtins.__import__ = self.imp
        sys.modules.update(self.mine)
