"""Stand-ins for scipy.interpolate / integrate / special."""

import types
from fractions import Fraction

import numpy as np
import scipy.interpolate
import scipy.integrate
import scipy.special

from . import core
from .core import Sym, SymBool, EngineLimit, sdiv
from .arr import A_, mk, wrap, issym, deobj, SymArray, plain


def ctx():
    return core.ctx()


class NewtonInterp:
    """Polynomial interpolant through all points: a concrete member of the
    contract 'f(x_i) = y_i', exact over the rationals.  Requires increasing x
    when `increasing` is set, as the spline classes of scipy do."""

    increasing = True

    def __init__(self, x, y, axis=0, *a, **k):
        X = [v for v in A_(x).reshape(-1)]
        Y = mk(A_(y))
        if A_(x).ndim != 1:
            raise ValueError("`x` must be 1-dimensional.")
        if len(X) < 2:
            raise ValueError("`x` must contain at least 2 elements.")
        axis = axis % Y.ndim
        if Y.shape[axis] != len(X):
            raise ValueError("The length of `y` along `axis`=0 doesn't match the length of `x`")
        if self.increasing:
            for a_, b_ in zip(X[:-1], X[1:]):
                if not bool(b_ > a_):
                    raise ValueError("`x` must be strictly increasing sequence.")
        if axis != 0:
            Y = np.moveaxis(Y, axis, 0)
        self.axis = axis
        self.x = mk(X)
        self.Y = Y
        core.ctx().notes.add(f"{type(self).__name__}: polynomial interpolant standing for any interpolant with f(x_i)=y_i")

    def __call__(self, t, nu=0, extrapolate=None):
        T = A_(t)
        if T.ndim == 0:
            r = self._one(T[()], nu)
            return r
        if T.ndim > 1:
            if self.axis != 0:
                raise EngineLimit("nd evaluation points")
        outs = [self._one(v, nu) for v in T.reshape(-1)]
        out = np.stack([plain(np.asarray(o, dtype=object) if not isinstance(o, np.ndarray) else o) for o in outs], axis=0)
        out = mk(out).reshape(T.shape + self.Y.shape[1:])
        if self.axis != 0:
            out = np.moveaxis(out, 0, self.axis)
        return out

    def _one(self, t, nu=0):
        n = len(self.x)
        # Exact reproduction at a node that is the same term.
        out = None
        for i in range(n):
            w = self._weight(i, t, nu)
            term = self.Y[i] * w
            out = term if out is None else out + term
        return out

    def _weight(self, i, t, nu):
        others = [j for j in range(len(self.x)) if j != i]
        den = 1
        for j in others:
            den = den * (self.x[i] - self.x[j])
        if nu == 0:
            num = 1
            for j in others:
                num = num * (t - self.x[j])
        elif nu == 1:
            num = 0
            for s in others:
                p = 1
                for j in others:
                    if j != s:
                        p = p * (t - self.x[j])
                num = num + p
        else:
            raise EngineLimit("higher derivative of an interpolant")
        return sdiv(num, den)

    def derivative(self, nu=1):
        return DerivInterp(self, nu)


class DerivInterp:
    def __init__(self, f, nu):
        self.f, self.nu = f, nu

    def __call__(self, t, *a):
        return self.f(t, self.nu)


def _cls(name, inc):
    return type(name, (NewtonInterp,), {"increasing": inc, "__module__": "scipy.interpolate._symx"})


CubicSpline = _cls("CubicSpline", True)
PchipInterpolator = _cls("PchipInterpolator", True)
Akima1DInterpolator = _cls("Akima1DInterpolator", True)
BarycentricInterpolator = _cls("BarycentricInterpolator", False)
KroghInterpolator = _cls("KroghInterpolator", False)


class NDInterp:
    """Contract stand-in for N-dimensional interpolators: reproduces the data at
    nodes; elsewhere an arbitrary (fresh) value."""

    def __init__(self, points, values, *a, **k):
        P = mk(A_(points))
        self.points = P if P.ndim == 2 else P.reshape(-1, 1)
        self.values = mk(A_(values))
        if len(self.points) != len(self.values):
            raise ValueError("different number of values and points")
        core.ctx().notes.add("N-d interpolator: f(node) = value; arbitrary elsewhere")
        self._memo = []

    def __call__(self, x):
        X = mk(A_(x))
        if X.ndim == 0:
            X = X.reshape(1)
        if X.ndim == 2:
            return mk(np.stack([plain(self._one(r)) for r in X]))
        out = self._one(X)
        return out[np.newaxis] if isinstance(out, np.ndarray) else mk([out])

    def _one(self, x):
        for p, v in zip(self.points, self.values):
            if bool(np.all(p == x)):
                return v
        for p, v in self._memo:
            if bool(np.all(p == x)):
                return v
        shp = self.values.shape[1:]
        v = np.empty(shp, dtype=object)
        for ix in np.ndindex(*shp):
            v[ix] = core.ctx().fresh_var("ndi")
        v = mk(v) if shp else v[()]
        self._memo.append((x, v))
        return v


LinearNDInterpolator = type("LinearNDInterpolator", (NDInterp,), {"__module__": "scipy.interpolate._symx"})
NearestNDInterpolator = type("NearestNDInterpolator", (NDInterp,), {"__module__": "scipy.interpolate._symx"})
CloughTocher2DInterpolator = type("CloughTocher2DInterpolator", (NDInterp,), {"__module__": "scipy.interpolate._symx"})


def interp1d(x, y, kind="linear", axis=-1, **k):
    return PchipInterpolator(x, y, axis=axis)


class InterpFacade(types.ModuleType):
    def __init__(self, real):
        super().__init__("scipy.interpolate")
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        own = globals().get(name) if name in ("CubicSpline", "PchipInterpolator", "Akima1DInterpolator", "BarycentricInterpolator", "KroghInterpolator", "LinearNDInterpolator", "NearestNDInterpolator", "CloughTocher2DInterpolator", "interp1d") else None
        return own if own is not None else getattr(self.__dict__["_real"], name)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = mk(A_(y))
    y = np.moveaxis(y, axis, -1)
    if x is None:
        d = [dx] * (y.shape[-1] - 1)
    else:
        xv = mk(A_(x))
        d = [xv[i + 1] - xv[i] for i in range(len(xv) - 1)]
    out = 0
    for i, di in enumerate(d):
        out = out + (y[..., i] + y[..., i + 1]) * di * Fraction(1, 2)
    return out


def simpson(*a, **k):
    raise EngineLimit("simpson")


class IntegrateFacade(types.ModuleType):
    def __init__(self, real):
        super().__init__("scipy.integrate")
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        if name == "trapezoid":
            return trapezoid
        if name == "simpson":
            return simpson
        if name == "solve_ivp":
            return solve_ivp
        return getattr(self.__dict__["_real"], name)


def solve_ivp(*a, **k):
    hook = core.ctx().opts.get("integrate.solve_ivp")
    if hook is None:
        raise EngineLimit("solve_ivp without a stub")
    return hook(*a, **k)


class SpecialFacade(types.ModuleType):
    def __init__(self, real):
        super().__init__("scipy.special")
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        obj = getattr(self.__dict__["_real"], name)
        if not callable(obj) or isinstance(obj, type):
            return obj

        def f(*a, **k):
            if any(issym(x) for x in a):
                raise EngineLimit(f"special.{name} on symbols")
            r = obj(*[deobj(x) if isinstance(x, SymArray) else x for x in a], **k)
            return r  # concrete counts stay plain

        f.__name__ = name
        return f
