"""Arrays of symbolic scalars and a facade for numpy.

SymArray is an object-dtype ndarray subclass; ufuncs and numpy functions applied
to it dispatch here.  NpFacade replaces the name `np`/`numpy` in the modules
under test, so that freshly created arrays (zeros, empty, eye, ...) can hold
symbolic values too.
"""

import types
import operator
import builtins
from fractions import Fraction

import numpy as np

from . import core
from .core import Sym, SymBool, EngineLimit, sdiv, smax, smin, ite, b_and, b_or, b_not


def issym(x):
    """Does x contain a genuinely symbolic element?"""
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(v, (Sym, SymBool)) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(issym(v) for v in x)
    if isinstance(x, dict):
        return any(issym(v) for v in x.values())
    return False


def plain(x):
    """Base-class ndarray view (object dtype for symbolic scalars)."""
    if isinstance(x, (Sym, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [plain(v) if isinstance(v, (SymArray, list, tuple)) else v for v in x]
    if type(x) is tuple:
        return tuple(plain(v) if isinstance(v, (SymArray, list, tuple)) else v for v in x)
    return x


def deobj(a):
    """Object array without symbols -> float (or int/bool) array."""
    a = np.asarray(plain(a))
    if a.dtype != object:
        return a
    vals = list(a.flat)
    if all(isinstance(v, (bool, np.bool_)) for v in vals) and vals:
        return a.astype(bool)
    out = np.empty(a.shape, dtype=float)
    flat = out.reshape(-1)
    for i, v in enumerate(vals):
        if isinstance(v, complex):
            return a.astype(complex)
        flat[i] = float(v)
    return out


def mk(x):
    """SymArray (object) from anything array-like."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            x = x.astype(object)
        return x.view(SymArray)
    return _toarray(x).view(SymArray)


def _toarray(x):
    a = np.array(plain(x) if isinstance(x, (list, tuple)) else plain(x), dtype=object)
    return a


def wrap(out):
    """Results of numpy functions: float arrays become SymArray objects."""
    if isinstance(out, SymArray):
        return out
    if isinstance(out, np.ndarray):
        if out.dtype == object:
            if out.ndim == 0:
                return out[()]
            return out.view(SymArray)
        if out.dtype.kind in "fc":
            if out.ndim == 0:
                return out[()]
            return out.astype(object).view(SymArray)
        return out
    if type(out) is tuple:
        return tuple(wrap(v) for v in out)
    if type(out) is list:
        return [wrap(v) for v in out]
    return out


def boolresult(a):
    """Object array of bools/SymBools: plain bool array if all concrete."""
    if isinstance(a, np.ndarray):
        if all(isinstance(v, (bool, np.bool_)) for v in a.flat):
            return a.astype(bool)
        return a.view(SymArray) if a.ndim else a[()]
    return a


def concretise_mask(ix):
    """Decide symbolic booleans appearing in an index (forks the path)."""
    if isinstance(ix, tuple):
        return tuple(concretise_mask(i) for i in ix)
    if isinstance(ix, SymBool):
        return bool(ix)
    if isinstance(ix, Sym):
        return operator.index(ix)
    if isinstance(ix, list):
        if any(isinstance(i, (SymBool, Sym)) for i in ix):
            return [concretise_mask(i) for i in ix]
        return ix
    if isinstance(ix, np.ndarray) and ix.dtype == object:
        vals = list(ix.flat)
        if all(isinstance(v, (bool, np.bool_, SymBool)) for v in vals):
            out = np.empty(ix.shape, dtype=bool)
        else:
            out = np.empty(ix.shape, dtype=int)
            vals = [operator.index(v) if not isinstance(v, float) else v for v in vals]
            if any(isinstance(v, float) for v in vals):
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
        f = out.reshape(-1)
        for i, v in enumerate(vals):
            f[i] = bool(v) if out.dtype == bool else v
        return out
    return ix


# ufuncs -----------------------------------------------------------------------
def _fin(x):
    if isinstance(x, (float, np.floating)):
        return bool(np.isfinite(x))
    return True


def _sqrt(x):
    if isinstance(x, Sym):
        return x.sqrt()
    if isinstance(x, Fraction):
        import math

        a, b = math.isqrt(x.numerator) if x >= 0 else 0, math.isqrt(x.denominator)
        if x >= 0 and Fraction(a, b) ** 2 == x:
            return Fraction(a, b)
    if x < 0:
        return float("nan")
    return float(np.sqrt(float(x)))


def _sign(x):
    if isinstance(x, Sym):
        return ite(x > 0, 1, ite(x < 0, -1, 0))
    return np.sign(x)


def _pow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a**b
    if isinstance(b, Fraction) and b.denominator == 1:
        b = int(b)
    if a == 0 and b < 0:
        return float("inf")
    if b == 0.5:
        return _sqrt(a)
    return a**b


def _asb(x):
    if isinstance(x, Sym):
        return x != 0
    if isinstance(x, SymBool):
        return x
    return bool(x)


def _trans(name):
    f = getattr(np, name)

    def g(x):
        if isinstance(x, (Sym, SymBool)):
            raise EngineLimit(f"np.{name} of a symbolic value")
        return float(f(float(x)))

    return g


def _invert(x):
    if isinstance(x, (bool, np.bool_, SymBool)):
        return b_not(x)
    return ~x


def _cmp(op):
    f = getattr(operator, op)

    def g(a, b):
        r = f(a, b)
        return bool(r) if isinstance(r, np.bool_) else r

    return g


SPECIAL = {
    "isnan": (lambda x: isinstance(x, (float, np.floating)) and x != x, 1),
    "isinf": (lambda x: isinstance(x, (float, np.floating)) and bool(np.isinf(x)), 1),
    "isfinite": (_fin, 1),
    "sqrt": (_sqrt, 1),
    "square": (lambda x: x * x, 1),
    "hypot": (lambda x, y: _sqrt(x * x + y * y), 2),
    "heaviside": (lambda x, h: ite(x > 0, 1, ite(x < 0, 0, h)), 2),
    "absolute": (abs, 1),
    "fabs": (abs, 1),
    "sign": (_sign, 1),
    "reciprocal": (lambda x: sdiv(1, x), 1),
    "maximum": (smax, 2),
    "minimum": (smin, 2),
    "fmax": (smax, 2),
    "fmin": (smin, 2),
    "logical_and": (lambda a, b: b_and(_asb(a), _asb(b)), 2),
    "logical_or": (lambda a, b: b_or(_asb(a), _asb(b)), 2),
    "logical_not": (lambda a: b_not(_asb(a)), 1),
    "invert": (_invert, 1),
    "equal": (_cmp("eq"), 2),
    "not_equal": (_cmp("ne"), 2),
    "less": (_cmp("lt"), 2),
    "less_equal": (_cmp("le"), 2),
    "greater": (_cmp("gt"), 2),
    "greater_equal": (_cmp("ge"), 2),
    "divide": (sdiv, 2),
    "true_divide": (sdiv, 2),
    "power": (_pow, 2),
    "float_power": (_pow, 2),
    "conjugate": (lambda x: x, 1),
    "positive": (lambda x: x, 1),
}
for _n in ("exp", "log", "log10", "log2", "sin", "cos", "tan", "exp2", "expm1", "log1p", "tanh", "sinh", "cosh", "arctan", "floor", "ceil", "rint", "trunc", "cbrt"):
    SPECIAL[_n] = (_trans(_n), 1)
BOOLOUT = {"isnan", "isinf", "isfinite", "logical_and", "logical_or", "logical_not", "invert", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "bitwise_and", "bitwise_or", "bitwise_xor"}
SPECIAL = {k: (np.frompyfunc(f, n, 1), n) for k, (f, n) in SPECIAL.items()}


def do_ufunc(ufunc, method, inputs, kw):
    out = kw.pop("out", None)
    kw.pop("casting", None)
    kw.pop("dtype", None)
    kw.pop("subok", None)
    kw.pop("order", None)
    where = kw.get("where", True)
    if where is not True:
        w = concretise_mask(where)
        kw["where"] = w
    ins = []
    for x in inputs:
        if isinstance(x, (SymArray, Sym, SymBool)):
            ins.append(plain(x))
        elif isinstance(x, np.ndarray) and x.dtype.kind in "fc":
            ins.append(x.astype(object))
        elif isinstance(x, np.ndarray) and x.dtype.kind in "iub" and method != "at" and not (method == "reduceat"):
            ins.append(x.astype(object))
        elif isinstance(x, (list, tuple)) and method == "__call__":
            ins.append(_toarray(x))
        elif hasattr(x, "_symx_sparse"):
            return NotImplemented
        else:
            ins.append(x)
    name = ufunc.__name__
    if name == "matmul":
        res = _matmul(*ins)
    elif name in ("matvec", "vecmat", "vecdot"):
        a, b = (np.asarray(x, dtype=object) for x in ins[:2])
        if kw.get("axis", -1) not in (-1, None) or "axes" in kw:
            raise EngineLimit(name)
        if name == "vecdot":
            res = plain(_reduce("add", None, np.multiply(a, b), dict(axis=-1, keepdims=False)))
        elif name == "matvec":
            res = plain(_reduce("add", None, np.multiply(a, b[..., None, :]), dict(axis=-1, keepdims=False)))
        else:
            res = plain(_reduce("add", None, np.multiply(a[..., :, None], b), dict(axis=-2, keepdims=False)))
    elif name in SPECIAL:
        f, _ = SPECIAL[name]
        if method == "reduce":
            res = _reduce(name, f, ins[0], kw)
        elif method == "__call__":
            wh = kw.pop("where", True)
            res = f(*ins, **kw)
            if wh is not True:
                base = plain(out[0]) if out is not None else np.zeros(np.shape(res), dtype=object)
                res = np.where(wh, res, base)
        else:
            res = getattr(f, method)(*ins, **kw)
    else:
        try:
            kw2 = dict(kw)
            wh = kw2.pop("where", True)
            if wh is True:
                if method == "reduce" and isinstance(ins[0], np.ndarray):
                    res = _reduce(name, ufunc, ins[0], kw2)
                else:
                    res = getattr(ufunc, method)(*ins, **kw2)
            else:
                res = getattr(ufunc, method)(*ins, where=wh, **kw2)
        except TypeError as e:
            if any(i is None for i in ins):
                raise
            if any(issym(i) for i in ins):
                raise EngineLimit(f"ufunc {name}.{method}: {e}")
            res = getattr(ufunc, method)(*[deobj(i) if isinstance(i, np.ndarray) else i for i in ins], **kw)
    if name in BOOLOUT:
        if isinstance(res, np.ndarray):
            res = boolresult(res)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            po = plain(o)
            if po.dtype.kind in "iub" and issym(res):
                raise TypeError(f"Cannot cast ufunc '{name}' output from dtype('float64') to dtype('{po.dtype}') with casting rule 'same_kind'")
            if po.dtype != object and issym(res):
                raise EngineLimit("symbolic result stored in a concrete array")
            po[...] = plain(res) if po.dtype == object else deobj(res)
            return o
    return wrap(res)


def _reduce(name, f, a, kw):
    """Reduction with numpy's behaviour for empty axes."""
    axis = kw.get("axis", 0)
    keepdims = kw.get("keepdims", False)
    initial = kw.get("initial", np._NoValue)
    where = kw.get("where", True)
    a = np.asarray(a)
    if where is not True:
        ident = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(name)
        if ident is None:
            raise EngineLimit(f"{name}.reduce with where=")
        a = np.where(where, a, np.array(ident, dtype=object))
    if axis is None:
        axis = tuple(range(a.ndim))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    axis = tuple(ax % a.ndim for ax in axis) if a.ndim else ()
    other = [i for i in range(a.ndim) if i not in axis]
    b = a.transpose(other + list(axis)).reshape([a.shape[i] for i in other] + [-1]) if a.ndim else a.reshape(1)
    oshape = tuple(a.shape[i] for i in other)
    res = np.empty(oshape, dtype=object)
    op = {"add": operator.add, "multiply": operator.mul}.get(name)
    ident = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(name, None)
    for ix in np.ndindex(*oshape):
        vals = list(b[ix]) if a.ndim else list(b)
        if initial is not np._NoValue:
            vals = [initial] + vals
        if not vals:
            if ident is None:
                raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
            res[ix] = ident
            continue
        acc = vals[0]
        if name in ("logical_and", "logical_or"):
            acc = _asb(acc)
        for v in vals[1:]:
            acc = op(acc, v) if op else f(acc, v)
        res[ix] = acc
    if keepdims:
        res = res.reshape([1 if i in axis else a.shape[i] for i in range(a.ndim)])
    if res.ndim == 0:
        return res[()]
    return res


def _matmul(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    k1 = a.shape[-1]
    k2 = b.shape[-2] if b.ndim > 1 else b.shape[0]
    if k1 != k2:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 ({k1} != {k2})")
    if k1 == 0:
        shp = (a.shape[:-1] if a.ndim > 1 else ()) + (b.shape[-1:] if b.ndim > 1 else ())
        return np.zeros(shp, dtype=object)
    return np.matmul(a.astype(object), b.astype(object))


# The array class ---------------------------------------------------------------
class SymArray(np.ndarray):
    __array_priority__ = 500

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return do_function(func, args, kwargs)

    def __getitem__(self, ix):
        out = np.ndarray.__getitem__(self, concretise_mask(ix))
        return out

    def __setitem__(self, ix, val):
        if isinstance(val, SymArray):
            val = plain(val)
        np.ndarray.__setitem__(self, concretise_mask(ix), val)

    def __contains__(self, v):
        return bool(any_(np.equal(self, v)))

    # ndarray += sparse is given up by numpy in favour of the sparse operand
    def __iadd__(self, o):
        return NotImplemented if getattr(o, "_symx_sparse", False) else np.ndarray.__iadd__(self, o)

    def __isub__(self, o):
        return NotImplemented if getattr(o, "_symx_sparse", False) else np.ndarray.__isub__(self, o)

    def astype(self, dtype, *a, **k):
        return castto(self, dtype, True)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.reshape(-1)[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.reshape(-1)[0])

    def __repr__(self):
        return f"<symarray {self.shape}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()

    def dot(self, b):
        return do_function(np.dot, (self, b), {})

    def tolist(self):
        return plain(self).tolist()

    def fill(self, v):
        self[...] = v

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return zeros_(self.shape)


def _method(name, fname=None):
    fn = getattr(np, fname or name)

    def m(self, *a, **k):
        return do_function(fn, (self,) + a, k)

    m.__name__ = name
    setattr(SymArray, name, m)


for _n in ("min", "max", "mean", "std", "var", "any", "all", "argmin", "argmax", "sum", "prod", "cumsum", "cumprod", "argsort", "round", "trace", "searchsorted", "nonzero", "clip", "ptp" if hasattr(np, "ptp") else "sum"):
    _method(_n)


def _inplace_sort(self, axis=-1, **k):
    self[...] = do_function(np.sort, (self,), {"axis": axis})


SymArray.sort = _inplace_sort


def castto(a, dtype, copy):
    """astype for object arrays."""
    if dtype is None or dtype is object:
        return a.copy() if copy else a
    k = np.dtype(dtype).kind
    if k in "fcO":
        return mk(a.copy() if copy else a)
    if k == "b":
        out = np.empty(a.shape, dtype=bool)
        f = out.reshape(-1)
        for i, v in enumerate(plain(a).flat):
            f[i] = bool(v)
        return out
    if k in "iu":
        out = np.empty(a.shape, dtype=dtype)
        f = out.reshape(-1)
        for i, v in enumerate(plain(a).flat):
            f[i] = int(v)
        return out
    raise EngineLimit(f"cast to {dtype}")


# numpy functions ------------------------------------------------------------------
H = {}


def handles(*fs):
    def deco(g):
        for f in fs:
            H[f] = g
        return g

    return deco


def do_function(func, args, kwargs):
    h = H.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if getattr(func, "__module__", "").startswith("numpy.linalg") or func in LINALG:
        from . import lin

        return lin.np_linalg(func, args, kwargs)
    pa = tuple(plain(a) for a in args)
    pk = {k: plain(v) for k, v in kwargs.items()}
    try:
        res = func(*pa, **pk)
    except (TypeError, AttributeError) as e:
        if any(issym(a) for a in args) or any(issym(v) for v in kwargs.values()):
            raise EngineLimit(f"np.{func.__name__} on symbolic data: {e}")
        pa = tuple(deobj(a) if isinstance(a, SymArray) else a for a in args)
        pk = {k: deobj(v) if isinstance(v, SymArray) else v for k, v in kwargs.items()}
        res = func(*pa, **pk)
    return wrap(res)


LINALG = set()


def A_(x):
    """plain object (or integer/bool) ndarray from array-like."""
    if isinstance(x, np.ndarray):
        return plain(x)
    if isinstance(x, (Sym, SymBool)):
        return plain(x)
    a = np.array(plain(x) if isinstance(x, (list, tuple)) else x, dtype=object) if issym(x) else np.asarray(plain(x))
    if a.dtype.kind in "fc":
        a = a.astype(object)
    return a


@handles(np.any)
def any_(a, axis=None, out=None, keepdims=False, *, where=True):
    return boolresult(_wrapb(_reduce("logical_or", SPECIAL["logical_or"][0], A_(a), dict(axis=axis, keepdims=keepdims, where=where))))


@handles(np.all)
def all_(a, axis=None, out=None, keepdims=False, *, where=True):
    return boolresult(_wrapb(_reduce("logical_and", SPECIAL["logical_and"][0], A_(a), dict(axis=axis, keepdims=keepdims, where=where))))


def _wrapb(x):
    return x


def _red(name):
    def f(a, axis=None, *rest, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        res = _reduce(name, SPECIAL[name][0] if name in SPECIAL else None, A_(a), dict(axis=axis, keepdims=keepdims if keepdims is not np._NoValue else False, initial=initial, where=where if where is not np._NoValue else True))
        if out is not None:
            plain(out)[...] = res
            return out
        return wrap(res)

    return f


sum_ = handles(np.sum)(_red("add"))
prod_ = handles(np.prod)(_red("multiply"))
max_ = handles(np.max, np.amax)(_red("maximum"))
min_ = handles(np.min, np.amin)(_red("minimum"))
handles(np.nanmax)(_red("maximum"))
handles(np.nanmin)(_red("minimum"))
handles(np.nansum)(_red("add"))


@handles(np.mean, np.average)
def mean_(a, axis=None, dtype=None, out=None, keepdims=False, weights=None, **k):
    a = A_(a)
    if weights is not None:
        w = A_(weights)
        if w.shape != a.shape:
            if w.ndim != 1 or not isinstance(axis, (int, np.integer)):
                raise EngineLimit("weighted average")
            w = w.reshape([-1 if i == axis % a.ndim else 1 for i in range(a.ndim)])
        w = np.broadcast_to(w, a.shape).astype(object)
        o = dict(axis=axis, keepdims=keepdims)
        return wrap(SPECIAL["divide"][0](_reduce("add", None, np.multiply(a.astype(object), w), dict(o)), _reduce("add", None, w, dict(o))))
    n = a.size if axis is None else int(np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
    return wrap(SPECIAL["divide"][0](_reduce("add", None, a, dict(axis=axis, keepdims=keepdims)), n))


@handles(np.var)
def var_(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = A_(a)
    m = mean_(a, axis=axis, keepdims=True)
    d = mk(a) - m
    n = a.size if axis is None else int(np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
    return wrap(SPECIAL["divide"][0](_reduce("add", None, A_(d * d), dict(axis=axis, keepdims=keepdims)), n - ddof))


@handles(np.std)
def std_(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    v = var_(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return wrap(SPECIAL["sqrt"][0](plain(v)))


@handles(np.ptp)
def ptp_(a, axis=None, out=None, keepdims=False):
    return max_(a, axis=axis, keepdims=keepdims) - min_(a, axis=axis, keepdims=keepdims)


@handles(np.cumsum)
def cumsum_(a, axis=None, **k):
    a = A_(a)
    return wrap(np.add.accumulate(a.reshape(-1) if axis is None else a, axis=0 if axis is None else axis))


@handles(np.cumprod)
def cumprod_(a, axis=None, **k):
    a = A_(a)
    return wrap(np.multiply.accumulate(a.reshape(-1) if axis is None else a, axis=0 if axis is None else axis))


def _tolQ(v):
    v = v[()] if isinstance(v, np.ndarray) and v.ndim == 0 else v
    return v if isinstance(v, (Sym, SymBool)) else core.toQ(v)


@handles(np.isclose)
def isclose_(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        fx, fy = _fin(x), _fin(y)
        if not (fx and fy):
            if isinstance(x, (Sym,)) or isinstance(y, (Sym,)):
                return False
            return bool(np.isclose(float(x), float(y), equal_nan=equal_nan))
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            return bool(np.isclose(float(x), float(y), rtol, atol))
        if core.ctx().opts.get("exact_close"):
            core.ctx().notes.add("isclose/allclose: exact equality (distinct values inside the tolerance are outside the check)")
            return x == y
        return abs(x - y) <= _tolQ(atol) + _tolQ(rtol) * abs(y)

    r = np.frompyfunc(one, 2, 1)(A_(a), A_(b))
    return boolresult(r)


@handles(np.allclose)
def allclose_(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all_(isclose_(a, b, rtol, atol, equal_nan))


@handles(np.array_equal)
def array_equal_(a, b, equal_nan=False):
    a, b = A_(a), A_(b)
    if a.shape != b.shape:
        return False
    return bool(all_(SPECIAL["equal"][0](a, b)))


handles(np.array_equiv)(array_equal_)


@handles(np.where)
def where_(c, *xy):
    if not xy:
        return np.nonzero(plain(concretise_mask(mk(c)) if A_(c).dtype == object else A_(c)))
    x, y = xy
    return wrap(np.frompyfunc(ite, 3, 1)(A_(c), A_(x), A_(y)))


@handles(np.nonzero)
def nonzero_(a):
    a = A_(a)
    m = np.empty(a.shape, dtype=bool)
    f = m.reshape(-1)
    for i, v in enumerate(a.flat):
        f[i] = bool(v)
    return np.nonzero(m)


@handles(np.flatnonzero)
def flatnonzero_(a):
    return nonzero_(A_(a).reshape(-1))[0]


@handles(np.argwhere)
def argwhere_(a):
    return np.transpose(nonzero_(a))


@handles(np.count_nonzero)
def count_nonzero_(a, axis=None, *, keepdims=False):
    a = A_(a)
    m = np.empty(a.shape, dtype=bool)
    f = m.reshape(-1)
    for i, v in enumerate(a.flat):
        f[i] = bool(v)
    return np.count_nonzero(m, axis=axis, keepdims=keepdims)


def _arg(better):
    def f(a, axis=None, out=None, *, keepdims=False):
        a = A_(a)
        if axis is None:
            v = list(a.reshape(-1))
            if not v:
                raise ValueError("attempt to get argmax of an empty sequence")
            b = 0
            for i in range(1, len(v)):
                if better(v[i], v[b]):
                    b = i
            return b
        return np.apply_along_axis(lambda r: f(r), axis, a).astype(int)

    return f


handles(np.argmax, np.nanargmax)(_arg(lambda x, y: x > y))
handles(np.argmin, np.nanargmin)(_arg(lambda x, y: x < y))


def _argsort1(v):
    """Stable insertion sort with symbolic comparisons (NaN last, as numpy)."""
    idx = []
    for i, x in enumerate(v):
        j = len(idx)
        while j > 0:
            y = v[idx[j - 1]]
            ynan = isinstance(y, float) and y != y
            xnan = isinstance(x, float) and x != x
            if xnan or not (ynan or bool(x < y)):
                break
            j -= 1
        idx.insert(j, i)
    return np.array(idx, dtype=int)


@handles(np.argsort)
def argsort_(a, axis=-1, **k):
    a = A_(a)
    if axis is None:
        a, axis = a.reshape(-1), -1
    return np.apply_along_axis(lambda r: _argsort1(list(r)), axis, a).astype(int)


@handles(np.sort)
def sort_(a, axis=-1, **k):
    a = A_(a)
    if axis is None:
        a, axis = a.reshape(-1), -1
    idx = argsort_(a, axis)
    return wrap(np.take_along_axis(a, idx, axis))


@handles(np.lexsort)
def lexsort_(keys, axis=-1):
    raise EngineLimit("lexsort")


@handles(np.unique)
def unique_(a, *args, **k):
    if issym(a):
        if args or any(k.values()):
            raise EngineLimit("unique with options on symbols")
        s = sort_(A_(a).reshape(-1))
        out = []
        for v in s:
            if not out or not bool(v == out[-1]):
                out.append(v)
        return mk(out)
    return wrap(np.unique(deobj(a), *args, **k))


@handles(np.searchsorted)
def searchsorted_(a, v, side="left", sorter=None):
    a = list(A_(a))

    def one(x):
        n = 0
        for y in a:
            if bool(y < x) if side == "left" else bool(y <= x):
                n += 1
            else:
                break
        return n

    v = A_(v)
    if v.ndim == 0:
        return one(v[()])
    return np.array([one(x) for x in v.flat], dtype=int).reshape(v.shape)


@handles(np.clip)
def clip_(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    r = A_(a)
    if a_min is not None:
        r = SPECIAL["maximum"][0](r, A_(a_min))
    if a_max is not None:
        r = SPECIAL["minimum"][0](r, A_(a_max))
    return wrap(r)


@handles(np.round, np.around)
def round_(a, decimals=0, out=None):
    return wrap(np.round(deobj(a), decimals))


@handles(np.trace)
def trace_(a, *args, **k):
    a = A_(a)
    return builtins.sum((a[i, i] for i in range(builtins.min(a.shape))), 0)


@handles(np.dot)
def dot_(a, b, out=None):
    a, b = A_(a), A_(b)
    if a.ndim == 0 or b.ndim == 0:
        return wrap(np.multiply(a, b))
    return wrap(_matmul(a, b)) if b.ndim <= 2 else wrap(np.dot(a, b))


@handles(np.vdot, np.inner)
def inner_(a, b):
    a, b = A_(a), A_(b)
    if a.ndim == 1 and b.ndim == 1:
        return wrap(_matmul(a, b))
    return wrap(np.tensordot(a, b, (-1, -1)))


@handles(np.copyto)
def copyto_(dst, src, **k):
    if k:
        raise EngineLimit("copyto with options")
    dst[...] = src


@handles(np.nan_to_num)
def nan_to_num_(x, **k):
    return x


@handles(np.array2string, np.array_repr, np.array_str)
def a2s_(a, *x, **k):
    return repr(a)


@handles(np.isreal)
def isreal_(x):
    return np.ones(np.shape(x), dtype=bool)


@handles(np.iscomplexobj)
def iscomplexobj_(x):
    return False


@handles(np.isrealobj)
def isrealobj_(x):
    return True


@handles(np.real)
def real_(x):
    return x


@handles(np.vander)
def vander_(x, N=None, increasing=False):
    x = A_(x)
    N = len(x) if N is None else N
    out = np.empty((len(x), N), dtype=object)
    for i, v in enumerate(x):
        p = 1
        for j in range(N):
            out[i, j if increasing else N - 1 - j] = p
            p = p * v
    return wrap(out)


@handles(np.linspace)
def linspace_(start, stop, num=50, endpoint=True, **k):
    if not issym(start) and not issym(stop):
        return wrap(np.linspace(float(start), float(stop), num, endpoint=endpoint, **k))
    n = num - 1 if endpoint else num
    return mk([start + (stop - start) * Fraction(i, n) for i in range(num)])


@handles(np.select)
def select_(condlist, choicelist, default=0):
    out = asarray_(default)
    for m, x in reversed(list(zip(condlist, choicelist))):
        out = where_(m, x, out)
    return out


@handles(np.interp)
def interp_(*a, **k):
    raise EngineLimit("np.interp")


# creation -----------------------------------------------------------------------
def _isfloat(dtype):
    return dtype is None or dtype is object or np.dtype(dtype).kind in "fcO"


def zeros_(shape, dtype=None, order="C", **k):
    if not _isfloat(dtype):
        return np.zeros(shape, dtype=dtype)
    a = np.empty(shape, dtype=object)
    a[...] = 0
    return a.view(SymArray)


def ones_(shape, dtype=None, order="C", **k):
    if not _isfloat(dtype):
        return np.ones(shape, dtype=dtype)
    a = np.empty(shape, dtype=object)
    a[...] = 1
    return a.view(SymArray)


def empty_(shape, dtype=None, order="C", **k):
    if not _isfloat(dtype):
        return np.empty(shape, dtype=dtype)
    a = np.empty(shape, dtype=object)
    a[...] = float("nan")  # uninitialised memory: any use is caught as a NaN
    return a.view(SymArray)


def full_(shape, fill_value, dtype=None, **k):
    if dtype is not None and not _isfloat(dtype):
        return np.full(shape, fill_value, dtype=dtype)
    if dtype is None and isinstance(fill_value, (bool, np.bool_)):
        return np.full(shape, fill_value)
    a = np.empty(shape, dtype=object)
    a[...] = plain(fill_value)
    return a.view(SymArray)


def eye_(N, M=None, k=0, dtype=None, **kw):
    if dtype is not None and not _isfloat(dtype):
        return np.eye(N, M, k, dtype=dtype)
    return np.eye(N, M, k, dtype=int).astype(object).view(SymArray)


def _shape_like(a, shape):
    if shape is not None:
        return shape
    return np.shape(plain(a))


def _dt_like(a, dtype):
    if dtype is not None:
        return dtype
    if isinstance(a, np.ndarray):
        return a.dtype
    if isinstance(a, (Sym,)) or issym(a):
        return object
    return np.asarray(a).dtype


@handles(np.gradient)
def gradient_(f, *varargs, axis=None, edge_order=1):
    f = mk(A_(f))
    axes = list(range(f.ndim)) if axis is None else [axis] if isinstance(axis, (int, np.integer)) else list(axis)
    axes = [x % f.ndim for x in axes]
    if len(varargs) == 0:
        sp = [1] * len(axes)
    elif len(varargs) == 1 and np.ndim(A_(varargs[0])) == 0:
        sp = [varargs[0]] * len(axes)
    elif len(varargs) == len(axes):
        sp = list(varargs)
    else:
        raise TypeError("invalid number of arguments")
    if edge_order not in (1, 2):
        raise ValueError("'edge_order' greater than 2 not supported")
    outs = []
    for ax, h in zip(axes, sp):
        n = f.shape[ax]
        H = A_(h)
        if H.ndim == 0:
            d = [H[()]] * (n - 1)
        elif H.ndim == 1:
            if len(H) != n:
                raise ValueError("when 1d, distances must match the length of the corresponding dimension")
            d = [H[i + 1] - H[i] for i in range(n - 1)]
        else:
            raise ValueError("distances must be either scalars or 1d")
        if n < edge_order + 1:
            raise ValueError("Shape of array too small to calculate a numerical gradient, at least (edge_order + 1) elements are required.")
        g = np.moveaxis(plain(f), ax, 0)
        out = np.zeros(g.shape, dtype=object)
        Q = core.sdiv
        for i in range(1, n - 1):
            p, q = d[i - 1], d[i]
            out[i] = g[i - 1] * Q(-q, p * (p + q)) + g[i] * Q(q - p, p * q) + g[i + 1] * Q(p, q * (p + q))
        if edge_order == 1:
            out[0] = (g[1] - g[0]) * Q(1, d[0])
            out[-1] = (g[-1] - g[-2]) * Q(1, d[-1])
        else:
            p, q = d[0], d[1]
            out[0] = g[0] * Q(-(2 * p + q), p * (p + q)) + g[1] * Q(p + q, p * q) + g[2] * Q(-p, q * (p + q))
            p, q = d[-2], d[-1]
            out[-1] = g[-3] * Q(q, p * (p + q)) + g[-2] * Q(-(p + q), p * q) + g[-1] * Q(2 * q + p, q * (p + q))
        outs.append(mk(np.moveaxis(out, 0, ax)))
    return outs[0] if len(outs) == 1 else tuple(outs)


@handles(np.zeros_like)
def zeros_like_(a, dtype=None, order="K", subok=True, shape=None, **k):
    return _sc(zeros_(_shape_like(a, shape), _dt_like(a, dtype)))


@handles(np.ones_like)
def ones_like_(a, dtype=None, order="K", subok=True, shape=None, **k):
    return _sc(ones_(_shape_like(a, shape), _dt_like(a, dtype)))


@handles(np.empty_like)
def empty_like_(a, dtype=None, order="K", subok=True, shape=None, **k):
    return _sc(empty_(_shape_like(a, shape), _dt_like(a, dtype)))


@handles(np.full_like)
def full_like_(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    dt = _dt_like(a, dtype)
    return _sc(full_(_shape_like(a, shape), fill_value, dt))


def _sc(a):
    return a


def array_(x, dtype=None, *, copy=True, ndmin=0, **k):
    if isinstance(x, np.ndarray):
        if dtype is not None:
            out = castto(mk(x), dtype, copy) if (x.dtype == object or np.dtype(dtype).kind in "fcO") else np.array(x, dtype=dtype)
        elif x.dtype.kind in "iub":
            out = np.array(x)
        else:
            out = mk(np.array(plain(x)))
    else:
        if hasattr(x, "_symx_sparse"):
            raise EngineLimit("np.array(sparse)")
        if issym(x):
            out = mk(_toarray(x))
            if dtype is not None:
                out = castto(out, dtype, False)
            elif all(isinstance(v, (bool, np.bool_)) for v in plain(out).flat):
                out = plain(out).astype(bool)
        else:
            a = np.array(plain(x) if isinstance(x, (list, tuple)) else x, dtype=None)
            if a.dtype == object and dtype is None and a.ndim and all(v is None or isinstance(v, str) for v in a.flat):
                return a
            if dtype is not None:
                out = castto(a, dtype, True) if a.dtype == object or np.dtype(dtype).kind in "fc" else np.array(a, dtype=dtype)
            elif a.dtype.kind in "fcO":
                out = mk(a)
            else:
                out = a
    while out.ndim < ndmin:
        out = out[np.newaxis]
    return out


def asarray_(x, dtype=None, **k):
    if isinstance(x, SymArray) and (dtype is None or np.dtype(dtype).kind in "fcO"):
        return x
    if isinstance(x, np.ndarray) and x.dtype.kind in "iubSU" and dtype is None:
        return x
    if isinstance(x, np.ndarray) and x.dtype == object and dtype is None:
        return x.view(SymArray)
    return array_(x, dtype=dtype, copy=False)


def fromiter_(it, dtype=None, count=-1, **k):
    x = list(it)
    if 0 <= count:
        if len(x) < count:
            raise ValueError(f"iterator too short: Expected {count} but iterator had only {len(x)} items.")
        x = x[:count]
    return array_(x, dtype=dtype)


def arange_(*a, **k):
    if issym(a) or any(issym(v) for v in k.values()):
        raise EngineLimit("symbolic arange")
    return wrap(np.arange(*a, **k))


def _atleast(n):
    def one(x):
        a = asarray_(x)
        if n == 1:
            return a.reshape(1) if a.ndim == 0 else a
        if n == 2:
            return a.reshape(1, 1) if a.ndim == 0 else a[np.newaxis, :] if a.ndim == 1 else a
        if a.ndim == 0:
            return a.reshape(1, 1, 1)
        if a.ndim == 1:
            return a[np.newaxis, :, np.newaxis]
        return a[:, :, np.newaxis] if a.ndim == 2 else a

    def f(*xs):
        r = [one(x) for x in xs]
        return r[0] if len(r) == 1 else tuple(r)

    return f


atleast_1d_ = handles(np.atleast_1d)(_atleast(1))
atleast_2d_ = handles(np.atleast_2d)(_atleast(2))
handles(np.atleast_3d)(_atleast(3))


@handles(np.ndim)
def ndim_(x):
    try:
        return x.ndim
    except AttributeError:
        return np.ndim(plain(x))


@handles(np.shape)
def shape_(x):
    try:
        return x.shape
    except AttributeError:
        return np.shape(plain(x))


def isscalar_(x):
    return isinstance(x, Sym) or np.isscalar(x)


CREATE = dict(
    zeros=zeros_, ones=ones_, empty=empty_, full=full_, eye=eye_, identity=lambda n, dtype=None, **k: eye_(n, dtype=dtype),
    array=array_, asarray=asarray_, asanyarray=asarray_, ascontiguousarray=asarray_, asfortranarray=asarray_,
    asarray_chkfinite=asarray_, fromiter=fromiter_, arange=arange_, isscalar=isscalar_,
    zeros_like=zeros_like_, ones_like=ones_like_, empty_like=empty_like_, full_like=full_like_,
    atleast_1d=atleast_1d_, atleast_2d=atleast_2d_, linspace=linspace_, copy=lambda a, **k: array_(a),
    ndim=ndim_, shape=shape_, size=lambda a, axis=None: np.size(plain(a), axis),
)


class UfuncFacade:
    """A numpy ufunc that always goes through do_ufunc."""

    def __init__(self, uf):
        self._uf = uf

    def __call__(self, *a, **k):
        return self._go("__call__", a, k)

    def _go(self, method, a, k):
        if any(isinstance(x, (np.ndarray, Sym, SymBool)) or issym(x) for x in a) and not any(hasattr(x, "_symx_sparse") for x in a):
            if all((not isinstance(x, np.ndarray)) or x.dtype.kind in "iub" for x in a) and not any(issym(x) or isinstance(x, (float, list)) for x in a):
                return wrap(getattr(self._uf, method)(*a, **k))
            if "out" in k and not isinstance(k["out"], tuple):
                k = dict(k, out=(k["out"],))
            if method == "reduce" and len(a) > 1:
                k = dict(k, axis=a[1])
                a = a[:1]
            return do_ufunc(self._uf, method, a, dict(k))
        return wrap(getattr(self._uf, method)(*a, **k))

    def reduce(self, *a, **k):
        return self._go("reduce", a, k)

    def accumulate(self, *a, **k):
        return self._go("accumulate", a, k)

    def outer(self, *a, **k):
        return self._go("outer", a, k)

    def at(self, *a, **k):
        return self._go("at", a, k)

    def __getattr__(self, n):
        return getattr(self._uf, n)


class NpFacade(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        if name in CREATE:
            out = CREATE[name]
        else:
            out = facade_of(getattr(np, name), name)
        c[name] = out
        return out


def facade_of(obj, name=""):
    """Symbolic stand-in for a numpy object (function, ufunc, submodule)."""
    if isinstance(obj, np.ufunc):
        return UfuncFacade(obj)
    if name in CREATE and getattr(np, name, None) is obj:
        return CREATE[name]
    if isinstance(obj, types.ModuleType):
        if obj is np.linalg:
            from . import lin

            return lin.LinalgFacade(np.linalg, "np")
        return obj
    if isinstance(obj, type) or not callable(obj):
        return obj
    try:
        h = H.get(obj)
    except TypeError:
        h = None
    if h is not None:
        return h

    def f(*a, **k):
        if any(isinstance(x, SymArray) or issym(x) for x in a) or any(isinstance(x, SymArray) or issym(x) for x in k.values()):
            return do_function(obj, a, k)
        return wrap(obj(*a, **k))

    f.__name__ = name
    return f
