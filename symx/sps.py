"""Stand-in for scipy.sparse holding symbolic entries (dense storage)."""

import types

import numpy as np
import scipy.sparse as sparse

from . import core
from .core import Sym, EngineLimit
from .arr import A_, mk, wrap, issym, _matmul, zeros_, SymArray


class FakeSparse:
    _symx_sparse = True
    __array_priority__ = 2000
    __array_ufunc__ = None
    ndim = 2
    fmt = "csr"

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, FakeSparse):
            self._a = arg._a
        elif sparse.issparse(arg):
            self._a = mk(arg.toarray())
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (row, col) = arg
            data, row, col = [np.asarray(x[:] if hasattr(x, "_h5fake") else x) for x in (data, row, col)]
            if shape is None:
                shape = (int(row.max()) + 1, int(col.max()) + 1)
            a = zeros_(tuple(int(s) for s in shape))
            for d, i, j in zip(data, row, col):
                a[int(i), int(j)] = a[int(i), int(j)] + d
            self._a = a
        elif isinstance(arg, tuple):
            self._a = zeros_(arg)
        else:
            a = mk(A_(arg))
            self._a = a if a.ndim == 2 else a.reshape(1, -1)

    @property
    def shape(self):
        return self._a.shape

    @property
    def size(self):
        return self.nnz

    @property
    def dtype(self):
        return np.dtype(float)

    def _mask(self):
        m = np.empty(self._a.shape, dtype=bool)
        for ix in np.ndindex(*m.shape):
            v = self._a[ix]
            m[ix] = isinstance(v, Sym) or v != 0
        return m

    @property
    def nnz(self):
        return int(self._mask().sum())

    @property
    def row(self):
        return np.nonzero(self._mask())[0].astype(np.int32)

    @property
    def col(self):
        return np.nonzero(self._mask())[1].astype(np.int32)

    coords = property(lambda self: (self.row, self.col))

    @property
    def data(self):
        m = self._mask()
        return mk([self._a[i, j] for i, j in zip(*np.nonzero(m))])

    @property
    def T(self):
        return type(self)(self._a.T)

    def transpose(self, *a):
        return self.T

    def toarray(self, *a, **k):
        return self._a.copy()

    def todense(self, *a, **k):
        return self._a.copy()

    @property
    def A(self):
        return self._a.copy()

    def reshape(self, *shape, **k):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        return type(self)(self._a.reshape(tuple(int(t) for t in shape)))

    def copy(self):
        return type(self)(self._a.copy())

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *a, **k):
        return self

    def diagonal(self):
        return mk(np.diag(A_(self._a)))

    def _bin(self, o, f):
        if isinstance(o, FakeSparse):
            return type(self)(f(self._a, o._a))
        if np.isscalar(o) or isinstance(o, Sym):
            if not isinstance(o, Sym) and o == 0:
                return type(self)(f(self._a, zeros_(self._a.shape)))
            raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")
        return f(self._a, mk(A_(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (Sym,)) or np.isscalar(o):
            return type(self)(self._a * o)
        if isinstance(o, FakeSparse):
            return type(self)(self._a * o._a)
        return type(self)(self._a * mk(A_(o)))

    __rmul__ = __mul__
    multiply = __mul__

    def __truediv__(self, o):
        return type(self)(self._a / o)

    def __neg__(self):
        return type(self)(-self._a)

    def __matmul__(self, o):
        if isinstance(o, FakeSparse):
            return type(self)(wrap(_matmul(A_(self._a), A_(o._a))))
        return wrap(_matmul(A_(self._a), A_(o)))

    def __rmatmul__(self, o):
        return wrap(_matmul(A_(o), A_(self._a)))

    dot = __matmul__

    def __getitem__(self, ix):
        r = self._a[ix]
        return type(self)(r) if isinstance(r, np.ndarray) and r.ndim == 2 else r

    def __setitem__(self, ix, v):
        self._a[ix] = v

    def __ne__(self, o):
        if isinstance(o, FakeSparse):
            if self.shape != o.shape:
                return True
            return FakeMask(np.not_equal(self._a, o._a))
        if isinstance(o, np.ndarray) or np.isscalar(o):
            return np.not_equal(self._a, o)
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, FakeSparse):
            if self.shape != o.shape:
                return False
            return FakeMask(np.equal(self._a, o._a))
        if isinstance(o, np.ndarray) or np.isscalar(o):
            return np.equal(self._a, o)
        return NotImplemented

    __hash__ = None

    def __abs__(self):
        return type(self)(abs(self._a))

    def sum(self, axis=None):
        return self._a.sum(axis=axis)

    def max(self, axis=None):
        return self._a.max(axis=axis)

    def __repr__(self):
        return f"<fake sparse {self.shape}>"


class FakeMask:
    """A sparse array of truth values."""

    ndim = 2

    def __init__(self, m):
        self.m = m

    @property
    def shape(self):
        return self.m.shape

    @property
    def nnz(self):
        return int(np.count_nonzero(self.m))

    def toarray(self):
        return self.m

    def sum(self):
        return self.nnz


class SparseMeta(type):
    """isinstance(x, sparse.sparray) is true for every fake class."""

    def __instancecheck__(cls, x):
        return isinstance(x, (FakeSparse, FakeMask))


class sparray(metaclass=SparseMeta):
    pass


def _mkclass(name, fmt):
    return type(name, (FakeSparse,), {"fmt": fmt, "format": fmt, "__module__": "scipy.sparse"})


CLS = {}
for _f in ("csr", "csc", "coo", "dia", "lil", "dok", "bsr"):
    for _k in ("array", "matrix"):
        CLS[f"{_f}_{_k}"] = _mkclass(f"{_f}_{_k}", _f)


def _to(fmt):
    def f(self, *a, **k):
        kind = "matrix" if type(self).__name__.endswith("matrix") else "array"
        return CLS[f"{fmt}_{kind}"](self._a)

    return f


for _f in ("csr", "csc", "coo", "dia", "lil", "dok", "bsr"):
    setattr(FakeSparse, "to" + _f, _to(_f))


class _Dia(FakeSparse):
    """Diagonal storage: ``data`` is (number of diagonals, columns), aligned by column as scipy does."""

    _offs = None

    def __init__(self, arg, shape=None, **k):
        if isinstance(arg, tuple) and len(arg) == 2 and not (np.isscalar(arg[0]) and shape is None):
            offs = np.atleast_1d(np.asarray(arg[1], dtype=int))
            rows = [mk(A_(d)) for d in arg[0]] if isinstance(arg[0], (list, tuple)) else None
            if rows is None:
                d = mk(A_(arg[0]))
                rows = [d] if d.ndim == 1 else list(d)
            elif rows and rows[0].ndim == 0:
                rows = [mk(A_(arg[0]))]
            if len(rows) != len(offs):
                raise ValueError(f"number of diagonals ({len(rows)}) does not match the number of offsets ({len(offs)})")
            a = zeros_(tuple(int(t) for t in shape))
            for d, o in zip(rows, offs):
                for c in range(min(a.shape[1], len(d))):
                    r = c - int(o)
                    if 0 <= r < a.shape[0]:
                        a[r, c] = d[c]
            self._a = a
            self._offs = offs
            return
        FakeSparse.__init__(self, arg, shape, **k)
        if isinstance(arg, _Dia):
            self._offs = arg._offs

    @property
    def offsets(self):
        if self._offs is None:
            m = self._mask()
            n, c = m.shape
            self._offs = np.array([o for o in range(-n + 1, c) if np.diagonal(m, o).any()] or [0])
        return self._offs

    @property
    def data(self):
        a = self._a
        out = zeros_((len(self.offsets), a.shape[1]))
        for k, o in enumerate(self.offsets):
            for c in range(a.shape[1]):
                if 0 <= c - o < a.shape[0]:
                    out[k, c] = a[int(c - o), c]
        return out


for _k in ("array", "matrix"):
    CLS[f"dia_{_k}"] = type(f"dia_{_k}", (_Dia,), {"fmt": "dia", "format": "dia", "__module__": "scipy.sparse"})


class SparseFacade(types.ModuleType):
    def __init__(self):
        super().__init__("scipy.sparse")

    def __getattr__(self, name):
        if name == "issparse":
            return lambda x: isinstance(x, (FakeSparse, FakeMask)) or sparse.issparse(x)
        if name in ("sparray", "spmatrix"):
            return sparray
        if name in CLS:
            return CLS[name]
        if name in ("diags", "diags_array"):
            def diags(d, offsets=0, shape=None, **k):
                d = mk(A_(d))
                if d.ndim == 2:
                    d = d[0]
                a = zeros_((len(d), len(d)))
                for i in range(len(d)):
                    a[i, i] = d[i]
                return CLS["dia_array"](a)

            return diags
        if name in ("eye", "eye_array", "identity"):
            return lambda n, *a, **k: CLS["dia_array"](np.eye(n, dtype=int).astype(object).view(SymArray))
        if name in ("hstack", "vstack"):
            f = np.hstack if name == "hstack" else np.vstack
            return lambda xs, *a, **k: CLS["csr_array"](f([x._a if isinstance(x, FakeSparse) else mk(A_(x)) for x in xs]))
        if name == "block_diag":
            from .lin import block_diag

            return lambda xs, *a, **k: CLS["csr_array"](block_diag(*[x._a if isinstance(x, FakeSparse) else x for x in xs]))
        obj = getattr(sparse, name)
        if callable(obj) and not isinstance(obj, type):
            def f(*a, **k):
                raise EngineLimit(f"scipy.sparse.{name}")

            return f
        return obj
