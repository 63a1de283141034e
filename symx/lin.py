"""Facades for numpy.linalg and scipy.linalg.

Each routine is either computed exactly on rational terms (norms, products,
determinants, small solves) or replaced by its contract: fresh symbolic outputs
constrained by the routine's documented postcondition.
"""

import types
import warnings

import numpy as np
import scipy.linalg as la
import z3

from . import core
from .core import Sym, EngineLimit, rv, d_expr
from .arr import A_, mk, wrap, deobj, issym, plain, sum_, H, max_, eye_, zeros_
from .arr import SymArray, SPECIAL, array_


def ctx():
    return core.ctx()


def use(name):
    ctx().notes.add(name)


# norms ------------------------------------------------------------------------
def root(ss):
    """Square root of sums of squares."""
    f = np.frompyfunc(lambda x: ctx().sqrt(x, nonneg=True) if isinstance(x, Sym) else SPECIAL["sqrt"][0](x), 1, 1)
    return f(plain(ss))


def norm(a, ord=None, axis=None, keepdims=False, check_finite=True):
    if not issym(a):
        return wrap(la.norm(deobj(a), ord, axis, keepdims, check_finite=False))
    a = mk(A_(a))
    if axis is None:
        if a.ndim > 2 or a.ndim == 0:
            a = a.reshape(-1)
        if ord is None or (ord == "fro" and a.ndim == 2) or (ord == 2 and a.ndim == 1):
            out = root(sum_(a * a))
        elif ord == np.inf and a.ndim == 1:
            out = max_(abs(a))
        elif ord == 1 and a.ndim == 1:
            out = sum_(abs(a))
        elif ord == np.inf and a.ndim == 2:
            out = max_(sum_(abs(a), axis=1))
        elif ord == 1 and a.ndim == 2:
            out = max_(sum_(abs(a), axis=0))
        elif ord == 2 and a.ndim == 2 and 1 in a.shape:
            out = root(sum_(a * a))
        elif a.ndim == 1 and isinstance(ord, (int, float)) and ord > 0:
            out = sum_(abs(a) ** ord) ** (1 / ord)
        else:
            raise EngineLimit(f"norm ord={ord}")
        if keepdims:
            out = mk(np.array(plain(out), dtype=object).reshape([1] * a.ndim))
        return out
    if ord is None or ord == 2 or ord == "fro":
        if ord == 2 and isinstance(axis, tuple) and len(axis) == 2:
            raise EngineLimit("spectral norm")
        return wrap(root(sum_(a * a, axis=axis, keepdims=keepdims)))
    if ord == np.inf and not isinstance(axis, tuple):
        return max_(abs(a), axis=axis, keepdims=keepdims)
    if ord == 1 and not isinstance(axis, tuple):
        return sum_(abs(a), axis=axis, keepdims=keepdims)
    if isinstance(ord, (int, float)) and not isinstance(axis, tuple) and ord > 0:
        return sum_(abs(a) ** ord, axis=axis, keepdims=keepdims) ** (1 / ord)
    raise EngineLimit(f"norm ord={ord} axis={axis}")


# exact small linear algebra ----------------------------------------------------
def det_(A):
    A = np.asarray(plain(A), dtype=object)
    n = A.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    out = 0
    for j in range(n):
        minor = np.delete(np.delete(A, 0, 0), j, 1)
        t = A[0, j] * det_(minor)
        out = out + t if j % 2 == 0 else out - t
    return out


def adj_(A):
    A = np.asarray(plain(A), dtype=object)
    n = A.shape[0]
    out = np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = 1
        return out
    for i in range(n):
        for j in range(n):
            m = det_(np.delete(np.delete(A, i, 0), j, 1))
            out[j, i] = m if (i + j) % 2 == 0 else -m
    return out


def _sq(A):
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError("expected square matrix")


def _sym_check(a):
    return a


def solve(a, b, lower=False, overwrite_a=False, overwrite_b=False, check_finite=True, assume_a=None, transposed=False, **k):
    """A x = b.  LinAlgError on singular A (forked)."""
    sym_pos = k.get("sym_pos", False)
    A, B = A_(a), A_(b)
    _sq(A)
    if A.shape[0] != B.shape[0]:
        raise ValueError("Input b has to have same number of rows as input a")
    if transposed:
        A = A.T
    if assume_a in ("pos", "positive definite", "sym", "symmetric", "her", "hermitian") or sym_pos:
        # LAPACK reads only one triangle
        use("solve reads the upper triangle for symmetric systems")
        A = A.copy()
        n = A.shape[0]
        for i in range(n):
            for j in range(n):
                if (i > j and not lower) or (i < j and lower):
                    A[i, j] = A[j, i]
    elif assume_a in ("upper triangular",):
        A = np.triu(A)
    elif assume_a in ("lower triangular",):
        A = np.tril(A)
    elif assume_a in ("diagonal",):
        A = np.diag(np.diag(A))
    if not issym(A) and not issym(B):
        return wrap(la.solve(deobj(A), deobj(B)))
    n = A.shape[0]
    if ctx().opts.get("solve") == "contract" and issym(A):
        use("solve: fresh X with A X = B, det A != 0")
        X = np.empty(B.shape, dtype=object)
        for ix in np.ndindex(*B.shape):
            X[ix] = ctx().fresh_var("solve")
        R = np.matmul(A.astype(object), X)
        for ix in np.ndindex(*B.shape):
            define_eq(R[ix], B[ix])
        return mk(X)
    d = det_(A)
    if isinstance(d, Sym):
        if ctx().decide_zero(d):
            raise np.linalg.LinAlgError("Matrix is singular.")
    elif d == 0:
        raise np.linalg.LinAlgError("Matrix is singular.")
    use("solve: exact (adjugate over determinant), LinAlgError iff singular")
    X = np.matmul(adj_(A), B.astype(object))
    return wrap(SPECIAL["divide"][0](X, d))


def inv(a, *x, **k):
    A = A_(a)
    _sq(A)
    return solve(A, np.eye(A.shape[0], dtype=int).astype(object))


def define_eq(x, y):
    """Constrain fresh variables by x == y."""
    if isinstance(x, Sym):
        e = x.cmp(y, "eq")
    elif isinstance(y, Sym):
        e = y.cmp(x, "eq")
    else:
        if x != y:
            raise core.PathAbort("contract violated")
        return
    ctx().define(e)


def lstsq(a, b, cond=None, overwrite_a=False, overwrite_b=False, check_finite=True, lapack_driver=None, rcond=None):
    """Minimum-norm least-squares solution by its normal equations."""
    A, B = A_(a), A_(b)
    if A.ndim != 2:
        raise ValueError("Input array a should be 2D")
    if A.shape[0] != B.shape[0]:
        raise ValueError(f"Shape mismatch: a and b should have the same number of rows ({A.shape[0]} != {B.shape[0]}).")
    use("lstsq: fresh X with A'A X = A'B and X = A'W (minimum norm)")
    hook = ctx().opts.get("lstsq_hook")
    if hook is not None:
        return hook(mk(A), mk(B))
    n, k = A.shape[1], A.shape[0]
    xs = (n,) + B.shape[1:]
    memo = ctx().__dict__.setdefault("lstsq_memo", {})
    key = (A.shape, B.shape, tuple(ident(v) for v in A.flat), tuple(ident(v) for v in B.flat))
    if key in memo:  # a function of its arguments
        return memo[key][0].copy(), Opaque("residues"), Opaque("rank"), Opaque("singular values")
    X = np.empty(xs, dtype=object)
    for ix in np.ndindex(*xs):
        X[ix] = ctx().fresh_var("lstsq")
    Ao = A.astype(object)
    L = np.matmul(np.matmul(Ao.T, Ao), X)
    R = np.matmul(Ao.T, B.astype(object))
    for ix in np.ndindex(*xs):
        define_eq(L[ix], R[ix])
    if ctx().opts.get("lstsq_minnorm", False):
        W = np.empty(B.shape, dtype=object)
        for ix in np.ndindex(*B.shape):
            W[ix] = ctx().fresh_var("lsw")
        Y = np.matmul(Ao.T, W)
        for ix in np.ndindex(*xs):
            define_eq(X[ix], Y[ix])
    memo[key] = (mk(X), A, B)
    return mk(X).copy(), Opaque("residues"), Opaque("rank"), Opaque("singular values")


def ident(v):
    if isinstance(v, Sym):
        return (v.n.get_id(), d_expr(v.d).get_id() if v.d else 0)
    return v


class Opaque:
    """A routine output that no checked property depends on."""

    def __init__(self, what):
        self._what = what

    def _no(self, *a, **k):
        raise EngineLimit(f"use of {self._what}")

    __getitem__ = __iter__ = __add__ = __mul__ = __bool__ = __float__ = __lt__ = __gt__ = __len__ = _no


def svd(a, full_matrices=True, compute_uv=True, overwrite_a=False, check_finite=True, lapack_driver=None, hermitian=False):
    reg = ctx().opts.get("svd")
    A = mk(A_(a))
    if check_finite and any(isinstance(x, (float, np.floating)) and not np.isfinite(x) for x in plain(A).flat):
        raise ValueError("array must not contain infs or NaNs")
    if not issym(A) and not reg:
        r = la.svd(deobj(A), full_matrices=full_matrices, compute_uv=compute_uv)
        return wrap(r)
    if reg:
        for ent in reg:
            M, U, s, Vt = ent
            if M.shape == A.shape and _same(M, A):
                use("svd: the registered arbitrary factorisation U diag(s) V'")
                return _svd_out(U, s, Vt, full_matrices, compute_uv)
            if M.T.shape == A.shape and _same(M.T, A):
                use("svd: the registered arbitrary factorisation U diag(s) V'")
                return _svd_out(mk(Vt).T, s, mk(U).T, full_matrices, compute_uv)
    if ctx().opts.get("svd_fresh"):
        use("svd: unconstrained fresh factors (over-approximation)")
        m, n = A.shape
        k = min(m, n)
        mkf = lambda sh: mk(np.array([ctx().fresh_var("svd") for _ in range(int(np.prod(sh)))], dtype=object).reshape(sh))
        s = mkf((k,))
        return (mkf((m, m if full_matrices else k)), s, mkf((n if full_matrices else k, n))) if compute_uv else s
    if ctx().opts.get("svd_opaque"):
        return (Opaque("U"), Opaque("s"), Opaque("Vt")) if compute_uv else Opaque("s")
    raise EngineLimit("svd of an unregistered matrix")


def _svd_out(U, s, Vt, full, uv):
    U, s, Vt = mk(U), mk(s), mk(Vt)
    r = len(s)
    if not uv:
        return s.copy()
    if full:
        return U.copy(), s.copy(), Vt.copy()
    return U[:, :r].copy(), s.copy(), Vt[:r].copy()


def svdvals(a, *x, **k):
    return svd(a, compute_uv=False)


def _same(A, B):
    """Solver-decided equality of two symbolic matrices on this path."""
    es = []
    for x, y in zip(plain(A).flat, plain(B).flat):
        if isinstance(x, Sym):
            es.append(x.cmp(y, "ne"))
        elif isinstance(y, Sym):
            es.append(y.cmp(x, "ne"))
        elif x != y:
            return False
    if not es:
        return True
    e = z3.Or(*es) if len(es) > 1 else es[0]
    r, _ = ctx().query([e])
    return r == "unsat"


def eigh(a, *x, **k):
    A = mk(A_(a))
    if not issym(A):
        return wrap(la.eigh(deobj(A), **{kk: v for kk, v in k.items() if kk in ("eigvals_only", "subset_by_index")}))
    for M, w, V in ctx().opts.get("eigh", []):
        if M.shape == A.shape and _same(M, A):
            use("eigh: the registered arbitrary eigendecomposition")
            if k.get("eigvals_only"):
                return mk(w).copy()
            return mk(w).copy(), mk(V).copy()
    raise EngineLimit("eigh of an unregistered matrix")


def qr(a, *x, **k):
    if issym(a):
        raise EngineLimit("qr of a symbolic matrix")
    return wrap(la.qr(deobj(a), *x, **k))


def cond(a, p=None):
    if issym(a):
        # The condition number is reported, never used in a checked result.
        return ctx().fresh_var("cond")
    return np.linalg.cond(deobj(a), p)


def khatri_rao(a, b):
    a, b = A_(a), A_(b)
    if not (a.ndim == 2 and b.ndim == 2):
        raise ValueError("The both arrays should be 2-dimensional.")
    if not a.shape[1] == b.shape[1]:
        raise ValueError("The number of columns for both arrays should be equal.")
    c = a[:, np.newaxis, :] * b[np.newaxis, :, :]
    return wrap(np.asarray(c, dtype=object).reshape((-1,) + c.shape[2:]))


def block_diag(*arrs):
    arrs = [A_(x) for x in arrs]
    arrs = [x.reshape(1, -1) if x.ndim < 2 else x for x in arrs]
    R = sum(x.shape[0] for x in arrs)
    C = sum(x.shape[1] for x in arrs)
    out = zeros_((R, C))
    r = c = 0
    for x in arrs:
        out[r:r + x.shape[0], c:c + x.shape[1]] = x
        r += x.shape[0]
        c += x.shape[1]
    return out


def cho_factor(a, lower=False, **k):
    return ("cho", mk(A_(a)).copy(), lower)


def cho_solve(c_and_lower, b, **k):
    return solve(c_and_lower[1], b, assume_a="pos", lower=c_and_lower[2])


def cholesky(a, lower=False, **k):
    """Exact Cholesky factor for small matrices (square roots fork on sign)."""
    A = A_(a)
    n = A.shape[0]
    L = zeros_((n, n))
    for j in range(n):
        s = A[j, j]
        for t in range(j):
            s = s - L[j, t] * L[j, t]
        if bool(s <= 0):
            raise np.linalg.LinAlgError("Matrix is not positive definite")
        L[j, j] = SPECIAL["sqrt"][0](s)
        for i in range(j + 1, n):
            t_ = A[i, j]
            for t in range(j):
                t_ = t_ - L[i, t] * L[j, t]
            L[i, j] = core.sdiv(t_, L[j, j])
    return L if lower else L.T


def np_cholesky(a, upper=False, **k):
    return cholesky(a, lower=not upper)


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    A = A_(a).astype(object)
    A = np.tril(A) if lower else np.triu(A)
    if unit_diagonal:
        A = A.copy()
        for i in range(A.shape[0]):
            A[i, i] = 1
    if trans in (1, 2, "T", "C"):
        A = A.T
    return solve(A, b)


def lu_factor(a, **k):
    return ("lu", mk(A_(a)).copy())


def lu_solve(lu, b, trans=0, **k):
    return solve(lu[1].T if trans else lu[1], b)


def pinv(a, *x, **k):
    if issym(a):
        raise EngineLimit("pinv")
    return wrap(la.pinv(deobj(a)))


def sqrtm(a, **k):
    A = mk(A_(a))
    if not issym(A):
        return wrap(la.sqrtm(deobj(A)))
    for M, R in ctx().opts.get("sqrtm", []):
        if M.shape == A.shape and _same(M, A):
            use("sqrtm: the registered square root")
            return mk(R).copy()
    n = A.shape[0]
    if all((not isinstance(A[i, j], Sym)) and A[i, j] == 0 for i in range(n) for j in range(n) if i != j):
        out = zeros_((n, n))
        for i in range(n):
            out[i, i] = SPECIAL["sqrt"][0](A[i, i])
        return out
    raise EngineLimit("sqrtm of an unregistered matrix")


def multi_dot(arrays, **k):
    out = A_(arrays[0])
    for x in arrays[1:]:
        out = np.matmul(out.astype(object), A_(x).astype(object))
    return wrap(out)


def matrix_rank(a, *x, **k):
    if issym(a):
        raise EngineLimit("matrix_rank")
    return np.linalg.matrix_rank(deobj(a), *x, **k)


def toeplitz(*a, **k):
    raise EngineLimit("toeplitz")


def slogdet(a):
    raise EngineLimit("slogdet")


def det(a, **k):
    return det_(A_(a))


def matrix_power(a, n):
    A = A_(a)
    out = np.eye(A.shape[0], dtype=int).astype(object)
    for _ in range(n):
        out = np.matmul(out, A.astype(object))
    return wrap(out)


TABLE = dict(
    norm=norm, solve=solve, inv=inv, lstsq=lstsq, svd=svd, svdvals=svdvals, eigh=eigh, qr=qr, cond=cond,
    khatri_rao=khatri_rao, block_diag=block_diag, cho_factor=cho_factor, cho_solve=cho_solve, cholesky=cholesky,
    solve_triangular=solve_triangular, lu_factor=lu_factor, lu_solve=lu_solve, pinv=pinv, sqrtm=sqrtm,
    multi_dot=multi_dot, matrix_rank=matrix_rank, det=det, slogdet=slogdet, matrix_power=matrix_power,
)


def vector_norm(x, /, *, axis=None, keepdims=False, ord=2):
    return norm(np.reshape(x, (-1,)) if axis is None else x, None if ord == 2 else ord, axis, keepdims)


def matrix_norm(x, /, *, keepdims=False, ord="fro"):
    return norm(x, ord, (-2, -1) if keepdims or np.ndim(x) > 2 else None, keepdims)


NEWAPI = dict(vector_norm=vector_norm, matrix_norm=matrix_norm, vecdot=lambda a, b, /, *, axis=-1: np.vecdot(a, b, axis=axis), outer=lambda a, b, /: np.outer(a, b),
              matmul=lambda a, b, /: np.matmul(a, b), tensordot=lambda a, b, /, *, axes=2: np.tensordot(a, b, axes=axes),
              trace=lambda x, /, *, offset=0, dtype=None: np.trace(x, offset), diagonal=lambda x, /, *, offset=0: np.diagonal(x, offset),
              matrix_transpose=lambda x, /: np.swapaxes(x, -1, -2))


class LinalgFacade(types.ModuleType):
    def __init__(self, real, kind):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_kind"] = kind

    def __getattr__(self, name):
        obj = getattr(self.__dict__["_real"], name)
        return linalg_facade_of(obj, name, self.__dict__["_kind"])


def np_norm(x, ord=None, axis=None, keepdims=False):
    return norm(x, ord, axis, keepdims)


def replaceable(key, fn):
    """fn, unless the harness of the running case put a recorder in its place."""

    def f(*a, **k):
        h = core.CTX.opts.get(key) if core.CTX is not None else None
        return (fn if h is None else h)(*a, **k)

    f.__name__ = fn.__name__
    return f


def linalg_facade_of(obj, name, kind):
    if kind == "np" and name == "cholesky":
        return np_cholesky
    if kind == "np" and name in NEWAPI:
        return NEWAPI[name]
    if name in TABLE:
        return replaceable("linalg." + name, TABLE[name])
    if isinstance(obj, type) or not callable(obj):
        return obj

    def f(*a, **k):
        if any(issym(x) for x in a) or any(issym(x) for x in k.values()):
            raise EngineLimit(f"linalg.{name} on symbolic data")
        a = [deobj(x) if isinstance(x, np.ndarray) and x.dtype == object else x for x in a]
        return wrap(obj(*a, **k))

    f.__name__ = name
    return f


def np_linalg(func, args, kwargs):
    return linalg_facade_of(func, func.__name__, "np")(*args, **kwargs)
