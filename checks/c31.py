"""C31: the verify() methods accept exactly what they are documented to accept."""

import contextlib
import io
import itertools
import os

import numpy

from checks import objs
from checks.objs import Data, quiet
from checks.preutil import catalogue, fitted, make, tag as tftag

BOUNDS = ("every random draw of the checks (free symbolic numbers for accept/reject by structure, a concrete pattern times a symbolic factor for the relative tolerances), every choice of sample "
          "locations; user-defined transformers, bases, lifters, solvers, operators and derivative estimators that break exactly one documented requirement, at each position; all built-in transformers, "
          "bases, lifters, solvers and operators (n<=4, r<=3, m<=2), all real contents")
OUTSIDE = ("plot=True; the text that is printed; the step sizes of the finite difference check of Jacobians for nonlinear operators (checked for one pattern of entries and states times any positive factor); "
           "TransformerPipeline around TransformerMulti")


def tame(c, x):
    """Rounding of finite difference coefficients stays far below the tolerances."""
    for v in numpy.asarray(x, dtype=object).reshape(-1):
        c.assume(abs(v) <= 100)
        if not numpy.ndim(x):
            c.assume(abs(v) >= .01)
    return x


# -- random draws ---------------------------------------------------------------------
class Draws:
    """Stand-in for numpy.random: every draw is an arbitrary number."""

    def __init__(self, c, kind="free", pick=0):
        self.c, self.kind, self.pick, self.n = c, kind, pick, 0

    def arr(self, shape=()):
        shape = () if shape is None else (shape,) if isinstance(shape, (int, numpy.integer)) else tuple(shape)
        self.n += 1
        if self.kind == "free" or shape == ():
            return self.c.real(f"draw{self.n}", shape)
        pat = numpy.array([((7 * i + 3 * self.n) % 11 + 1) / 8 for i in range(int(numpy.prod(shape)))]).reshape(shape)
        return self.c.const(pat) * tame(self.c, self.c.real(f"draw{self.n}", dom="pos"))

    def choice(self, a, size=None, replace=True, p=None):
        pool = list(range(a)) if isinstance(a, (int, numpy.integer)) else list(a)
        if size is None:
            return pool[self.pick % len(pool)]
        size = int(size if isinstance(size, (int, numpy.integer)) else size[0])
        if replace:
            return numpy.array([pool[(self.pick + i) % len(pool)] for i in range(size)], dtype=int)
        combos = list(itertools.combinations(pool, size))
        return numpy.array(combos[self.pick % len(combos)][::-1], dtype=int)

    def permutation(self, a):
        return numpy.array(list(range(a)) if isinstance(a, (int, numpy.integer)) else list(a))[::-1].copy()

    def table(self):
        t = {k: self.arr for k in ("random", "random_sample", "standard_normal", "ranf", "sample")}
        t.update({k: lambda *s: self.arr(s) for k in ("rand", "randn")})
        t.update(normal=lambda loc=0.0, scale=1.0, size=None: self.arr(size), uniform=lambda low=0.0, high=1.0, size=None: self.arr(size))
        t.update(choice=self.choice, permutation=self.permutation, default_rng=lambda seed=None: self)
        return t

    def __getattr__(self, name):
        if name in ("random", "random_sample", "standard_normal", "normal", "uniform"):
            return self.table()[name]
        raise AttributeError(name)

    def __enter__(self):
        R = numpy.random
        self.saved = {k: getattr(R, k) for k in self.table() if hasattr(R, k)}
        for k in self.saved:
            setattr(R, k, self.table()[k])
        return self

    def __exit__(self, *exc):
        for k, v in self.saved.items():
            setattr(numpy.random, k, v)


def run(c, fn, kind="free", pick=0):
    with Draws(c, kind, pick), contextlib.redirect_stdout(io.StringIO()):
        return quiet(fn)


def accept(c, label, fn, kind="free", pick=0):
    try:
        run(c, fn, kind, pick)
    except c.op.errors.VerificationError as e:
        c.fail(label, f"rejected: {str(e)[:150]}")
    else:
        c.ok(label)


def reject(c, label, fn, kind="free", pick=0, exc=None):
    c.raises(label, (c.op.errors.VerificationError,) if exc is None else exc, lambda: run(c, fn, kind, pick))


def far(x):
    """A value well away from x, whatever x is."""
    return x + 1 + x * x


def iff(c, label, fn, wrong, kind="ray"):
    """Rejected exactly when `wrong` holds."""
    if bool(wrong):
        reject(c, label, fn, kind)
    else:
        accept(c, label, fn, kind)


# -- transformers ---------------------------------------------------------------------
def tf_class(c, a, b, flaw, pos, ddts, factor):
    class T(c.op.pre.TransformerTemplate):
        def fit_transform(self, states, inplace=False):
            return self.transform(states, inplace)

        def transform(self, states, inplace=False):
            out = states if inplace else states.copy()
            if flaw == "transform: in place copies" and inplace:
                out = states.copy()
            if flaw == "transform: not in place aliases" and not inplace:
                out = states
            out *= a
            out += b
            if flaw == "transform: rows":
                return out[:-1]
            if flaw == "transform: columns":
                return out[:, :-1]
            return out

        def inverse_transform(self, Y, inplace=False, locs=None):
            if flaw == "inverse: in place copies" and inplace:
                out = Y.copy()
            elif flaw == "inverse: not in place aliases" and not inplace and locs is None:
                out = Y
            else:
                out = Y if inplace else Y.copy()
            aa, bb = (a, b) if locs is None else (a[locs], b[locs])
            if flaw == "locs: of other rows" and locs is not None:
                aa, bb = a[[(i + 1) % len(a) for i in locs]], b[[(i + 1) % len(a) for i in locs]]
            out -= bb
            out /= aa
            if flaw == "inverse: value" and locs is None:
                out[pos] = far(out[pos])
            if flaw == "locs: value" and locs is not None:
                out[0, pos[1]] = far(out[0, pos[1]])
            if flaw == "inverse: rows" and locs is None or flaw == "locs: rows" and locs is not None:
                return out[:-1]
            if flaw == "inverse: columns" and locs is None or flaw == "locs: columns" and locs is not None:
                return out[:, :-1]
            return out

        if ddts:
            def transform_ddts(self, Z, inplace=False):
                out = Z if inplace else Z.copy()
                if flaw == "ddts: in place copies" and inplace:
                    out = Z.copy()
                if flaw == "ddts: not in place aliases" and not inplace:
                    out = Z
                out *= a
                out *= factor
                return out

    return T


TFLAWS = ("transform: rows", "transform: columns", "transform: in place copies", "transform: not in place aliases", "inverse: rows", "inverse: columns", "inverse: in place copies",
          "inverse: not in place aliases", "inverse: value", "locs: rows", "locs: columns", "locs: value", "ddts: in place copies", "ddts: not in place aliases")


def column(c, n, b):
    return c.const(numpy.array([[1.0 + i / 4] for i in range(n)])) * b


def transformer(c, n, flaw, pos, ddts, pick=0):
    a, b = c.real("a", (n, 1), dom="pos"), c.real("b", (n, 1))
    if ddts:
        a, b = c.zeros((n, 1)) + tame(c, c.real("a0", dom="pos")), column(c, n, tame(c, c.real("b0")))
    T = tf_class(c, a, b, flaw, pos, ddts, 1)
    t = T()
    c.raises("untrained", (AttributeError,), lambda: run(c, t.verify))
    t.state_dimension = n
    if flaw is None:
        accept(c, "a consistent transformer is accepted", t.verify, "ray" if ddts else "free", pick=pick)
        c.true("state dimension", t.state_dimension == n)
    else:
        reject(c, f"rejected: {flaw}", t.verify, "ray" if flaw.startswith("ddts") else "free", pick=pick)


def tf_ddts(c, n, given):
    """The documented relative tolerance of the derivative check."""
    a = c.zeros((n, 1)) + (1.5 if given else tame(c, c.real("a", dom="pos")))
    b = column(c, n, 2.0 if given else tame(c, c.real("b")))
    d = c.real("delta")
    tol = tame(c, c.real("tol", dom="pos")) * .01 if given else 1e-4
    c.assume(abs(abs(d) - tol) >= tol * .001)
    t = tf_class(c, a, b, None, None, True, 1 + d)()
    t.state_dimension = n
    iff(c, "derivative check", (lambda: t.verify(tol)) if given else t.verify, abs(d) > tol)


def tf_shipped(c, spec, n, k, pick, cols="ray"):
    t = make(c, spec, n).obj
    if spec[0] in ("null", "scale", "ss"):
        c.raises("untrained", (AttributeError,), lambda: run(c, t.verify))
    Q = c.const(numpy.array([[((5 * i + 3 * j) % 7 + 1 + i / 2) / 4 for j in range(k)] for i in range(n)]))
    if spec[0] in ("multi", "pipe") or n > 3:
        c.vec = lambda name, n, **kw: c.const(numpy.array([(i + len(name)) % 3 + 1.25 for i in range(n)]))
    else:
        c.vec = lambda name, n, **kw: c.const(numpy.array([(i + len(name)) % 3 + 1.25 for i in range(n)])) * tame(c, c.real(name + "0", dom="pos"))
    made, Q, _ = fitted(c, spec, n, k, Q=Q)
    for kid in [made] + list(made.kids):
        if kid.data is not None:
            tame(c, kid.data)
    T = made.obj
    X = c.real("X", (n, 2))
    before = quiet(lambda: T.transform(X))
    accept(c, "built-in transformer", T.verify, "ray", pick=pick)
    c.eq("unchanged", quiet(lambda: T.transform(X)), before)


# -- bases ------------------------------------------------------------------------------
def basis_class(c, p, flaw, pos, r):
    np = c.np

    class B(c.op.basis.BasisTemplate):
        def fit(self, states):
            return self

        def compress(self, Q):
            out = Q[:r].copy()
            if flaw == "not a projection":
                out[pos[0]] = far(out[pos[0]])
            if flaw == "compress: columns" and Q.ndim == 2:
                return out[:, :-1]
            if flaw == "compress: vector" and Q.ndim == 1:
                return out.reshape((-1, 1))
            return out

        def decompress(self, q, locs=None):
            two = q.ndim == 2
            fill = np.column_stack([p] * q.shape[1]) if two else p
            out = np.concatenate([q, fill])
            if locs is not None:
                out = out[[(i + 1) % len(out) for i in locs]] if flaw == "locs: other rows" else out[locs]
                if flaw == "locs: value":
                    out[0, pos[1]] = far(out[0, pos[1]])
                if flaw == "locs: rows":
                    return out[:-1]
                if flaw == "locs: columns":
                    return out[:, :-1]
                return out
            if flaw == "decompress: rows" and two:
                return out[:-1]
            if flaw == "decompress: columns" and two:
                return out[:, :-1]
            if flaw == "decompress: vector" and not two:
                return out.reshape((-1, 1))
            return out

    return B


BFLAWS = ("compress: columns", "compress: vector", "decompress: rows", "decompress: columns", "decompress: vector", "locs: value", "locs: rows", "locs: columns", "not a projection")


def basis(c, n, r, flaw, pos, pick=0):
    B = basis_class(c, c.real("p", (n - r,)), flaw, pos, r)()
    c.raises("untrained", (AttributeError,), lambda: run(c, B.verify))
    B.full_state_dimension, B.reduced_state_dimension = n, r
    if flaw is None:
        accept(c, "a consistent basis is accepted", B.verify, pick=pick)
    else:
        reject(c, f"rejected: {flaw}", B.verify, pick=pick)


def basis_shipped(c, kind, n, r, weights, pick):
    D = Data(c)
    B = objs.build_basis(c, D, kind, n, r, weights)
    X = c.real("X", (n, 2))
    before = quiet(lambda: B.project(X))
    accept(c, "built-in basis", B.verify, pick=pick)
    c.eq("unchanged", quiet(lambda: B.project(X)), before)


def basis_multi(c, sizes, rs, bad, pick):
    """One inconsistent basis among several is found."""
    subs = [basis_class(c, c.real(f"p{i}", (n - r,)), "not a projection" if i == bad else None, (0, 0), r)() for i, (n, r) in enumerate(zip(sizes, rs))]
    for s, n, r in zip(subs, sizes, rs):
        s.full_state_dimension, s.reduced_state_dimension = n, r
    B = c.op.basis.BasisMulti(subs, full_variable_sizes=list(sizes))
    if bad is None:
        accept(c, "consistent", B.verify, pick=pick)
    else:
        reject(c, "rejected", B.verify, pick=pick)


def tf_multi(c, sizes, bad, flaw, pick):
    subs = []
    for i, n in enumerate(sizes):
        a, b = c.real(f"a{i}", (n, 1), dom="pos"), c.real(f"b{i}", (n, 1))
        if flaw is None or flaw.startswith("ddts"):
            a, b = c.zeros((n, 1)) + tame(c, c.real(f"a{i}_0", dom="pos")), column(c, n, tame(c, c.real(f"b{i}_0")))
        t = tf_class(c, a, b, flaw if i == bad else None, (0, 0), flaw is None or flaw.startswith("ddts"), 1)()
        t.state_dimension = n
        subs.append(t)
    T = c.op.pre.TransformerMulti(subs, variable_sizes=list(sizes))
    if bad is None:
        accept(c, "consistent", T.verify, "ray", pick=pick)
    else:
        reject(c, "rejected", T.verify, "ray" if flaw.startswith("ddts") else "free", pick=pick)


# -- lifters ----------------------------------------------------------------------------
def lift_class(c, flaw, pos, ddts, factor):
    np = c.np

    class L(c.op.lift.LifterTemplate):
        @staticmethod
        def lift(states):
            out = np.concatenate([states, states**2])
            return out[:, :-1] if flaw == "lift: columns" else out

        @staticmethod
        def unlift(lifted):
            out = lifted[: lifted.shape[0] // 2].copy()
            if flaw == "unlift: value":
                out[pos] = far(out[pos])
            return out[:-1] if flaw == "unlift: rows" else out[:, :-1] if flaw == "unlift: columns" else out

        if ddts:
            @staticmethod
            def lift_ddts(states, ddts):
                out = np.concatenate([ddts, 2 * states * ddts])
                if flaw == "ddts: rows":
                    return out[:-1]
                if flaw == "ddts: columns":
                    return out[:, :-1]
                return out * factor

    return L


LFLAWS = ("lift: columns", "unlift: rows", "unlift: columns", "unlift: value", "ddts: rows", "ddts: columns")


def lift_data(c, n, k, ray=False):
    t = numpy.arange(k) * .5
    if ray:
        s = tame(c, c.real("s", dom="pos"))
        u = numpy.array([1.0 + i for i in range(n)])
        return c.const(numpy.outer(u, t)) * s + s * 1.5, t
    return c.np.outer(tame(c, c.real("u", (n,), dom="pos")), t) + tame(c, c.real("v", (n, 1))), t


def lifter(c, n, k, flaw, pos, ddts):
    L = lift_class(c, flaw, pos, ddts, 1)()
    Q, t = lift_data(c, n, k)
    Q0 = Q.copy()
    if flaw is not None:
        reject(c, f"rejected: {flaw}", lambda: L.verify(Q, t))
        return
    accept(c, "a consistent lifter is accepted", lambda: L.verify(Q, t))
    if ddts:
        c.raises("time domain required", (ValueError,), lambda: run(c, lambda: L.verify(Q)))
    else:
        accept(c, "no time domain is needed without derivatives", lambda: L.verify(Q))
    c.eq("states unchanged", Q, Q0)


def lift_ddts(c, n, k, given):
    d = c.real("delta")
    tol = tame(c, c.real("tol", dom="pos")) * .01 if given else 1e-4
    c.assume(abs(abs(d) - tol) >= tol * .001)
    L = lift_class(c, None, None, True, 1 + d)()
    Q, t = lift_data(c, n, k, ray=True)
    iff(c, "derivative check", (lambda: L.verify(Q, t, tol)) if given else (lambda: L.verify(Q, t)), abs(d) > tol)


def lift_shipped(c, which, n, k):
    L = c.op.lift.QuadraticLifter() if which == "quadratic" else c.op.lift.PolynomialLifter(which)
    Q, t = lift_data(c, n, k)
    accept(c, "built-in lifter", lambda: L.verify(Q, t))


# -- least-squares solvers ----------------------------------------------------------------
STORE = {}


def solver_class(c, flaw, pos, saves):
    class S(c.op.lstsq.SolverTemplate):
        bad = False

        def solve(self):
            out = self.lhs_matrix @ self.data_matrix
            if flaw == "solve: rows":
                return out[:-1]
            if flaw == "solve: columns":
                return out[:, :-1]
            if self.bad:
                out[pos] = far(out[pos])
            return out

        def copy(self):
            if flaw == "copy: type":
                return other()
            new = type(self)().fit(self.data_matrix, self.lhs_matrix)
            if flaw == "copy: solution":
                new.bad = True
            if flaw == "copy: samples":
                new.fit(self.data_matrix[:-1], self.lhs_matrix[:, :-1])
            if flaw == "copy: unknowns":
                new.fit(self.data_matrix[:, :-1], self.lhs_matrix)
            if flaw == "copy: rows":
                new.fit(self.data_matrix, self.lhs_matrix[:-1])
            return new

        if saves:
            def save(self, savefile, overwrite=False):
                STORE[savefile] = self
                with open(savefile, "w") as f:
                    f.write("x")

            @classmethod
            def load(cls, loadfile):
                old = STORE.pop(loadfile)
                new = cls().fit(old.data_matrix, old.lhs_matrix)
                if flaw == "load: solution":
                    new.bad = True
                if flaw == "load: samples":
                    new.fit(old.data_matrix[:-1], old.lhs_matrix[:, :-1])
                if flaw == "load: unknowns":
                    new.fit(old.data_matrix[:, :-1], old.lhs_matrix)
                if flaw == "load: rows":
                    new.fit(old.data_matrix, old.lhs_matrix[:-1])
                return new

    def other():
        class O(S):
            pass

        return O()

    return S


SFLAWS = ("solve: rows", "solve: columns", "copy: type", "copy: solution", "copy: samples", "copy: unknowns", "copy: rows", "load: solution", "load: samples", "load: unknowns", "load: rows")


def in_scratch(c, fn):
    here = os.getcwd()
    where = os.path.dirname(c.path("x"))
    os.chdir(where)
    try:
        out = fn()
        left = os.listdir(where)
    finally:
        os.chdir(here)
    c.true("no temporary file is left behind", not left, str(left))
    return out


def solver(c, k, d, r, flaw, pos, saves):
    S = solver_class(c, flaw, pos, saves)()
    in_scratch(c, lambda: accept(c, "an untrained solver is not checked", S.verify))
    D, Z = c.real("D", (k, d)), c.real("Z", (r, k))
    S.fit(D, Z)
    if flaw is not None:
        in_scratch(c, lambda: reject(c, f"rejected: {flaw}", S.verify))
    else:
        in_scratch(c, lambda: accept(c, "a consistent solver is accepted", S.verify))
    c.eq("data matrix unchanged", S.data_matrix, D)
    c.eq("left-hand side unchanged", S.lhs_matrix, Z)


def solver_shipped(c, which, k, d, r, opts):
    c.opt("exact_close", True)
    D = Data(c)
    S = objs.build_solver(c, D, which, d, r, fitted=True, k=k, opts=opts)
    before = quiet(S.solve)
    in_scratch(c, lambda: accept(c, "built-in solver", S.verify))
    c.eq("unchanged", quiet(S.solve), before)


# -- operators ------------------------------------------------------------------------------
def op_class(c, flaw, pos, parts, E=None):
    O, np = c.op.operators, c.np
    inputs = "B" in parts
    bases = (O.OperatorTemplate, O.InputMixin) if inputs else (O.OperatorTemplate,)

    class Op(*bases):
        bad = False

        def __init__(self, A, B=None):
            self.A, self.B = A, B

        @property
        def state_dimension(self):
            return {"state dimension: float": float(self.A.shape[0]), "state dimension: zero": 0, "state dimension: none": None}.get(flaw, self.A.shape[0])

        if inputs:
            @property
            def input_dimension(self):
                return {"input dimension: float": float(self.B.shape[1]), "input dimension: zero": 0}.get(flaw, self.B.shape[1])

        def apply(self, q, u=None):
            out = self.A @ q + (self.B @ u if inputs else 0)
            if self.bad:
                out[pos[0]] = far(out[pos[0]])
            if flaw == "apply: vector" and q.ndim == 1:
                return out.reshape((-1, 1))
            if flaw == "apply: short vector" and q.ndim == 1:
                return out[:-1]
            if flaw == "apply: columns" and q.ndim == 2:
                return out[:, :-1]
            if flaw == "apply: list" and q.ndim == 1:
                return list(out)
            if flaw == "apply: list of rows" and q.ndim == 2:
                return list(out)
            return out

        if "J" in parts:
            def jacobian(self, q, u=None):
                if flaw == "jacobian: shape":
                    return self.A[:-1]
                if flaw == "jacobian: vector":
                    return self.A[0]
                if flaw == "jacobian: list":
                    return list(self.A)
                if flaw == "jacobian: zero":
                    return 0
                return self.A if E is None else self.A + E

        if "G" in parts:
            def galerkin(self, Vr, Wr=None):
                if flaw == "galerkin: type":
                    return 1.0
                r = Vr.shape[1]
                if flaw == "galerkin: ignores the test basis" or Wr is None:
                    A, B = Vr.T @ self.A @ Vr, Vr.T @ self.B if inputs else None
                else:
                    M = Wr.T @ Vr
                    A, B = c.matsolve(M, Wr.T @ self.A @ Vr), c.matsolve(M, Wr.T @ self.B) if inputs else None
                new = Op(A, B)
                if flaw == "galerkin: state dimension":
                    new = Op(self.A, self.B)
                if flaw == "galerkin: input dimension":
                    new = Op(A, np.column_stack([B, B]))
                if flaw == "galerkin: value" and Wr is not None or flaw == "galerkin: value without a test basis" and Wr is None:
                    new.bad = True
                return new

        def copy(self):
            if flaw == "copy: self":
                return self
            if flaw == "copy: type":
                class Other(Op):
                    pass

                return Other(self.A, self.B)
            new = Op(self.A, self.B)
            if flaw == "copy: state dimension":
                new = Op(self.A[:-1], self.B)
            if flaw == "copy: input dimension":
                new = Op(self.A, self.B[:, :-1])
            new.bad = flaw == "copy: value"
            return new

        if "S" in parts:
            def save(self, savefile, overwrite=False):
                STORE[savefile] = self
                with open(savefile, "w") as f:
                    f.write("x")

            @classmethod
            def load(cls, loadfile):
                old = STORE.pop(loadfile)
                if flaw == "load: type":
                    class Other(Op):
                        pass

                    return Other(old.A, old.B)
                new = Op(old.A, old.B)
                if flaw == "load: state dimension":
                    new = Op(old.A[:-1], old.B)
                if flaw == "load: input dimension":
                    new = Op(old.A, old.B[:, :-1])
                new.bad = flaw == "load: value"
                return new

    return Op


OFLAWS = (("state dimension: float", ""), ("state dimension: zero", ""), ("state dimension: none", ""), ("input dimension: float", "B"), ("input dimension: zero", "B"), ("apply: vector", ""), ("apply: short vector", ""),
          ("apply: columns", ""), ("apply: list", ""), ("apply: list of rows", ""), ("jacobian: shape", "J"), ("jacobian: vector", "J"), ("jacobian: list", "J"), ("galerkin: type", "G"), ("galerkin: state dimension", "G"),
          ("galerkin: input dimension", "GB"), ("galerkin: value", "G"), ("galerkin: value without a test basis", "G"), ("copy: self", ""), ("copy: type", ""), ("copy: state dimension", ""),
          ("copy: input dimension", "B"), ("copy: value", ""), ("load: type", "S"), ("load: state dimension", "S"), ("load: input dimension", "SB"), ("load: value", "S"))


def orth(c):
    """Orthonormal factors for the projection check: arbitrary ones."""
    c.opt("exact_close", True)
    count = [0]

    def qr(A, *a, **k):
        n, m = A.shape
        count[0] += 1
        Q = c.orthonormal(f"V{count[0]}", n, m)
        if count[0] % 2 == 0 and m == 1:
            W = (orth.last.T @ Q)[0, 0]
            c.assume(abs(W) >= .01)
        orth.last = Q
        return Q, None

    c.replace("linalg.qr", qr)


def operator(c, r, m, flaw, pos, parts):
    inputs = "B" in parts
    A, B = c.real("A", (r, r)), c.real("B", (r, m)) if inputs else None
    if "J" in parts:
        c.assume(A[0, 0] >= .01)
    orth(c)
    op = op_class(c, flaw, pos, parts)(A, B)
    if flaw in (None, "jacobian: zero"):
        in_scratch(c, lambda: accept(c, "a consistent operator is accepted", op.verify))
    else:
        in_scratch(c, lambda: reject(c, f"rejected: {flaw}", op.verify))
    c.eq("entries unchanged", op.A, A)


def op_fd(c, r, given, pos):
    """The Jacobian is rejected exactly when its relative error exceeds the tolerance."""
    np = c.np
    s = c.real("s", dom="pos")
    pat = numpy.array([[((5 * i + 3 * j) % 7 + 1) / 4 for j in range(r)] for i in range(r)])
    d = c.real("delta")
    tol = tame(c, c.real("tol", dom="pos")) * .01 if given else 1e-5
    # The reported Jacobian is J = A + E; the relative error is |E| / |J|.
    A = c.const(pat) * s
    E = c.zeros((r, r))
    E[pos] = d * s
    J = A + E
    e2, j2 = d * d, sum(((pat[i, j] + (d if (i, j) == pos else 0)) ** 2) for i in range(r) for j in range(r))
    c.assume(j2 >= .001)
    c.assume(abs(e2 - tol * tol * j2) >= tol * tol * j2 * .001)
    orth(c)
    op = op_class(c, None, pos, "J", E)(A)
    call = (lambda: op.verify(fdifftol=tol)) if given else op.verify
    in_scratch(c, lambda: iff(c, "Jacobian check", call, e2 > tol * tol * j2))


def op_shipped(c, kind, r, m, layout):
    D = Data(c)
    obj = objs.build_op(c, D, kind, r, m, layout)
    orth(c)
    before = objs.op_obs(c, D, obj, kind, r, m)
    in_scratch(c, lambda: accept(c, "built-in operator", obj.verify))
    objs.same(c, "unchanged", before, objs.op_obs(c, D, obj, kind, r, m))


def op_nonlinear(c, kind, r, m):
    """Nonlinear operators: one pattern of entries and states times any factor."""
    s = c.real("s", dom="pos")
    sh = objs.entry_shape(c, kind, r, m)
    pat = numpy.array([((5 * i) % 7 + 1) / 4 for i in range(int(numpy.prod(sh)))]).reshape(sh)
    obj = objs.op_cls(c, kind)(c.const(pat) * s)
    orth(c)
    draws = lambda: None

    class Fixed(Draws):
        def arr(self, shape=()):
            shape = () if shape is None else (shape,) if isinstance(shape, (int, numpy.integer)) else tuple(shape)
            return self.c.const(numpy.array([((7 * i) % 11 + 1) / 8 for i in range(int(numpy.prod(shape)))]).reshape(shape))

    def go():
        try:
            with Fixed(c):
                quiet(obj.verify)
        except c.op.errors.VerificationError as e:
            c.fail("built-in operator", str(e)[:150])
        else:
            c.ok("built-in operator")

    in_scratch(c, go)


# -- regression metadata of operators ---------------------------------------------------------
def opinf_op(c, flaw):
    O, np = c.op.operators, c.np

    class Op(O.LinearOperator):
        if flaw == "dimension: bound":
            def operator_dimension(self, r, m=None):
                return r
        elif flaw == "dimension: class":
            @classmethod
            def operator_dimension(cls, r, m=None):
                return r
        else:
            @staticmethod
            def operator_dimension(r, m=None):
                return {"dimension: float": float(r), "dimension: zero": 0, "dimension: negative": -r, "dimension: none": None, "dimension: more": r + 1, "dimension: less": r - 1}.get(flaw, r)

        if flaw == "block: bound":
            def datablock(self, states, inputs=None):
                return states
        else:
            @staticmethod
            def datablock(states, inputs=None):
                if flaw == "block: vector":
                    return states[0]
                if flaw == "block: list":
                    return list(states)
                if flaw == "block: rows":
                    return states[:-1]
                if flaw == "block: columns":
                    return states[:, :-1]
                if flaw == "block: transposed":
                    return states.T
                return states

    for ent in (None, c.real("A", (2, 2))):
        if ent is not None:
            c.assume(ent[0, 0] >= .01)
        orth(c)
        op = Op() if ent is None else Op(ent)
        if flaw is None:
            in_scratch(c, lambda: accept(c, "accepted", op.verify))
        else:
            in_scratch(c, lambda: reject(c, f"rejected: {flaw}", op.verify))


MFLAWS = ("dimension: bound", "dimension: class", "dimension: float", "dimension: zero", "dimension: negative", "dimension: none", "dimension: more", "dimension: less", "block: bound", "block: vector", "block: list",
          "block: rows", "block: columns", "block: transposed")


def par_class(c, flaw, inputs, r, m):
    O, np = c.op.operators, c.np
    kind = O.InputOperator if inputs else O.LinearOperator
    bases = (O.ParametricOperatorTemplate, O.InputMixin) if inputs else (O.ParametricOperatorTemplate,)

    class P(*bases):
        _OperatorClass = {"class: parametric": O.AffineLinearOperator, "class: other": dict}.get(flaw, kind)

        def __init__(self, E):
            self.E = E
            O.ParametricOperatorTemplate.__init__(self) if False else None

        @property
        def state_dimension(self):
            return {"state dimension: float": float(r), "state dimension: zero": 0, "state dimension: none": None, "state dimension: more": r + 1}.get(flaw, r)

        @property
        def parameter_dimension(self):
            return 2

        if inputs:
            @property
            def input_dimension(self):
                return {"input dimension: float": float(m), "input dimension: zero": 0, "input dimension: more": m + 1}.get(flaw, m)

        def evaluate(self, parameter):
            E = self.E * (1 + parameter[0] * parameter[0])
            if flaw == "evaluate: array":
                return E
            if flaw == "evaluate: other class":
                return O.ConstantOperator(E[:, 0])
            return kind(E)

        def _check_parametervalue_dimension(self, p):
            pass

    return P


PFLAWS = (("class: parametric", 0), ("class: other", 0), ("state dimension: float", 0), ("state dimension: zero", 0), ("state dimension: none", 0), ("state dimension: more", 0), ("input dimension: float", 1),
          ("input dimension: zero", 1), ("input dimension: more", 1), ("evaluate: array", 0), ("evaluate: other class", 0))


def parametric(c, flaw, inputs, r, m):
    P = par_class(c, flaw, inputs, r, m)
    P.__abstractmethods__ = frozenset()
    op = P(c.real("E", (r, m if inputs else r)))
    if flaw is None:
        accept(c, "accepted", op.verify)
        accept(c, "accepted at a given parameter", lambda: op.verify(c.real("mu", (2,))))
        c.raises("wrong parameter dimension", (ValueError,), lambda: run(c, lambda: op.verify(c.real("mu3", (3,)))))
    else:
        reject(c, f"rejected: {flaw}", op.verify)


def par_shipped(c, fam, kind, r, m, layout):
    D = Data(c)
    obj = objs.build_affine(c, D, kind, r, m, 2, layout, 2) if fam == "affine" else objs.build_interp(c, D, kind, r, m, "1", layout)
    accept(c, "built-in operator", lambda: obj.verify(c.real("mu", (obj.parameter_dimension,))))
    c.raises("wrong parameter dimension", (ValueError,), lambda: run(c, lambda: obj.verify(c.real("nu", (obj.parameter_dimension + 1,)))))


# -- derivative estimators ------------------------------------------------------------------------
def est_class(c, flaw, offset, width, answer):
    np = c.np

    class D(c.op.ddt.DerivativeEstimatorTemplate):
        calls = []

        def estimate(self, states, inputs=None):
            k = states.shape[1]
            w = k - 2 if width is None else width
            s = slice(offset, offset + w)
            Q, Z, U = states[:, s], answer(self, states, s), None if inputs is None else inputs[:, s]
            if inputs is None:
                if flaw == "states: rows":
                    Q = Q[:-1]
                if flaw == "derivatives: rows":
                    Z = Z[:-1]
                if flaw == "columns":
                    Z = Z[:, :-1]
                if flaw == "three results":
                    return Q, Z, None
                if flaw == "list":
                    return [Q, Z]
                return Q, Z
            if flaw == "inputs: missing":
                return Q, Z
            if flaw == "inputs: none":
                return Q, Z, None
            if flaw == "inputs: rows":
                U = U[:-1]
            if flaw == "inputs: columns":
                U = U[:, :-1]
            if flaw == "inputs: list":
                return [Q, Z, U]
            return Q, Z, U

        def mask(self, arr):
            return arr[..., offset:]

    return D


DFLAWS = ("states: rows", "derivatives: rows", "columns", "three results", "list", "inputs: missing", "inputs: none", "inputs: rows", "inputs: columns", "inputs: list")


def shapes(c, k, flaw, r, m):
    np = c.np
    t = numpy.arange(k) * .5
    D = est_class(c, flaw, 1, None, lambda self, Q, s: Q[:, s] * 2)(t)
    kw = {} if r is None else {"r": r, "m": m}
    if flaw is None:
        accept(c, "consistent shapes are accepted", lambda: D.verify_shapes(**kw))
    else:
        reject(c, f"rejected: {flaw}", lambda: D.verify_shapes(**kw))
        reject(c, f"rejected by verify(): {flaw}", lambda: D.verify())
    c.true("time domain unchanged", D.time_domain is t)


FUNCTIONS = (
    (lambda t: t, lambda t: 1 + 0 * t),
    (lambda t: t**4 - t**3 / 3, lambda t: 4 * t**3 - t**2),
    (numpy.sin, numpy.cos),
    (numpy.exp, numpy.exp),
    (lambda t: 1 / (1 + t), lambda t: -1 / (1 + t) ** 2),
    (lambda t: t - t**3 + numpy.cos(t) - numpy.exp(t / 2), lambda t: 1 - 3 * t**2 - numpy.sin(t) - numpy.exp(t / 2) / 2),
)


def accuracy(c, offset, width):
    """The reported errors are the relative errors at the estimator's own snapshots."""
    np = c.np
    answers, seen = [], []

    def answer(self, Q, s):
        if Q.shape[1] < 50:
            return Q[:, s]
        t = numpy.array([float(x) for x in self.time_domain])
        true = numpy.array([f[1](t[s]) for f in FUNCTIONS])
        Z = c.const(true)
        e = c.real(f"e{len(answers)}", (len(FUNCTIONS),))
        size = [abs(true[i, i % true.shape[1]]) for i in range(len(FUNCTIONS))]
        for i in range(len(FUNCTIONS)):
            Z[i, i % Z.shape[1]] = Z[i, i % Z.shape[1]] + e[i] * size[i]
        answers.append((float(t[1] - t[0]), e, size, numpy.sqrt((true**2).sum(axis=1))))
        seen.append((Q, t))
        return Z

    t0 = numpy.arange(9) * .5
    D = est_class(c, None, offset, width, answer)(t0)
    out = run(c, lambda: D.verify(return_errors=True))
    c.true("time domain restored", D.time_domain is t0)
    c.true("twelve time steps", len(answers) == 12)
    for Q, t in seen:
        want = numpy.array([f[0](t) for f in FUNCTIONS])
        c.eq("test problems", Q[:, ::250], want[:, ::250])
    dts = [float(x) for x in out["dts"]]
    c.true("reported time steps", len(dts) == 12 and all(abs(a - b[0]) <= 1e-3 * b[0] for a, b in zip(dts, answers)), f"{dts}")
    rows = [v for k, v in out.items() if k != "dts"]
    c.true("one entry for each test problem", len(rows) == len(FUNCTIONS))
    for i, row in enumerate(rows):
        c.true("one error for each time step", len(row) == 12)
        for j, err in enumerate(row):
            c.eq(f"error {i} {j}", err * answers[j][3][i], abs(answers[j][1][i]) * answers[j][2][i], loose=1e4)
    c.true("returns nothing unless asked", run(c, D.verify) is None)


def broken(c):
    """The time domain survives a failing estimator."""
    t0 = numpy.arange(9) * .5

    def answer(self, Q, s):
        if Q.shape[1] > 50:
            raise ZeroDivisionError("estimator")
        return Q[:, s]

    D = est_class(c, None, 0, 5, answer)(t0)
    c.raises("the failure is reported", (ZeroDivisionError,), lambda: run(c, D.verify))
    c.true("time domain restored", D.time_domain is t0)


# -- cases ----------------------------------------------------------------------------------------
def cases(tier):
    th = tier == "thorough"
    for n in (3, 4):
        for ddts in (True, False):
            yield f"tf-ok-{n}-{ddts}", transformer, dict(n=n, flaw=None, pos=None, ddts=ddts)
    for pick in range(3):
        yield f"tf-locs-other-{pick}", transformer, dict(n=3, flaw="locs: value", pos=(0, 7), ddts=False, pick=pick)
    for f in TFLAWS:
        poss = [(0, 0), (2, 19), (1, 4)] if "value" in f else [(0, 0)]
        for pos in poss:
            for n in (3,) if not th else (3, 4):
                yield f"tf-{f}-{n}-{pos}", transformer, dict(n=n, flaw=f, pos=pos, ddts=True)
                if not f.startswith("ddts"):
                    yield f"tf-{f}-{n}-{pos}-noddts", transformer, dict(n=n, flaw=f, pos=pos, ddts=False)
    for given in (False, True):
        yield f"tf-tol-{given}", tf_ddts, dict(n=1, given=given)
    for sizes in ((3, 3), (3, 4)):
        yield f"multi-ok-{sizes}", tf_multi, dict(sizes=sizes, bad=None, flaw=None, pick=0)
        for bad in range(2):
            for f in ("inverse: value", "locs: value", "ddts: not in place aliases", "transform: not in place aliases"):
                yield f"multi-{sizes}-{bad}-{f}", tf_multi, dict(sizes=sizes, bad=bad, flaw=f, pick=bad)
    for n, r in ((3, 1), (3, 2), (4, 2)):
        yield f"basis-ok-{n}{r}", basis, dict(n=n, r=r, flaw=None, pos=None)
    for f in BFLAWS:
        for pos in [(0, 0), (1, 19)] if f in ("locs: value", "not a projection") else [(0, 0)]:
            for pick in range(3 if f.startswith("locs") else 1):
                yield f"basis-{f}-{pos}-{pick}", basis, dict(n=3, r=2, flaw=f, pos=pos, pick=pick)
    for sizes, rs in (((3, 3), (1, 2)), ((3, 2), (2, 1))):
        for bad in (None, 0, 1):
            yield f"basismulti-{sizes}-{bad}", basis_multi, dict(sizes=sizes, rs=rs, bad=bad, pick=0)
    for n in (1, 2):
        for ddts in (True, False):
            yield f"lift-ok-{n}-{ddts}", lifter, dict(n=n, k=8, flaw=None, pos=None, ddts=ddts)
    for f in LFLAWS:
        for pos in [(0, 0), (1, 7)] if "value" in f else [(0, 0)]:
            yield f"lift-{f}-{pos}", lifter, dict(n=2, k=8, flaw=f, pos=pos, ddts=True)
    for given in (False, True):
        yield f"lift-tol-{given}", lift_ddts, dict(n=1, k=8, given=given)
    for which in ("quadratic", [1], [0, 1, 2], [2, 1]):
        yield f"lift-shipped-{which}", lift_shipped, dict(which=which, n=2, k=8)
    for saves in (True, False):
        yield f"solver-ok-{saves}", solver, dict(k=3, d=2, r=2, flaw=None, pos=None, saves=saves)
    for f in SFLAWS:
        for pos in [(0, 0), (1, 1)] if f.endswith("solution") else [(0, 0)]:
            yield f"solver-{f}-{pos}", solver, dict(k=3, d=2, r=2, flaw=f, pos=pos, saves=True)
    for parts in ("", "B", "J", "G", "S", "BJ", "BG", "BS", "BJGS", "JGS"):
        for r in (1, 2, 3) if "G" in parts else (1, 2):
            yield f"op-ok-{parts}-{r}", operator, dict(r=r, m=2, flaw=None, pos=None, parts=parts)
    yield "op-zero-jacobian", operator, dict(r=2, m=1, flaw="jacobian: zero", pos=None, parts="J")
    for f, parts in OFLAWS:
        for pos in [(0, 0), (1, 1)] if "value" in f and "galerkin" not in f else [(0, 0)]:
            for p in sorted({parts, "JGS" + ("B" if "B" in parts else "")}):
                yield f"op-{f}-{pos}-{p}", operator, dict(r=2, m=2, flaw=f, pos=pos, parts=p)
    for given in (False, True):
        for pos in ((0, 0), (1, 0)):
            yield f"op-fd-{given}-{pos}", op_fd, dict(r=2, given=given, pos=pos)
    for f in (None,) + MFLAWS:
        yield f"opinf-{f}", opinf_op, dict(flaw=f)
    for inputs in (0, 1):
        yield f"par-ok-{inputs}", parametric, dict(flaw=None, inputs=inputs, r=2, m=1)
    for f, inputs in PFLAWS:
        yield f"par-{f}", parametric, dict(flaw=f, inputs=inputs, r=2, m=1)
    for f in (None,) + DFLAWS:
        for r, m in ((None, None), (2, 2)):
            yield f"shapes-{f}-{r}", shapes, dict(k=7, flaw=f, r=r, m=m)
    for offset, width in ((0, 3), (2, 3), (5, 4), (990, 11)):
        yield f"accuracy-{offset}-{width}", accuracy, dict(offset=offset, width=width)
    yield "broken", broken, {}
    for i, (spec, n) in enumerate(catalogue(th)):
        if spec[0] == "pipe" and any(x[0] == "multi" for x in spec[1]):
            continue
        m = {2: 3, 3: 3}.get(n, n) if spec[0] != "multi" else n
        for pick in range(3 if i < 4 or th else 1):
            yield f"tf-shipped-{i}-{tftag(spec)}-{m}-{pick}", tf_shipped, dict(spec=spec, n=m, k=3, pick=(pick + i) % 3)
    for pick in range(3):
        for kind, n, r in (("linear", 3, 2), ("linear", 3, 1), ("pod", 3, 2), ("pod", 4, 2)):
            for w in (None, "diag", "dense"):
                if (n < 4 or w is None and th) and (kind, w) != ("pod", "dense") and (w != "dense" or r == 1 or th):
                    yield f"basis-shipped-{kind}-{n}{r}-{w}-{pick}", basis_shipped, dict(kind=kind, n=n, r=r, weights=w, pick=pick)
    for which in ("plain", "l2", "l2d", "tik", "tikdiag", "tikd", "tikddiag", "tsvd", "tsvdnone", "tsvdneg", "total"):
        yield f"solver-shipped-{which}", solver_shipped, dict(which=which, k=3, d=1 if which == "total" else 2, r=1, opts=())
    for kind in ("Constant", "Linear", "Input", "StateInput", "Quadratic", "Cubic"):
        for r in (1, 2, 3):
            if kind in ("Constant", "Linear", "Input"):
                for layout in ("dense", "csr") if kind == "Linear" else ("dense",):
                    yield f"op-shipped-{kind}-{r}-{layout}", op_shipped, dict(kind=kind, r=r, m=2, layout=layout)
            elif r < 3:
                yield f"op-nonlinear-{kind}-{r}", op_nonlinear, dict(kind=kind, r=r, m=2)
    for fam in ("affine", "interp"):
        for kind in ("Constant", "Linear", "Input", "StateInput", "Quadratic", "Cubic"):
            yield f"par-shipped-{fam}-{kind}", par_shipped, dict(fam=fam, kind=kind, r=2, m=2, layout="dense")
