"""A catalogue of persistent objects, shared by the save/load, copy and history checks.

A spec is a tuple (family, ...options).  ``build(c, D, spec)`` constructs the object from the
free data in ``D`` (the same data each time it is called with the same ``D``); ``acts(...)`` lists
what can be observed of it.
"""

import contextlib
import io
import warnings

from checks.c08 import svd_data, register
from checks.c15 import space

IC = {"cubic": "CubicSpline", "pchip": "PchipInterpolator", "akima": "Akima1DInterpolator", "linear": "LinearNDInterpolator", "nearest": "NearestNDInterpolator"}


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return f()


class Data:
    """Free data by name; every request for a name gives a fresh copy of the same data."""

    def __init__(self, c, prefix=""):
        self.c, self.prefix, self.store = c, prefix, {}

    def real(self, name, shape=(), dom="any"):
        if name not in self.store:
            self.store[name] = self.c.real(self.prefix + name, shape, dom)
        x = self.store[name]
        return x.copy() if hasattr(x, "copy") else x

    def get(self, name, make):
        if name not in self.store:
            self.store[name] = make()
        return self.store[name]


def sp(c):
    return c.sparse


def dense(x):
    return x.toarray() if hasattr(x, "toarray") else x


# -- operators ---------------------------------------------------------------
def op_cls(c, kind):
    return getattr(c.op.operators, "PolynomialOperator" if kind.startswith("Poly") else f"{kind}Operator")


def op_args(kind):
    return (int(kind[4:]),) if kind.startswith("Poly") else ()


def width(c, kind, r, m):
    cls = op_cls(c, kind)
    return (cls(*op_args(kind)) if op_args(kind) else cls()).operator_dimension(r=r, m=m)


def entry_shape(c, kind, r, m):
    return (r,) if kind in ("Constant", "Poly0") else (r, width(c, kind, r, m))


def layout_of(c, E, layout):
    if layout == "dense":
        return E
    return getattr(sp(c), f"{layout}_array")(E)


def theta(i):
    return lambda mu: mu[0] ** i + (i + 1) * mu[-1]


class Thetas:
    """All coefficient functions in one callable."""

    def __init__(self, nt):
        self.nt = nt

    def __call__(self, mu):
        return [theta(i)(mu) for i in range(self.nt)]


def build_op(c, D, kind, r, m, layout, name="E"):
    if layout is None:
        return op_cls(c, kind)(*op_args(kind))
    return op_cls(c, kind)(*op_args(kind), layout_of(c, D.real(name, entry_shape(c, kind, r, m)), layout))


def build_affine(c, D, kind, r, m, nt, layout, p=None, name="E"):
    cls = getattr(c.op.operators, f"Affine{kind}Operator")
    shp = entry_shape(c, kind, r, m)
    ent = None
    if layout is not None:
        lays = {"mixed": ["dense", "csr"], "mixed2": ["csr", "dense"]}.get(layout, [layout])
        ent = [layout_of(c, D.real(f"{name}{i}", shp), lays[i % len(lays)]) for i in range(nt)]
    op = cls(nt, entries=ent) if p == "int" else (cls(Thetas(nt), nterms=nt, entries=ent) if p == "call" else cls([theta(i) for i in range(nt)], entries=ent))
    if isinstance(p, int):
        op.parameter_dimension = p
    return op


POINTS = {"1": [2.0, -1.0, .5, 4.0], "2": [(0.0, 0.0), (1.0, .5), (-.5, 2.0), (2.0, -1.0)], "col": [[2.0], [-1.0], [.5], [4.0]]}


def build_interp(c, D, kind, r, m, pts, layout, ic=None, s=3, name="E"):
    cls = getattr(c.op.operators, f"Interp{kind}Operator")
    kw = {} if ic is None else {"InterpolatorClass": getattr(c.interpolate, IC[ic])}
    P = None if pts is None else POINTS[pts][:s]
    ent = None if layout is None else [D.real(f"{name}{i}", entry_shape(c, kind, r, m)) for i in range(s)]
    return cls(P, entries=ent, **kw)


def op_obs(c, D, op, kind, r, m, tag=""):
    """What a nonparametric operator shows."""
    np = c.np
    out = [("class", type(op).__name__), ("entries set", op.entries is not None), ("state dimension", op.state_dimension)]
    if hasattr(op, "polynomial_order"):
        out.append(("order", op.polynomial_order))
    if "Input" in kind:
        out.append(("input dimension", op.input_dimension))
    if op.entries is None:
        return out
    q = D.real("q" + tag, (r,))
    u = D.real("u" + tag, (m,)) if "Input" in kind else None
    f = lambda x: np.zeros((r, r)) + dense(x)
    out += [("entries", dense(op.entries)), ("shape", tuple(op.shape)), ("sparse format", getattr(op.entries, "format", None))]
    if hasattr(op.entries, "format") and kind != "Linear":  # the documented entries of the others are dense
        return out
    return out + [("apply", np.reshape(op.apply(q, u), (r,))), ("jacobian", f(op.jacobian(q, u)))]


def par_obs(c, D, op, kind, r, m):
    """What a parametric operator shows."""
    np = c.np
    affine = hasattr(op, "nterms")
    out = [("class", type(op).__name__), ("entries set", op.entries is not None), ("state dimension", op.state_dimension)]
    if not affine or op.entries is None:  # evaluating an affine operator fixes its parameter dimension
        out.append(("parameter dimension", op.parameter_dimension))
    if affine:
        out.append(("terms", op.nterms))
    else:
        tp = op.training_parameters
        out.append(("training parameters set", tp is not None))
        if tp is not None:
            out.append(("training parameters", tp))
    if "Input" in kind:
        out.append(("input dimension", op.input_dimension))
    if op.entries is None:
        return out
    for i, E in enumerate(op.entries):
        out += [(f"entries {i}", dense(E)), (f"format {i}", getattr(E, "format", None))]
    if affine:
        p = op.parameter_dimension or 2
        mu = D.real("mu", (p,))
        out += [("at mu: " + k, v) for k, v in op_obs(c, D, op.evaluate(mu), kind, r, m) if k != "sparse format"]
        return out + [("after evaluation: parameter dimension", op.parameter_dimension)]
    nd = np.ndim(op.training_parameters)
    mus = [op.training_parameters[1]] + ([1.25] if nd == 1 else [])
    for i, mu in enumerate(mus):
        out += [(f"at {i}: " + k, v) for k, v in op_obs(c, D, op.evaluate(mu), kind, r, m)]
    return out


# -- models ------------------------------------------------------------------
class Probe:
    """A solver that records what it is asked to fit."""

    def __init__(self, c, D, log=None):
        self.c, self.D, self.log = c, D, [] if log is None else log

    def fit(self, A, Z):
        self.A, self.Z = A, Z
        self.log.append((A.copy(), Z.copy()))
        return self

    def solve(self):
        i = len(self.log)
        return self.D.real(f"O{i}_{self.Z.shape[0]}_{self.A.shape[1]}", (self.Z.shape[0], self.A.shape[1]))

    def copy(self):
        new = Probe(self.c, self.D, self.log)
        new.__dict__.update(self.__dict__)
        return new

    def __str__(self):
        return "probe"


SOLVERS = ("plain", "l2", "l2none", "l2d", "tik", "tikd", "tsvd", "total")


def build_solver(c, D, which, d=2, r=1, fitted=False, k=3, opts=()):
    L = c.op.lstsq
    kw = dict(opts)
    if which == "plain":
        S = L.PlainSolver(**kw)
    elif which == "l2":
        S = L.L2Solver(D.real("lam", (), "pos"), **kw)
    elif which == "l2none":
        S = L.L2Solver(**kw)
    elif which == "l2d":
        S = L.L2DecoupledSolver(D.real("lam", (r,), "pos"), **kw)
    elif which == "l2dnone":
        S = L.L2DecoupledSolver(None, **kw)
    elif which in ("tik", "tikdiag", "tiknone", "tiksparse"):
        G = {"tik": lambda: D.real("G", (d, d)), "tikdiag": lambda: D.real("g", (d,), "pos"), "tiknone": lambda: None, "tiksparse": lambda: sp(c).csr_array(D.real("G", (d, d)))}[which]()
        S = L.TikhonovSolver(G, **dict(dict(method="normal"), **kw))
    elif which in ("tikd", "tikddiag", "tikdnone"):
        G = {"tikd": lambda: [D.real(f"G{i}", (d, d)) for i in range(r)], "tikddiag": lambda: [D.real(f"g{i}", (d,), "pos") for i in range(r)], "tikdnone": lambda: None}[which]()
        S = L.TikhonovDecoupledSolver(G, **dict(dict(method="normal"), **kw))
    elif which.startswith("tsvd"):
        S = L.TruncatedSVDSolver({"tsvd": 1, "tsvdnone": None, "tsvdneg": -1, "tsvdzero": 0, "tsvd3": 3}[which], **kw)
    elif which == "total":
        S = L.TotalLeastSquaresSolver(**kw)
    if fitted:
        A, Z = solver_data(c, D, which, k, d, r)
        if which.startswith("tik") and S.regularizer is not None:
            for G in S.regularizer if which.startswith("tikd") and which != "tikdiag" else [S.regularizer]:
                M = A.T @ A + G.T @ G
                c.assume(M[0, 0] >= .01)
                c.assume((M[0, 0] if d == 1 else M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]) >= .01)
        quiet(lambda: S.fit(A.copy(), Z.copy()))
    return S


def solver_data(c, D, which, k, d, r, tag=""):
    Z = D.real("Z" + tag, (r, k))
    if which.startswith(("l2", "tsvd")):
        m1 = D.get("svd" + tag, lambda: svd_data(c, k, d, tag))
        if c.symbolic:
            old = D.store.setdefault("registered", [])
            if not any(x[0] is m1[0] for x in old):
                old.append(m1)
            register(c, *old)
        return m1[0], Z
    if which == "total":
        m1 = D.get("svd" + tag, lambda: svd_data(c, k, d + r, tag))
        if c.symbolic:
            old = D.store.setdefault("registered", [])
            if not any(x[0] is m1[0] for x in old):
                old.append(m1)
            register(c, *old)
        if d == 1 and r == 1:
            c.assume(m1[3][1, 1] ** 2 >= .01)
        return m1[0][:, :d], m1[0][:, d:].T
    A = D.real("A" + tag, (k, d))
    c.assume(gram_det(A) >= .01)
    return A, Z


def gram_det(A):
    G = A.T @ A
    return G[0, 0] if A.shape[1] == 1 else G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]


def solver_obs(c, D, S, which, d, r, k=3, solve=True):
    np = c.np
    out = [("class", type(S).__name__), ("dimensions", (S.k, S.d, S.r)), ("options", sorted((a, b if not hasattr(b, "dtype") else float(b)) for a, b in dict(S.options).items()))]
    if hasattr(S, "regularizer"):
        g = S.regularizer
        out.append(("regulariser set", g is not None))
        if g is not None:
            out += [("regulariser", np.array(g) if which.startswith("tikd") and not which.startswith("tikdiag") else g)]
    if hasattr(S, "method"):
        out.append(("method", S.method))
    if hasattr(S, "num_svdmodes"):
        out.append(("modes", S.num_svdmodes))
    if S.data_matrix is None:
        return out
    out += [("data", S.data_matrix), ("lhs", S.lhs_matrix)]
    if solve:
        if not (hasattr(S, "regularizer") and S.regularizer is None):
            out.append(("solution", S.solve()))
        X = D.real(f"X{r}{d}", (r, d))
        out.append(("residual", S.residual(X)))
        if hasattr(S, "regresidual") and S.regularizer is not None:
            out.append(("regularised residual", S.regresidual(X)))
        if hasattr(S, "augcond"):
            out += [("augmented condition number", S.augcond), ("error norm", S.error)]
    return out


def build_model(c, D, cls, ops, r, m, solver=None, fit=False, sizes=None):
    """ops: sequence of (kind, layout or None)"""
    O = [build_op(c, D, k, r, m, lay, f"E{i}") for i, (k, lay) in enumerate(ops)]
    kw = {} if solver is None else {"solver": build_solver(c, D, solver, d=sum(width(c, k, r, m) for k, lay in ops if lay is None) or 1, r=r)}
    M = getattr(c.op.models, cls)(O, **kw)
    if sizes == "r":
        M.state_dimension = r
    if sizes == "m":
        M.input_dimension = m
    if fit == "real":
        k = 3
        c.assume(D.real("Qfit", (r, k))[0, 0] ** 2 >= .1)
        fit_model(c, D, M, cls, r, m, "fit", k)
    elif fit:
        keep = M.solver
        M.solver = Probe(c, D)
        fit_model(c, D, M, cls, r, m, "fit")
        M.solver = keep
    return M


WHICH = {"TikhonovDecoupledSolver": "tikd", "TikhonovSolver": "tik", "L2DecoupledSolver": "l2d", "L2Solver": "l2", "TruncatedSVDSolver": "tsvd", "TotalLeastSquaresSolver": "total"}


def msolver_obs(c, D, M, r):
    """What the solver of a model shows."""
    if M.solver is None:
        return [("solver", None)]
    if isinstance(M.solver, Probe):
        return [("solver", "probe")]
    w = WHICH.get(type(M.solver).__name__, "plain")
    return [("solver: " + k, v) for k, v in solver_obs(c, D, M.solver, w, M.solver.d or 1, M.solver.r or r, solve=True)]


def fit_model(c, D, M, cls, r, m, tag, k=2):
    hasin = M._has_inputs
    Q, Z = D.real("Q" + tag, (r, k)), D.real("Y" + tag, (r, k))
    U = D.real("U" + tag, (m, k)) if hasin else None
    return quiet(lambda: M.fit(Q, Z, U) if hasin else M.fit(Q, Z))


def model_obs(c, D, M, cls, r, m, refit=True):
    np = c.np
    kinds = [type(o).__name__ for o in M.operators]
    out = [("class", type(M).__name__), ("operators", kinds), ("dimensions", (None if M.state_dimension is None else int(M.state_dimension), None if M.input_dimension is None else int(M.input_dimension))),
           ("solver", type(M.solver).__name__), ("intrusive", bool(M._fully_intrusive))]
    for i, o in enumerate(M.operators):
        out.append((f"operator {i} set", o.entries is not None))
        if o.entries is not None:
            out.append((f"operator {i} entries", dense(o.entries)))
    if all(o.entries is not None for o in M.operators):
        q = D.real("q", (r,))
        u = D.real("u", (m,)) if M._has_inputs else None
        if cls == "ContinuousModel":
            fu = (lambda t: u) if u is not None else None
            out += [("rhs", M.rhs(0.5, q, fu)), ("jacobian", np.zeros((r, r)) + M.jacobian(.5, q, fu))]
        elif cls == "DiscreteModel":
            out += [("rhs", M.rhs(q, u)), ("jacobian", np.zeros((r, r)) + M.jacobian(q, u))]
            U = D.real("Up", (m, 2)) if u is not None else None
            out.append(("predict", M.predict(q, 2, U)))
        else:
            out += [("rhs", M.rhs(q, u)), ("jacobian", np.zeros((r, r)) + M.jacobian(q, u))]
    out += msolver_obs(c, D, M, r)
    if refit and not M._fully_intrusive:
        P = Probe(c, D)
        M.solver = P
        fit_model(c, D, M, cls, r, m, "refit")
        out.append(("fits again", len(P.log)))
        if P.log:
            out += [("data matrix of the next fit", P.log[0][0]), ("left-hand side of the next fit", P.log[0][1])]
            out += [(f"operator {i} after the next fit", dense(o.entries)) for i, o in enumerate(M.operators)]
    return out


def build_pmodel(c, D, cls, fam, kinds, r, m, layout="dense", ic=None, known=(), pts="1", solver=None, mic=None, sizes=None):
    """A parametric model; operators whose index is in ``known`` (or all) have entries."""
    O = []
    for i, k in enumerate(kinds):
        lay = layout if known is None or i in known else None
        if fam == "interp":
            O.append(build_interp(c, D, k, r, m, pts if lay else None, lay, ic, name=f"E{i}_"))
        elif fam == "affine":
            O.append(build_affine(c, D, k, r, m, 2, lay, 2, name=f"E{i}_"))
    kw = {} if solver is None else {"solver": build_solver(c, D, solver, d=1, r=r)}
    if mic is not None:
        kw["InterpolatorClass"] = getattr(c.interpolate, IC[mic])
    M = getattr(c.op.models, ("Interp" if fam == "interp" else "Parametric") + cls)(O, **kw)
    if sizes and "r" in sizes:
        M.state_dimension = r
    if sizes and "m" in sizes:
        M.input_dimension = m
    return M


def pmodel_obs(c, D, M, cls, fam, r, m, refit=True, pts="1"):
    np = c.np
    out = [("class", type(M).__name__), ("operators", [type(o).__name__ for o in M.operators]),
           ("dimensions", (None if M.state_dimension is None else int(M.state_dimension), None if M.input_dimension is None else int(M.input_dimension))), ("solver", type(M.solver).__name__),
           ("parameter dimension", M.parameter_dimension), ("intrusive", bool(M._fully_intrusive))]
    out += msolver_obs(c, D, M, r)
    if all(o.entries is not None for o in M.operators):
        mu = 1.25 if fam == "interp" and np.ndim(M.operators[0].training_parameters) == 1 else (D.real("mu", (2,)) if fam == "affine" else M.operators[0].training_parameters[1])
        N = M.evaluate(mu)
        q = D.real("q", (r,))
        u = D.real("u", (m,)) if M._has_inputs else None
        out.append(("rhs", N.rhs(.5, q, (lambda t: u) if u is not None else None) if cls == "ContinuousModel" else N.rhs(q, u)))
        for i, o in enumerate(N.operators):
            out.append((f"operator {i} at mu", dense(o.entries)))
    if refit and not M._fully_intrusive:
        P = Probe(c, D)
        M.solver = P
        s = 3
        Qs, Zs = [D.real(f"Qr{i}", (r, 2)) for i in range(s)], [D.real(f"Yr{i}", (r, 2)) for i in range(s)]
        Us = [D.real(f"Ur{i}", (m, 2)) for i in range(s)] if M._has_inputs else None
        mus = POINTS["2" if fam == "affine" else pts][:s]
        quiet(lambda: M.fit(mus, Qs, Zs, Us))
        out.append(("fits again", len(P.log)))
        for i, (A, Z) in enumerate(P.log):
            out += [(f"data matrix {i} of the next fit", A), (f"left-hand side {i} of the next fit", Z)]
        if P.log:
            for i, o in enumerate(M.operators):
                out += [(f"operator {i} entries {j} after the next fit", dense(E)) for j, E in enumerate(o.entries)]
    return out


# -- transformers --------------------------------------------------------------
def build_tf(c, D, spec, n, fit, name="T", names=False):
    pre = c.op.pre
    k = spec[0]
    nm = {"name": name.lower()} if names else {}
    if k == "null":
        T = pre.NullTransformer(**nm)
    elif k == "shift":
        T = pre.ShiftTransformer(D.real(name + "ref", (n,)), **nm)
    elif k in ("scale", "scalev"):
        d = D.real(name + "scl", () if k == "scale" else (n,))
        for x in [d] if k == "scale" else d:
            c.assume(c.np.abs(x) >= .01)
        T = pre.ScaleTransformer(d, **nm)
    elif k == "ss":
        T = quiet(lambda: pre.ShiftScaleTransformer(centering=spec[1], scaling=spec[2], byrow=spec[3], verbose=bool(spec[3]) != bool(spec[1]), **nm))
    elif k == "multi":
        sizes = spec[2] or (n // len(spec[1]),) * len(spec[1])
        T = quiet(lambda: pre.TransformerMulti([build_tf(c, D, s, ni, False, f"{name}{i}", names) for i, (s, ni) in enumerate(zip(spec[1], sizes))], spec[2]))
    else:
        T = quiet(lambda: pre.TransformerPipeline([build_tf(c, D, s, n, False, f"{name}{i}", names) for i, s in enumerate(spec[1])], **nm))
    if fit:
        Q = D.real(name + "Q", (n, 2))
        if c.symbolic or not D.store.get("admitted" + name):
            from checks import preutil
            m = Shape(c, D, spec, n, name)
            preutil.admit(c, m, Q.copy())
            D.store["admitted" + name] = True
        quiet(lambda: T.fit(Q.copy()))
    return T


class Shape:
    """Stands for preutil.Made with the free data of D."""

    def __init__(self, c, D, spec, n, name):
        self.spec, self.n = spec, n
        k = spec[0]
        self.data = D.real(name + "ref", (n,)) if k == "shift" else (D.real(name + "scl", () if k == "scale" else (n,)) if k in ("scale", "scalev") else None)
        self.kids = ()
        if k == "multi":
            sizes = spec[2] or (n // len(spec[1]),) * len(spec[1])
            self.kids = [Shape(c, D, s, ni, f"{name}{i}") for i, (s, ni) in enumerate(zip(spec[1], sizes))]
        elif k == "pipe":
            self.kids = [Shape(c, D, s, n, f"{name}{i}") for i, s in enumerate(spec[1])]


def tf_settings(T):
    out = [type(T).__name__, getattr(T, "name", None), T.state_dimension if T.state_dimension is None else int(T.state_dimension)]
    for a in ("centering", "scaling", "byrow", "verbose"):
        if hasattr(T, a):
            v = getattr(T, a)
            out.append((a, v if isinstance(v, str) or v is None else bool(v)))
    for S in getattr(T, "transformers", ()):
        out.append(tf_settings(S))
    if hasattr(T, "variable_names"):
        out.append(tuple(T.variable_names))
    return out


def tf_obs(c, D, T, n, ready):
    np = c.np
    out = [("settings", tf_settings(T))]
    if ready:
        X = D.real("X", (n, 2))
        out += [("transform", T.transform(X.copy(), inplace=False)), ("inverse", T.inverse_transform(X.copy(), inplace=False)),
                ("ddts", T.transform_ddts(X.copy(), inplace=False)), ("one state", T.transform(X[:, 0].copy(), inplace=False))]
        if n > 1:
            out.append(("some rows", T.inverse_transform(X[1:].copy(), inplace=False, locs=np.arange(1, n))) if not hasattr(T, "transformers") or T.__class__.__name__ == "TransformerPipeline" and
                       not any(hasattr(t, "transformers") for t in T.transformers) else ("-", 0))
    return out


# -- bases -------------------------------------------------------------------
def square(c, r, key):
    """A 2 x 2 weight matrix with a known square root, and a basis orthonormal with respect to it."""
    c.opt("exact_close", True)
    a, b, d = c.real(key + "a", (), "pos"), c.real(key + "b"), c.real(key + "d", (), "pos")
    c.assume(a >= .3), c.assume(d >= .3)
    L = c.np.array([[a, b], [a * 0, d]])
    R = L.T @ L
    W = R @ R
    if c.symbolic:
        c.opt("sqrtm", [(W, R)])
    return c.matsolve(R, c.orthonormal(key, 2, r)), W, W


def build_basis(c, D, kind, n, r, weights=None, name=None, crit=None, full=None):
    B = c.op.basis
    if kind == "multi":
        return quiet(lambda: B.BasisMulti([build_basis(c, D, *x[:3], **dict(x[3], name=x[3].get("name"))) if True else None for x in crit]))
    if kind == "podempty":
        return quiet(lambda: B.PODBasis(**dict(crit), weights=None if weights is None else D.get("w", lambda: space(c, n, r, weights, "V")[1]), name=name))
    key = f"V{n}{r}{weights}{full or ''}"
    V, w, W = D.get(key, lambda: (square(c, full or r, key) if weights == "square" else space(c, n, full or r, weights, key)))
    V = V.copy()
    w = w.copy() if w is not None else None
    if kind == "linear":
        return quiet(lambda: B.LinearBasis(V[:, :r], weights=w, name=name))
    s = D.real(f"s{n}{r}", (full or r,), "pos")
    for i in range(len(s) - 1):
        c.assume(s[i] >= s[i + 1])
        c.assume(s[i + 1] >= s[0] / 10)
    R = D.real(f"R{n}{r}", (3, full or r)) if kind == "podr" else None
    return quiet(lambda: B.PODBasis.from_svd(V, s, R, weights=w, name=name, **dict(crit or ())))


def basis_obs(c, D, B, n, r):
    np = c.np
    if hasattr(B, "bases"):
        out = [("class", type(B).__name__), ("name", getattr(B, "name", None)), ("variables", B.num_variables)]
        for i, b in enumerate(B.bases):
            out += [(f"{i}: {k}", v) for k, v in basis_obs(c, D, b, b.full_state_dimension, b.reduced_state_dimension)]
        x, q = D.real("xm", (n, 2)), D.real("qm", (r, 2))
        return out + [("compress", B.compress(x)), ("decompress", B.decompress(q)), ("dims", (int(B.full_state_dimension), int(B.reduced_state_dimension)))]
    out = [("class", type(B).__name__), ("name", B.name), ("dims", tuple(None if x is None else int(x) for x in (B.full_state_dimension, B.reduced_state_dimension)))]
    w = B.weights
    out.append(("weights set", w is not None))
    if w is not None:
        w = dense(w)
        out.append(("weights", np.diag(w) if np.ndim(w) == 1 else w))
    if hasattr(B, "svdsolver"):
        out.append(("solver", B.svdsolver))
    if B.entries is None:
        return out
    x, q = D.real(f"x{n}", (n, 2)), D.real(f"q{n}_{B.entries.shape[1]}", (B.entries.shape[1], 2))
    out += [("entries", B.entries), ("compress", B.compress(x)), ("decompress", B.decompress(q))]
    if hasattr(B, "svdvals"):
        out += [("singular values", B.svdvals), ("max vectors", B.max_vectors), ("left vectors", B.leftvecs), ("cumulative energy", B.cumulative_energy), ("residual energy", B.residual_energy),
                ("right vectors set", B.rightvecs is not None)]
        if B.rightvecs is not None:
            out.append(("right vectors", B.rightvecs))
    return out


# -- comparing -----------------------------------------------------------------
def same(c, label, a, b):
    """Two lists of observations agree."""
    c.true(f"{label}: same observations", [k for k, _ in a] == [k for k, _ in b])
    for (k, x), (_, y) in zip(a, b):
        if hasattr(x, "shape") or hasattr(y, "shape") or type(x).__name__ == "Sym" or type(y).__name__ == "Sym":
            c.eq(f"{label}: {k}", x, y)
        else:
            c.true(f"{label}: {k}", x == y, f"{x} / {y}")
