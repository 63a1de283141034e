"""C27, second part: solvers, transformers, bases, derivative estimators, reduced models."""

import itertools

from checks import objs
from checks.c27 import GOOD, attempt, refuse, refuse_fit
from checks.c23 import frozen
from checks.objs import Data, quiet, same

NAN, INF = float("nan"), float("inf")


# -- solvers -------------------------------------------------------------------------------
BARE = {"l2": "l2none", "l2d": "l2dnone", "tik": "tiknone", "tikd": "tikdnone"}


def s_use(c, D, S, which):
    """Everything a solver shows; raises before it is fitted."""
    if S.data_matrix is None:
        S.residual(c.zeros((1, 1)))
    return objs.solver_obs(c, D, S, which, S.d, S.r, solve=True)


def s_shown(c, D, which, d, r):
    return lambda S: objs.solver_obs(c, D, S, which, d, r, solve=S.data_matrix is not None)


def s_fit(c, which, state, what):
    """Data matrices that do not fit together or to the regulariser."""
    D = Data(c)
    d, r, k = (2, 2, 3) if which != "total" else (1, 1, 3)
    c.opt("svd_fresh", True)
    S = objs.build_solver(c, D, which, d, r, fitted=state == "fitted", k=k)
    A, Z = objs.solver_data(c, D, which, k, d, r, "next")
    R = lambda n, *s: D.real(n, s)
    bad = {"more columns": (A, R("Zm", r, k + 1)), "fewer columns": (A, R("Zf", r, k - 1)), "transposed lhs": (A, R("Zt", k, r) if k != r else None), "1-D data": (R("A1", k), Z),
           "3-D data": (R("A3", k, d, 1), Z), "3-D lhs": (A, R("Z3", r, k, 1)), "1-D lhs of another length": (A, R("Z1", k + 1)), "transposed data": (R("At", d, k), Z) if d != k else None,
           "another data width": (R("Aw", k + 1, d + 1), R("Zw", r, k + 1)), "narrower data": (R("An", k, d - 1), Z) if d > 1 else None, "more rows": (A, R("Zr", r + 1, k)),
           "fewer rows": (A, R("Zr", r - 1, k)) if r > 1 else None, "1-D lhs": (A, R("Z1d", k)), "underdetermined": (R("Au", d, d), R("Zu", r, d)) if which == "total" else None,
           "nan": (with_value(A.copy(), NAN), Z), "inf": (with_value(A.copy(), INF), Z), "nan lhs": (A, with_value(Z.copy(), NAN))}[what]
    applies = {"another data width": which in ("tik", "tikd", "tikdiag"), "narrower data": which in ("tik", "tikd", "tikdiag"), "more rows": which in ("l2d", "tikd"), "fewer rows": which in ("l2d", "tikd"),
               "1-D lhs": which in ("l2d", "tikd"), "nan": which in ("l2", "l2none", "l2d", "tsvd", "total"), "inf": which in ("l2", "l2none", "l2d", "tsvd", "total"), "nan lhs": which == "total"}.get(what, True)
    if bad is None or not applies:
        c.ok("not applicable")
        return
    refuse_fit(c, what, S, lambda S: S.fit(*bad), lambda S: s_use(c, D, S, which))
    quiet(lambda: S.fit(A, Z))
    c.true("proper data is accepted", (S.k, S.d, S.r) == (k, d, r))


def with_value(E, x):
    E[(-1,) * E.ndim] = x
    return E


def s_reg(c, which, state, what):
    """Regularisers of the wrong shape or sign."""
    D = Data(c)
    d, r, k = 2, 2, 3
    fitted = state == "fitted"
    S = objs.build_solver(c, D, BARE[which] if state == "none" else which, d, r, fitted=fitted, k=k)
    obs = s_shown(c, D, which, d, r)
    R = lambda n, *s: D.real(n, s)
    I = lambda n: c.np.eye(n)
    neg = lambda n, pos: with_negative(c, D, n, pos)
    bad = {"l2": {"array": R("g", r), "list": [1.0], "1-element array": R("g1", 1), "negative": neg(0, 0)},
           "l2d": {"number": 1.0, "2-D": R("g2", r, 1), "too many": D.real("gm", (r + 1,), "pos"), "too few": D.real("gf", (r - 1,), "pos"), "negative first": neg(r, 0), "negative last": neg(r, r - 1)},
           "tik": {"number": 1.0, "too large": I(d + 1), "too small": I(d - 1), "rectangular": R("gr", d, d + 1), "tall": R("gt", d + 1, d), "3-D": R("g3", d, d, 1), "diagonal too long": D.real("gl", (d + 1,), "pos"),
                   "diagonal too short": D.real("gs", (d - 1,), "pos"), "negative first": neg(d, 0), "negative last": neg(d, d - 1)},
           "tikd": {"number": 1.0, "too many": [I(d)] * (r + 1), "too few": [I(d)] * (r - 1), "one too large": [I(d), I(d + 1)], "first too small": [I(d - 1), I(d)], "rectangular": [I(d), R("gr", d, d + 1)],
                    "diagonal too long": [I(d), D.real("gl", (d + 1,), "pos")], "diagonal too short": [D.real("gs", (d - 1,), "pos"), I(d)], "negative first": [neg(d, 0), I(d)], "negative last": [I(d), neg(d, d - 1)],
                    "3-D entry": [I(d), R("g3", d, d, 1)]}}[which].get(what)
    if bad is None:
        c.ok("not applicable")
        return
    value_only = what.startswith("negative") or what in ("array", "list", "1-element array", "number", "2-D") and which in ("l2", "l2d")
    if value_only and not (which in ("tik", "tikd") and what == "number"):
        c.raises("constructor", GOOD, lambda: type(S)(bad))
        refuse(c, what, S, lambda S: setattr(S, "regularizer", bad), obs)
        return
    if fitted:
        refuse(c, what, S, lambda S: setattr(S, "regularizer", bad), obs)
        return
    # before the data is known, the shapes are checked against the data in fit()
    try:
        S.regularizer = bad
    except GOOD:
        c.ok("rejected at once")
        return
    A, Z = objs.solver_data(c, D, which, k, d, r, "next")
    c.raises("fit() rejects the regulariser", GOOD, lambda: quiet(lambda: S.fit(A, Z)))
    c.raises("no solution", GOOD, S.solve)


def with_negative(c, D, n, pos):
    """A scalar or vector with one negative entry."""
    x = D.real(f"neg{n}{pos}", (), "pos")
    if n == 0:
        return -x
    v = D.real(f"negv{n}", (n,), "pos").copy()
    v[pos] = -x
    return v


def s_sign(c, which, n):
    """The sign of the entries decides."""
    D = Data(c)
    g = D.real("g", (n,) if n else ())
    S = objs.build_solver(c, D, which, n or 2, n or 1)
    obs = s_shown(c, D, which, n, n)
    before = frozen(obs(S))
    flat = [g] if n == 0 else list(g)
    low = flat[0]
    for x in flat[1:]:
        low = c.np.minimum(low, x)
    value = g if which != "tikd" else [D.real("g2", (n,), "nonneg")] * (n - 1) + [g]
    try:
        S.regularizer = value
    except GOOD:
        c.true("only negative values are rejected", low < 0)
        same(c, "after the rejection", before, obs(S))
    else:
        c.true("negative values are rejected", low >= 0)


def s_before(c, which):
    """Nothing can be computed before fit(), or without a regulariser."""
    D = Data(c)
    S = objs.build_solver(c, D, which, 2, 1)
    X = D.real("X", (1, 2))
    for name in ("cond", "regcond", "posterior", "tcond"):
        if hasattr(S, name):
            refuse(c, name, S, lambda S: getattr(S, name)())
    for name in ("augcond", "error"):
        if hasattr(type(S), name):
            refuse(c, name, S, lambda S: getattr(S, name))
    refuse(c, "solve", S, lambda S: S.solve())
    refuse(c, "residual", S, lambda S: S.residual(X))
    if hasattr(S, "regresidual"):
        refuse(c, "regularised residual", S, lambda S: S.regresidual(X))
    A, Z = objs.solver_data(c, D, which, 3, 2, 1, "new") if which != "total" else objs.solver_data(c, D, which, 3, 1, 1, "new")
    if which in BARE.values():
        quiet(lambda: S.fit(A, Z))
        for name in ("solve", "regcond", "posterior"):
            refuse(c, f"{name} without a regulariser", S, lambda S: getattr(S, name)())
        refuse(c, "regularised residual without a regulariser", S, lambda S: S.regresidual(X))
    elif which != "total":
        quiet(lambda: S.fit(A, Z))
        S.reset()
        refuse(c, "solve after reset", S, lambda S: S.solve())
        refuse(c, "residual after reset", S, lambda S: S.residual(X))


def s_use_shapes(c, which):
    """Residuals of matrices of the wrong shape."""
    D = Data(c)
    d, r, k = (2, 2, 3) if which != "total" else (1, 1, 3)
    S = objs.build_solver(c, D, which, d, r, fitted=True, k=k)
    obs = s_shown(c, D, which, d, r)
    for w in [(r + 1, d), (r, d + 1), (d + 1, r + 2), (r * d + 1,), (1, d) if r > 1 else (2, 2), (r, 1) if d > 1 else (3, 1), (r, d, 1), (1, r, d), (d,) if r > 1 else (d + 1,), ()]:
        X = D.real("W" + "x".join(map(str, w)), w) if w else 1.5
        refuse(c, f"residual {w}", S, lambda S: S.residual(X), obs)
        if hasattr(S, "regresidual"):
            refuse(c, f"regularised residual {w}", S, lambda S: S.regresidual(X), obs)


def s_modes(c):
    """The number of modes of a truncated solver."""
    D = Data(c)
    S = objs.build_solver(c, D, "tsvd", 2, 1, fitted=True)
    obs = s_shown(c, D, "tsvd", 2, 1)
    for n in (3, 4, -2, -3, 1.0, 1.5, "1", [1]):
        refuse(c, f"{n!r} modes", S, lambda S: setattr(S, "num_svdmodes", n), obs)
    for n in (1.5, "2", [1]):
        c.raises(f"constructor with {n!r} modes", GOOD, lambda: c.op.lstsq.TruncatedSVDSolver(n))
    T = c.op.lstsq.TruncatedSVDSolver(-5)
    A, Z = objs.solver_data(c, D, "tsvd", 3, 2, 1, "new")
    refuse_fit(c, "too negative a number of modes", T, lambda T: T.fit(A, Z), lambda T: s_use(c, D, T, "tsvd"))
    for which in ("tik", "tikd"):
        K = objs.build_solver(c, D, which, 2, 1)
        obs = s_shown(c, D, which, 2, 1)
        for m in ("svd", "", None, "NORMAL"):
            refuse(c, f"method {m!r}", K, lambda K: setattr(K, "method", m), obs)
            c.raises(f"constructor with method {m!r}", GOOD, lambda: type(K)(None, method=m))


def s_factory(c):
    """get_operator_regularizer() with arguments that do not match."""
    O, T = c.op.operators, c.op.lstsq.TikhonovSolver
    g = c.real("g", (3,), "pos")
    ops = [O.ConstantOperator(), O.LinearOperator()]
    inp = [O.LinearOperator(), O.InputOperator()]
    for label, a in [("fewer parameters", (ops, [g[0]], 2)), ("more parameters", (ops, list(g), 2)), ("inputs without dimension", (inp, list(g[:2]), 2)), ("no input dimension", (inp, list(g[:2]), 2, 0)),
                     ("vector of the wrong size", (ops, [g[0], g], 2)), ("interpolated", ([O.LinearOperator(), O.InterpInputOperator()], list(g[:2]), 2, 1)), ("no operator", ([O.LinearOperator(), 3.0], list(g[:2]), 2))]:
        c.raises(label, GOOD, lambda: quiet(lambda: T.get_operator_regularizer(*a)))


# -- transformers ------------------------------------------------------------------------
def t_states(c, spec, n, state):
    """States of the wrong size, for every method."""
    D = Data(c)
    T = objs.build_tf(c, D, spec, n, state == "fitted")
    ready = state == "fitted" or all_fixed(spec)
    obs = (lambda T: objs.tf_obs(c, D, T, n, True)) if ready else (lambda T: [("settings", objs.tf_settings(T))])
    flat = lambda w: "x".join(map(str, w))
    for w in [(n + 1, 2), (n - 1, 2), (n + 1,), (n - 1,), (2 * n, 1)]:
        if w[0] < 1:
            continue
        for name in ("transform", "inverse_transform", "transform_ddts"):
            for inplace in (False, True):
                refuse(c, f"{name} {w} {inplace}", T, lambda T: getattr(T, name)(D.real("w" + flat(w), w).copy(), inplace=inplace), obs)
    if ready:
        for ix, w in [(range(n), (n + 1, 2)), (range(n), (n - 1, 2)), (range(1), (n + 1, 2)), (range(1, n), (n + 2,)), (range(n), (1, 2)), (range(1, n), (n, 2)), (range(n), (1,))]:
            if w[0] < 1 or len(ix) == w[0] or len(ix) == 0 or spec[0] == "multi":
                continue
            refuse(c, f"{w} at {list(ix)}", T, lambda T: T.inverse_transform(D.real("l" + flat(w), w).copy(), locs=c.np.array(list(ix))), obs)
            refuse(c, f"{w} at slice {ix}", T, lambda T: T.inverse_transform(D.real("l" + flat(w), w).copy(), locs=slice(ix[0], ix[-1] + 1)), obs)


def all_fixed(spec):
    return spec[0] in ("shift", "scalev") or spec[0] in ("multi", "pipe") and all(all_fixed(s) for s in spec[1])


def t_unfitted(c, spec, n):
    """A transformer that has learned nothing transforms nothing."""
    D = Data(c)
    T = objs.build_tf(c, D, spec, n, False)
    for w in ((n, 2), (n,)):
        for name in ("transform", "inverse_transform", "transform_ddts"):
            refuse(c, f"{name} {w}", T, lambda T: getattr(T, name)(D.real(f"X{len(w)}", w).copy()), lambda T: [("settings", objs.tf_settings(T))])
    refuse(c, "some rows", T, lambda T: T.inverse_transform(D.real("Xl", (1, 2)).copy(), locs=c.np.array([0])), lambda T: [("settings", objs.tf_settings(T))])


def t_fit(c, spec, n, state):
    """Snapshots a transformer cannot be fitted to."""
    D = Data(c)
    T = objs.build_tf(c, D, spec, n, state == "fitted")
    wrong = []
    if all_fixed(spec) or spec[0] == "multi" and (state == "fitted" or spec[2]) or spec[0] == "pipe" and any(all_fixed(s) for s in spec[1]):
        wrong += [(n + 1, 2), (n - 1, 2), (2 * n, 2)]
    if spec[0] == "ss" or spec[0] == "pipe" and spec[1][0][0] == "ss":
        wrong += [(n,), (n, 2, 1)]
    if spec[0] == "multi" and state != "fitted" and not spec[2]:
        wrong += [(n + 1, 2), (n - 1, 2)] if len(spec[1]) == 2 else []
    for w in wrong:
        if w[0] < 1:
            continue
        for name in ("fit", "fit_transform"):
            refuse_fit(c, f"{name} {w}", T, lambda T: getattr(T, name)(D.real("w" + "x".join(map(str, w)), w).copy()), lambda T: objs.tf_obs(c, D, T, n, True))
    c.ok("checked")


def t_set(c, what, n):
    """Hand-set statistics, references and scalings."""
    D = Data(c)
    P = c.op.pre
    R = lambda nm, *s: D.real(nm, s)
    Z = c.np.zeros
    if what == "shift":
        for label, ref in (("number", 1.0), ("2-D", R("r2", n, 1)), ("0-D", c.np.array(1.0)), ("list", list(R("r", n))), ("none", None)):
            c.raises(label, GOOD, lambda: P.ShiftTransformer(ref))
        T = objs.build_tf(c, D, ("shift",), n, False)
        for bad in (n + 1, n - 1, None, "a"):
            refuse(c, f"dimension {bad}", T, lambda T: setattr(T, "state_dimension", bad), lambda T: objs.tf_obs(c, D, T, n, True))
    elif what == "scale":
        for label, ref in (("2-D", R("r2", n, 1)), ("list", list(R("r", n))), ("none", None), ("zero", 0), ("zero array", Z(n)), ("text", "2")):
            c.raises(label, GOOD, lambda: P.ScaleTransformer(ref))
        for i in range(n):
            v = D.real("v", (n,), "pos").copy()
            v[i] = 0.0
            c.raises(f"zero at {i}", GOOD, lambda: P.ScaleTransformer(v))
        s = D.real("s", (n,))
        try:
            P.ScaleTransformer(s)
        except GOOD:
            c.true("only zeros are rejected", c.np.min(c.np.abs(s)) == 0)
        else:
            c.true("zeros are rejected", c.np.min(c.np.abs(s)) > 0)
        T = objs.build_tf(c, D, ("scalev",), n, False)
        for bad in (n + 1, n - 1, None, "a"):
            refuse(c, f"dimension {bad}", T, lambda T: setattr(T, "state_dimension", bad), lambda T: objs.tf_obs(c, D, T, n, True))
    else:
        for byrow in (True, False):
            for state in ("new", "sized", "fitted"):
                spec = ("ss", True, "standard", byrow)
                T = objs.build_tf(c, D, spec, n, state == "fitted")
                if state == "sized":
                    T.state_dimension = n
                obs = lambda T: objs.tf_obs(c, D, T, n, state == "fitted")
                wrong = [("2-D", R("m2", n, 1)), ("0-D", 1.5)] + ([] if state == "new" else [("longer", R("ml", n + 1)), ("shorter", R("ms", n - 1))])
                for label, x in wrong:
                    refuse(c, f"mean {label} ({state})", T, lambda T: setattr(T, "mean_", x), obs)
                for a in ("scale_", "shift_"):
                    if not byrow:
                        wrong = [("2-D", R("m2", n, 1)), ("1-D", R("m1", n)), ("longer", R("ml", n + 1))]
                    for label, x in wrong:
                        refuse(c, f"{a} {label} ({state}, byrow={byrow})", T, lambda T: setattr(T, a, x), obs)
        T = objs.build_tf(c, D, ("ss", False, None, False), n, False)
        for a in ("mean_", "scale_", "shift_"):
            refuse(c, f"{a} of no transformation", T, lambda T: setattr(T, a, R("v", n)), lambda T: [(a, getattr(T, a))])
        for kw in (dict(scaling="minimax"), dict(scaling=1), dict(scaling="maxnorm", byrow=True), dict(scaling="maxnormsym", byrow=True)):
            c.raises(f"constructor {kw}", GOOD, lambda: quiet(lambda: P.ShiftScaleTransformer(**kw)))


def t_make(c, what):
    """Chains and multi-variable transformers that do not fit together."""
    D = Data(c)
    P = c.op.pre
    sh = lambda n: P.ShiftTransformer(D.real(f"r{n}", (n,)))
    sc = lambda n: P.ScaleTransformer(D.real(f"s{n}", (n,), "pos"))
    bad = {"chain": lambda: P.TransformerPipeline([sh(2), sc(3)]), "chain of three": lambda: P.TransformerPipeline([sh(2), P.ShiftScaleTransformer(True), sc(3)]), 
           "no variables": lambda: P.TransformerMulti([]), "fewer sizes": lambda: P.TransformerMulti([sh(2), sh(3)], (2,)), "more sizes": lambda: P.TransformerMulti([sh(2), sh(3)], (2, 3, 1)),
           "other size": lambda: P.TransformerMulti([sh(2), sh(3)], (3, 2)), "other last size": lambda: P.TransformerMulti([None, sh(3)], (2, 2)), "other first size": lambda: P.TransformerMulti([sc(3), None], (2, 2)),
           "chain in sizes": lambda: P.TransformerMulti([P.TransformerPipeline([sh(2), P.ShiftScaleTransformer(True)]), None], (3, 3))}[what]
    c.raises(what, GOOD, lambda: quiet(bad))


def t_vars(c, sizes, state):
    """Variables that do not exist."""
    D = Data(c)
    n = sum(sizes)
    specs = tuple(("ss", True, None, False) for _ in sizes)
    T = objs.build_tf(c, D, ("multi", specs, sizes if state != "new" else None), n, state == "fitted")
    nv = len(sizes)
    Q = D.real("Q", (n, 2))
    obs = lambda T: [("settings", objs.tf_settings(T))]
    for v in (nv, nv + 1, -nv - 1, "no such variable") if state != "new" else (0, 1):
        refuse(c, f"variable {v}", T, lambda T: T.get_var(v, Q), obs)
    for w in ((n + 1, 2), (n - 1, 2), (n + 1,)) if state != "new" else ((n, 2),):
        X = D.real("X" + "x".join(map(str, w)), w)
        refuse(c, f"variable of {w}", T, lambda T: T.get_var(0, X), obs)
        refuse(c, f"split of {w}", T, lambda T: T.split(X), obs)
    if state == "fitted":
        refuse(c, "rows that do not split", T, lambda T: T.inverse_transform(D.real("odd", (2 * nv - 1, 2)), locs=c.np.array([0, 1])), obs)
        refuse(c, "rows for other locations", T, lambda T: T.inverse_transform(D.real("many", (2 * nv, 2)), locs=c.np.array([0])), obs)
        if len(set(sizes)) > 1:
            refuse(c, "locations in variables of different sizes", T, lambda T: T.inverse_transform(D.real("loc", (nv, 2)), locs=c.np.array([0])), obs)


# -- bases ---------------------------------------------------------------------------------
def b_states(c, kind, n, r, weights):
    D = Data(c)
    B = objs.build_basis(c, D, kind, n, r, weights)
    obs = lambda B: objs.basis_obs(c, D, B, n, r)
    nm = lambda w: "w" + "x".join(map(str, w))
    for w in [(n + 1, 2), (n - 1, 2), (n + 1,), (n - 1,), (1, n) if n > 1 else (2, 1), (2 * n, 1)]:
        X = D.real(nm(w), w)
        refuse(c, f"compress {w}", B, lambda B: B.compress(X), obs)
        if w[0] != n:
            refuse(c, f"project {w}", B, lambda B: B.project(X), obs)
            refuse(c, f"projection error {w}", B, lambda B: B.projection_error(X), obs)
    for w in [(r + 1, 2), (r + 1,), (r + 2, 1)] + ([(r - 1, 2), (r - 1,)] if r > 1 else []):
        X = D.real(nm(w), w)
        refuse(c, f"decompress {w}", B, lambda B: B.decompress(X), obs)
        refuse(c, f"decompress {w} at rows", B, lambda B: B.decompress(X, locs=c.np.array([0])), obs)
    refuse(c, "rows that do not exist", B, lambda B: B.decompress(D.real("q", (r,)), locs=c.np.array([0, n])), obs)


def b_make(c, what):
    D = Data(c)
    B = c.op.basis
    R = lambda nm, *s: D.real(nm, s)
    V = c.orthonormal("V", 3, 2)
    s = D.real("s", (2,), "pos")
    c.assume(s[0] >= s[1]), c.assume(s[1] >= s[0] / 10)
    bad = {"1-D entries": lambda: B.LinearBasis(R("v", 3)), "3-D entries": lambda: B.LinearBasis(c.np.ones((2, 2, 2))), "number": lambda: B.LinearBasis(1.0), "longer weights": lambda: B.LinearBasis(V, weights=D.real("w4", (4,), "pos")),
           "shorter weights": lambda: B.LinearBasis(V, weights=D.real("w2", (2,), "pos")), "larger weights": lambda: B.LinearBasis(V, weights=c.np.eye(4)), "rectangular weights": lambda: B.LinearBasis(V, weights=R("W34", 3, 4)),
           "3-D weights": lambda: B.LinearBasis(V, weights=R("W3", 3, 3, 1)), "0-D weights": lambda: B.LinearBasis(V, weights=2.0), "unchecked rectangular weights": lambda: B.LinearBasis(V, weights=R("W34", 3, 4), check_orthogonality=False),
           "unchecked longer weights": lambda: B.LinearBasis(V, weights=D.real("w4", (4,), "pos"), check_orthogonality=False),
           "no criterion": lambda: B.PODBasis(), "max vectors": lambda: B.PODBasis(num_vectors=2, max_vectors=0), "negative max vectors": lambda: B.PODBasis(num_vectors=2, max_vectors=-1),
           "svd solver": lambda: B.PODBasis(num_vectors=2, svdsolver="lanczos"), "svd options": lambda: setattr(B.PODBasis(num_vectors=2), "svdsolver_options", [1]),
           "fewer singular values": lambda: B.PODBasis.from_svd(V, s[:1]), "fewer right vectors": lambda: B.PODBasis.from_svd(V, s, R("W", 4, 1)), "weights of the vectors": lambda: B.PODBasis.from_svd(V, s, weights=D.real("w4", (4,), "pos")),
           "no bases": lambda: B.BasisMulti([]), "fewer sizes": lambda: B.BasisMulti([B.LinearBasis(V), B.LinearBasis(V)], (3,)), "more sizes": lambda: B.BasisMulti([B.LinearBasis(V), B.LinearBasis(V)], (3, 3, 3)),
           "other size": lambda: B.BasisMulti([B.LinearBasis(V), B.LinearBasis(V)], (3, 2)), "other first size": lambda: B.BasisMulti([B.LinearBasis(V), B.LinearBasis(V)], (4, 3))}[what]
    c.raises(what, GOOD, lambda: quiet(bad))


def b_unfitted(c, weights):
    """A basis without entries."""
    D = Data(c)
    B = c.op.basis
    P = quiet(lambda: B.PODBasis(num_vectors=2, weights=D.real("w", (3,), "pos") if weights else None))
    obs = lambda P: [("entries", P.entries is None), ("dims", (P.full_state_dimension, P.max_vectors))]
    for w in ((3, 2), (3,)):
        X = D.real(f"X{len(w)}", w)
        refuse(c, f"compress {w}", P, lambda P: P.compress(X), obs)
        refuse(c, f"project {w}", P, lambda P: P.project(X), obs)
        refuse(c, f"projection error {w}", P, lambda P: P.projection_error(X), obs)
    for w in ((2, 2), (2,)):
        refuse(c, f"decompress {w}", P, lambda P: P.decompress(D.real(f"q{len(w)}", w)), obs)
        refuse(c, f"decompress {w} at rows", P, lambda P: P.decompress(D.real(f"q{len(w)}", w), locs=c.np.array([0])), obs)
    refuse(c, "energy plot", P, lambda P: P.plot_energy(), obs)
    if weights:
        for w in ((4, 3), (2, 3)):
            refuse(c, f"fit {w}", P, lambda P: P.fit(D.real(f"F{w[0]}", w)), obs)
    M = quiet(lambda: B.BasisMulti([B.PODBasis(num_vectors=1), B.PODBasis(num_vectors=1)]))
    obs = lambda M: [("sizes", M.full_variable_sizes), ("entries", [b.entries is None for b in M.bases])]
    X = D.real("Xm", (4, 2))
    refuse(c, "multi compress", M, lambda M: M.compress(X), obs)
    refuse(c, "multi decompress", M, lambda M: M.decompress(X[:2]), obs)
    refuse(c, "multi split", M, lambda M: M.split(X), obs)
    refuse(c, "multi variable", M, lambda M: M.get_var(0, X), obs)
    refuse(c, "multi fit", M, lambda M: M.fit(D.real("X5", (5, 2))), obs)


def b_multi(c, sizes, r):
    """Several variables."""
    D = Data(c)
    B = objs.build_basis(c, D, "multi", None, None, crit=tuple(("linear", n, r, {}) for n in sizes))
    n, R, nv = sum(sizes), r * len(sizes), len(sizes)
    obs = lambda B: objs.basis_obs(c, D, B, n, R)
    nm = lambda w: "w" + "x".join(map(str, w))
    for w in [(n + 1, 2), (n - 1, 2), (n + 1,), (n + 2,)]:
        X = D.real(nm(w), w)
        refuse(c, f"compress {w}", B, lambda B: B.compress(X), obs)
        refuse(c, f"project {w}", B, lambda B: B.project(X), obs)
        refuse(c, f"fit {w}", B, lambda B: B.fit(X), obs)
        if w[0] != R:
            refuse(c, f"split {w}", B, lambda B: B.split(X), obs)
            refuse(c, f"variable of {w}", B, lambda B: B.get_var(0, X), obs)
    for w in [(R + 1, 2), (R - 1, 2), (R + 1,)]:
        X = D.real(nm(w), w)
        refuse(c, f"decompress {w}", B, lambda B: B.decompress(X), obs)
    for v in (nv, -nv - 1, "other"):
        refuse(c, f"variable {v}", B, lambda B: B.get_var(v, D.real("Xn", (n, 2))), obs)
        refuse(c, f"reduced variable {v}", B, lambda B: B.get_var(v, D.real("qR", (R, 2))), obs)
    if len(set(sizes)) > 1:
        refuse(c, "rows in variables of different sizes", B, lambda B: B.decompress(D.real("qR", (R, 2)), locs=c.np.array([0])), obs)


# -- time derivatives ------------------------------------------------------------------------
def d_estimator(c, which, k):
    np = c.np
    D = Data(c)
    d = c.op.ddt
    t = np.arange(k) * .5 if which != "nonuniform" else np.array([0, .5, 1.5, 2.0, 4.0, 4.5, 6.0, 7.5][:k])
    E = quiet(lambda: d.NonuniformFiniteDifferencer(t) if which == "nonuniform" else (d.InterpDerivativeEstimator(t, which[7:]) if which.startswith("interp") else d.UniformFiniteDifferencer(t, which)))
    Q = D.real("Q", (2, k))
    obs = lambda E: [("time", E.time_domain)]
    for w in ((k,), (2, k, 1)):
        refuse(c, f"states {w}", E, lambda E: E.estimate(D.real(f"S{len(w)}", w)), obs)
    for w in ((2, k + 1), (2, k - 1), (1, k + 1), (k + 1,), (k - 1,), (k, 2)):
        refuse(c, f"inputs {w}", E, lambda E: E.estimate(Q, D.real("U" + "x".join(map(str, w)), w)), obs)
    if which == "nonuniform" or which.startswith("interp"):
        for w in ((2, k + 1), (2, k - 1)):
            refuse(c, f"states {w}", E, lambda E: E.estimate(D.real(f"S{w[1]}", w)), obs)
    if which.startswith("interp"):
        F = quiet(lambda: d.InterpDerivativeEstimator(t, which[7:], new_time_domain=np.array([.25, .75])))
        refuse(c, "mask", F, lambda F: F.mask(D.real("M", (2, k + 1))), obs)


def d_make(c):
    np = c.np
    D = Data(c)
    d = c.op.ddt
    t, u = np.array([0., 1., 2., 3., 4., 5., 6., 7.]), np.array([0., 1., 2., 3.5, 4., 5., 6., 7.])
    Q = D.real("Q", (2, 8))
    for label, f in [("list", lambda: d.UniformFiniteDifferencer([0., 1., 2.])), ("2-D time", lambda: d.UniformFiniteDifferencer(t.reshape((2, 4)))), ("number", lambda: d.UniformFiniteDifferencer(1.0)),
                     ("uneven time", lambda: d.UniformFiniteDifferencer(u)), ("scheme", lambda: d.UniformFiniteDifferencer(t, "ctr3")), ("scheme none", lambda: d.UniformFiniteDifferencer(t, None)),
                     ("nonuniform list", lambda: d.NonuniformFiniteDifferencer([0., 1., 2.])), ("nonuniform 2-D", lambda: d.NonuniformFiniteDifferencer(u.reshape((2, 4)))),
                     ("interpolator", lambda: d.InterpDerivativeEstimator(t, "quintic")), ("new time 2-D", lambda: d.InterpDerivativeEstimator(t, "cubic", new_time_domain=t.reshape((2, 4)))),
                     ("new time list", lambda: d.InterpDerivativeEstimator(t, "cubic", new_time_domain=[1., 2.])), ("interp time", lambda: d.InterpDerivativeEstimator(t.reshape((2, 4)))),
                     ("uniform 1-D", lambda: d.ddt_uniform(Q[0], .5)), ("uniform 3-D", lambda: d.ddt_uniform(Q.reshape((2, 8, 1)), .5)), ("step array", lambda: d.ddt_uniform(Q, t)),
                     ("order 3", lambda: d.ddt_uniform(Q, .5, 3)), ("order 8", lambda: d.ddt_uniform(Q, .5, order=8)), ("nonuniform 1-D states", lambda: d.ddt_nonuniform(Q[0], t)),
                     ("nonuniform 2-D time", lambda: d.ddt_nonuniform(Q, t.reshape((1, 8)))), ("longer time", lambda: d.ddt_nonuniform(Q, np.arange(9) * 1.0)), ("shorter time", lambda: d.ddt_nonuniform(Q, t[:7])),
                     ("no arguments", lambda: d.ddt(Q)), ("order only", lambda: d.ddt(Q, order=2)), ("unknown argument", lambda: d.ddt(Q, step=.5)), ("integer", lambda: d.ddt(Q, 1)),
                     ("three arguments", lambda: d.ddt(Q, .5, 2, 2)), ("time of another length", lambda: d.ddt(Q, t[:7])), ("order 5", lambda: d.ddt(Q, .5, 5)), ("too few snapshots", lambda: d.ddt_uniform(Q[:, :4], .5, 6))]:
        c.raises(label, GOOD, lambda: quiet(f))


# -- reprojection, errors, lifting -----------------------------------------------------------
def helpers2(c):
    D = Data(c)
    np = c.np
    P, E = c.op.pre, c.op.post
    V = D.real("V", (3, 2))
    f = lambda q, *u: q * q
    for label, g in [("longer start", lambda: P.reproject_discrete(f, V, D.real("x4", (4,)), 3)), ("shorter start", lambda: P.reproject_discrete(f, V, D.real("x2", (2,)), 3)),
                     ("matrix start", lambda: P.reproject_discrete(f, V, D.real("x31", (3, 1)), 3)), ("1-D basis", lambda: P.reproject_discrete(f, V[:, 0], D.real("x3", (3,)), 3)),
                     ("fewer inputs", lambda: P.reproject_discrete(f, V, D.real("x3", (3,)), 4, D.real("u2", (2,)))), ("fewer input columns", lambda: P.reproject_discrete(f, V, D.real("x3", (3,)), 4, D.real("U2", (1, 2)))),
                     ("longer states", lambda: P.reproject_continuous(f, V, D.real("X4", (4, 2)))), ("shorter states", lambda: P.reproject_continuous(f, V, D.real("X2", (2, 2)))),
                     ("fewer continuous inputs", lambda: P.reproject_continuous(f, V, D.real("X3", (3, 3)), D.real("u2", (2,)))), ("fewer continuous input columns", lambda: P.reproject_continuous(f, V, D.real("X3", (3, 3)), D.real("U2", (1, 2))))]:
        c.raises(label, GOOD, lambda: quiet(g))
    a, v = D.real("a", (2, 3)), D.real("v", (3,))
    t = np.array([0., 1., 2.])
    for w in ((2, 2), (1, 3), (2, 1), (3, 3), (3,), (2, 3, 1), (1,)):
        b = D.real("b" + "x".join(map(str, w)), w)
        for label, g in (("Frobenius", E.frobenius_error), ("lp", E.lp_error), ("Lp", lambda x, y: E.Lp_error(x, y, t)), ("Lp max", lambda x, y: E.Lp_error(x, y, t, p=np.inf)), ("lp normalised", lambda x, y: E.lp_error(x, y, normalize=True))):
            c.raises(f"{label} error {w}", GOOD, lambda: g(a, b))
            c.raises(f"{label} error {w} reversed", GOOD, lambda: g(b, a))
    for label, g in (("longer time", lambda: E.Lp_error(a, a, np.arange(4) * 1.0)), ("shorter time", lambda: E.Lp_error(a, a, t[:2])), ("2-D time", lambda: E.Lp_error(a, a, t.reshape((1, 3)))), ("no time", lambda: E.Lp_error(a, a)),
                     ("1-D Frobenius", lambda: E.frobenius_error(v, v)), ("trajectory time", lambda: E.Lp_error(v, v, t[:2]))):
        c.raises(label, GOOD, lambda: g())
    p = c.real("p")
    c.assume(p <= 0)
    c.raises("lp order", GOOD, lambda: E.lp_error(a, a, p))
    c.raises("Lp order", GOOD, lambda: E.Lp_error(a, a, t, p))
    L = c.op.lift
    c.raises("unlift odd", GOOD, lambda: L.QuadraticLifter().unlift(D.real("l3", (3, 2))))
    c.raises("unlift misaligned", GOOD, lambda: L.PolynomialLifter((1, 2, 3)).unlift(D.real("l4", (4, 2))))
    for bad in ("a", [None], [[1]], ["1"]):
        c.raises(f"orders {bad}", GOOD, lambda: L.PolynomialLifter(bad))
    c.raises("not invertible", GOOD + (ZeroDivisionError,), lambda: quiet(lambda: L.PolynomialLifter(0).unlift(D.real("l2", (2, 2)))))


def helpers3(c):
    """Stand-alone functions, classes put together from parts, missing regularisers."""
    D = Data(c)
    np, O = c.np, c.op
    P, L = O.pre, O.lstsq
    Q, v = D.real("Q", (2, 3)), D.real("v", (2,))
    lo, hi = c.real("lo"), c.real("hi")
    for label, f in [("shift 1-D states", lambda: P.shift(v)), ("shift 3-D states", lambda: P.shift(D.real("Q3", (2, 3, 1)))), ("shift by a matrix", lambda: P.shift(Q, D.real("s22", (2, 2)))), ("shift by a row", lambda: P.shift(Q, D.real("s13", (1, 3)))),
                     ("shift by a longer vector", lambda: P.shift(Q, D.real("s3", (3,)))), ("scale to one number", lambda: P.scale(Q, (lo,))), ("scale to three numbers", lambda: P.scale(Q, (lo, hi, lo))),
                     ("scale from one number", lambda: P.scale(Q, (lo, hi), (lo,))), ("scale from three numbers", lambda: P.scale(Q, (lo, hi), (lo, hi, hi))),
                     ("inputs without dimension", lambda: L.lstsq_size("AB", 2)), ("dimension without inputs", lambda: L.lstsq_size("cA", 2, 1)),
                     ("a pipeline of text", lambda: P.TransformerPipeline("ab")), ("a pipeline of nothing iterable", lambda: P.TransformerPipeline(P.NullTransformer())),
                     ("Frobenius of 3-D data", lambda: O.post.frobenius_error(D.real("E3", (2, 2, 1)), D.real("F3", (2, 2, 1)))), ("lp of 3-D data", lambda: O.post.lp_error(D.real("E3", (2, 2, 1)), D.real("F3", (2, 2, 1)))),
                     ("Lp of 3-D data", lambda: O.post.Lp_error(D.real("E3", (2, 2, 1)), D.real("F3", (2, 2, 1)), np.array([0.0]))),
                     ("grid search without admissible candidate", lambda: O.utils.gridsearch(lambda x: float("inf"), [1.0, 2.0], gridsearch_only=True)),
                     ("grid search with undefined errors", lambda: O.utils.gridsearch(lambda x: float("nan"), [1.0, 2.0]))]:
        c.raises(label, GOOD, lambda: quiet(f))
    W = O.operators
    mu = np.array([0.0, 1.0])
    e, g = D.real("e", (2, 2)), D.real("g", (2, 2))
    A, B = W.LinearOperator(e), W.LinearOperator(g)
    N = W.InputOperator(e)
    for label, f in [("sum of different kinds", lambda: A + N), ("sum with an array", lambda: A + e), ("sum with an empty operator", lambda: A + W.LinearOperator()), ("sum of an empty operator", lambda: W.LinearOperator() + A),
                     ("sum of different sizes", lambda: A + W.LinearOperator(D.real("g3", (3, 3)))), ("interpolating other operators", lambda: W.InterpLinearOperator._from_operators(mu, [A, N])),
                     ("interpolating empty operators", lambda: W.InterpLinearOperator._from_operators(mu, [A, W.LinearOperator()])), ("interpolating too few operators", lambda: W.InterpLinearOperator._from_operators(mu, [A])),
                     ("interpolating operators of different sizes", lambda: W.InterpLinearOperator._from_operators(mu, [A, W.LinearOperator(D.real("g3", (3, 3)))])),
                     ("interpolated block of one dimension too many", lambda: W.InterpLinearOperator(mu).set_entries(D.real("b3", (2, 2, 2)), fromblock=True)),
                     ("interpolated block that does not split", lambda: W.InterpLinearOperator(mu).set_entries(D.real("b25", (2, 5)), fromblock=True)),
                     ("coefficients that are not functions", lambda: W.AffineLinearOperator([lambda m: 1.0, 2.0])), ("coefficient text", lambda: W.AffineLinearOperator("ab")),
                     ("coefficient nothing", lambda: W.AffineLinearOperator(None)), ("scattered parameters", lambda: W.InterpLinearOperator(D.real("m3", (2, 1, 1)))),
                     ("nonuniform parameters", lambda: W.InterpLinearOperator([np.array([0.0, 1.0]), np.array([0.0])]))]:
        c.raises(label, GOOD, lambda: quiet(f))
    c.eq("the operators are unchanged", A.entries, e)
    c.eq("proper operators add up", (A + B).entries, e + g)
    M = O.models.DiscreteModel("A")
    for label, f in [("probabilistic model without such a solver", lambda: O.roms.BayesianROM(M)), ("probabilistic interpolatory model", lambda: O.roms.BayesianParametricROM(O.models.InterpDiscreteModel("A", solver=L.L2Solver(1.0))))]:
        c.raises(label, GOOD, lambda: quiet(f))


# -- reduced models ----------------------------------------------------------------------------
class Reg(objs.Probe):
    """A recording solver with a regulariser."""

    regularizer = None

    def reset(self):
        pass

    def copy(self):
        new = Reg(self.c, self.D, self.log)
        new.__dict__.update(self.__dict__)
        return new


def strict_basis(c, r):
    """A data-dependent basis that insists on the size of the states."""
    from checks.c19 import probe_basis
    B = probe_basis(c, r)
    compress = B.compress

    def strict(states):
        if states.shape[0] != B.full_state_dimension:
            raise ValueError("states of the wrong size")
        return compress(states)

    B.compress = strict
    return B


def r_build(c, D, cls, m, stages, n=2, r=2, fam=None):
    """A reduced model whose stages depend on the data they are fitted to."""
    kinds = ("Linear",) + (("Input",) if m else ())
    if fam:
        M = objs.build_pmodel(c, D, cls, fam, kinds, r, m, known=())
    else:
        ops = [(k, None) for k in kinds]
        if "known" in stages:
            ops[-1] = (ops[-1][0], "dense")
        M = objs.build_model(c, D, cls, ops, r, m)
    M.solver = Reg(c, D)
    kw = {}
    if "tf" in stages:
        kw["transformer"] = quiet(lambda: c.op.pre.ShiftScaleTransformer(centering=True))
    if "pipe" in stages:
        kw["transformer"] = quiet(lambda: c.op.pre.TransformerPipeline([c.op.pre.ShiftScaleTransformer(centering=True), c.op.pre.ScaleTransformer(2.0)]))
    if "basis" in stages:
        kw["basis"] = strict_basis(c, r)
    if "est" in stages and cls == "ContinuousModel":
        kw["ddt_estimator"] = quiet(lambda: c.op.ddt.UniformFiniteDifferencer(c.np.array([0., 1., 2.]), "fwd1"))
    return quiet(lambda: getattr(c.op, "ParametricROM" if fam else "ROM")(M, **kw))


def r_use(c, D, R, cls, m, n=2, mus=None):
    x = D.real("xuse", (n,))
    z = R.encode(x)
    u = D.real("uuse", (m,)) if m else None
    a = () if mus is None else (mus[0],)
    rhs = R.model.rhs(.5, *a, z, (lambda t: u) if m else None) if cls == "ContinuousModel" else R.model.rhs(*a, z, u)
    return [("encoded", z), ("rhs", rhs), ("decoded", R.decode(rhs))]


BADFIT = ("fewer lhs", "more lhs", "lhs columns", "fewer lhs columns", "lhs rows", "fewer inputs", "more inputs", "input columns", "fewer input columns", "state rows", "later state rows", "no inputs", "no lhs", "shifted lhs columns",
          "shifted input columns", "input rows", "parameters")


def r_fit(c, cls, m, stages, state, what, fam=None):
    """Training data that does not fit together."""
    D = Data(c)
    n = r = 2
    k, s = 3, 2
    R = r_build(c, D, cls, m, stages, n, r, fam)
    mus = objs.POINTS["1" if fam == "interp" else "2"][:s] if fam else None
    lead = (mus,) if fam else ()
    X = lambda nm, *sh: D.real(nm, sh)
    lists = lambda t: ([X(f"Q{t}{i}", n, k) for i in range(s)], [X(f"Z{t}{i}", n, k) for i in range(s)], [X(f"U{t}{i}", m, k) for i in range(s)] if m else None)
    use = lambda R: r_use(c, D, R, cls, m, n, mus)
    if state == "fitted":
        quiet(lambda: R.fit(*lead, *lists("ok")))
    Q, Z, U = lists("bad")
    put = lambda L, i, v: None if L is None else L[:i] + [v] + L[i + 1:]
    args = {"fewer lhs": (Q, Z[:1], U), "more lhs": (Q, Z + [X("Zx", n, k)], U), "lhs columns": (Q, put(Z, 1, X("Zc", n, k + 1)), U), "fewer lhs columns": (Q, put(Z, 0, X("Zf", n, k - 1)), U),
            "lhs rows": (Q, put(Z, 1, X("Zr", n + 1, k)), U), "fewer inputs": (Q, Z, (U or [])[:1]), "more inputs": (Q, Z, (U or []) + [X("Ux", m or 1, k)]), "input columns": (Q, Z, put(U, 1, X("Uc", m or 1, k + 1))),
            "fewer input columns": (Q, Z, put(U, 0, X("Uf", m or 1, k - 2))), "state rows": (put(put(Q, 0, X("Qr", n + 1, k)), 1, X("Qr1", n + 1, k)), Z, U), "later state rows": (put(Q, 1, X("Qr", n + 1, k)), Z, U), "no inputs": (Q, Z, None), "no lhs": (Q, None, U),
            "shifted lhs columns": (put(Q, 0, X("Qs", n, k + 1)), put(Z, 1, X("Zs", n, k + 1)), U), "shifted input columns": (put(Q, 0, X("Qs", n, k + 1)), put(Z, 0, X("Zs", n, k + 1)), put(U, 1, X("Us", m or 1, k + 1))),
            "input rows": (Q, Z, [X(f"Ur{i}", (m or 1) + 1, k) for i in range(s)] if "known" in stages else put(U, 1, X("Ur", (m or 1) + 1, k))), "parameters": (Q, Z, U)}[what]
    if what == "parameters" and fam:
        lead = (mus[:1],)
    if what == "input columns" and cls == "DiscreteModel" or what == "no lhs" and (cls == "DiscreteModel" or "est" in stages) or what == "parameters" and not fam or what == "state rows" and state == "fitted" and not fam and False:
        c.ok("not applicable")
        return
    if ("input" in what) and not m:
        c.ok("not applicable")
        return
    refuse_fit(c, what, R, lambda R: R.fit(*lead, *args), use)
    lead = (mus,) if fam else ()
    quiet(lambda: R.fit(*lead, *lists("ok")))
    c.true("proper data is accepted", attempt(lambda: use(R)) is not None)


def r_use_bad(c, cls, m, stages, fam=None):
    """States of the wrong size, and a reduced model that is not fitted."""
    D = Data(c)
    n = r = 2
    k, s = 3, 2
    R = r_build(c, D, cls, m, stages, n, r, fam)
    mus = objs.POINTS["1" if fam == "interp" else "2"][:s] if fam else None
    lead = (mus,) if fam else ()
    mu = (mus[0],) if fam else ()
    x = D.real("x", (n,))
    t = c.np.array([0., 1.])
    u = D.real("u", (m,)) if m else None
    pred = (lambda R, x=x, mu=mu: R.predict(*mu, x, t, (lambda t: u) if m else None)) if cls == "ContinuousModel" else (lambda R, x=x, mu=mu: R.predict(*mu, x, 2, c.np.column_stack([u, u]) if m else None))
    refuse(c, "predict before fit", R, pred)
    if "tf" in stages or "basis" in stages:
        refuse(c, "encode before fit", R, lambda R: R.encode(x))
        refuse(c, "decode before fit", R, lambda R: R.decode(D.real("z", (r,))))
        refuse(c, "project before fit", R, lambda R: R.project(x))
    Q, Z, U = [D.real(f"Q{i}", (n, k)) for i in range(s)], [D.real(f"Z{i}", (n, k)) for i in range(s)], [D.real(f"U{i}", (m, k)) for i in range(s)] if m else None
    quiet(lambda: R.fit(*lead, Q, Z, U))
    obs = lambda R: r_use(c, D, R, cls, m, n, mus)
    for w in ((n + 1,), (n - 1,)) if stages else ((n + 1,),):
        y = D.real(f"y{w[0]}", w)
        refuse(c, f"predict {w}", R, lambda R: pred(R, y), obs)
        if "tf" in stages:
            refuse(c, f"encode {w}", R, lambda R: R.encode(y), obs)
            refuse(c, f"encode with lhs {w}", R, lambda R: R.encode(x, y), obs)
            refuse(c, f"project {w}", R, lambda R: R.project(y), obs)
    if "tf" in stages and "basis" not in stages:
        refuse(c, "decode", R, lambda R: R.decode(D.real("z3", (r + 1,))), obs)
    if m:
        refuse(c, "predict without inputs", R, lambda R: R.predict(*mu, x, t if cls == "ContinuousModel" else 3), obs)
        if cls == "DiscreteModel":
            refuse(c, "predict with too few inputs", R, lambda R: R.predict(*mu, x, 4, D.real("U2", (m, 2))), obs)
            refuse(c, "predict with inputs of the wrong size", R, lambda R: R.predict(*mu, x, 3, D.real("U3", (m + 1, 3))), obs)
    if fam:
        refuse(c, "predict at a parameter of the wrong size", R, lambda R: pred(R, x, (D.real("mubad", (3,)),)), obs)


def r_make(c):
    O = c.op
    D = Data(c)
    M = objs.build_model(c, D, "DiscreteModel", (("Linear", None),), 1, 0)
    P = objs.build_pmodel(c, D, "DiscreteModel", "affine", ("Linear",), 1, 0, known=())
    for label, f in [("parametric model", lambda: O.ROM(P)), ("nonparametric model", lambda: O.ParametricROM(M)), ("no model", lambda: O.ROM(None)), ("operator", lambda: O.ROM(M.operators[0])),
                     ("parametric operator", lambda: O.ParametricROM(P.operators[0]))]:
        c.raises(label, GOOD, lambda: quiet(f))


def r_bayes(c, cls, what):
    """Training data a probabilistic model is not fitted to."""
    from checks.c28 import stub_solver, Normals
    D = Data(c)
    np = c.np
    Normals(c)
    n = 2 if what in ("state rows", "lhs rows") else 1
    solver = stub_solver(c, n, n)
    M = objs.build_model(c, D, cls, (("Linear", None),), n, 0)
    M.solver = solver
    solver.regularizer = 1.0
    R = quiet(lambda: c.op.roms.BayesianROM(M, transformer=c.op.pre.ShiftScaleTransformer(centering=True)))
    X = lambda nm, *sh: D.real(nm, sh)
    Q, Z = [X(f"Q{i}", n, 3) for i in range(2)], [X(f"Z{i}", n, 3) for i in range(2)]
    quiet(lambda: R.fit(Q, Z))
    P, W = [X(f"P{i}", n, 3) for i in range(2)], [X(f"W{i}", n, 3) for i in range(2)]
    bad = {"fewer lhs": (P, W[:1]), "lhs columns": (P, [W[0], X("Wc", n, 4)]), "lhs rows": (P, [W[0], X("Wr", n + 1, 3)]), "state rows": ([P[0], X("Pr", n + 1, 3)], W), "solver": (P, W)}[what]
    if what == "solver":
        fit = solver.fit

        def broken(A, B):
            raise ValueError("rejected by the solver")

        solver.fit = broken
    x = X("xuse", n)

    def use(R):
        z = R.encode(x)
        R.predict(x, 2) if cls == "DiscreteModel" else R.draw_operators()
        return [("encoded", z)] + [(f"mean {i}", m) for i, m in enumerate(R.posterior.means)]

    refuse_fit(c, what, R, lambda R: R.fit(*bad), use)
    if what == "solver":
        solver.fit = fit
    quiet(lambda: R.fit(Q, Z))
    c.true("proper data is accepted", attempt(lambda: use(R)) is not None)


def r_select(c, cls, m, bayes, what, state="new"):
    """Regularisation selection with data that does not fit together."""
    D = Data(c)
    n, k, s = 1, 3, 2
    np = c.np
    if bayes:
        M = objs.build_model(c, D, cls, (("Linear", None),) + ((("Input", None),) if m else ()), n, m, solver="l2none")
        R = quiet(lambda: c.op.roms.BayesianROM(M))
    else:
        R = r_build(c, D, cls, m, ("tf",) if state == "tf" else (), n, n)
    cont = cls == "ContinuousModel"
    c.opt("svd_fresh", True)
    Q, Z = [D.real(f"Q{i}", (n, k)) for i in range(s)], [D.real(f"Z{i}", (n, k)) for i in range(s)]
    t = [np.array([0., 1., 2.])] * s
    f = (lambda x: np.ones(m)) if m else None
    U = [np.ones((m, k))] * s if m else None
    base = dict(candidates=[1.0], train_time_domains=t, states=Q, ddts=Z, input_functions=f) if cont else dict(candidates=[1.0], states=Q, inputs=U)
    t4 = np.array([0., 1., 2., 3.])
    alter = {"fewer time domains": dict(train_time_domains=t[:1]), "more time domains": dict(train_time_domains=t + t[:1]), "longer time domain": dict(train_time_domains=[t[0], t4]), "shorter time domain": dict(train_time_domains=[t[0][:2], t[0]]),
             "shared longer time domain": dict(train_time_domains=t4), "2-D time domain": dict(train_time_domains=[t[0].reshape((1, 3))] * s), "fewer lhs": dict(ddts=Z[:1]), "more lhs": dict(ddts=Z + Z[:1]),
             "lhs columns": dict(ddts=[Z[0], D.real("Zc", (n, k + 1))]), "negative horizon": dict(test_time_length=-1.0), "fewer input functions": dict(input_functions=[f]), "more input functions": dict(input_functions=[f] * 3),
             "no input function": dict(input_functions=3.0), "inputs as arrays": dict(input_functions=U), "no inputs": dict(input_functions=None) if cont else dict(inputs=None),
             "fewer inputs": dict(inputs=(U or [])[:1]), "more inputs": dict(inputs=(U or []) * 2), "short inputs": dict(inputs=[np.ones((m, k)), np.ones((m, k - 1))]), "inputs for the horizon": dict(num_test_iters=1),
             "negative iterations": dict(num_test_iters=-1), "test case": dict(test_cases=[3.0]), "state rows": dict(states=[Q[0], D.real("Qr", (n + 1, k))])}[what]
    for key in alter:
        if key not in base and key not in ("test_time_length", "num_test_iters", "test_cases"):
            c.ok("not applicable")
            return
    if ("input" in what) and not m or what in ("inputs for the horizon", "negative iterations") and cont or what == "negative horizon" and not cont:
        c.ok("not applicable")
        return
    go = R.fit_regselect_continuous if cont else R.fit_regselect_discrete
    if state != "new":
        quiet(lambda: R.fit([D.real(f"Q0{i}", (n, k)) for i in range(s)], [D.real(f"Z0{i}", (n, k)) for i in range(s)], U))
        refuse_fit(c, what, R, lambda R: go(**{**base, **alter, "gridsearch_only": True}), lambda R: r_use(c, D, R, cls, m, n))
        return
    c.raises(what, GOOD, lambda: quiet(lambda: go(**{**base, **alter, "gridsearch_only": True})))
    c.raises("no prediction", GOOD, lambda: quiet(lambda: R.predict(D.real("x", (n,)), *((t[0], f) if cont else (2, U[0] if m else None)))))


# -- the cases -----------------------------------------------------------------------------------
SPECS = {"null": ("null",), "shift": ("shift",), "scale": ("scale",), "scalev": ("scalev",), "centre": ("ss", True, None, False), "std": ("ss", True, "standard", False), "maxrow": ("ss", True, "maxabs", True),
         "sym": ("ss", False, "minmaxsym", False), "pipe": ("pipe", (("shift",), ("ss", True, None, False))), "pipe2": ("pipe", (("ss", True, None, False), ("scalev",))), "pipe3": ("pipe", (("shift",), ("scale",), ("null",))),
         "multi": ("multi", (("ss", True, None, False), ("shift",)), (2, 1)), "multi2": ("multi", (("scalev",), ("shift",)), (1, 1)), "multieq": ("multi", (("ss", True, None, False), ("ss", False, "maxabs", False)), None)}
DIM = {"multi": 3, "multieq": 4}


def cases(tier):
    out = []
    T = tier == "thorough"
    add = lambda name, f, **kw: out.append((name, f, kw))
    SW = ("plain", "l2", "l2none", "l2d", "tik", "tikdiag", "tikd", "tsvd", "total")
    for which in SW:
        for what in ("more columns", "fewer columns", "transposed lhs", "1-D data", "3-D data", "3-D lhs", "1-D lhs of another length", "transposed data", "another data width", "narrower data", "more rows", "fewer rows", "1-D lhs",
                     "underdetermined", "nan", "inf", "nan lhs"):
            for state in ("new", "fitted"):
                add(f"solver-fit-{which}-{what}-{state}", s_fit, which=which, state=state, what=what)
        add(f"solver-before-{which}", s_before, which=which)
        if which != "l2none":
            add(f"solver-shapes-{which}", s_use_shapes, which=which)
    for which in ("l2dnone", "tiknone", "tikdnone"):
        add(f"solver-before-{which}", s_before, which=which)
    for which in ("l2", "l2d", "tik", "tikd"):
        for what in ("array", "list", "1-element array", "negative", "number", "2-D", "too many", "too few", "negative first", "negative last", "too large", "too small", "rectangular", "tall", "3-D", "diagonal too long",
                     "diagonal too short", "one too large", "first too small", "3-D entry"):
            for state in ("none", "new", "fitted"):
                add(f"solver-reg-{which}-{what}-{state}", s_reg, which=which, state=state, what=what)
    for which, ns in (("l2", (0,)), ("l2d", (1, 2, 3)), ("tik", (1, 2, 3)), ("tikd", (1, 2))):
        for n in ns:
            add(f"solver-sign-{which}-{n}", s_sign, which=which, n=n)
    add("solver-modes", s_modes)
    add("solver-factory", s_factory)
    for key, spec in SPECS.items():
        n = DIM.get(key, 2)
        for state in ("new", "fitted"):
            if state == "new" and not all_fixed(spec) and key not in ("shift",):
                add(f"transformer-fit-{key}-{state}", t_fit, spec=spec, n=n, state=state)
                continue
            add(f"transformer-{key}-{state}", t_states, spec=spec, n=n, state=state)
            add(f"transformer-fit-{key}-{state}", t_fit, spec=spec, n=n, state=state)
        if key not in ("null", "shift", "scalev", "multi2", "pipe3"):
            add(f"transformer-unfitted-{key}", t_unfitted, spec=spec, n=n)
    for what in ("shift", "scale", "statistics"):
        for n in (2, 3) if what != "scale" or T else (2,):
            add(f"transformer-set-{what}-{n}", t_set, what=what, n=n)
    for what in ("chain", "chain of three", "no variables", "fewer sizes", "more sizes", "other size", "other last size", "other first size", "chain in sizes"):
        add(f"transformer-make-{what}", t_make, what=what)
    for sizes in ((2, 2), (1, 3), (2, 1, 2), (2, 2, 2)):
        for state in ("new", "sized", "fitted"):
            if state == "new" and len(set(sizes)) > 1:
                continue
            add(f"variables-{sizes}-{state}", t_vars, sizes=sizes, state=state)
    for kind, n, r, w in (("linear", 3, 2, None), ("linear", 2, 1, None), ("linear", 3, 2, "diag"), ("pod", 3, 2, None), ("podr", 2, 2, None), ("linear", 2, 1, "square"), ("pod", 3, 1, "diag")):
        add(f"basis-{kind}-{n}-{r}-{w}", b_states, kind=kind, n=n, r=r, weights=w)
    for what in ("1-D entries", "3-D entries", "number", "longer weights", "shorter weights", "larger weights", "rectangular weights", "3-D weights", "0-D weights", "unchecked rectangular weights", "unchecked longer weights", "no criterion",
                 "max vectors", "negative max vectors", "svd solver", "svd options", "fewer singular values", "fewer right vectors", "weights of the vectors", "no bases", "fewer sizes", "more sizes", "other size", "other first size"):
        add(f"basis-make-{what}", b_make, what=what)
    for w in (False, True):
        add(f"basis-unfitted-{w}", b_unfitted, weights=w)
    for sizes, r in (((2, 2), 1), ((3, 2), 1), ((3, 3), 2)) + ((((2, 2, 2), 1),) if T else ()):
        add(f"basis-multi-{sizes}-{r}", b_multi, sizes=sizes, r=r)
    for which, k in (("fwd1", 3), ("fwd3", 5), ("bwd2", 4), ("ctr2", 4), ("ord2", 4), ("ord4", 6), ("ord6", 8), ("nonuniform", 4), ("interp-cubic", 4), ("interp-pchip", 4), ("interp-akima", 5)):
        add(f"derivative-{which}", d_estimator, which=which, k=k)
    add("derivative-make", d_make)
    add("helpers", helpers2)
    add("helpers-2", helpers3)
    add("rom-make", r_make)
    for cls in ("ContinuousModel", "DiscreteModel"):
        for m, stages in ((0, ()), (2, ()), (0, ("tf",)), (2, ("tf", "basis")), (0, ("basis", "est")), (2, ("tf", "known")), (2, ("pipe", "basis", "est"))):
            for what in BADFIT:
                if "input" in what and not m:
                    continue
                for state in ("new", "fitted") if stages else ("fitted",):
                    add(f"rom-fit-{cls}-{m}-{'+'.join(stages)}-{what}-{state}", r_fit, cls=cls, m=m, stages=stages, state=state, what=what)
            add(f"rom-use-{cls}-{m}-{'+'.join(stages)}", r_use_bad, cls=cls, m=m, stages=stages)
        for fam in ("affine", "interp"):
            for m, stages in ((0, ("tf",)), (2, ("tf", "basis"))):
                for what in BADFIT:
                    if "input" in what and not m:
                        continue
                    add(f"rom-fit-{cls}-{fam}-{m}-{'+'.join(stages)}-{what}", r_fit, cls=cls, m=m, stages=stages, state="fitted", what=what, fam=fam)
                add(f"rom-use-{cls}-{fam}-{m}", r_use_bad, cls=cls, m=m, stages=stages, fam=fam)
        for what in ("fewer lhs", "lhs columns", "lhs rows", "state rows", "solver"):
            add(f"bayes-fit-{cls}-{what}", r_bayes, cls=cls, what=what)
        for bayes in (False, True):
            for m in (0, 1):
                for what in ("fewer time domains", "more time domains", "longer time domain", "shorter time domain", "shared longer time domain", "2-D time domain", "fewer lhs", "more lhs", "lhs columns", "negative horizon",
                             "fewer input functions", "more input functions", "no input function", "inputs as arrays", "no inputs", "fewer inputs", "more inputs", "short inputs", "inputs for the horizon", "negative iterations",
                             "test case", "state rows"):
                    add(f"select-{cls}-{m}-{bayes}-{what}", r_select, cls=cls, m=m, bayes=bayes, what=what)
                    if not bayes:
                        for state in ("fitted", "tf"):
                            add(f"select-{cls}-{m}-{state}-{what}", r_select, cls=cls, m=m, bayes=bayes, what=what, state=state)
    return out
