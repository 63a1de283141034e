"""C06: parametric fitting solves the regression of the parametric model."""

import itertools

from checks.c01 import make, dim, has_input, new_entries, ent2d
from checks.c05 import Spy

BOUNDS = ("s=2-3 parameter values (fixed or symbolic), r<=2, m<=2, 1-3 snapshots per parameter, up to 3 operators of mixed kind; "
          "all real snapshots, left-hand sides, inputs, known entries and candidate solutions")
OUTSIDE = "more parameter values; vector-valued parameters with interpolation; user-defined operators; the solver (C08-C10)"
ASSUMPTIONS = ["an interpolator reproduces its data at its nodes (polynomial interpolant in the symbolic run, scipy's CubicSpline in replays)"]


def thetas(c, form, s):
    if form == "int":
        return 2, None
    if form == "callable":
        return (lambda mu: [1 + mu[0], mu[0] * mu[1], mu[1]]), 3
    if form == "scalar":
        return [lambda mu: mu, lambda mu: 1 + mu * mu], None
    if form == "one":
        return (lambda mu: 2 + mu[0] * mu[1]), 1
    return [lambda mu: mu[0], lambda mu: 1 + mu[1]], None


def build(c, fam, kind, known, r, m, params, form, tag):
    O = c.op.operators
    if fam == "plain":
        return make(c, kind, new_entries(c, kind, r, m, f"K{tag}") if known else None)
    d = dim(c, kind, r, m)
    shape = (r,) if kind == "Constant" else (r, d)
    if fam == "affine":
        th, nt = thetas(c, form, len(params))
        cls = getattr(O, f"Affine{kind}Operator")
        kw = {} if nt is None else {"nterms": nt}
        n = {"int": 2, "callable": 3, "scalar": 2, "one": 1}.get(form, 2)
        if known:
            kw["entries"] = [c.real(f"K{tag}_{i}", shape) for i in range(n)]
        return cls(th, **kw)
    cls = getattr(O, f"Interp{kind}Operator")
    if not known:
        return cls()
    # a known interpolated operator may be given at other parameter values
    pts = list(params) if known == "same" else [0.5, 2.0, 3.5]
    return cls(pts, [c.real(f"K{tag}_{i}", shape) for i in range(len(pts))])


def values(c, kindp, s):
    if kindp == "vec":
        return [c.real(f"mu{i}", (2,)) for i in range(s)]
    if kindp == "sym":
        return [c.real(f"mu{i}") for i in range(s)]
    if kindp == "sorted":
        return [1.0, 2.0, 4.0, 5.0][:s]
    if kindp == "unsorted":
        return [2.0, -1.0, 4.0, 3.0][:s]
    raise ValueError(kindp)


def rhs(M, cls, mu, q, u):
    if "Discrete" in cls:
        return M.rhs(mu, q, u)
    return M.rhs(0.0, mu, q, None if u is None else (lambda t: u))


def data(c, s, r, m, ks, hasin):
    Q = [c.real(f"Q{i}", (r, ks[i])) for i in range(s)]
    Z = [c.real(f"Z{i}", (r, ks[i])) for i in range(s)]
    U = [c.real(f"U{i}", (m, ks[i])) for i in range(s)] if hasin else None
    return Q, Z, U


def lhs_args(c, cls, Q, Z, U, shift):
    return (Q, None if shift else Z, U)


def fit_case(c, spec, r, m, cls, params, s=2, form="list", ks=(2, 1, 2), raw=None):
    """spec: list of (family, kind, known)."""
    mus = values(c, params, s)
    ops = [build(c, fam, kd, kn, r, m, mus, form, i) for i, (fam, kd, kn) in enumerate(spec)]
    spy = Spy(c)
    M = getattr(c.op.models, cls)(ops, solver=spy)
    hasin = any(has_input(k) for _, k, _ in spec)
    Q, Z, U = data(c, s, r, m, ks, hasin)
    P = c.np.array(mus) if raw == "array" else (c.np.array(mus).reshape(-1, 1) if raw == "column" else mus)
    if raw == "column":
        mus = [P[i] for i in range(s)]
    if raw == "flat":
        M.fit(P, [x[0] for x in Q], [x[0] for x in Z], None if U is None else [x[0] for x in U])
    elif raw == "shift":
        S = [c.np.column_stack([Q[i], c.real(f"last{i}", (r,))]) for i in range(s)]
        W = None if U is None else [c.np.column_stack([U[i], c.real(f"lastu{i}", (m,))]) for i in range(s)]
        Z = [x[:, 1:] for x in S]
        M.fit(P, S, None, W)
    else:
        copies = [[x.copy() for x in L] for L in (Q, Z) + ((U,) if hasin else ())]
        M.fit(P, Q, Z, U)
        for L, L0, nm in zip((Q, Z, U), copies, ("states", "lhs", "inputs")):
            for i in range(s):
                c.eq(f"{nm}{i} untouched", L[i], L0[i])
    check(c, "fit", M, spy, cls, spec, mus, Q, Z, U, r, m)
    M.refit()
    check(c, "refit", M, spy, cls, spec, mus, Q, Z, U, r, m)


def check(c, label, M, spy, cls, spec, mus, Q, Z, U, r, m):
    res = spy.X @ spy.D.T - spy.Z
    at = 0
    for i, mu in enumerate(mus):
        for j in range(Q[i].shape[1]):
            u = None if U is None else U[i][:, j]
            f = rhs(M, cls, mu, Q[i][:, j], u)
            c.eq(f"{label} residual mu{i} col{j}", res[:, at], f - Z[i][:, j])
            at += 1
    c.true(f"{label} columns", at == res.shape[1])
    at = 0
    for (fam, kd, kn), op in zip(spec, M.operators):
        if kn:
            continue
        d = dim(c, kd, r, m)
        if fam == "plain":
            c.eq(f"{label} block {kd}", ent2d(op.entries), spy.X[:, at:at + d])
            at += d
            continue
        for t, e in enumerate(op.entries):
            c.eq(f"{label} block {kd} {t}", ent2d(e), spy.X[:, at:at + d])
            at += d
    c.true(f"{label} blocks exhaust", at == spy.X.shape[1])


def interp_case(c, spec, r, m, cls, params, s=2, ks=(2, 1, 2), string=None, raw=None):
    """Fully interpolatory models: independent regressions, interpolated."""
    mus = values(c, params, s)
    if params == "sym":  # two distinct parameter values in either order
        c.assume((mus[0] - mus[1]) * (mus[0] - mus[1]) >= 0.01)
    ops = string or [build(c, "interp", kd, kn, r, m, mus, None, i) for i, (kd, kn) in enumerate(spec)]
    spy = Spy(c)
    M = getattr(c.op.models, cls)(ops, solver=spy)
    hasin = any(has_input(k) for k, _ in spec)
    Q, Z, U = data(c, s, r, m, ks, hasin)
    before = [None if not kn else [e.copy() for e in op.entries] for (kd, kn), op in zip(spec, M.operators)]
    pb = [None if not kn else c.np.array(op.training_parameters) for (kd, kn), op in zip(spec, M.operators)]
    P = c.np.array(mus) if raw == "array" else mus
    if raw == "flat":
        M.fit(P, [x[0] for x in Q], [x[0] for x in Z], None if U is None else [x[0] for x in U])
    elif raw == "shift":
        S = [c.np.column_stack([Q[i], c.real(f"last{i}", (r,))]) for i in range(s)]
        W = None if U is None else [c.np.column_stack([U[i], c.real(f"lastu{i}", (m,))]) for i in range(s)]
        Z = [x[:, 1:] for x in S]
        M.fit(P, S, None, W)
    else:
        M.fit(P, Q, Z, U)
    for rnd in ("fit", "refit"):
        solvers = M.solvers
        c.true(f"{rnd}: one regression per parameter value", len(solvers) == s and len({id(x) for x in solvers}) == s)
        for i, mu in enumerate(mus):
            sp = solvers[i]
            res = sp.X @ sp.D.T - sp.Z
            c.true(f"{rnd} columns{i}", res.shape == (r, Q[i].shape[1]))
            for j in range(Q[i].shape[1]):
                u = None if U is None else U[i][:, j]
                c.eq(f"{rnd} residual mu{i} col{j}", res[:, j], rhs(M, cls, mu, Q[i][:, j], u) - Z[i][:, j])
            at = 0
            for (kd, kn), op in zip(spec, M.operators):
                if kn:
                    continue
                d = dim(c, kd, r, m)
                c.eq(f"{rnd} block {kd} mu{i}", ent2d(op.entries[i]), sp.X[:, at:at + d])
                at += d
            c.true(f"{rnd} blocks exhaust {i}", at == sp.X.shape[1])
        for e0, p0, op in zip(before, pb, M.operators):
            if e0 is not None:
                c.eq(f"{rnd}: known entries stay", op.entries, e0)
                c.eq(f"{rnd}: known parameters stay", c.np.array(op.training_parameters), p0)
            else:
                c.eq(f"{rnd}: training parameters", c.np.array(op.training_parameters), c.np.array(mus))
        if rnd == "fit":
            M.refit()


def cases(tier):
    th = tier == "thorough"
    A, I, P = "affine", "interp", "plain"
    for cls in ("ParametricDiscreteModel", "ParametricContinuousModel"):
        sets = [
            [(A, "Linear", 0)], [(A, "Constant", 0), (A, "Linear", 0)], [(A, "Linear", 0), (P, "Constant", 0)],
            [(P, "Linear", 0), (A, "Input", 0)], [(A, "Quadratic", 0), (P, "Linear", 1)], [(A, "Linear", 1), (P, "Quadratic", 0)],
            [(P, "Constant", 0), (A, "Cubic", 0), (P, "Input", 1)], [(A, "StateInput", 0), (A, "Linear", 1), (P, "Input", 0)],
            [(A, "Constant", 1), (A, "Linear", 0), (A, "Input", 0)],
        ]
        for sp in sets:
            for r, m in ((1, 1), (2, 2)):
                for form in ("list", "int", "callable", "one"):
                    if form != "list" and (len(sp) > 2 and not th):
                        continue
                    yield f"{cls}-{tag(sp)}-{form}-r{r}", fit_case, dict(spec=sp, r=r, m=m, cls=cls, params="vec", form=form)
        for sp in sets[:6]:
            for raw in ("list", "array", "flat", "shift"):
                if raw == "shift" and "Discrete" not in cls:
                    continue
                if raw == "flat" and "Discrete" in cls and any(has_input(k) for _, k, _ in sp):
                    continue
                yield (f"{cls}-scalar-{tag(sp)}-{raw}", fit_case,
                       dict(spec=sp, r=1 if raw == "flat" else 2, m=1, cls=cls, params="sym", form="scalar", raw=raw))
        mixed = [
            [(I, "Linear", 0), (P, "Constant", 0)], [(P, "Linear", 1), (I, "Constant", 0)], [(I, "Linear", 0), (P, "Input", 0)],
            [(P, "Constant", 0), (I, "Input", 0), (P, "Linear", 0)], [(I, "Linear", "same"), (P, "Constant", 0)],
            [(I, "Linear", "other"), (P, "Constant", 0)], [(I, "Linear", 0), (I, "Constant", "other"), (P, "Input", 0)],
            [(I, "Quadratic", 0), (A, "Constant", 0)], [(A, "Linear", 0), (I, "StateInput", 0)], [(A, "Linear", 1), (I, "Constant", 0), (P, "Input", 1)],
            [(I, "Constant", "same"), (A, "Linear", 0), (I, "Input", 0)],
        ]
        for sp in mixed:
            for pv in ("sorted", "unsorted"):
                for s in (2, 3):
                    if "other" in [x[2] for x in sp] and s == 2 and pv == "unsorted" and not th:
                        continue
                    for r, m in ((1, 1), (2, 2)):
                        if r == 2 and s == 3 and not th and pv == "sorted":
                            continue
                        yield (f"{cls}-{tag(sp)}-{pv}{s}-r{r}", fit_case,
                               dict(spec=sp, r=r, m=m, cls=cls, params=pv, s=s, form="scalar"))
            if "Discrete" in cls:
                yield f"{cls}-{tag(sp)}-shift", fit_case, dict(spec=sp, r=2, m=1, cls=cls, params="sorted", s=2, form="scalar", raw="shift")
    for cls in ("InterpDiscreteModel", "InterpContinuousModel"):
        sets = [
            [("Linear", 0)], [("Constant", 0), ("Linear", 0)], [("Linear", 0), ("Input", 0)], [("Linear", "same"), ("Constant", 0)],
            [("Constant", 0), ("Linear", "other")], [("Quadratic", 0), ("Input", "same")], [("StateInput", 0), ("Constant", "other"), ("Linear", 0)],
            [("Cubic", 0), ("Linear", "same"), ("Constant", "same")],
        ]
        for sp in sets:
            for pv in ("sorted", "unsorted", "sym"):
                for s in (2, 3):
                    if pv == "sym" and (s == 3 or any(k for _, k in sp)):
                        continue
                    for r, m in ((1, 1), (2, 2)):
                        yield f"{cls}-{tag(sp)}-{pv}{s}-r{r}", interp_case, dict(spec=sp, r=r, m=m, cls=cls, params=pv, s=s)
            for raw in ("array", "flat") + (("shift",) if "Discrete" in cls else ()):
                if raw == "flat" and "Discrete" in cls and any(has_input(k) for k, _ in sp):
                    continue
                yield f"{cls}-{tag(sp)}-{raw}", interp_case, dict(spec=sp, r=1 if raw == "flat" else 2, m=1, cls=cls, params="sorted", s=2, raw=raw)
        yield f"{cls}-string", interp_case, dict(spec=[("Constant", 0), ("Linear", 0), ("Input", 0)], string="cAB", r=2, m=1, cls=cls, params="unsorted", s=3)


def tag(sp):
    return "+".join("".join(str(y)[:6] if y else "" for y in x) for x in sp)
