"""C05: fitting solves exactly the regression the model will simulate."""

import itertools

from checks.c01 import make, dim, has_input, new_entries, ent2d

BOUNDS = ("r<=3, m<=2, up to k=3 snapshots and two trajectories; all operator kinds in every order for chosen sets of up to 4 operators; "
          "all real snapshots, left-hand sides, inputs, known entries and candidate solutions")
OUTSIDE = "more operators/snapshots; user-defined operators; the solver itself (C08-C10); floating-point rounding"


class Spy:
    """Records the regression problem and answers with a free candidate."""

    def __init__(self, c, name="O", log=None):
        self.c, self.name = c, name
        self.log = [] if log is None else log
        self.D = self.Z = None
        self.n = 0

    def fit(self, data_matrix, lhs_matrix):
        self.D, self.Z = data_matrix, lhs_matrix
        self.log.append(self)
        return self

    def solve(self):
        d = self.D.shape[1]
        r = 1 if self.Z.ndim == 1 else self.Z.shape[0]
        self.n += 1
        self.X = self.c.real(f"{self.name}{self.n}", (r, d))
        return self.X

    def copy(self):
        return Spy(self.c, f"{self.name}c{len(self.log)}_", self.log)

    def __str__(self):
        return "spy"


def models(c):
    return c.op.models.mono._nonparametric


def setup(c, kinds, known, r, m, sparse_known=False):
    ops = []
    for i, k in enumerate(kinds):
        if i in known:
            E = new_entries(c, k, r, m, f"K{i}")
            if k == "Linear" and sparse_known:
                E = c.sparse.csr_array(E)
            ops.append(make(c, k, E))
        else:
            ops.append(make(c, k))
    return ops


def resid(c, label, spy, M, cls, Q, Z, U):
    """spy residual = model mismatch, for the current candidate."""
    r, k = Q.shape
    c.true(label + " shapes", spy.D.shape[0] == k and spy.Z.shape == (r, k))
    res = spy.X @ spy.D.T - spy.Z
    for j in range(k):
        u = None if U is None else U[:, j]
        if cls == "DiscreteModel":
            f = M.rhs(Q[:, j], u)
        elif cls == "ContinuousModel":
            f = M.rhs(0.0, Q[:, j], None if u is None else (lambda t: u))
        else:
            f = M.rhs(Q[:, j])
        c.eq(f"{label}[{j}]", res[:, j], f - Z[:, j])


def fit_case(c, kinds, known, r, m, k, cls, form="given", sparse_known=False):
    ops = setup(c, kinds, known, r, m, sparse_known)
    spy = Spy(c)
    M = getattr(models(c), cls)(ops, solver=spy)
    hasin = any(has_input(x) for x in kinds)
    U = c.real("U", (m, k)) if hasin else None
    before = {i: (ops[i].entries.toarray() if sparse_known and kinds[i] == "Linear" else ent2d(ops[i].entries).copy()) for i in known}
    if form == "given":
        Q, Z = c.real("Q", (r, k)), c.real("Z", (r, k))
        Q0, Z0 = Q.copy(), Z.copy()
        U0 = None if U is None else U.copy()
        if cls == "SteadyModel":
            M.fit(Q, Z)
        else:
            M.fit(Q, Z, U)
        c.eq("states untouched", Q, Q0)
        c.eq("lhs untouched", Z, Z0)
        if U is not None:
            c.eq("inputs untouched", U, U0)
    elif form == "flat":  # r = 1 and m = 1 data as one-dimensional arrays
        Q, Z = c.real("Q", (1, k)), c.real("Z", (1, k))
        M.fit(Q[0], Z[0], None if U is None else U[0])
    elif form == "flatinput":
        Q, Z = c.real("Q", (r, k)), c.real("Z", (r, k))
        M.fit(Q, Z, U[0])
    elif form == "shift":  # discrete: successors taken from the states
        S = c.real("Q", (r, k + 1))
        long = c.real("U", (m, k + 1)) if hasin else None
        M.fit(S, None, long)
        Q, Z, U = S[:, :-1], S[:, 1:], None if U is None else long[:, :-1]
    elif form == "stack":  # discrete: several trajectories
        S1, S2 = c.real("Q1", (r, 3)), c.real("Q2", (r, 2))
        U1 = c.real("U1", (m, 3)) if hasin else None
        U2 = c.real("U2", (m, 2)) if hasin else None
        st = models(c).DiscreteModel.stack_trajectories([S1, S2], None if not hasin else [U1, U2])
        M.fit(*st)
        Q = c.np.hstack([S1[:, :2], S2[:, :1]])
        Z = c.np.hstack([S1[:, 1:], S2[:, 1:]])
        U = None if not hasin else c.np.hstack([U1[:, :2], U2[:, :1]])
    resid(c, "residual", spy, M, cls, Q, Z, U)
    X = spy.X
    # every inferred operator holds exactly its own block of the solution
    at = 0
    for i, (op, kd) in enumerate(zip(M.operators, kinds)):
        if i in known:
            e = op.entries
            c.eq(f"known{i}", e.toarray() if hasattr(e, "toarray") else ent2d(e), before[i])
            continue
        d = dim(c, kd, r, m)
        c.eq(f"block{i}", ent2d(op.entries), X[:, at:at + d])
        at += d
    c.true("blocks exhaust the solution", at == X.shape[1])
    c.eq("operator_matrix", M.operator_matrix, X)
    # solving again (new candidate, same data)
    D0, Z0 = spy.D, spy.Z
    M.refit()
    c.true("refit keeps the regression", spy.D is D0 and spy.Z is Z0)
    resid(c, "refit", spy, M, cls, Q, Z, U)
    c.eq("operator_matrix again", M.operator_matrix, spy.X)


def real_solver(c, kinds, known, r, m, k, cls, solver):
    """The same, with the library's own solver classes as the recorder."""
    c.opt("svd_fresh", True)
    ops = setup(c, kinds, known, r, m)
    M = getattr(models(c), cls)(ops, solver=solver)
    hasin = any(has_input(x) for x in kinds)
    U = c.real("U", (m, k)) if hasin else None
    Q, Z = c.real("Q", (r, k)), c.real("Z", (r, k))
    M._fit_solver(Q, Z, U)
    S = M.solver
    d = S.data_matrix.shape[1]
    X = c.real("X", (r, d))
    M._extract_operators(X)
    c.true("kind of solver", type(S).__name__ == ("PlainSolver" if not solver else "L2Solver"))
    c.eq("lhs and data", X @ S.data_matrix.T - S.lhs_matrix,
         c.np.column_stack([(M.rhs(Q[:, j], None if U is None else U[:, j]) if cls == "DiscreteModel"
                             else M.rhs(0.0, Q[:, j], None if U is None else (lambda t, j=j: U[:, j]))) - Z[:, j] for j in range(k)]))


def cases(tier):
    th = tier == "thorough"
    n = 0
    sets = [
        (["Constant", "Linear", "Input"], 2, 2), (["Linear", "Quadratic"], 2, 0), (["Cubic", "Constant", "StateInput"], 2, 2),
        (["Quadratic", "Input", "StateInput"], 2, 2), (["Poly2", "Poly1", "Input"], 2, 1), (["Quartic", "Constant"], 2, 0),
    ]
    for cls in ("DiscreteModel", "ContinuousModel"):
        for kinds, r, m in sets:
            perms = list(itertools.permutations(range(len(kinds))))
            for pi, p in enumerate(perms):
                ks = [kinds[i] for i in p]
                for known in [[]] + [[i] for i in range(len(ks))] + ([[0, 1]] if len(ks) > 2 else []):
                    n += 1
                    if not th and pi and (n + pi) % 3:
                        continue
                    yield f"{cls}-{'+'.join(ks)}-known{known}", fit_case, dict(kinds=ks, known=known, r=r, m=m, k=2, cls=cls)
        for ks, known in ((["Constant", "Linear", "Quadratic", "Cubic", "Input", "StateInput"], []),
                          (["StateInput", "Cubic", "Linear", "Input", "Quadratic", "Constant"], [1, 3, 5])):
            for r, m, k in ((1, 1, 2), (2, 2, 3)) + (((3, 2, 2),) if th else ()):
                yield f"{cls}-all-r{r}-m{m}-known{known}", fit_case, dict(kinds=ks, known=known, r=r, m=m, k=k, cls=cls)
        # duplicate kinds are allowed when the duplicate is known
        yield f"{cls}-duplicate-known", fit_case, dict(kinds=["Linear", "Linear", "Constant", "Constant"], known=[0, 3], r=2, m=0, k=2, cls=cls)
        yield f"{cls}-duplicate-known-last", fit_case, dict(kinds=["Linear", "Input", "Linear", "Input"], known=[2, 3], r=2, m=1, k=2, cls=cls)
        yield f"{cls}-sparse-known", fit_case, dict(kinds=["Linear", "Quadratic"], known=[0], r=2, m=0, k=2, cls=cls, sparse_known=True)
        # (DiscreteModel documents two-dimensional states when inputs are given)
        for ks, known in ((["Constant", "Linear"], []), (["Linear", "Quadratic", "Input"], [0]), (["StateInput", "Constant"], [1]),
                          (["Cubic", "Input"], [1]), (["Linear", "StateInput", "Constant"], [1]), (["Quartic", "Linear"], [])):
            if cls == "DiscreteModel" and any(has_input(x) for x in ks):
                continue
            yield f"{cls}-flat-{'+'.join(ks)}", fit_case, dict(kinds=ks, known=known, r=1, m=1, k=3, cls=cls, form="flat")
        for ks, known in ((["Linear", "Input"], []), (["Linear", "Input"], [1]), (["StateInput", "Quadratic"], [0])):
            yield f"{cls}-flatinput-{'+'.join(ks)}-{known}", fit_case, dict(kinds=ks, known=known, r=2, m=1, k=3, cls=cls, form="flatinput")
        for s in (None, 0, 0.5):
            yield f"{cls}-solver-{s}", real_solver, dict(kinds=["Linear", "Constant", "Input"], known=[1], r=2, m=1, k=2, cls=cls, solver=s)
    for ks, known in ((["Linear", "Input"], []), (["Quadratic", "Linear"], [1]), (["StateInput", "Constant"], [])):
        for form in ("shift", "stack"):
            for r, m in ((1, 1), (2, 2)):
                yield f"Discrete-{form}-{'+'.join(ks)}-r{r}", fit_case, dict(kinds=ks, known=known, r=r, m=m, k=3, cls="DiscreteModel", form=form)
    for ks, known in ((["Linear", "Quadratic"], []), (["Constant", "Cubic"], [0])):
        for r in (1, 2):
            yield f"Steady-{'+'.join(ks)}-r{r}", fit_case, dict(kinds=ks, known=known, r=r, m=0, k=2, cls="SteadyModel")
