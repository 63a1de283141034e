"""C28: Bayesian reduced models sample and propagate the stated posterior."""

import warnings
from types import SimpleNamespace

from checks.c08 import svd_data, register
from checks.c09 import regs
from checks.c19 import Stages, trajs
from checks.c20 import within, conj, implies, key, mk_model

BOUNDS = ("posteriors with 1-3 rows of 1-3 entries (equal and unequal sizes), given by precisions or covariances; reduced models with r<=2, constant/linear/quadratic/input "
          "operators, continuous and discrete, all combinations of stages of C19 with n<=2; the four regularised solvers on 2-4 snapshots; up to 3 predicted steps, up to 3 "
          "draws; regularisation selection with 1-3 candidates, 1-2 draws, 1-2 trajectories and extra test cases; all real data, means, covariances and normal draws")
OUTSIDE = ("scipy.stats (stand-in: multivariate_normal.rvs gives the mean plus any real vector, in scipy's shapes); that the noise has the stated covariance given scipy's own "
           "contract; solve_ivp (recorded stand-in); the regression itself (C08, C09); floating-point rounding")

import numpy as _np


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


class Cov:
    """scipy.stats.Covariance.from_precision."""

    def __init__(self, c, P):
        self.c, self.P = c, P

    @property
    def covariance(self):
        return self.c.matsolve(self.P, self.c.eye(self.P.shape[0]))


class Normals:
    """multivariate_normal, with every draw an arbitrary vector (or the mean)."""

    def __init__(self, c, zero=False, tag="z"):
        self.c, self.zero, self.tag = c, zero, tag
        self.made, self.log, self.n, self.namer = [], [], 0, None
        self.real = None
        if c.symbolic:
            c.replace("stats.Covariance.from_precision", lambda P, covariance=None: Cov(c, P))
        else:
            import scipy.stats
            self.real = scipy.stats.multivariate_normal
        c.replace("stats.multivariate_normal", self.make)

    def make(self, mean=None, cov=1, allow_singular=False, seed=None, **kw):
        rv = Frozen(self, mean, cov, allow_singular, seed)
        self.made.append(rv)
        return rv

    def noise(self, rv, shape):
        if self.zero:
            return self.c.zeros(shape)
        if self.namer is not None:
            return self.namer(rv, shape)
        self.n += 1
        return self.c.real(f"{self.tag}{self.n}", shape)


class Frozen:
    def __init__(self, owner, mean, cov, allow, seed):
        self.owner, self.c = owner, owner.c
        self.rv = owner.real(mean, cov, allow, seed) if owner.real is not None else None
        self.mean, self._cov = mean, cov
        self.dim = mean.shape[0]

    @property
    def cov(self):
        if self.rv is not None:
            return self.rv.cov
        return self._cov.covariance if isinstance(self._cov, Cov) else self._cov

    @property
    def cov_object(self):
        return self.rv.cov_object if self.rv is not None else self._cov

    def shape(self, size):
        size = tuple(size) if hasattr(size, "__len__") else (int(size),)
        shape = size + (self.dim,)
        if not isinstance(self._cov, Cov):  # scipy squeezes these
            shape = tuple(s for s in shape if s != 1)
        return shape

    def rvs(self, size=1, random_state=None):
        shape = self.shape(size) if self.rv is None else _np.shape(self.rv.rvs(size, random_state))
        if shape == () and self.dim != 1:
            raise AssertionError
        flat = tuple(s for s in shape)
        full = flat if flat and flat[-1] == self.dim and (self.dim != 1 or isinstance(self._cov, Cov) or len(flat) > 1) else flat
        z = self.owner.noise(self, full)
        out = (self.mean[0] + z) if full == () or (self.dim == 1 and (not full or full[-1] != 1)) else self.mean + z
        self.owner.log.append((self, out))
        return out


def spd(c, name, d):
    """A positive definite matrix."""
    G = c.real(name, (d, d))
    L = [[G[i, j] if j <= i else 0.0 for j in range(d)] for i in range(d)]
    L = c.np.array(L)
    return L @ L.T + c.eye(d)


# -- the distribution itself -------------------------------------------------
def distribution(c, dims, inverted, reload=False):
    np = c.np
    N = Normals(c)
    means = [c.real(f"m{i}", (d,)) for i, d in enumerate(dims)]
    mats = [spd(c, f"P{i}", d) for i, d in enumerate(dims)]
    keep = [m.copy() for m in means], [P.copy() for P in mats]
    post = c.op.roms.OperatorPosterior(means, mats, alreadyinverted=inverted)
    same = c.op.roms.OperatorPosterior([m.copy() for m in means], [P.copy() for P in mats], alreadyinverted=inverted)
    if reload:
        f = c.path("posterior.h5")
        post.save(f)
        new = c.op.roms.OperatorPosterior.load(f)
        c.true("equal after reload", new == post)
        post = new
    if not inverted and not reload:
        c.true("equal content", post == same)
    c.true("rows", post.nrows == len(dims) and len(post.randomvariables) == len(dims))
    for i, d in enumerate(dims):
        c.eq(f"mean {i}", post.means[i], keep[0][i])
        if inverted:
            c.eq(f"covariance {i}", post.covs[i], keep[1][i])
        elif d <= 2:
            c.eq(f"covariance {i}", keep[1][i] @ post.covs[i], c.eye(d))
    draws = []
    for rep in range(2):
        a = len(N.log)
        X = post.rvs()
        new = N.log[a:]
        c.true(f"{rep}: one draw per row", len(new) == len(dims) and len(X) == len(dims))
        c.true(f"{rep}: array", (len(set(dims)) > 1) or (hasattr(X, "shape") and X.shape == (len(dims), dims[0])))
        for i, d in enumerate(dims):
            row = X[i]
            c.true(f"{rep}: row {i} size", np.shape(row) == (d,))
            if len(new) == len(dims) and np.shape(row) == (d,):
                rv, out = new[i]
                c.true(f"{rep}: row {i} from its own distribution", rv is post.randomvariables[i])
                c.eq(f"{rep}: row {i}", row, np.reshape(out, (d,)))
    for i in range(len(dims)):
        c.eq(f"mean {i} after drawing", post.means[i], keep[0][i])
        c.eq(f"caller's mean {i}", means[i], keep[0][i])
        c.eq(f"caller's matrix {i}", mats[i], keep[1][i])


def different(c, d, r, what):
    """Distributions with different content are unequal."""
    Normals(c)
    P = c.op.roms.OperatorPosterior
    m1, m2 = [c.real(f"m{i}", (d,)) for i in range(r)], None
    C1 = [spd(c, f"C{i}", d) for i in range(r)]
    m2, C2 = [m.copy() for m in m1], [C.copy() for C in C1]
    e = c.real("e", (), "nonzero")
    if what == "mean":
        m2[-1][d - 1] = m2[-1][d - 1] + e
        c.assume(m2[-1][d - 1] != m1[-1][d - 1])
    elif what == "cov":
        C2[-1][d - 1, d - 1] = C2[-1][d - 1, d - 1] + e * e
        c.assume(C2[-1][d - 1, d - 1] != C1[-1][d - 1, d - 1])
    elif what == "rows":
        m2.append(m2[0].copy())
        C2.append(C2[0].copy())
    elif what == "size":
        m2[-1] = np_append(c, m2[-1])
        C2[-1] = c.eye(d + 1)
    a, b = P(m1, C1, alreadyinverted=True), P(m2, C2, alreadyinverted=True)
    c.true("unequal", not (a == b))
    c.true("unequal (swapped)", not (b == a))


def np_append(c, v):
    return c.np.concatenate([v, c.np.array([0.0])])


def malformed(c, what):
    P = c.op.roms.OperatorPosterior
    m, C = [c.real(f"m{i}", (2,)) for i in range(2)], [c.eye(2) for _ in range(2)]
    if what == "count":
        C = C[:1]
    elif what == "meanndim":
        m[1] = m[1].reshape((1, 2))
    elif what == "precndim":
        C[1] = c.zeros((4,))
    elif what == "size":
        C[1] = c.eye(3)
    elif what == "notsquare":
        C[1] = c.zeros((2, 3))
    elif what == "list":
        m[0] = list(m[0])
    c.raises("rejected", (ValueError,), lambda: P(m, C))


# -- through a reduced-order model ---------------------------------------------
WIDTH = {"Constant": lambda r, m: 1, "Linear": lambda r, m: r, "Quadratic": lambda r, m: r * (r + 1) // 2, "Input": lambda r, m: m, "StateInput": lambda r, m: r * m}


def entries_of(c, kinds, X, r, m):
    out, a = [], 0
    for k in kinds:
        w = WIDTH[k](r, m)
        E = X[:, a:a + w]
        out.append(E[:, 0] if k == "Constant" else E)
        a += w
    return out


def model_of(c, cls, kinds, X=None, r=1, m=0, solver=None):
    O = c.op.operators
    Es = [None] * len(kinds) if X is None else entries_of(c, kinds, X, r, m)
    ops = [getattr(O, f"{k}Operator")(E) if E is not None else getattr(O, f"{k}Operator")() for k, E in zip(kinds, Es)]
    C = getattr(c.op.models, cls)
    return C(ops) if solver is None else C(ops, solver=solver)


def stub_solver(c, r, d, fail=()):
    """A regularised solver with an arbitrary posterior for each regulariser."""
    class Stub(c.op.lstsq.TikhonovSolver):
        def __init__(self):
            self.reg, self.fits, self.means, self.precs = None, [], {}, {}
            self.calls = 0

        regularizer = property(lambda self: self.reg, lambda self, v: setattr(self, "reg", v))

        def fit(self, data_matrix, lhs_matrix):
            self.fits.append((data_matrix, lhs_matrix))
            return self

        def reset(self):
            self.reg = None

        def content(self, reg):
            k = "0" if reg is None else "_".join(f"{v:g}" for v in key(reg)).replace(".", "p")
            if k not in self.means:
                self.means[k] = c.real(f"M{k}", (r, d))
                self.precs[k] = [spd(c, f"P{k}_{i}", d) for i in range(r)]
            return self.means[k], self.precs[k]

        def solve(self):
            return self.content(self.reg)[0].copy()

        def posterior(self):
            self.calls += 1
            if self.reg is not None and key(self.reg) in fail:
                raise _np.linalg.LinAlgError("singular")
            m, P = self.content(self.reg)
            return m.copy(), [p.copy() for p in P]

        def copy(self):
            return self

        def __str__(self):
            return "stub"
    return Stub()


def draw_matrix(c, N, a, r, d):
    """The r rows drawn since log position a."""
    new = N.log[a:]
    return c.np.array([[c.np.reshape(out, (d,))[j] for j in range(d)] for _, out in new[:r]]) if len(new) >= r else None


def recurrence(c, M, z, steps, U):
    S = [z]
    for j in range(steps - 1):
        S.append(M.rhs(S[-1], U[:, j]) if U is not None else M.rhs(S[-1]))
    return c.np.column_stack(S)


def through(c, cls, kinds, lift=None, tf=None, basis=None, n=1, r=1, m=0, steps=3, zero=False):
    """fit, then predictions: each simulates the model with the rows drawn for it."""
    np = c.np
    N = Normals(c, zero)
    s = Stages(c, lift, tf, basis, n, r)
    R = r if s.B1 is not None else s.N
    d = sum(WIDTH[k](R, m) for k in kinds)
    solver = stub_solver(c, R, d)
    rom = quiet(lambda: c.op.roms.BayesianROM(model_of(c, cls, kinds, solver=solver), **s.kw()))
    c.true("no posterior before fitting", rom.posterior is None)
    Q, = trajs(c, n, (3,))
    Z = c.real("Z", (n, 3)) if cls == "ContinuousModel" else None
    hasin = any("Input" in k for k in kinds)
    U = c.real("U", (m, 3)) if hasin else None
    s.fit2([Q])
    out = quiet(lambda: rom.fit(Q, Z, U))
    c.true("fit returns the ROM", out is rom)
    M, P = solver.content(None)
    post = rom.posterior
    c.true("posterior", post is not None and post.nrows == R)
    for i in range(R):
        c.eq(f"mean {i}", post.means[i], M[i])
        if c.symbolic:
            c.eq(f"precision {i}", post.randomvariables[i].cov_object.P, P[i])
        else:
            c.eq(f"precision {i}", P[i] @ post.covs[i], c.eye(d))
    got = [o.entries for o in rom.model.operators]
    for k, a, b in zip(kinds, got, entries_of(c, kinds, M, R, m)):
        c.eq(f"{k} operator after fit is the mean", a, b)
    calls = solver.calls
    x0 = c.real("x0", (n,))
    keep = x0.copy()
    W = c.real("W", (m, steps)) if hasin else None
    t = np.arange(steps) * .5
    sols = []
    for rep in range(2):
        a = len(N.log)
        if cls == "DiscreteModel":
            got = quiet(lambda: rom.predict(x0, steps, W) if hasin else rom.predict(x0, steps))
        else:
            Y = c.real(f"Y{rep}", (R, steps))
            ivp = SimpleNamespace(calls=0)

            def solve(fun, t_span, y0, method="RK45", t_eval=None, **kw):
                ivp.fun, ivp.y0, ivp.t, ivp.kw = fun, y0, t_eval, kw
                ivp.calls += 1
                return SimpleNamespace(y=Y, t=t_eval, success=True, message="", status=0)
            c.replace("integrate.solve_ivp", solve)
            fu = (lambda tt: np.array([1.0 + tt] * m)) if hasin else None
            got = quiet(lambda: rom.predict(x0, t, fu) if hasin else rom.predict(x0, t))
        c.true(f"{rep}: one draw per row", len(N.log) - a == R)
        if len(N.log) - a != R:
            return
        X = draw_matrix(c, N, a, R, d)
        for i in range(R):
            c.true(f"{rep}: row {i} from its own distribution", N.log[a + i][0] is rom.posterior.randomvariables[i])
        for k, o, b in zip(kinds, rom.model.operators, entries_of(c, kinds, X, R, m)):
            c.eq(f"{rep}: {k} operator is the draw", o.entries, b)
        ref = model_of(c, cls, kinds, X, R, m)
        if zero:
            ref = model_of(c, cls, kinds, M, R, m)
        z0 = s.enc(x0)
        if cls == "DiscreteModel":
            want = s.dec(recurrence(c, ref, z0, steps, W))
            c.eq(f"{rep}: prediction", got, want)
        else:
            c.true(f"{rep}: integrated once", ivp.calls == 1)
            c.eq(f"{rep}: initial condition", ivp.y0, z0)
            q = c.real(f"q{rep}", (R,))
            args = ivp.kw.get("args") or ()
            c.eq(f"{rep}: right-hand side", ivp.fun(1.0, q, *args), ref.rhs(1.0, q, fu) if hasin else ref.rhs(1.0, q))
            c.eq(f"{rep}: prediction", got, s.dec(Y))
    # drawing leaves the posterior alone
    c.true("posterior computed once", solver.calls == calls and rom.posterior is post)
    for i in range(R):
        c.eq(f"mean {i} afterwards", post.means[i], M[i])
    c.eq("caller's state", x0, keep)
    if zero:
        det = quiet(lambda: c.op.ROM(model_of(c, cls, kinds, M, R, m), lifter=s.L2, transformer=s.T2, basis=s.B2))
        if cls == "DiscreteModel":
            c.eq("deterministic prediction", got, quiet(lambda: det.predict(x0, steps, W) if hasin else det.predict(x0, steps)))


def estimated(c, which, cls, k, form="diag", const=False):
    """With the library's own solvers: the posterior of the data that was fitted."""
    np = c.np
    N = Normals(c)
    r, kinds = 1, ["Constant", "Linear"] if const else ["Linear"]
    d = len(kinds)
    g, GG = regs(c, which, d, r, form=form)
    S = c.op.lstsq
    mk = {"L2": lambda: S.L2Solver(g), "L2D": lambda: S.L2DecoupledSolver(g), "T": lambda: S.TikhonovSolver(g, method="normal"), "TD": lambda: S.TikhonovDecoupledSolver(g, method="normal")}[which]
    rom = c.op.roms.BayesianROM(model_of(c, cls, kinds, solver=mk()))
    if which in ("L2", "L2D"):
        m1 = svd_data(c, k, d)
        register(c, m1)
        Q = m1[0].T
        if cls == "DiscreteModel":
            Q = np.concatenate([Q, c.real("last", (1, 1))], axis=1)
    else:
        Q = c.real("Q", (r, k if cls == "ContinuousModel" else k + 1))
    Z = c.real("Z", (r, k)) if cls == "ContinuousModel" else None
    q, z = (Q[0], Z[0]) if cls == "ContinuousModel" else (Q[0, :-1], Q[0, 1:])
    D = np.array([[1.0, q[j]] if const else [q[j]] for j in range(k)])
    c.assume(D[0, d - 1] >= .1)
    try:
        quiet(lambda: rom.fit(Q, Z))
    except RuntimeError:  # documented: no posterior for a vanishing residual
        c.ok("deterministic")
        return
    post = rom.posterior
    gram = D.T @ D + GG[0]
    mu = post.means[0]
    c.eq("mean solves the regularised problem", gram @ mu, D.T @ z)
    e = D @ mu - z
    phi = rom.model.solver.regresidual(np.reshape(mu, (1, d)))[0]
    c.eq("regularised residual of the mean", phi, e @ e + mu @ GG[0] @ mu)
    if c.symbolic:
        c.eq("precision", post.randomvariables[0].cov_object.P * phi, k * gram)
    else:
        c.eq("precision", k * gram @ post.covs[0], phi * np.eye(d))
    got = [np.reshape(o.entries, ()) for o in rom.model.operators]
    c.eq("model holds the mean", np.array(got), mu)


def undefined(c, how):
    """No posterior from a singular system; drawing and predicting need one."""
    N = Normals(c)
    solver = stub_solver(c, 1, 1, fail=((3.0,),))
    rom = c.op.roms.BayesianROM(model_of(c, "DiscreteModel", ["Linear"], solver=solver))
    if how == "singular":
        Q = c.real("Q", (1, 3))
        solver.regularizer = 3.0
        quiet(lambda: rom.fit(Q))
        c.true("no posterior", rom.posterior is None)
        solver.regularizer = 2.0
        quiet(lambda: rom.fit(Q))
        c.true("posterior of the refit", rom.posterior is not None)
        c.eq("mean of the refit", rom.posterior.means[0], solver.content(2.0)[0][0])
    else:
        c.true("no posterior", rom.posterior is None)
        c.raises("draw", None, rom.draw_operators)
        c.raises("predict", None, lambda: rom.predict(c.real("x", (1,)), 3))


def refused(c, what):
    """Models whose posterior is not available are rejected."""
    O, M, S = c.op.operators, c.op.models, c.op.lstsq
    if what == "interp":
        model = M.InterpDiscreteModel([O.InterpLinearOperator()])
    elif what == "plain":
        model = M.DiscreteModel("A", solver=S.PlainSolver())
    elif what == "tsvd":
        model = M.DiscreteModel("A", solver=S.TruncatedSVDSolver(1))
    elif what == "tls":
        model = M.DiscreteModel("A", solver=S.TotalLeastSquaresSolver())
    c.raises("rejected", (AttributeError, TypeError), lambda: c.op.roms.BayesianROM(model))


# -- regularisation selection -----------------------------------------------
class Draws:
    """Draws as a function of (regulariser, how many were drawn with it, row)."""

    def __init__(self, c, N, solver, r, d, zero=False):
        self.c, self.solver, self.r, self.d = c, solver, r, d
        self.count, self.calls, self.Z = {}, solver.calls, {}
        N.namer = self.noise
        self.zero = zero

    def z(self, reg, i, row):
        k = reg, i, row
        if k not in self.Z:
            n = "_".join(f"{v:g}" for v in reg).replace(".", "p")
            self.Z[k] = self.c.real(f"z{n}_{i}_{row}", (self.d,))
        return self.Z[k]

    def noise(self, rv, shape):
        k = key(self.solver.regularizer), self.solver.calls
        n = self.count.get(k, 0)
        self.count[k] = n + 1
        return self.c.np.reshape(self.z(k[0], n // self.r, n % self.r), shape)

    def operators(self, reg, i):
        M = self.solver.content(reg)[0]
        return self.c.np.array([[M[q, j] + self.z(key(reg), i, q)[j] for j in range(self.d)] for q in range(self.r)])


def select(c, cands, ks, draws, cls="DiscreteModel", horizon=0, tests=0, bound=None, fail=(), margin=None, factory=None, m=0, broken=None):
    np = c.np
    n = r = 1
    kinds = ["Linear", "Input"] if m else ["Linear"]
    d = 1 + m
    N = Normals(c)
    solver = stub_solver(c, r, d, fail=tuple(key(x) for x in fail))
    D = Draws(c, N, solver, r, d)
    rom = quiet(lambda: c.op.roms.BayesianROM(model_of(c, cls, kinds, solver=solver)))
    Qs = trajs(c, n, ks)
    enc = [Q[:, :-1] for Q in Qs] if cls == "DiscreteModel" else Qs
    for e in enc:
        c.assume(within(c, e, e, 1)[1] >= .01)
        c.assume(abs(e[0, 0]) >= .01)
    fac = (lambda x: x) if factory is None else (lambda x: factory * x)
    kw = dict(gridsearch_only=True, num_posterior_draws=draws)
    if factory is not None:
        kw["regularizer_factory"] = fac
    mg = 5.0
    if margin is not None:
        mg = kw["stability_margin"] = margin
    ics = [c.real(f"ic{i}", (n,)) for i in range(tests)]
    if cls == "DiscreteModel":
        if horizon:
            kw["num_test_iters"] = horizon
        Us = [c.real(f"U{i}", (m, k + horizon)) for i, k in enumerate(ks)] if m else [None] * len(ks)
        Ut = c.real("Ut", (m, 3)) if m else None
        if tests:
            kw["test_cases"] = [c.op.utils.DiscreteRegTest(q, 3, inputs=Ut, bound=bound) for q in ics]
        run = lambda: rom.fit_regselect_discrete(cands, Qs, Us if m else None, **kw)
        sim = lambda X, z, size, j: recurrence(c, model_of(c, cls, kinds, X, r, m), z, size, Ut if j < 0 else Us[j])
    else:
        ts = [np.arange(k) * .5 for k in ks]
        Zs = [c.real(f"Z{i}", (n, k)) for i, k in enumerate(ks)]
        tt = np.arange(3) * .5
        fu = (lambda t: np.array([1.0 + t] * m)) if m else None
        if tests:
            kw["test_cases"] = [c.op.utils.ContinuousRegTest(q, tt, input_function=fu, bound=bound) for q in ics]
        if horizon:
            kw["test_time_length"] = .5 * horizon + .25

        # the integrator's answer is a fixed function of the model and the start
        def solve(fun, t_span, y0, method="RK45", t_eval=None, **k):
            q = [y0]
            for j in range(t_eval.size - 1):
                q.append(fun(float(j), q[-1], *(k.get("args") or ())))
            if broken is not None and key(solver.regularizer) == key(10.0):
                count.append(1)
                if len(count) == broken[1]:
                    if broken[0] == "short":
                        q = q[:-1]
                    else:
                        q[broken[2]] = np.array([float(broken[0])])
            return SimpleNamespace(y=np.column_stack(q), t=t_eval[:len(q)], success=True, message="", status=0)
        count = []
        c.replace("integrate.solve_ivp", solve)
        run = lambda: rom.fit_regselect_continuous(cands, ts, Qs, Zs, fu, **kw)

        def sim(X, z, size, _):
            q = [z]
            M = model_of(c, cls, kinds, X, r, m)
            for j in range(size - 1):
                q.append(M.rhs(float(j), q[-1], fu) if m else M.rhs(float(j), q[-1]))
            return np.column_stack(q)
    failed = False
    try:
        out = quiet(run)
    except RuntimeError:
        failed = True
    errors, adm = [], []
    for x in cands:
        reg = fac(x)
        if key(reg) in solver_fail(solver, fail) or broken is not None and key(reg) == key(10.0):
            errors.append(None)
            adm.append(False)
            continue
        i, ok = 0, []
        for q in ics:
            for _ in range(draws):
                S = sim(D.operators(reg, i), q, 3, -1)
                i += 1
                if bound is not None:
                    ok += [abs(S[0, j] - q[0]) <= bound for j in range(3)]
        err = 0
        for j, e in enumerate(enc):
            total = 0
            for _ in range(draws):
                S = sim(D.operators(reg, i), e[:, 0], e.shape[1] + horizon, j)
                i += 1
                ok.append(within(c, S, e, mg)[0])
                total = total + S[:, :e.shape[1]]
            mean = total / draws
            err = err + (c.op.post.frobenius_error(e, mean) if cls == "DiscreteModel" else c.op.post.Lp_error(e, mean, ts[j]))[1]
        errors.append(err / len(enc))
        adm.append(conj(ok))
    if failed:
        for j, a in enumerate(adm):
            c.true(f"fails only without an admissible candidate {j}", True if a is False else (~a if c.symbolic and a is not True else not a))
        return
    c.true("returns the ROM", out is rom)
    c.true("fitted once", len(solver.fits) == 1)
    reg = rom.model.solver.regularizer
    ids = [i for i, x in enumerate(cands) if key(fac(x)) == key(reg)]
    c.true("regulariser of a candidate", len(ids) == 1)
    if len(ids) != 1:
        return
    i = ids[0]
    c.true("admissible", adm[i])
    for j in range(len(cands)):
        if j != i and adm[j] is not False:
            c.true(f"no better candidate {j}", implies(c, adm[j], errors[i] <= errors[j]))
    M, P = solver.content(reg)
    c.eq("posterior mean of the chosen regulariser", rom.posterior.means[0], M[0])
    if c.symbolic:
        c.eq("posterior precision of the chosen regulariser", rom.posterior.randomvariables[0].cov_object.P, P[0])
    else:
        c.eq("posterior precision of the chosen regulariser", P[0] @ rom.posterior.covs[0], c.eye(d))


def solver_fail(solver, fail):
    return [key(x) for x in fail]


def cases(tier):
    big = tier == "thorough"
    for inv in (0, 1):
        for dims in [(1,), (2,), (3,), (1, 1), (2, 2), (3, 3, 3), (1, 2), (2, 1), (2, 3, 1), (1, 1, 2)]:
            name = "-".join(map(str, dims))
            yield f"dist-{name}-{'cov' if inv else 'prec'}", distribution, dict(dims=dims, inverted=bool(inv))
            if inv or max(dims) <= 2:
                yield f"dist-{name}-{'cov' if inv else 'prec'}-reload", distribution, dict(dims=dims, inverted=bool(inv), reload=True)
    for what in ("mean", "cov", "rows", "size"):
        for d in (1, 2):
            for r in (1, 2):
                yield f"different-{what}-{d}-{r}", different, dict(d=d, r=r, what=what)
    for what in ("count", "meanndim", "precndim", "size", "notsquare", "list"):
        yield f"malformed-{what}", malformed, dict(what=what)
    KINDS = [("Linear",), ("Constant", "Linear"), ("Linear", "Constant"), ("Quadratic",), ("Input", "Linear"), ("Linear", "Input"), ("Constant", "Linear", "Quadratic", "Input"), ("StateInput", "Constant")]
    for cls in ("DiscreteModel", "ContinuousModel"):
        for kinds in KINDS:
            m = 1 if any("Input" in k for k in kinds) else 0
            k = "".join(x[0] if x != "StateInput" else "N" for x in kinds)
            for r in (1, 2):
                nl = any(x in ("Quadratic", "StateInput") for x in kinds)
                st = 2 if nl and (r == 2 or len(kinds) > 2) else 3
                for mm in ([m, 2] if m and (r == 1 or big) else [m]):
                    yield f"predict-{cls[0]}-{k}-{r}-m{mm}", through, dict(cls=cls, kinds=kinds, n=r, m=mm, steps=st)
                    yield f"zero-{cls[0]}-{k}-{r}-m{mm}", through, dict(cls=cls, kinds=kinds, n=r, m=mm, steps=st, zero=True)
        for lift, tf, basis, n, r in [("quad", None, None, 1, 0), (None, ("ShiftScale", {"scaling": "minmax"}), None, 1, 0), (None, None, "linear", 2, 1), (None, None, "fit", 2, 1),
                                      ("quad", None, "fit", 1, 1), (None, None, "weighted", 2, 1)]:
            if tf is not None:
                continue
            yield f"stages-{cls[0]}-{lift}-{basis}", through, dict(cls=cls, kinds=("Linear",), lift=lift, basis=basis, n=n, r=r, steps=2)
            yield f"stages-{cls[0]}-{lift}-{basis}-zero", through, dict(cls=cls, kinds=("Constant", "Linear"), lift=lift, basis=basis, n=n, r=r, steps=2, zero=True)
        for which in ("L2", "L2D", "T", "TD"):
            for k in (2,) if which in ("L2", "L2D") else (3, 4) if big and cls == "ContinuousModel" else (3,):
                if cls == "DiscreteModel" and which in ("L2", "L2D"):
                    continue
                yield f"estimated-{cls[0]}-{which}-{k}", estimated, dict(which=which, cls=cls, k=k)
                if which in ("T", "TD") and cls == "ContinuousModel":
                    yield f"estimated-{cls[0]}-{which}-{k}-const", estimated, dict(which=which, cls=cls, k=k, const=True)
                    yield f"estimated-{cls[0]}-{which}-{k}-full", estimated, dict(which=which, cls=cls, k=k, const=True, form="full")
    for how in ("singular", "none"):
        yield f"undefined-{how}", undefined, dict(how=how)
    for what in ("interp", "plain", "tsvd", "tls"):
        yield f"refused-{what}", refused, dict(what=what)
    for cls in ("DiscreteModel", "ContinuousModel"):
        t = cls[0]
        kk = (3,) if t == "D" else (2,)
        yield f"select-{t}-1", select, dict(cands=[1.0], ks=kk, draws=1, cls=cls)
        yield f"select-{t}-2", select, dict(cands=[1.0, 10.0], ks=kk, draws=1, cls=cls)
        yield f"select-{t}-2-margin", select, dict(cands=[10.0, 1.0], ks=kk, draws=1, cls=cls, margin=1.0)
        yield f"select-{t}-draws", select, dict(cands=[1.0], ks=kk, draws=2, cls=cls)
        yield f"select-{t}-draws-2", select, dict(cands=[1.0, 10.0], ks=kk, draws=2, cls=cls)
        yield f"select-{t}-two", select, dict(cands=[1.0, 10.0], ks=kk * 2, draws=1, cls=cls)
        yield f"select-{t}-test", select, dict(cands=[1.0, 10.0], ks=kk, draws=1, cls=cls, tests=1, bound=2.0)
        yield f"select-{t}-fail", select, dict(cands=[1.0, 10.0, 3.0], ks=kk, draws=1, cls=cls, fail=(10.0,))
        yield f"select-{t}-factory", select, dict(cands=[1.0, 10.0], ks=kk, draws=1, cls=cls, factory=2)
        yield f"select-{t}-horizon", select, dict(cands=[1.0, 10.0], ks=kk, draws=1, cls=cls, horizon=1)
        yield f"select-{t}-input", select, dict(cands=[1.0, 10.0], ks=kk, draws=1, cls=cls, m=1)
        if t == "C":
            for what in ("nan", "inf", "-inf", "short"):
                for draw in (1, 2):
                    for pos in (1, -1) if what == "nan" else (-1,):
                        yield f"select-C-broken-{what}-{draw}-{pos}", select, dict(cands=[10.0, 1.0], ks=kk, draws=2, cls=cls, broken=(what, draw, pos))
                        if draw == 1 and pos == -1:
                            yield f"select-C-broken-only-{what}", select, dict(cands=[10.0], ks=kk, draws=1, cls=cls, broken=(what, draw, pos))
                            yield f"select-C-broken-horizon-{what}", select, dict(cands=[1.0, 10.0], ks=kk, draws=1, cls=cls, broken=(what, draw, pos), horizon=1)
                            yield f"select-C-broken-test-{what}", select, dict(cands=[1.0, 10.0], ks=kk, draws=1, cls=cls, broken=(what, draw, pos), tests=1, bound=2.0)
        yield f"select-{t}-input-test", select, dict(cands=[1.0], ks=kk, draws=2, cls=cls, m=1, tests=1, bound=2.0)
        if big:
            yield f"select-{t}-3", select, dict(cands=[1.0, 10.0, .1], ks=kk, draws=2, cls=cls)
            yield f"select-{t}-two-draws", select, dict(cands=[1.0, 10.0], ks=kk * 2, draws=2, cls=cls)
