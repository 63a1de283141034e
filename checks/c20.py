"""C20: regularisation selection returns the best admissible candidate."""

import math
import warnings
from types import SimpleNamespace

from checks.c19 import Stages, trajs, TF

BOUNDS = ("grid search: up to 4 candidates (thorough 5) in every position of ties, infinite and undefined errors, scalar and vector candidates, with and without the follow-up "
          "optimisation (any trial point inside the bounds handed to the optimiser, successful or not); regularised fits: 2-3 candidates, up to 2 trajectories of 3-4 snapshots, r=1 "
          "(2), all real training data and all real solutions per candidate, extra test cases and prediction horizons; monolithic and parametric (affine, interpolated) reduced models")
OUTSIDE = ("scipy.optimize (stand-in: any point within its bounds with its true value); solve_ivp (stand-in: any trajectory per candidate, also incomplete or undefined ones); "
           "the regression solver (any solution per regulariser, C08/C09); candidates <= 0 with follow-up optimisation (documented as not allowed); floating-point rounding")


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


# -- the search itself -------------------------------------------------------
def key(x):
    try:
        return tuple(round(float(v), 12) for v in x)
    except TypeError:
        return (round(float(x), 12),)


class Objective:
    """An arbitrary function of the candidate; every argument is recorded."""

    def __init__(self, c, table):
        self.c, self.table, self.args, self.extra = c, dict(table), [], 0

    def __call__(self, x):
        k = key(x)
        self.args.append(k)
        if k not in self.table:
            self.extra += 1
            self.table[k] = self.c.real(f"o{self.extra}", (), "pos")
        return self.table[k]


def finite(e):
    return not (isinstance(e, float) and not math.isfinite(e))


def optimiser(c, kind, obj, ok, log):
    """minimize_scalar / minimize: looks at two points and answers with one of them."""
    def scalar(fun, bracket=None, bounds=None, args=(), method=None, tol=None, options=None):
        lo, hi = float(bounds[0]), float(bounds[1])
        log.append((lo, hi))
        c.true("search bounds are ordered", math.isfinite(lo) and math.isfinite(hi) and lo < hi)
        xs = [lo + (hi - lo) * f for f in (.25, .6)]
        fs = [fun(x) for x in xs]
        i = 0 if kind != "second" else 1
        return SimpleNamespace(x=xs[i], fun=fs[i], success=ok, nfev=2, message="")

    def multi(fun, x0, args=(), method=None, **kw):
        import numpy
        x0 = numpy.array([float(v) for v in x0])
        log.append(tuple(x0))
        c.true("starting point is finite", bool(numpy.isfinite(x0).all()))
        xs = [x0 + .5, x0 - .25]
        fs = [fun(x) for x in xs]
        i = 0 if kind != "second" else 1
        return SimpleNamespace(x=xs[i], fun=fs[i], success=ok, nfev=2, message="")
    c.replace("optimize.minimize_scalar", scalar)
    c.replace("optimize.minimize", multi)


def search(c, cands, pattern, only, form="list", opt=None, ok=True):
    np = c.np
    errs = []
    for i, p in enumerate(pattern):
        errs.append({"s": lambda: c.real(f"e{i}", (), "pos"), "i": lambda: float("inf"), "n": lambda: float("nan")}[p]())
    obj = Objective(c, {key(x): e for x, e in zip(cands, errs)})
    log = []
    optimiser(c, opt, obj, ok, log)
    if form == "array":
        arg = np.array(cands)
    elif form == "scalar":
        arg = cands[0]
    elif form == "column":
        arg = [[x] for x in cands]
    else:
        arg = [np.array(x) if isinstance(x, tuple) else x for x in cands]
    f = lambda: quiet(lambda: c.op.utils.gridsearch(obj, arg, gridsearch_only=only))
    if "s" not in pattern:
        c.raises("no admissible candidate", (RuntimeError,), f)
        return
    got = key(f())
    c.true("the winner was tried", got in obj.table)
    if got not in obj.table:
        return
    best = obj.table[got]
    c.true("every candidate was tried", all(key(x) in obj.args for x in cands))
    c.true("the winner is admissible", finite(best))
    for x, e in zip(cands, errs):
        if finite(e):
            c.le(f"winner against {key(x)}", best, e)
    if only:
        c.true("the winner is one of the candidates", got in [key(x) for x in cands])
        c.true("no optimisation", not log)
    c.true("positive proposals", all(v > 0 for a in obj.args for v in a))


# -- through a reduced-order model ---------------------------------------------
class RegSpy:
    """A regression solver with an arbitrary solution for each regulariser."""

    def __init__(self, c, special=None):
        self.c, self.X, self.fits = c, {}, []
        self.D = self.Z = None
        self.regularizer = None

    def fit(self, data_matrix, lhs_matrix):
        self.D, self.Z = data_matrix, lhs_matrix
        self.fits.append((data_matrix, lhs_matrix))
        self.X = {}
        return self

    def reset(self):
        self.regularizer = self.D = self.Z = None

    def answer(self, reg):
        k = key(reg)
        if k not in self.X:
            n = "_".join(f"{v:g}" for v in k).replace(".", "p").replace("-", "m")
            self.X[k] = self.c.real(f"X{n}_{len(self.fits)}", (self.Z.shape[0], self.D.shape[1]))
        return self.X[k]

    def solve(self):
        return self.answer(self.regularizer).copy()

    def copy(self):
        return self

    def __str__(self):
        return "spy"


def mk_model(c, cls, kinds, solver=None, X=None, r=1, m=0):
    O = c.op.operators
    ops, a = [], 0
    for k in kinds:
        if X is None:
            ops.append(getattr(O, f"{k}Operator")())
        else:
            w = {"Constant": 1, "Linear": r, "Input": m}[k]
            E = X[:, a:a + w]
            ops.append(getattr(O, f"{k}Operator")(E[:, 0] if k == "Constant" else E))
            a += w
    C = getattr(c.op.models, cls)
    return C(ops) if solver is None else C(ops, solver=solver)


def within(c, S, ref, margin, exclude=None):
    """max |S - mean(ref)| <= margin * max |ref - mean(ref)|."""
    k = ref.shape[1]
    mean = sum(ref[:, j] for j in range(k)) / k
    lim = None
    for i in range(ref.shape[0]):
        for j in range(k):
            d = abs(ref[i, j] - mean[i])
            lim = d if lim is None else c.np.maximum(lim, d)
    ok = True
    for i in range(S.shape[0]):
        for j in range(S.shape[1]):
            t = abs(S[i, j] - mean[i]) <= margin * lim
            ok = t if ok is True else ok & t
    return ok, lim


def conj(xs):
    out = True
    for x in xs:
        out = x if out is True else (out if x is True else out & x)
    return out


def implies(c, a, b):
    if a is True:
        return b
    if not c.symbolic:
        return (not a) or b
    return ~a | b


def judge(c, label, rom, spy, cands, factory, errors, adm):
    """The model holds a best admissible candidate."""
    reg = rom.model.solver.regularizer
    ids = [i for i, x in enumerate(cands) if key(factory(x)) == key(reg)]
    c.true(f"{label}: regulariser of a candidate", len(ids) == 1)
    if len(ids) != 1:
        return
    i = ids[0]
    got = c.np.concatenate([o.entries.reshape((spy.Z.shape[0], -1)) for o in rom.model.operators], axis=1)
    c.eq(f"{label}: model refitted with the chosen regulariser", got, spy.answer(reg))
    c.true(f"{label}: chosen candidate admissible", adm[i])
    for j in range(len(cands)):
        if j != i and adm[j] is not False and errors[j] is not None:
            c.true(f"{label}: no better candidate {j}", implies(c, adm[j], errors[i] <= errors[j]))


FACT = {"id": lambda x: x, "pair": lambda x: [x, 10 * x], "sum": lambda x: x[0] + 2 * x[1]}


def discrete(c, cands, ks, kinds=("Linear",), m=0, lift=None, tf=None, basis=None, n=1, r=1, horizon=0, tests=0, bound=None, factory="id", form="list", margin=None, twice=False):
    np = c.np
    s = Stages(c, lift, tf, basis, n, r)
    R = r if s.B1 is not None else s.N
    spy = RegSpy(c)
    fac = FACT[factory]
    model = mk_model(c, "DiscreteModel", kinds, solver=spy)
    rom = quiet(lambda: c.op.ROM(model, **s.kw()))
    hasin = "Input" in kinds
    for rep in range(2 if twice else 1):
        Qs = trajs(c, n, ks, f"Q{rep}")
        keep = [Q.copy() for Q in Qs]
        Us = [c.real(f"U{rep}{i}", (m, k + horizon)) for i, k in enumerate(ks)] if hasin else None
        s.fit2(Qs)
        enc = [s.enc(Q)[:, :-1] for Q in Qs]
        mg = 5.0 if margin is None else margin
        for e in enc:
            c.assume(within(c, e, e, 1)[1] >= .01)
            c.assume(abs(e[0, 0]) >= .01)
        kw = {} if factory == "id" else {"regularizer_factory": fac}
        if margin is not None:
            kw["stability_margin"] = margin
        if horizon:
            kw["num_test_iters"] = horizon
        ics = [c.real(f"ic{rep}{i}", (n,)) for i in range(tests)]
        Ut = c.real(f"Ut{rep}", (m, 3)) if hasin and tests else None
        if tests:
            T = c.op.utils.DiscreteRegTest
            tcs = [T(q, 3, inputs=Ut, bound=bound) for q in ics]
            kw["test_cases"] = tcs if tests > 1 else tcs[0]
        # what each candidate does
        def trajectory(M, q, steps, U):
            S = [q]
            for j in range(steps - 1):
                S.append(M.rhs(S[-1], U[:, j]) if hasin else M.rhs(S[-1]))
            return np.column_stack(S)
        before = len(spy.fits)
        arg = Qs[0] if form == "array" else Qs
        uarg = None if Us is None else (Us[0] if form == "array" else Us)
        cl = [np.array(x) if isinstance(x, tuple) else x for x in cands]

        def run():
            return quiet(lambda: rom.fit_regselect_discrete(cl, arg, uarg, gridsearch_only=True, **kw))
        failed = False
        try:
            out = run()
        except RuntimeError:
            failed = True
        c.true("fitted once", len(spy.fits) == before + 1)
        c.eq("fitted data", spy.D[:, [i for i, k in enumerate(kinds) if k == "Linear"]] if R == 1 else spy.D[:, :R], np.hstack(enc).T)
        c.eq("fitted left-hand side", spy.Z, np.hstack([s.enc(Q)[:, 1:] for Q in Qs]))
        errors, adm = [], []
        for x in cands:
            M = mk_model(c, "DiscreteModel", kinds, X=spy.answer(fac(x)), r=R, m=m)
            sols = [trajectory(M, e[:, 0], e.shape[1] + horizon, None if Us is None else Us[i]) for i, e in enumerate(enc)]
            ok = [within(c, S, e, mg)[0] for S, e in zip(sols, enc)]
            for q in ics:
                z = s.enc(q)
                S = trajectory(M, z, 3, Ut)
                if bound is not None:
                    for j in range(3):
                        for i in range(R):
                            ok.append(abs(S[i, j] - z[i]) <= bound)
            adm.append(conj(ok))
            errors.append(sum(c.op.post.frobenius_error(e, S[:, :e.shape[1]])[1] for S, e in zip(sols, enc)) / len(enc))
        if failed:
            for j, a in enumerate(adm):
                c.true(f"fails only without an admissible candidate {j}", (~a if c.symbolic and a is not True else not a))
            continue
        c.true("returns the ROM", out is rom)
        judge(c, f"run {rep}", rom, spy, cands, fac, errors, adm)
        for Q, K in zip(Qs, keep):
            c.eq("caller's states", Q, K)


class Integrator:
    """Stand-in for solve_ivp: an arbitrary trajectory per candidate and time grid."""

    def __init__(self, c, spy, R, outcome):
        self.c, self.spy, self.R, self.outcome = c, spy, R, outcome
        self.sols, self.starts, self.grids = {}, {}, {}

    def __call__(self, fun, t_span, y0, method="RK45", t_eval=None, args=None, **options):
        k = key(self.spy.regularizer), t_eval.size
        self.starts.setdefault(k, []).append(y0)
        self.grids[k] = t_eval
        y = self.get(*k)
        return SimpleNamespace(y=y, t=t_eval[:y.shape[1]], success=y.shape[1] == t_eval.size, message="")

    def get(self, reg, size):
        k = reg, size
        if k not in self.sols:
            n = "_".join(f"{v:g}" for v in reg).replace(".", "p")
            out = self.outcome.get(reg, "")
            y = self.c.real(f"Y{n}_{size}", (self.R, size))
            if out == f"short{size}" or out == "short":
                y = y[:, :-1]
            if out == f"nan{size}" or out == "nan":
                y[0, size - 1] = float("nan")
            self.sols[k] = y
        return self.sols[k]


def continuous(c, cands, ks, outcome=(), kinds=("Linear",), m=0, lift=None, tf=None, basis=None, n=1, r=1, horizon=0, tests=0, bound=None, factory="id", margin=None, ddts=True, form="list"):
    np = c.np
    s = Stages(c, lift, tf, basis, n, r)
    R = r if s.B1 is not None else s.N
    spy = RegSpy(c)
    fac = FACT[factory]
    model = mk_model(c, "ContinuousModel", kinds, solver=spy)
    ts = [np.arange(k) * .5 for k in ks]
    est = None if ddts else c.op.ddt.UniformFiniteDifferencer(ts[0], "fwd1")
    rom = quiet(lambda: c.op.ROM(model, ddt_estimator=est, **s.kw()))
    hasin = "Input" in kinds
    ivp = Integrator(c, spy, R, {key(fac(cands[i])): o for i, o in outcome})
    c.replace("integrate.solve_ivp", ivp)
    Qs = trajs(c, n, ks)
    Zs = [c.real(f"Z{i}", (n, k)) for i, k in enumerate(ks)]
    fu = (lambda t: np.array([1.0 + t] * m)) if hasin else None
    s.fit2(Qs)
    enc = [s.enc(Q) for Q in Qs]
    mg = 5.0 if margin is None else margin
    for e in enc:
        c.assume(within(c, e, e, 1)[1] >= .01)
        c.assume(abs(e[0, 0]) >= .01)
    kw = {} if factory == "id" else {"regularizer_factory": fac}
    if margin is not None:
        kw["stability_margin"] = margin
    if horizon:
        kw["test_time_length"] = horizon
    ics = [c.real(f"ic{i}", (n,)) for i in range(tests)]
    tt = np.arange(9) * .1
    if tests:
        T = c.op.utils.ContinuousRegTest
        tcs = [T(q, tt, input_function=fu, bound=bound) for q in ics]
        kw["test_cases"] = tcs if tests > 1 else tcs[0]
    one = form == "array"
    failed = False
    try:
        out = quiet(lambda: rom.fit_regselect_continuous([np.array(x) if isinstance(x, tuple) else x for x in cands], ts[0] if one or len(set(ks)) == 1 else ts,
                                                         Qs[0] if one else Qs, (Zs[0] if one else Zs) if ddts else None, fu, gridsearch_only=True, **kw))
    except RuntimeError:
        failed = True
    c.true("fitted once", len(spy.fits) == 1)
    if ddts:
        c.eq("fitted left-hand side", spy.Z, np.hstack([s.enc_ddt(Q, Z) for Q, Z in zip(Qs, Zs)]))
    errors, adm = [], []
    for x in cands:
        k = key(fac(x))
        ok, err = [], 0
        for i, (e, t) in enumerate(zip(enc, ts)):
            sizes = [z for (rg, z) in ivp.sols if z >= e.shape[1] and z != 9]
            size = {k_: sz for k_, sz in zip(sorted(set(ks)), sorted(set(sizes)))}.get(e.shape[1], e.shape[1])
            if horizon:
                c.true("prediction reaches beyond the training data", size > e.shape[1])
            S = ivp.get(k, size)
            if (k, size) in ivp.grids and len(set(ks)) == len(ks):
                g = [float(x) for x in ivp.grids[k, size]]
                c.true("simulated at the training times", all(abs(x - y) < 1e-9 for x, y in zip(g, t)), str(g))
                c.true("times increase", all(x < y for x, y in zip(g, g[1:])), str(g))
                c.true("simulated for the test time", g[-1] >= t[-1] + horizon - 1e-9, str(g))
            if S.shape[1] != size or any(isinstance(v, float) and v != v for v in S.ravel()):
                ok.append(False)
                err = None
                break
            ok.append(within(c, S, e, mg)[0])
            err = err + c.op.post.Lp_error(e, S[:, :e.shape[1]], t)[1] / len(enc)
        if err is not None:
            for q in ics:
                z, S = s.enc(q), ivp.get(k, 9)
                if S.shape[1] != 9 or any(isinstance(v, float) and v != v for v in S.ravel()):
                    ok.append(False)
                elif bound is not None:
                    for j in range(9):
                        for i in range(R):
                            ok.append(abs(S[i, j] - z[i]) <= bound)
        errors.append(err)
        adm.append(False if any(o is False for o in ok) else conj(ok))
    if failed:
        for j, a in enumerate(adm):
            c.true(f"fails only without an admissible candidate {j}", True if a is False else (~a if c.symbolic and a is not True else not a))
        return
    c.true("returns the ROM", out is rom)
    judge(c, "selection", rom, spy, cands, fac, errors, adm)
    for (k, size), starts in ivp.starts.items():
        for y0 in starts:
            if size == 9:
                want = [s.enc(q) for q in ics]
            else:
                want = [e[:, 0] for e in enc if e.shape[1] <= size]
            if len(want) == 1:
                c.eq("simulations start at the encoded initial condition", y0, want[0])


class Family(RegSpy):
    """One spy per training parameter for interpolated models."""

    def __init__(self, c, parent=None, index=None):
        RegSpy.__init__(self, c)
        self.parent, self.index, self.children = parent, index, []

    def copy(self):
        child = Family(self.c, self, len(self.children))
        self.children.append(child)
        return child

    def answer(self, reg):
        if self.index is None:
            return RegSpy.answer(self, reg)
        k = key(reg)
        if k not in self.X:
            n = "_".join(f"{v:g}" for v in k).replace(".", "p").replace("-", "m")
            self.X[k] = self.c.real(f"X{self.index}_{n}", (self.Z.shape[0], self.D.shape[1]))
        return self.X[k]


def euler(c):
    """Stand-in for solve_ivp: forward Euler steps on the evaluation grid."""
    def ivp(fun, t_span, y0, method="RK45", t_eval=None, args=None, **options):
        S = [y0]
        g = [float(t) for t in t_eval]
        ivp.grids.append(g)
        for a, b in zip(g, g[1:]):
            S.append(S[-1] + (b - a) * fun(a, S[-1], *(args or ())))
        return SimpleNamespace(y=c.np.column_stack(S), t=t_eval, success=True, message="")

    ivp.grids = []
    return ivp


def parametric(c, kind, fam, ks=(3, 3), horizon=0, tests=0, bound=None, m=0, tf=None, margin=None, cands=(.5, 2.0)):
    """Selection for a parametric model: every trajectory is judged at its own parameter value."""
    np, O = c.np, c.op.operators
    cont = kind == "continuous"
    s = Stages(c, None, tf, None, 1, 1)
    mus = [1.0, 2.0]
    spy = RegSpy(c) if fam == "affine" else Family(c)
    theta = [lambda mu: 1.0 + 0 * mu, lambda mu: mu]
    ops = []
    for k in ("Linear", "Input") if m else ("Linear",):
        ops.append(getattr(O, f"Affine{k}Operator")(theta) if fam == "affine" else getattr(O, f"Interp{k}Operator")())
    pre = "" if fam == "affine" else "Interp"
    M = getattr(c.op.models, f"{'Parametric' if fam == 'affine' else 'Interp'}{'Continuous' if cont else 'Discrete'}Model")
    rom = quiet(lambda: c.op.ParametricROM(M(ops, solver=spy), **s.kw()))
    ivp = euler(c)
    c.replace("integrate.solve_ivp", ivp)
    Qs = trajs(c, 1, ks)
    Zs = [c.real(f"Z{i}", (1, k)) for i, k in enumerate(ks)]
    ts = [np.arange(k) * .5 for k in ks]
    hd = int(horizon) if not cont else 0
    Us = [c.real(f"U{i}", (1, k + hd)) for i, k in enumerate(ks)] if m else None
    fus = [(lambda t: np.array([1.0 + t])), (lambda t: np.array([2.0 - t]))] if m else None
    s.fit2(Qs)
    enc = [s.enc(Q) for Q in Qs]
    if not cont:
        enc = [e[:, :-1] for e in enc]
    mg = 5.0 if margin is None else margin
    for e in enc:
        c.assume(within(c, e, e, 1)[1] >= .01)
        c.assume(abs(e[0, 0]) >= .01)
    kw = dict(gridsearch_only=True, parameters=mus, states=Qs)
    if margin is not None:
        kw["stability_margin"] = margin
    ics = [c.real(f"ic{i}", (1,)) for i in range(tests)]
    tt = np.arange(3) * .25
    if cont:
        kw.update(train_time_domains=ts, ddts=Zs, input_functions=fus, test_time_length=horizon)
        kw["test_cases"] = [c.op.utils.ContinuousRegTest(q, tt, parameters=mus[1 - i], input_function=fus[0] if m else None, bound=bound) for i, q in enumerate(ics)]
        call = lambda: rom.fit_regselect_continuous(list(cands), **kw)
    else:
        kw.update(inputs=Us, num_test_iters=hd)
        kw["test_cases"] = [c.op.utils.DiscreteRegTest(q, 3, parameters=mus[1 - i], inputs=Us[0] if m else None, bound=bound) for i, q in enumerate(ics)]
        call = lambda: rom.fit_regselect_discrete(list(cands), **kw)
    failed = False
    try:
        out = quiet(call)
    except RuntimeError:
        failed = True

    def entries(x, i):
        if fam == "affine":
            X = spy.answer(x)
            return [X[0, 2 * j] + mus[i] * X[0, 2 * j + 1] for j in range(len(ops))]
        X = spy.children[i].answer(x)
        return [X[0, j] for j in range(len(ops))]

    def solve(x, i, q, grid, u):
        E = entries(x, i)
        S = [q]
        for j in range(len(grid) - 1):
            f = E[0] * S[-1] + (E[1] * u(j) if m else 0)
            S.append(S[-1] + (grid[j + 1] - grid[j]) * f if cont else f)
        return np.column_stack(S)

    errors, adm = [], []
    for x in cands:
        ok, err = [], 0
        for i, e in enumerate(enc):
            if cont:
                g = [float(v) for v in ts[i]]
                used = [u for u in ivp.grids if len(u) >= len(g) and all(abs(a - b) < 1e-9 for a, b in zip(u, g)) and (horizon or len(u) == len(g))]
                if used:  # the grid this trajectory was simulated on
                    g = used[0]
                    c.true("simulated for the test time", g[-1] >= float(ts[i][-1]) + horizon - 1e-9, str(g))
                elif i == 0 and not failed:
                    c.fail("simulated at the training times", str(ivp.grids))
                S = solve(x, i, e[:, 0], g, (lambda j, i=i, g=g: fus[i](g[j])) if m else None)
                err = err + c.op.post.Lp_error(e, S[:, :e.shape[1]], ts[i])[1] / len(enc)
            else:
                S = solve(x, i, e[:, 0], range(e.shape[1] + hd), (lambda j, i=i: Us[i][:, j]) if m else None)
                err = err + c.op.post.frobenius_error(e, S[:, :e.shape[1]])[1] / len(enc)
            ok.append(within(c, S, e, mg)[0])
        for i, q in enumerate(ics):
            z = s.enc(q)
            S = solve(x, 1 - i, z, [float(v) for v in tt] if cont else range(3), (lambda j: fus[0](float(tt[j]))) if m and cont else (lambda j: Us[0][:, j]) if m else None)
            if bound is not None:
                for j in range(3):
                    ok.append(abs(S[0, j] - z[0]) <= bound)
        errors.append(err)
        adm.append(conj(ok))
    if failed:
        for j, a in enumerate(adm):
            c.true(f"fails only without an admissible candidate {j}", ~a if c.symbolic and a is not True else not a)
        return
    c.true("returns the ROM", out is rom)
    if fam == "affine":
        reg = rom.model.solver.regularizer
    else:
        reg = rom.model.solvers[0].regularizer
        c.true("one regulariser for every training parameter", len(rom.model.solvers) == 2 and all(key(z.regularizer) == key(reg) for z in rom.model.solvers))
    ids = [i for i, x in enumerate(cands) if key(x) == key(reg)]
    c.true("regulariser of a candidate", len(ids) == 1)
    if len(ids) != 1:
        return
    w = ids[0]
    for i, mu in enumerate(mus):
        got = rom.model.evaluate(mu)
        for j, e in enumerate(entries(cands[w], i)):
            c.eq(f"operator {j} at parameter {i}", got.operators[j].entries.reshape(-1), np.array([e]))
    c.true("chosen candidate admissible", adm[w])
    for j in range(len(cands)):
        if j != w:
            c.true(f"no better candidate {j}", implies(c, adm[j], errors[w] <= errors[j]))


def followup(c, only_first, cont=False):
    """The follow-up optimisation through a ROM: the final regulariser is the better one."""
    np = c.np
    spy = RegSpy(c)
    model = mk_model(c, "ContinuousModel" if cont else "DiscreteModel", ("Linear",), solver=spy)
    rom = c.op.ROM(model)
    Q = c.real("Q", (1, 2 if cont else 3))
    e = Q if cont else Q[:, :-1]
    Z, t = c.real("Z", (1, 2)), np.arange(2) * .5
    c.replace("integrate.solve_ivp", euler(c))
    c.assume(abs(e[0, 0]) >= .01)
    c.assume(abs(e[0, 0] - e[0, 1]) >= .01)
    log = []
    optimiser(c, "second", None, True, log)
    cands = [1.0] if only_first else [.5, 1.0]
    try:
        quiet((lambda: rom.fit_regselect_continuous(cands, t, Q, Z)) if cont else (lambda: rom.fit_regselect_discrete(cands, Q)))
    except RuntimeError:
        c.true("no admissible candidate", True)
        return
    reg = key(rom.model.solver.regularizer)
    c.eq("refitted", rom.model.operators[0].entries, spy.X[reg])
    err = {}
    for k, X in spy.X.items():
        S = np.array([[e[0, 0], e[0, 0] + .5 * X[0, 0] * e[0, 0] if cont else X[0, 0] * e[0, 0]]])
        err[k] = (within(c, S, e, 5)[0], c.op.post.Lp_error(e, S, t)[1] if cont else c.op.post.frobenius_error(e, S)[1])
    c.true("chosen is admissible", err[reg][0])
    for x in cands:
        c.true(f"not worse than candidate {x}", implies(c, err[key(x)][0], err[reg][1] <= err[key(x)][1]))
    c.true("positive", all(v > 0 for k in spy.X for v in k))


def redo(c, solver):
    """Selecting again for another reduced dimension works like a fresh selection."""
    np = c.np
    S = getattr(c.op.lstsq, solver)
    V = c.eye(2)
    Q1, Q2, Z1, Z2 = (c.real(x, (2, 2)) for x in ("Q1", "Q2", "Z1", "Z2"))
    B = quiet(lambda: c.op.basis.PODBasis.from_svd(V, np.array([2.0, 1.0]), num_vectors=2))
    mk = lambda: S(np.array([1.0, 1.0])) if solver == "L2DecoupledSolver" else (S(None, method="normal") if solver == "TikhonovSolver" else S([np.eye(2)] * 2, method="normal"))
    full = {"TikhonovSolver": lambda r: (lambda x: np.ones(r) * x), "L2DecoupledSolver": lambda r: (lambda x: np.ones(r) * x),
            "TikhonovDecoupledSolver": lambda r: (lambda x: [np.ones(r) * x] * r)}[solver]
    if solver == "L2DecoupledSolver" and c.symbolic:
        c.opt("svd_fresh", True)
    rom = c.op.ROM(c.op.models.ContinuousModel("A", solver=mk()), basis=B)
    c.replace("integrate.solve_ivp", lambda fun, ts, y0, t_eval=None, **k: SimpleNamespace(y=np.column_stack([y0, 0.5 * y0]), success=True))
    t = np.array([0.0, 1.0])
    for Q in (Q1, Q2):
        c.assume(Q[0, 0] >= .1)
        c.assume(Q[1, 0] >= .1)
        for i in (0, 1):  # the stand-in's trajectory is stable
            c.assume(Q[i, 1] == .5 * Q[i, 0])
    kw = dict(gridsearch_only=True, stability_margin=1e6, fit_basis=False)
    quiet(lambda: rom.fit_regselect_continuous([2.0], t, Q1, Z1, regularizer_factory=full(2), **kw))
    B.set_dimension(num_vectors=1)
    quiet(lambda: rom.fit_regselect_continuous([3.0], t, Q2, Z2, regularizer_factory=full(1), **kw))
    c.true("state dimension", rom.model.state_dimension == 1)
    if solver == "L2DecoupledSolver":
        c.true("regulariser", rom.model.solver.regularizer.shape == (1,))
        return
    a = rom.model.operators[0].entries
    q, z = Q2[0], Z2[0]
    c.eq("fit of the second selection", a[0, 0] * (q[0] ** 2 + q[1] ** 2 + 9), q[0] * z[0] + q[1] * z[1])


def guards(c):
    O = c.op
    spy = RegSpy(c)
    Q = c.real("Q", (1, 3))
    d, k = O.ROM(mk_model(c, "DiscreteModel", ("Linear",), solver=spy)), O.ROM(mk_model(c, "ContinuousModel", ("Linear",), solver=spy))
    t = c.np.array([0.0, 1.0, 2.0])
    c.raises("discrete selection for a continuous model", (AttributeError,), lambda: k.fit_regselect_discrete([1.0], Q))
    c.raises("continuous selection for a discrete model", (AttributeError,), lambda: d.fit_regselect_continuous([1.0], t, Q, Q))
    c.raises("time grid of another length", (O.errors.DimensionalityError,), lambda: k.fit_regselect_continuous([1.0], t[:2], Q, Q))
    c.raises("negative test time", (ValueError,), lambda: k.fit_regselect_continuous([1.0], t, Q, Q, test_time_length=-1))
    c.raises("negative test iterations", (ValueError,), lambda: d.fit_regselect_discrete([1.0], Q, num_test_iters=-1))
    dn = O.ROM(mk_model(c, "DiscreteModel", ("Linear", "Input"), solver=spy))
    U = c.real("U", (1, 3))
    c.raises("too few inputs for the test iterations", (ValueError,), lambda: dn.fit_regselect_discrete([1.0], Q, U, num_test_iters=1))
    c.raises("test case of the wrong kind", (TypeError,), lambda: d.fit_regselect_discrete([1.0], Q, test_cases=[O.utils.ContinuousRegTest(Q[:, 0], t)]))


def cases(tier):
    import itertools
    th = tier == "thorough"
    sc = [.5, 1.0, 4.0, 10.0, 30.0]
    vc = [(.5, 1.0), (2.0, 1.0), (4.0, 3.0), (1.0, 8.0)]
    for n in range(1, 6 if th else 5):
        for pat in itertools.product("sin", repeat=n):
            pat = "".join(pat)
            if n == 4 and not th and pat.count("s") not in (0, 2, 4):
                continue
            if n == 5 and pat.count("s") not in (3, 5):
                continue
            yield f"grid-{pat}", search, dict(cands=sc[:n], pattern=pat, only=True)
    for n, perm in ((3, [2, 0, 1]), (4, [1, 3, 0, 2])):
        for pat in ("s" * n, "s" + "i" * (n - 2) + "s", "n" + "s" * (n - 1)):
            yield f"grid-perm-{pat}", search, dict(cands=[sc[i] for i in perm], pattern=pat, only=True)
            yield f"opt-perm-{pat}", search, dict(cands=[sc[i] for i in perm], pattern=pat, only=False, opt="first")
    for form in ("array", "column"):
        for pat in ("s", "sss", "isn", "ss"):
            yield f"grid-{form}-{pat}", search, dict(cands=sc[:len(pat)], pattern=pat, only=True, form=form)
            yield f"opt-{form}-{pat}", search, dict(cands=sc[:len(pat)], pattern=pat, only=False, form=form, opt="second")
    yield "grid-scalar", search, dict(cands=sc[:1], pattern="s", only=True, form="scalar")
    yield "opt-scalar", search, dict(cands=sc[:1], pattern="s", only=False, form="scalar", opt="first")
    for n in (1, 2, 3):
        for pat in itertools.product("sin", repeat=n):
            pat = "".join(pat)
            if "s" not in pat:
                continue
            for opt, ok in (("first", True), ("second", True), ("first", False)):
                yield f"opt-{pat}-{opt}-{ok}", search, dict(cands=sc[:n], pattern=pat, only=False, opt=opt, ok=ok)
    for n in (1, 2, 3, 4):
        pats = ["s" * n] + (["i" + "s" * (n - 1), "s" * (n - 1) + "n"] if n > 1 else ["i"])
        for pat in pats:
            for only, opt, ok in ((True, None, True), (False, "first", True), (False, "second", True), (False, "second", False)):
                if "s" in pat or only:
                    yield f"vec-{pat}-{only}-{opt}-{ok}", search, dict(cands=vc[:n], pattern=pat, only=only, opt=opt, ok=ok)
    D = dict(cands=[.5, 2.0], ks=(3,))
    yield "disc-1", discrete, dict(D, form="array")
    yield "disc-1-list", discrete, dict(D)
    yield "disc-unsorted", discrete, dict(D, cands=[2.0, .5])
    yield "disc-3", discrete, dict(D, cands=[.5, 2.0, 8.0])
    yield "disc-2traj", discrete, dict(D, ks=(3, 4))
    yield "disc-long", discrete, dict(D, ks=(4,))
    yield "disc-horizon", discrete, dict(D, horizon=1)
    yield "disc-horizon-2traj", discrete, dict(D, ks=(3, 3), horizon=1)
    yield "disc-margin", discrete, dict(D, margin=1.25, horizon=1)
    yield "disc-input", discrete, dict(D, kinds=("Linear", "Input"), m=1)
    yield "disc-input-1", discrete, dict(D, kinds=("Linear", "Input"), m=1, form="array", horizon=1)
    yield "disc-const", discrete, dict(D, kinds=("Constant", "Linear"))
    yield "disc-test", discrete, dict(D, tests=1, bound=2.0)
    yield "disc-test-nobound", discrete, dict(D, tests=2)
    yield "disc-test-2", discrete, dict(D, tests=2, bound=1.0)
    yield "disc-test-input", discrete, dict(D, tests=1, bound=1.0, kinds=("Linear", "Input"), m=1)
    yield "disc-factory", discrete, dict(D, factory="pair")
    yield "disc-vector", discrete, dict(D, cands=[(1.0, 2.0), (3.0, .5)], factory="sum")
    yield "disc-twice", discrete, dict(D, twice=True)
    for ti in ("shift", "cen", "scale"):
        yield f"disc-{ti}", discrete, dict(D, tf=TF[ti], tests=1, bound=1.5)
        yield f"disc-{ti}-basis", discrete, dict(D, tf=TF[ti], basis="fit", n=2, r=1, tests=1, bound=1.5)
    yield "disc-linear", discrete, dict(D, basis="linear", n=2, r=1)
    yield "disc-lift", discrete, dict(D, lift="quad", basis="fit", n=1, r=1, tests=1, bound=1.5)
    yield "disc-r2", discrete, dict(D, n=2, r=2)
    C = dict(cands=[.5, 2.0], ks=(3,))
    yield "cont-1", continuous, dict(C, form="array")
    yield "cont-1-list", continuous, dict(C)
    yield "cont-3", continuous, dict(C, cands=[2.0, .5, 8.0])
    yield "cont-2traj", continuous, dict(C, ks=(2, 3))
    yield "cont-horizon", continuous, dict(C, horizon=1.0)
    for x in (.3, .7, 1.2):
        yield f"cont-horizon-{x}", continuous, dict(C, horizon=x)
    yield "cont-horizon-margin", continuous, dict(C, horizon=.5, margin=1.5)
    yield "cont-est", continuous, dict(C, ddts=False)
    yield "cont-input", continuous, dict(C, kinds=("Linear", "Input"), m=1)
    yield "cont-test", continuous, dict(C, tests=1, bound=2.0)
    yield "cont-test-nobound", continuous, dict(C, tests=1)
    yield "cont-factory", continuous, dict(C, factory="pair")
    yield "cont-vector", continuous, dict(C, cands=[(1.0, 2.0), (3.0, .5)], factory="sum")
    for ti in ("shift", "cen"):
        yield f"cont-{ti}", continuous, dict(C, tf=TF[ti], tests=1, bound=1.5)
        yield f"cont-{ti}-basis", continuous, dict(C, tf=TF[ti], basis="fit", n=2, r=1, ks=(2,) if ti == "shift" else (2, 3))
    for i, o in itertools.product((0, 1), ("short", "nan")):
        yield f"cont-{o}-{i}", continuous, dict(C, outcome=((i, o),))
        yield f"cont-horizon-{o}-{i}", continuous, dict(C, outcome=((i, o),), horizon=1.0)
        yield f"cont-test-{o}-{i}", continuous, dict(C, outcome=((i, o + "9"),), tests=1)
    yield "cont-none", continuous, dict(C, outcome=((0, "short"), (1, "nan")))
    yield "cont-none-2", continuous, dict(C, outcome=((0, "nan"), (1, "nan")), horizon=1.0)
    for f in (True, False):
        yield f"followup-{f}", followup, dict(only_first=f)
        yield f"followup-cont-{f}", followup, dict(only_first=f, cont=True)
    yield "disc-horizon-uneven", discrete, dict(D, ks=(3, 4), horizon=1)
    yield "disc-horizon-uneven2", discrete, dict(D, ks=(4, 3), horizon=2)
    for kind in ("discrete", "continuous"):
        for fam in ("affine", "interp"):
            P = dict(kind=kind, fam=fam)
            yield f"par-{kind}-{fam}", parametric, P
            yield f"par-{kind}-{fam}-uneven", parametric, dict(P, ks=(3, 4) if kind == "discrete" else (2, 3))
            yield f"par-{kind}-{fam}-test", parametric, dict(P, tests=2, bound=1.5)
            yield f"par-{kind}-{fam}-horizon", parametric, dict(P, horizon=1, margin=2.0)
            yield f"par-{kind}-{fam}-input", parametric, dict(P, m=1, tests=1, bound=2.0)
            yield f"par-{kind}-{fam}-shift", parametric, dict(P, tf=TF["shift"], tests=1, bound=1.5)
    for s in ("TikhonovSolver", "TikhonovDecoupledSolver", "L2DecoupledSolver"):
        yield f"redo-{s}", redo, dict(solver=s)
    yield "guards", guards, {}
