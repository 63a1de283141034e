"""C25: results never depend on an object's earlier history."""

import itertools

from checks import objs, c22, c23, preutil
from checks.objs import Data, quiet, same
from checks.c19 import Stages, bare_model
from checks.c23 import frozen

BOUNDS = ("histories of up to three earlier fits, settings or queries with data of other values, sizes (n<=4, r<=2, m<=2) and lengths, followed by one with the given data, for "
          "operators (dense and sparse), affine and interpolated operators, discrete, continuous and interpolated models (recording solver and every real solver), all transformers "
          "and their combinations, linear/POD/multi bases, all solvers, time-derivative estimators and reduced-order models; compared with a fresh object; all real contents")
OUTSIDE = ("longer histories; the parameter dimension of an affine operator (fixed by its first evaluation, by design); the reduced dimension chosen by hand on a fitted basis "
           "lasts until the next fit, by design; the integrator; larger arrays")


def twice(c, label, obs, x, want):
    """The observations of x are those wanted, and observing changes nothing."""
    same(c, label, want, obs(x))
    same(c, f"{label}, asked again", want, obs(x))


# -- operators --------------------------------------------------------------------------------
def op(c, kind, hist, last, how):
    """hist, last: (r, m, layout)"""
    D = Data(c)
    shape = lambda r, m: objs.entry_shape(c, kind, r, m)
    r, m, lay = last

    def put(o, i, r, m, lay):
        E = objs.layout_of(c, D.real(f"E{i}", shape(r, m)), lay)
        if how == "property":
            o.entries = E
        else:
            o.set_entries(E)

    obs = lambda x: objs.op_obs(c, D, x, kind, r, m, "l")
    fresh = objs.build_op(c, D, kind, r, m, None)
    put(fresh, "l", *last)
    want = frozen(obs(fresh))
    o = objs.build_op(c, D, kind, r, m, None)
    for i, h in enumerate(hist):
        if h == "clear":
            o._clear()
            continue
        put(o, i, *h)
        objs.op_obs(c, D, o, kind, h[0], h[1], str(i))
        if len(hist) > 1 and h[2] == "dense":
            if not kind.startswith("Poly"):
                o.galerkin(c.eye(h[0]), c.eye(h[0]))
            o.copy()
            str(o)
    put(o, "l", *last)
    twice(c, "the operator", obs, o, want)


def affine(c, kind, nt, la, lb, r1, r2):
    D = Data(c)
    shape = lambda r: objs.entry_shape(c, kind, r, 1)
    cls = getattr(c.op.operators, f"Affine{kind}Operator")
    make = lambda: cls([objs.theta(i) for i in range(nt)])

    def put(o, r, lay, tag):
        lays = {"mixed": ["dense", "csr"]}.get(lay, [lay])
        o.set_entries([objs.layout_of(c, D.real(f"{tag}{i}", shape(r)), lays[i % len(lays)]) for i in range(nt)])

    obs = lambda x: [o for o in objs.par_obs(c, D, x, kind, r2, 1)]
    fresh = make()
    fresh.parameter_dimension = 2
    put(fresh, r2, lb, "F")
    want = frozen(obs(fresh))
    a = make()
    put(a, r1, la, "E")
    a.evaluate(D.real("mu1", (2,)))
    a.evaluate(D.real("mu2", (2,)))
    put(a, r2, lb, "F")
    twice(c, "the operator", obs, a, want)


def interp(c, kind, ics, pts="1", s=4):
    """Interpolators set one after the other."""
    D = Data(c)
    sp = c.interpolate
    obs = lambda x: objs.par_obs(c, D, x, kind, 1, 1)
    fresh = objs.build_interp(c, D, kind, 1, 1, pts, "dense", ics[-1], s)
    want = frozen(obs(fresh))
    a = objs.build_interp(c, D, kind, 1, 1, pts, "dense", ics[0], s)
    for ic in ics[1:]:
        obs(a)
        a.set_interpolator(getattr(sp, objs.IC[ic]))
    twice(c, "the operator", obs, a, want)


# -- models -------------------------------------------------------------------------------------
def fit(c, D, M, tag, r, m, k):
    Q, Z = D.real("Q" + tag, (r, k)), D.real("Y" + tag, (r, k))
    return quiet(lambda: M.fit(Q, Z, D.real("U" + tag, (m, k))) if M._has_inputs else M.fit(Q, Z))


class Answer(objs.Probe):
    """A recording solver whose answer depends on its present data only."""

    def solve(self):
        return self.D.real(f"O{self.Z.shape[0]}_{self.A.shape[1]}", (self.Z.shape[0], self.A.shape[1])) * self.A[0, 0] + self.Z[0, 0]

    def copy(self):
        new = Answer(self.c, self.D, self.log)
        new.__dict__.update(self.__dict__)
        return new


def model(c, cls, ops, hist, last):
    """hist: steps (a size (r, m, k), 'solver', 'ops', 'copy', 'predict'); last: a size"""
    D = Data(c)
    r, m, k = last
    make = lambda: objs.build_model(c, D, cls, ops, r, m)
    obs = lambda x: [o for o in objs.model_obs(c, D, x, cls, r, m, refit=False)] + [("matrix", x.operator_matrix), ("names", names(x))]
    fresh = make()
    fresh.solver = Answer(c, D)
    fit(c, D, fresh, "l", r, m, k)
    want = frozen(obs(fresh))
    M = make()
    M.solver = Answer(c, D)
    for i, h in enumerate(hist):
        if h == "solver":
            M.solver = Answer(c, D)
        elif h == "operators":
            M.operators = [objs.build_op(c, D, "Constant", r, m, None), objs.build_op(c, D, "Input", r, m, None)]
            fit(c, D, M, f"o{i}", 2, 2, 3)
            M.operators = [objs.build_op(c, D, kd, r, m, lay, f"E{j}") for j, (kd, lay) in enumerate(ops)]
        elif h == "copy":
            M.copy()
        elif h == "refit":
            M.refit()
        else:
            fit(c, D, M, str(i), *h)
            objs.model_obs(c, Data(c, f"h{i}"), M, cls, h[0], h[1], refit=False)
    fit(c, D, M, "l", r, m, k)
    twice(c, "the model", obs, M, want)
    M.refit()
    twice(c, "the model after refit()", obs, M, want)


def names(M):
    return [a for a in ("c_", "A_", "H_", "G_", "B_", "N_") if getattr(M, a) is not None]


def refused(c, cls, ops, what):
    """A refused call between two fits."""
    D = Data(c)
    r, m, k = 2, 1, 2
    make = lambda: objs.build_model(c, D, cls, ops, r, m)
    obs = lambda x: objs.model_obs(c, D, x, cls, r, m, refit=False)
    M = make()
    M.solver = Answer(c, D)
    fit(c, D, M, "l", r, m, k)
    want = frozen(obs(M))
    Q, Z = D.real("Qx", (r, k)), D.real("Yx", (r, k + 1))
    try:
        quiet(lambda: M.fit(Q, Z, D.real("Ux", (m, k))) if M._has_inputs else M.fit(Q, Z))
    except Exception:
        pass
    fit(c, D, M, "l", r, m, k)
    twice(c, "the model", obs, M, want)


def solved(c, cls, which, again):
    """A model with a real solver: fitted, regularised otherwise, refitted."""
    D = Data(c)
    r = 1
    obs = lambda x: objs.model_obs(c, D, x, cls, r, 1, refit=False)
    make = lambda: getattr(c.op.models, cls)([c.op.operators.LinearOperator()], solver=objs.build_solver(c, D, which, 1, 1))
    A1, Z1 = objs.solver_data(c, D, which, 2, 1, 1, "one")
    A2, Z2 = objs.solver_data(c, D, which, 3 if which not in ("l2", "l2d") else 2, 1, 1, "two")
    lam2 = {"l2": lambda: D.real("lam2", (), "pos"), "l2d": lambda: D.real("lamd2", (1,), "pos"), "tik": lambda: D.real("G2", (1, 1)), "tikd": lambda: [D.real("G2", (1, 1))]}.get(which)
    if which.startswith("tik"):
        for G in (D.real("G2", (1, 1)), D.real("G" if which == "tik" else "G0", (1, 1))):
            for A in (A1, A2):
                c.assume((A.T @ A + G.T @ G)[0, 0] >= .01)
    fresh = make()
    if again == "regularizer" and lam2:
        fresh.solver.regularizer = lam2()
    quiet(lambda: fresh.fit(A2.T, Z2))
    want = frozen(obs(fresh))
    M = make()
    quiet(lambda: M.fit(A1.T, Z1))
    obs(M)
    if again == "regularizer" and lam2:
        M.solver.regularizer = lam2()
        quiet(lambda: M.refit())
        obs(M)
    quiet(lambda: M.fit(A2.T, Z2))
    twice(c, "the model", obs, M, want)
    if again == "regularizer" and lam2:
        first = objs.build_solver(c, D, which, 1, 1).regularizer
        M.solver.regularizer = first
        quiet(lambda: M.refit())
        M.solver.regularizer = lam2()
        quiet(lambda: M.refit())
        twice(c, "the model after going through another regulariser", obs, M, want)


def pmodel(c, cls, fam, kinds, known, hist, pts="1"):
    """hist: (number of parameters, k) of the earlier fits; the last fit has (3, 2)"""
    D = Data(c)
    r, m = 1, 1
    make = lambda: objs.build_pmodel(c, D, cls, fam, kinds, r, m, "dense", None, known, pts)
    obs = lambda x: objs.pmodel_obs(c, D, x, cls, fam, r, m, refit=False, pts=pts)

    def go(M, tag, s, k, r=r):
        P = objs.POINTS["2" if fam == "affine" else pts]
        mus = P[:s] if tag == "l" or known else P[::-1][:s]
        f = lambda a, n: [D.real(f"{a}{tag}{i}", (n, k)) for i in range(s)]
        quiet(lambda: M.fit(mus, f("Q", r), f("Y", r), f("U", m) if M._has_inputs else None))

    fresh = make()
    fresh.solver = Answer(c, D)
    go(fresh, "l", 3, 2)
    want = frozen(obs(fresh))
    M = make()
    M.solver = Answer(c, D)
    for i, (s, k, rr) in enumerate(hist):
        go(M, str(i), s, k, rr)
        objs.pmodel_obs(c, Data(c, f"h{i}"), M, cls, fam, rr, m, refit=False, pts=pts)
    go(M, "l", 3, 2)
    twice(c, "the model", obs, M, want)
    M.refit()
    twice(c, "the model after refit()", obs, M, want)


# -- transformers ----------------------------------------------------------------------------------
def tf(c, spec, ns, n):
    """Fitted to data of ns[0], ns[1], ... rows, finally to n rows"""
    D = Data(c)
    T = objs.build_tf(c, D, spec, n, False)
    F = objs.build_tf(c, D, spec, n, False)
    Q = D.real("Q", (n, 2))
    S = objs.Shape(c, D, spec, n, "T")
    preutil.admit(c, S, Q.copy())
    for i, ni in enumerate(ns):
        H = D.real(f"H{i}", (ni, 2 + i))
        Si = objs.Shape(c, D, spec, ni, "T")
        preutil.admit(c, Si, H.copy())
        quiet(lambda: T.fit(H.copy()))
        objs.tf_obs(c, Data(c, f"h{i}"), T, ni, True)
        T.fit_transform(H.copy())
    obs = lambda x: objs.tf_obs(c, D, x, n, True)
    quiet(lambda: F.fit(Q.copy()))
    want = frozen(obs(F))
    quiet(lambda: T.fit(Q.copy()))
    twice(c, "the transformer", obs, T, want)
    if spec[0] == "ss":
        c.true("equal", bool(T == F))


# -- bases -----------------------------------------------------------------------------------------
CRITS = {"n1": (("num_vectors", 1),), "n2": (("num_vectors", 2),), "n3": (("num_vectors", 3),), "r1": "r1", "r2": "r2", "r3": "r3", "e": (("cumulative_energy", .75),), "s": (("svdval_threshold", .5),), "p": (("projection_error", .04),),
         "q": (("residual_energy", .3),)}


def ask(B, crit):
    if isinstance(crit, str):
        B.reduced_state_dimension = int(crit[1])
    else:
        B.set_dimension(**dict(crit))


def dims(c, hist, last, weights):
    """Dimensions asked for one after the other."""
    D = Data(c)
    c.opt("assume_close", True)
    make = lambda: objs.build_basis(c, D, "podr", 3, 2, weights, None, (("num_vectors", 2),), 3)
    obs = lambda x: objs.basis_obs(c, D, x, 3, 2)
    fresh = make()
    quiet(lambda: ask(fresh, CRITS[last]))
    want = frozen(obs(fresh))
    B = make()
    for h in hist:
        quiet(lambda: ask(B, CRITS[h]))
    quiet(lambda: ask(B, CRITS[last]))
    twice(c, "the basis", obs, B, want)


def podfit(c, n, hist, last, weights, solver, crit, first=None):
    """Fitted to data of sizes hist (n, k), then last; first: the solver set at construction."""
    from checks import c16
    np = c.np
    c.opt("exact_close", True)
    D = Data(c)
    warg = W = None
    if weights:
        warg = c.real("w", (n,), "pos")
        for x in warg:
            c.assume(x >= .1)
        W = np.diag(warg)
        om = np.sqrt(warg)
    datas = [c16.factor(c, nn, k, weights, solver, str(i)) for i, (nn, k) in enumerate(list(hist) + [last])]
    unw = (lambda X: X / om[:, None]) if weights else (lambda X: X)
    full = [(U, Vf, V, s, core, unw(core), unw(U)) for U, Vf, V, s, core in datas]
    c16.register(c, solver, full, W)
    mk = lambda s: quiet(lambda: c.op.basis.PODBasis(svdsolver=s, weights=None if warg is None else warg.copy(), **dict(crit)))
    B, F = mk(first or solver), mk(solver)
    if first:
        B.svdsolver = solver
    obs = lambda x: objs.basis_obs(c, D, x, last[0], int(x.reduced_state_dimension))
    quiet(lambda: F.fit(full[-1][5].copy()))
    want = frozen(obs(F))
    for d in full[:-1]:
        quiet(lambda: B.fit(d[5].copy()))
        B.compress(d[5])
    quiet(lambda: B.fit(full[-1][5].copy()))
    same(c, "the basis", want, obs(B))


# -- solvers ------------------------------------------------------------------------------------------
def solver(c, which, d1, r1, d2, r2, step):
    D = Data(c)
    k = 3
    A2, Z2 = objs.solver_data(c, D, which, k, d2, r2, "two")
    A1, Z1 = objs.solver_data(c, D, which, k, d1, r1, "one")
    same_size = (d1, r1) == (d2, r2)
    regs = {"l2": lambda t, d, r: D.real("lam" + t, (), "pos"), "l2d": lambda t, d, r: D.real("lam" + t + str(r), (r,), "pos"), "tik": lambda t, d, r: D.real(f"G{t}{d}", (d, d)),
            "tikd": lambda t, d, r: [D.real(f"G{t}{d}{i}", (d, d)) for i in range(r)]}.get(which)
    bare = {"l2": "l2none", "l2d": "l2dnone", "tik": "tiknone", "tikd": "tikdnone"}.get(which, which)
    make = lambda: objs.build_solver(c, D, bare, d2, r2)
    if which.startswith("tik"):
        for t, A, d, r in (("one", A1, d1, r1), ("two", A2, d2, r2)):
            for G in ([regs(t, d, r)] if which == "tik" else regs(t, d, r)):
                for B in (A1, A2) if same_size else (A,):
                    M = B.T @ B + G.T @ G
                    c.assume(M[0, 0] >= .01)
                    c.assume((M[0, 0] if d == 1 else M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]) >= .01)
    obs = lambda S: objs.solver_obs(c, D, S, which, d2, r2)
    F = make()
    quiet(lambda: F.fit(A2.copy(), Z2.copy()))
    if regs:
        F.regularizer = regs("two", d2, r2)
    if which == "tsvd" and step == "modes":
        F.num_svdmodes = 1
    want = frozen(obs(F))
    S = make()
    quiet(lambda: S.fit(A1.copy(), Z1.copy()))
    if regs and step != "none":
        S.regularizer = regs("one", d1, r1)
        S.solve()
        S.residual(D.real(f"X{r1}{d1}", (r1, d1)))
    if which == "tsvd" and step == "modes":
        S.num_svdmodes = 2
        S.solve()
        S.num_svdmodes = 1
    if step == "reset" or regs and not same_size:
        S.reset()
        c.true("reset", S.data_matrix is None and S.k is None and S.d is None and S.r is None)
    if step == "method" and which.startswith("tik"):
        S.method = "lstsq"
        S.method = "normal"
    if step == "before" and regs and same_size:
        S.regularizer = regs("two", d2, r2)
    quiet(lambda: S.fit(A2.copy(), Z2.copy()))
    if regs and not (step == "before" and same_size):
        S.regularizer = regs("two", d2, r2)
    twice(c, "the solver", obs, S, want)


# -- time-derivative estimators and reduced-order models -----------------------------------------------
def ddt(c, which, kt):
    np = c.np
    D = Data(c)
    t = np.arange(kt) * .25 if "Uniform" in which else np.array([0, .1, .3, .4, .8, 1.0, 1.5, 1.6][:kt])
    cls = getattr(c.op.ddt, which)
    kw = {} if which != "InterpDerivativeEstimator" else {"InterpolatorClass": "pchip"}
    a, b = cls(t, **kw), cls(t, **kw)
    H, G = D.real("H", (3, kt)), D.real("G", (2, kt))
    S, U = D.real("S", (2, kt)), D.real("U", (1, kt))
    want = frozen([(str(i), x) for i, x in enumerate(b.estimate(S, U))])
    a.estimate(H, G)
    a.estimate(G)
    twice(c, "the estimate", lambda x: [(str(i), y) for i, y in enumerate(x.estimate(S, U))], a, want)


def rom(c, lift, tfs, basis, cls, n, r, hist):
    """hist: numbers of snapshots of earlier fits ('p': predicted, 's': frozen stages)"""
    D = Data(c)
    A, B = Stages(c, lift, tfs, basis, n, r), None
    make = lambda S, which: quiet(lambda: c.op.ROM(getattr(c.op.models, cls)([c.op.operators.LinearOperator()], solver=Answer(c, D)), lifter=getattr(A, "L" + which), transformer=getattr(A, "T" + which), basis=getattr(A, "B" + which)))
    one, two = make(A, "1"), make(A, "2")
    Q = D.real("Q", (n, 2))
    L = [D.real("dQ", (n, 2))] if cls == "ContinuousModel" else None
    up = A.up

    def go(R, Q, L):
        if tfs is not None:
            preutil.admit(c, A.m1, up(Q).copy())
        quiet(lambda: R.fit([Q], lhs=L) if cls == "ContinuousModel" else R.fit([Q]))

    rr = r if basis else A.N
    x, z = D.real("x", (n, 2)), D.real("z", (rr, 2))

    def obs(R):
        out = [("entries", R.model.operators[0].entries), ("encode", R.encode(x)), ("decode", R.decode(z)), ("project", R.project(x))]
        if cls == "DiscreteModel":
            out.append(("predict", R.predict(x[:, 0], 2)))
        return out

    go(two, Q, L)
    want = frozen(obs(two))
    for i, k in enumerate(hist):
        H = D.real(f"H{i}", (n, k))
        go(one, H, [D.real(f"dH{i}", (n, k))] if cls == "ContinuousModel" else None)
        obs(one)
    go(one, Q, L)
    twice(c, "the reduced-order model", obs, one, want)


def cases(tier):
    big = tier == "thorough"
    for kind in c22.KINDS:
        hists = [[(1, 1, "dense")], [(2, 1, "dense")], [(2, 2, "dense"), (1, 1, "dense")], [(2, 1, "dense"), "clear"], [(2, 1, "csr")]]
        if big:
            hists += [[(3, 2, "dense"), (2, 1, "dense"), (1, 2, "dense")], [(2, 1, "csr"), (2, 1, "dense")]]
        for i, h in enumerate(hists):
            for last in ((2, 1, "dense"), (1, 2, "dense"), (2, 1, "csr")):
                if any(x[2] == "csr" for x in h + [last] if x != "clear") and kind != "Linear":
                    continue
                if not big and kind in ("Quartic", "Poly3", "Poly1") and i > 1:
                    continue
                if kind in ("Cubic", "Quartic", "Poly3") and any(x != "clear" and x[0] > 2 for x in h):
                    continue
                for how in ("set", "property") if i < 2 else ("set",):
                    yield f"operator:{kind}:{i}:{last}:{how}", op, dict(kind=kind, hist=h, last=last, how=how)
    for kind in c22.KINDS[:6]:
        for nt, la, lb, r1, r2 in ((2, "dense", "dense", 2, 2), (2, "dense", "dense", 1, 2), (2, "dense", "dense", 2, 1), (2, "dense", "mixed", 2, 2), (1, "csr", "dense", 2, 2)):
            if kind == "Constant" and (la != "dense" or lb != "dense"):
                continue
            yield f"affine:{kind}:{nt}:{la}:{lb}:{r1}:{r2}", affine, dict(kind=kind, nt=nt, la=la, lb=lb, r1=r1, r2=r2)
        for ics in (("cubic", "pchip"), ("pchip", "cubic"), ("pchip", "akima", "pchip")):
            yield f"interpolated:{kind}:{'+'.join(ics)}", interp, dict(kind=kind, ics=ics)
    OPS = {"A": [("Linear", None)], "cH": [("Constant", None), ("Quadratic", None)], "AB": [("Linear", None), ("Input", None)], "N": [("StateInput", None)], "A!B": [("Linear", "dense"), ("Input", None)],
           "A!H": [("Linear", "dense"), ("Quadratic", None)], "B!A": [("Input", "dense"), ("Linear", None)], "P2": [("Poly2", None)], "As!c": [("Linear", "csr"), ("Constant", None)]}
    for cls in ("ContinuousModel", "DiscreteModel"):
        for o, ops in OPS.items():
            fixed = any(lay for _, lay in ops)
            fixm = any(lay and "Input" in k for k, lay in ops)
            last = (2, 1, 2)
            H = [[(2, 1, 2)], [(2, 1, 3), "refit"], [(2, 1, 2), "copy", (2, 1, 1)], ["operators"], [(2, 1, 2), "solver"], [(2, 1, 2), "operators"]]
            if not fixm:
                H += [[(2, 2, 2)]]
            if not fixed:
                H += [[(1, 1, 2)], [(1, 2, 3), (2, 1, 2)], [(3, 1, 2)]] if o not in ("cH", "P2") or big else [[(1, 1, 2)]]
            for i, h in enumerate(H):
                yield f"{cls}:{o}:{i}", model, dict(cls=cls, ops=ops, hist=h, last=last)
            yield f"{cls}:{o}:refused", refused, dict(cls=cls, ops=ops, what="lhs")
        for which in ("plain", "l2", "l2d", "tik", "tikd", "tsvd", "total"):
            for again in ("fit", "regularizer") if which in ("l2", "l2d", "tik", "tikd") else ("fit",):
                yield f"{cls}:solver:{which}:{again}", solved, dict(cls=cls, which=which, again=again)
        for fam in ("affine", "interp"):
            for kinds in (("Linear",), ("Constant", "Linear"), ("Linear", "Input")):
                for known in ((), (0,)) if len(kinds) > 1 else ((),):
                    for i, h in enumerate(([(3, 2, 1)], [(3, 3, 1), (3, 1, 1)], [(4, 2, 1)], [(3, 2, 2)], [(4, 1, 2), (3, 2, 1)])):
                        if known and any(x[2] != 1 or fam == "interp" and x[0] != 3 for x in h):
                            continue
                        if cls == "DiscreteModel" and i not in (2, 4) and not big:
                            continue
                        for pts in ("1", "2") if fam == "interp" else ("1",):
                            yield f"{fam}{cls}:{''.join(k[0] for k in kinds)}:{known}:{i}:{pts}", pmodel, dict(cls=cls, fam=fam, kinds=kinds, known=known, hist=h, pts=pts)
    singles = [("null",), ("shift",), ("scale",), ("scalev",)] + list(c22.ss_all())
    for spec in singles:
        for ns, n in (((2,), 2), ((1,), 2), ((2,), 1), ((2, 2), 2)):
            if spec[0] in ("shift", "scalev") and any(x != n for x in ns):
                continue
            if not big and spec[0] == "ss" and (len(ns) == 2 or "norm" in str(spec[2]) and n == 1):
                continue
            yield f"transformer:{c22.tftag(spec)}:{ns}:{n}", tf, dict(spec=spec, ns=ns, n=n)
    a, b, d = ("ss", True, "maxabs", False), ("ss", True, None, False), ("ss", False, "minmax", False)
    for spec in (("multi", (a, d), None), ("multi", (("null",), b), None), ("multi", (b, d), (1, 3)), ("multi", (("scale",), a), None), ("pipe", (("scale",), b)), ("pipe", (a, d)), ("pipe", (b, ("scale",), d)),
                 ("pipe", (("multi", (b, d), None), ("scale",))), ("multi", (("pipe", (b, ("scale",))), d), None)):
        wide = 4 if spec[0] == "multi" or "multi" in str(spec) else 2
        for ns, n in (((wide,), wide), ((wide // 2,), wide), ((wide,), wide // 2), ((wide, wide), wide)):
            if any(x != wide for x in ns + (n,)) and "multi" in str(spec):
                continue
            if ns == (wide, wide) and not big and str(spec).count("ss") > 1:
                continue
            yield f"transformer:{c22.tftag(spec)}:{ns}:{n}", tf, dict(spec=spec, ns=ns, n=n)
    for weights in (None, "diag"):
        for hist, last in itertools.product((("n1",), ("r1",), ("r3", "n1"), ("e",), ("s", "r1"), ("n3", "p"), ("q",)), ("n2", "r2", "e", "s", "p", "q", "r3")):
            if not big and weights and (last in ("s", "p", "q") or hist[0] in ("q", "s")):
                continue
            yield f"dimension:{weights}:{'+'.join(hist)}:{last}", dims, dict(hist=hist, last=last, weights=weights)
    for solver_ in ("dense", "method-of-snapshots", "randomized") if big else ("dense", "method-of-snapshots"):
        for weights in (None, "diag"):
            for hist, last, crit in (([(2, 2)], (2, 1), (("num_vectors", 1),)), ([(2, 1)], (2, 2), (("num_vectors", 2),)), ([(2, 1), (2, 2)], (2, 2), (("num_vectors", 2), ("max_vectors", 2))), ([(3, 1)], (2, 2), (("num_vectors", 2),)), ([(2, 1)], (3, 2), (("num_vectors", 2),))):
                if weights and any(x[0] != 2 for x in hist + [last]):
                    continue
                if not big and len(hist) > 1:
                    continue
                yield f"pod:{solver_}:{weights}:{hist}:{last}", podfit, dict(n=2, hist=hist, last=last, weights=weights, solver=solver_, crit=crit)
    for first, then in (("method-of-snapshots", "dense"), ("dense", "method-of-snapshots")):
        for weights in (None, "diag"):
            yield f"pod:{first}:then:{then}:{weights}", podfit, dict(n=2, hist=[], last=(2, 2), weights=weights, solver=then, crit=(("num_vectors", 1),), first=first)
    for which in ("plain", "l2", "l2d", "tik", "tikd", "tsvd", "tsvdnone", "total"):
        for d1, r1, d2, r2 in ((1, 1, 1, 1), (2, 1, 1, 1), (1, 2, 1, 1), (1, 1, 2, 1), (2, 1, 2, 1)):
            if which == "total" and (d1 + r1 > 2 or d2 + r2 > 2):
                continue
            if which in ("l2", "l2d", "tsvd", "tsvdnone") and (d1, d2) == (2, 2) and not big:
                continue
            for step in {"plain": ("", "reset"), "tsvd": ("", "modes", "reset"), "tik": ("", "none", "method", "before"), "tikd": ("", "method", "before")}.get(which, ("", "before", "reset")):
                if step == "before" and (d1, r1) != (d2, r2):
                    continue
                if step == "modes" and min(d1, d2) < 2:
                    continue
                yield f"solver:{which}:{d1}{r1}:{d2}{r2}:{step}", solver, dict(which=which, d1=d1, r1=r1, d2=d2, r2=r2, step=step)
    for which in ("UniformFiniteDifferencer", "NonuniformFiniteDifferencer", "InterpDerivativeEstimator"):
        for kt in (6, 8):
            yield f"ddt:{which}:{kt}", ddt, dict(which=which, kt=kt)
    for cls in ("ContinuousModel", "DiscreteModel"):
        for lift, tfs, basis in ((None, None, "linear"), (None, ("ss", True, None, False), None), (None, None, "fit"), (None, ("ss", True, None, False), "fit"), ("quad", None, "fit"), (None, ("ss", True, "maxabs", False), "linear")):
            for hist in ((2,), (3,), (3, 2)):
                if tfs and tfs[2] and (len(hist) > 1 or hist != (2,)):
                    continue
                yield f"rom:{cls}:{lift}:{tfs}:{basis}:{hist}", rom, dict(lift=lift, tfs=tfs, basis=basis, cls=cls, n=2, r=1, hist=hist)
