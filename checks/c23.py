"""C23: copies are equal and independent; equality means equal content."""

import itertools

from checks import objs, c22
from checks.objs import Data, quiet, same

BOUNDS = ("copies: every object of the save/load catalogue that has copy() (nonparametric, affine and interpolated operators, models and interpolated models with known, set, "
          "fitted and unknown operators, all least-squares solvers, linear and POD bases), each changed afterwards through its setters, another fit and in-place changes of its "
          "arrays, on either side; equality: every pair of objects of a family over free real contents (r<=2), all real contents")
OUTSIDE = ("objects without copy() (transformers, multi-variable bases) or without == (affine operators, solvers, Shift/Scale/NullTransformer, pipelines); in-place changes of a "
           "solver's data matrices, which are held by reference by design; names and verbosity are labels, not compared; within tolerance: interpolated entries and dense "
           "weights are compared with numpy.allclose")


def frozen(obs):
    return [(k, v.copy() if hasattr(v, "copy") and hasattr(v, "shape") else v) for k, v in obs]


def independent(c, make, obs, muts, eq=True, cp=lambda x: x.copy()):
    """make() builds the object; muts lists (label, function) changing an object."""
    a = make()
    want = frozen(obs(a))
    b = quiet(lambda: cp(a))
    c.true("the copy is another object", b is not a)
    same(c, "the copy", want, obs(b))
    same(c, "the object copied", want, obs(a))
    if eq:
        c.true("the copy equals the original", bool(a == b) and bool(b == a) and not bool(a != b))
    same(c, "a copy of the copy", want, obs(quiet(lambda: cp(b))))
    for label, f in muts:
        quiet(lambda: f(b))
        same(c, f"the original after {label} of the copy", want, obs(a))
    b = quiet(lambda: cp(a))
    for label, f in muts:
        quiet(lambda: f(a))
        same(c, f"the copy after {label} of the original", want, obs(b))


def inplace(x):
    """Change an array in place."""
    if hasattr(x, "toarray"):
        if hasattr(x, "data") and getattr(x, "format", "") in ("csr", "csc", "coo", "dia", "bsr"):
            x.data[...] = 7.0
        return
    x[...] = 7.0


def set_inplace(o):
    if o.entries is None:
        return
    for E in o.entries if isinstance(o.entries, (list, tuple)) else [o.entries]:
        inplace(E)


# -- operators ---------------------------------------------------------------------------
def op(c, kind, r, m, layout, layout2):
    D = Data(c)
    make = lambda: objs.build_op(c, D, kind, r, m, layout)
    other = lambda: objs.layout_of(c, Data(c, "n").real("E", objs.entry_shape(c, kind, r, m)), layout or "dense")
    muts = [("changing the entries", set_inplace), ("setting the entries", lambda o: o.set_entries(other())), ("changing the entries again", set_inplace), ("clearing", lambda o: o._clear())]
    independent(c, make, lambda x: objs.op_obs(c, D, x, kind, r, m), muts)


def affine(c, kind, r, m, nt, layout, p):
    D = Data(c)
    make = lambda: objs.build_affine(c, D, kind, r, m, nt, layout, p)
    E = Data(c, "n")
    muts = [("changing the entries", set_inplace), ("setting the entries", lambda o: o.set_entries([E.real(f"E{i}", objs.entry_shape(c, kind, r, m)) for i in range(nt)])),
            ("evaluating", lambda o: o.evaluate(c.np.array([1.0] * (o.parameter_dimension or 2))) if p != "int" else None), ("changing the entries again", set_inplace)]
    obs = lambda x: [o for o in objs.par_obs(c, D, x, kind, r, m) if p != "int" or not o[0].startswith("at mu")] if p != "int" else plain_affine(x)
    independent(c, make, obs, muts, eq=False)


def plain_affine(x):
    return [("class", type(x).__name__), ("terms", x.nterms), ("set", x.entries is not None)] + [(f"entries {i}", objs.dense(E)) for i, E in enumerate(x.entries or ())]


def interp(c, kind, r, m, pts, layout, ic, s):
    D = Data(c)
    make = lambda: objs.build_interp(c, D, kind, r, m, pts, layout, ic, s)
    other = lambda o: o.set_entries([Data(c, "n").real(f"E{i}", objs.entry_shape(c, kind, r, m)) for i in range(s)])
    muts = [("changing the entries", set_inplace)]
    if pts is not None:
        muts += [("changing the training parameters", lambda o: inplace(o.training_parameters) if o.training_parameters is not None and o.training_parameters.flags.writeable else None), ("clearing", lambda o: o._clear())]
    else:
        muts += [("giving training parameters", lambda o: o.set_training_parameters([1.0, 2.0, 3.0])), ("setting the entries", other)]
    independent(c, make, lambda x: objs.par_obs(c, D, x, kind, r, m), muts)


# -- models --------------------------------------------------------------------------------
def model(c, cls, ops, r, m, solver, fit, sizes):
    D = Data(c)
    make = lambda: objs.build_model(c, D, cls, ops, r, m, solver, fit, sizes)
    E = Data(c, "n")
    muts = []
    if not all(lay for _, lay in ops) and solver is None:
        def again(M):
            M.solver = objs.Probe(c, E)
            objs.fit_model(c, E, M, cls, r, m, "n")
        muts.append(("fitting", again))
    muts += [("changing the entries", lambda M: [set_inplace(o) for o in M.operators])]
    if solver in ("l2", "tik", "tikd", "l2d", "tsvd") and not all(lay for _, lay in ops):
        muts.append(("resetting the solver", lambda M: M.solver.reset() if M.solver else None))
    if sizes is None and not fit and not any(lay for _, lay in ops):
        muts.append(("setting the dimension", lambda M: setattr(M, "state_dimension", r + 1) if M.operators[0].entries is None else None))
    independent(c, make, lambda x: objs.model_obs(c, D, x, cls, r, m, refit=False), muts)
    a = make()
    b = quiet(lambda: a.copy())
    if fit == "real":
        quiet(lambda: b.refit())
        same(c, "the copy after refit()", frozen(objs.model_obs(c, D, b, cls, r, m, refit=False)), objs.model_obs(c, D, quiet(lambda: (make().refit())), cls, r, m, refit=False))
    same(c, "the copy after a fit", objs.model_obs(c, D, make(), cls, r, m), objs.model_obs(c, D, b, cls, r, m))


def pmodel(c, cls, kinds, r, m, ic, known, pts, solver, mic, fam="interp", fit=False, sizes=None):
    D = Data(c)

    def make():
        M = objs.build_pmodel(c, D, cls, fam, kinds, r, m, "dense", ic, known, pts, solver, mic, sizes)
        return fitted(M, D) if fit else M

    E = Data(c, "n")

    def fitted(M, D2):
        M.solver = objs.Probe(c, D2)
        s = 3
        Qs, Zs = [D2.real(f"Qf{i}", (r, 2)) for i in range(s)], [D2.real(f"Yf{i}", (r, 2)) for i in range(s)]
        Us = [D2.real(f"Uf{i}", (m, 2)) for i in range(s)] if M._has_inputs else None
        quiet(lambda: M.fit(objs.POINTS["2" if fam == "affine" else pts][:s], Qs, Zs, Us))
        return M

    muts = [("changing the entries", lambda M: [set_inplace(o) for o in M.operators])]
    if not (known is None) and solver is None:
        muts.append(("fitting", lambda M: fitted(M, E)))
        muts.append(("changing the entries again", lambda M: [set_inplace(o) for o in M.operators]))
    if fam == "interp":
        muts.append(("changing the interpolator", lambda M: M.set_interpolator(getattr(c.interpolate, "NearestNDInterpolator" if pts == "2" else "PchipInterpolator" if ic != "pchip" and mic != "pchip" else "Akima1DInterpolator"))))
    independent(c, make, lambda x: objs.pmodel_obs(c, D, x, cls, fam, r, m, refit=False, pts=pts), muts, eq=fam == "interp")
    a = make()
    b = quiet(lambda: a.copy())
    if fit and fam == "interp":
        log = len(getattr(a.solver, "log", ()))
        x, y = quiet(lambda: a.refit()), quiet(lambda: b.refit())
        same(c, "the copy after refit()", objs.pmodel_obs(c, D, x, cls, fam, r, m, refit=False, pts=pts), objs.pmodel_obs(c, D, y, cls, fam, r, m, refit=False, pts=pts))
    same(c, "the copy after a fit", objs.pmodel_obs(c, D, a, cls, fam, r, m, pts=pts), objs.pmodel_obs(c, D, b, cls, fam, r, m, pts=pts))


# -- bases -----------------------------------------------------------------------------------
def basis(c, kind, n, r, weights, name, crit, full, extra=None):
    D = Data(c)
    c.opt("assume_close", True)

    def make():
        B = objs.build_basis(c, D, kind, n, r, weights, name, crit, full)
        if extra is not None:
            B.reduced_state_dimension = extra
        return B

    muts = []
    if kind != "linear":
        muts.append(("changing the dimension", lambda B: B.set_dimension(num_vectors=1 if B.reduced_state_dimension > 1 else (B.max_vectors if B.max_vectors < n else n))))
        muts.append(("asking for another dimension", lambda B: setattr(B, "reduced_state_dimension", 1)))
        muts.append(("changing the name", lambda B: setattr(B, "name", "new")))
        muts.append(("changing the singular values", lambda B: inplace(B.svdvals)))
    muts.append(("changing the entries", lambda B: inplace(B.entries)))
    if weights is not None:
        muts.append(("changing the weights", lambda B: inplace(B.weights)))
    independent(c, make, lambda x: objs.basis_obs(c, D, x, n, r), muts)


# -- solvers ---------------------------------------------------------------------------------
def solver(c, which, d, r, fitted, opts):
    D = Data(c)
    make = lambda: objs.build_solver(c, D, which, d, r, fitted, opts=opts)
    E = Data(c, "n")
    muts = []
    if which.startswith("tikd") and not which.startswith("tikdiag"):
        muts.append(("changing the regulariser in place", lambda S: [inplace(G) for G in S.regularizer or ()]))
    elif which.startswith("tik") or which.startswith("l2d"):
        muts.append(("changing the regulariser in place", lambda S: inplace(S.regularizer) if S.regularizer is not None else None))
    if which.startswith("l2d"):
        muts.append(("changing the regulariser", lambda S: setattr(S, "regularizer", c.np.array([3.0] * r))))
    elif which.startswith("l2"):
        muts.append(("changing the regulariser", lambda S: setattr(S, "regularizer", 3.0)))
    elif which.startswith("tikd") and not which.startswith("tikdiag"):
        muts.append(("changing the regulariser", lambda S: setattr(S, "regularizer", [c.eye(d)] * r)))
        muts.append(("changing the method", lambda S: setattr(S, "method", "lstsq")))
    elif which.startswith("tik"):
        muts.append(("changing the regulariser", lambda S: setattr(S, "regularizer", c.eye(d))))
        muts.append(("changing the method", lambda S: setattr(S, "method", "lstsq")))
    elif which.startswith("tsvd"):
        muts.append(("changing the number of modes", lambda S: setattr(S, "num_svdmodes", 1 if d == 2 and S.num_svdmodes != 1 else d)))
    if which in ("plain", "tik", "tikd") and not dict(opts).get("method"):
        A2, Z2 = E.real("A", (3, d)), E.real("Z", (r, 3))
        muts.append(("fitting", lambda S: S.fit(A2.copy(), Z2.copy())))
    muts.append(("resetting", lambda S: S.reset()))
    independent(c, make, lambda x: objs.solver_obs(c, D, x, which, d, r), muts, eq=False)
    if which.startswith("tsvd") and fitted:  # the requested number of modes matters again for larger data
        S = make()
        new = S.copy()
        A, Z = objs.solver_data(c, D, which, 4, 3, r, "next")
        for x in (S, new):
            quiet(lambda: x.fit(A.copy(), Z.copy()))
        same(c, "the copy after another fit", *[objs.solver_obs(c, D, x, which, 3, r) for x in (S, new)])


# -- equality ---------------------------------------------------------------------------------
def differ(c, label, X, Y):
    """Some entry differs."""
    np = c.np
    X, Y = np.asarray(objs.dense(X)), np.asarray(objs.dense(Y))
    c.true(label, np.any(X != Y))


def agree(c, x, y, pairs, close=False):
    """x == y exactly when all pairs of arrays agree."""
    got = bool(x == y)
    if not close:
        c.true("== is symmetric", bool(y == x) == got)
    c.true("!= is the opposite", bool(x != y) != got)
    np = c.np
    A = np.concatenate([np.reshape(objs.dense(a), (-1,)) for a, _ in pairs])
    B = np.concatenate([np.reshape(objs.dense(b), (-1,)) for _, b in pairs])
    if got and not close:
        c.eq("equal objects have equal content", A, B)
    elif got:
        c.true("equal objects have close content", np.all(np.abs(A - B) <= 1e-8 + 1.1e-5 * np.maximum(np.abs(A), np.abs(B))))
    else:
        c.true("unequal objects have different content", np.any(A != B))


def eqop(c, kind, r, m, la, lb):
    D = Data(c)
    a, b = objs.build_op(c, D, kind, r, m, la), objs.build_op(c, D, kind, r, m, lb, "F")
    if la is None or lb is None:
        c.true("unset operators", bool(a == b) == (la == lb) and bool(b == a) == (la == lb))
        return
    agree(c, a, b, [(a.entries, b.entries)])


def eqinterp(c, kind, pts, ic, s, what):
    D = Data(c)
    a = objs.build_interp(c, D, kind, 1, 1, pts, "dense", ic, s)
    b = objs.build_interp(c, D, kind, 1, 1, pts, "dense", ic, s, "F")
    if what == "entries":
        for x in c.np.concatenate([c.np.reshape(E, (-1,)) for E in list(a.entries) + list(b.entries)]):
            c.assume(abs(x) <= 100)
        agree(c, a, b, [(E, F) for E, F in zip(a.entries, b.entries)], close=True)
    elif what == "parameters":
        P = [0.0, 1.0, 2.0]
        cls = type(a)
        t = c.real("t", (), "pos")
        c.assume(t >= .01), c.assume(t <= 5)
        x = cls([0.0, 1.0, 1.0 + t], InterpolatorClass=None)
        y = cls([0.0, 1.0, 2.0], InterpolatorClass=None)
        agree(c, x, y, [(x.training_parameters, y.training_parameters)])


def eqbasis(c, wa, wb, kind="linear"):
    np = c.np
    L = c.op.basis.LinearBasis
    c.opt("exact_close", True)
    E, F = c.real("E", (2, 1)), c.real("F", (2, 1))
    W, X = c.real("w", (2,), "pos"), c.real("x", (2,), "pos")
    mk = lambda E, w, lay: quiet(lambda: L(E, weights={None: None, "diag": w, "dense": np.diag(w), "dia": objs.sp(c).dia_array(([w], [0]), shape=(2, 2)), "csr": objs.sp(c).csr_array(np.diag(w))}[lay], check_orthogonality=False))
    a, b = mk(E, W, wa), mk(F, X, wb)
    full = lambda B: np.diag(B.weights) if np.ndim(objs.dense(B.weights)) == 1 else objs.dense(B.weights)
    if wa is None or wb is None:
        if wa is None and wb is None:
            agree(c, a, b, [(a.entries, b.entries)])
        else:
            c.true("weighted and unweighted bases differ", not bool(a == b) and not bool(b == a))
        return
    if (np.ndim(objs.dense(a.weights)) == 1) != (np.ndim(objs.dense(b.weights)) == 1):
        c.true("== is symmetric", bool(a == b) == bool(b == a))
        return
    agree(c, a, b, [(a.entries, b.entries), (full(a), full(b))])


def eqtf(c, spec, n):
    """Fitted ShiftScaleTransformers are equal exactly when their statistics are."""
    D = Data(c)
    pre = c.op.pre
    kw = dict(centering=spec[1], scaling=spec[2], byrow=spec[3])
    mk = lambda tag: fill(c, quiet(lambda: pre.ShiftScaleTransformer(**kw)), spec, n, tag)
    (a, pa), (b, pb) = mk("a"), mk("b")
    if not pa:
        c.true("transformers without statistics", bool(a == b))
        return
    agree(c, a, b, list(zip(pa, pb)))
    u = quiet(lambda: pre.ShiftScaleTransformer(**kw))
    v = quiet(lambda: pre.ShiftScaleTransformer(**kw))
    c.true("unfitted transformers", bool(u == v) and not bool(u == a) and not bool(a == u))
    u.state_dimension = v.state_dimension = n
    c.true("unfitted transformers of a given dimension", bool(u == v) and not bool(u == a) and not bool(a == u))
    v.state_dimension = n + 1
    c.true("transformers of different dimensions", not bool(u == v) and not bool(v == u))
    if spec[1] and spec[2]:  # partially set
        (x, px), (y, py) = mk("x"), mk("y")
        w = quiet(lambda: pre.ShiftScaleTransformer(**kw))
        w.state_dimension = n
        w.mean_ = px[0]
        c.true("without a scaling", not bool(w == x) and not bool(x == w))
    M = pre.TransformerMulti([mk("a")[0], pre.ShiftScaleTransformer()])
    N = pre.TransformerMulti([mk("b")[0], pre.ShiftScaleTransformer()])
    M.transformers[1].state_dimension = N.transformers[1].state_dimension = 1
    agree(c, M, N, list(zip(pa, pb)))


def fill(c, T, spec, n, tag):
    out = []
    if spec[1]:
        T.mean_ = c.real(tag + "m", (n,))
        out.append(T.mean_)
    if spec[2]:
        T.state_dimension = n
        T.scale_ = c.real(tag + "s", (n,) if spec[3] else ())
        T.shift_ = c.real(tag + "t", (n,) if spec[3] else ())
        out += [c.np.reshape(T.scale_, (-1,)), c.np.reshape(T.shift_, (-1,))]
    T.state_dimension = n
    return T, out


def eqmodel(c, cls, kinds, perm, fam="mono"):
    """Models are equal when they have the same operators in any order."""
    D = Data(c)
    M = getattr(c.op.models, cls)
    A = [objs.build_op(c, D, k, 1, 1, "dense", f"E{i}") for i, k in enumerate(kinds)]
    B = [objs.build_op(c, D, k, 1, 1, "dense", f"F{i}") for i, k in enumerate(kinds)]
    a, b = quiet(lambda: M(A)), quiet(lambda: M([B[i] for i in perm]))
    np = c.np
    got = bool(a == b)
    c.true("== is symmetric", bool(b == a) == got)
    E = [np.reshape(o.entries, (-1,)) for o in A]
    F = [np.reshape(o.entries, (-1,)) for o in B]
    match = None
    for p in itertools.permutations(range(len(kinds))):
        if all(kinds[i] == kinds[p[i]] for i in range(len(kinds))):
            one = None
            for i in range(len(kinds)):
                t = np.all(E[i] == F[p[i]])
                one = t if one is None else np.logical_and(one, t)
            match = one if match is None else np.logical_or(match, one)
    c.true("equal models have the same operators", match if got else np.logical_not(match))
    extra = quiet(lambda: M(A + [objs.build_op(c, D, "Constant" if "Constant" not in kinds else "Linear", 1, 1, "dense", "X")]))
    c.true("another number of operators", not bool(a == extra) and not bool(extra == a))


def settings(c, family):
    """Objects of different kinds, settings or sizes are unequal, equal ones of the same are equal."""
    D = Data(c)
    one, two = catalogue(c, D, family), catalogue(c, D, family)
    for (i, (la, a)), (j, (lb, b)) in itertools.product(enumerate(one), enumerate(two)):
        want = i == j
        c.true(f"{la} == {lb}" if want else f"{la} != {lb}", bool(a == b) == want and bool(a != b) != want)
    for la, a in one:
        for x in (None, 1, "a", c.np.zeros(2)):
            try:
                c.true(f"{la} is not {x}", not bool(a == x) if not hasattr(x, "shape") else True)
            except (ValueError, AttributeError) as e:
                c.fail(f"comparing {la} with {x}", str(e))


def catalogue(c, D, family):
    out = []
    if family == "operators":
        for k in c22.KINDS:
            for r, m in ((1, 1), (2, 1), (2, 2)):
                if m == 2 and "Input" not in k:
                    continue
                out.append((f"{k}{r}{m}", objs.build_op(c, D, k, r, m, "dense", f"E{k}{r}{m}")))
            out.append((f"{k}unset", objs.build_op(c, D, k, 1, 1, None)))
    elif family == "interpolated":
        for k in c22.KINDS[:6]:
            for pts, s, r, ic in (("1", 3, 1, None), ("1", 4, 1, None), ("1", 3, 2, None), ("2", 3, 1, None), ("1", 3, 1, "pchip")):
                out.append((f"{k}{pts}{s}{r}{ic}", objs.build_interp(c, D, k, r, 1, pts, "dense", ic, s, f"E{k}{r}{s}")))
            out.append((f"{k}unset", objs.build_interp(c, D, k, 1, 1, None, None)))
            out.append((f"{k}pts", objs.build_interp(c, D, k, 1, 1, "1", None)))
            out.append((f"{k}pts2", objs.build_interp(c, D, k, 1, 1, "2", None)))
            out.append((f"{k}pchip", objs.build_interp(c, D, k, 1, 1, None, None, "pchip")))
    elif family == "transformers":
        for spec in c22.ss_all():
            out.append((str(spec), quiet(lambda: c.op.pre.ShiftScaleTransformer(centering=spec[1], scaling=spec[2], byrow=spec[3]))))
        S = lambda **k: quiet(lambda: c.op.pre.ShiftScaleTransformer(**k))
        for k in (1, 2, 3, 4):
            for cen in itertools.product((True, False), repeat=k):
                out.append((f"multi{cen}", c.op.pre.TransformerMulti([S(centering=x) for x in cen])))
    elif family == "bases":
        c.opt("exact_close", True)
        for n, r in ((2, 1), (2, 2), (3, 1), (3, 2)):
            for w in (None, "diag"):
                out.append((f"linear{n}{r}{w}", objs.build_basis(c, D, "linear", n, r, w)))
                out.append((f"pod{n}{r}{w}", objs.build_basis(c, D, "pod", n, r, w)))
        sub = lambda *a: [objs.build_basis(c, D, "linear", n, r, None) for n, r in a]
        B = c.op.basis.BasisMulti
        for k in (1, 3, 4):
            for rs in itertools.product((1, 2), repeat=k):
                out.append((f"multi{rs}", quiet(lambda: B(sub(*[(2, r) for r in rs])))))
        out += [("m1", quiet(lambda: B(sub((2, 1), (2, 2))))), ("m2", quiet(lambda: B(sub((2, 2), (2, 1))))), ("m3", quiet(lambda: B(sub((2, 1), (2, 2), (3, 1))))),
                ("m4", quiet(lambda: B(sub((2, 1), (2, 1))))), ("m5", quiet(lambda: B(sub((2, 2), (2, 2))))), ("m6", quiet(lambda: B(sub((2, 1), (2, 2), (3, 2)))))]
    elif family == "models":
        for cls in ("ContinuousModel", "DiscreteModel", "SteadyModel"):
            M = getattr(c.op.models, cls, None)
            if M is None:
                continue
            for ops, r in ((("Linear",), 1), (("Linear",), 2), (("Linear", "Constant"), 2), (("Quadratic",), 2)) + ((("Linear", "Input"), 2),) * (cls != "SteadyModel"):
                out.append((f"{cls}{ops}{r}", quiet(lambda: M([objs.build_op(c, D, k, r, 1, "dense", f"E{k}{r}") for k in ops]))))
            out.append((f"{cls}unset", M("A")))
            out.append((f"{cls}unset2", M("cA")))
            X = M("A")
            X.state_dimension = 2
            out.append((f"{cls}sized", X))
    return out


def cases(tier):
    big = tier == "thorough"
    same_ = {c22.op: op, c22.affine: affine, c22.interp: interp, c22.model: model, c22.pmodel: pmodel, c22.basis: basis, c22.solver: solver}
    for name, fn, par in c22.cases(tier):
        if fn in same_:
            if fn is c22.op and par["layout2"] == "csc":
                continue
            yield "copy:" + name, same_[fn], par
    for cls in ("ContinuousModel", "DiscreteModel"):
        for fam in ("affine", "interp"):
            for kinds in (("Linear",), ("Constant", "Linear"), ("Linear", "Input"), ("Quadratic",)):
                for known in ((), (0,), None) if len(kinds) > 1 else ((), None):
                    for fit in (False, True):
                        if fit and known is None or not fit and fam == "interp":
                            continue
                        yield f"copy:{fam}{cls}:{''.join(k[0] for k in kinds)}:{known}:{fit}", pmodel, dict(cls=cls, kinds=kinds, r=1 if "Quadratic" in kinds else 2, m=1, ic=None, known=known, pts="1", solver=None, mic=None, fam=fam, fit=fit)
    for kind in c22.KINDS:
        for la, lb in itertools.product(("dense", "csr", None), repeat=2):
            if kind in ("Constant", "Poly0", "Quartic") and "csr" in (la, lb):
                continue
            for r in (2,) if "csr" in (la, lb) and kind != "Linear" else (1, 2) if kind not in ("Quartic",) or big else (1,):
                yield f"equal:operator:{kind}:{la}:{lb}:r{r}", eqop, dict(kind=kind, r=r, m=1, la=la, lb=lb)
    for kind in c22.KINDS[:6]:
        for what in ("entries", "parameters"):
            yield f"equal:interpolated:{kind}:{what}", eqinterp, dict(kind=kind, pts="1", ic=None, s=3, what=what)
    for wa, wb in itertools.product((None, "diag", "dense", "dia", "csr"), repeat=2):
        yield f"equal:basis:{wa}:{wb}", eqbasis, dict(wa=wa, wb=wb)
    for spec in c22.ss_all():
        for n in (1, 2):
            yield f"equal:transformer:{c22.tftag(spec)}:n{n}", eqtf, dict(spec=spec, n=n)
    for cls in ("ContinuousModel", "DiscreteModel"):
        for kinds in (("Linear",), ("Linear", "Constant"), ("Linear", "Linear"), ("Linear", "Input"), ("Constant", "Constant", "Linear")):
            for perm in itertools.permutations(range(len(kinds))):
                yield f"equal:{cls}:{''.join(k[0] for k in kinds)}:{''.join(map(str, perm))}", eqmodel, dict(cls=cls, kinds=kinds, perm=perm)
    for family in ("operators", "interpolated", "transformers", "bases", "models"):
        yield f"settings:{family}", settings, dict(family=family)
