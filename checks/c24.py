"""C24: parametric operators evaluate to their defining combination."""

import itertools

from checks.c01 import dim, has_input, ent2d

BOUNDS = ("all six operator kinds, r<=2 (thorough 3), m<=2, 1-3 terms or 2-4 training values; every real entry, state, input, parameter and every value of every coefficient "
          "function; coefficient functions given as a list, one vector-valued callable, a single scalar callable or an integer; dense, sparse and block entries; training values in "
          "every order, negative, two-dimensional, symbolic; up to two re-assignments; copies and projections")
OUTSIDE = ("values of an interpolant between training values (scipy's; stand-in: the interpolating polynomial in 1-D, an arbitrary value in N-D); user-defined interpolators other "
           "than the stand-in; floating-point rounding")
KINDS = ["Constant", "Linear", "Quadratic", "Cubic", "Input", "StateInput"]


class Theta:
    """Arbitrary coefficient functions: one unknown per (function, parameter)."""

    def __init__(self, c, n):
        self.c, self.n, self.vals, self.mus = c, n, {}, []

    def index(self, mu):
        for i, m in enumerate(self.mus):
            if m is mu:
                return i
            try:
                same = m.shape == mu.shape and all(a is b or (not hasattr(a, "n") and not hasattr(b, "n") and a == b) for a, b in zip(m.ravel(), mu.ravel()))
            except AttributeError:
                same = not hasattr(m, "n") and not hasattr(mu, "n") and m == mu
            if same:
                return i
        self.mus.append(mu)
        return len(self.mus) - 1

    def __call__(self, mu, i):
        k = (self.index(mu), i)
        if k not in self.vals:
            self.vals[k] = self.c.real(f"th{k[0]}_{i}")
        return self.vals[k]


def affine(c, kind, r, m, nt, form, layout="dense", tag="", th=None):
    """(operator, component entries, coefficient function, a parameter factory)"""
    np = c.np
    th = th or Theta(c, nt)
    d = dim(c, kind, r, m)
    shape = (r,) if kind == "Constant" else (r, d)
    Es = [c.real(f"E{tag}{i}", shape) for i in range(nt)]
    cls = getattr(c.op.operators, f"Affine{kind}Operator")
    sp = c.sparse
    p = 2
    if form == "list":
        co, kw = [lambda mu, i=i: th(mu, i) for i in range(nt)], {}
    elif form == "tuple":
        co, kw = tuple((lambda mu, i=i: th(mu, i)) for i in range(nt)), {}
    elif form == "array":
        co, kw = (lambda mu: np.array([th(mu, i) for i in range(nt)])), dict(nterms=nt)
    elif form == "seq":
        co, kw = (lambda mu: [th(mu, i) for i in range(nt)]), dict(nterms=nt)
    elif form == "scalar":
        co, kw = (lambda mu: th(mu, 0)), dict(nterms=1)
    elif form == "int":
        co, kw, p = nt, {}, nt
    if layout == "dense":
        ent = [E.copy() for E in Es]
    elif layout == "array":
        ent = np.array([E for E in Es])
    elif layout == "block":
        ent, kw = np.concatenate([ent2d(E) for E in Es], axis=1), dict(kw, fromblock=True)
        if kind == "Constant" and tag == "flat":
            ent = np.concatenate(Es)
    elif layout in ("csr", "csc", "coo"):
        ent = [getattr(sp, f"{layout}_array")(E) for E in Es]
    elif layout == "mixed":
        ent = [sp.csr_array(E) if i % 2 else E.copy() for i, E in enumerate(Es)]
    elif layout == "mixed2":
        ent = [E.copy() if i % 2 else sp.csr_array(E) for i, E in enumerate(Es)]
    op = cls(co, entries=ent, **kw)

    def coef(mu):
        if form == "int":
            return [mu[i] for i in range(nt)] if np.ndim(mu) else [mu]
        return [th(mu, i) for i in range(nt)]
    return op, Es, coef, p


def comb(ws, xs):
    out = None
    for w, x in zip(ws, xs):
        out = w * x if out is None else out + w * x
    return out


def dense(E):
    return E.toarray() if hasattr(E, "toarray") else E


def data(c, kind, r, m, k=None, tag=""):
    q = c.real(f"q{tag}", (r,) if k is None else (r, k))
    u = c.real(f"u{tag}", (m,) if k is None else (m, k)) if has_input(kind) else None
    return q, u


def acts(c, label, op, mu, kind, want, r, m, tag=""):
    """op(mu) acts as the nonparametric operator with the wanted entries."""
    np = c.np
    q, u = data(c, kind, r, m, tag=tag)
    cls = getattr(c.op.operators, f"{kind}Operator")
    ref = cls(want.copy())
    e = op.evaluate(mu)
    c.true(f"{label}: class", type(e) is cls)
    c.eq(f"{label}: entries", ent2d(dense(e.entries)), ent2d(want))
    c.eq(f"{label}: evaluate then apply", np.reshape(e.apply(q, u), (r,)), np.reshape(ref.apply(q, u), (r,)))
    c.eq(f"{label}: apply", np.reshape(op.apply(mu, q, u), (r,)), np.reshape(ref.apply(q, u), (r,)))
    J = ref.jacobian(q, u)
    got = op.jacobian(mu, q, u)
    got = got.toarray() if hasattr(got, "toarray") else got
    if np.ndim(J) == 0 or np.ndim(got) == 0:
        c.eq(f"{label}: jacobian", np.zeros((r, r)) + got, np.zeros((r, r)) + J)
    else:
        c.eq(f"{label}: jacobian", got, J)


def param(c, p, name="mu", vec=False):
    return c.real(name) if p == 1 and not vec else c.real(name, (p,))


def affine_eval(c, kind, r, m, nt, form, layout="dense", vec=False, tag="", after=None):
    np = c.np
    op, Es, coef, p = affine(c, kind, r, m, nt, form, layout, tag)
    if after == "copy":
        op = op.copy()
    elif after == "copytwice":
        op = op.copy().copy()
    elif after == "again":
        for E in Es:
            E += 1.0
        op.set_entries([E.copy() for E in Es])
    elif after == "cleared":
        op._clear()
        c.true("cleared", op.entries is None)
        op.set_entries([E.copy() for E in Es])
    elif after == "block":
        Es = [c.real(f"N{i}", E.shape) for i, E in enumerate(Es)]
        op.set_entries(np.concatenate([ent2d(E) for E in Es], axis=1), fromblock=True)
    mus = [param(c, p, f"mu{i}", vec) for i in range(2)]
    for i, mu in enumerate(mus):
        keep = mu.copy() if np.ndim(mu) else mu
        acts(c, f"at {i}", op, mu, kind, comb(coef(mu), Es), r, m, tag=str(i))
        c.eq(f"caller's parameter {i}", mu, keep)
        e = op.evaluate(mu)
        if hasattr(e.entries, "fill"):
            e.entries.fill(0)
    for i, (a, b) in enumerate(zip(op.entries, Es)):
        c.eq(f"components unchanged {i}", ent2d(dense(a)), ent2d(b))
    acts(c, "again", op, mus[0], kind, comb(coef(mus[0]), Es), r, m, tag="z")
    c.true("parameter dimension", op.parameter_dimension == (1 if np.ndim(mus[0]) == 0 else p))
    c.true("state dimension", op.state_dimension == r and op.nterms == nt)
    if has_input(kind):
        c.true("input dimension", op.input_dimension == m)


def affine_block(c, kind, r, m, nt, form, ks):
    """[A_1 ... A_n] datablock = concatenated evaluations."""
    np = c.np
    op, Es, coef, p = affine(c, kind, r, m, nt, form)
    mus = [param(c, p, f"mu{i}") for i in range(len(ks))]
    D = [data(c, kind, r, m, k, str(i)) for i, k in enumerate(ks)]
    U = [u for _, u in D] if has_input(kind) else None
    B = op.datablock(mus, [q for q, _ in D], U)
    c.true("rows", B.shape == (op.operator_dimension(len(ks), r, m), sum(ks)))
    got = np.concatenate([ent2d(E) for E in Es], axis=1) @ B
    want = np.concatenate([np.reshape(op.apply(mu, q, u), (r, k)) for mu, (q, u), k in zip(mus, D, ks)], axis=1)
    c.eq("data matrix uses the evaluation coefficients", got, want)
    o2 = type(op)([lambda mu: 1.0] * nt) if form == "int" else None
    # extracting a block gives the components back
    op.set_entries(np.concatenate([ent2d(E) for E in Es], axis=1), fromblock=True)
    for i, (a, b) in enumerate(zip(op.entries, Es)):
        c.eq(f"component {i}", ent2d(a), ent2d(b))


# -- interpolated ------------------------------------------------------------
def points(c, s, order, kind):
    """Training values: fixed or symbolic, in a given order."""
    if kind == "sym":
        x = [c.real(f"x{i}") for i in range(s)]
        for a, b in zip(x, x[1:]):
            c.assume(b >= a + .1)
    elif kind == "neg":
        x = [-3.0, -1.0, .5, 2.0][:s]
    elif kind == "int":
        x = [-2, 1, 3, 7][:s]
    elif kind == "2d":
        x = [(0.0, 0.0), (1.0, 0.5), (-0.5, 2.0), (2.0, -1.0)][:s]
    elif kind == "3d":
        x = [(0.0, 0.0, 1.0), (1.0, 0.5, 0.0), (-0.5, 2.0, 0.0), (2.0, -1.0, 3.0)][:s]
    else:
        x = [1.0, 2.5, 4.0, 5.0][:s]
    return [x[i] for i in order]


def form_points(c, pts, form):
    np = c.np
    if form == "list":
        return list(pts)
    if form == "array":
        return np.array(pts)
    if form == "column":
        return np.array([[p] for p in pts])
    if form == "arrays":
        return [np.array(p) for p in pts]
    return tuple(pts)


class Spline:
    """A user-defined interpolator class: reproduces its data, in the order given."""

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __call__(self, mu):
        for a, b in zip(self.x, self.y):
            if bool(a == mu):
                return b
        return self.y[0] * 0


def icls(c, name):
    if name is None:
        return None
    return Spline if name == "custom" else getattr(c.interpolate, name)


def interp(c, kind, r, m, pts, how="init", ptform="list", IC=None, tag=""):
    np = c.np
    d = dim(c, kind, r, m)
    shape = (r,) if kind == "Constant" else (r, d)
    Es = [c.real(f"E{tag}{i}", shape) for i in range(len(pts))]
    cls = getattr(c.op.operators, f"Interp{kind}Operator")
    mus = form_points(c, pts, ptform)
    kw = {} if IC is None else dict(InterpolatorClass=icls(c, IC))
    if how == "init":
        op = cls(mus, entries=[E.copy() for E in Es], **kw)
    elif how == "array":
        op = cls(mus, entries=np.array([E for E in Es]), **kw)
    elif how == "block":
        op = cls(mus, entries=np.concatenate([ent2d(E) for E in Es], axis=1), fromblock=True, **kw)
    elif how == "operators":
        oc = getattr(c.op.operators, f"{kind}Operator")
        op = cls._from_operators(mus, [oc(E.copy()) for E in Es], **kw)
    elif how == "later":
        op = cls(**kw)
        op.set_training_parameters(mus)
        op.set_entries([E.copy() for E in Es])
    return op, Es


def node(c, p, ptform):
    np = c.np
    if isinstance(p, tuple):
        return np.array(p)
    return np.array([p]) if ptform == "column" else p


def interp_nodes(c, kind, r, m, s, order, pk="pos", how="init", ptform="list", IC=None, after=None):
    np = c.np
    pts = points(c, s, order, pk)
    op, Es = interp(c, kind, r, m, pts, how, ptform, IC)
    P = op.training_parameters.copy()
    if after == "copy":
        old, op = op, op.copy()
    elif after == "again":
        op.evaluate(node(c, pts[0], ptform))
        Es = [c.real(f"N{i}", E.shape) for i, E in enumerate(Es)]
        op.set_entries([E.copy() for E in Es])
    elif after == "interpolator":
        op.set_interpolator(icls(c, "PchipInterpolator"))
    elif after == "cleared":
        op._clear()
        pts = list(reversed(pts))
        op.set_training_parameters(form_points(c, pts, ptform))
        Es = [c.real(f"N{i}", E.shape) for i, E in enumerate(Es)]
        op.set_entries([E.copy() for E in Es])
        P = op.training_parameters.copy()
    elif after == "galerkin":
        V = c.orthonormal("V", r, 1)
        oc = getattr(c.op.operators, f"{kind}Operator")
        Es = [oc(E.copy()).galerkin(V).entries for E in Es]
        op, r = op.galerkin(V), 1
    elif after == "modelcopy":
        M = c.op.models.InterpContinuousModel([op])
        op = M.copy().operators[0]
    elif after == "modelgalerkin":
        V = c.orthonormal("V", r, 1)
        oc = getattr(c.op.operators, f"{kind}Operator")
        Es = [oc(E.copy()).galerkin(V).entries for E in Es]
        op, r = c.op.models.InterpContinuousModel([op]).galerkin(V).operators[0], 1
    for i, (p, E) in enumerate(zip(pts, Es)):
        acts(c, f"node {i}", op, node(c, p, ptform), kind, E, r, m, tag=str(i))
    if IC == "custom" and after != "interpolator":
        acts(c, "between nodes", op, 7.25, kind, Es[0] * 0, r, m, tag="off")
    acts(c, "node 0 again", op, node(c, pts[0], ptform), kind, Es[0], r, m, tag="z")
    c.eq("training values kept in the given order", op.training_parameters, P)
    for i, (a, b) in enumerate(zip(op.entries, Es)):
        c.eq(f"entries kept in the given order {i}", ent2d(a), ent2d(b))
    c.true("state dimension", op.state_dimension == r)
    if has_input(kind):
        c.true("input dimension", op.input_dimension == m)


def interp_block(c, kind, r, m, s, order, ks):
    np = c.np
    pts = points(c, s, order, "neg")
    op, Es = interp(c, kind, r, m, pts)
    D = [data(c, kind, r, m, k, str(i)) for i, k in enumerate(ks)]
    U = [u for _, u in D] if has_input(kind) else None
    B = op.datablock(pts, [q for q, _ in D], U)
    c.true("rows", B.shape == (op.operator_dimension(s, r, m), sum(ks)))
    got = np.concatenate([ent2d(E) for E in Es], axis=1) @ B
    want = np.concatenate([np.reshape(op.apply(mu, q, u), (r, k)) for mu, (q, u), k in zip(pts, D, ks)], axis=1)
    c.eq("data matrix uses the evaluation coefficients", got, want)


def model(c, fam, cls, kinds, plain, r, m):
    """A parametric model acts as the sum of its evaluated operators."""
    np = c.np
    ops, want, pts = [], [], points(c, 3, [1, 2, 0], "neg")
    mu = pts[0] if fam == "interp" else c.real("mu", (2,))
    th = Theta(c, 2)
    for i, k in enumerate(kinds):
        if fam == "interp":
            op, Es = interp(c, k, r, m, pts, tag=str(i))
            W = Es[0]
        else:
            op, Es, coef, _ = affine(c, k, r, m, 2, "list", tag=str(i), th=th)
            W = comb(coef(mu), Es)
        ops.append(op)
        want.append((k, W))
    for i, k in enumerate(plain):
        E = c.real(f"F{i}", (r,) if k == "Constant" else (r, dim(c, k, r, m)))
        ops.append(getattr(c.op.operators, f"{k}Operator")(E.copy()))
        want.append((k, E))
    M = getattr(c.op.models, cls)(ops)
    hasin = any(has_input(k) for k, _ in want)
    q = c.real("q", (r,))
    u = c.real("u", (m,)) if hasin else None
    ref = 0
    for k, E in want:
        ref = ref + np.reshape(getattr(c.op.operators, f"{k}Operator")(E.copy()).apply(q, u), (r,))
    S = M.evaluate(mu)
    c.true("operators in order", [type(o).__name__ for o in S.operators] == [f"{k}Operator" for k, _ in want])
    for i, (o, (k, E)) in enumerate(zip(S.operators, want)):
        c.eq(f"operator {i}", ent2d(o.entries), ent2d(E))
    if "Discrete" in cls:
        c.eq("rhs", M.rhs(mu, q, u), ref)
        c.eq("evaluated rhs", S.rhs(q, u), ref)
    else:
        f = (lambda t: u) if hasin else None
        c.eq("rhs", M.rhs(0.0, mu, q, f), ref)
        c.eq("evaluated rhs", S.rhs(0.0, q, f), ref)


def cases(tier):
    th = tier == "thorough"
    for kind in KINDS:
        ms = (1, 2) if has_input(kind) else (0,)
        for m in ms:
            for r in ((1, 2, 3) if th else (1, 2)):
                if kind == "Cubic" and r > 2:
                    continue
                for form, nt in (("list", 1), ("list", 2), ("list", 3), ("tuple", 2), ("array", 1), ("array", 2), ("seq", 2), ("seq", 1), ("scalar", 1), ("int", 1), ("int", 2), ("int", 3)):
                    yield f"affine-{kind}-m{m}-r{r}-{form}-{nt}", affine_eval, dict(kind=kind, r=r, m=m, nt=nt, form=form)
                    if nt == 1:
                        yield f"affine-vec-{kind}-m{m}-r{r}-{form}-{nt}", affine_eval, dict(kind=kind, r=r, m=m, nt=nt, form=form, vec=True)
                    for ks in ((1, 2), (2,)):
                        if kind == "Cubic" and r > 1 and nt > 2:
                            continue
                        yield f"block-{kind}-m{m}-r{r}-{form}-{nt}-{ks}", affine_block, dict(kind=kind, r=r, m=m, nt=nt, form=form, ks=ks)
            for layout in ("array", "block"):
                yield f"affine-{kind}-m{m}-{layout}", affine_eval, dict(kind=kind, r=2, m=m, nt=2, form="list", layout=layout)
            if kind == "Constant":
                yield "affine-Constant-flat", affine_eval, dict(kind=kind, r=2, m=m, nt=2, form="list", layout="block", tag="flat")
            for after in ("copy", "copytwice", "again", "cleared", "block"):
                yield f"affine-{kind}-m{m}-after-{after}", affine_eval, dict(kind=kind, r=2, m=m, nt=2, form="list", after=after)
                yield f"affine-{kind}-m{m}-{after}-int", affine_eval, dict(kind=kind, r=2, m=m, nt=2, form="int", after=after)
            for order in itertools.permutations(range(3)):
                n = "".join(map(str, order))
                for pk in ("pos", "neg", "int"):
                    yield f"interp-{kind}-m{m}-{pk}-{n}", interp_nodes, dict(kind=kind, r=2, m=m, s=3, order=order, pk=pk)
                yield f"interp-{kind}-m{m}-sym-{n}", interp_nodes, dict(kind=kind, r=1, m=m, s=3, order=order, pk="sym")
                yield f"iblock-{kind}-m{m}-{n}", interp_block, dict(kind=kind, r=1 if kind == "Cubic" else 2, m=m, s=3, order=order, ks=(2, 1, 1))
            for how in ("array", "block", "operators", "later"):
                for r in (1, 2):
                    yield f"interp-{kind}-m{m}-by-{how}-r{r}", interp_nodes, dict(kind=kind, r=r, m=m, s=3, order=(2, 0, 1), pk="neg", how=how)
            for pf in ("array", "column", "tuple"):
                yield f"interp-{kind}-m{m}-{pf}", interp_nodes, dict(kind=kind, r=2, m=m, s=3, order=(1, 2, 0), pk="neg", ptform=pf)
            for IC in ("CubicSpline", "PchipInterpolator", "Akima1DInterpolator", "custom"):
                yield f"interp-{kind}-m{m}-{IC}", interp_nodes, dict(kind=kind, r=2, m=m, s=3, order=(1, 0, 2), pk="neg", IC=IC)
            for after in ("copy", "again", "interpolator", "cleared", "galerkin", "modelcopy", "modelgalerkin"):
                for order in ((0, 1, 2), (2, 0, 1)):
                    for IC in (None, "CubicSpline") + (("custom",) if order[0] else ()):
                        yield f"interp-{kind}-m{m}-{after}-{order[0]}-{IC}", interp_nodes, dict(kind=kind, r=2, m=m, s=3, order=order, pk="neg", after=after, IC=IC)
            for pk in ("2d", "3d"):
                for pf in ("list", "array", "arrays"):
                    for how in ("init", "later", "block"):
                        yield f"interp-{kind}-m{m}-{pk}-{pf}-{how}", interp_nodes, dict(kind=kind, r=2, m=m, s=4, order=(2, 0, 3, 1), pk=pk, ptform=pf, how=how, IC="NearestNDInterpolator" if pk == "3d" else None)
                for after in ("copy", "again", "galerkin", "cleared"):
                    yield f"interp-{kind}-m{m}-{pk}-{after}", interp_nodes, dict(kind=kind, r=2, m=m, s=4, order=(2, 0, 3, 1), pk=pk, after=after, IC="NearestNDInterpolator" if pk == "3d" else None)
            if th:
                for order in itertools.permutations(range(4)):
                    yield f"interp4-{kind}-m{m}-{order}", interp_nodes, dict(kind=kind, r=1, m=m, s=4, order=order, pk="neg")
    for layout in ("csr", "csc", "coo", "mixed", "mixed2"):
        for form, nt in (("list", 1), ("list", 2), ("array", 3), ("int", 2)):
            for after in (None, "copy"):
                yield f"sparse-{layout}-{form}-{nt}-{after}", affine_eval, dict(kind="Linear", r=2, m=0, nt=nt, form=form, layout=layout, after=after)
    for cls, fam, kinds, plain in (
        ("ParametricDiscreteModel", "affine", ["Linear", "Quadratic"], ["Constant", "Input"]),
        ("ParametricContinuousModel", "affine", ["Linear", "StateInput"], ["Constant"]),
        ("ParametricContinuousModel", "interp", ["Linear", "Input"], ["Quadratic"]),
        ("ParametricDiscreteModel", "interp", ["Constant", "Cubic"], ["Linear"]),
        ("InterpDiscreteModel", "interp", ["Linear", "Quadratic", "Input"], []),
        ("InterpContinuousModel", "interp", ["Constant", "Linear", "StateInput"], []),
    ):
        yield f"model-{cls}-{fam}", model, dict(cls=cls, fam=fam, kinds=kinds, plain=plain, r=2, m=2)
