"""C03: projecting operators and models commutes with evaluation."""

from checks.c01 import make, dim, has_input, new_entries, ent2d
from checks.c02 import build_ops, param_op, KP

BOUNDS = ("full dimension n<=3 (cubic/quartic n=2; thorough n<=4), reduced r<=2, m<=2; all real entries, states, inputs and all "
          "pairs of bases with W^T V invertible (including W^T V = I and one-sided W = V)")
OUTSIDE = ("larger dimensions; bases whose W^T V differs from the identity by less than the tolerance of np.allclose but not exactly; "
           "PolynomialOperator (its galerkin() is not implemented and raises)")


def bases(c, n, r, mode):
    """(V, W or None, W used)"""
    c.opt("exact_close", True)
    if mode == "orth":
        V = c.orthonormal("V", n, r)
        return V, None, V
    V = c.real("V", (n, r))
    if mode == "one":
        W = V
    elif mode == "biorth":
        V = c.orthonormal("V", n, r)
        Z = c.real("Z", (n, r))
        W = V + Z - V @ (V.T @ Z)  # W^T V = I for every Z
        return V, W, W
    else:
        W = c.real("W", (n, r))
    G = W.T @ V
    d = G[0, 0] if r == 1 else G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]
    c.assume(d != 0)
    if not c.symbolic:
        c.clear(d / 100)
    return V, (None if mode == "one" else W), W


def commutes(c, label, red, fullop, V, W, q, u):
    G = W.T @ V
    c.eq(label, G @ red(q, u), W.T @ fullop(V @ q, u))


def op_case(c, kind, n, r, m, mode, sparse=False):
    V, Warg, W = bases(c, n, r, mode)
    E = new_entries(c, kind, n, m)
    if sparse:
        S = c.sparse.csr_array(E)
        o = c.op.operators.LinearOperator(S)
    else:
        o = make(c, kind, E.copy())
    V0, W0 = V.copy(), W.copy()
    red = o.galerkin(V, Warg)
    c.true("kind", type(red) is type(o))
    c.true("new object", red is not o)
    c.true("reduced dimension", red.state_dimension == r)
    c.true("width", ent2d(red.entries).shape[1] == dim(c, kind, r, m))
    q = c.real("q", (r,))
    u = c.real("u", (m,)) if has_input(kind) else None
    commutes(c, "commutes", lambda x, v: c.np.reshape(red.apply(x, v), (r,)), o.apply, V, W, q, u)
    c.eq("original unchanged", o.entries.toarray() if sparse else ent2d(o.entries), E if sparse else ent2d(E))
    c.eq("basis unchanged", V, V0)
    c.eq("test basis unchanged", W, W0)


def model_case(c, kinds, n, r, m, mode, cls, uncal=None):
    V, Warg, W = bases(c, n, r, mode)
    ops = build_ops(c, kinds, n, m)
    before = [ent2d(o.entries).copy() for o in ops]
    lst = list(ops)
    if uncal:
        lst.insert(1, make(c, uncal))
    M = getattr(c.op.models, cls)(lst)
    R = M.galerkin(V, Warg)
    c.true("class", type(R) is type(M))
    c.true("operator count", len(R.operators) == len(lst))
    for a, b in zip(R.operators, lst):
        c.true("operator kinds in order", type(a) is type(b))
        c.true("no sharing", a is not b)
    if uncal:
        c.true("uncalibrated kept", R.operators[1].entries is None)
        c.true("to infer", list(R._indices_of_operators_to_infer) == [1])
        keep = [o for i, o in enumerate(R.operators) if i != 1]
        ev = lambda x, v: sum([c.np.reshape(o.apply(x, v), (r,)) for o in keep])
        fv = lambda x, v: sum([o.apply(x, v) for o in ops])
    elif cls == "DiscreteModel":
        ev, fv = R.rhs, M.rhs
    else:
        t = c.real("t")
        ev = lambda x, v: R.rhs(t, x, None if v is None else (lambda s: v))
        fv = lambda x, v: M.rhs(t, x, None if v is None else (lambda s: v))
    q = c.real("q", (r,))
    u = c.real("u", (m,)) if any(has_input(k) for k in kinds) else None
    commutes(c, "commutes", ev, fv, V, W, q, u)
    c.true("dims", R.state_dimension == r and M.state_dimension == n)
    for o, b in zip(ops, before):
        c.eq("original unchanged", ent2d(o.entries), b)


def param_case(c, kind, fam, n, r, m, mode, order=None, interp=None):
    s = 3
    V, Warg, W = bases(c, n, r, mode)
    if fam == "affine":
        o = param_op(c, kind, fam, n, m, s)
        mu = c.real("mu", (2,))
        mus = [mu]
    else:
        d = dim(c, kind, n, m)
        shape = (n,) if kind == "Constant" else (n, d)
        mus = [1.0, 2.5, 4.0]
        if order:
            mus = [mus[i] for i in order]
        Es = [c.real(f"P{i}", shape) for i in range(s)]
        kw = {}
        if interp == "custom":
            from checks.c24 import Spline

            kw["InterpolatorClass"] = Spline
        elif interp:
            kw["InterpolatorClass"] = getattr(c.interpolate, interp)
        o = getattr(c.op.operators, f"Interp{kind}Operator")(mus, entries=Es, **kw)
    before = [ent2d(A).copy() for A in o.entries]
    red = o.galerkin(V, Warg)
    c.true("kind", type(red) is type(o))
    q = c.real("q", (r,))
    u = c.real("u", (m,)) if has_input(kind) else None
    for i, mu in enumerate(mus + [7.25] * (interp == "custom")):
        commutes(c, f"commutes{i}", lambda x, v: c.np.reshape(red.apply(mu, x, v), (r,)), lambda x, v: o.apply(mu, x, v), V, W, q, u)
    for a, b in zip(o.entries, before):
        c.eq("original unchanged", ent2d(a), b)


def param_model_case(c, cls, fam, kinds, plain, n, r, m, mode):
    V, Warg, W = bases(c, n, r, mode)
    ops = [param_op(c, k, fam, n, m, 3, str(i)) for i, k in enumerate(kinds)] + build_ops(c, plain, n, m)
    M = getattr(c.op.models, cls)(ops)
    R = M.galerkin(V, Warg)
    q = c.real("q", (r,))
    u = c.real("u", (m,)) if any(has_input(k) for k in kinds + plain) else None
    mus = [c.real("mu", (2,))] if fam == "affine" else [1.0, 2.5, 4.0]
    for i, mu in enumerate(mus):
        if "Discrete" in cls:
            ev, fv = (lambda x, v: R.rhs(mu, x, v)), (lambda x, v: M.rhs(mu, x, v))
        else:
            ev = lambda x, v: R.rhs(0.0, mu, x, None if v is None else (lambda s: v))
            fv = lambda x, v: M.rhs(0.0, mu, x, None if v is None else (lambda s: v))
        commutes(c, f"commutes{i}", ev, fv, V, W, q, u)
    for a, b in zip(R.operators, M.operators):
        c.true("kinds", type(a) is type(b))


def cases(tier):
    th = tier == "thorough"
    for kind in ["Constant", "Linear", "Quadratic", "Cubic", "Quartic", "Input", "StateInput"]:
        ns = {"Cubic": (2, 3), "Quartic": (2,)}.get(kind, (2, 3))
        if th:
            ns = tuple(ns) + (ns[-1] + 1,)
        for n in ns:
            for r in (1, 2):
                for m in ((1, 2) if has_input(kind) else (0,)):
                    for mode in ("orth", "one", "two", "biorth"):
                        if mode == "orth" and n > 2 and kind in ("Cubic", "Quartic"):
                            continue
                        if mode in ("one", "biorth") and kind == "Quartic" and r == 2:
                            continue
                        if mode == "biorth" and n > 2 and kind in ("Quadratic", "Cubic") and not th:
                            continue
                        yield f"op-{kind}-n{n}-r{r}-m{m}-{mode}", op_case, dict(kind=kind, n=n, r=r, m=m, mode=mode)
    for mode in ("orth", "two"):
        yield f"op-sparse-{mode}", op_case, dict(kind="Linear", n=3, r=2, m=0, mode=mode, sparse=True)
    for cls in ("DiscreteModel", "ContinuousModel"):
        for kinds in (["Constant", "Linear"], ["Linear", "Quadratic", "Input"], ["StateInput", "Cubic", "Constant"]):
            for mode in ("orth", "two", "one"):
                yield f"model-{cls}-{'+'.join(kinds)}-{mode}", model_case, dict(kinds=kinds, n=2, r=1 if "Cubic" in kinds else 2, m=2, mode=mode, cls=cls)
        yield f"model-{cls}-uncal", model_case, dict(kinds=["Linear", "Constant"], n=3, r=2, m=2, mode="two", cls=cls, uncal="Quadratic")
    for kind in KP:
        for m in ((1, 2) if has_input(kind) else (0,)):
            for mode in ("orth", "two"):
                for fam in ("affine", "interp"):
                    yield f"param-{fam}-{kind}-m{m}-{mode}", param_case, dict(kind=kind, fam=fam, n=2, r=1 if kind == "Cubic" else 2, m=m, mode=mode)
            yield f"param-interp-unsorted-{kind}-m{m}", param_case, dict(kind=kind, fam="interp", n=2, r=1, m=m, mode="two", order=[2, 0, 1])
            yield f"param-interp-unsorted-given-{kind}-m{m}", param_case, dict(kind=kind, fam="interp", n=2, r=1, m=m, mode="two", order=[2, 0, 1], interp="CubicSpline")
            yield f"param-interp-own-class-{kind}-m{m}", param_case, dict(kind=kind, fam="interp", n=2, r=1, m=m, mode="two", order=[2, 0, 1], interp="custom")
    for cls, fam, kinds, plain in (
        ("ParametricDiscreteModel", "affine", ["Linear", "Quadratic"], ["Constant", "Input"]),
        ("ParametricContinuousModel", "affine", ["Linear", "StateInput"], ["Constant"]),
        ("ParametricContinuousModel", "interp", ["Linear", "Input"], ["Quadratic"]),
        ("InterpDiscreteModel", "interp", ["Linear", "Quadratic", "Input"], []),
        ("InterpContinuousModel", "interp", ["Constant", "Linear", "StateInput"], []),
    ):
        yield f"pmodel-{cls}-{fam}", param_model_case, dict(cls=cls, fam=fam, kinds=kinds, plain=plain, n=2, r=1, m=2, mode="two")
