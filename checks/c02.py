"""C02: Jacobians are the exact derivatives of operators and models.

The derivative oracle is the fourth-order central difference with unit step,
which is exact for polynomials of degree <= 4 in each state variable (all
operators here are such polynomials of the state, for any real entries)."""

from checks.c01 import KINDS, make, dim, has_input, new_entries, ent2d

BOUNDS = ("r<=3 (thorough r<=4), m<=2; all real entries, states, inputs and parameter values; operators of every kind, "
          "models with up to 6 operators; histories of up to four entry assignments")
OUTSIDE = "larger dimensions; user-defined operators; floating-point rounding"


def fd(c, f, q):
    """Exact derivative matrix of a componentwise polynomial of degree<=4."""
    r = q.shape[0]
    J = c.zeros((r, r))
    for j in range(r):
        e = c.zeros((r,))
        e[j] = 1
        col = f(q - 2 * e) - 8 * f(q - e) + 8 * f(q + e) - f(q + 2 * e)
        J[:, j] = col / 12
    return J


def full(c, J, r):
    """An operator may report 'no dependence' as the scalar zero."""
    if c.np.ndim(J) == 0:
        return c.zeros((r, r)) + J
    return J.toarray() if hasattr(J, "toarray") else J


def operator_jac(c, kind, r, m, history):
    q = c.real("q", (r,))
    q2 = c.real("p", (r,))
    u = c.real("u", (m,)) if has_input(kind) else None
    o = make(c, kind)
    for t, step in enumerate(history):
        E = new_entries(c, kind, r, m, f"E{t}")
        if step == "del":
            del o.entries
            c.true("cleared", o.entries is None)
            continue
        if step == "assign":
            o.entries = E.copy()
        elif step == "set":
            o.set_entries(E.copy())
        elif step == "expanded":
            p = {"Quadratic": 2, "Cubic": 3, "Quartic": 4}[kind]
            o.set_entries(c.real(f"F{t}", (r, r**p)))
        elif step == "tensor":
            p = {"Quadratic": 2, "Cubic": 3, "Quartic": 4}[kind]
            o.set_entries(c.real(f"F{t}", (r,) * (p + 1)))
        elif step == "again":
            pass
        J = full(c, o.jacobian(q, u), r)
        c.eq(f"jac{t}", J, fd(c, lambda x: o.apply(x, u), q))
        if step == "again":
            # a first evaluation must not influence another one
            J2 = full(c, o.jacobian(q2, u), r)
            c.eq(f"jac{t}b", J2, fd(c, lambda x: o.apply(x, u), q2))
            c.eq(f"jac{t}c", full(c, o.jacobian(q, u), r), J)
            if r == 1:
                c.eq("scalar state", full(c, o.jacobian(q[0], u if m != 1 else u[0]), r), J)


KP = ["Constant", "Linear", "Quadratic", "Cubic", "Input", "StateInput"]


def build_ops(c, kinds, r, m, tag=""):
    return [make(c, k, new_entries(c, k, r, m, f"E{tag}{i}")) for i, k in enumerate(kinds)]


def model_jac(c, kinds, r, m, cls):
    """Model Jacobian = derivative of the model's own right-hand side."""
    ops = build_ops(c, kinds, r, m)
    M = getattr(c.op.models, cls)(ops)
    q = c.real("q", (r,))
    hasin = any(has_input(k) for k in kinds)
    u = c.real("u", (m,)) if hasin else None
    t = c.real("t")
    if cls == "DiscreteModel":
        f = lambda x: M.rhs(x, u)
        J = lambda: M.jacobian(q, u)
    else:
        w = c.real("w", (m,)) if hasin else None
        fu = (lambda s: u + s * w) if hasin else None
        f = lambda x: M.rhs(t, x, fu)
        J = lambda: M.jacobian(t, q, fu)
    c.eq("jac", J(), fd(c, f, q))
    # replacing the entries of an operator afterwards
    o = M.operators[-1]
    o.set_entries(new_entries(c, kinds[-1], r, m, "N"))
    c.eq("jac after replace", J(), fd(c, f, q))
    M.operators[0].entries = new_entries(c, kinds[0], r, m, "N0")
    c.eq("jac after assign", J(), fd(c, f, q))


def sparse_linear_jac(c, r, cls):
    """A sparse linear operator inside a model."""
    import scipy.sparse

    A = c.real("A", (r, r))
    H = new_entries(c, "Quadratic", r, 0, "H")
    SA = c.sparse.csr_array(A)
    o = c.op.operators.LinearOperator(SA)
    q = c.real("q", (r,))
    c.eq("operator jac", full(c, o.jacobian(q), r), fd(c, lambda x: o.apply(x), q))
    M = getattr(c.op.models, cls)([c.op.operators.QuadraticOperator(H), o])
    if cls == "DiscreteModel":
        c.eq("model jac", full(c, M.jacobian(q), r), fd(c, lambda x: M.rhs(x), q))
    else:
        c.eq("model jac", full(c, M.jacobian(c.real("t"), q), r), fd(c, lambda x: M.rhs(0, x), q))


def param_op(c, kind, fam, r, m, s, tag="", sym_params=False):
    """A parametric operator with all-symbolic entries and a parameter value."""
    O = c.op.operators
    d = dim(c, kind, r, m)
    shape = (r,) if kind == "Constant" else (r, d)
    Es = [c.real(f"P{tag}{i}", shape) for i in range(s)]
    if fam == "affine":
        th = [lambda mu, i=i: mu[0] ** i + i * mu[1] for i in range(s)]
        return getattr(O, f"Affine{kind}Operator")(th, entries=Es)
    pts = [1.0 + 1.5 * i for i in range(s)]
    return getattr(O, f"Interp{kind}Operator")(pts, entries=Es)


def param_jac(c, kind, fam, r, m, s):
    o = param_op(c, kind, fam, r, m, s)
    mu = c.real("mu", (2,)) if fam == "affine" else c.real("mu")
    q = c.real("q", (r,))
    u = c.real("u", (m,)) if has_input(kind) else None
    c.eq("jac", full(c, o.jacobian(mu, q, u), r), fd(c, lambda x: o.apply(mu, x, u), q))
    mu2 = c.real("nu", (2,)) if fam == "affine" else c.real("nu")
    c.eq("jac2", full(c, o.jacobian(mu2, q, u), r), fd(c, lambda x: o.apply(mu2, x, u), q))


def param_model_jac(c, fam, cls, kinds, plain, r, m):
    s = 3
    ops = [param_op(c, k, fam, r, m, s, str(i)) for i, k in enumerate(kinds)]
    ops += build_ops(c, plain, r, m)
    M = getattr(c.op.models, cls)(ops)
    mu = c.real("mu", (2,)) if fam == "affine" else c.real("mu")
    q = c.real("q", (r,))
    hasin = any(has_input(k) for k in kinds + plain)
    u = c.real("u", (m,)) if hasin else None
    if "Discrete" in cls:
        c.eq("jac", M.jacobian(mu, q, u), fd(c, lambda x: M.rhs(mu, x, u), q))
    else:
        t = c.real("t")
        w = c.real("w", (m,)) if hasin else None
        fu = (lambda s: u + s * w) if hasin else None
        c.eq("jac", M.jacobian(t, mu, q, fu), fd(c, lambda x: M.rhs(t, mu, x, fu), q))


def cases(tier):
    th = tier == "thorough"
    for kind in KINDS:
        hi = has_input(kind)
        for r in (1, 2, 3) + ((4,) if th else ()):
            if r > 2 and kind in ("Quartic", "Poly4") and not th:
                continue
            for m in ((1, 2) if hi else (0,)):
                yield f"op-{kind}-r{r}-m{m}", operator_jac, dict(kind=kind, r=r, m=m, history=["set", "again"])
        for m in ((1, 2) if hi else (0,)):
            yield f"hist-{kind}-m{m}", operator_jac, dict(kind=kind, r=2, m=m, history=["set", "assign", "del", "assign", "again", "set"])
        if kind in ("Quadratic", "Cubic", "Quartic"):
            yield f"hist-{kind}-layouts", operator_jac, dict(kind=kind, r=2, m=0, history=["expanded", "set", "tensor", "again", "del", "expanded"])
    combos = [["Constant", "Linear"], ["Linear", "Quadratic"], ["Cubic", "Linear", "Input"], ["StateInput", "Quadratic", "Constant"],
              ["Constant", "Linear", "Quadratic", "Cubic", "Input", "StateInput"], ["Quartic"], ["Poly3", "Poly1", "Input"], ["Input", "Constant"]]
    for cls in ("DiscreteModel", "ContinuousModel"):
        for kinds in combos:
            for r, m in ((1, 1), (2, 2)) + (((3, 2),) if th else ()):
                yield f"model-{cls}-{'+'.join(kinds)}-r{r}", model_jac, dict(kinds=kinds, r=r, m=m, cls=cls)
        for r in (1, 2, 3):
            yield f"sparse-{cls}-r{r}", sparse_linear_jac, dict(r=r, cls=cls)
    for fam in ("affine", "interp"):
        for kind in KP:
            for r in (1, 2):
                for m in ((1, 2) if has_input(kind) else (0,)):
                    yield f"param-{fam}-{kind}-r{r}-m{m}", param_jac, dict(kind=kind, fam=fam, r=r, m=m, s=3)
    for cls, fam, kinds, plain in (
        ("ParametricDiscreteModel", "affine", ["Linear", "Quadratic"], ["Constant", "Input"]),
        ("ParametricContinuousModel", "affine", ["Linear", "StateInput"], ["Cubic"]),
        ("ParametricDiscreteModel", "interp", ["Quadratic"], ["Linear", "StateInput"]),
        ("ParametricContinuousModel", "interp", ["Linear", "Input"], ["Quadratic"]),
        ("InterpDiscreteModel", "interp", ["Linear", "Quadratic", "Input"], []),
        ("InterpContinuousModel", "interp", ["Constant", "Linear", "StateInput"], []),
    ):
        for r in (1, 2):
            yield f"pmodel-{cls}-{fam}-r{r}", param_model_jac, dict(fam=fam, cls=cls, kinds=kinds, plain=plain, r=r, m=1 if r == 1 else 2)
