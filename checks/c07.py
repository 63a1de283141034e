"""C07: simulation follows the model's own right-hand side."""

import itertools

from checks.c01 import make, dim, has_input, new_entries
from checks.c02 import build_ops, param_op

BOUNDS = ("r<=3, m<=2, up to 4 time steps (3 for nonlinear models with r=2); models of up to 6 operators in several orders; "
          "all real entries, states, inputs, times and parameter values; integer-typed states and inputs; output times forwards and backwards")
OUTSIDE = "more steps; the integrator itself (scipy.integrate.solve_ivp is replaced by a recorder); user-defined operators; the cubic spline through sampled inputs between its nodes"
ASSUMPTIONS = ["an interpolator reproduces its data at its nodes"]


class IVP:
    """Stands in for solve_ivp and keeps what it was given."""

    def __init__(self, y):
        self.calls = []
        self.y = y

    def __call__(self, fun, t_span, y0, method="RK45", t_eval=None, dense_output=False, events=None, vectorized=False, args=None, **options):
        self.fun, self.t_span, self.y0, self.method, self.t_eval = fun, t_span, y0, method, t_eval
        self.args = tuple(args) if args is not None else ()
        self.jac = options.get("jac")
        self.options = options
        self.calls.append(self)
        self.success = True
        self.message = "ok"
        self.t = t_eval
        return self

    def f(self, t, q):
        return self.fun(t, q, *self.args)

    def j(self, t, q):
        return self.jac(t, q, *self.args)


def total(c, ops, q, u, mu=None):
    out = None
    for o in ops:
        if mu is not None and hasattr(o, "evaluate"):
            o = o.evaluate(mu)
        x = o.apply(q, u)
        out = x if out is None else out + x
    return out


def total_jac(c, ops, q, u, mu=None):
    r = q.shape[0]
    out = c.zeros((r, r))
    for o in ops:
        if mu is not None and hasattr(o, "evaluate"):
            o = o.evaluate(mu)
        out = out + o.jacobian(q, u)
    return out


def mono(c):
    return c.op.models.mono._nonparametric


def mkmodel(c, cls, kinds, r, m, param=None):
    """(model, list of operators, mu, call) -- call(method, q, u) hides the signature."""
    if param:
        ops = [param_op(c, k, param, r, m, 3, str(i)) if p else build_ops(c, [k], r, m, f"p{i}")[0] for i, (k, p) in enumerate(kinds)]
        mu = c.real("mu", (2,)) if param == "affine" else c.real("mu")
    else:
        ops = build_ops(c, kinds, r, m)
        mu = None
    M = getattr(c.op.models if param else mono(c), cls)(ops)
    return M, ops, mu


def kinds_of(kinds):
    return [k[0] if isinstance(k, tuple) else k for k in kinds]


def rhs_case(c, cls, kinds, r, m, param=None):
    M, ops, mu = mkmodel(c, cls, kinds, r, m, param)
    hasin = any(has_input(k) for k in kinds_of(kinds))
    q = c.real("q", (r,))
    q0 = q.copy()
    u, w = (c.real("u", (m,)), c.real("w", (m,))) if hasin else (None, None)
    t = c.real("t")
    pre = () if mu is None else (mu,)
    if cls.startswith("Steady"):
        c.eq("rhs", M.rhs(q), total(c, ops, q, None))
        c.eq("jac", M.jacobian(q), total_jac(c, ops, q, None))
    elif "Discrete" in cls:
        c.eq("rhs", M.rhs(*pre, q, u), total(c, ops, q, u, mu))
        c.eq("jac", M.jacobian(*pre, q, u), total_jac(c, ops, q, u, mu))
        c.eq("state untouched", q, q0)
        c.eq("rhs again", M.rhs(*pre, 2 * q, w), total(c, ops, 2 * q, w, mu))
    else:
        fu = (lambda s: u + s * w) if hasin else None
        ut = fu(t) if hasin else None
        c.eq("rhs", M.rhs(t, *pre, q, fu), total(c, ops, q, ut, mu))
        c.eq("jac", M.jacobian(t, *pre, q, fu), total_jac(c, ops, q, ut, mu))
        t2 = c.real("t2")
        c.eq("rhs again", M.rhs(t2, *pre, q, fu), total(c, ops, q, fu(t2) if hasin else None, mu))
    c.eq("state untouched", q, q0)


def whole(c, cls, kinds, r, m, param=None):
    """States and inputs stored as integers are simulated like any other numbers."""
    import numpy

    M, ops, mu = mkmodel(c, cls, kinds, r, m, param)
    hasin = any(has_input(k) for k in kinds_of(kinds))
    qi = numpy.array([2, -1, 3][:r])
    ui = numpy.array([[1, -2, 2], [3, 1, -1]][:m]) if hasin else None
    q, u = c.const(qi), None if ui is None else c.const(ui)
    pre = () if mu is None else (mu,)
    u0 = None if u is None else u[:, 0]
    if cls.startswith("Steady"):
        c.eq("rhs", M.rhs(qi), total(c, ops, q, None))
        c.eq("jac", M.jacobian(qi), total_jac(c, ops, q, None))
    elif "Discrete" in cls:
        v0 = None if ui is None else ui[:, 0]
        c.eq("rhs", M.rhs(*pre, qi, v0), total(c, ops, q, u0, mu))
        c.eq("jac", M.jacobian(*pre, qi, v0), total_jac(c, ops, q, u0, mu))
        S = M.predict(*pre, qi, 3, ui)
        for j in range(2):
            c.eq(f"step {j}", S[:, j + 1], total(c, ops, S[:, j], None if u is None else u[:, j], mu))
        c.eq("initial state", S[:, 0], q)
    else:
        fu = (lambda s: ui[:, 0]) if hasin else None
        c.eq("rhs", M.rhs(1, *pre, qi, fu), total(c, ops, q, u0, mu))
        c.eq("jac", M.jacobian(1, *pre, qi, fu), total_jac(c, ops, q, u0, mu))


def discrete_case(c, cls, kinds, r, m, n, extra=0, flat=False, param=None, again=False):
    M, ops, mu = mkmodel(c, cls, kinds, r, m, param)
    hasin = any(has_input(k) for k in kinds_of(kinds))
    pre = () if mu is None else (mu,)
    for rnd in range(2 if again else 1):
        q0 = c.real(f"q{rnd}_", (r,))
        U = c.real(f"U{rnd}_", (m, n - 1 + extra)) if hasin else None
        keep = (q0.copy(), None if U is None else U.copy())
        arg = None if U is None else (U[0] if flat else U)
        S = M.predict(*pre, q0, n, arg) if hasin or rnd else M.predict(*pre, q0, n)
        c.true("shape", S.shape == (r, n))
        c.eq("initial state", S[:, 0], keep[0])
        for j in range(n - 1):
            u = None if U is None else keep[1][:, j]
            c.eq(f"step {j}", S[:, j + 1], total(c, ops, S[:, j], u, mu))
        c.eq("state0 untouched", q0, keep[0])
        if U is not None:
            c.eq("inputs untouched", U, keep[1])
        S[:, 0] = S[:, 0] + 1
        c.eq("state0 not aliased", q0, keep[0])


def continuous_case(c, cls, kinds, r, m, form, method=None, param=None, nt=3, back=False):
    M, ops, mu = mkmodel(c, cls, kinds, r, m, param)
    hasin = any(has_input(k) for k in kinds_of(kinds))
    pre = () if mu is None else (mu,)
    q0 = c.real("q0", (r,))
    keep = q0.copy()
    ts = c.np.array([0.5, 1.0, 2.5, 3.0][:nt][:: -1 if back else 1])
    a, b = c.real("a", (m,)), c.real("b", (m,))
    U = c.real("U", (m, nt))
    if form == "func":
        fu = ref = lambda t: a + t * b
    elif form == "scalar":
        fu = lambda t: a[0] + t * b[0]
        ref = lambda t: a + t * b
    elif form in ("array", "flat"):
        fu = U if form == "array" else U[0]
        ref = None
    else:
        fu = ref = None
    Y = c.real("Y", (r, nt))
    ivp = IVP(Y)
    c.replace("integrate.solve_ivp", ivp)
    opts = {} if method is None else {"method": method}
    if form == "none":
        out = M.predict(*pre, q0, ts, **opts)
    else:
        out = M.predict(*pre, q0, ts, fu, **opts)
    c.true("integrator called once", len(ivp.calls) == 1)
    c.eq("returned solution", out, Y)
    c.eq("initial state", ivp.y0, keep)
    c.eq("time span", c.np.array(list(ivp.t_span)), c.np.array([ts[0], ts[-1]]))
    c.eq("output times", ivp.t_eval, ts)
    c.true("method", ivp.method == (method or "RK45"))
    q = c.real("q", (r,))
    points = [c.real("t")] + [ts[i] for i in range(nt)] if ref is not None or not hasin else [ts[i] for i in range(nt)]
    for i, t in enumerate(points):
        u = None if not hasin else (ref(t) if ref is not None else U[:, i])
        c.eq(f"rhs at t{i}", ivp.f(t, q), total(c, ops, q, u, mu))
        if ivp.jac is not None:
            c.eq(f"jac at t{i}", ivp.j(t, q), total_jac(c, ops, q, u, mu))
    if method in ("BDF", "Radau", "LSODA"):
        c.true("Jacobian given to the implicit method", ivp.jac is not None)
    if hasin and ref is None:  # between nodes: rhs and Jacobian see the same input
        t = c.real("t")
        v = c.real("v", (r,))
        base = ivp.f(t, q)
        if ivp.jac is not None and not any(k in ("Quadratic", "Cubic") for k in kinds_of(kinds)):
            c.eq("jac between nodes", ivp.f(t, q + v) - base, ivp.j(t, q) @ v)
    c.eq("state0 untouched", q0, keep)


def cases(tier):
    th = tier == "thorough"
    N = ("Discrete", "Continuous")
    allk = ["Constant", "Linear", "Quadratic", "Cubic", "Input", "StateInput"]
    sets = [["Linear"], ["Input"], ["Constant"], ["Constant", "Linear"], ["Linear", "Quadratic"], ["Linear", "Input"], ["StateInput", "Constant"],
            ["Input", "Quadratic", "StateInput"], ["Cubic", "Quartic"], ["Poly2", "Linear", "Constant"], allk, allk[::-1]]
    for cls in N:
        for ks in sets:
            for r, m in ((1, 1), (2, 1), (2, 2), (3, 2)):
                if not any(has_input(k) for k in ks) and m == 2 and r == 2:
                    continue
                if not th and r == 3 and len(ks) > 3:
                    continue
                yield f"rhs-{cls}-{'+'.join(ks)}-{r}-{m}", rhs_case, dict(cls=cls + "Model", kinds=ks, r=r, m=m)
        for fam in ("affine", "interp"):
            for ks in ([("Linear", 1)], [("Constant", 1), ("Linear", 0)], [("Linear", 0), ("Input", 1)], [("Quadratic", 1), ("StateInput", 0)],
                       [("Linear", 1), ("Constant", 1), ("Input", 1)], [("StateInput", 1), ("Cubic", 0), ("Linear", 1)]):
                for r, m in ((1, 1), (2, 2)):
                    tag = "+".join(f"{k}{'*' if p else ''}" for k, p in ks)
                    yield f"rhs-{cls}-{fam}-{tag}-{r}", rhs_case, dict(cls=f"Parametric{cls}Model", kinds=ks, r=r, m=m, param=fam)
                    if fam == "interp" and all(p for _, p in ks):
                        yield f"rhs-Interp{cls}-{tag}-{r}", rhs_case, dict(cls=f"Interp{cls}Model", kinds=ks, r=r, m=m, param=fam)
    for ks in (["Linear"], ["Quadratic", "Constant"], ["Cubic"]):
        for r in (1, 2):
            yield f"rhs-Steady-{'+'.join(ks)}-{r}", rhs_case, dict(cls="SteadyModel", kinds=ks, r=r, m=0)
    for ks in (["Linear"], ["Constant", "Quadratic"], ["Cubic"]):
        yield f"whole-Steady-{'+'.join(ks)}", whole, dict(cls="SteadyModel", kinds=ks, r=2, m=0)
    for cls in N:
        for ks in (["Linear"], ["Constant"], ["Quadratic", "Constant"], ["Linear", "Input"], ["StateInput", "Cubic"], ["Input", "StateInput"]):
            for r in (1, 2):
                if not ("Cubic" in ks and r == 2 and cls == "Discrete"):
                    yield f"whole-{cls}-{'+'.join(ks)}-{r}", whole, dict(cls=cls + "Model", kinds=ks, r=r, m=r)
        for fam in ("affine", "interp"):
            yield f"whole-{cls}-{fam}", whole, dict(cls=f"Parametric{cls}Model", kinds=[("Linear", 1), ("Input", 0)], r=2, m=1, param=fam)
    # discrete recurrences
    for ks in sets:
        lin = not any(k in ("Quadratic", "Cubic", "Quartic", "Poly2") for k in ks)
        hi = any(has_input(k) for k in ks)
        for r, m in ((1, 1), (2, 2)) + (((3, 2),) if lin else ()):
            for n in (1, 2, 3) + ((4,) if lin or r == 1 and "Cubic" not in ks else ()) + ((5,) if lin and th else ()):
                if n == 3 and ("Cubic" in ks) and r > 1 or ("Cubic" in ks and n == 3 and not th):
                    continue
                for ex in (0, 2) if hi else (0,):
                    yield f"discrete-{'+'.join(ks)}-{r}-{m}-n{n}-extra{ex}", discrete_case, dict(cls="DiscreteModel", kinds=ks, r=r, m=m, n=n, extra=ex)
        if hi:
            yield f"discrete-{'+'.join(ks)}-flat", discrete_case, dict(cls="DiscreteModel", kinds=ks, r=1, m=1, n=3 if "Cubic" not in ks else 2, flat=True)
        yield f"discrete-{'+'.join(ks)}-again", discrete_case, dict(cls="DiscreteModel", kinds=ks, r=2, m=1, n=2, again=True)
    for fam in ("affine", "interp"):
        for ks in ([("Linear", 1)], [("Linear", 0), ("Input", 1)], [("Constant", 1), ("Linear", 1), ("StateInput", 0)], [("Quadratic", 1), ("Input", 0)]):
            tag = "+".join(f"{k}{'*' if p else ''}" for k, p in ks)
            for n in (2, 3):
                yield f"discrete-{fam}-{tag}-n{n}", discrete_case, dict(cls="ParametricDiscreteModel", kinds=ks, r=1 if n == 3 else 2, m=1, n=n, extra=1, param=fam)
            if fam == "interp" and all(p for _, p in ks):
                yield f"discrete-Interp-{tag}", discrete_case, dict(cls="InterpDiscreteModel", kinds=ks, r=2, m=2, n=2, param="interp", again=True)
    # integrator set-up
    for ks in (["Linear"], ["Constant", "Quadratic"], ["Linear", "Input"], ["StateInput", "Constant"], ["Cubic", "Input", "Linear"], ["Input", "StateInput"]):
        hi = any(has_input(k) for k in ks)
        for form in ("func", "scalar", "array", "flat") if hi else ("none",):
            for meth in (None, "BDF", "Radau", "LSODA", "DOP853"):
                for r, m in ((1, 1), (2, 2)):
                    if form in ("scalar", "flat"):
                        if r == 1 and not th and meth == "Radau":
                            continue
                        m = 1
                    yield f"ivp-{'+'.join(ks)}-{form}-{meth}-{r}-{m}", continuous_case, dict(cls="ContinuousModel", kinds=ks, r=r, m=m, form=form, method=meth)
            if form in ("func", "none"):
                for meth in (None, "BDF"):
                    yield f"ivp-{'+'.join(ks)}-backwards-{meth}", continuous_case, dict(cls="ContinuousModel", kinds=ks, r=2, m=2, form=form, method=meth, back=True)
    for fam in ("affine", "interp"):
        for ks in ([("Linear", 1)], [("Linear", 0), ("Input", 1)], [("Constant", 1), ("StateInput", 0)], [("Linear", 1), ("Input", 1)]):
            tag = "+".join(f"{k}{'*' if p else ''}" for k, p in ks)
            hi = any(has_input(k) for k, _ in ks)
            for form in ("func", "array", "scalar") if hi else ("none",):
                for meth in (None, "BDF"):
                    for cls in ("ParametricContinuousModel",) + (("InterpContinuousModel",) if fam == "interp" and all(p for _, p in ks) else ()):
                        yield (f"ivp-{cls}-{fam}-{tag}-{form}-{meth}", continuous_case,
                               dict(cls=cls, kinds=ks, r=2, m=1 if form == "scalar" else 2, form=form, method=meth, param=fam))
