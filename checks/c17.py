"""C17: time-derivative estimates are exact to their order and stay aligned."""

import numpy

SCHEMES = [f"fwd{p}" for p in range(1, 7)] + [f"bwd{p}" for p in range(1, 7)] + ["ctr2", "ctr4", "ctr6", "ord2", "ord4", "ord6"]

BOUNDS = ("every scheme of order p, states = two rows with free polynomial coefficients of degree <= p, free step dt of either sign and free start time, k = p+1..p+3 snapshots (thorough: up to p+5); "
          "np.gradient schemes on every strictly increasing grid of 3..5 (thorough 6) points with free quadratics; no inputs, 1-D inputs, 1- and 2-row inputs, all real entries; "
          "interpolation with any interpolant reproducing its nodes, k<=4, new time grids of 1..5 free points; masks of 1-D to 3-D arrays (1-D and 2-D for interpolation)")
OUTSIDE = "floating-point cancellation for tiny steps; scipy's spline construction itself; more snapshots"


def cols_of(scheme, k):
    mode, p = scheme[:3], int(scheme[3])
    if mode == "fwd":
        return list(range(0, k - p))
    if mode == "bwd":
        return list(range(p, k))
    if mode == "ctr":
        return list(range(p // 2, k - p // 2))
    return list(range(k))


def poly(c, p, taus, r=2):
    """Rows of free polynomials in tau, and their derivatives."""
    A = c.real("A", (r, p + 1))
    Q, D = c.zeros((r, len(taus))), c.zeros((r, len(taus)))
    for i in range(r):
        for j, t in enumerate(taus):
            q, d, pw = 0, 0, 1
            for m in range(p + 1):
                q = q + A[i, m] * pw
                if m < p:
                    d = d + (m + 1) * A[i, m + 1] * pw
                pw = pw * t
            Q[i, j] = q
            D[i, j] = d
    return Q, D


def step(c):
    dt = c.real("dt")
    c.assume(abs(dt) > 1e-3)
    return dt


def inputs_of(c, kind, k):
    return {"none": None, "1d": c.real("U", (k,)), "1row": c.real("U", (1, k)), "2rows": c.real("U", (2, k))}[kind]


def check(c, out, Q, D, U, J, reshape=False):
    c.true("number of results", isinstance(out, tuple) and len(out) == (2 if U is None else 3))
    c.eq("states at the returned instants", out[0], Q[:, J])
    c.eq("derivatives at the returned instants", out[1], D[:, J])
    if U is not None:
        V = U[..., J]
        if reshape and U.ndim == 1:
            V = V.reshape((1, len(J)))
        c.eq("inputs at the returned instants", out[2], V)


def func(c, scheme, k, inp):
    p = int(scheme[3])
    dt = step(c)
    Q, D = poly(c, p, [i * dt for i in range(k)])
    U = inputs_of(c, inp, k)
    Q0, U0 = Q.copy(), None if U is None else U.copy()
    f = getattr(c.op.ddt, scheme)
    out = f(Q, dt) if U is None else f(Q, dt, U)
    check(c, out, Q0, D, U0, cols_of(scheme, k))
    c.eq("states untouched", Q, Q0)
    if U is not None:
        c.eq("inputs untouched", U, U0)


def cls(c, scheme, k, inp):
    p = int(scheme[3])
    dt = step(c)
    t0 = c.real("t0")
    t = c.zeros((k,))
    for i in range(k):
        t[i] = t0 + i * dt
    est = c.op.ddt.UniformFiniteDifferencer(t, scheme)
    Q, D = poly(c, p, [i * dt for i in range(k)])
    U = inputs_of(c, inp, k)
    J = cols_of(scheme, k)
    c.eq("dt", est.dt, dt)
    for rnd in range(2):
        check(c, est.estimate(Q, U), Q, D, U, J, reshape=True)
        for shp in ((k,), (2, k), (2, 2, k)):
            X = c.real(f"X{rnd}_{len(shp)}", shp)
            c.eq("mask", est.mask(X), X[..., J])
    c.eq("time domain kept", est.time_domain, t)


def integer_data(c, scheme, k, typ):
    """Snapshots held in an integer array are differentiated like any others."""
    np = c.np
    dt = step(c)
    raw = [[3, -1, 4, 1, -5, 9, 2, 6][:k], [2, 7, -1, 8, 2, -8, 1, 8][:k]]
    Q = np.array(raw, dtype=int)
    F = c.const(raw)
    if typ == "func":
        a, b = getattr(c.op.ddt, scheme)(Q, dt), getattr(c.op.ddt, scheme)(F, dt)
    elif typ == "ddt":
        a, b = (F, c.op.ddt.ddt(Q, dt=dt, order=int(scheme[3]))), (F, c.op.ddt.ddt(F, dt=dt, order=int(scheme[3])))
    c.eq("same derivatives", a[1], b[1])
    # Independent value at an interior point of the second-order scheme.
    if scheme == "ord2":
        for j in range(1, k - 1):
            c.eq("central difference", a[1][0, j] * 2 * dt, raw[0][j + 1] - raw[0][j - 1], shape=False)


def grid(c, k, name="t"):
    h = c.real(name + "h", (k - 1,), dom="pos")
    t = c.zeros((k,))
    t[0] = c.real(name + "0")
    for i in range(k - 1):
        t[i + 1] = t[i] + h[i]
    return t, h


def nonuniform(c, k, inp, api):
    t, h = grid(c, k)
    taus = [0]
    for i in range(k - 1):
        taus.append(taus[-1] + h[i])
    Q, D = poly(c, 2, taus)
    U = inputs_of(c, inp, k)
    J = list(range(k))
    if api == "class":
        est = c.op.ddt.NonuniformFiniteDifferencer(t)
        check(c, est.estimate(Q, U), Q, D, U, J, reshape=True)
        for shp in ((k,), (2, k)):
            X = c.real(f"X{len(shp)}", shp)
            c.eq("mask", est.mask(X), X)
    elif api == "ddt_nonuniform":
        c.eq("derivatives", c.op.ddt.ddt_nonuniform(Q, t), D)
    elif api == "ddt-pos":
        c.eq("derivatives", c.op.ddt.ddt(Q, t), D)
    else:
        c.eq("derivatives", c.op.ddt.ddt(Q, t=t), D)


def uniform_api(c, order, k, api):
    dt = step(c)
    Q, D = poly(c, order, [i * dt for i in range(k)])
    f = c.op.ddt.ddt
    if api == "ddt_uniform":
        out = c.op.ddt.ddt_uniform(Q, dt, order=order)
    elif api == "ddt_uniform-pos":
        out = c.op.ddt.ddt_uniform(Q, dt, order)
    elif api == "pos2":
        out = f(Q, dt, order)
    elif api == "pos-kw":
        out = f(Q, dt, order=order)
    elif api == "kw":
        out = f(Q, dt=dt, order=order)
    elif api == "kw-order2":
        out = f(Q, dt=dt)
    elif api == "default":
        out = c.op.ddt.ddt_uniform(Q, dt)
    c.eq("derivatives", out, D)


class Line:
    """A user-supplied interpolator: the Lagrange polynomial, plus an option."""

    def __init__(self, t, states, offset=0):
        self.t, self.y, self.offset = t, states, offset

    def __call__(self, s, nu=0):
        n = len(self.t)
        out = 0
        for i in range(n):
            w = self.w(i, s, nu)
            out = out + self.y[..., i : i + 1] * w
        return out + self.offset * (s if nu == 0 else 1 + 0 * s)

    def w(self, i, s, nu):
        J = [j for j in range(len(self.t)) if j != i]
        den = 1
        for j in J:
            den = den * (self.t[i] - self.t[j])
        if nu == 0:
            num = 1 + 0 * s
            for j in J:
                num = num * (s - self.t[j])
            return num / den
        num = 0 * s
        for q in J:
            p = 1 + 0 * s
            for j in J:
                if j != q:
                    p = p * (s - self.t[j])
            num = num + p
        return num / den


NAMES = {"cubic": "CubicSpline", "akima": "Akima1DInterpolator", "pchip": "PchipInterpolator"}


def interp(c, kind, k, new, inp):
    t, h = grid(c, k)
    opts = {}
    IC = kind
    if kind == "custom":
        IC, opts = Line, dict(offset=c.real("o"))
    elif kind == "class":
        IC, opts = c.op.ddt.InterpDerivativeEstimator(t, "pchip").InterpolatorClass, dict(axis=1)
    elif kind == "default":
        IC = None
    t2 = None
    if new:
        t2 = c.zeros((new,))
        w = c.real("w", (new,), dom="pos")
        for j in range(new):
            i = (j * (k - 1)) // new
            t2[j] = t[i] + w[j] / (1 + w[j]) * h[i]
    E = c.op.ddt.InterpDerivativeEstimator
    kw = dict(opts)
    if new:
        kw["new_time_domain"] = t2
    est = E(t, **kw) if IC is None else E(t, IC, **kw)
    if kind in NAMES or kind == "default":
        c.true("interpolator", est.InterpolatorClass.__name__ == NAMES.get(kind, "CubicSpline"))
    Q = c.real("Q", (2, k))
    U = inputs_of(c, inp, k)

    def row(y, at, nu):
        if kind == "custom":
            return Line(t, y, **opts)(at, nu)
        return est.InterpolatorClass(t, y)(at, nu)

    def rows(Y, at, nu):
        return c.np.stack([row(Y[i], at, nu) for i in range(Y.shape[0])])

    at = t if t2 is None else t2
    for rnd in range(2):
        out = est.estimate(Q, U)
        c.true("number of results", len(out) == (2 if U is None else 3))
        c.eq("states", out[0], Q if t2 is None else rows(Q, at, 0))
        c.eq("derivatives", out[1], rows(Q, at, 1))
        if U is not None:
            U2 = U if U.ndim == 2 else U.reshape((1, k))
            c.eq("inputs", out[2], U2 if t2 is None else rows(U2, at, 0))
        c.eq("mask of the states", est.mask(Q), out[0])
        X = c.real(f"X{rnd}", (k,))
        c.eq("mask of a one-dimensional array", est.mask(X), X if t2 is None else row(X, at, 0))
    if kind in ("cubic", "default") and k == 4:
        # Four points: the spline is the cubic polynomial, exactly.
        s = c.real("A", (4,))
        Y = c.zeros((1, k))
        for j in range(k):
            Y[0, j] = s[0] + s[1] * t[j] + s[2] * t[j] ** 2 + s[3] * t[j] ** 3
        out = est.estimate(Y)
        c.eq("exact derivative of a cubic", out[1][0], s[1] + 2 * s[2] * at + 3 * s[3] * at**2)


def rejects(c, what):
    ops, np = c.op.ddt, c.np
    err = (c.op.errors.DimensionalityError,)
    k = 6
    dt = step(c)
    t = c.zeros((k,))
    t0 = c.real("t0")
    for i in range(k):
        t[i] = t0 + i * dt
    Q = c.real("Q", (2, k))
    if what == "grid":
        h = c.real("h", (k - 1,), dom="pos")
        c.assume(abs(h[3] - h[0]) > 0.01 * h[0])
        s = c.zeros((k,))
        for i in range(k - 1):
            s[i + 1] = s[i] + h[i]
        c.raises("nonuniform grid", (ValueError,), lambda: ops.UniformFiniteDifferencer(s))
        return
    c.raises("2-D time domain", (ValueError,), lambda: ops.UniformFiniteDifferencer(t.reshape((2, 3))))
    c.raises("list time domain", (ValueError,), lambda: ops.NonuniformFiniteDifferencer(list(t)))
    c.raises("unknown scheme", (ValueError,), lambda: ops.UniformFiniteDifferencer(t, "fwd7"))
    c.raises("unknown interpolator", (ValueError,), lambda: ops.InterpDerivativeEstimator(t, "linear"))
    c.raises("bad order", (NotImplementedError,), lambda: ops.ddt_uniform(Q, dt, order=3))
    c.raises("array dt", (TypeError,), lambda: ops.ddt_uniform(Q, t))
    c.raises("1-D states", err, lambda: ops.ddt_uniform(Q[0], dt))
    c.raises("1-D states", err, lambda: ops.ddt_nonuniform(Q[0], t))
    c.raises("2-D time", err, lambda: ops.ddt_nonuniform(Q, Q))
    c.raises("misaligned", err, lambda: ops.ddt_nonuniform(Q, t[:-1]))
    c.raises("nothing", (TypeError,), lambda: ops.ddt(Q))
    c.raises("order only", (TypeError,), lambda: ops.ddt(Q, order=2))
    c.raises("too many", (TypeError,), lambda: ops.ddt(Q, dt, 4, 5))
    for cl in ("UniformFiniteDifferencer", "NonuniformFiniteDifferencer"):
        e = getattr(ops, cl)(t)
        c.raises("1-D states", err, lambda: e.estimate(Q[0]))
        c.raises("misaligned inputs", err, lambda: e.estimate(Q, c.real("U", (2, k - 1))))
        c.raises("misaligned 1-D inputs", err, lambda: e.estimate(Q, c.real("U", (k + 1,))))
    e = ops.NonuniformFiniteDifferencer(t)
    c.raises("misaligned states", err, lambda: e.estimate(Q[:, 1:]))
    # too few snapshots for the stencil
    for sch in ("fwd1", "bwd2", "ctr4", "ord2", "ord4", "ord6"):
        p = int(sch[3])
        c.raises("too few snapshots " + sch, None, lambda: getattr(ops, sch)(Q[:, : p - 1] if p > 1 else Q[:, :0], dt))


def cases(tier):
    out = []
    hi = 5 if tier == "thorough" else 3

    def add(name, fn, **kw):
        out.append((name, fn, kw))

    for s in SCHEMES:
        p = int(s[3])
        for i, k in enumerate(range(p + 1, p + hi + 1)):
            for j, inp in enumerate(("none", "1d", "1row", "2rows")):
                if tier == "thorough" or (i + j) % 2 == 0 or k == 2 * p:
                    add(f"func-{s}-{k}-{inp}", func, scheme=s, k=k, inp=inp)
                if tier == "thorough" or (i + j) % 2 == 1:
                    add(f"class-{s}-{k}-{inp}", cls, scheme=s, k=k, inp=inp)
    for s in SCHEMES:
        add(f"int-{s}", integer_data, scheme=s, k=8, typ="func")
    for s in ("ord2", "ord4", "ord6"):
        add(f"int-ddt-{s}", integer_data, scheme=s, k=8, typ="ddt")
    for k in range(3, 7 if tier == "thorough" else 6):
        for inp in ("none", "1d", "2rows"):
            add(f"nonuniform-{k}-{inp}", nonuniform, k=k, inp=inp, api="class")
        for api in ("ddt_nonuniform", "ddt-pos", "ddt-kw"):
            add(f"nonuniform-{k}-{api}", nonuniform, k=k, inp="none", api=api)
    for order in (2, 4, 6):
        for k in (order + 1, order + 3):
            for api in ("ddt_uniform", "ddt_uniform-pos", "pos2", "pos-kw", "kw"):
                add(f"uniform-{order}-{k}-{api}", uniform_api, order=order, k=k, api=api)
    for api in ("kw-order2", "default"):
        add(f"uniform-{api}", uniform_api, order=2, k=5, api=api)
    for kind in ("cubic", "akima", "pchip", "custom", "class", "default"):
        for k in (3, 4) if tier != "thorough" else (2, 3, 4, 5):
            for new in (0, 1, 2, k, k + 1):
                for inp in ("none", "1d", "2rows"):
                    if tier != "thorough" and (new + len(inp) + k) % 2 and kind not in ("cubic", "custom"):
                        continue
                    add(f"interp-{kind}-{k}-{new}-{inp}", interp, kind=kind, k=k, new=new, inp=inp)
    add("rejects-grid", rejects, what="grid")
    add("rejects-rest", rejects, what="rest")
    return out
