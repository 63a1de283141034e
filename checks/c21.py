"""C21: reported errors are the documented norms of the true difference."""

from fractions import Fraction

BOUNDS = ("n<=3 rows, k<=4 snapshots, one- and two-dimensional data; norm orders 1/2, 1, 3/2, 2, 3, 4 and infinity; normalised or not; non-uniform increasing time grids "
          "with symbolic step sizes; all real truths (non-zero where the relative error is defined), approximations and bases")
OUTSIDE = "zero truth; irrational orders; larger arrays; floating-point rounding"
INF = float("inf")


def power(c, x, p):
    """Sum of |x_i|^p as (list of |x_i|^(1/b) ...) kept polynomial: returns f with f(y)=y^a."""
    p = Fraction(p).limit_denominator(50)
    return p.numerator, p.denominator


def ipow(x, k):
    out = x
    for _ in range(k - 1):
        out = out * x
    return out


def pth(c, x, p):
    """|x|^p for a scalar expression x."""
    a, b = power(c, x, p)
    if b == 1 and a % 2 == 0:
        return ipow(x, a)
    y = abs(x)
    if b == 1:
        return ipow(y, a)
    assert b == 2
    return ipow(c.sqrt(y), a)


def is_norm(c, lab, got, comps, p, weights=None):
    """got is the p-norm of comps: got >= 0 and got^p = sum w |x|^p."""
    if p == INF:
        for x in comps:
            c.le(f"{lab} bounds every entry", abs(x), got)
        hit = None
        for x in comps:
            e = c.np.equal(abs(x), got) if c.symbolic else abs(abs(x) - got) <= 1e-9 * (1 + abs(got))
            hit = e if hit is None else (hit | e)
        c.true(f"{lab} is attained", hit)
        return
    w = weights or [1] * len(comps)
    tot = sum(wi * pth(c, x, p) for wi, x in zip(w, comps))
    if p == 2:
        c.eq(lab, got, c.sqrt(tot))
        return
    c.le(f"{lab} non-negative", 0 * tot, got)
    a, b = power(c, got, p)
    c.eq(f"{lab} to the power p", ipow(got, a), tot if b == 1 else ipow(tot, b))


def data(c, shp, nonzero="col"):
    Q, A = c.real("Q", shp), c.real("A", shp)
    if nonzero == "col" and len(shp) == 2:
        for j in range(shp[1]):
            c.assume(c.np.abs(Q[0, j]) >= .01)
    else:
        c.assume(c.np.abs(Q.ravel()[0]) >= .01)
    return Q, A


def wrapup(c, Q, A, kq, ka):
    c.eq("caller's truth", Q, kq)
    c.eq("caller's approximation", A, ka)


def lp(c, shp, p, normalize):
    Q, A = data(c, shp)
    kq, ka = Q.copy(), A.copy()
    f = c.op.post.lp_error
    kw = {} if p == "default" else {"p": p}
    if normalize is not None:
        kw["normalize"] = normalize
    err, rel = f(Q, A, **kw)
    p = 2 if p == "default" else p
    one = len(shp) == 1
    cols = lambda M: [list(M)] if one else [list(M[:, j]) for j in range(shp[1])]
    E = [err] if one else list(err)
    R = [rel] if one else list(rel)
    if not one:
        c.true("one error per snapshot", err.shape == (shp[1],) and rel.shape == (shp[1],))
    # the norm of the truth, obtained from the error against zero
    N0 = f(Q, 0 * Q, **kw)[0]
    N = [N0] if one else list(N0)
    for j, (e, q, a) in enumerate(zip(E, cols(kq), cols(ka))):
        is_norm(c, f"error {j}", e, [x - y for x, y in zip(q, a)], p)
        is_norm(c, f"norm {j}", N[j], q, p)
    if normalize:
        top = N[0]
        for x in N[1:]:
            top = c.np.maximum(top, x)
        for j, e in enumerate(E):
            c.eq(f"normalised {j}", R[j] * top, e)
    else:
        for j, e in enumerate(E):
            c.eq(f"relative {j}", R[j] * N[j], e)
    z, zr = f(Q, Q.copy(), **kw)
    c.eq("exact approximation", z, 0 * E[0] if one else c.zeros((shp[1],)))
    c.eq("exact approximation, relative", zr, 0 * E[0] if one else c.zeros((shp[1],)))
    wrapup(c, Q, A, kq, ka)


def grid(c, k, free=True):
    if not free:
        t = [.25, .5, 2.0, 2.25][:k]
        hs = [b - a for a, b in zip(t, t[1:])]
        w = [0] * k
        for i, h in enumerate(hs):
            w[i] += h / 2
            w[i + 1] += h / 2
        return c.np.array(t), w
    acc = c.real("t0")
    ts = [acc]
    hs = []
    for i in range(k - 1):
        h = c.real(f"h{i}", (), "pos") + .01
        hs.append(h)
        acc = acc + h
        ts.append(acc)
    w = [0] * k
    for i, h in enumerate(hs):
        w[i] = w[i] + h / 2
        w[i + 1] = w[i + 1] + h / 2
    return c.np.array(ts), w


def Lp(c, shp, p, free=True):
    Q, A = data(c, shp, "first")
    k = shp[-1]
    kq, ka = Q.copy(), A.copy()
    f = c.op.post.Lp_error
    if p == INF:
        t, w = None, None
        args, kw = (), {"p": p}
    else:
        t, w = grid(c, k, free)
        args, kw = (t,), ({} if p == "default" else {"p": p})
    p = 2 if p == "default" else p
    err, rel = f(Q, A, *args, **kw)
    N = f(Q, 0 * Q, *args, **kw)[0]
    rows = lambda M: [list(M)] if len(shp) == 1 else [list(M[i]) for i in range(shp[0])]
    flat = lambda M: [x for r in rows(M) for x in r]
    ww = None if w is None else [x for _ in rows(Q) for x in w]
    is_norm(c, "error", err, [x - y for x, y in zip(flat(kq), flat(ka))], p, ww)
    is_norm(c, "norm", N, flat(kq), p, ww)
    c.eq("relative", rel * N, err)
    z, zr = f(Q, Q.copy(), *args, **kw)
    c.eq("exact approximation", z, 0 * err)
    c.eq("exact approximation, relative", zr, 0 * err)
    if p == INF and t is None:
        t2, _ = grid(c, k)
        c.eq("time is not needed", c.np.array(f(Q, A, t2, p)), c.np.array([err, rel]))
    wrapup(c, Q, A, kq, ka)


def frob(c, shp):
    Q, A = data(c, shp, "first")
    kq, ka = Q.copy(), A.copy()
    f = c.op.post.frobenius_error
    err, rel = f(Q, A)
    N = f(Q, 0 * Q)[0]
    is_norm(c, "error", err, [x - y for x, y in zip(kq.ravel(), ka.ravel())], 2)
    is_norm(c, "norm", N, list(kq.ravel()), 2)
    c.eq("relative", rel * N, err)
    c.eq("exact", c.np.array(f(Q, Q.copy())), c.zeros((2,)))
    wrapup(c, Q, A, kq, ka)


def proj(c, shp, r, ortho):
    Q = c.real("Q", shp)
    c.assume(c.np.abs(Q.ravel()[0]) >= .01)
    n = shp[0]
    V = c.orthonormal("V", n, r) if ortho else c.real("V", (n, r))
    kq, kv = Q.copy(), V.copy()
    err, rel = c.op.post.projection_error(Q, V)
    D = Q - V @ (V.T @ Q)
    is_norm(c, "error", err, list(D.ravel()), 2)
    c.eq("relative", rel * c.sqrt(sum(x * x for x in kq.ravel())), err)
    c.eq("caller's states", Q, kq)
    c.eq("caller's basis", V, kv)


def scaled(c, which, shp, p, sign):
    """Scaling truth and approximation together."""
    Q, A = data(c, shp)
    s = c.real("s", (), "pos") if sign == "pos" else -1
    if sign == "pos":
        c.assume(s >= .1)
    P = c.op.post
    t = c.np.array([0.0, .5, 2.0, 2.25][:shp[-1]])
    f = {"lp": lambda X, Y: P.lp_error(X, Y, p), "lpn": lambda X, Y: P.lp_error(X, Y, p, True), "Lp": lambda X, Y: P.Lp_error(X, Y, t, p),
         "fro": P.frobenius_error}[which]
    e, r = f(Q, A)
    es, rs = f(s * Q, s * A)
    c.eq("absolute errors scale", es, abs(s) * e)
    c.eq("relative errors do not change", rs, r)


def shapes(c):
    P = c.op.post
    t = c.np.array([0.0, 1.0, 2.0])
    a, b = c.real("a", (2, 3)), c.real("b", (2, 2))
    v, w, x3 = c.real("v", (3,)), c.real("w", (2,)), c.real("x", (2, 3, 1))
    for lab, f in (("frobenius", P.frobenius_error), ("lp", P.lp_error), ("Lp", lambda x, y: P.Lp_error(x, y, t))):
        c.raises(f"{lab}: shapes differ", (ValueError,), lambda: f(a, b))
        c.raises(f"{lab}: row against matrix", (ValueError,), lambda: f(a, v))
        c.raises(f"{lab}: 3-D", (ValueError,), lambda: f(x3, x3))
    c.raises("frobenius: 1-D", (ValueError,), lambda: P.frobenius_error(v, v))
    c.raises("Lp: no time", (ValueError,), lambda: P.Lp_error(a, a))
    c.raises("Lp: short time", (ValueError,), lambda: P.Lp_error(a, a, t[:2]))
    c.raises("Lp: 2-D time", (ValueError,), lambda: P.Lp_error(a, a, a))
    for p in (0, -1, -INF):
        c.raises(f"lp: p={p}", (ValueError,), lambda: P.lp_error(a, a, p))
        c.raises(f"Lp: p={p}", (ValueError,), lambda: P.Lp_error(a, a, t, p))


def cases(tier):
    th = tier == "thorough"
    ps = ["default", 1, 2, INF, 3, 4, 0.5, 1.5]
    for p in ps:
        for shp in [(1,), (2,), (3,), (1, 1), (2, 2), (3, 2), (1, 3)] + ([(3, 3), (2, 4)] if th else []):
            if p in (1.5, 3, 4) and max(shp) > 2 and not th:
                continue
            s = "x".join(map(str, shp))
            for nz in (None, True, False):
                if p == "default" and nz is False:
                    continue
                yield f"lp-{p}-{s}-{nz}", lp, dict(shp=shp, p=p, normalize=nz)
        for shp in [(2,), (3,), (1, 2), (2, 2), (2, 3), (1, 4)] + ([(3, 3), (2, 4)] if th else []):
            if p in (1.5, 3, 4) and max(shp) > 2 and not th:
                continue
            s = "x".join(map(str, shp))
            if p != INF and not (p == 1.5 and len(shp) == 2 and min(shp) > 1):
                yield f"Lp-{p}-{s}-grid", Lp, dict(shp=shp, p=p, free=False)
            if p in (1, INF) or shp[-1] == 2 and shp[0] == 1 or len(shp) == 1 and p not in (3, 4) or th:
                yield f"Lp-{p}-{s}", Lp, dict(shp=shp, p=p)
    for shp in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)]:
        yield f"fro-{shp[0]}x{shp[1]}", frob, dict(shp=shp)
    for shp in [(2,), (3,), (2, 2), (3, 2)]:
        for r in (1, 2):
            for o in (True, False):
                yield f"proj-{'x'.join(map(str, shp))}-{r}-{o}", proj, dict(shp=shp, r=r, ortho=o)
    for w in ("lp", "lpn", "Lp", "fro"):
        for p in ((1, 2, INF) if w != "fro" else (2,)):
            for shp in [(2,), (1, 2) if w == "Lp" else (2, 2)]:
                if len(shp) == 1 and w == "fro":
                    continue
                for sign in ("pos", "flip"):
                    yield f"scaled-{w}-{p}-{len(shp)}-{sign}", scaled, dict(which=w, shp=shp, p=p, sign=sign)
    yield "shapes", shapes, {}
