"""C09: solver diagnostics agree with the fitted data and regulariser."""

from checks.c08 import L, svd_data, register, gamma, rhs_of, full_rank

BOUNDS = "k<=3, d<=3, r<=2; all real data, candidates and regularisers; all solver classes; before and after refit / new regulariser"
OUTSIDE = "larger systems; floating-point rounding; the plain condition number (numpy.linalg.cond)"
ASSUMPTIONS = ["scipy.linalg.svd returns an exact SVD; lstsq/solve as in C08"]


def make(c, which, reg=None, method="normal"):
    lib = L(c)
    if which == "Plain":
        return lib.PlainSolver()
    if which == "TSVD":
        return lib.TruncatedSVDSolver(None)
    if which == "TLS":
        return lib.TotalLeastSquaresSolver()
    if which == "L2":
        return lib.L2Solver(reg)
    if which == "L2D":
        return lib.L2DecoupledSolver(reg)
    if which == "T":
        return lib.TikhonovSolver(reg, method=method)
    return lib.TikhonovDecoupledSolver(reg, method=method)


def regs(c, which, d, r, tag="", form="diag"):
    """(regulariser, list of Gamma' Gamma, one per row)"""
    if which == "L2":
        g = c.real(f"lam{tag}", (), "pos")
        return g, [g * g * c.eye(d) for _ in range(r)]
    if which == "L2D":
        g = c.real(f"lam{tag}", (r,), "pos")
        return g, [g[i] * g[i] * c.eye(d) for i in range(r)]
    if which == "T":
        g, GG = gamma(c, form, d, f"G{tag}")
        return g, [GG] * r
    if which == "TD":
        pr = [gamma(c, form if i == 0 else "diag", d, f"G{tag}{i}") for i in range(r)]
        return [p[0] for p in pr], [p[1] for p in pr]
    return None, [c.zeros((d, d))] * r


def misfit(c, X, D, Z):
    E = X @ D.T - Z
    return c.np.array([sum(E[i, j] * E[i, j] for j in range(E.shape[1])) for i in range(E.shape[0])])


def quad(c, X, GGs):
    return c.np.array([X[i] @ GGs[i] @ X[i] for i in range(X.shape[0])])


def residuals(c, which, k, d, r, flat=False, form="diag"):
    c.opt("svd_fresh", True)
    g, GG = regs(c, which, d, r, form=form)
    S = make(c, which, g)
    for rnd, kk in enumerate((k, k + 1)):
        D = c.real(f"D{rnd}", (kk, d))
        Z, z = rhs_of(c, r, kk, flat, f"Z{rnd}")
        D0, Z0 = D.copy(), Z.copy()
        S.fit(D, z)
        c.true("dimensions", (S.k, S.d, S.r) == (kk, d, r))
        c.eq("data matrix", S.data_matrix, D0)
        c.eq("lhs matrix", S.lhs_matrix, Z0)
        X = c.real(f"X{rnd}", (r, d))
        X0 = X.copy()
        R = S.residual(X)
        c.true("residual shape", R.shape == (r,))
        c.eq("residual", R, misfit(c, X, D0, Z0))
        if r == 1:
            c.eq("residual of a 1-D candidate", S.residual(X[0]), misfit(c, X, D0, Z0))
        if g is not None:
            c.eq("regresidual", S.regresidual(X), misfit(c, X, D0, Z0) + quad(c, X, GG))
            g2, GG2 = regs(c, which, d, r, f"n{rnd}", form)
            S.regularizer = g2
            c.eq("regresidual after new regulariser", S.regresidual(X), misfit(c, X, D0, Z0) + quad(c, X, GG2))
            c.eq("residual ignores the regulariser", S.residual(X), misfit(c, X, D0, Z0))
            GG = GG2
        c.eq("candidate untouched", X, X0)
        c.eq("data untouched", D, D0)
        c.eq("lhs untouched", Z, Z0)


def posterior(c, which, k, d, r, method="normal", form="diag", change=False):
    """Means minimise the objective; precision = Gram / noise variance, with
    noise variance = regularised residual of the mean / k."""
    if which in ("L2", "L2D"):
        m1 = svd_data(c, k, d)
        register(c, m1)
        D = m1[0]
    else:
        D = c.real("D", (k, d))
    Z = c.real("Z", (r, k))
    g, GG = regs(c, which, d, r, form=form)
    S = make(c, which, g, method)
    S.fit(D, Z)
    if change:
        S.posterior() if change == "twice" else None
        g, GG = regs(c, which, d, r, "n", form)
        S.regularizer = g
    X = S.solve()
    try:
        mean, prec = S.posterior()
    except RuntimeError:  # documented: only for a vanishing residual
        phi = S.regresidual(X)
        if r == 1:
            c.le("error only for a vanishing residual", phi[0], 1e-12)
        elif not c.symbolic:
            c.le("error only for a vanishing residual", min(phi), 1e-12)
        else:
            c.ok("error")
        return
    c.eq("mean", mean, X)
    c.true("one precision per row", len(prec) == r)
    phi = misfit(c, X, D, Z) + quad(c, X, GG)
    for i in range(r):
        c.eq(f"precision {i}", prec[i] * phi[i], k * (D.T @ D + GG[i]))
        c.eq(f"precision {i} symmetric", prec[i], prec[i].T)


def deterministic(c, which, k, d):
    """A zero residual has no posterior: reported as an error."""
    D = c.real("D", (k, d))
    c.opt("svd_fresh", False)
    X0 = c.real("X0", (1, d))
    if which in ("L2", "L2D"):
        m1 = svd_data(c, k, d)
        register(c, m1)
        D = m1[0]
    g = {"L2": 0.0, "L2D": [0.0], "T": [0.0] * d, "TD": [[0.0] * d]}[which]
    full_rank(c, D)
    S = make(c, which, g).fit(D, c.zeros((1, k)))
    c.raises("posterior", (RuntimeError,), S.posterior)


def regcond(c, which, k, d, r):
    """Squared regularised condition number = ratio of the extreme eigenvalues
    of D'D + lambda^2 I."""
    m1 = svd_data(c, k, d)
    register(c, m1)
    D, U, s, V = m1
    Z = c.real("Z", (r, k))
    g, GG = regs(c, which, d, r)
    S = make(c, which, g).fit(D, Z)
    lam = [g] if which == "L2" else list(g)
    out = S.regcond()
    outs = [out] if which == "L2" else list(out)
    c.true("one per row", len(outs) == len(lam))
    small = s[-1] if k >= d else 0
    for o, x in zip(outs, lam):
        c.eq("regcond^2", o * o * (small * small + x * x), s[0] * s[0] + x * x)
        c.true("sign", o > 0)


def tik_regcond(c, which, d, r, k=2):
    """The condition number is taken of the data stacked on the regulariser."""
    seen = []

    def cond(a, p=None):
        seen.append((a, p))
        return 7.0

    D, Z = c.real("D", (k, d)), c.real("Z", (r, k))
    g, GG = regs(c, which, d, r)
    S = make(c, which, g).fit(D, Z)
    if c.symbolic:
        c.replace("linalg.cond", cond)
        out = S.regcond()
        c.true("two-norm", all(p in (None, 2) for _, p in seen))
        c.true("count", len(seen) == (1 if which == "T" else r))
        for i, (a, _) in enumerate(seen):
            c.eq(f"Gram{i}", a.T @ a, D.T @ D + GG[i])
    else:
        out = S.regcond()
        outs = [out] if which == "T" else list(out)
        for o, gg in zip(outs, GG):
            c.eq("cond", o * o, c.np.linalg.cond(D.T @ D + gg), loose=True)


def cases(tier):
    th = tier == "thorough"
    for w in ("Plain", "L2", "L2D", "T", "TD", "TSVD"):
        for k, d, r in ((1, 1, 1), (2, 2, 1), (2, 2, 2), (3, 2, 2), (2, 3, 2)) + (((3, 3, 3),) if th else ()):
            yield f"residual-{w}-{k}-{d}-{r}", residuals, dict(which=w, k=k, d=d, r=r)
            if r == 1:
                yield f"residual-{w}-{k}-{d}-flat", residuals, dict(which=w, k=k, d=d, r=1, flat=True)
        if w in ("T", "TD"):
            for form in ("full", "sparse", "nested"):
                yield f"residual-{w}-{form}", residuals, dict(which=w, k=2, d=2, r=2, form=form)
    for w in ("L2", "L2D", "T", "TD"):
        for k, d, r in ((2, 1, 1), (3, 1, 2) if w in ("T", "TD") else (2, 1, 2), (2, 2, 2)) + (((3, 2, 2),) if w in ("T", "TD") else ()) + (((1, 2, 2),) if th else ()):
            for ch in (False, True):
                if w in ("T", "TD"):
                    for meth in ("normal", "lstsq"):
                        if (k, meth) == (3, "lstsq") and d == 2:
                            continue
                        yield f"posterior-{w}-{k}-{d}-{r}-{meth}-{ch}", posterior, dict(which=w, k=k, d=d, r=r, method=meth, change=ch)
                        if d == 2 and k == 2 and meth == "normal":
                            yield f"posterior-{w}-full-{meth}-{ch}", posterior, dict(which=w, k=k, d=d, r=1, method=meth, form="full", change=ch)
                else:
                    yield f"posterior-{w}-{k}-{d}-{r}-{ch}", posterior, dict(which=w, k=k, d=d, r=r, change=ch)
        yield f"deterministic-{w}", deterministic, dict(which=w, k=2, d=1)
    for w in ("L2", "L2D"):
        for k, d, r in ((2, 1, 1), (1, 2, 2), (2, 2, 2), (3, 2, 1), (2, 3, 2)):
            yield f"regcond-{w}-{k}-{d}-{r}", regcond, dict(which=w, k=k, d=d, r=r)
    for w in ("T", "TD"):
        for d, r in ((1, 1), (2, 2), (3, 1)):
            yield f"regcond-{w}-{d}-{r}", tik_regcond, dict(which=w, d=d, r=r)
