"""C08: least-squares solvers return the minimiser of their stated objective.

Every objective is a convex quadratic, so a candidate is a minimiser iff the
gradient vanishes there."""

BOUNDS = ("k<=3 snapshots, d<=2 unknown columns (3 in the thorough tier), r<=2 right-hand sides; all real data, all positive regularisers "
          "(any matrix for Tikhonov), re-assigned and re-fitted")
OUTSIDE = "larger systems; floating-point rounding; LAPACK itself (replaced by its postcondition); rank-deficient data without regularisation"
ASSUMPTIONS = ["scipy.linalg.svd returns an exact SVD; scipy.linalg.lstsq a solution of the normal equations; scipy.linalg.solve the exact solution"]


def L(c):
    return c.op.lstsq


def svd_data(c, k, d, name="", zero=False):
    """An arbitrary k x d matrix through its SVD, registered as such."""
    p = min(k, d)
    U = c.orthonormal(f"U{name}", k, p)
    V = c.orthonormal(f"V{name}", d, p)
    if zero:  # rank one less
        s = c.np.array([c.real(f"s{name}{i}", (), "pos") if i < p - 1 else 0.0 for i in range(p)])
    else:
        s = c.real(f"s{name}", (p,), "pos")
    for i in range(p - 1):
        c.assume(s[i] >= s[i + 1])
    D = (U * s) @ V.T
    return D, U, s, V


def register(c, *mats):
    if c.symbolic:
        c.opt("svd", [(D, U, s, V.T) for D, U, s, V in mats])


def grad(c, label, X, D, Z, penalty=None):
    """(X D' - Z) D + penalty(X) = 0."""
    g = (X @ D.T - Z) @ D
    if penalty is not None:
        g = g + penalty(X)
    c.eq(label, g, c.zeros(g.shape))


def full_rank(c, D):
    """Full column rank, well away from singular."""
    G = D.T @ D
    if D.shape[1] == 1:
        g = G[0, 0]
    elif D.shape[1] == 2:
        g = G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]
    else:
        g = sum(G[0, i] * (G[1, (i + 1) % 3] * G[2, (i + 2) % 3] - G[1, (i + 2) % 3] * G[2, (i + 1) % 3]) for i in range(3))
    c.assume(g >= 0.01)


def rhs_of(c, r, k, flat, name="Z"):
    Z = c.real(name, (r, k))
    return Z, (Z[0] if flat else Z)


def unchanged(c, D, Z, D0, Z0):
    c.eq("data untouched", D, D0)
    c.eq("lhs untouched", Z, Z0)


def plain(c, k, d, r, flat=False, deficient=False):
    S = L(c).PlainSolver()
    D = c.real("D", (k, d))
    if not deficient:
        full_rank(c, D)
    Z, z = rhs_of(c, r, k, flat)
    D0, Z0 = D.copy(), Z.copy()
    S.fit(D, z)
    X = S.solve()
    c.true("shape", X.shape == (r, d))
    grad(c, "gradient", X, D0, Z0)
    unchanged(c, D, Z, D0, Z0)
    D2, Z2 = c.real("D2", (k, d)), c.real("Z2", (r, k))
    if not deficient:
        full_rank(c, D2)
    S.fit(D2, Z2)
    grad(c, "gradient after refit", S.solve(), D2, Z2)


def l2(c, k, d, r, flat=False, decoupled=False, form="array", refit=False, none_first=False):
    m1 = svd_data(c, k, d)
    m2 = svd_data(c, k, d, "b") if refit else None
    register(c, *([m1, m2] if refit else [m1]))
    D = m1[0]
    Z, z = rhs_of(c, r, k, flat)
    D0, Z0 = D.copy(), Z.copy()
    ls = [c.real(f"lam{i}", (r,), "pos") for i in range(2)]
    if not decoupled:
        g = [x[0] for x in ls]
        S = L(c).L2Solver(None if none_first else g[0])
        pen = lambda i: (lambda X: g[i] * g[i] * X)
    else:
        g = [list(x) if form == "list" else x for x in ls]
        S = L(c).L2DecoupledSolver(None if none_first else g[0])
        pen = lambda i: (lambda X: (ls[i] * ls[i])[:, None] * X)
    S.fit(D, z)
    if none_first:
        S.regularizer = g[0]
    X = S.solve()
    c.true("shape", X.shape == (r, d))
    grad(c, "gradient", X, D0, Z0, pen(0))
    c.eq("solve twice", S.solve(), X)
    S.regularizer = g[1]
    grad(c, "gradient after new regulariser", S.solve(), D0, Z0, pen(1))
    unchanged(c, D, Z, D0, Z0)
    if refit:
        Zb = c.real("Zb", (r, k))
        S.fit(m2[0], Zb)
        grad(c, "gradient after refit", S.solve(), m2[0], Zb, pen(1))


def l2_zero(c, k, d, r, decoupled):
    """No regularisation, full-rank data."""
    m1 = svd_data(c, k, d)
    register(c, m1)
    c.assume(m1[2][-1] >= 0.1)
    Z = c.real("Z", (r, k))
    S = L(c).L2DecoupledSolver([0.0] * r) if decoupled else L(c).L2Solver(0)
    grad(c, "gradient", S.fit(m1[0], Z).solve(), m1[0], Z)


def gamma(c, form, d, name):
    """(regulariser as given, Gamma' Gamma)."""
    if form in ("diag", "listdiag"):
        g = c.real(name, (d,), "pos")
        return (list(g) if form == "listdiag" else g), c.np.diag(g * g)
    if form == "nonneg":
        g = c.real(name, (d,), "nonneg")
        return g, c.np.diag(g * g)
    G = c.real(name, (d, d))
    full_rank(c, G)
    given = [list(row) for row in G] if form == "nested" else G.copy()
    if form == "sparse":
        given = c.sparse.csr_array(given)
    return given, G.T @ G


def tik(c, k, d, r, forms, method, decoupled=False, flat=False, refit=False, switch=None, none_first=False):
    D = c.real("D", (k, d))
    Z, z = rhs_of(c, r, k, flat)
    D0, Z0 = D.copy(), Z.copy()
    if "nonneg" in forms or (isinstance(forms[0], tuple) and any("nonneg" in f for f in forms)):
        full_rank(c, D)
    lib = L(c)
    regs, pens = [], []
    for n, form in enumerate(forms):
        if decoupled:
            prs = [gamma(c, form[i % len(form)], d, f"G{n}{i}") for i in range(r)]
            regs.append([p[0] for p in prs])
            pens.append(lambda X, prs=prs: c.np.vstack([X[i:i + 1] @ prs[i][1] for i in range(r)]))
        else:
            g, GG = gamma(c, form, d, f"G{n}")
            regs.append(g)
            pens.append(lambda X, GG=GG: X @ GG)
    cls = lib.TikhonovDecoupledSolver if decoupled else lib.TikhonovSolver
    S = cls(None if none_first else regs[0], method=method)
    S.fit(D, z)
    if none_first:
        S.regularizer = regs[0]
    X = S.solve()
    c.true("shape", X.shape == (r, d))
    grad(c, "gradient", X, D0, Z0, pens[0])
    for n in range(1, len(forms)):
        S.regularizer = regs[n]
        grad(c, f"gradient after regulariser {n}", S.solve(), D0, Z0, pens[n])
    if switch:
        S.method = switch
        grad(c, "gradient after switching method", S.solve(), D0, Z0, pens[len(forms) - 1])
    unchanged(c, D, Z, D0, Z0)
    if refit:
        D2, Z2 = c.real("D2", (k, d)), c.real("Z2", (r, k))
        if "nonneg" in str(forms):
            full_rank(c, D2)
        S.fit(D2, Z2)
        grad(c, "gradient after refit", S.solve(), D2, Z2, pens[-1])


def operator_regularizer(c, kinds, r, m, affine=()):
    """One parameter per operator: each block of the solution is penalised by
    its own operator's parameter, in the order of the data matrix."""
    O = c.op.operators
    ops = []
    for i, kd in enumerate(kinds):
        if i in affine:
            ops.append(getattr(O, f"Affine{kd}Operator")([lambda mu: mu[0], lambda mu: 1 + mu[1]]))
        else:
            ops.append(getattr(O, f"{kd}Operator")())
    lam = c.real("lam", (len(kinds),), "pos")
    args = (ops, list(lam), r) + ((m,) if m else ())
    reg = L(c).TikhonovSolver.get_operator_regularizer(*args)
    want = []
    for i, kd in enumerate(kinds):
        n = {"Constant": 1, "Linear": r, "Quadratic": r * (r + 1) // 2, "Cubic": r * (r + 1) * (r + 2) // 6,
             "Quartic": r * (r + 1) * (r + 2) * (r + 3) // 24, "Input": m, "StateInput": r * m}[kd]
        want += [lam[i]] * (n * (2 if i in affine else 1))
    c.eq("regularizer", reg, c.np.array(want))


def options_reach(c, which):
    """The user's options are handed to the underlying routine every time."""
    seen = []
    D, Z = c.real("D", (3, 1)), c.real("Z", (2, 3))
    full_rank(c, D)
    if which == "TikhonovDecoupledSolver":
        S = L(c).TikhonovDecoupledSolver([[1.0], [2.0]], cond=1e-3, lapack_driver="gelsy")
    elif which == "TikhonovSolver":
        S = L(c).TikhonovSolver([1.0], cond=1e-3, lapack_driver="gelsy")
    else:
        S = L(c).PlainSolver(cond=1e-3, lapack_driver="gelsy")

    def lstsq(a, b, cond=None, overwrite_a=False, overwrite_b=False, check_finite=True, lapack_driver=None):
        seen.append((cond, lapack_driver))
        return c.zeros((a.shape[1],) + b.shape[1:]), None, None, None

    c.replace("linalg.lstsq", lstsq)
    S.fit(D, Z).solve()
    c.true("options", len(seen) > 0 and all(x == (1e-3, "gelsy") for x in seen))


def cases(tier):
    th = tier == "thorough"
    for k, d, r in ((2, 1, 1), (2, 2, 1), (3, 2, 2), (3, 1, 2)) + (((4, 2, 1), (3, 3, 1)) if th else ()):
        yield f"plain-{k}-{d}-{r}", plain, dict(k=k, d=d, r=r)
        if r == 1:
            yield f"plain-{k}-{d}-flat", plain, dict(k=k, d=d, r=1, flat=True)
    yield "plain-underdetermined", plain, dict(k=1, d=2, r=1, deficient=True)
    yield "plain-rank-deficient", plain, dict(k=2, d=2, r=1, deficient=True)
    for dec in (False, True):
        nm = "l2d" if dec else "l2"
        for k, d, r in ((2, 1, 1), (2, 2, 2), (3, 2, 1), (1, 2, 2), (3, 2, 2), (3, 1, 2), (2, 3, 1)) + (((3, 3, 1), (4, 2, 2)) if th else ()):
            yield f"{nm}-{k}-{d}-{r}", l2, dict(k=k, d=d, r=r, decoupled=dec, refit=(k * d <= 4))
        yield f"{nm}-flat", l2, dict(k=3, d=2, r=1, flat=True, decoupled=dec)
        yield f"{nm}-none-first", l2, dict(k=2, d=2, r=2, decoupled=dec, none_first=True)
        if dec:
            yield f"{nm}-list", l2, dict(k=2, d=2, r=2, decoupled=dec, form="list")
        yield f"{nm}-zero", l2_zero, dict(k=3, d=2, r=2, decoupled=dec)
    for meth in ("normal", "lstsq"):
        other = "lstsq" if meth == "normal" else "normal"
        for forms in (("diag",), ("listdiag", "full"), ("full", "diag"), ("nested",), ("sparse", "diag"), ("nonneg",)):
            for k, d, r in ((2, 1, 2), (2, 2, 1), (3, 2, 2), (1, 2, 1)) + (((3, 3, 1),) if th and forms == ("diag",) else ()):
                if "nonneg" in forms and (k < d or k > 2):
                    continue
                yield f"tik-{meth}-{'+'.join(forms)}-{k}-{d}-{r}", tik, dict(k=k, d=d, r=r, forms=list(forms), method=meth, refit=d == 1 or forms == ("full", "diag"))
        yield f"tik-{meth}-switch", tik, dict(k=2, d=2, r=1, forms=["full"], method=meth, switch=other)
        yield f"tik-{meth}-flat", tik, dict(k=3, d=2, r=1, forms=["diag"], method=meth, flat=True)
        yield f"tik-{meth}-none", tik, dict(k=2, d=2, r=2, forms=["diag"], method=meth, none_first=True)
        for forms in ([("diag", "diag")], [("full", "diag"), ("diag", "listdiag")], [("sparse", "full")], [("nested", "nonneg")]):
            for k, d, r in ((2, 1, 2), (3, 2, 2)) + (((3, 2, 1), (2, 2, 3)) if th else ((3, 2, 1),)):
                tag = "+".join("/".join(f) for f in forms)
                if "nonneg" in tag and k == 3:
                    k = 2
                if r == 3 and len(forms) > 1:
                    continue
                yield f"tikd-{meth}-{tag}-{k}-{d}-{r}", tik, dict(k=k, d=d, r=r, forms=[tuple(f) for f in forms], method=meth, decoupled=True, refit=d == 1)
        yield f"tikd-{meth}-switch", tik, dict(k=2, d=2, r=2, forms=[("diag", "full")], method=meth, decoupled=True, switch=other)
        yield f"tikd-{meth}-none", tik, dict(k=2, d=2, r=2, forms=[("diag", "diag")], method=meth, decoupled=True, none_first=True, flat=False)
    for kinds, r, m, aff in ((["Constant", "Linear"], 2, 0, ()), (["Linear", "Quadratic", "Input"], 2, 2, ()), (["StateInput", "Cubic", "Constant"], 2, 1, ()),
                             (["Linear", "Constant"], 3, 0, (0,)), (["Input", "Quadratic", "Linear"], 2, 3, (1,)), (["Quartic", "Constant", "Input"], 1, 1, (2,)),
                             (["Input", "StateInput"], 3, 2, (0, 1))):
        yield f"operator-regularizer-{'+'.join(kinds)}", operator_regularizer, dict(kinds=kinds, r=r, m=m, affine=aff)
    for w in ("PlainSolver", "TikhonovSolver", "TikhonovDecoupledSolver"):
        yield f"options-{w}", options_reach, dict(which=w)
