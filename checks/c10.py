"""C10: truncated and total least squares follow the singular value decomposition."""

from checks.c08 import L, svd_data, register, rhs_of

BOUNDS = "k<=4, d<=3, r<=2; data = any U diag(s) V' with singular values at least 0.05 apart; every number of modes, changed and re-fitted"
OUTSIDE = "repeated singular values (the truncation is then ambiguous); larger systems; floating-point rounding; LAPACK itself"
ASSUMPTIONS = ["scipy.linalg.svd returns an exact SVD (the factors the data were built from)"]


def spread(c, s):
    for a, b in zip(s[:-1], s[1:]):
        c.assume(a - b >= 0.05)
    c.assume(s[-1] >= 0.05)


def truncated(c, label, X, mat, Z, n):
    D, U, s, V = mat
    p = len(s)
    Dn = (U[:, :n] * s[:n]) @ V[:, :n].T
    c.eq(f"{label}: stationary for the truncated data", (X @ Dn.T - Z) @ Dn, c.zeros(X.shape))
    if n < V.shape[0]:
        c.eq(f"{label}: nothing outside the leading modes", X, X @ V[:, :n] @ V[:, :n].T)


def tsvd(c, k, d, r, first, changes, flat=False, refit=None, reload=False):
    m1 = svd_data(c, k, d)
    spread(c, m1[2])
    mats = [m1]
    if refit:
        m2 = svd_data(c, refit[0], refit[1], "b")
        spread(c, m2[2])
        mats.append(m2)
    register(c, *mats)
    p = min(k, d)
    count = lambda n, p: p if n is None else (n if n > 0 else p + n)
    Z, z = rhs_of(c, r, k, flat)
    D0, Z0 = m1[0].copy(), Z.copy()
    S = L(c).TruncatedSVDSolver(first)
    S.fit(m1[0], z)
    c.true("modes available", S.max_modes == p)
    n = min(count(first, p), p)
    c.true("modes in use", S.num_svdmodes == n)
    truncated(c, f"{first}", S.solve(), m1, Z0, n)
    for ch in changes:
        S.num_svdmodes = ch
        c.true("modes in use", S.num_svdmodes == count(ch, p))
        truncated(c, f"then {ch}", S.solve(), m1, Z0, count(ch, p))
        c.eq("tcond", S.tcond() * m1[2][count(ch, p) - 1], m1[2][0])
    c.eq("data untouched", m1[0], D0)
    c.eq("lhs untouched", Z, Z0)
    if refit:
        Z2 = c.real("Z2", (r, refit[0]))
        S.num_svdmodes = first if first is not None and first > 0 else 1
        n = S.num_svdmodes
        S.fit(m2[0], Z2)
        truncated(c, "refit", S.solve(), m2, Z2, min(n, min(refit)))


def reject(c, k, d, when, n):
    m1 = svd_data(c, k, d)
    spread(c, m1[2])
    register(c, m1)
    Z = c.real("Z", (1, k))
    if when == "set":
        S = L(c).TruncatedSVDSolver(None).fit(m1[0], Z)
        c.raises("set", (ValueError,), lambda: setattr(S, "num_svdmodes", n))
    else:
        S = L(c).TruncatedSVDSolver(n)
        c.raises("fit", (ValueError,), lambda: S.fit(m1[0], Z))


def tls(c, k, d, r, flat=False, again=False):
    mat = svd_data(c, k, d + r)
    mats = [mat]
    if again:
        mats.append(svd_data(c, k, d + r, "b"))
    register(c, *mats)
    S = L(c).TotalLeastSquaresSolver()
    for W, U, s, V in mats:
        spread(c, s)
        V22 = V[d:, d:]
        det = V22[0, 0] if r == 1 else V22[0, 0] * V22[1, 1] - V22[0, 1] * V22[1, 0]
        c.assume(det * det >= 0.01)
        D, Z = W[:, :d], W[:, d:].T
        D0, Z0 = D.copy(), Z.copy()
        S.fit(D, Z[0] if flat else Z)
        X = S.solve()
        c.true("shape", X.shape == (r, d))
        aug = c.np.vstack([X.T, -c.eye(r)])
        c.eq("augmented solution in the trailing subspace", V[:, :d].T @ aug, c.zeros((d, r)))
        t = s[d:]
        c.eq("error", S.error * S.error, sum(t[i] * t[i] for i in range(r)))
        c.true("error sign", S.error >= 0)
        c.eq("augmented condition number", S.augcond * s[-1], s[0])
        c.eq("data untouched", D, D0)
        c.eq("lhs untouched", Z, Z0)


def under(c, k, d, r):
    c.opt("svd_fresh", True)
    S = L(c).TotalLeastSquaresSolver()
    c.raises("underdetermined", (ValueError,), lambda: S.fit(c.real("D", (k, d)), c.real("Z", (r, k))))


def cases(tier):
    th = tier == "thorough"
    for k, d, r in ((1, 1, 1), (2, 1, 2), (1, 2, 1), (2, 2, 2), (3, 2, 2), (2, 3, 1)) + (((3, 3, 1), (4, 2, 2)) if th else ()):
        p = min(k, d)
        for first in [None] + list(range(1, p + 2)) + [-i for i in range(1, p)] + [0]:
            others = [x for x in list(range(1, p + 1)) + [-i for i in range(1, p)] + [None, 0] if x != first]
            yield f"tsvd-{k}-{d}-{r}-{first}", tsvd, dict(k=k, d=d, r=r, first=first, changes=others if p < 3 else others[:3])
        for n in (p + 1, -p - 1, -p - 2):
            yield f"tsvd-{k}-{d}-reject-set{n}", reject, dict(k=k, d=d, when="set", n=n)
            if n < 0:
                yield f"tsvd-{k}-{d}-reject-fit{n}", reject, dict(k=k, d=d, when="fit", n=n)
    yield "tsvd-flat", tsvd, dict(k=3, d=2, r=1, first=1, changes=[2], flat=True)
    for first in (1, 2, None):
        yield f"tsvd-refit-{first}", tsvd, dict(k=2, d=2, r=1, first=first, changes=[1], refit=(3, 2))
        yield f"tsvd-refit-smaller-{first}", tsvd, dict(k=2, d=2, r=1, first=first, changes=[], refit=(2, 1))
    for k, d, r in ((2, 1, 1), (3, 1, 1), (3, 2, 1), (3, 1, 2)) + (((4, 2, 1),) if th else ()):
        yield f"tls-{k}-{d}-{r}", tls, dict(k=k, d=d, r=r)
        if r == 1:
            yield f"tls-{k}-{d}-flat", tls, dict(k=k, d=d, r=r, flat=True)
    yield "tls-again", tls, dict(k=2, d=1, r=1, again=True)
    for k, d, r in ((1, 1, 1), (2, 2, 1), (2, 1, 2), (3, 3, 3)):
        yield f"tls-under-{k}-{d}-{r}", under, dict(k=k, d=d, r=r)
