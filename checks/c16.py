"""C16: POD bases keep the right number of the right modes."""

import warnings

BOUNDS = ("selection: up to 4 singular values (thorough 5), thresholds over the whole admissible interval including ties, fewer stored vectors than singular values; "
          "fitting: n<=3, k<=3 snapshots of any rank-revealing factorisation with distinct singular values, dense SVD, method of snapshots and custom solvers, "
          "no / diagonal / dense weights; all re-slicings; all real data in these shapes")
OUTSIDE = ("the LAPACK/scikit-learn factorisations themselves (contract: returns the thin SVD / eigendecomposition); the randomized solver; coincident singular values and fitted singular values outside [0.05, 1000] "
           "(vectors not unique); plots; larger arrays; floating-point rounding")
ASSUMPTIONS = ["scipy.linalg.svd and eigh return the factorisation of their argument", "scipy.linalg.sqrtm returns the symmetric square root"]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def svals(c, k, name="s", gap=False):
    s = c.real(name, (k,), "pos")
    for i in range(k):
        c.assume(s[i] >= .05)
        if gap:
            c.assume(s[i] <= 1000)
    for i in range(k - 1):
        c.assume(s[i] >= (s[i + 1] + .01 if gap else s[i + 1]))
    return s


def unit(c, name):
    t = c.real(name, (), "pos")
    return t / (1 + t)


def energy(s, r):
    return sum(x * x for x in s[:r]) / sum(x * x for x in s)


CRIT = ("svdval_threshold", "cumulative_energy", "residual_energy", "projection_error")


def chosen(c, label, crit, tau, s, r, most):
    """r is the smallest admissible count (or all that is stored)."""
    k = len(s)
    c.true(f"{label}: within bounds", 1 <= r <= most)

    def good(m):
        if crit == "cumulative_energy":
            return energy(s, m) >= tau
        if crit == "residual_energy":
            return 1 - energy(s, m) <= tau
        return 1 - energy(s, m) <= tau * tau
    if crit == "svdval_threshold":
        for i in range(r):
            c.true(f"{label}: mode {i} meets the threshold", s[i] >= tau * s[0])
        if r < most:
            c.true(f"{label}: next mode is below the threshold", s[r] < tau * s[0])
        return
    if r < most or most == k:
        c.true(f"{label}: criterion met with r={r}", good(r))
    if r > 1:
        c.true(f"{label}: not met with r={r - 1}", ~good(r - 1) if c.symbolic else not good(r - 1))


def reported(c, label, B, s):
    r = B.reduced_state_dimension
    c.eq(f"{label}: cumulative energy", B.cumulative_energy, energy(s, r))
    c.eq(f"{label}: residual energy", B.residual_energy, 1 - energy(s, r))


def select(c, crit, k, stored, how, end=None):
    POD = c.op.basis.PODBasis
    c.opt("exact_close", True)
    s = svals(c, k)
    s0 = s.copy()
    U = c.eye(max(k, stored))[:, :stored]
    tau = unit(c, "tau") if end is None else end
    if how == "from_svd":
        B = quiet(lambda: POD.from_svd(U, s, **{crit: tau}))
    elif how == "set":
        B = quiet(lambda: POD.from_svd(U, s, num_vectors=stored))
        quiet(lambda: B.set_dimension(**{crit: tau}))
    elif how == "load":
        B0 = quiet(lambda: POD.from_svd(U, s, num_vectors=1))
        B0.reduced_state_dimension = min(2, stored)
        B = B0
        quiet(lambda: B.set_dimension(**{crit: tau}))
    r = B.reduced_state_dimension
    chosen(c, crit, crit, tau, s0, r, stored)
    reported(c, crit, B, s0)
    c.eq("entries are the leading vectors", B.entries, U[:, :r])
    c.true("stored vectors", B.max_vectors == stored)
    c.eq("caller's singular values", s, s0)
    c.eq("normalised singular values", B.svdvals * s0[0], s0)


def functional(c, k, many, which):
    """svdval_decay, cumulative_energy and residual_energy."""
    b = c.op.basis
    s = svals(c, k)
    perm = [1, 0] + list(range(2, k)) if k > 1 else [0]
    x = s[perm]
    x0 = x.copy()
    taus = [unit(c, f"tau{i}") for i in range(2 if many else 1)]
    arg = taus if many else taus[0]
    S = sum(t * t for t in s)
    for name, f, kw in (("svdval_decay", b.svdval_decay, {}), ("cumulative", b.cumulative_energy, {}), ("residual", b.residual_energy, {}),
                        ("projection", b.residual_energy, {"sqrt": True})):
        if name != which:
            continue
        got = f(x, arg, plot=False, **kw)
        got = list(got) if many else [got]
        c.true(f"{name}: one rank per threshold", len(got) == len(taus))
        for r, tau in zip(got, taus):
            r = int(r)
            if name == "svdval_decay":
                for i in range(k):
                    big = s[i] > tau * s[0]
                    c.true(f"{name}: mode {i}", big if i < r else (~big if c.symbolic else not big))
                continue

            def good(m):
                e = energy(s, m)
                return e >= tau if name == "cumulative" else (1 - e <= tau if name == "residual" else 1 - e <= tau * tau)
            c.true(f"{name}: met", good(r))
            if r > 0:
                c.true(f"{name}: smallest", ~good(r - 1) if c.symbolic else not good(r - 1))
        c.eq(f"{name}: caller's values", x, x0)


def factor(c, n, k, weights, solver, name=""):
    """Free snapshots with a known factorisation: (Q, Phi with Phi'W Phi = I, s, Psi, weights argument, W)."""
    np = c.np
    p = min(n, k)
    U = c.orthonormal(f"U{name}", n, p)
    Vf = c.orthonormal(f"V{name}", k, k)
    s = svals(c, p, f"s{name}", gap=True)
    V = Vf[:, :p]
    core = (U * s) @ V.T
    return U, Vf, V, s, core


def register(c, solver, datas, W):
    if not c.symbolic:
        return
    svd, eig = [], []
    for U, Vf, V, s, core, Q, Phi in datas:
        p, k = len(s), Vf.shape[0]
        svd.append((core, U, s, V.T))
        svd.append((Q, U, s, V.T)) if W is None else None
        lam = c.zeros((k,))
        for i in range(p):
            lam[i] = s[i] * s[i] / k
        G = (Vf * lam) @ Vf.T
        eig.append((G, lam[::-1], Vf[:, ::-1]))
    c.opt("svd", svd)
    c.opt("eigh", eig)


def cols(c, label, got, want):
    c.true(f"{label}: shape", got.shape == want.shape)
    if got.shape != want.shape:
        return
    if c.symbolic:
        c.eq(label, got, want)
        return
    for j in range(want.shape[1]):
        c.eq(f"{label} {j}", got[:, j:j + 1] @ got[:, j:j + 1].T, want[:, j:j + 1] @ want[:, j:j + 1].T)


def fit(c, n, k, weights, solver, crit=("num_vectors", 1), maxv=None, refit=None, form="2d", changes=True):
    np = c.np
    c.opt("exact_close", True)
    warg = W = R = None
    if weights == "diag":
        warg = c.real("w", (n,), "pos")
        for x in warg:
            c.assume(x >= .1)
        om = np.sqrt(warg)
        unw = lambda X: X / om[:, None]
        W = np.diag(warg)
    elif weights == "dense":
        a, b, d = c.real("wa", (), "pos"), c.real("wb"), c.real("wd", (), "pos")
        c.assume(a >= .3), c.assume(d >= .3)
        Lt = np.array([[a, b], [a * 0, d]])
        R = Lt.T @ Lt
        warg = W = R @ R
        unw = lambda X: c.matsolve(R, X)
        if c.symbolic:
            c.opt("sqrtm", [(W, R)])
    else:
        unw = lambda X: X
    datas = []
    for i, (nn, kk) in enumerate([(n, k)] + ([refit] if refit else [])):
        U, Vf, V, s, core = factor(c, nn, kk, weights, solver, str(i))
        datas.append((U, Vf, V, s, core, unw(core), unw(U)))
    register(c, solver, datas, W)
    kw = {crit[0]: crit[1] if crit[1] is not None else unit(c, "tau")}
    val = kw[crit[0]]
    if maxv is not None:
        kw["max_vectors"] = maxv
    calls = []
    if solver == "custom":
        def eng(states, **o):
            calls.append((states, o))
            for U, Vf, V, s, core, Q, Phi in datas:
                if states.shape == core.shape and calls[-1][0].shape == core.shape and len(calls) == datas_index(datas, core):
                    return U.copy(), s.copy(), V.T.copy()
            raise AssertionError("custom solver called with unexpected states")
        kw["flavour"] = 7
        B = quiet(lambda: c.op.basis.PODBasis(svdsolver=eng, weights=warg, **kw))
    else:
        B = quiet(lambda: c.op.basis.PODBasis(svdsolver=solver, weights=warg, **kw))
    c.true("no entries before the fit", B.entries is None and B.svdvals is None and B.max_vectors is None)
    for t, (U, Vf, V, s, core, Q, Phi) in enumerate(datas):
        Q0 = Q.copy()
        arg = Q
        if form == "list" and Q.shape[1] % 2 == 0:
            h = Q.shape[1] // 2
            arg = [Q[:, :h].copy(), Q[:, h:].copy()]
        elif form == "3d" and Q.shape[1] % 2 == 0:
            h = Q.shape[1] // 2
            arg = np.array([Q[:, :h], Q[:, h:]])
        out = quiet(lambda: B.fit(arg))
        c.true("fit returns the basis", out is B)
        c.eq("caller's snapshots", Q, Q0)
        if solver == "custom":
            c.eq("custom solver sees the weighted snapshots", calls[t][0], core)
            c.true("custom solver options", calls[t][1] == {"flavour": 7})
        p = len(s)
        most = p if maxv is None else min(maxv, p)
        r = B.reduced_state_dimension
        if crit[0] == "num_vectors":
            c.true(f"fit {t}: requested dimension", r == min(val, most))
        else:
            chosen(c, f"fit {t}", crit[0], val, s, r, most)
        c.true(f"fit {t}: dimensions", B.full_state_dimension == Q.shape[0] and tuple(B.shape) == (Q.shape[0], r) and B.max_vectors == most)
        c.eq(f"fit {t}: normalised singular values", B.svdvals * s[0], s)
        reported(c, f"fit {t}", B, s)
        cols(c, f"fit {t}: entries", B.entries, Phi[:, :r])
        cols(c, f"fit {t}: stored vectors", B.leftvecs, Phi[:, :most])
        cols(c, f"fit {t}: right vectors", B.rightvecs, V[:, :most])
        if changes:
            for m in list(range(1, most + 1)) + [1]:
                if m % 2:
                    quiet(lambda: B.set_dimension(num_vectors=m))
                else:
                    B.reduced_state_dimension = m
                c.true(f"fit {t}: dimension {m}", B.reduced_state_dimension == m and tuple(B.shape) == (Q.shape[0], m))
                cols(c, f"fit {t}: entries with {m}", B.entries, Phi[:, :m])
                reported(c, f"fit {t}: {m} modes", B, s)
            quiet(lambda: B.set_dimension(num_vectors=most + 2))
            c.true(f"fit {t}: no more than stored", B.reduced_state_dimension == most)
            cols(c, f"fit {t}: all stored", B.entries, Phi[:, :most])
            quiet(lambda: B.set_dimension(**{crit[0]: val}))
            c.true(f"fit {t}: same choice again", B.reduced_state_dimension == r)
            cols(c, f"fit {t}: same entries again", B.entries, Phi[:, :r])
        if W is not None:
            c.eq(f"fit {t}: weighted orthonormality", B.entries.T @ W @ B.entries, c.eye(r))
        x = c.vec(f"x{t}", Q.shape[0])
        WV = B.entries if W is None else W @ B.entries
        c.eq(f"fit {t}: compress", B.compress(x), WV.T @ x)


def datas_index(datas, core):
    for i, d in enumerate(datas):
        if d[4] is core:
            return i + 1


def prefit(c, how):
    """Criterion changed before the fit."""
    c.opt("exact_close", True)
    U, Vf, V, s, core = factor(c, 3, 2, None, "dense", "0")
    register(c, "dense", [(U, Vf, V, s, core, core, U)], None)
    B = c.op.basis.PODBasis(cumulative_energy=1e-9)
    if how == "setter":
        B.reduced_state_dimension = 2
    else:
        B.set_dimension(num_vectors=2)
    B.fit(core)
    c.true("requested dimension", B.reduced_state_dimension == 2)
    cols(c, "entries", B.entries, U)


def pod_fn(c, n, k, r, right, weights=None):
    c.opt("exact_close", True)
    U, Vf, V, s, core = factor(c, n, k, None, "dense", "0")
    register(c, "dense", [(U, Vf, V, s, core, core, U)], None)
    p = min(n, k)
    out = quiet(lambda: c.op.basis.pod_basis(core, num_vectors=r, return_rightvecs=right))
    m = p if r is None else r
    c.true("outputs", len(out) == (3 if right else 2))
    cols(c, "basis", out[0], U[:, :m])
    c.eq("singular values", out[1] * s[0], s)
    if right:
        cols(c, "right vectors", out[2], V[:, :m])


def snapshots(c, n, k, weights):
    """method_of_snapshots() returns the thin weighted SVD."""
    np = c.np
    U, Vf, V, s, core = factor(c, n, k, weights, "eigh", "0")
    w = None
    Q = core
    if weights:
        w = c.real("w", (n,), "pos")
        for x in w:
            c.assume(x >= .1)
        om = np.sqrt(w)
        Q = core / om[:, None]
        U = U / om[:, None]
    register(c, "eigh", [(U, Vf, V, s, core, Q, U)], w)
    args = (Q,) if w is None else (Q, np.diag(w) if weights == "dense" else w)
    Phi, sv, Psi = quiet(lambda: c.op.basis.method_of_snapshots(*args))
    c.eq("singular values", sv, s)
    cols(c, "left vectors", Phi, U)
    cols(c, "right vectors", Psi.T, V)


def cases(tier):
    th = tier == "thorough"
    for crit in CRIT:
        for k in (1, 2, 3) + ((4, 5) if th else (4,) if crit != "projection_error" else ()):
            for stored in sorted({k, max(1, k - 1)}):
                for how in ("from_svd", "set") + (("load",) if k == 3 else ()):
                    yield f"select-{crit}-{k}-{stored}-{how}", select, dict(crit=crit, k=k, stored=stored, how=how)
        for k in (2, 3):
            yield f"select-{crit}-{k}-end", select, dict(crit=crit, k=k, stored=k, how="from_svd", end=1.0 if crit in ("svdval_threshold", "cumulative_energy") else 0.0)
    for k in (1, 2, 3):
        for many in (False, True):
            for which in ("svdval_decay", "cumulative", "residual", "projection"):
                if which == "projection" and k > 2 or k > 2 and many:
                    continue
                yield f"functional-{which}-{k}-{many}", functional, dict(k=k, many=many, which=which)
    for solver in ("dense", "eigh", "method-of-snapshots", "custom"):
        for w in (None, "diag", "dense"):
            for n, k in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
                if w == "dense" and n != 2:
                    continue
                p = min(n, k)
                for r in sorted({1, p}):
                    yield f"fit-{solver}-{w}-{n}-{k}-{r}", fit, dict(n=n, k=k, weights=w, solver=solver, crit=("num_vectors", r))
            for crit in CRIT:
                yield f"fit-{solver}-{w}-{crit}", fit, dict(n=2, k=2, weights=w, solver=solver, crit=(crit, None), changes=False)
            yield f"fit-{solver}-{w}-max1", fit, dict(n=2, k=2, weights=w, solver=solver, crit=("num_vectors", 1), maxv=1)
            yield f"fit-{solver}-{w}-max1-2", fit, dict(n=2, k=2, weights=w, solver=solver, crit=("num_vectors", 2), maxv=1)
            yield f"fit-{solver}-{w}-max5", fit, dict(n=2, k=2, weights=w, solver=solver, crit=("num_vectors", 2), maxv=5)
            yield f"fit-{solver}-{w}-refit", fit, dict(n=2, k=2, weights=w, solver=solver, crit=("num_vectors", 2), refit=(2, 2 if w else 1), changes=False)
            yield f"fit-{solver}-{w}-refit-crit", fit, dict(n=2, k=2, weights=w, solver=solver, crit=("cumulative_energy", None), refit=(2, 1), changes=False)
        yield f"fit-{solver}-list", fit, dict(n=3, k=2, weights=None, solver=solver, form="list")
        yield f"fit-{solver}-3d", fit, dict(n=2, k=2, weights=None, solver=solver, form="3d", crit=("num_vectors", 2))
        yield f"fit-{solver}-refit-grow", fit, dict(n=2, k=1, weights=None, solver=solver, crit=("num_vectors", 2), refit=(3, 2))
    for how in ("setter", "set"):
        yield f"prefit-{how}", prefit, dict(how=how)
    for n, k in ((2, 1), (2, 2), (3, 2), (1, 2)):
        for r in (None, 1):
            for right in (False, True):
                yield f"pod_basis-{n}-{k}-{r}-{right}", pod_fn, dict(n=n, k=k, r=r, right=right)
        for w in (None, "diag", "dense"):
            yield f"snapshots-{n}-{k}-{w}", snapshots, dict(n=n, k=k, weights=w)
