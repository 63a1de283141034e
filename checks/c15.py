"""C15: bases project and reconstruct consistently."""

import warnings

import numpy

from checks.preutil import LOCS, loc

BOUNDS = ("full dimension n<=4, reduced dimension r<=3; no weights, diagonal weights, dense symmetric positive definite weights, sparse weights; "
          "linear and POD bases, multi-variable bases of 2-3 members of equal and unequal sizes; 1-D and 2-D states (up to 2 columns); row selections by slice, "
          "order, repetition; all real orthonormal bases, weights, states and reduced states")
OUTSIDE = "larger dimensions; bases that are not orthonormal (only warned about); user-defined bases; floating-point rounding"


def space(c, n, r, weights, name="V"):
    """(V, weights argument, W) with V' W V = I, both free."""
    c.opt("exact_close", True)
    Phi = c.orthonormal(name, n, r)
    if weights is None:
        return Phi, None, None
    np = c.np
    if weights in ("diag", "dia", "csr"):
        om = c.real(name + "w", (n,), "pos")
        for x in om:
            c.assume(x >= .1)
        V = Phi / om[:, None]
        w = om ** 2
        W = np.diag(w)
        sp = c.sparse
        if weights == "dia":
            return V, sp.dia_array(([w], [0]), shape=(n, n)), W
        if weights == "csr":
            return V, sp.csr_array(W), W
        return V, w, W
    # W = L'L with L unit upper triangular times a free diagonal
    L = c.eye(n) * 1
    k = 0
    t = c.real(name + "l", (n * (n - 1) // 2,))
    for i in range(n):
        for j in range(i + 1, n):
            L[i, j] = t[k]
            k += 1
    d = c.real(name + "d", (n,), "pos")
    for x in d:
        c.assume(x >= .1)
    Li = c.eye(n) * 1
    for j in range(n):  # back substitution, exact
        for i in range(j - 1, -1, -1):
            Li[i, j] = -sum(L[i, m] * Li[m, j] for m in range(i + 1, j + 1))
    L = d[:, None] * L
    Li = Li / d[None, :]
    return Li @ Phi, L.T @ L, L.T @ L


def build(c, kind, n, r, weights, name="V"):
    V, warg, W = space(c, n, r, weights, name)
    keep = V.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "pod":
            s = c.real(name + "s", (r,), "pos")
            for i in range(r - 1):
                c.assume(s[i] >= s[i + 1])
            B = c.op.basis.PODBasis.from_svd(V, s, weights=warg)
        elif kind == "podless":
            s = c.real(name + "s", (r,), "pos")
            for i in range(r - 1):
                c.assume(s[i] >= s[i + 1])
            B = c.op.basis.PODBasis.from_svd(V, s, weights=warg)
            B.set_dimension(num_vectors=1)
            V, keep = V[:, :1], keep[:, :1]
        else:
            B = c.op.basis.LinearBasis(V, weights=warg)
    return B, V, W, keep


def xnorm2(x):
    return sum(t * t for t in x.ravel())


def laws(c, B, n, r, ip, tag="", errors=True):
    """The contract; ip(X) = V' W X computed from the definition."""
    for lab, shp in (("1d", ()), ("2d", (2,))):
        lab = tag + lab
        q = c.real("q" + lab, (r,) + shp)
        q0 = q.copy()
        c.eq(f"{lab}: compress after decompress", B.compress(B.decompress(q)), q0)
        c.eq(f"{lab}: caller's reduced states", q, q0)
        x = c.real("x" + lab, (n,) + shp)
        x0 = x.copy()
        P = B.project(x)
        c.true(f"{lab}: shape", P.shape == x.shape)
        c.eq(f"{lab}: decompress after compress", B.decompress(B.compress(x)), P)
        c.eq(f"{lab}: projecting twice", B.project(P), P)
        c.eq(f"{lab}: residual orthogonal to the basis", ip(x0 - P), c.zeros((r,) + shp))
        c.eq(f"{lab}: compressed coordinates", B.compress(x), ip(x0))
        c.eq(f"{lab}: caller's states", x, x0)
        for j in range(2 if shp else 0):
            c.eq(f"{lab}: snapshot {j}", B.compress(x[:, j]), B.compress(x)[:, j])
            c.eq(f"{lab}: reduced snapshot {j}", B.decompress(q[:, j]), B.decompress(q)[:, j])
        if not errors:
            continue
        a = e = B.projection_error(x, relative=False)
        c.eq(f"{lab}: absolute projection error", e * e, xnorm2(x0 - P))
        c.true(f"{lab}: error not negative", e >= 0)
        c.assume(xnorm2(x0) >= .01)
        for f in (lambda: B.projection_error(x), lambda: B.projection_error(x, relative=True), lambda: B.projection_error(x, True)):
            e = f()
            c.eq(f"{lab}: relative projection error", e * c.sqrt(xnorm2(x0)), a)
            c.true(f"{lab}: relative error not negative", e >= 0)
        c.eq(f"{lab}: caller's states afterwards", x, x0)


def single(c, kind, n, r, weights):
    B, V, W, keep = build(c, kind, n, r, weights)
    if kind == "podless":
        r = 1
    c.true("dimensions", B.full_state_dimension == n and B.reduced_state_dimension == r and tuple(B.shape) == (n, r))
    WV = V if W is None else W @ V
    laws(c, B, n, r, lambda X: WV.T @ X, errors=n < 4 and not (n == 3 and weights == "dense"))
    c.eq("range", B.decompress(c.eye(r)), V)
    c.eq("entries kept", B.entries, keep)
    c.true("fit returns the basis", kind != "linear" or B.fit(c.real("Q", (n, 2))) is B)
    if kind == "linear":
        Q = c.real("Q", (n, 2))
        c.eq("fit_compress", B.fit_compress(Q), B.compress(Q))
        c.eq("entries after fit", B.entries, keep)
    c.eq("indexing", B[0], V[0])


def rows(c, kind, n, r, weights, locs):
    B, V, W, keep = build(c, kind, n, r, weights)
    ix = loc(c, locs)
    for lab, shp in (("1d", ()), ("2d", (2,))):
        q = c.real("q" + lab, (r,) + shp)
        c.eq(f"{lab}: selected rows", B.decompress(q, locs=ix), B.decompress(q)[ix])
        c.eq(f"{lab}: selected rows from the definition", B.decompress(q, locs=ix), (keep @ q)[ix])


def multi(c, members, sizes_given, locs=None):
    np = c.np
    parts = [build(c, k, n, r, w, f"V{i}_") for i, (k, n, r, w) in enumerate(members)]
    ns = [m[1] for m in members]
    rs = [1 if m[0] == "podless" else m[2] for m in members]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        B = c.op.basis.BasisMulti([p[0] for p in parts], full_variable_sizes=ns if sizes_given else None)
    n, r = sum(ns), sum(rs)
    c.true("dimensions", B.full_state_dimension == n and B.reduced_state_dimension == r and tuple(B.shape) == (n, r)
           and tuple(B.full_variable_sizes) == tuple(ns) and tuple(B.reduced_variable_sizes) == tuple(rs) and len(B) == len(members))
    fs = [slice(sum(ns[:i]), sum(ns[:i + 1])) for i in range(len(ns))]
    gs = [slice(sum(rs[:i]), sum(rs[:i + 1])) for i in range(len(rs))]
    if locs is not None:
        ix = loc(c, locs)
        for lab, shp in (("1d", ()), ("2d", (2,))):
            q = c.real("q" + lab, (r,) + shp)
            got = B.decompress(q, locs=ix)
            if len(set(ns)) > 1:
                raise AssertionError("unreachable")
            full = B.decompress(q)
            c.eq(f"{lab}: selected rows of every block", got, np.concatenate([full[s][ix] for s in fs]))
        return

    names = ("z", "b", "a b", "c")[:len(parts)]
    for b, x in zip(B.bases, names):
        b.name = x
    c.true("names", tuple(B.variable_names) == names)

    def ip(X):
        return np.concatenate([(V if W is None else W @ V).T @ X[s] for (_, V, W, _), s in zip(parts, fs)])
    laws(c, B, n, r, ip)
    for lab, shp in (("1d", ()), ("2d", (2,))):
        x, q = c.real("X" + lab, (n,) + shp), c.real("Y" + lab, (r,) + shp)
        cx, dq, px = B.compress(x), B.decompress(q), B.project(x)
        c.eq(f"{lab}: split inverts stacking", np.concatenate(B.split(x)), x)
        c.eq(f"{lab}: split inverts stacking (reduced)", np.concatenate(B.split(q)), q)
        for i, (b, *_x) in enumerate(parts):
            c.true("members kept", B[i] is b and B.bases[i] is b and B[B.variable_names[i]] is b)
            c.eq(f"{lab}: compress block {i}", cx[gs[i]], b.compress(x[fs[i]]))
            c.eq(f"{lab}: decompress block {i}", dq[fs[i]], b.decompress(q[gs[i]]))
            c.eq(f"{lab}: project block {i}", px[fs[i]], b.project(x[fs[i]]))
            c.eq(f"{lab}: split {i}", B.split(x)[i], x[fs[i]])
            c.eq(f"{lab}: get_var {i}", B.get_var(i, x), x[fs[i]])
            c.eq(f"{lab}: get_var by name {i}", B.get_var(B.variable_names[i], x), x[fs[i]])
            if n != r:
                c.eq(f"{lab}: split reduced {i}", B.split(q)[i], q[gs[i]])
                c.eq(f"{lab}: get_var reduced {i}", B.get_var(i, q), q[gs[i]])
                c.eq(f"{lab}: get_var reduced by name {i}", B.get_var(B.variable_names[i], q), q[gs[i]])


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def member_fit(c, ns, sizes_given, k):
    """Each member basis is fitted to the rows of its own variable."""
    class Own(c.op.basis.BasisTemplate):
        got = None

        def fit(self, states):
            self.got = states
            self.full_state_dimension, self.reduced_state_dimension = states.shape[0], 1
            return self

        def compress(self, states):
            return states[:1] * 2

        def decompress(self, states, locs=None):
            return c.np.concatenate([states / 2] * self.full_state_dimension)

    subs = [Own() for _ in ns]
    B = quiet(lambda: c.op.basis.BasisMulti(subs, full_variable_sizes=list(ns) if sizes_given else None))
    for rep in range(2):
        Q = c.real(f"Q{rep}", (sum(ns), k + rep))
        keep = Q.copy()
        c.true("fit returns the basis", B.fit(Q) is B)
        a = 0
        for i, (n, s) in enumerate(zip(ns, subs)):
            c.eq(f"training data of member {i}", s.got, Q[a:a + n])
            a += n
        c.eq("caller's data", Q, keep)
        c.true("dimensions", B.full_state_dimension == sum(ns) and B.reduced_state_dimension == len(ns))
        x = c.real(f"x{rep}", (sum(ns), 2))
        first = [sum(ns[:i]) for i in range(len(ns))]
        c.eq("compressed", B.compress(x), x[first] * 2)


def reject_rows(c, members):
    parts = [build(c, k, n, r, w, f"V{i}_") for i, (k, n, r, w) in enumerate(members)]
    B = c.op.basis.BasisMulti([p[0] for p in parts])
    c.raises("rows of unequal blocks", (ValueError,), lambda: B.decompress(c.vec("q", B.reduced_state_dimension), locs=loc(c, "[0]")))


def cases(tier):
    th = tier == "thorough"
    for ns, given in (((2, 2), False), ((2, 2), True), ((1, 3), True), ((3, 1), True), ((2, 1, 2), True), ((1, 1, 1), False), ((3,), False)):
        for k in (1, 3):
            yield f"memberfit-{ns}-{given}-{k}", member_fit, dict(ns=ns, sizes_given=given, k=k)
    for kind in ("linear", "pod", "podless"):
        for w in (None, "diag", "dense") + (("dia", "csr") if kind == "linear" else ()):
            for n, r in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)) + (((3, 3), (4, 2)) if th else ()):
                if kind == "podless" and r == 1:
                    continue
                if w == "dense" and (n > 2 or kind != "linear") and not (th and n == 3 and kind == "linear"):
                    continue  # PODBasis takes the square root of dense weights (see C16)
                yield f"{kind}-{w}-{n}-{r}", single, dict(kind=kind, n=n, r=r, weights=w)
                if n in LOCS and kind != "podless":
                    for lo in LOCS[n][:(None if kind == "linear" and w in (None, "diag") else 2)]:
                        yield f"rows-{kind}-{w}-{n}-{r}-{lo}", rows, dict(kind=kind, n=n, r=r, weights=w, locs=lo)
    L = "linear"
    for mem in (((L, 2, 1, None), (L, 2, 1, None)), ((L, 2, 1, None), (L, 1, 1, None)), ((L, 1, 1, None), (L, 3, 2, None)),
                ((L, 2, 1, "diag"), (L, 2, 2, None)), ((L, 2, 2, None), ("pod", 2, 1, None)), (("podless", 2, 2, None), (L, 2, 1, "diag")),
                ((L, 2, 1, None), (L, 1, 1, None), (L, 1, 1, "diag")), ((L, 2, 1, None),), ((L, 2, 2, None), (L, 1, 1, None))):
        tag = "+".join(f"{k}{n}{r}{w or ''}" for k, n, r, w in mem)
        for sg in (False, True):
            yield f"multi-{tag}-{sg}", multi, dict(members=mem, sizes_given=sg)
        if len({m[1] for m in mem}) == 1:
            for lo in LOCS[mem[0][1]]:
                yield f"multirows-{tag}-{lo}", multi, dict(members=mem, sizes_given=False, locs=lo)
        else:
            yield f"multirows-{tag}-rejected", reject_rows, dict(members=mem)
