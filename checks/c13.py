"""C13: fitting a transformation has its documented effect and no side effects."""

import warnings

from checks.preutil import catalogue, tag, fitted, make, admit, ss_all, sizes_of

BOUNDS = ("every transformer kind and every centering/scaling/byrow option; variable-wise and chained combinations; n<=4 rows, k<=3 training snapshots; "
          "refits after fits with other values and (for self-sizing transformers) other shapes; all real data with non-degenerate scale")
OUTSIDE = "degenerate (constant) training data; larger arrays; the printed report of verbose mode; floating-point rounding"


def effects(c, spec, n, k):
    """fit + transform == fit_transform == documented image; side effects only on request."""
    m, Q, ref = fitted(c, spec, n, k)
    T = m.obj
    keep = Q.copy()
    A = T.transform(Q)
    c.eq("documented image of the training data", A, ref)
    c.eq("transform keeps the caller's data", Q, keep)
    c.true("separate result", A is not Q)
    m2 = make(c, spec, n, data=m)
    if spec[0] == "null":
        B = m2.obj.fit_transform(Q, inplace=False)
    else:
        B = m2.obj.fit_transform(Q)
    c.true("separate result of fit_transform", B is not Q)
    c.eq("fit_transform equals fit then transform", B, A)
    c.eq("fit_transform keeps the caller's data", Q, keep)
    B += 1
    c.eq("result shares no memory with the data", Q, keep)
    B -= 1
    m3 = make(c, spec, n, data=m)
    R = Q.copy()
    D = m3.obj.fit_transform(R, inplace=True)
    c.true("in place returns the caller's array", D is R)
    c.eq("in place fit_transform", R, A)
    R = Q.copy()
    D = T.transform(R, inplace=True)
    c.true("in place transform returns the caller's array", D is R)
    c.eq("in place transform", R, A)
    P, p = c.real("P", (n, 2)), c.vec("p", n)
    for t in (m2.obj, m3.obj):
        c.eq("same map however fitted", t.transform(P), T.transform(P))
        c.eq("same map on one snapshot", t.transform(p), T.transform(p))
        c.true("state dimension", t.state_dimension == n)
    # one snapshot at a time equals all at once
    C = T.transform(P)
    for j in range(2):
        c.eq(f"snapshot {j} alone", T.transform(P[:, j].copy()), C[:, j])
    c.eq("transform keeps new data's map", T.transform(Q), A)


def top(c, label, sq):
    """The largest of the given squares is one."""
    hit = None
    for i, x in enumerate(sq):
        c.le(f"{label} bound {i}", x, 1)
        hit = (x - 1) if hit is None else hit * (x - 1)
    c.eq(f"{label} attained", hit, 0)


def stats(c, spec, n, k):
    np = c.np
    m, Q, ref = fitted(c, spec, n, k, how="fit_transform")
    T = m.obj
    _, cen, scl, byrow = spec
    Y = T.transform(Q)
    N = n * k

    def mean0(lab, x, cnt):
        c.eq(lab, sum(x) / cnt, 0)

    rowmean0 = cen and (scl in (None, "standard", "maxabs", "maxabssym", "maxnorm", "maxnormsym"))
    if rowmean0:
        for i in range(n):
            mean0(f"row {i} centred", list(Y[i]), k)
    groups = [list(Y[i]) for i in range(n)] if byrow else [list(Y.ravel())]
    src = [list(Q[i]) for i in range(n)] if byrow else [list(Q.ravel())]
    for g, (x, q) in enumerate(zip(groups, src)):
        if scl in ("standard", "maxabssym", "maxnormsym"):
            mean0(f"group {g} mean", x, len(x))
        if scl == "standard":
            c.eq(f"group {g} unit deviation", sum(t * t for t in x) / len(x), 1)
        if scl in ("minmax", "minmaxsym"):
            lo = 0 if scl == "minmax" else -1
            c.eq(f"group {g} minimum", np.min(np.array(x)), lo)
            c.eq(f"group {g} maximum", np.max(np.array(x)), 1)
        if scl in ("maxabs", "maxabssym"):
            top(c, f"group {g} maximum magnitude", [t * t for t in x])
    if scl in ("maxnorm", "maxnormsym"):
        top(c, "largest snapshot norm", [sum(Y[i, j] ** 2 for i in range(n)) for j in range(k)])
    # reported parameters describe the map
    P = c.real("P", (n, 2))
    Z = P
    if cen:
        c.eq("mean_", T.mean_ * k, sum(Q[:, j] for j in range(k)))
        Z = Z - T.mean_[:, None]
    else:
        c.true("mean_ unset", T.mean_ is None)
    if scl is not None:
        a, b = (T.scale_[:, None], T.shift_[:, None]) if byrow else (T.scale_, T.shift_)
        c.true("scale_ positive", np.all(a > 0))
        Z = Z * a + b
    else:
        c.true("scale_ unset", T.scale_ is None and T.shift_ is None)
    c.eq("map is (x - mean_) * scale_ + shift_", T.transform(P), Z)


def refit(c, spec, n, k, n1, k1):
    """A refitted transformer equals a fresh one fitted on the last data only."""
    m = make(c, spec, n)
    Q1 = c.real("Q1", (n1, k1))
    admit(c, m, Q1) if n1 == n else [admit(c, make(c, spec, n1, "X"), Q1)]
    Q2 = c.real("Q2", (n, k))
    ref = admit(c, m, Q2)
    m.obj.fit(Q1)
    A1 = m.obj.transform(Q1, inplace=False)
    m.obj.fit(Q2)
    A = m.obj.transform(Q2, inplace=False)
    c.eq("documented image after refit", A, ref)
    f = make(c, spec, n, data=m)
    f.obj.fit(Q2)
    P = c.real("P", (n, 2))
    c.eq("same map as a fresh fit", m.obj.transform(P), f.obj.transform(P))
    c.eq("same inverse as a fresh fit", m.obj.inverse_transform(P), f.obj.inverse_transform(P))
    c.true("state dimension", m.obj.state_dimension == n)
    B = m.obj.fit_transform(Q1 if n1 == n else Q2, inplace=False)
    c.eq("and back again", B, A1 if n1 == n else A)


def whole(c, spec, n):
    """Snapshots stored as integers are transformed like any other numbers."""
    import numpy

    m, Q, ref = fitted(c, spec, n, 2)
    T = m.obj
    P = numpy.array([[3, -2], [1, 5], [-4, 2], [7, 1]][:n])
    for lab, I in (("batch", P), ("single", P[:, 0].copy())):
        F, keep = c.const(I), I.copy()
        c.eq(f"transform {lab}", T.transform(I), T.transform(F))
        c.eq(f"inverse {lab}", T.inverse_transform(I), T.inverse_transform(F))
        c.eq(f"derivatives {lab}", T.transform_ddts(I, inplace=False), T.transform_ddts(F, inplace=False))
        c.true(f"caller's {lab}", I.dtype == keep.dtype and bool((I == keep).all()))
    if spec[0] in ("ss", "null"):
        A, B = make(c, spec, n), make(c, spec, n)
        c.eq("trained on integers", A.obj.fit_transform(P, inplace=False), B.obj.fit_transform(c.const(P), inplace=False))


def functions(c, n, k):
    """shift() and scale(): documented maps, for learned and given factors."""
    pre, np = c.op.pre, c.np
    Q, P, by = c.real("Q", (n, k)), c.real("P", (n, 2)), c.real("by", (n,))
    keep = Q.copy()
    S, mean = pre.shift(Q)
    c.eq("learned shift", mean * k, sum(Q[:, j] for j in range(k)))
    c.eq("shifted by the mean column", S, Q - mean.reshape((n, 1)))
    c.eq("shifted by a vector", pre.shift(P, by), P - by.reshape((n, 1)))
    c.eq("shifted by a column", pre.shift(P, by.reshape((n, 1))), P - by.reshape((n, 1)))
    lo, hi, a, b = (c.real(x) for x in ("lo", "hi", "a", "b"))
    c.assume(abs(hi - lo) >= .01)
    c.assume(b - a >= .01)
    c.eq("scaled from one interval to another", (pre.scale(P, (lo, hi), (a, b)) - lo) * (b - a), (P - a) * (hi - lo))
    if n * k <= 4:
        c.assume(np.max(Q) - np.min(Q) >= .01)
        X, to, frm = pre.scale(Q, (lo, hi))
        c.eq("learned interval", np.array([frm[0], frm[1]]), np.array([np.min(Q), np.max(Q)]))
        c.eq("target interval", np.array([to[0], to[1]]), np.array([lo, hi]))
        c.eq("scaled training data", X, pre.scale(Q, to, frm))
    c.eq("caller's data", Q, keep)


def cases(tier):
    th = tier == "thorough"
    for n, k in ((1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 4)):
        if n * k > 1:
            yield f"functions-{n}-{k}", functions, dict(n=n, k=k)
    for spec, n in catalogue(th):
        yield f"eff-{tag(spec)}-{n}", effects, dict(spec=spec, n=n, k=2)
        if n <= 4:
            yield f"whole-{tag(spec)}-{n}", whole, dict(spec=spec, n=n)
        yield f"refit-{tag(spec)}-{n}", refit, dict(spec=spec, n=n, k=2, n1=n, k1=3 if spec[0] == "ss" and th else 2)
        if spec[0] in ("ss", "null", "scale"):
            yield f"refit-{tag(spec)}-{n}-grow", refit, dict(spec=spec, n=n, k=2, n1=1, k1=2)
            yield f"refit-{tag(spec)}-1-shrink", refit, dict(spec=spec, n=1, k=2, n1=2, k1=2)
    for spec in ss_all():
        for n, k in ((1, 2), (2, 2), (1, 3), (3, 2)) + (((2, 3), (3, 3)) if th else ()):
            if n * k > 6 - (n == 2 and th) and not spec[3] and spec[2] not in (None, "standard"):
                continue
            if n * k > 4 and spec[1:] == (False, "maxabssym", False):
                continue  # out of the solver's reach
            yield f"stats-{tag(spec)}-{n}-{k}", stats, dict(spec=spec, n=n, k=k)
