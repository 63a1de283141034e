"""C11: preprocessing transformations are invertible."""

import numpy

from checks.preutil import catalogue, tag, fitted, LOCS, loc, sizes_of, blocks, make, admit

BOUNDS = ("every transformer kind and every centering/scaling/byrow option; variable-wise and chained combinations of up to 3 members; "
          "n<=4 rows, k<=3 training snapshots (thorough 4), 1-D and 2-D new data; row selections by slice, order, repetition; all real data with non-degenerate scale")
OUTSIDE = "row selections through chains that contain a variable-wise member; degenerate (constant) training data; larger arrays; user-defined transformers; floating-point rounding"


def roundtrip(c, spec, n, k, how="fit"):
    m, Q, _ = fitted(c, spec, n, k, how=how)
    T = m.obj
    for lab, X in (("training", Q), ("new", c.real("P", (n, 2))), ("snapshot", c.vec("p", n))):
        keep = X.copy()
        Y = T.transform(X)
        c.eq(f"{lab}: caller's data", X, keep)
        Yk = Y.copy()
        Z = T.inverse_transform(Y)
        c.eq(f"{lab}: round trip", Z, keep)
        c.eq(f"{lab}: transformed data kept", Y, Yk)
        Z2 = T.inverse_transform(Y, inplace=True)
        c.true(f"{lab}: in place", Z2 is Y)
        c.eq(f"{lab}: round trip in place", Y, keep)
        W = T.transform(Z, inplace=True)
        c.true(f"{lab}: transform in place", W is Z)
        c.eq(f"{lab}: inverse then transform", W, Yk)


def rows(c, spec, n, k, locs):
    m, Q, _ = fitted(c, spec, n, k)
    T = m.obj
    ix = loc(c, locs)
    pick = numpy.arange(n if spec[0] != "multi" else n // len(spec[1]))[ix]
    if spec[0] == "multi":
        nx = n // len(spec[1])
        pick = numpy.concatenate([pick + i * nx for i in range(len(spec[1]))])
    for lab, Y in (("2d", c.real("Y", (n, 2))), ("1d", c.vec("y", n))):
        full = T.inverse_transform(Y)
        part_in = Y[pick].copy()
        keep = part_in.copy()
        part = T.inverse_transform(part_in, locs=ix)
        c.eq(f"{lab}: selected rows", part, full[pick])
        c.eq(f"{lab}: caller's rows", part_in, keep)
        p2 = T.inverse_transform(part_in, inplace=True, locs=ix)
        c.true(f"{lab}: in place", p2 is part_in)
        c.eq(f"{lab}: selected rows in place", part_in, full[pick])


def functional(c, n, k):
    pre = c.op.pre
    Q = c.real("Q", (n, k))
    keep = Q.copy()
    S, by = pre.shift(Q)
    c.eq("mean column", by * k, sum(Q[:, j] for j in range(k)))
    c.eq("unshift", pre.shift(S, -by), Q)
    c.eq("unshift column form", pre.shift(S, -by.reshape((-1, 1))), Q)
    P = c.real("P", (n, 2))
    c.eq("shift new data", pre.shift(pre.shift(P, by), -by), P)
    lo, hi = c.real("lo"), c.real("hi")
    c.assume(hi - lo >= .01)
    np = c.np
    c.assume(np.max(Q) - np.min(Q) >= .01)
    X, to, frm = pre.scale(Q, (lo, hi))
    c.eq("scaled minimum", np.min(X), lo)
    c.eq("scaled maximum", np.max(X), hi)
    c.eq("unscale", pre.scale(X, frm, to), Q)
    c.eq("scale new data and back", pre.scale(pre.scale(P, to, frm), frm, to), P)
    c.eq("caller's data", Q, keep)


def cases(tier):
    th = tier == "thorough"
    for spec, n in catalogue(th):
        yield f"rt-{tag(spec)}-{n}", roundtrip, dict(spec=spec, n=n, k=2)
        if spec[0] == "ss":
            yield f"rt-{tag(spec)}-1", roundtrip, dict(spec=spec, n=1, k=2, how="fit_transform")
            if th:
                yield f"rt-{tag(spec)}-k3", roundtrip, dict(spec=spec, n=2, k=3)
                yield f"rt-{tag(spec)}-n3", roundtrip, dict(spec=spec, n=3, k=2)
        if spec[0] == "multi" and len(set(sizes_of(spec, n))) > 1:
            continue
        if spec[0] == "pipe" and any(x[0] == "multi" for x in spec[1]):
            continue  # row numbers mean "per variable" to one member and "overall" to the other
        nx = n // len(spec[1]) if spec[0] == "multi" else n
        ls = LOCS[nx]
        if not th and spec[0] != "ss":
            ls = ls[1:4]
        for lo in ls:
            yield f"rows-{tag(spec)}-{n}-{lo}", rows, dict(spec=spec, n=n, k=2, locs=lo)
    for spec in (("shift",), ("scalev",), ("ss", True, "minmax", True), ("ss", False, "standard", True), ("ss", True, None, False)):
        for lo in LOCS[3]:
            yield f"rows-{tag(spec)}-3-{lo}", rows, dict(spec=spec, n=3, k=2, locs=lo)
    for n, k in ((1, 2), (2, 2), (2, 3), (3, 2)):
        yield f"functional-{n}-{k}", functional, dict(n=n, k=k)
