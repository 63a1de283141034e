"""C14: multi-variable and chained preprocessing acts block by block and in order."""

from checks.preutil import catalogue, tag, make, admit, sizes_of, blocks, LOCS, loc

BOUNDS = ("2-3 variables of equal and unequal sizes (n<=4 rows in total), chains of 1-3 members, chains of variable-wise transformers and variable-wise transformers "
          "of chains; every member kind with representative options; k=2 training snapshots, 1-D and 2-D new data, in place or not; all real data with non-degenerate scale")
OUTSIDE = "more variables, larger blocks, user-defined transformers; floating-point rounding"


def solo(c, m, Q):
    """Fresh members fitted as the documentation says, each alone."""
    spec = m.spec
    out, parts = [], []
    if spec[0] == "multi":
        for kid, sp, s in zip(m.kids, spec[1], blocks(sizes_of(spec, Q.shape[0]))):
            f = make(c, sp, kid.n, data=kid)
            f.obj.fit(Q[s].copy())
            out.append(f.obj)
        return out
    X = Q.copy()
    for kid, sp in zip(m.kids, spec[1]):
        f = make(c, sp, kid.n, data=kid)
        X = f.obj.fit_transform(X.copy(), inplace=False)
        out.append(f.obj)
    return out


def block(c, spec, n, inplace):
    np = c.np
    m = make(c, spec, n)
    T = m.obj
    Q = c.real("Q", (n, 2))
    ref = admit(c, m, Q)
    subs = solo(c, m, Q)
    X = Q.copy()
    B = T.fit_transform(X, inplace=inplace)
    c.eq("documented image", B, ref)
    sl = blocks(sizes_of(spec, n))
    names = ("z", "b", "a b", "c")[:len(sl)]
    for t, x in zip(T.transformers, names):
        t.name = x
    c.true("names", tuple(T.variable_names) == names)
    c.true("sizes", tuple(T.variable_sizes) == tuple(sizes_of(spec, n)) and T.state_dimension == n and T.num_variables == len(sl) == len(T))
    for i, s in enumerate(sl):
        c.eq(f"training block {i}", B[s], subs[i].transform(Q[s].copy()))
    for lab, shp in (("2d", (n, 2)), ("1d", (n,))):
        P = c.real("P" + lab, shp)
        parts = T.split(P)
        c.true("number of blocks", len(parts) == len(sl))
        c.eq(f"{lab}: split inverts stacking", np.concatenate(parts), P)
        for i, s in enumerate(sl):
            c.eq(f"{lab}: block {i}", parts[i], P[s])
            c.eq(f"{lab}: get_var {i}", T.get_var(i, P), P[s])
            c.eq(f"{lab}: get_var by name {i}", T.get_var(T.variable_names[i], P), P[s])
            c.true("indexing", T[i] is T.transformers[i] and T[T.variable_names[i]] is T.transformers[i])
        for meth in ("transform", "transform_ddts", "inverse_transform"):
            X = P.copy()
            Y = getattr(T, meth)(X, inplace=inplace)
            c.true(f"{lab}: {meth} in-place contract", (Y is X) == inplace)
            for i, s in enumerate(sl):
                c.eq(f"{lab}: {meth} block {i}", Y[s], getattr(subs[i], meth)(P[s].copy(), inplace=False))
            if not inplace:
                c.eq(f"{lab}: {meth} keeps the caller's data", X, P)


def block_rows(c, spec, n, locs):
    m = make(c, spec, n)
    Q = c.real("Q", (n, 2))
    admit(c, m, Q)
    subs = solo(c, m, Q)
    m.obj.fit(Q)
    ix = loc(c, locs)
    import numpy
    p = numpy.arange(n // len(subs))[ix].size
    for lab, shp in (("2d", (p * len(subs), 2)), ("1d", (p * len(subs),))):
        P = c.real("P" + lab, shp)
        Y = m.obj.inverse_transform(P.copy(), locs=ix)
        for i, s in enumerate(subs):
            sl = slice(i * p, (i + 1) * p)
            c.eq(f"{lab}: rows of block {i}", Y[sl], s.inverse_transform(P[sl].copy(), locs=ix))


def unequal_rows(c, spec, n):
    m = make(c, spec, n)
    Q = c.real("Q", (n, 2))
    admit(c, m, Q)
    m.obj.fit(Q)
    c.raises("rows of unequal blocks", (ValueError,), lambda: m.obj.inverse_transform(c.real("P", (len(spec[1]), 2)), locs=loc(c, "[0]")))


def chain(c, spec, n, inplace):
    m = make(c, spec, n)
    T = m.obj
    Q = c.real("Q", (n, 2))
    ref = admit(c, m, Q)
    subs = solo(c, m, Q)
    X = Q.copy()
    B = T.fit_transform(X, inplace=inplace)
    c.eq("documented image", B, ref)
    c.true("fit_transform in-place contract", (B is X) == inplace)
    if not inplace:
        c.eq("fit_transform keeps the caller's data", X, Q)
    c.true("sizes", T.state_dimension == n and T.num_transformers == len(subs) == len(T))
    for lab, shp in (("2d", (n, 2)), ("1d", (n,))):
        P = c.real("P" + lab, shp)
        for meth in ("transform", "transform_ddts", "inverse_transform"):
            X = P.copy()
            Y = getattr(T, meth)(X, inplace=inplace)
            c.true(f"{lab}: {meth} in-place contract", (Y is X) == inplace)
            want = P.copy()
            for s in (reversed(subs) if meth.startswith("inv") else subs):
                want = getattr(s, meth)(want.copy(), inplace=False)
            c.eq(f"{lab}: {meth} in order", Y, want)
            if not inplace:
                c.eq(f"{lab}: {meth} keeps the caller's data", X, P)


def cases(tier):
    th = tier == "thorough"
    extra = [(("multi", (("pipe", (("shift",), ("scale",))), ("shift",)), None), 4),
             (("multi", (("pipe", (("shift",), ("scalev",))), ("ss", True, "maxabs", False)), (1, 2)), 3)]
    extra += [(("multi", (a, b), (1, 2)), 3) for a in (("ss", True, "standard", True), ("ss", False, "minmax", False))
              for b in (("ss", False, "maxnormsym", False), ("null",), ("scalev",))]
    extra += [(("multi", (("pipe", (("ss", True, None, False), ("scale",))), ("shift",)), None), 4)]
    for spec, n in list(catalogue(th)) + extra:
        for inplace in (False, True):
            if spec[0] == "multi":
                yield f"block-{tag(spec)}-{n}-{inplace}", block, dict(spec=spec, n=n, inplace=inplace)
            elif spec[0] == "pipe":
                yield f"chain-{tag(spec)}-{n}-{inplace}", chain, dict(spec=spec, n=n, inplace=inplace)
        if spec[0] == "multi":
            sz = sizes_of(spec, n)
            if len(set(sz)) == 1:
                for lo in LOCS[sz[0]][1:]:
                    yield f"rows-{tag(spec)}-{n}-{lo}", block_rows, dict(spec=spec, n=n, locs=lo)
            else:
                yield f"rows-{tag(spec)}-{n}-rejected", unequal_rows, dict(spec=spec, n=n)
