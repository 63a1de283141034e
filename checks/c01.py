"""C01: applying an operator equals its entries times its data vector."""

BOUNDS = ("state dimension r<=4 (quartic r<=3; thorough: r<=5), inputs m<=3, batches of k<=3 snapshots; "
          "all real entries, states and inputs; float arrays, plus integer-typed states as concrete instances")
OUTSIDE = "larger dimensions; floating-point rounding"

KINDS = ["Constant", "Linear", "Quadratic", "Cubic", "Quartic", "Input", "StateInput", "Poly0", "Poly1", "Poly2", "Poly3", "Poly4"]


def make(c, kind, entries=None):
    O = c.op.operators
    if kind.startswith("Poly"):
        return O.PolynomialOperator(int(kind[4:]), entries)
    cls = getattr(O, kind + "Operator")
    return cls(entries) if entries is not None else cls()


def dim(c, kind, r, m):
    return make(c, kind).operator_dimension(r=r, m=m)


def has_input(kind):
    return kind in ("Input", "StateInput")


def new_entries(c, kind, r, m, name="E"):
    d = dim(c, kind, r, m)
    if kind in ("Constant", "Poly0"):
        return c.real(name, (r,))
    return c.real(name, (r, d))


def ent2d(E):
    return E.reshape((-1, 1)) if E.ndim == 1 else E


def apply_is_datablock(c, kind, r, m, k):
    E = new_entries(c, kind, r, m)
    o = make(c, kind, E.copy())
    Q = c.real("Q", (r, k))
    U = c.real("U", (m, k)) if has_input(kind) else None
    D = o.datablock(Q, U)
    want = ent2d(E) @ D
    c.true("datablock height", D.shape == (dim(c, kind, r, m), k))
    # the data matrix is made of the documented monomials
    c.eq("datablock content", D, monomials(c, kind, Q, U))
    got = o.apply(Q, U)
    c.eq("batch", got, want)
    for j in range(k):
        q = Q[:, j]
        u = None if U is None else U[:, j]
        c.eq(f"single{j}", o.apply(q, u), want[:, j])
    c.eq("entries unchanged", ent2d(o.entries), ent2d(E))
    c.eq("again", o.apply(Q, U), want)


def monomials(c, kind, Q, U):
    """The regression data written out from the definition."""
    r, k = Q.shape
    if kind == "Input":
        return U
    rows = []
    if kind == "StateInput":
        for a in range(U.shape[0]):
            for i in range(r):
                rows.append(U[a] * Q[i])
    else:
        p = {"Constant": 0, "Linear": 1, "Quadratic": 2, "Cubic": 3, "Quartic": 4}.get(kind)
        p = int(kind[4:]) if p is None else p

        def rec(row, p, top):
            if p == 0:
                rows.append(row)
                return
            for i in range(top):
                rec(row * Q[i], p - 1, i + 1)

        rec(1 + 0 * Q[0], p, r)
    out = c.zeros((len(rows), k))
    for i, w in enumerate(rows):
        out[i] = w
    return out


def low_dim(c, kind, r, m, form, k=1):
    """Scalar and one-dimensional states and inputs."""
    E = new_entries(c, kind, r, m)
    o = make(c, kind, E.copy())
    Q = c.real("Q", (r, k))
    U = c.real("U", (m, k)) if has_input(kind) else None
    want = ent2d(E) @ o.datablock(Q, U)
    if form == "scalar":  # r = m = 1, one snapshot
        u = None if U is None else U[0, 0]
        c.eq("scalar", o.apply(Q[0, 0], u), want, shape=False)
    elif form == "state1d":  # r = 1, several snapshots as a 1D array
        u = None if U is None else (U[0] if m == 1 else U)
        c.eq("datablock 1d", o.datablock(Q[0], u), o.datablock(Q, U))
        got = o.apply(Q[0], u)
        c.true("size", c.np.size(got) == k)
        c.eq("1d state", c.np.ravel(got), want[0])
    elif form == "input1d":  # m = 1, several inputs as a 1D array
        c.eq("datablock 1d input", o.datablock(Q, U[0]), o.datablock(Q, U))
        got = o.apply(Q, U[0])
        if r == 1:  # one-dimensional data in, values per snapshot out
            c.true("size", c.np.size(got) == k)
            got = c.np.reshape(got, (1, k))
        c.eq("1d input", got, want)
    elif form == "inputscalar":  # m = 1, one snapshot, scalar input
        c.eq("scalar input", c.np.atleast_1d(o.apply(Q[:, 0], U[0, 0])), want[:, 0])
    elif form == "nostate":
        c.eq("no state", c.np.atleast_1d(o.apply()), want[:, 0])
    elif form == "singleton":  # one snapshot stored as 1D arrays of length one
        u = None if U is None else U[:, 0]
        c.eq("length-1", o.apply(Q[:, 0], u), want[:, 0])


def integer_state(c, kind, r, m, qs, us):
    """Integer-valued states and inputs are only another way to store numbers."""
    E = new_entries(c, kind, r, m)
    o = make(c, kind, E.copy())
    import numpy

    Qi = numpy.array(qs, dtype=int)
    Ui = numpy.array(us, dtype=int) if has_input(kind) else None
    D = o.datablock(c.const(Qi), None if Ui is None else c.const(Ui))
    want = ent2d(E) @ D
    c.eq("batch", o.apply(Qi, Ui), want)
    for j in range(Qi.shape[1]):
        c.eq(f"single{j}", o.apply(Qi[:, j], None if Ui is None else Ui[:, j]), want[:, j])


def cases(tier):
    th = tier == "thorough"
    for kind in KINDS:
        big = kind in ("Quartic", "Poly4")
        rs = [1, 2, 3] if big else [1, 2, 3, 4]
        if th:
            rs = [1, 2, 3, 4] if big else [1, 2, 3, 4, 5]
        for r in rs:
            for m in ([1, 2, 3] if has_input(kind) else [0]):
                for k in (1, 2) if not (th or r == 2) else (1, 2, 3):
                    yield f"apply-{kind}-r{r}-m{m}-k{k}", apply_is_datablock, dict(kind=kind, r=r, m=m, k=k)
        hi = has_input(kind)
        if not kind.startswith("Poly"):
            yield f"low-{kind}-scalar", low_dim, dict(kind=kind, r=1, m=1, form="scalar")
            for m in ((1, 2) if hi else (0,)):
                for k in (2, 3):
                    yield f"low-{kind}-state1d-m{m}-k{k}", low_dim, dict(kind=kind, r=1, m=m, form="state1d", k=k)
        if hi:
            for r in (1, 2, 3):
                for k in (2, 3):
                    if not (r == 1 and kind == "Input" and k < 2):
                        yield f"low-{kind}-input1d-r{r}-k{k}", low_dim, dict(kind=kind, r=r, m=1, form="input1d", k=k)
                yield f"low-{kind}-inputscalar-r{r}", low_dim, dict(kind=kind, r=r, m=1, form="inputscalar")
        if kind == "Constant":
            for r in (1, 2, 3):
                yield f"low-Constant-nostate-r{r}", low_dim, dict(kind=kind, r=r, m=0, form="nostate")
        for r in (1, 2):
            for m in ((1, 2) if hi else (0,)):
                yield f"low-{kind}-singleton-r{r}-m{m}", low_dim, dict(kind=kind, r=r, m=m, form="singleton")
        for r in (1, 2):
            qs = [[3, -2], [1, 5]][:r]
            for m in ((1, 2) if hi else (0,)):
                yield f"int-{kind}-r{r}-m{m}", integer_state, dict(kind=kind, r=r, m=m, qs=qs, us=[[2, -1], [4, 3]][:max(m, 1)])
