"""C04: compressed polynomial entries represent the same operator."""

from checks.c01 import make, dim, has_input, new_entries, ent2d

BOUNDS = ("quadratic r<=4, cubic r<=3, quartic r<=3 (thorough: one more), a<=3 rows; all real entries and states; "
          "dense full, tensor, compressed and (linear, constant) sparse layouts; operator dimension checked for r<=8, m<=4")
OUTSIDE = "larger dimensions; floating-point rounding"

P = {"Quadratic": 2, "Cubic": 3, "Quartic": 4}


def cls_of(c, kind):
    return getattr(c.op.operators, kind + "Operator")


def kron_power(c, q, p):
    out = q
    for _ in range(p - 1):
        out = c.np.kron(out, q)
    return out


def compress_expand(c, kind, r, a):
    """Functions on the entry matrices, for any number of rows."""
    C = cls_of(c, kind)
    p = P[kind]
    d = C.operator_dimension(r)
    q = c.real("q", (r,))
    F = c.real("F", (a, r**p))
    G = c.real("G", (a, d))
    F0, G0 = F.copy(), G.copy()
    full = kron_power(c, q, p)
    cq = C.ckron(q)
    c.true("compressed height", cq.shape == (d,))
    Fc = C.compress_entries(F)
    c.true("compressed shape", Fc.shape == (a, d))
    c.eq("compress", Fc @ cq, F @ full)
    Ge = C.expand_entries(G)
    c.true("expanded shape", Ge.shape == (a, r**p))
    c.eq("expand", Ge @ full, G @ cq)
    c.eq("compress(expand)", C.compress_entries(Ge), G)
    c.eq("expand(compress) acts the same", C.expand_entries(Fc) @ full, F @ full)
    T = Ge.reshape((a,) + (r,) * p)
    for i in range(1, p):
        ax = list(range(p + 1))
        ax[i], ax[i + 1] = ax[i + 1], ax[i]
        c.eq(f"symmetric{i}", T.transpose(ax), T)
    c.eq("argument unchanged", F, F0)
    c.eq("argument unchanged b", G, G0)
    mask = C.ckron_indices(r)
    c.true("mask shape", mask.shape == (d, p))
    c.eq("mask", c.np.prod(q[mask], axis=1), cq)
    # several snapshots
    Q = c.real("Q", (r, 2))
    D = C.ckron(Q)
    for j in range(2):
        c.eq(f"ckron{j}", D[:, j], C.ckron(Q[:, j]))
    if a == 1:
        c.eq("1d compress", C.compress_entries(F[0]), Fc)
        c.eq("1d expand", C.expand_entries(G[0]), Ge)


def layouts(c, kind, r):
    """Full, tensor-shaped and compressed entries give one operator."""
    C = cls_of(c, kind)
    p = P[kind]
    F = c.real("F", (r, r**p))
    q = c.real("q", (r,))
    Q = c.real("Q", (r, 2))
    T = F.reshape((r,) * (p + 1))
    ops = [C(F), C(T), C(C.compress_entries(F)), C(C.expand_entries(C.compress_entries(F)))]
    o5 = C()
    o5.set_entries(T.copy())
    ops.append(o5)
    d = C.operator_dimension(r)
    want = F @ kron_power(c, q, p)
    J = ops[0].jacobian(q)
    for i, o in enumerate(ops):
        c.true("width", o.entries.shape == (r, d) and o.shape == (r, d))
        c.eq(f"apply{i}", o.apply(q), want)
        c.eq(f"batch{i}", o.apply(Q), ops[0].apply(Q))
        c.eq(f"jac{i}", o.jacobian(q), J)
        c.eq(f"entries{i}", o.entries, ops[0].entries)
    c.true("data height", C.datablock(Q).shape == (d, 2))


def simple_layouts(c, kind, r, m):
    """Scalars, one-dimensional and sparse entries of the other kinds."""
    C = cls_of(c, kind)
    O = c.op.operators
    sp = c.sparse
    d = C.operator_dimension(r, m)
    E = c.real("E", (r, d))
    variants = [C(E)]
    if kind == "Constant":
        variants += [C(E[:, 0]), C(E.T), C(sp.csr_array(E)), C(sp.csc_array(E))]
    if kind == "Linear":
        variants += [C(sp.csr_array(E)), C(sp.csc_array(E)), C(sp.coo_array(E))]
        if r == 1:
            variants.append(C(E[0]))
    if kind == "Input" and m == 1:
        variants.append(C(E[:, 0]))
    if kind == "StateInput" and r * m == 1:
        variants.append(C(E[0]))
    if r * d == 1:
        variants.append(C(E[0, 0]))
    q = c.real("q", (r,))
    u = c.real("u", (m,)) if has_input(kind) else None
    Q = c.real("Q", (r, 2))
    U = c.real("U", (m, 2)) if has_input(kind) else None
    a, b = variants[0].apply(q, u), variants[0].apply(Q, U)
    c.eq("base", a, ent2d(E) @ C.datablock(q.reshape((r, 1)), None if u is None else u.reshape((m, 1)))[:, 0])
    for i, o in enumerate(variants):
        c.true("state dimension", o.state_dimension == r)
        if has_input(kind):
            c.true("input dimension", o.input_dimension == m)
        c.eq(f"apply{i}", o.apply(q, u), a)
        c.eq(f"batch{i}", o.apply(Q, U), b)
        if kind == "Linear":
            c.eq(f"jac{i}", o.jacobian(q), E)


def added(c, kind, r, m, s1=False, s2=False):
    C = cls_of(c, kind) if not kind.startswith("Poly") else None
    sp = c.sparse
    A, B = new_entries(c, kind, r, m, "A"), new_entries(c, kind, r, m, "B")
    a = make(c, kind, sp.csr_array(A) if s1 else A.copy())
    b = make(c, kind, sp.csr_array(B) if s2 else B.copy())
    s = a + b
    c.true("kind", type(s) is type(a))
    q = c.real("q", (r,))
    u = c.real("u", (m,)) if has_input(kind) else None
    c.eq("sum", s.apply(q, u), a.apply(q, u) + b.apply(q, u))
    Q = c.real("Q", (r, 2))
    U = c.real("U", (m, 2)) if has_input(kind) else None
    c.eq("sum batch", s.apply(Q, U), a.apply(Q, U) + b.apply(Q, U))
    dense = lambda x: x.toarray() if hasattr(x, "toarray") else x
    c.eq("left unchanged", dense(a.entries), A)
    c.eq("right unchanged", dense(b.entries), B)
    wrong = make(c, "Linear" if kind != "Linear" else "Constant", c.real("W", (r, r) if kind != "Linear" else (r,)))
    c.raises("different kinds", TypeError, lambda: a + wrong)


def widths(c, kind, rmax, mmax):
    """Reported width = height of the data matrix, over a grid of dimensions
    (the data themselves stay symbolic)."""
    x = c.real("x")
    for r in range(1, rmax + 1):
        for m in (range(1, mmax + 1) if has_input(kind) else (0,)):
            o = make(c, kind)
            d = o.operator_dimension(r=r, m=m)
            Q = c.np.ones((r, 2)) * x
            U = c.np.ones((m, 2)) * x if m else None
            D = o.datablock(Q, U)
            c.true(f"r={r} m={m}", D.shape == (d, 2))
            c.eq("powers", D[:, 0], D[:, 1])
            if kind in P:
                C = cls_of(c, kind)
                c.true("expand width", C.expand_entries(c.np.ones((1, d)) * x).shape == (1, r ** P[kind]))
                c.true("compress width", C.compress_entries(c.np.ones((1, r ** P[kind])) * x).shape == (1, d))


def cases(tier):
    th = tier == "thorough"
    top = {"Quadratic": 4, "Cubic": 3, "Quartic": 3}
    for kind in P:
        for r in range(1, top[kind] + 1 + th):
            for a in (1, 2, 3) if kind == "Quadratic" else (1, 2):
                yield f"compress-{kind}-r{r}-a{a}", compress_expand, dict(kind=kind, r=r, a=a)
            if not (kind == "Quartic" and r > 2) or th:
                yield f"layout-{kind}-r{r}", layouts, dict(kind=kind, r=r)
    for kind in ("Constant", "Linear", "Input", "StateInput"):
        for r in (1, 2, 3):
            for m in ((1, 2) if has_input(kind) else (0,)):
                yield f"simple-{kind}-r{r}-m{m}", simple_layouts, dict(kind=kind, r=r, m=m)
    for kind in ("Constant", "Linear", "Quadratic", "Cubic", "Quartic", "Input", "StateInput", "Poly1", "Poly2", "Poly3"):
        for r in (1, 2):
            yield f"add-{kind}-r{r}", added, dict(kind=kind, r=r, m=2)
    for s1, s2 in ((1, 1), (1, 0), (0, 1)):
        yield f"add-sparse-{s1}{s2}", added, dict(kind="Linear", r=2, m=0, s1=bool(s1), s2=bool(s2))
    for kind in ("Constant", "Linear", "Quadratic", "Cubic", "Quartic", "Input", "StateInput", "Poly0", "Poly1", "Poly2", "Poly3", "Poly4"):
        yield f"width-{kind}", widths, dict(kind=kind, rmax=(5 if kind in ("Quartic", "Poly4") else 8) if not th else 8, mmax=4)
