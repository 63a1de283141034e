"""C18: lifting maps are inverted exactly and differentiated by the chain rule."""

from fractions import Fraction

BOUNDS = ("QuadraticLifter and PolynomialLifter with one to three orders out of {-3,-2,-1,-1/2,0,1/3,1/2,2/3,1,3/2,2,3,4} (tuple, list and scalar), n<=2 (3) "
          "variables, k<=2 snapshots and single snapshots; all real states in the domain of the monomials (every real for non-negative integers, non-zero for "
          "negative integers, positive for fractional orders) and all real derivatives; only injective lifting maps are required to be inverted")
OUTSIDE = "irrational orders; larger arrays; user-defined lifters; floating-point rounding, overflow and underflow"


def F(p):
    return Fraction(p).limit_denominator(100)


def domain(orders):
    ps = [F(p) for p in orders]
    if any(p.denominator > 1 for p in ps):
        return "pos"
    inj = any(p.numerator % 2 for p in ps)
    if not inj:
        return "pos"  # even powers only: the map is injective on positive states
    return "nonzero" if any(p < 0 for p in ps) else "any"


def mono(c, q, p):
    """Independent value of q^p by repeated products; None for fractional p."""
    p = F(p)
    if p.denominator > 1:
        return None
    out = c.const(1) if not hasattr(q, "shape") else q * 0 + 1
    for _ in range(abs(p.numerator)):
        out = out * q
    return out if p >= 0 else 1 / out


def lifter(c, orders, form="tuple"):
    P = c.op.lift.PolynomialLifter
    if orders == "quadratic":
        return c.op.lift.QuadraticLifter(), (1, 2)
    if form == "scalar":
        return P(orders[0]), orders
    return P(list(orders) if form == "list" else tuple(orders)), orders


def ipow(c, x, k):
    out = x * 0 + 1
    for _ in range(k):
        out = out * x
    return out


def defining(c, lab, y, q, p):
    """y = q^p for p = a/b, stated by y^b = q^a with the right sign."""
    p = F(p)
    a, b = p.numerator, p.denominator
    one = q * 0 + 1
    if a >= 0:
        c.eq(lab, ipow(c, y, b), ipow(c, q, a))
    else:
        c.eq(lab, ipow(c, y, b) * ipow(c, q, -a), one)
    if b > 1:
        c.le(lab + " principal root", q * 0, y)


def inverse(c, orders, shp, form="tuple"):
    L, ps = lifter(c, orders, form)
    n = shp[0]
    q = c.real("q", shp, dom=domain(ps))
    keep = q.copy()
    y = L.lift(q)
    c.true("lifted shape", y.shape == (len(ps) * n,) + shp[1:])
    for i, p in enumerate(ps):
        defining(c, f"variable {i} is q^{p}", y[i * n:(i + 1) * n], q, p)
    ykeep = y.copy()
    got = L.unlift(y)
    c.eq("unlift(lift(q))", got, keep)
    c.eq("caller's states", q, keep)
    c.eq("caller's lifted states", y, ykeep)
    if hasattr(L, "num_variables"):
        c.true("number of variables", L.num_variables == len(ps))


def chain(c, orders, shp, form="tuple"):
    L, ps = lifter(c, orders, form)
    n = shp[0]
    dom = domain(ps)
    if dom == "pos" and all(F(p).denominator == 1 and p >= 0 for p in ps):
        dom = "any"
    elif dom == "pos" and all(F(p).denominator == 1 for p in ps):
        dom = "nonzero"
    q = c.real("q", shp, dom=dom)
    dq = c.real("dq", shp)
    k1, k2 = q.copy(), dq.copy()
    d = L.lift_ddts(q, dq)
    c.true("lifted derivative shape", d.shape == (len(ps) * n,) + shp[1:])
    y = L.lift(q)
    for i, p in enumerate(ps):
        di, yi, p = d[i * n:(i + 1) * n], y[i * n:(i + 1) * n], F(p)
        a, b = p.numerator, p.denominator
        # differentiate y^b = q^a (a >= 0) or y^b q^|a| = 1
        lhs = b * ipow(c, yi, b - 1) * di
        if a == 0:
            c.eq(f"d/dt q^{p}", di, dq * 0)
        elif a > 0:
            c.eq(f"d/dt q^{p}", lhs, a * ipow(c, q, a - 1) * dq)
        else:
            c.eq(f"d/dt q^{p}", lhs * ipow(c, q, -a) + ipow(c, yi, b) * (-a) * ipow(c, q, -a - 1) * dq, dq * 0)
    c.eq("caller's states", q, k1)
    c.eq("caller's derivatives", dq, k2)


def columns(c, orders):
    """A batch is lifted column by column; lifting is local in the rows."""
    L, ps = lifter(c, orders)
    q = c.real("q", (2, 2), dom="pos")
    dq = c.real("dq", (2, 2))
    Y, D = L.lift(q), L.lift_ddts(q, dq)
    U = L.unlift(Y)
    for j in range(2):
        c.eq(f"lift column {j}", Y[:, j], L.lift(q[:, j]))
        c.eq(f"lift_ddts column {j}", D[:, j], L.lift_ddts(q[:, j], dq[:, j]))
        c.eq(f"unlift column {j}", U[:, j], L.unlift(Y[:, j]))


def constant(c):
    L = c.op.lift.PolynomialLifter((0,))
    q = c.real("q", (2, 2))
    c.eq("lift", L.lift(q), q * 0 + 1)
    c.raises("unlift of the constant map", (ZeroDivisionError,), lambda: L.unlift(L.lift(q)))
    c.eq("orders 0, 0", c.op.lift.PolynomialLifter((0, 0)).lift_ddts(q, q), c.zeros((4, 2)))


def reorder(c, orders, new):
    """Setting the orders again is a fresh lifter."""
    P = c.op.lift.PolynomialLifter
    L = P(orders)
    q = c.real("q", (2, 1), dom="pos")
    dq = c.real("dq", (2, 1))
    L.unlift(L.lift(q))
    L.orders = new
    R = P(new)
    c.true("num_variables", L.num_variables == R.num_variables)
    c.eq("lift", L.lift(q), R.lift(q))
    c.eq("ddts", L.lift_ddts(q, dq), R.lift_ddts(q, dq))
    c.eq("unlift", L.unlift(L.lift(q)), q)


def whole(c, orders):
    """Snapshots stored as integers are lifted like any other numbers."""
    import numpy

    L, ps = lifter(c, orders)
    I = numpy.array([[3, 2, 1], [4, 2, 5]])
    Z = c.real("Z", (2, 3))
    y, q = L.lift(I), c.const(I)
    for i, p in enumerate(ps):
        defining(c, f"variable {i} is q^{p}", y[2 * i:2 * i + 2], q, p)
    c.eq("derivatives", L.lift_ddts(I, Z), L.lift_ddts(q, Z))
    c.eq("unlifted", L.unlift(y), q)
    c.true("caller's states", I.dtype.kind == "i" and I.tolist() == [[3, 2, 1], [4, 2, 5]])


def cases(tier):
    th = tier == "thorough"
    h, t3 = 0.5, 1 / 3
    sets = [(1,), (2,), (3,), (-1,), (-2,), (-3,), (h,), (t3,), (4,), (1.5,), (1, 2), (2, 1), (2, 3), (3, 2), (2, 4), (4, 2), (0, 3), (0, 2), (0, 1),
            (1, 0), (-1, 2), (2, -1), (-1, h), (h, -1), (-2, -1, h), (0, 3, 4), (1, 2, 3), (3, 1, 2), (2, 0, 1), (-1, 0, 1), (-h, 2), (2, -h), (0, -2, h),
            (0, 2, 3), (2, 4, 3), (-2, -3), (1.0, 2.0), (2.0, 3.0), (0.0, 2.0), (2 / 3, 2), (-h,), (0, h), (2, 2), (3, 3)]
    shapes = [(1, 1), (2, 2), (2,)] + ([(3, 2), (2, 3)] if th else [])
    for ps in sets + ["quadratic"]:
        nm = ps if isinstance(ps, str) else "_".join(str(F(p)).replace("/", "o") if p == int(p) or True else "" for p in ps) + ("f" if any(isinstance(p, float) and p == int(p) for p in ps) else "")
        for shp in shapes:
            s = "x".join(map(str, shp))
            yield f"inv-{nm}-{s}", inverse, dict(orders=ps, shp=shp)
            yield f"ddt-{nm}-{s}", chain, dict(orders=ps, shp=shp)
        yield f"cols-{nm}", columns, dict(orders=ps)
    for ps in [(2,), (3,), (h,), (-1,), (1,), (1.5,)]:
        nm = str(F(ps[0])).replace("/", "o")
        yield f"scalar-inv-{nm}", inverse, dict(orders=ps, shp=(2, 1), form="scalar")
        yield f"scalar-ddt-{nm}", chain, dict(orders=ps, shp=(2, 1), form="scalar")
    for ps in [(2, 1), (-1, h), (0, 2)]:
        nm = "_".join(str(F(p)).replace("/", "o") for p in ps)
        yield f"list-inv-{nm}", inverse, dict(orders=ps, shp=(2, 1), form="list")
    for ps in ["quadratic", (1, 2), (-1, 2), (2, -1), (-3,), (h, 2), (0, -2, 3), (-1, -2, h)]:
        yield "whole-" + (ps if isinstance(ps, str) else "_".join(str(F(p)).replace("/", "o") for p in ps)), whole, dict(orders=ps)
    yield "constant", constant, {}
    for a, b in [((1, 2), (2,)), ((2,), (3, 1)), ((2, 3), (0, h, 2)), ((1,), (2, 4))]:
        yield f"reorder-{len(a)}{len(b)}-{a[0]}{b[0]}", reorder, dict(orders=a, new=b)
