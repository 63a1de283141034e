"""C12: derivatives are transformed by the linear part of the state transformation."""

from checks.preutil import catalogue, tag, fitted, make

BOUNDS = ("every transformer kind and option, variable-wise and chained combinations of up to 3 members; n<=4 rows, k<=3 training snapshots, "
          "1-D and 2-D derivative data, in place or not; all real data with non-degenerate scale")
OUTSIDE = "degenerate (constant) training data; larger arrays; transformers that do not implement transform_ddts; floating-point rounding"


def linear(c, spec, n, k, how):
    m, Q, _ = fitted(c, spec, n, k, how=how)
    T = m.obj
    for lab, shp in (("2d", (n, 2)), ("1d", (n,))):
        A, B = c.real("A" + lab, shp), c.real("B" + lab, shp)
        V = A - B
        want = T.transform(A) - T.transform(B)
        keep = V.copy()
        got = T.transform_ddts(V, inplace=False)
        c.eq(f"{lab}: linear part", got, want)
        c.eq(f"{lab}: caller's data", V, keep)
        c.true(f"{lab}: separate result", got is not V)
        W = T.transform_ddts(V, inplace=True)
        c.true(f"{lab}: in place returns the caller's array", W is V)
        c.eq(f"{lab}: linear part in place", V, want)
        # homogeneity: zero derivatives stay zero
        c.eq(f"{lab}: zero", T.transform_ddts(c.zeros(shp), inplace=False), c.zeros(shp))
        if k_default(spec):
            D = A - B
            keep = D.copy()
            G = T.transform_ddts(D)
            c.eq(f"{lab}: default call", G, want)
            c.eq(f"{lab}: default call keeps the caller's data", D, keep)


def k_default(spec):
    # NullTransformer and ShiftTransformer document inplace=True as their default
    return spec[0] not in ("null", "shift")


def one_more(c, spec, n, k):
    """transform_ddts commutes with differencing of consecutive snapshots."""
    m, Q, _ = fitted(c, spec, n, k)
    X = m.obj.transform(Q)
    D = m.obj.transform_ddts(Q[:, 1:] - Q[:, :-1], inplace=False)
    c.eq("differences of transformed training data", D, X[:, 1:] - X[:, :-1])


def cases(tier):
    th = tier == "thorough"
    for spec, n in catalogue(th):
        yield f"lin-{tag(spec)}-{n}", linear, dict(spec=spec, n=n, k=2, how="fit")
        yield f"diff-{tag(spec)}-{n}", one_more, dict(spec=spec, n=n, k=2)
        if spec[0] == "ss":
            yield f"lin-{tag(spec)}-1", linear, dict(spec=spec, n=1, k=2, how="fit_transform")
            yield f"lin-{tag(spec)}-3", linear, dict(spec=spec, n=3, k=2, how="fit_transform")
            if th:
                yield f"lin-{tag(spec)}-k3", linear, dict(spec=spec, n=2, k=3, how="fit")
