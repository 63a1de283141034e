"""Shared construction of preprocessing transformations from small specifications.

A spec is a tuple: ("null",), ("shift",), ("scale",), ("scalev",),
("ss", centering, scaling, byrow), ("multi", (specs), sizes|None), ("pipe", (specs)).
"""

import itertools
import warnings

SCALINGS = (None, "standard", "minmax", "minmaxsym", "maxabs", "maxabssym", "maxnorm", "maxnormsym")


def ss_all():
    for cen in (False, True):
        for s in SCALINGS:
            for byrow in (False, True):
                if byrow and s in ("maxnorm", "maxnormsym"):
                    continue
                yield ("ss", cen, s, byrow)


def tag(spec):
    if spec[0] == "ss":
        return "ss." + ("c" if spec[1] else "u") + "." + str(spec[2]) + (".row" if spec[3] else "")
    if spec[0] in ("multi", "pipe"):
        s = spec[0] + "(" + ",".join(tag(x) for x in spec[1]) + ")"
        return s + ("" if spec[0] == "pipe" or spec[2] is None else "".join(map(str, spec[2])))
    return spec[0]


class Made:
    """A constructed transformer together with the free data it was built from."""

    def __init__(self, obj, spec, n, kids=(), data=None):
        self.obj, self.spec, self.n, self.kids, self.data = obj, spec, n, kids, data


def make(c, spec, n, name="T", data=None):
    """Construct spec for state dimension n; ``data``: a Made whose free parameters are re-used."""
    pre = c.op.pre
    k = spec[0]
    if k == "null":
        return Made(pre.NullTransformer(), spec, n)
    if k == "shift":
        d = c.vec(name + "ref", n) if data is None else data.data
        return Made(pre.ShiftTransformer(d), spec, n, data=d)
    if k in ("scale", "scalev"):
        if data is None:
            d = c.real(name + "scl") if k == "scale" else c.vec(name + "scl", n)
            for x in [d] if k == "scale" else d:
                c.assume(c.np.abs(x) >= .01)
        else:
            d = data.data
        return Made(pre.ScaleTransformer(d), spec, n, data=d)
    if k == "ss":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return Made(pre.ShiftScaleTransformer(centering=spec[1], scaling=spec[2], byrow=spec[3]), spec, n)
    if k == "multi":
        sizes = spec[2] or (n // len(spec[1]),) * len(spec[1])
        kids = [make(c, s, ni, f"{name}{i}", None if data is None else data.kids[i]) for i, (s, ni) in enumerate(zip(spec[1], sizes))]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            obj = pre.TransformerMulti([q.obj for q in kids], spec[2])
        return Made(obj, spec, n, kids)
    kids = [make(c, s, n, f"{name}{i}", None if data is None else data.kids[i]) for i, s in enumerate(spec[1])]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        obj = pre.TransformerPipeline((tuple if spec[1][0][0] in ("shift", "null") else list)(q.obj for q in kids))
    return Made(obj, spec, n, kids)


def sizes_of(spec, n):
    return spec[2] or (n // len(spec[1]),) * len(spec[1])


def blocks(sizes):
    out, a = [], 0
    for s in sizes:
        out.append(slice(a, a + s))
        a += s
    return out


def admit(c, made, Q):
    """Assume the data is admissible for the transformation; return the
    transformed data computed from the documented formulas."""
    spec, np = made.spec, c.np
    k = spec[0]
    if k == "null":
        return Q
    if k == "shift":
        return Q - made.data[:, None]
    if k == "scale":
        return Q * made.data
    if k == "scalev":
        return Q * made.data[:, None]
    if k == "multi":
        return np.concatenate([admit(c, kid, Q[s]) for kid, s in zip(made.kids, blocks(sizes_of(spec, Q.shape[0])))])
    if k == "pipe":
        for kid in made.kids:
            Q = admit(c, kid, Q)
        return Q
    _, cen, scl, byrow = spec
    Y = Q - (sum(Q[:, j] for j in range(Q.shape[1])) / Q.shape[1])[:, None] if cen else Q
    if scl is None:
        return Y
    rows = [Y[i] for i in range(Y.shape[0])] if byrow else [Y.ravel()]
    a, b = [], []
    for x in rows:
        x = list(x)
        mu = sum(x) / len(x)
        if cen and byrow:
            mu = mu * 0
        if scl == "standard":
            v = sum((t - mu) ** 2 for t in x) / len(x)
            c.assume(v >= .0001)
            s = 1 / c.sqrt(v)
            a.append(s), b.append(-mu * s)
        elif scl in ("minmax", "minmaxsym"):
            lo, hi = x[0], x[0]
            for t in x[1:]:
                lo, hi = np.minimum(lo, t), np.maximum(hi, t)
            c.assume(hi - lo >= .01)
            s = (1 if scl == "minmax" else 2) / (hi - lo)
            a.append(s), b.append(-lo * s - (0 if scl == "minmax" else 1))
        elif scl in ("maxabs", "maxabssym"):
            m = mu if scl == "maxabssym" else mu * 0
            top = abs(x[0] - m)
            for t in x[1:]:
                top = np.maximum(top, abs(t - m))
            c.assume(top >= .01)
            a.append(1 / top), b.append(-m / top)
        else:
            m = mu if scl == "maxnormsym" else mu * 0
            k_ = Y.shape[1]
            sq = [sum((x[i * k_ + j] - m) ** 2 for i in range(Y.shape[0])) for j in range(k_)]
            top = sq[0]
            for t in sq[1:]:
                top = np.maximum(top, t)
            c.assume(top >= .0001)
            s = 1 / c.sqrt(top)
            a.append(s), b.append(-m * s)
    if len(a) == 1:
        return Y * a[0] + b[0]
    return np.array([Y[i] * a[i] + b[i] for i in range(Y.shape[0])])


def fitted(c, spec, n, k, name="T", Q=None, how="fit"):
    """A fitted transformer, its training data, and the documented image of that data."""
    m = make(c, spec, n, name)
    if Q is None:
        Q = c.real(name + "Q", (n, k))
    ref = admit(c, m, Q)
    if how == "fit":
        r = m.obj.fit(Q)
        c.true("fit returns the transformer", r is m.obj)
    else:
        m.obj.fit_transform(Q)
    return m, Q, ref


def catalogue(th=False):
    """(spec, n) pairs covering every option, variable-wise and chained."""
    for s in (("null",), ("shift",), ("scale",), ("scalev",)):
        yield s, 2
    for s in ss_all():
        yield s, 2
    A, B = ("ss", True, "minmax", False), ("ss", False, "maxabssym", True)
    C_, D = ("ss", True, "standard", True), ("ss", True, "maxnorm", False)
    multis = [((("null",), ("shift",)), None), ((A, B), None), ((("shift",), A), (1, 2)), ((("scalev",), ("null",)), (2, 1)),
              ((A, ("ss", True, None, False)), (2, 1)), ((("scale",), ("shift",), ("scalev",)), None), ((D, ("scale",)), (2, 1)),
              ((C_, C_), None)]
    for specs, sizes in multis:
        n = sum(sizes) if sizes else 2 * len(specs) if len(specs) == 2 else 3
        yield ("multi", specs, sizes), n
    for specs in ((("shift",), ("scale",)), (("scalev",), ("shift",)), (("null",), A), (("shift",), ("ss", False, "maxabs", True)), (A,),
                  (("ss", True, None, False), ("ss", False, "minmaxsym", True)), (("shift",), ("scalev",), ("shift",))):
        yield ("pipe", specs), 2
    yield ("pipe", (("multi", (("shift",), ("scale",)), (1, 1)), ("shift",))), 2
    yield ("pipe", (("multi", (("shift",), ("ss", True, "maxabs", False)), None), ("scale",))), 4
    if th:
        for specs in itertools.product((A, B, C_, ("shift",), ("scalev",)), repeat=2):
            yield ("pipe", specs), 2
            yield ("multi", specs, (1, 2)), 3


LOCS = {2: ("[0]", "[1]", "[1,0]", "[1,1]", ":1", "::-1", "[]"), 3: ("[0]", "[2,0]", "1:", "::2", "[1,1,0]"), 4: ("[3]", "[2,0,1]", "1:3"), 1: ("[0]",)}


def loc(c, s):
    import numpy
    if s.startswith("["):
        return numpy.array([int(x) for x in s[1:-1].split(",") if x], dtype=int)
    p = [int(x) if x else None for x in s.split(":")]
    return slice(*p)
