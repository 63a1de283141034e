"""C27: mismatched or incomplete data is rejected with an error and changes nothing."""

import itertools

from checks import objs
from checks.objs import Data, quiet, same
from checks.c23 import frozen

BOUNDS = ("every rejected combination of shapes with r<=3, m<=2, k<=4 and at most 3 trajectories / variables / parameters listed in the cases, for every real content of the arrays; "
          "not-a-number and infinity at every position; every real value of scalar settings (negative: rejected, nonnegative: accepted); reduced models with n=r=2, two trajectories of three snapshots; behaviour observed before and after")
OUTSIDE = ("shapes beyond the bounds; ConstantOperator ignores the state it is applied to and discrete models allow surplus inputs by design; the uniform finite differencer cannot know "
           "the time domain; extra inputs in re-projection; lifting maps (broadcasting user formulas); the text of the messages")
GOOD = (ValueError, TypeError, AttributeError, RuntimeError, IndexError, KeyError, NotImplementedError)


def refuse(c, label, x, action, obs=None):
    """action(x) raises an error and leaves x as it was."""
    before = None if obs is None else frozen(obs(x))
    c.raises(f"{label}: rejected", GOOD, lambda: quiet(lambda: action(x)))
    if obs is not None:
        same(c, f"after rejecting {label}", before, obs(x))


def attempt(f):
    try:
        return frozen(quiet(f))
    except GOOD:
        return None


def refuse_fit(c, label, x, fit, use):
    """fit(x) raises an error; afterwards x is as before or unfitted."""
    before = attempt(lambda: use(x))
    c.raises(f"{label}: rejected", GOOD, lambda: quiet(lambda: fit(x)))
    after = attempt(lambda: use(x))
    if after is None:
        c.ok(f"{label}: unfitted")
    elif before is None:
        c.fail(f"{label}: usable after a rejected fit", "the rejected data was used")
    else:
        same(c, f"after rejecting {label}", before, after)


# -- operators ---------------------------------------------------------------------------
BAD = {"Constant": {2: [(2, 2), (2, 3), (2, 1, 1)], 3: [(3, 2)]},
       "Linear": {1: [(2, 1), (1, 2)], 2: [(2,), (2, 3), (3, 2), (2, 2, 2), (4,)], 3: [(3, 2)]},
       "Quadratic": {1: [(1, 2), (2, 1)], 2: [(2,), (2, 2), (2, 5), (2, 2, 3), (2, 2, 2, 2), (3, 3), (2, 6)], 3: [(3, 3), (3, 5), (3, 7), (3, 8), (3, 10)]},
       "Cubic": {1: [(1, 2)], 2: [(2,), (2, 3), (2, 5), (2, 7), (2, 2, 2), (2, 16)], 3: [(3, 9), (3, 26)]},
       "Quartic": {1: [(1, 3)], 2: [(2,), (2, 4), (2, 6), (2, 8), (2, 15), (2, 2, 2, 2)]},
       "Input": {2: [(2, 2, 2), (2, 1, 1)]},
       "StateInput": {2: [(2,), (2, 3), (2, 1), (2, 2, 2)], 3: [(3, 4), (3, 2)]},
       "Poly0": {2: [(2, 2)]}, "Poly1": {2: [(2, 3), (3, 2)]}, "Poly2": {2: [(2, 2), (2, 4), (2, 3, 1)]}, "Poly3": {2: [(2, 8), (2, 3)]}}


def mdim(kind):
    return 2 if "Input" in kind else 0


def entries_shape(c, kind, r, shape):
    """Entries of a wrong shape are refused by the constructor and both setters."""
    m = mdim(kind)
    D = Data(c)
    obs = lambda o: objs.op_obs(c, D, o, kind, r, m)
    bad = lambda: D.real("bad", shape)
    c.raises("the constructor rejects the entries", GOOD, lambda: objs.op_cls(c, kind)(*objs.op_args(kind), bad()))
    for lay in (None, "dense"):
        o = objs.build_op(c, D, kind, r, m, lay)
        refuse(c, "entries", o, lambda o: o.set_entries(bad()), obs)
        refuse(c, "entries (attribute)", o, lambda o: setattr(o, "entries", bad()), obs)


def entries_value(c, kind, r, what, layout):
    """Entries that are no array, or contain NaN or infinity anywhere."""
    m = mdim(kind)
    D = Data(c)
    shape = objs.entry_shape(c, kind, r, m)
    obs = lambda o: objs.op_obs(c, D, o, kind, r, m)

    def bads():
        if what in ("nan", "inf", "-inf"):
            for ix in itertools.product(*[range(s) for s in shape]):
                E = D.real("bad", shape)
                if layout == "dense":
                    E[ix] = float(what)
                    yield E
                else:
                    X = c.np.zeros(shape)
                    X[...] = 1.0
                    X[ix] = float(what)
                    yield objs.layout_of(c, X, layout)
        elif what == "list":
            yield D.real("bad", shape).tolist()
        elif what == "dict":
            yield {"entries": D.real("bad", shape)}
    for i, bad in enumerate(bads()):
        if layout == "dense" or kind in ("Linear",):
            c.raises(f"the constructor rejects {what}", GOOD, lambda: objs.op_cls(c, kind)(*objs.op_args(kind), bad))
        if i and layout != "dense":
            continue
        for lay in (None, "dense") if i == 0 else ("dense",):
            o = objs.build_op(c, D, kind, r, m, lay)
            refuse(c, what, o, lambda o: o.set_entries(bad), obs)


def unset(c, kind, r):
    """Nothing can be evaluated before the entries are set, or after they are cleared."""
    m = mdim(kind)
    D = Data(c)
    for how in ("new", "cleared", "deleted"):
        o = objs.build_op(c, D, kind, r, m, None if how == "new" else "dense")
        if how == "cleared":
            o._clear()
        elif how == "deleted":
            del o.entries
        q, u = D.real("q", (r,)), D.real("u", (m,)) if m else None
        V = D.real("V", (r, 1))
        refuse(c, f"apply ({how})", o, lambda o: o.apply(q, u))
        refuse(c, f"jacobian ({how})", o, lambda o: o.jacobian(q, u)) if not kind.startswith("Poly") else None
        refuse(c, f"galerkin ({how})", o, lambda o: o.galerkin(V))
        c.true(f"no entries ({how})", o.entries is None)


def states(c, kind, r):
    """States and inputs of the wrong size."""
    m = mdim(kind)
    D = Data(c)
    np = c.np
    o = objs.build_op(c, D, kind, r, m, "dense")
    obs = lambda o: objs.op_obs(c, D, o, kind, r, m)
    q, u = D.real("q", (r,)), D.real("u", (m,)) if m else None
    QK, UK = D.real("QK", (r, 2)), D.real("UK", (m, 2)) if m else None
    wrong = [(r + 1,), (r + 1, 2), (r + 2, 1), (2 * r, 2)] + ([(r - 1,), (r - 1, 2)] if r > 1 else [(2, 1), (3, 3)])
    if r == 1:
        wrong = [w for w in wrong if len(w) == 2 and w[0] != 1]  # several scalar states
    uses_state = kind not in ("Constant", "Input", "Poly0")
    if uses_state:
        for w in wrong:
            X = D.real("w" + "x".join(map(str, w)), w)
            U = None if not m else (u if len(w) == 1 else D.real("UKw%d" % w[1], (m, w[1])))
            refuse(c, f"state {w}", o, lambda o: o.apply(X, U), obs)
            if kind not in ("Linear", "StateInput") and len(w) == 1 and not (r == 1):
                refuse(c, f"jacobian at state {w}", o, lambda o: o.jacobian(X, U), obs)
    elif kind == "Poly0":
        refuse(c, "state", o, lambda o: o.apply(D.real("wp", (r + 1,))), obs)
    if m:
        for w in [(m + 1,), (m - 1,), (m + 1, 2), (m - 1, 2)]:
            X = D.real("v" + "x".join(map(str, w)), w)
            S = q if len(w) == 1 else QK
            refuse(c, f"input {w}", o, lambda o: o.apply(S, X), obs)
            if kind == "StateInput" and len(w) == 1:
                refuse(c, f"jacobian at input {w}", o, lambda o: o.jacobian(S, X), obs)
        if kind == "StateInput":
            refuse(c, "as many states as inputs", o, lambda o: o.apply(QK, D.real("U3", (m, 3))), obs)
            refuse(c, "rows of states and inputs swapped", o, lambda o: o.apply(D.real("sw", (2 * r,)), D.real("sv", (m // 2,))), obs)
            refuse(c, "data block", o, lambda o: o.datablock(QK, D.real("U3", (m, 3))), obs)
        refuse(c, "no input", o, lambda o: o.apply(q, None), obs)


def projection(c, kind, n):
    """Basis matrices that do not fit the operator or each other."""
    m = mdim(kind)
    D = Data(c)
    o = objs.build_op(c, D, kind, n, m, "dense")
    obs = lambda o: objs.op_obs(c, D, o, kind, n, m)
    V = D.real("V", (n, 1))
    for label, a in [("Vr with more rows", (D.real("V1", (n + 1, 1)),)), ("Vr with fewer rows", (D.real("V2", (n - 1, 1)),)), ("Wr with more rows", (V, D.real("W1", (n + 1, 1)))),
                     ("Wr with more columns", (V, D.real("W2", (n, 2)))), ("Wr with fewer columns", (D.real("V3", (n, 2)), D.real("W3", (n, 1)))), ("one-dimensional", (D.real("V4", (n,)),))]:
        refuse(c, label, o, lambda o: o.galerkin(*a), obs)


def helpers(c, kind, r):
    """compress_entries / expand_entries of arrays of the wrong size."""
    D = Data(c)
    cls = objs.op_cls(c, kind)
    p = {"Quadratic": 2, "Cubic": 3, "Quartic": 4}[kind]
    d = cls.operator_dimension(r)
    for w in [(r, d + 1), (r, r ** p + 1), (r, r ** p - 1)]:
        if r == 1 and w[-1] in (0, 1) or len(w) == 2 and round(w[1] ** (1 / p)) ** p == w[1]:
            continue
        refuse(c, f"compress {w}", cls, lambda k: k.compress_entries(D.real("a" + "x".join(map(str, w)), w)))
    for w in [(r, d + 1), (r, d - 1), (r, r ** p)]:
        if w[-1] < 1 or r == 1 and w[-1] == 1 or len(w) == 2 and any(cls.operator_dimension(x) == w[1] for x in range(1, 8)):
            continue
        refuse(c, f"expand {w}", cls, lambda k: k.expand_entries(D.real("b" + "x".join(map(str, w)), w)))


def polynomial(c):
    D = Data(c)
    P = c.op.operators.PolynomialOperator
    for bad in (-1, 1.5, -2, .5):
        c.raises(f"order {bad}", GOOD, lambda: P(bad))
    a, b = P(1, D.real("A", (2, 2))), P(2, D.real("H", (2, 3)))
    refuse(c, "sum of different orders", a, lambda a: a + b)
    refuse(c, "sum of different sizes", a, lambda a: a + P(1, D.real("B", (3, 3))))
    refuse(c, "dimension", a, lambda a: a.operator_dimension(-1))


# -- affine operators --------------------------------------------------------------------
def affine_make(c, kind, what):
    """Affine operators that cannot be constructed."""
    D = Data(c)
    r, m = 2, mdim(kind)
    cls = getattr(c.op.operators, f"Affine{kind}Operator")
    shp = objs.entry_shape(c, kind, r, m)
    E = lambda i, s=shp: D.real(f"E{i}{s}", s)
    th = [objs.theta(i) for i in range(2)]
    bad = {"too few": lambda: cls(th, entries=[E(0)]), "too many": lambda: cls(th, entries=[E(0), E(1), E(2)]), "empty": lambda: cls(th, entries=[]),
           "shapes differ": lambda: cls(th, entries=[E(0), E(1, shp[:-1] + (shp[-1] + 1,))]), "rows differ": lambda: cls(th, entries=[E(0), E(1, (shp[0] + 1,) + shp[1:])]),
           "no terms": lambda: cls(objs.Thetas(2)), "zero terms": lambda: cls(objs.Thetas(2), nterms=0), "negative terms": lambda: cls(objs.Thetas(2), nterms=-1),
           "fractional terms": lambda: cls(objs.Thetas(2), nterms=1.5), "coeffs None": lambda: cls(None), "coeffs zero": lambda: cls(0), "coeffs negative": lambda: cls(-2),
           "coeffs number": lambda: cls(2.0), "block too wide": lambda: cls(th, entries=D.real("blk", (r, 2 * (shp[-1] if len(shp) > 1 else 1) + 1)), fromblock=True),
           "block list": lambda: cls(th, entries=[E(0), E(1)], fromblock=True), "block 3-D": lambda: cls(th, entries=D.real("b3", (2,) + shp + ((1,) if len(shp) == 1 else ())), fromblock=True),
           "nan": lambda: cls(th, entries=[E(0), with_nan(E(1), float("nan"))]), "inf": lambda: cls(th, entries=[with_nan(E(0), float("inf")), E(1)]),
           "list entries": lambda: cls(th, entries=[E(0).tolist(), E(1).tolist()])}[what]
    c.raises(what, GOOD, lambda: quiet(bad))
    if what in ("too few", "too many", "shapes differ", "rows differ", "nan", "inf", "empty", "block too wide"):
        entries = {"too few": lambda: [E(0)], "too many": lambda: [E(0), E(1), E(2)], "empty": lambda: [], "shapes differ": lambda: [E(0), E(1, shp[:-1] + (shp[-1] + 1,))],
                   "rows differ": lambda: [E(0, (shp[0] + 1,) + shp[1:]), E(1)], "nan": lambda: [with_nan(E(0), float("nan")), E(1)], "inf": lambda: [E(0), with_nan(E(1), float("-inf"))],
                   "block too wide": lambda: D.real("blk", (r, 2 * (shp[-1] if len(shp) > 1 else 1) + 1))}[what]
        for lay in (None, "dense"):
            o = objs.build_affine(c, D, kind, r, m, 2, lay)
            refuse(c, f"entries ({what})", o, lambda o: o.set_entries(entries(), fromblock=what.startswith("block")), lambda o: objs.par_obs(c, D, o, kind, r, m))


def with_nan(E, x):
    E[(-1,) * E.ndim] = x
    return E


class Wrong:
    """A coefficient function with the wrong number of values."""

    def __init__(self, n):
        self.n = n

    def __call__(self, mu):
        return [objs.theta(i)(mu) for i in range(self.n)]


def affine_use(c, kind, nt, got):
    """The coefficient function returns too few or too many values; wrong parameters."""
    D = Data(c)
    r, m = 2, mdim(kind)
    cls = getattr(c.op.operators, f"Affine{kind}Operator")
    shp = objs.entry_shape(c, kind, r, m)
    o = cls(Wrong(got), nterms=nt, entries=[D.real(f"E{i}", shp) for i in range(nt)])
    mu = D.real("mu", (2,))
    q, u = D.real("q", (r,)), D.real("u", (m,)) if m else None
    Q, U = D.real("Q", (r, 2)), D.real("U", (m, 2)) if m else None
    refuse(c, "evaluate", o, lambda o: o.evaluate(mu))
    refuse(c, "apply", o, lambda o: o.apply(mu, q, u))
    refuse(c, "jacobian", o, lambda o: o.jacobian(mu, q, u))
    refuse(c, "data block", o, lambda o: o.datablock([mu, mu], [Q, Q], [U, U] if m else None))
    o = objs.build_affine(c, D, kind, r, m, nt, "dense", 2)
    obs = lambda o: objs.par_obs(c, D, o, kind, r, m)
    for p in (1, 3):
        refuse(c, f"parameter with {p} entries", o, lambda o: o.evaluate(D.real(f"mu{p}", (p,))), obs)
        refuse(c, f"apply at a parameter with {p} entries", o, lambda o: o.apply(D.real(f"mu{p}", (p,)), q, u), obs)
    refuse(c, "scalar parameter", o, lambda o: o.evaluate(1.5), obs)
    refuse(c, "parameter dimension", o, lambda o: setattr(o, "parameter_dimension", 3), obs)
    o = objs.build_affine(c, D, kind, r, m, nt, None, 2)
    refuse(c, "evaluate without entries", o, lambda o: o.evaluate(mu))
    refuse(c, "apply without entries", o, lambda o: o.apply(mu, q, u))
    refuse(c, "galerkin without entries", o, lambda o: o.galerkin(D.real("V", (r, 1))))
    for bad in (0, -1):
        refuse(c, f"parameter dimension {bad}", objs.build_affine(c, D, kind, r, m, nt, None), lambda o: setattr(o, "parameter_dimension", bad))


# -- interpolated operators --------------------------------------------------------------
def interp(c, kind, pts, what):
    D = Data(c)
    r, m, s = 2, mdim(kind), 3
    cls = getattr(c.op.operators, f"Interp{kind}Operator")
    shp = objs.entry_shape(c, kind, r, m)
    P = objs.POINTS[pts][:s]
    E = lambda i, sh=shp: D.real(f"F{i}{sh}", sh)
    obs = lambda o: objs.par_obs(c, D, o, kind, r, m)
    wide = shp[:-1] + (shp[-1] + 1,)
    ents = {"too few": lambda: [E(0), E(1)], "too many": lambda: [E(i) for i in range(4)], "shapes differ": lambda: [E(0), E(1), E(2, wide)],
            "nan": lambda: [E(0), with_nan(E(1), float("nan")), E(2)], "inf": lambda: [E(0), E(1), with_nan(E(2), float("inf"))], "empty": lambda: [],
            "bad shape": lambda: [E(i, (2, 2, 3)) if kind != "Linear" else E(i, (2, 3)) for i in range(s)]}
    if what in ents:
        c.raises("constructor", GOOD, lambda: quiet(lambda: cls(P, entries=ents[what]())))
        for lay in (None, "dense"):
            o = objs.build_interp(c, D, kind, r, m, pts, lay, None, s)
            refuse(c, what, o, lambda o: o.set_entries(ents[what]()), obs)
    elif what == "no parameters":
        o = cls()
        refuse(c, "entries before parameters", o, lambda o: o.set_entries([E(i) for i in range(s)]), lambda o: [("entries", o.entries), ("parameters", o.training_parameters)])
        c.raises("constructor", GOOD, lambda: cls(entries=[E(i) for i in range(s)]))
    elif what == "duplicates":
        dup = [P[0], P[1], P[0]]
        c.raises("constructor", GOOD, lambda: quiet(lambda: cls(dup, entries=[E(i) for i in range(s)])))
        o = cls(dup)
        refuse(c, "entries at duplicate parameters", o, lambda o: o.set_entries([E(i) for i in range(s)]), lambda o: [("entries set", o.entries is not None), ("interpolator", o.interpolator is None)])
        refuse(c, "evaluate afterwards", o, lambda o: o.evaluate(P[0]))
    elif what == "parameters":
        o = objs.build_interp(c, D, kind, r, m, pts, "dense", None, s)
        refuse(c, "parameters after the entries", o, lambda o: o.set_training_parameters(objs.POINTS[pts][1:4]), obs)
        refuse(c, "parameters after the entries (attribute)", o, lambda o: setattr(o, "training_parameters", objs.POINTS[pts][1:4]), obs)
        o = cls(P)
        keep = lambda o: [("parameters", o.training_parameters), ("dimension", o.parameter_dimension)]
        refuse(c, "parameters of different sizes", o, lambda o: o.set_training_parameters([[1.0, 2.0], [1.0]]), keep)
        refuse(c, "three-dimensional parameters", o, lambda o: o.set_training_parameters(c.np.ones((2, 2, 2))), keep)
        c.raises("constructor", GOOD, lambda: cls([[1.0, 2.0], [3.0]]))
    elif what == "evaluate":
        o = objs.build_interp(c, D, kind, r, m, pts, None, None, s)
        mu = P[1]
        q, u = D.real("q", (r,)), D.real("u", (m,)) if m else None
        refuse(c, "evaluate without entries", o, lambda o: o.evaluate(mu))
        refuse(c, "apply without entries", o, lambda o: o.apply(mu, q, u))
        o = objs.build_interp(c, D, kind, r, m, pts, "dense", None, s)
        p = 1 if pts != "2" else 2
        refuse(c, "parameter of the wrong size", o, lambda o: o.evaluate(D.real("mub", (p + 1,))), obs)
        if p == 2:
            refuse(c, "scalar parameter", o, lambda o: o.evaluate(1.5), obs)
        refuse(c, "state", o, lambda o: o.apply(mu, D.real("q3", (r + 1,)), u), obs) if kind not in ("Constant", "Input") else None
        if m:
            refuse(c, "input", o, lambda o: o.apply(mu, q, D.real("u3", (m + 1,))), obs)


# -- models ------------------------------------------------------------------------------
OPSETS = {"A": (("Linear", None),), "cH": (("Constant", None), ("Quadratic", None)), "AB": (("Linear", None), ("Input", None)), "AN": (("Linear", None), ("StateInput", None)),
          "A+B": (("Linear", None), ("Input", "dense")), "B+A": (("Linear", "dense"), ("Input", None)), "c+H": (("Constant", "dense"), ("Quadratic", None)), "N+A": (("StateInput", "dense"), ("Linear", None)),
          "P": (("Poly0", None), ("Poly1", None)), "full": (("Linear", "dense"), ("Input", "dense"))}


def nm(ops):
    return 2 if any("Input" in k for k, _ in OPSETS[ops]) else 0


def settings(M):
    return [("operators", [id(o) for o in M.operators]), ("dimensions", (M.state_dimension, M.input_dimension)), ("inputs", bool(M._has_inputs)), ("solver", id(M.solver)),
            ("entries set", [o.entries is not None for o in M.operators]), ("parameters", getattr(M, "parameter_dimension", None))] + \
        [(f"entries {i}", objs.dense(o.entries)) for i, o in enumerate(M.operators) if o.entries is not None and not isinstance(o.entries, (list, tuple))]


def use_model(c, D, M, cls, r, m):
    q, u = D.real("q", (r,)), D.real("u", (m,)) if m else None
    rhs = M.rhs(.5, q, (lambda t: u) if m else None) if cls == "ContinuousModel" else (M.rhs(q, u) if cls == "DiscreteModel" else M.rhs(q))
    return [("rhs", rhs)] + [(f"entries {i}", objs.dense(o.entries)) for i, o in enumerate(M.operators)]


def model_ops(c, cls, what, start):
    """Lists of operators that do not go together."""
    D = Data(c)
    O = c.op.operators
    e = lambda k, r, m=2, n="x": objs.build_op(c, D, k, r, m, "dense", f"{n}{k}{r}{m}")
    bad = {"empty": lambda: [], "abbreviation": lambda: ["A", "Z"], "abbreviation text": lambda: "cAZ", "no operator": lambda: [O.LinearOperator(), 3.0], "none": lambda: [None],
           "parametric": lambda: [O.LinearOperator(), O.AffineLinearOperator(2)], "duplicates": lambda: [O.LinearOperator(), O.LinearOperator()], "duplicate abbreviations": lambda: "AHA",
           "duplicate polynomial": lambda: [O.LinearOperator(), O.PolynomialOperator(1)], "state dimensions": lambda: [e("Linear", 2), e("Constant", 3)],
           "state dimensions with inputs": lambda: [e("Linear", 3), O.InputOperator(), e("StateInput", 2)], "input dimensions": lambda: [e("Input", 2, 1), e("StateInput", 2, 2)],
           "input dimensions with unknown": lambda: ["A", e("Input", 2, 2), e("StateInput", 2, 1)], "class": lambda: [O.LinearOperator], "solver": lambda: [c.op.lstsq.PlainSolver()]}[what]
    Model = getattr(c.op.models, cls)
    c.raises("constructor", GOOD, lambda: quiet(lambda: Model(bad())))
    M = objs.build_model(c, D, cls, OPSETS[start], 2, nm(start))
    obs = lambda M: settings(M) + [("inputs needed", needs_inputs(M))]
    refuse(c, what, M, lambda M: setattr(M, "operators", bad()), obs)
    if start != "full":
        objs.build_model  # the model still works
        Probe_fit(c, D, M, cls, 2, nm(start))


def needs_inputs(M):
    try:
        M._check_inputargs(None, "inputs")
        return False
    except ValueError:
        return True


def Probe_fit(c, D, M, cls, r, m):
    keep, M.solver = M.solver, objs.Probe(c, D)
    if cls == "SteadyModel":
        quiet(lambda: M.fit(D.real("Qz", (r, 2)), D.real("Yz", (r, 2))))
    else:
        objs.fit_model(c, D, M, cls, r, m, "z")
    c.true("the model can be fitted", all(o.entries is not None for o in M.operators) and M.state_dimension == r)
    M.solver = keep


def model_dims(c, cls):
    D = Data(c)
    for ops, r, m in (("full", 2, 2), ("A+B", 2, 2), ("B+A", 2, 2), ("N+A", 2, 2), ("c+H", 2, 0)):
        D = Data(c, ops)
        M = objs.build_model(c, D, cls, OPSETS[ops], r, m)
        obs = settings
        for bad in (1, 3):
            refuse(c, f"{ops}: state dimension {bad}", M, lambda M: setattr(M, "state_dimension", bad), obs)
            if ops != "B+A":
                refuse(c, f"{ops}: input dimension {bad}", M, lambda M: setattr(M, "input_dimension", bad), obs)
        if not M._fully_intrusive:
            refuse(c, f"{ops}: solver class", M, lambda M: setattr(M, "solver", c.op.lstsq.PlainSolver), obs)
            lam = D.real("lam")
            before = frozen(obs(M))
            try:
                quiet(lambda: setattr(M, "solver", lam))
            except GOOD:
                c.true(f"{ops}: a nonnegative number is accepted as a solver", lam < 0)
                same(c, "after the rejected solver", before, obs(M))
            else:
                c.true(f"{ops}: a negative number is rejected as a solver", lam >= 0)
                c.eq("regulariser", c.zeros(()) + (M.solver.regularizer if hasattr(M.solver, "regularizer") else 0.0), c.zeros(()) + lam)


def model_fit(c, cls, ops, r, state, what):
    """Training data of sizes that do not match."""
    D = Data(c)
    np = c.np
    m, k = nm(ops), 3
    M = objs.build_model(c, D, cls, OPSETS[ops], r, m)
    M.solver = objs.Probe(c, D)
    if state == "fitted":
        if cls == "SteadyModel":
            M.fit(D.real("Qok", (r, 2)), D.real("Yok", (r, 2)))
        else:
            objs.fit_model(c, D, M, cls, r, m, "ok")
    R = lambda n, *s: D.real(n, s)
    Q, Z, U = R("Q", r, k), R("Z", r, k), R("U", m, k) if m else None
    less = (R("Ul", m, k - 1) if m else None)
    bad = {"more lhs columns": (Q, R("Zc", r, k + 1), U), "fewer lhs columns": (Q, R("Zf", r, k - 1), U), "more lhs rows": (Q, R("Zr", r + 1, k), U), "fewer lhs rows": (R("Qr", r + 1, k), Z, U),
           "1-D lhs": (Q, R("Z1", k) if r > 1 else R("Z1", k + 1), U), "1-D states": (R("Q1d", k) if r > 1 else R("Q1d", k + 1), Z, U), "1-row states": (R("Q1r", 1, k), R("Z1r", 1, k), U),
           "more rows": (R("Qm", r + 1, k), R("Zm", r + 1, k), U), "no inputs": (Q, Z, None), "fewer inputs": (Q, Z, less), "more inputs": (Q, Z, R("Um", m, k + 1)), "input rows": (Q, Z, R("Ur", m + 1, k)),
           "fewer input rows": (Q, Z, R("Uf", 1, k)), "transposed inputs": (Q, Z, R("Ut", k, m)), "1-D inputs": (Q, Z, R("U1", k)), "no lhs": (Q, None, U), "transposed": (R("Qt", k, r), Z, U)}[what]
    args = bad if cls != "SteadyModel" else bad[:2]
    if args[-1] is None and cls != "SteadyModel":
        args = args[:2]
    refuse_fit(c, what, M, lambda M: M.fit(*args), lambda M: use_model(c, D, M, cls, r, m))
    if what == "fewer input rows" and cls == "DiscreteModel":
        refuse_fit(c, "without next states", M, lambda M: M.fit(Q, inputs=R("Uf", 1, k)), lambda M: use_model(c, D, M, cls, r, m))
    if what == "fewer inputs" and cls == "DiscreteModel":
        refuse_fit(c, "without next states", M, lambda M: M.fit(Q, inputs=R("Uff", m, k - 2)), lambda M: use_model(c, D, M, cls, r, m))
    # the model can be fitted to proper data afterwards
    P = M.solver = objs.Probe(c, D)
    if cls == "SteadyModel":
        M.fit(D.real("Qok", (r, 2)), D.real("Yok", (r, 2)))
    else:
        objs.fit_model(c, D, M, cls, r, m, "ok")
    c.true("proper data is accepted afterwards", len(P.log) == 1 and M.state_dimension == r and int(M.input_dimension or 0) == m)


def model_use(c, cls, ops, state):
    """Prediction before training, and with arguments of the wrong size."""
    D = Data(c)
    np = c.np
    r, m = 2, nm(ops)
    M = objs.build_model(c, D, cls, OPSETS[ops], r, m)
    if not M._fully_intrusive:
        M.solver = objs.Probe(c, D)
    q, u = D.real("q", (r,)), D.real("u", (m,)) if m else None
    t = np.array([0., .5, 1.])
    if cls == "ContinuousModel":
        rhs = lambda M, q=q, u=u: M.rhs(.5, q, (lambda t: u) if m else None)
        jac = lambda M, q=q, u=u: M.jacobian(.5, q, (lambda t: u) if m else None)
        pred = lambda M, q=q, u=u: M.predict(q, t, (lambda t: u) if m else None)
    elif cls == "DiscreteModel":
        rhs, jac = lambda M, q=q, u=u: M.rhs(q, u), lambda M, q=q, u=u: M.jacobian(q, u)
        pred = lambda M, q=q, u=u: M.predict(q, 3, None if u is None else np.column_stack([u, u, u]))
    else:
        rhs, jac, pred = lambda M, q=q, u=None: M.rhs(q), lambda M, q=q, u=None: M.jacobian(q), lambda M, q=q, u=None: M.predict(q)
    if state == "unfitted":
        for how in ("new", "sized", "other solver", "cleared"):
            if how == "sized":
                M.state_dimension = r
                if m and M.input_dimension is None:
                    M.input_dimension = m
            if how == "cleared":
                Probe_fit(c, D, M, cls, r, m)
                M._clear()
            refuse(c, f"rhs ({how})", M, rhs, settings)
            refuse(c, f"predict ({how})", M, pred, settings)
            if set(k for k, lay in OPSETS[ops] if lay is None) != {"Constant"}:
                refuse(c, f"jacobian ({how})", M, jac, settings) if not ops == "P" and ops != "B+A" else None
            if ops != "A+B" and how == "new" and not m:
                c.raises("operator matrix", GOOD, lambda: M.operator_matrix)
        c.raises("refit before fit", GOOD, lambda: objs.build_model(c, D, cls, OPSETS[ops], r, m).refit())
        return
    if not M._fully_intrusive:
        objs.fit_model(c, D, M, cls, r, m, "ok")
    obs = settings
    for w in ((r + 1,), (1,), (r, 1), (1, r), (), (r, 2)):
        x = D.real("x" + "x".join(map(str, w)), w)
        refuse(c, f"initial condition {w}", M, lambda M: pred(M, x), obs)
    refuse(c, "state for rhs", M, lambda M: rhs(M, D.real("x3", (r + 1,))), obs)
    if m:
        refuse(c, "input for rhs", M, lambda M: rhs(M, q, D.real("u3", (m + 1,))), obs)
        refuse(c, "fewer inputs for rhs", M, lambda M: rhs(M, q, D.real("u1", (m - 1,))), obs)
    if cls == "DiscreteModel":
        U = D.real("U", (m, 3)) if m else None
        for bad in (0, -1, 1.5, 2.0, None):
            refuse(c, f"{bad} iterations", M, lambda M: M.predict(q, bad, U), obs)
        if m:
            for w in ((m, 1), (m + 1, 3), (1, 3), (3, m), (3,), (m, 3, 1)):
                refuse(c, f"inputs {w}", M, lambda M: M.predict(q, 3, D.real("U" + "x".join(map(str, w)), w)), obs)
            refuse(c, "no inputs", M, lambda M: M.predict(q, 3), obs)
            refuse(c, "input function", M, lambda M: M.predict(q, 3, lambda t: u), obs)
    elif cls == "ContinuousModel":
        refuse(c, "two-dimensional time", M, lambda M: M.predict(q, t.reshape((1, -1)), (lambda t: u) if m else None), obs)
        if m:
            refuse(c, "no inputs", M, lambda M: M.predict(q, t), obs)
            for w in ((m + 1,), (m - 1,), (m, 1)):
                refuse(c, f"input function {w}", M, lambda M: M.predict(q, t, lambda t: D.real("u" + "x".join(map(str, w)), w)), obs)
            refuse(c, "input function with a list", M, lambda M: M.predict(q, t, lambda t: [1.0, 2.0]), obs)
            for w in ((m, 2), (m, 4), (m + 1, 3), (3, m), (3,)):
                refuse(c, f"inputs {w}", M, lambda M: M.predict(q, t, D.real("U" + "x".join(map(str, w)), w)), obs)


def model_galerkin(c, cls):
    D = Data(c)
    M = objs.build_model(c, D, cls, (("Constant", "dense"), ("Linear", "dense"), ("Input", "dense")), 2, 1)
    for label, a in [("rows", (D.real("V1", (3, 1)),)), ("test rows", (D.real("V", (2, 1)), D.real("W1", (3, 1)))), ("test columns", (D.real("V", (2, 1)), D.real("W2", (2, 2))))]:
        refuse(c, label, M, lambda M: M.galerkin(*a), settings)


# -- parametric models -------------------------------------------------------------------
def use_pmodel(c, D, M, cls, fam, r, m):
    mu = 1.25 if fam == "interp" else D.real("mu", (2,))
    N = M.evaluate(mu)
    return use_model(c, D, N, cls, r, m) + [("parameters", M.parameter_dimension)]


def p_make(c, cls, fam, what, start):
    """Operators that do not go together in a parametric model."""
    D = Data(c)
    O = c.op.operators
    aff = lambda k, r, p=None, lay="dense", m=2, n="x": objs.build_affine(c, D, k, r, m, 2, lay, p, name=f"{n}{k}{r}{m}")
    itp = lambda k, r, pts="1", m=2: objs.build_interp(c, D, k, r, m, pts, "dense", None, 3, name=f"i{k}{r}{m}{pts}")
    opk = lambda k, r, m=2: objs.build_op(c, D, k, r, m, "dense", f"o{k}{r}{m}")
    P = {"affine": {"parameter dimensions": lambda: [aff("Constant", 2, 2), aff("Linear", 2, 3)], "parameter and interpolation": lambda: [aff("Constant", 2, 2), itp("Linear", 2)],
                    "state dimensions": lambda: [aff("Constant", 2, 2), aff("Linear", 3, 2)], "state dimensions with known": lambda: [aff("Constant", 2, 2), opk("Linear", 3)],
                    "input dimensions": lambda: [aff("Input", 2, 2, m=1), opk("StateInput", 2, 2)], "no operator": lambda: [aff("Linear", 2, 2), "nonsense"],
                    "duplicates": lambda: [O.AffineLinearOperator(2), O.LinearOperator()], "empty": lambda: []},
         "interp": {"parameter dimensions": lambda: [itp("Constant", 2), itp("Linear", 2, "2")], "state dimensions": lambda: [itp("Constant", 2), itp("Linear", 3)],
                    "input dimensions": lambda: [itp("Input", 2, m=1), itp("StateInput", 2, m=2)], "affine": lambda: [itp("Constant", 2), aff("Linear", 2, 1)],
                    "nonparametric": lambda: [itp("Constant", 2), opk("Linear", 2)], "duplicates": lambda: [O.InterpLinearOperator(), O.InterpLinearOperator()], "empty": lambda: []}}[fam]
    if what not in P:
        c.ok("not applicable")
        return
    Model = getattr(c.op.models, ("Interp" if fam == "interp" else "Parametric") + cls)
    c.raises("constructor", GOOD, lambda: quiet(lambda: Model(P[what]())))
    M = quiet(lambda: objs.build_pmodel(c, D, cls, fam, ("Linear", "Input") if start == "in" else ("Linear",), 2, 2 if start == "in" else 0, known=()))
    refuse(c, what, M, lambda M: setattr(M, "operators", P[what]()), lambda M: settings(M) + [("inputs needed", needs_inputs(M))])
    p_fit_ok(c, D, M, cls, fam, 2, 2 if start == "in" else 0)


def p_fit_ok(c, D, M, cls, fam, r, m, tag="z"):
    s = 2
    P = M.solver = objs.Probe(c, D)
    mus = objs.POINTS["1" if fam == "interp" else "2"][:s]
    Qs, Zs = [D.real(f"Q{tag}{i}", (r, 2)) for i in range(s)], [D.real(f"Y{tag}{i}", (r, 2)) for i in range(s)]
    Us = [D.real(f"U{tag}{i}", (m, 2)) for i in range(s)] if m else None
    quiet(lambda: M.fit(mus, Qs, Zs, Us))
    c.true("proper data is accepted", len(P.log) >= 1 and M.state_dimension == r and all(o.entries is not None for o in M.operators))


def p_fit(c, cls, fam, kinds, known, state, what):
    D = Data(c)
    r, k, s = 2, 2, 2
    m = 2 if any("Input" in x for x in kinds) else 0
    M = quiet(lambda: objs.build_pmodel(c, D, cls, fam, kinds, r, m, known=known, pts="1"))
    M.solver = objs.Probe(c, D)
    if state == "fitted":
        p_fit_ok(c, D, M, cls, fam, r, m)
    if known and fam == "interp":
        s = 3
    R = lambda n, *sh: D.real(n, sh)
    mus = objs.POINTS["1" if fam == "interp" else "2"][:s]
    Qs, Zs, Us = [R(f"Q{i}", r, k) for i in range(s)], [R(f"Z{i}", r, k) for i in range(s)], [R(f"U{i}", m, k) for i in range(s)] if m else None
    x = lambda L, i, v: L[:i] + [v] + L[i + 1:] if L is not None else None
    more = lambda L, sh: L + [R("m" + "x".join(map(str, sh)), *sh)] if L is not None else None
    last = s - 1
    bad = {"fewer parameters": (mus[:-1], Qs, Zs, Us), "more parameters": (objs.POINTS["1" if fam == "interp" else "2"][:s + 1], Qs, Zs, Us), "fewer states": (mus, Qs[:-1], Zs, Us),
           "more states": (mus, more(Qs, (r, k)), Zs, Us), "fewer lhs": (mus, Qs, Zs[:-1], Us), "more lhs": (mus, Qs, more(Zs, (r, k)), Us), "fewer inputs": (mus, Qs, Zs, (Us or [])[:-1]),
           "more inputs": (mus, Qs, Zs, more(Us, (m, k))), "no inputs": (mus, Qs, Zs, None), "state rows": (mus, x(Qs, last, R("Qb", r + 1, k)), x(Zs, last, R("Zb", r + 1, k)), Us),
           "lhs rows": (mus, Qs, x(Zs, last, R("Zb2", r + 1, k)), Us), "lhs columns": (mus, Qs, x(Zs, last, R("Zb3", r, k + 1)), Us), "fewer lhs columns": (mus, Qs, x(Zs, last, R("Zb4", r, k - 1)), Us),
           "shifted columns": (mus, x(Qs, 0, R("Qb5", r, k + 1)), x(Zs, last, R("Zb5", r, k + 1)), Us), "input rows": (mus, Qs, Zs, x(Us, last, R("Ub", m + 1, k))),
           "fewer input rows": (mus, Qs, Zs, x(Us, last, R("Ub1", 1, k))), "fewer input columns": (mus, Qs, Zs, x(Us, last, R("Ub2", m, k - 1))),
           "more input columns": (mus, Qs, Zs, x(Us, last, R("Ub3", m, k + 1))), "parameter sizes": ([(0.0, 1.0, 2.0)] * s, Qs, Zs, Us) if fam == "affine" else ([[1.0, 2.0], [1.0]], Qs[:2], Zs[:2], Us[:2] if Us else None),
           "parameters 3-D": (c.np.ones((s, 2, 2)), Qs, Zs, Us), "parameter scalar": (1.0, Qs, Zs, Us), "no lhs": (mus, Qs, None, Us),
           "swapped inputs": (mus, x(Qs, 0, R("Qb6", r, k + 1)), x(Zs, 0, R("Zb6", r, k + 1)), x(Us, last, R("Ub6", m, k + 1)))}[what]
    if what == "parameter sizes" and fam == "interp" and known:
        bad = ([[1.0, 2.0], [3.0, 1.0], [0.0, 1.0]], Qs, Zs, Us)
    refuse_fit(c, what, M, lambda M: M.fit(*bad), lambda M: use_pmodel(c, D, M, cls, fam, r, m))
    if cls == "DiscreteModel" and what in ("fewer states", "more states", "fewer inputs", "more inputs", "state rows", "fewer input rows", "fewer parameters", "more parameters", "no inputs"):
        wide = lambda L: None if L is None else [c.np.hstack([Q, Q]) for Q in L]
        refuse_fit(c, f"{what} without next states", M, lambda M: M.fit(bad[0], wide(bad[1]), None, wide(bad[3])), lambda M: use_pmodel(c, D, M, cls, fam, r, m))
    if not known or fam == "affine":
        p_fit_ok(c, D, M, cls, fam, r, m)


def p_use(c, cls, fam):
    D = Data(c)
    r = 2
    M = quiet(lambda: objs.build_pmodel(c, D, cls, fam, ("Linear", "Input"), r, 2, known=()))
    q, u = D.real("q", (r,)), D.real("u", (2,))
    mu = objs.POINTS["1" if fam == "interp" else "2"][0]
    t = c.np.array([0., 1.])
    pred = (lambda M, mu=mu, q=q: M.predict(mu, q, t, lambda t: u)) if cls == "ContinuousModel" else (lambda M, mu=mu, q=q: M.predict(mu, q, 2, c.np.column_stack([u, u])))
    rhs = (lambda M, mu=mu, q=q: M.rhs(.5, mu, q, lambda t: u)) if cls == "ContinuousModel" else (lambda M, mu=mu, q=q: M.rhs(mu, q, u))
    for how in ("new", "sized"):
        if how == "sized":
            M.state_dimension, M.input_dimension = r, 2
        refuse(c, f"evaluate ({how})", M, lambda M: M.evaluate(mu), settings)
        refuse(c, f"predict ({how})", M, pred, settings)
        refuse(c, f"rhs ({how})", M, rhs, settings)
        refuse(c, f"refit ({how})", M, lambda M: M.refit(), settings)
    p_fit_ok(c, D, M, cls, fam, r, 2)
    p = {"interp": 1, "affine": 2}[fam]
    badmu = D.real("badmu", (p + 1,))
    refuse(c, "parameter", M, lambda M: M.evaluate(badmu), settings)
    refuse(c, "parameter for predict", M, lambda M: pred(M, badmu), settings)
    refuse(c, "parameter for rhs", M, lambda M: rhs(M, badmu), settings)
    refuse(c, "initial condition", M, lambda M: pred(M, mu, D.real("q3", (r + 1,))), settings)
    refuse(c, "state", M, lambda M: rhs(M, mu, D.real("q3", (r + 1,))), settings)
    refuse(c, "state dimension", M, lambda M: setattr(M, "state_dimension", r + 1), settings)
    refuse(c, "input dimension", M, lambda M: setattr(M, "input_dimension", 3), settings)


def from_models(c, cls, what):
    """Interpolating between models that differ."""
    D = Data(c)
    Model = getattr(c.op.models, "Interp" + cls)
    A = lambda i, ops=(("Linear", "dense"), ("Input", "dense")), r=2, m=2: objs.build_model(c, Data(c, f"m{i}_{r}{m}"), cls, ops, r, m)
    full = [A(0), A(1), A(2)]
    mus = [1.0, 2.0, 3.0]
    bad = {"fewer models": (mus, full[:2]), "more models": (mus[:2], full), "operator types": (mus, full[:2] + [A(2, (("Linear", "dense"), ("Constant", "dense")))]),
           "operator order": (mus, full[:2] + [A(2, (("Input", "dense"), ("Linear", "dense")))]), "number of operators": (mus, full[:2] + [A(2, (("Linear", "dense"),))]),
           "state dimension": (mus, full[:2] + [A(2, r=3)]), "input dimension": (mus, full[:2] + [A(2, m=1)]), "untrained": (mus, full[:2] + [A(2, (("Linear", None), ("Input", "dense")))]),
           "more operators": (mus, full[:2] + [A(2, (("Linear", "dense"), ("Input", "dense"), ("Constant", "dense")))]), "duplicate parameters": ([1.0, 2.0, 1.0], full),
           "parameter sizes": ([[1.0, 2.0], [1.0], [2.0]], full)}[what]
    keep = [frozen(settings(M)) for M in full]
    c.raises(what, GOOD, lambda: quiet(lambda: Model._from_models(*bad)))
    for M, b in zip(full, keep):
        same(c, "the models", b, settings(M))


def cases(tier):
    out = []
    T = tier == "thorough"
    add = lambda name, f, **kw: out.append((name, f, kw))
    for kind in BAD:
        for r, shapes in BAD[kind].items():
            for sh in shapes:
                add(f"entries-{kind}-r{r}-{'x'.join(map(str, sh)) or '0d'}", entries_shape, kind=kind, r=r, shape=sh)
    kinds = ["Constant", "Linear", "Quadratic", "Cubic", "Quartic", "Input", "StateInput", "Poly0", "Poly1", "Poly2", "Poly3"]
    for kind in kinds:
        for what in ("nan", "inf", "-inf", "list", "dict"):
            add(f"entries-{kind}-{what}", entries_value, kind=kind, r=2, what=what, layout="dense")
        add(f"unset-{kind}", unset, kind=kind, r=2)
        for r in () if kind == "Constant" else (1, 2, 3) if T and not kind.startswith(("Quartic", "Poly3")) else (1, 2):
            add(f"states-{kind}-r{r}", states, kind=kind, r=r)
        if not kind.startswith("Poly"):
            add(f"projection-{kind}", projection, kind=kind, n=2)
        if kind in ("Quadratic", "Cubic", "Quartic"):
            for r in (1, 2, 3) if kind != "Quartic" else (1, 2):
                add(f"helpers-{kind}-r{r}", helpers, kind=kind, r=r)
    for lay in ("csr", "csc", "coo"):
        for what in ("nan", "inf"):
            add(f"entries-Linear-{what}-{lay}", entries_value, kind="Linear", r=2, what=what, layout=lay)
    add("polynomial", polynomial)
    akinds = ["Constant", "Linear", "Quadratic", "Cubic", "Input", "StateInput"]
    for kind in akinds:
        for what in ("too few", "too many", "empty", "shapes differ", "rows differ", "no terms", "zero terms", "negative terms", "fractional terms", "coeffs None", "coeffs zero", "coeffs negative",
                     "coeffs number", "block too wide", "block list", "block 3-D", "nan", "inf", "list entries"):
            if kind in ("Constant", "Linear", "StateInput") or what in ("too few", "too many", "shapes differ", "nan", "block too wide"):
                if kind == "Constant" and what in ("block 3-D",) or kind == "Input" and what == "block too wide":
                    continue
                add(f"affine-{kind}-{what}", affine_make, kind=kind, what=what)
        for nt, got in [(2, 1), (2, 3), (1, 2), (3, 2)] if T or kind in ("Linear", "StateInput") else [(2, 1), (2, 3)]:
            add(f"affine-{kind}-coeffs-{nt}-{got}", affine_use, kind=kind, nt=nt, got=got)
        for pts in ("1", "2"):
            for what in ("too few", "too many", "shapes differ", "nan", "inf", "empty", "bad shape", "no parameters", "duplicates", "parameters", "evaluate"):
                if pts == "2" and what in ("duplicates", "nan", "inf", "bad shape", "empty"):
                    continue
                add(f"interp-{kind}-{pts}-{what}", interp, kind=kind, pts=pts, what=what)
    for cls in ("ContinuousModel", "DiscreteModel"):
        steady = cls == "SteadyModel"
        for what in ("empty", "abbreviation", "abbreviation text", "no operator", "none", "parametric", "duplicates", "duplicate abbreviations", "duplicate polynomial", "state dimensions",
                     "state dimensions with inputs", "input dimensions", "input dimensions with unknown", "class", "solver"):
            for start in ("A", "c+H") if steady else ("A", "AB", "full"):
                add(f"operators-{cls}-{what}-{start}", model_ops, cls=cls, what=what, start=start)
        if not steady:
            add(f"dimensions-{cls}", model_dims, cls=cls)
            add(f"galerkin-{cls}", model_galerkin, cls=cls)
        for ops in ("A", "cH", "c+H", "P") if steady else ("A", "cH", "AB", "AN", "A+B", "B+A", "c+H", "N+A", "P"):
            for what in ("more lhs columns", "fewer lhs columns", "more lhs rows", "fewer lhs rows", "1-D lhs", "1-D states", "1-row states", "more rows", "no inputs", "fewer inputs", "more inputs", "input rows",
                         "fewer input rows", "transposed inputs", "1-D inputs", "no lhs", "transposed"):
                known = "+" in ops
                if "input" in what and (nm(ops) == 0):
                    continue
                if what == "no lhs" and cls != "ContinuousModel" and True or what in ("1-row states", "more rows") and not known:
                    continue
                if what == "more inputs" and cls == "DiscreteModel":
                    continue
                if what in ("input rows", "fewer input rows", "1-D inputs", "transposed inputs") and not any("Input" in k and lay for k, lay in OPSETS[ops]) and what != "transposed inputs":
                    continue
                for state in ("new", "fitted") if known or T or ops in ("A", "AB") else ("new",):
                    if what in ("1-row states", "more rows") and not known:
                        continue
                    add(f"fit-{cls}-{ops}-{what}-{state}", model_fit, cls=cls, ops=ops, r=2, state=state, what=what)
        for ops in ("A", "cH", "c+H") if steady else ("A", "cH", "AB", "AN", "A+B", "B+A", "c+H", "N+A", "P", "full"):
            if ops != "full":
                add(f"use-{cls}-{ops}-unfitted", model_use, cls=cls, ops=ops, state="unfitted")
            if not steady:
                add(f"use-{cls}-{ops}-fitted", model_use, cls=cls, ops=ops, state="fitted")
        if steady:
            continue
        for fam in ("affine", "interp"):
            for what in ("parameter dimensions", "parameter and interpolation", "state dimensions", "state dimensions with known", "input dimensions", "no operator", "affine", "nonparametric", "duplicates", "empty"):
                for start in ("plain", "in"):
                    add(f"poperators-{cls}-{fam}-{what}-{start}", p_make, cls=cls, fam=fam, what=what, start=start)
            for kinds, known in ((("Linear",), ()), (("Linear", "Input"), ()), (("Constant", "Linear"), (0,)), (("Linear", "StateInput"), (1,))):
                m = any("Input" in k for k in kinds)
                for what in ("fewer parameters", "more parameters", "fewer states", "more states", "fewer lhs", "more lhs", "fewer inputs", "more inputs", "no inputs", "state rows", "lhs rows", "lhs columns",
                             "fewer lhs columns", "shifted columns", "input rows", "fewer input rows", "fewer input columns", "more input columns", "parameter sizes", "parameters 3-D", "parameter scalar",
                             "no lhs", "swapped inputs"):
                    if "input" in what and not m or what == "no lhs" and cls == "DiscreteModel" or what == "more input columns" and cls == "DiscreteModel" or what == "parameter sizes" and fam == "affine" and not known:
                        continue
                    if known and fam == "interp" and what == "more parameters":
                        pass
                    for state in ("new",) if known and fam == "interp" else ("new", "fitted"):
                        add(f"pfit-{cls}-{fam}-{'+'.join(kinds)}-{len(known)}-{what}-{state}", p_fit, cls=cls, fam=fam, kinds=kinds, known=known, state=state, what=what)
            add(f"puse-{cls}-{fam}", p_use, cls=cls, fam=fam)
        for what in ("fewer models", "more models", "operator types", "operator order", "number of operators", "state dimension", "input dimension", "untrained", "more operators", "duplicate parameters", "parameter sizes"):
            add(f"from-models-{cls}-{what}", from_models, cls=cls, what=what)
    return out


first_part = cases


def cases(tier):
    from checks import c27b

    return first_part(tier) + c27b.cases(tier)


def _second_part():
    from checks import c27b

    for key, val in vars(c27b).items():
        if callable(val) and (key[:2] in ("s_", "t_", "b_", "d_", "r_") or key in ("helpers2", "helpers3")):
            globals().setdefault(key, val)


_second_part()
