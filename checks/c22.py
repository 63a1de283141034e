"""C22: saved objects load back to equal objects."""

import itertools
import os

from checks import objs
from checks.objs import Data, quiet, same
from checks.preutil import ss_all, tag as tftag

BOUNDS = ("every serialisable class: nonparametric operators (dense, six sparse formats, unset; r<=2, m<=2), affine operators (1-3 and 12 terms, dense/sparse/mixed/unset), interpolated "
          "operators (3-4 points in one or two parameters, five interpolators, unset), steady/discrete/continuous models with known, fitted and unknown operators and each solver, "
          "interpolated models, all built-in transformers and their combinations (nested once, up to 4 rows), linear/POD/multi-variable bases (no, diagonal, dense and sparse "
          "weights; n<=4), every least-squares solver (set, unset and nested options; fitted or not); all real contents")
OUTSIDE = ("the HDF5 file format itself (an in-memory stand-in for h5py with its semantics for names, attributes and shapes; concrete runs use h5py); interpolators that "
           "are not part of SciPy; user-defined objects; the overwrite default of OperatorPosterior.save, which is documented to be True")


def cycle(c, D, obj, build2, load, obs, eq=True, label="", wrong=(), ext=".h5", ident=None):
    """The round trip of one object.  obs(D, x) lists the observations of x."""
    path = c.path("x" + ext)
    before = obs(obj)
    quiet(lambda: obj.save(path))
    same(c, "the saved object", before, obs(obj))
    new = quiet(lambda: load(path))
    same(c, "the loaded object", before, obs(new))
    if eq:
        c.true("the loaded object equals the saved one", bool(new == obj))
        c.true("the saved object equals the loaded one", bool(obj == new))
    other = build2() if build2 is not None else None
    c.raises("saving over a file", (FileExistsError,), lambda: quiet(lambda: (other if other is not None else obj).save(path)))
    same(c, "reloaded after the refused overwrite", before, obs(quiet(lambda: load(path))))
    if other is not None:
        quiet(lambda: other.save(path, overwrite=True))
        same(c, "after overwriting", obs(other), obs(quiet(lambda: load(path))))
    # saving the loaded object again
    path2 = c.path("y" + ext)
    quiet(lambda: new.save(path2))
    same(c, "second generation", before, obs(quiet(lambda: load(path2))))
    for what, f in wrong:
        c.raises(f"loading {what}", None, lambda: quiet(lambda: f(path)))


# -- operators -------------------------------------------------------------------
def op(c, kind, r, m, layout, layout2):
    D = Data(c)
    obj = objs.build_op(c, D, kind, r, m, layout)
    cls = objs.op_cls(c, kind)
    wrong = c.op.operators.LinearOperator if kind != "Linear" else c.op.operators.QuadraticOperator
    cycle(c, D, obj, lambda: objs.build_op(c, D, kind, r, m, layout2, "F"), cls.load, lambda x: objs.op_obs(c, D, x, kind, r, m),
          wrong=[("another class", wrong.load)])


def affine(c, kind, r, m, nt, layout, p):
    D = Data(c)
    cls = getattr(c.op.operators, f"Affine{kind}Operator")
    obj = objs.build_affine(c, D, kind, r, m, nt, layout, p)
    coeffs = nt if p == "int" else (objs.Thetas(nt) if p == "call" else [objs.theta(i) for i in range(nt)])
    fresh = objs.build_affine(c, D, kind, r, m, nt, layout, p, "G")
    fresh.save(c.path("fresh.h5"))
    c.true("the parameter dimension is kept, set or not", cls.load(c.path("fresh.h5"), coeffs).parameter_dimension == fresh.parameter_dimension)
    wrong = "Linear" if kind != "Linear" else "Quadratic"
    cycle(c, D, obj, lambda: objs.build_affine(c, D, kind, r, m, nt, "dense", p, "F"), lambda f: cls.load(f, coeffs), lambda x: objs.par_obs(c, D, x, kind, r, m), eq=False,
          wrong=[("another class", lambda f: getattr(c.op.operators, f"Affine{wrong}Operator").load(f, coeffs))])


def interp(c, kind, r, m, pts, layout, ic, s):
    D = Data(c)
    cls = getattr(c.op.operators, f"Interp{kind}Operator")
    obj = objs.build_interp(c, D, kind, r, m, pts, layout, ic, s)
    wrong = "Linear" if kind != "Linear" else "Quadratic"
    cycle(c, D, obj, lambda: objs.build_interp(c, D, kind, r, m, "1", "dense", None, s, "F"), cls.load, lambda x: objs.par_obs(c, D, x, kind, r, m),
          wrong=[("another class", getattr(c.op.operators, f"Interp{wrong}Operator").load)])


# -- models ------------------------------------------------------------------------
def model(c, cls, ops, r, m, solver, fit, sizes):
    D = Data(c)
    obj = objs.build_model(c, D, cls, ops, r, m, solver, fit, sizes)
    M = getattr(c.op.models, cls)
    obs = lambda x: objs.model_obs(c, D, x, cls, r, m, refit=False)
    path = c.path("x.h5")
    before = obs(obj)
    quiet(lambda: obj.save(path))
    same(c, "the saved model", before, obs(obj))
    new = quiet(lambda: M.load(path))
    same(c, "the loaded model", before, obs(new))
    c.true("equal", bool(new == obj) and bool(obj == new))
    c.raises("saving over a file", (FileExistsError,), lambda: obj.save(path))
    same(c, "reloaded", before, obs(quiet(lambda: M.load(path))))
    quiet(lambda: new.save(path, overwrite=True))
    third = quiet(lambda: M.load(path))
    same(c, "second generation", before, obs(third))
    if fit == "real":
        quiet(lambda: (obj.refit(), third.refit()))
        same(c, "the loaded model after refit()", obs(obj), obs(third))
    full = objs.model_obs(c, D, obj, cls, r, m)
    same(c, "the loaded model after another fit", full, objs.model_obs(c, D, third, cls, r, m))


def pmodel(c, cls, kinds, r, m, ic, known, pts, solver, mic, sizes=None):
    D = Data(c)
    obj = objs.build_pmodel(c, D, cls, "interp", kinds, r, m, "dense", ic, known, pts, solver, mic, sizes)
    M = getattr(c.op.models, "Interp" + cls)
    obs = lambda x: objs.pmodel_obs(c, D, x, cls, "interp", r, m, refit=False)
    path = c.path("x.h5")
    before = obs(obj)
    quiet(lambda: obj.save(path))
    same(c, "the saved model", before, obs(obj))
    new = quiet(lambda: M.load(path))
    same(c, "the loaded model", before, obs(new))
    c.true("equal", bool(new == obj) and bool(obj == new))
    c.raises("saving over a file", (FileExistsError,), lambda: obj.save(path))
    same(c, "reloaded", before, obs(quiet(lambda: M.load(path))))
    quiet(lambda: new.save(path, overwrite=True))
    third = quiet(lambda: M.load(path))
    same(c, "second generation", before, obs(third))
    same(c, "the loaded model after another fit", objs.pmodel_obs(c, D, obj, cls, "interp", r, m, pts=pts), objs.pmodel_obs(c, D, third, cls, "interp", r, m, pts=pts))


# -- transformers --------------------------------------------------------------------
def multi_load(c, names):
    from checks import preutil
    pre = c.op.pre
    return pre


def tf_loader(c, spec):
    pre = c.op.pre
    k = spec[0]
    cls = {"null": "NullTransformer", "shift": "ShiftTransformer", "scale": "ScaleTransformer", "scalev": "ScaleTransformer", "ss": "ShiftScaleTransformer",
           "multi": "TransformerMulti", "pipe": "TransformerPipeline"}[k]
    cls = getattr(pre, cls)
    if k in ("multi", "pipe"):
        kids = [kid_class(c, s) for s in spec[1]]
        return lambda f: cls.load(f, kids)
    return cls.load


def kid_class(c, spec):
    """A class, or for nested containers an object whose load() knows the classes of its parts."""
    pre = c.op.pre
    k = spec[0]
    if k in ("multi", "pipe"):
        return Loader(tf_loader(c, spec))
    return getattr(pre, {"null": "NullTransformer", "shift": "ShiftTransformer", "scale": "ScaleTransformer", "scalev": "ScaleTransformer", "ss": "ShiftScaleTransformer"}[k])


class Loader:
    def __init__(self, f):
        self.load = f


def tf(c, spec, n, fit, names):
    D = Data(c)
    obj = objs.build_tf(c, D, spec, n, fit, "T", names)
    eq = spec[0] == "ss" or spec[0] == "multi" and all(s[0] == "ss" for s in spec[1])
    other = (lambda: objs.build_tf(c, D, spec, n, False, "S", not names)) if not needs_fit(spec) else None
    if spec[0] == "multi" and fit is False and needs_fit(spec):
        eq = False
    cycle(c, D, obj, other, tf_loader(c, spec), lambda x: objs.tf_obs(c, D, x, n, ready(x)), eq=eq)


def ready(T):
    if hasattr(T, "transformers"):
        return all(ready(t) for t in T.transformers)
    return T.state_dimension is not None


def needs_fit(spec):
    return spec[0] == "ss" and (spec[1] or spec[2] is not None) or spec[0] in ("multi", "pipe") and any(needs_fit(s) for s in spec[1])


# -- bases -----------------------------------------------------------------------------
def basis(c, kind, n, r, weights, name, crit, full, extra=None):
    D = Data(c)
    obj = objs.build_basis(c, D, kind, n, r, weights, name, crit, full)
    c.opt("assume_close", True)
    if extra is not None:
        obj.reduced_state_dimension = extra
    cls = c.op.basis.LinearBasis if kind == "linear" else c.op.basis.PODBasis
    other = lambda: objs.build_basis(c, D, kind, n, r, weights, "other", crit, full)
    wrong = [] if kind == "linear" else []
    cycle(c, D, obj, other, cls.load, lambda x: objs.basis_obs(c, D, x, n, r))
    if kind != "linear" and obj.entries is not None:
        path = c.path("z.h5")
        obj.save(path)
        for mv in range(1, obj.max_vectors + 2):
            new = quiet(lambda: cls.load(path, max_vectors=mv))
            keep = min(mv, obj.max_vectors)
            c.true("number of vectors kept", new.max_vectors == keep, f"{new.max_vectors}")
            want = min(obj.reduced_state_dimension, keep)
            c.true("the dimension is that of the saved basis as far as the vectors go", int(new.reduced_state_dimension) == int(want), f"{new.reduced_state_dimension}")
            c.eq("the vectors", new.entries, obj.entries[:, :want])
            c.eq("the singular values", new.svdvals, obj.svdvals)
            e = [x * x for x in obj.svdvals]
            c.eq("the share of the energy", new.cumulative_energy * sum(e), sum(e[:want]))


MULTI = {
    "lin": [("linear", 2, 1, {}), ("linear", 3, 2, {})],
    "linw": [("linear", 2, 1, {"weights": "diag"}), ("linear", 3, 2, {})],
    "pod": [("pod", 2, 1, {}), ("linear", 2, 2, {"weights": "dense"})],
    "one": [("linear", 3, 2, {"name": "velocity"})],
    "many": [("linear", 1, 1, {}) for _ in range(11)],
    "names": [("linear", 2, 1, {"name": "a"}), ("linear", 2, 1, {"name": "b"}), ("linear", 2, 1, {"name": "c"})],
}


def multibasis(c, which):
    D = Data(c)
    B = c.op.basis
    specs = MULTI[which]

    def build():
        out = []
        for i, (kind, n, r, kw) in enumerate(specs):
            Di = D.get(f"sub{i}", lambda: Data(c, f"b{i}"))
            out.append(objs.build_basis(c, Di, kind, n, r, kw.get("weights"), kw.get("name")))
        return quiet(lambda: B.BasisMulti(out))

    obj = build()
    classes = [type(b) for b in obj.bases]
    r = int(obj.reduced_state_dimension)
    N = int(obj.full_state_dimension)
    cycle(c, D, obj, None, lambda f: B.BasisMulti.load(f, classes), lambda x: objs.basis_obs(c, D, x, N, r))


def emptybasis(c, kind, crit, weights, name):
    """A POD basis that has not been fitted keeps its configuration."""
    D = Data(c)
    B = c.op.basis
    obj = objs.build_basis(c, D, "podempty", 3, 1, weights, name, crit)
    c.opt("assume_close", True)
    obs = lambda x: objs.basis_obs(c, D, x, 3, 1)
    path = c.path("x.h5")
    before = obs(obj)
    try:
        obj.save(path)
    except AttributeError:
        c.ok("an unfitted basis is refused")
        c.true("no file is left", not os.path.exists(path))
        return
    same(c, "the saved basis", before, obs(obj))
    new = quiet(lambda: B.PODBasis.load(path))
    same(c, "the loaded basis", before, obs(new))


def podrefit(c, n, hist, last, crit, weights, solver):
    """The loaded basis fits new data as the saved one does."""
    from checks import c16
    np = c.np
    c.opt("exact_close", True)
    D = Data(c)
    warg = W = None
    if weights:
        warg = c.real("w", (n,), "pos")
        for x in warg:
            c.assume(x >= .1)
        W = np.diag(warg)
        om = np.sqrt(warg)
    datas = [c16.factor(c, nn, k, weights, solver, str(i)) for i, (nn, k) in enumerate(list(hist) + [last])]
    unw = (lambda X: X / om[:, None]) if weights else (lambda X: X)
    full = [(U, Vf, V, s, core, unw(core), unw(U)) for U, Vf, V, s, core in datas]
    c16.register(c, solver, full, W)
    B = quiet(lambda: c.op.basis.PODBasis(svdsolver=solver, weights=None if warg is None else warg.copy(), name="pod", **dict(crit)))
    for d in full[:-1]:
        quiet(lambda: B.fit(d[5].copy()))
    path = c.path("x.h5")
    quiet(lambda: B.save(path))
    new = quiet(lambda: c.op.basis.PODBasis.load(path))
    obs = lambda x: objs.basis_obs(c, D, x, last[0], int(x.reduced_state_dimension))
    for x in (B, new):
        quiet(lambda: x.fit(full[-1][5].copy()))
    same(c, "fitted again", obs(B), obs(new))


# -- solvers ---------------------------------------------------------------------------
def solver(c, which, d, r, fitted, opts):
    D = Data(c)
    obj = objs.build_solver(c, D, which, d, r, fitted, opts=opts)
    cls = type(obj)
    L = c.op.lstsq
    solve = which in ("tsvdnone",)[:0] or not which.startswith("total")
    cycle(c, D, obj, None, cls.load, lambda x: objs.solver_obs(c, D, x, which, d, r, solve=True), eq=False)
    if which.startswith("tsvd") and fitted:  # the requested number of modes matters again for larger data
        obj.save(c.path("w.h5"))
        new = cls.load(c.path("w.h5"))
        A, Z = objs.solver_data(c, D, which, 4, 3, r, "next")
        for S in (obj, new):
            quiet(lambda: S.fit(A.copy(), Z.copy()))
        same(c, "the loaded solver after another fit", *[objs.solver_obs(c, D, S, which, 3, r) for S in (obj, new)])


# -- files and sparse groups ----------------------------------------------------------------
def sparse(c, fmt, n, m):
    """save_sparray() and load_sparray() are inverse."""
    D = Data(c)
    sp = objs.sp(c)
    E = D.real("E", (n, m))
    A = getattr(sp, f"{fmt}_array")(E)
    path = c.path("x.h5")
    with c.op.utils.hdf5_savehandle(path, False) as hf:
        c.op.utils.save_sparray(hf.create_group("A"), A)
    with c.op.utils.hdf5_loadhandle(path) as hf:
        B = c.op.utils.load_sparray(hf["A"])
    c.eq("entries", objs.dense(B), E)
    c.eq("saved entries", objs.dense(A), E)
    c.true("format", B.format == A.format, f"{B.format} / {A.format}")
    c.true("kind", type(B).__name__ == type(A).__name__)
    c.raises("dense arrays are refused", (TypeError,), lambda: c.op.utils.save_sparray(None, E))
    c.raises("missing files", (FileNotFoundError,), lambda: c.op.utils.hdf5_loadhandle(c.path("nothere.h5")))
    c.raises("existing files", (FileExistsError,), lambda: c.op.utils.hdf5_savehandle(path, False))


KINDS = ("Constant", "Linear", "Quadratic", "Cubic", "Input", "StateInput", "Quartic", "Poly0", "Poly1", "Poly2", "Poly3")
FORMATS = ("csr", "csc", "coo", "bsr", "lil", "dok", "dia")


def cases(tier):
    big = tier == "thorough"
    for kind in KINDS:
        for r, m in ((1, 1), (2, 2)) if not big else ((1, 1), (2, 2), (2, 1), (3, 2)):
            if kind in ("Cubic", "Quartic", "Poly3") and r > 2:
                continue
            for layout in ("dense", None):
                yield f"operator:{kind}:{layout}:r{r}m{m}", op, dict(kind=kind, r=r, m=m, layout=layout, layout2="dense")
        if kind not in ("Constant", "Poly0"):
            for fmt in FORMATS if kind in ("Linear", "Poly2") or big else ("csr", "coo"):
                yield f"operator:{kind}:{fmt}", op, dict(kind=kind, r=2, m=1, layout=fmt, layout2="dense" if fmt != "csr" else None)
            yield f"operator:{kind}:dense-then-sparse", op, dict(kind=kind, r=2, m=1, layout="dense", layout2="csc")
    for kind in KINDS[:6]:
        for nt, layout, p in itertools.product((1, 2, 3), ("dense", None, "csr", "mixed", "mixed2"), (None, 1, 2, "int", "call")):
            if kind == "Constant" and layout not in ("dense", None) or layout in ("mixed", "mixed2") and nt == 1:
                continue
            if p == "call" and (nt == 2 or layout not in ("dense", None)):
                continue
            if not big and (kind not in ("Linear", "Constant") and (nt == 3 or p == 1) or nt == 3 and p is None):
                continue
            if p == "int" and layout is None and nt == 3:
                continue
            yield f"affine:{kind}:{nt}:{layout}:p{p}", affine, dict(kind=kind, r=2, m=1, nt=nt, layout=layout, p=p)
        for layout in ("dense", "csr") if kind == "Linear" else ("dense",):
            yield f"affine:{kind}:12:{layout}:pint", affine, dict(kind=kind, r=1, m=1, nt=12, layout=layout, p="int")
        for pts, ic, s in (("1", None, 3), ("1", None, 4), ("1", "pchip", 3), ("1", "cubic", 4), ("1", "akima", 3), ("2", None, 3), ("2", "linear", 4), ("2", "nearest", 3), ("col", None, 3)):
            for layout in ("dense", None):
                yield f"interpolated:{kind}:{pts}:{ic}:{s}:{layout}", interp, dict(kind=kind, r=2 if kind != "Cubic" else 1, m=1, pts=pts, layout=layout, ic=ic, s=s)
        yield f"interpolated:{kind}:empty", interp, dict(kind=kind, r=2, m=1, pts=None, layout=None, ic=None, s=3)
        yield f"interpolated:{kind}:empty-pchip", interp, dict(kind=kind, r=2, m=1, pts=None, layout=None, ic="pchip", s=3)
    OPS = {"A": [("Linear", None)], "cA": [("Constant", None), ("Linear", None)], "A!": [("Linear", "dense")], "A!H": [("Linear", "dense"), ("Quadratic", None)], "AB": [("Linear", None), ("Input", None)],
           "A!B": [("Linear", "dense"), ("Input", None)], "c!AN": [("Constant", "dense"), ("Linear", None), ("StateInput", None)], "HB!": [("Quadratic", None), ("Input", "dense")],
           "As!": [("Linear", "csr")], "P2!P0": [("Poly2", "dense"), ("Poly0", None)], "P1P2s": [("Poly1", None), ("Poly2", "csc")], "G": [("Cubic", None)]}
    for cls in ("ContinuousModel", "DiscreteModel"):
        for o, ops in OPS.items():
            hasin = any(k in ("Input", "StateInput") for k, _ in ops)
            full = all(lay for _, lay in ops)
            for fit in (False, True):
                if full and fit:
                    continue
                for solver_ in (None, "l2", "tik", "plain", "tsvd") if not full and o in ("A", "cA", "A!H", "AB") or big and not full else (None,):
                    r = 2 if solver_ is None else 1
                    yield f"{cls}:{o}:{'fit' if fit else 'new'}:{solver_}", model, dict(cls=cls, ops=ops, r=r, m=1, solver=solver_, fit=fit, sizes=None)
            if o in ("A", "A!H"):
                for solver_ in (None, "tik") if o == "A" else ("tik",):
                    yield f"{cls}:{o}:really-fitted:{solver_}", model, dict(cls=cls, ops=ops, r=1, m=1, solver=solver_, fit="real", sizes=None)
            if not full:
                for r in (1, 2):
                    yield f"{cls}:{o}:r{r}", model, dict(cls=cls, ops=ops, r=r, m=1, solver=None, fit=False, sizes="r")
                if hasin:
                    yield f"{cls}:{o}:m", model, dict(cls=cls, ops=ops, r=2, m=1, solver=None, fit=False, sizes="m")
        for kinds, sizes in ((("Linear",), "r"), (("Linear", "Input"), "r"), (("Linear", "Input"), "m"), (("Linear", "Input"), "rm"), (("StateInput",), "m")):
            for r in (1, 2):
                yield f"Interp{cls}:{''.join(k[0] for k in kinds)}:{sizes}:{r}", pmodel, dict(cls=cls, kinds=kinds, r=r, m=1, ic=None, known=(), pts="1", solver=None, mic=None, sizes=sizes)
        for kinds in (("Linear",), ("Constant", "Linear"), ("Linear", "Input"), ("Quadratic",)):
            for known in ((), (0,), None) if len(kinds) > 1 else ((), None):
                for pts, ic in (("1", None), ("2", None), ("1", "pchip")):
                    for sv, mic in ((None, None), ("l2", None), (None, "pchip" if pts == "1" else "nearest")):
                        if not big and sv is not None and (ic is not None or pts == "2"):
                            continue
                        if ic is not None and mic is not None:
                            continue
                        yield f"Interp{cls}:{''.join(k[0] for k in kinds)}:{known}:{pts}:{ic}:{sv}:{mic}", pmodel, dict(cls=cls, kinds=kinds, r=1, m=1, ic=ic, known=known, pts=pts, solver=sv, mic=mic)
    SS = list(ss_all())
    singles = [("null",), ("shift",), ("scale",), ("scalev",)] + SS
    for spec in singles:
        for n in (1, 2, 3) if spec[0] != "ss" else ((2,) if not big else (2, 3)):
            for fit in (True, False):
                for names in (False, True):
                    yield f"transformer:{tftag(spec)}:n{n}:{'fit' if fit else 'new'}:{'named' if names else ''}", tf, dict(spec=spec, n=n, fit=fit, names=names)
    a, b, d = ("ss", True, "maxabs", False), ("ss", True, None, True), ("ss", False, "minmax", False)
    comps = [("multi", (a, d), None), ("multi", (("shift",), ("scale",)), None), ("multi", (("null",), b), None), ("multi", (("shift",), ("scalev",)), (1, 3)), ("multi", (a, ("null",), d), None),
             ("pipe", (("shift",), ("scale",))), ("pipe", (a, d)), ("pipe", (b, ("scalev",))), ("pipe", (("null",),)), ("pipe", (("shift",), a, ("scale",))),
             ("pipe", (("shift",), ("pipe", (a, ("scale",))))), ("multi", (("pipe", (a, ("scale",))), ("shift",)), None), ("pipe", (("multi", (a, ("shift",)), None), ("scale",)))]
    many = (("shift",), ("scale",)) + (("null",),) * 8 + (("scale",), ("shift",))
    comps += [("multi", many, (1,) * 12), ("pipe", many)]
    for spec in comps:
        n = sum(spec[2]) if spec[0] == "multi" and spec[2] else (2 * len(spec[1]) if spec[0] == "multi" else 2)
        if tftag(spec).count("multi") and spec[0] == "pipe":
            n = 4
        for fit in (True, False):
            for names in (False, True):
                yield f"transformer:{tftag(spec)}:n{n}:{'fit' if fit else 'new'}:{'named' if names else ''}", tf, dict(spec=spec, n=n, fit=fit, names=names)
    for kind in ("linear", "pod", "podr"):
        for weights in (None, "diag", "dense", "dia", "csr"):
            for n, r in ((2, 1), (3, 2)):
                for name in (None, "velocity"):
                    if not big and (name is not None) == (n == 2):
                        continue
                    if kind != "linear" and weights == "dense":
                        if n == 3:
                            continue
                        yield f"basis:{kind}:square:{name}", basis, dict(kind=kind, n=2, r=r, weights="square", name=name, crit=None, full=None)
                        continue
                    yield f"basis:{kind}:{weights}:n{n}r{r}:{name}", basis, dict(kind=kind, n=n, r=r, weights=weights, name=name, crit=None, full=None)
    for kind in ("pod", "podr"):
        for crit in ((("num_vectors", 1),), (("num_vectors", 2), ("max_vectors", 2)), (("projection_error", 1e-6),)):
            yield f"basis:{kind}:{crit}", basis, dict(kind=kind, n=3, r=2, weights=None, name=None, crit=crit, full=3)
    for kind in ("pod", "podr"):
        for r, new in ((2, 1), (1, 2), (1, 3), (3, 1)):
            yield f"basis:{kind}:{r}-then-{new}", basis, dict(kind=kind, n=3, r=r, weights=None if kind == "pod" else "diag", name=None, crit=(("num_vectors", r),), full=3, extra=new)
    for crit in ((("num_vectors", 2),), (("cumulative_energy", .9),), (("residual_energy", .1), ("max_vectors", 3)), (("num_vectors", 1), ("svdsolver", "eigh"))):
        for weights in (None, "diag"):
            yield f"basis:unfitted:{crit}:{weights}", emptybasis, dict(kind="podempty", crit=crit, weights=weights, name=None)
    for sv in ("dense", "eigh"):
        for crit in ((("num_vectors", 1),), (("num_vectors", 1), ("max_vectors", 2)), (("num_vectors", 2), ("max_vectors", 1))):
            for hist in ((), ((3, 2),)):
                for w in (False, True) if sv == "dense" or big else (False,):
                    yield f"basis:refit:{sv}:{crit}:{len(hist)}:{w}", podrefit, dict(n=3, hist=hist, last=(3, 3), crit=crit, weights=w, solver=sv)
    for which in MULTI:
        yield f"basis:multi:{which}", multibasis, dict(which=which)
    SOLV = {"plain": [(), (("lapack_driver", "gelsy"),), (("cond", 1e-9),), (("cond", None),), (("cond", 0.0),)], "l2": [(), (("lapack_driver", "gesvd"),)], "l2none": [()], "l2d": [()], "l2dnone": [()], "tik": [(), (("method", "lstsq"),), (("cond", .5),)], "tikdiag": [()], "tiknone": [()],
            "tiksparse": [()], "tikd": [()], "tikddiag": [()], "tikdnone": [()], "tsvd": [(), (("lapack_driver", "gesvd"),)], "tsvdnone": [()], "tsvdneg": [()], "tsvdzero": [()], "tsvd3": [()], "total": [()]}
    for which, OPT in SOLV.items():
        for o in OPT:
            for fitted in (True, False):
                if which == "tsvdneg" and fitted:
                    yield f"solver:tsvdneg:fit:d2r1", solver, dict(which=which, d=2, r=1, fitted=True, opts=o)
                    continue
                for d, r in ((2, 1), (1, 2)) if which != "total" else ((1, 1),):
                    if fitted and (o and which == "plain" or dict(o).get("method") == "lstsq"):
                        if d == 2:
                            continue
                    yield f"solver:{which}:{o}:{'fit' if fitted else 'new'}:d{d}r{r}", solver, dict(which=which, d=d, r=r, fitted=fitted, opts=o)
    for fmt in FORMATS:
        for n, m in ((2, 2), (1, 3), (3, 2)):
            yield f"sparse:{fmt}:{n}x{m}", sparse, dict(fmt=fmt, n=n, m=m)
