"""C19: the reduced-order-model pipeline composes its stages faithfully."""

import warnings

from checks.c01 import has_input
from checks.c02 import build_ops, param_op
from checks.c05 import Spy
from checks.c07 import IVP
from checks.c15 import space
from checks.preutil import make, admit, LOCS, loc, blocks

BOUNDS = ("native dimension n<=4, r<=2, one to three trajectories of 2-4 snapshots of equal and unequal lengths, m<=2 inputs; every subset of the stages lifter (quadratic, "
          "polynomial, chained to shift/scale/shift-scale/multi/pipeline transformers), basis (linear, data-fitted, POD through its SVD, multi), continuous and discrete, "
          "parametric and nonparametric models, given and estimated left-hand sides; up to 3 predicted steps; all real data, inputs, model entries and candidate solutions")
OUTSIDE = ("larger arrays; the integrator (recorded stand-in for solve_ivp); the stages themselves (C11-C18) and the regression itself (C05, C06); "
           "user-defined stages other than the two used as probes; floating-point rounding")


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


class Stages:
    """Two identical sets of stages: one for the ROM, one applied by hand."""

    def __init__(self, c, lift, tf, basis, n, r, prefit=False):
        self.c = c
        self.N = N = n * {None: 1, "quad": 2, "poly": 2}[lift]
        L = c.op.lift
        self.mk_lift = {None: lambda: None, "quad": lambda: L.QuadraticLifter(), "poly": lambda: L.PolynomialLifter((2, 1))}[lift]
        self.tspec, self.bkind, self.r, self.lift = tf, basis, r, lift
        self.L1, self.L2 = self.mk_lift(), self.mk_lift()
        self.T1 = self.T2 = self.B1 = self.B2 = None
        if tf is not None:
            self.m1 = make(c, tf, N, "T")
            self.m2 = make(c, tf, N, "T", data=self.m1)
            self.T1, self.T2 = self.m1.obj, self.m2.obj
        if basis == "linear":
            V, _, _ = space(c, N, r, None)
            self.B1, self.B2 = (quiet(lambda: c.op.basis.LinearBasis(V)) for _ in range(2))
        elif basis == "weighted":
            V, w, _ = space(c, N, r, "diag")
            self.B1, self.B2 = (quiet(lambda: c.op.basis.LinearBasis(V, weights=w)) for _ in range(2))
        elif basis == "multi":
            h = N // 2
            Vs = [space(c, h, r // 2, None, f"V{i}")[0] for i in range(2)]
            self.B1, self.B2 = (quiet(lambda: c.op.basis.BasisMulti([c.op.basis.LinearBasis(V) for V in Vs])) for _ in range(2))
        elif basis == "fit":
            self.B1, self.B2 = probe_basis(c, r), probe_basis(c, r)

    def kw(self):
        return dict(lifter=self.L1, transformer=self.T1, basis=self.B1)

    # the pipeline by hand, on the second set
    def up(self, Q):
        return Q if self.L2 is None else self.L2.lift(Q)

    def fit2(self, states, tf=True, basis=True):
        np = self.c.np
        X = [self.up(Q) for Q in states]
        if self.T2 is not None:
            if tf:
                admit(self.c, self.m2, np.hstack(X))
                self.T2.fit(np.hstack(X))
            X = [self.T2.transform(x, inplace=False) for x in X]
        if self.B2 is not None and basis:
            self.B2.fit(np.hstack(X))

    def enc(self, q):
        x = self.up(q)
        if self.T2 is not None:
            x = self.T2.transform(x, inplace=False)
        return x if self.B2 is None else self.B2.compress(x)

    def dec(self, z):
        x = z if self.B2 is None else self.B2.decompress(z)
        if self.T2 is not None:
            x = self.T2.inverse_transform(x, inplace=False)
        return x if self.L2 is None else self.L2.unlift(x)

    def enc_ddt(self, q, dq):
        x = dq if self.L2 is None else self.L2.lift_ddts(q, dq)
        if self.T2 is not None:
            x = self.T2.transform_ddts(x, inplace=False)
        return x if self.B2 is None else self.B2.compress(x)


def probe_basis(c, r):
    """A basis whose vectors depend on the data it is fitted to."""
    np = c.np

    class Probe(c.op.basis.BasisTemplate):
        def fit(self, states):
            self.full_state_dimension, self.reduced_state_dimension = states.shape[0], r
            k = states.shape[1]
            self.w = sum((j + 1) * states[:r, j] for j in range(k)) + k
            return self

        def compress(self, states):
            return (states[:r].T * self.w).T

        def decompress(self, states_compressed, locs=None):
            z = (states_compressed.T + self.w).T
            pad = np.zeros((self.full_state_dimension - r,) + z.shape[1:])
            out = np.concatenate([z, pad])
            return out if locs is None else out[locs]

    return Probe()


def trajs(c, n, ks, name="Q"):
    return [c.real(f"{name}{i}", (n, k)) for i, k in enumerate(ks)]


def bare_model(c, cls, r, m=0):
    ops = build_ops(c, ["Linear"] + (["Input"] if m else []), r, m)
    return getattr(c.op.models, cls)(ops)


def encode(c, lift, tf, basis, n, r, cls, ks=(3,)):
    s = Stages(c, lift, tf, basis, n, r)
    rom = quiet(lambda: c.op.ROM(bare_model(c, cls, r), **s.kw()))
    Q, = trajs(c, n, ks)
    D = c.real("D", (n, ks[0]))
    s.fit2([Q])
    keep, keepD = Q.copy(), D.copy()
    got = rom.encode(Q, fit_transformer=True, fit_basis=True)
    c.eq("encode and fit", got, s.enc(Q))
    c.eq("caller's states", Q, keep)
    # new data with the fitted stages, together with a left-hand side
    X = c.real("X", (n, 2))
    Y = c.real("Y", (n, 2))
    kx, ky = X.copy(), Y.copy()
    a, b = rom.encode(X, Y)
    c.eq("encode new states", a, s.enc(X))
    c.eq("encode lhs", b, s.enc_ddt(X, Y) if cls == "ContinuousModel" else s.enc(Y))
    c.eq("states without lhs", rom.encode(X), a)
    c.eq("one state", rom.encode(X[:, 0]), a[:, 0])
    a1, b1 = rom.encode(X[:, 1], Y[:, 1])
    c.eq("one state with lhs", a1, a[:, 1])
    c.eq("one lhs", b1, b[:, 1])
    c.eq("caller's X", X, kx)
    c.eq("caller's Y", Y, ky)
    a2, b2 = rom.encode(X.copy(), Y.copy(), inplace=True)
    c.eq("in place", a2, a)
    c.eq("in place lhs", b2, b)
    # fit again in place together with lhs
    Q2, D2 = Q.copy(), D.copy()
    a3, b3 = rom.encode(Q2, D2, inplace=True, fit_transformer=True, fit_basis=True)
    c.eq("fit in place", a3, s.enc(Q))
    c.eq("fit in place lhs", b3, s.enc_ddt(Q, D) if cls == "ContinuousModel" else s.enc(D))
    c.eq("caller's D", D, keepD)
    if s.T1 is not None and s.L1 is None:
        # "modify the states and lhs in-place in the preprocessing"
        X2, Y2 = X.copy(), Y.copy()
        rom.encode(X2, Y2, inplace=True)
        tx = s.T2.transform(X, inplace=False)
        ty = s.T2.transform_ddts(Y, inplace=False) if cls == "ContinuousModel" else s.T2.transform(Y, inplace=False)
        c.eq("in-place states", X2, tx)
        c.eq("in-place lhs", Y2, ty)
        c.eq("in-place fitted states", Q2, s.T2.transform(Q, inplace=False))


def decode(c, lift, tf, basis, n, r, cls="DiscreteModel"):
    s = Stages(c, lift, tf, basis, n, r)
    rom = quiet(lambda: c.op.ROM(bare_model(c, cls, r), **s.kw()))
    Q, = trajs(c, n, (2,))
    s.fit2([Q])
    rom.encode(Q, fit_transformer=True, fit_basis=True)
    R = r if s.B1 is not None else s.N
    z = c.real("z", (R, 2))
    kz = z.copy()
    got = rom.decode(z)
    c.eq("decode", got, s.dec(z))
    c.eq("caller's reduced states", z, kz)
    c.eq("one reduced state", rom.decode(z[:, 1]), got[:, 1])
    if lift is None and basis != "fit":
        c.eq("encode(decode(z))", rom.encode(got), z)
        c.eq("encode(decode(z)) one state", rom.encode(rom.decode(z[:, 0])), z[:, 0])
    multi = basis == "multi"
    nv = 1 if lift else 2
    if multi and s.tspec is not None and s.tspec[0] != "multi":
        return
    if basis is not None and lift is None and not multi and s.tspec is not None and "multi" in str(s.tspec):
        return
    size = n // nv if multi else n
    for l in LOCS[size]:
        ix = loc(c, l)
        # per-variable selection for multi-variable bases
        want = c.np.concatenate([got[b][ix] for b in blocks((size,) * (n // size))]) if multi else got[ix]
        c.eq(f"decode at {l}", rom.decode(z, locs=ix), want)
        w1 = c.np.concatenate([got[b, 0][ix] for b in blocks((size,) * (n // size))]) if multi else got[ix, 0]
        c.eq(f"decode one state at {l}", rom.decode(z[:, 0], locs=ix), w1)
    c.eq("caller's reduced states still", z, kz)
    X = c.real("X", (n, 2))
    kx = X.copy()
    c.eq("project", rom.project(X), s.dec(s.enc(X)))
    c.eq("project one", rom.project(X[:, 0]), s.dec(s.enc(X[:, 0])))
    c.eq("caller's X", X, kx)


def estimator(c, kind, k):
    d = c.op.ddt
    if kind == "nonuniform":
        t = c.real("t0", (k,))
        gaps = [c.real(f"h{i}", (), "pos") for i in range(k)]
        acc, ts = c.real("tt"), []
        for g in gaps:
            acc = acc + g + .1
            ts.append(acc)
        t = c.np.array(ts)
        return lambda: d.NonuniformFiniteDifferencer(t)
    dt = .5
    t = c.np.arange(k) * dt
    return lambda: d.UniformFiniteDifferencer(t, kind)


def fit(c, lift, tf, basis, n, r, cls, ks, kinds=("Linear",), m=0, lhs=None, est="fwd1", form="list", fits=(True, True), u1d=False, pod=None, param=None):
    np = c.np
    s = Stages(c, lift, tf, basis, n, r)
    cont = "Continuous" in cls
    Qs = trajs(c, n, ks)
    if pod == "pod":
        register_pod(c, s, n, r, ks)
        Qs = s.Qs
    R = r if s.B1 is not None else s.N
    hasin = any(has_input(x) for x in kinds)
    Us = [c.real(f"U{i}", (k,) if u1d else (m, k)) for i, k in enumerate(ks)] if hasin else None
    Zs = [c.real(f"Z{i}", (n, k)) for i, k in enumerate(ks)] if lhs else None
    mk = estimator(c, est, ks[0]) if cont and not lhs else None
    E1, E2 = (mk(), mk()) if mk else (None, None)
    sp1, sp2 = Spy(c, "O"), Spy(c, "P")
    C = getattr(c.op.models, cls)
    if param:
        O = c.op.operators
        mus = [c.np.array([1.0 + i, 2.0 - i * i]) for i in range(len(ks))]
        pops = lambda: [getattr(O, f"Affine{k}Operator")([lambda mu: mu[0], lambda mu: mu[1] + 2]) if i == 0 else getattr(O, f"{k}Operator")() for i, k in enumerate(kinds)]
        M1, M2 = C(pops(), solver=sp1), C(pops(), solver=sp2)
    else:
        M1, M2 = (C([getattr(c.op.operators, f"{k}Operator")() for k in kinds], solver=sp) for sp in (sp1, sp2))
    ROM = c.op.roms.ParametricROM if param else c.op.ROM
    rom = quiet(lambda: ROM(M1, ddt_estimator=E1, **s.kw()))
    if not fits[0] or not fits[1]:
        P = c.real("P", (n, 2))
        s.fit2([P])
        rom.encode(P, fit_transformer=True, fit_basis=True)
    keep = [[x.copy() for x in X] if X else None for X in (Qs, Zs, Us)]
    wrap = {"list": list, "tuple": tuple, "array": lambda X: X[0], "stack": lambda X: np.array(X)}[form]
    args = [None if X is None else wrap(X) for X in (Qs, Zs, Us)]
    kw = {} if fits == (True, True) else dict(fit_transformer=fits[0], fit_basis=fits[1])
    out = rom.fit(mus, *args, **kw) if param else rom.fit(*args, **kw)
    c.true("fit returns the ROM", out is rom)
    for lab, X, K in zip(("states", "lhs", "inputs"), (Qs, Zs, Us), keep):
        for i, x in enumerate(X or []):
            c.eq(f"caller's {lab} {i}", x, K[i])
    # by hand
    s.fit2(Qs, *fits)
    enc = [s.enc(Q) for Q in Qs]
    ins = Us
    if lhs:
        left = [s.enc_ddt(Q, Z) if cont else s.enc(Z) for Q, Z in zip(Qs, Zs)]
    elif cont:
        outs = [E2.estimate(x) if Us is None else E2.estimate(x, Us[i]) for i, x in enumerate(enc)]
        enc, left = [o[0] for o in outs], [o[1] for o in outs]
        ins = [o[2] for o in outs] if hasin else None
    else:
        left = [x[:, 1:] for x in enc]
        ins = [u[..., :-1] for u in Us] if hasin else None
        enc = [x[:, :-1] for x in enc]
    if param:
        M2.fit(mus, enc, left, ins)
    else:
        M2.fit(np.hstack(enc), np.hstack(left), np.hstack(ins) if hasin else None)
    c.true("one regression", len(sp1.log) == 1)
    if len(sp1.log) != 1:
        return
    c.eq("data matrix", sp1.D, sp2.D)
    c.eq("left-hand side", sp1.Z, sp2.Z)
    c.true("model dimension", M1.state_dimension == R)
    # the stages are left as fitted
    X = c.real("X", (n, 2))
    c.eq("encoding after the fit", rom.encode(X), s.enc(X))


def register_pod(c, s, n, r, ks):
    """Free snapshots whose scaled concatenation has a known SVD."""
    from checks.c16 import factor, register
    np = c.np
    c.opt("exact_close", True)
    k = sum(ks)
    d = factor(c, n, k, None, "dense")
    core = d[-1]
    scl = s.m1.data if s.tspec else 1
    if s.tspec:
        core0 = core / scl
    else:
        core0 = core
    register(c, "dense", [d + (core, d[0])], None)
    out, a = [], 0
    for kk in ks:
        out.append(core0[:, a:a + kk])
        a += kk
    s.Qs = out
    s.B1, s.B2 = (c.op.basis.PODBasis(num_vectors=r) for _ in range(2))


def predict(c, lift, tf, basis, n, r, cls, kinds=("Linear",), m=0, param=None, steps=3, locs=None):
    s = Stages(c, lift, tf, basis, n, r)
    R = r if s.B1 is not None else s.N
    cont = "Continuous" in cls
    hasin = any(has_input(x) for x in kinds)
    if param:
        ops = [param_op(c, k, param, R, m, 2, str(i)) if i == 0 else build_ops(c, [k], R, m, f"p{i}")[0] for i, k in enumerate(kinds)]
        mu = c.real("mu", (2,)) if param == "affine" else c.real("mu")
        pre = (mu,)
    else:
        ops, pre = build_ops(c, list(kinds), R, m), ()
    M = getattr(c.op.models, cls)(ops)
    rom = quiet(lambda: (c.op.roms.ParametricROM if param else c.op.ROM)(M, **s.kw()))
    Q, = trajs(c, n, (2,))
    s.fit2([Q])
    rom.encode(Q, fit_transformer=True, fit_basis=True)
    q0 = c.real("q0", (n,))
    k0 = q0.copy()
    z0 = s.enc(q0)
    if cont:
        y = c.real("y", (R, 2))
        ivp = IVP(y)
        c.replace("integrate.solve_ivp", ivp)
        t = c.np.array([0.0, .5])
        u = c.real("u", (m,)) if hasin else None
        w = c.real("w", (m,)) if hasin else None
        fu = (lambda tt: u + tt * w) if hasin else None
        got = rom.predict(*pre, q0, t, fu) if hasin else rom.predict(*pre, q0, t)
        c.true("one simulation", len(ivp.calls) == 1)
        c.eq("initial condition", ivp.y0, z0)
        c.eq("decoded solution", got, s.dec(y))
        q, tt = c.real("qq", (R,)), c.real("tau")
        want = M.rhs(tt, *pre, q, fu) if hasin else M.rhs(tt, *pre, q)
        c.eq("right-hand side", ivp.f(tt, q), want)
    else:
        U = c.real("U", (m, steps - 1)) if hasin else None
        got = rom.predict(*pre, q0, steps, U) if hasin else rom.predict(*pre, q0, steps)
        zs = [z0]
        for j in range(steps - 1):
            zs.append(M.rhs(*pre, zs[-1], U[:, j]) if hasin else M.rhs(*pre, zs[-1]))
        c.eq("prediction", got, s.dec(c.np.column_stack(zs)))
    c.eq("caller's initial condition", q0, k0)


def required(c, cls, m):
    kinds = ["Linear"] + (["Input"] if m else [])
    sp = Spy(c)
    M = getattr(c.op.models, cls)([getattr(c.op.operators, f"{k}Operator")() for k in kinds], solver=sp)
    rom = c.op.ROM(M)
    Q, U = c.real("Q", (2, 3)), c.real("U", (1, 3))
    if "Continuous" in cls:
        c.raises("derivatives or an estimator are needed", (ValueError,), lambda: rom.fit(Q, inputs=U if m else None))
    if m:
        c.raises("inputs are needed", (ValueError,), lambda: rom.fit(Q, lhs=Q))
    rom.fit(Q, lhs=Q, inputs=U if m else None)
    c.true("one regression", len(sp.log) == 1)


TF = {"none": None, "shift": ("shift",), "scale": ("scale",), "cen": ("ss", True, None, False), "row": ("ss", True, "maxabs", True),
      "mm": ("ss", False, "minmax", False), "multi": ("multi", (("shift",), ("ss", True, None, False)), None),
      "pipe": ("pipe", (("ss", True, None, False), ("scale",)))}


def cases(tier):
    th = tier == "thorough"
    lifts = (None, "quad", "poly")
    both = ("ContinuousModel", "DiscreteModel")
    for li in lifts:
        for ti, tf in TF.items():
            for b in (None, "linear", "weighted", "multi", "fit"):
                if not th and b == "weighted" and (li or ti not in ("none", "cen")):
                    continue
                if ti in ("row", "mm") and (li == "poly" or b in ("multi", "weighted")) and not th:
                    continue
                n = 2
                N = n * (2 if li else 1)
                r = 2 if b == "multi" else 1
                nm = f"{li}-{ti}-{b}"
                for cls in both:
                    yield f"enc-{nm}-{cls[0]}", encode, dict(lift=li, tf=tf, basis=b, n=n, r=r if b else N, cls=cls, ks=(2,) if ti in ("row", "mm") else (3,))
                if ti in ("row", "mm") and li:
                    continue
                yield f"dec-{nm}", decode, dict(lift=li, tf=tf, basis=b, n=n, r=r if b else N)
                yield f"predD-{nm}", predict, dict(lift=li, tf=tf, basis=b, n=n, r=r if b else N, cls="DiscreteModel", steps=3 if b else 2)
                yield f"predC-{nm}", predict, dict(lift=li, tf=tf, basis=b, n=n, r=r if b else N, cls="ContinuousModel")
    for ti in ("none", "cen", "scale"):
        yield f"dec4-{ti}-multi", decode, dict(lift=None, tf=TF["multi"] if ti == "cen" else None, basis="multi", n=4, r=2)
        yield f"dec3-{ti}-linear", decode, dict(lift=None, tf=TF[ti], basis="linear", n=3, r=2)
    yield "dec4-quad-multi", decode, dict(lift="quad", tf=TF["multi"], basis="multi", n=4, r=2)
    for cls in both:
        cl = cls[0]
        for li, ti, b in ((None, "none", None), (None, "cen", None), (None, "none", "linear"), (None, "none", "fit"), (None, "cen", "fit"), ("quad", "none", None),
                          ("quad", "cen", "fit"), ("poly", "pipe", "fit"), ("quad", "multi", "multi"), (None, "pipe", "linear"), (None, "mm", "fit"),
                          ("quad", "shift", "linear"), (None, "shift", None), (None, "row", None)):
            n = 2
            r = (2 if b == "multi" else 1) if b else n * (2 if li else 1)
            base = dict(lift=li, tf=TF[ti], basis=b, n=n, r=r, cls=cls)
            nm = f"{cl}-{li}-{ti}-{b}"
            small = ti in ("mm", "row")
            kk = (2, 2) if small else (3, 2)
            yield f"fit-{nm}-lhs", fit, dict(base, ks=kk, lhs=True)
            yield f"fit-{nm}-est", fit, dict(base, ks=(2, 2) if small else (3, 3), est="fwd1")
            if small and not th:
                continue
            yield f"fit-{nm}-lhs-in", fit, dict(base, ks=(3, 2), lhs=True, kinds=("Linear", "Input"), m=2)
            yield f"fit-{nm}-est-in", fit, dict(base, ks=(3, 3), kinds=("Linear", "Input"), m=2, est="bwd1")
            yield f"fit-{nm}-est-u1", fit, dict(base, ks=(3, 3), kinds=("Linear", "Input"), m=1, u1d=True, est="ord2")
            yield f"fit-{nm}-single", fit, dict(base, ks=(3,), form="array", kinds=("Linear", "Input"), m=1)
            yield f"fit-{nm}-single-lhs", fit, dict(base, ks=(3,), form="array", lhs=True, kinds=("Linear", "Input"), m=1, u1d=True)
            if ti != "none":
                yield f"fit-{nm}-noT", fit, dict(base, ks=(3, 2), lhs=True, fits=(False, True))
            if b == "fit":
                yield f"fit-{nm}-noB", fit, dict(base, ks=(3, 2), lhs=True, fits=(True, False))
                yield f"fit-{nm}-noTB", fit, dict(base, ks=(3, 3), fits=(False, False))
            yield f"fit-{nm}-tuple", fit, dict(base, ks=(3, 3), form="tuple")
            yield f"fit-{nm}-stack", fit, dict(base, ks=(3, 3), form="stack", lhs=True, kinds=("Linear", "Input"), m=1)
            pc = "Parametric" + cls
            yield f"pfit-{nm}-lhs", fit, dict(base, cls=pc, ks=(3, 2), lhs=True, param=True)
            yield f"pfit-{nm}-est-in", fit, dict(base, cls=pc, ks=(3, 3), kinds=("Linear", "Input"), m=1, param=True)
            if cl == "C":
                yield f"fit-{nm}-nonuni", fit, dict(base, ks=(3, 3), est="nonuniform", kinds=("Linear", "Input"), m=1)
        yield f"fit-{cl}-quadratic", fit, dict(lift=None, tf=TF["cen"], basis="fit", n=3, r=2, cls=cls, ks=(3, 3), kinds=("Constant", "Quadratic", "Input"), m=1)
        yield f"fit-{cl}-three", fit, dict(lift=None, tf=TF["cen"], basis="linear", n=3, r=2, cls=cls, ks=(2, 3, 2), kinds=("Linear", "StateInput"), m=1, lhs=True)
        for ti in ("none", "scale"):
            yield f"pod-{cl}-{ti}", fit, dict(lift=None, tf=TF[ti], basis=None, n=2, r=1, cls=cls, ks=(2, 2), pod="pod", lhs=True)
        for fam in ("affine", "interp"):
            yield f"ppred-{cl}-{fam}", predict, dict(lift=None, tf=TF["cen"], basis="linear", n=2, r=1, cls="Parametric" + cls, param=fam)
            yield f"ppred-{cl}-{fam}-in", predict, dict(lift="quad", tf=TF["shift"], basis="fit", n=2, r=2, cls="Parametric" + cls, param=fam, kinds=("Linear", "Input"), m=1)
        yield f"pred-{cl}-in", predict, dict(lift=None, tf=TF["cen"], basis="linear", n=3, r=2, cls=cls, kinds=("Linear", "Input"), m=2)
        yield f"pred-{cl}-quadratic", predict, dict(lift="quad", tf=TF["shift"], basis="fit", n=2, r=1, cls=cls, kinds=("Constant", "Quadratic", "StateInput"), m=1)
        for m in (0, 1):
            yield f"required-{cl}-{m}", required, dict(cls=cls, m=m)
