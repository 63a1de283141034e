"""Planted bugs: (id, property, file, old, new, needs, what it breaks, demo).  `tools/mkseed.py ID...` turns
them into /verif/seeded/<id>/ and confirms them in a scratch copy."""
S = []


def seed(id, prop, file, old, new, needs, breaks, demo):
    S.append(dict(id=id, prop=prop, edits=[(file, old, new)] if isinstance(file, str) else file, needs=needs, breaks=breaks, demo=demo))


seed("c02-stale-jacobian", "C02", "operators/_nonparametric.py",
"""        # Precompute compressed Kronecker product mask and Jacobian matrix.
        self._mask = self.ckron_indices(r)
        self._prejac = None
""",
"""        # Precompute compressed Kronecker product mask and Jacobian matrix.
        self._mask = self.ckron_indices(r)
""",
"a quadratic operator whose Jacobian was evaluated and whose entries are then set again", "the cached Jacobian tensor of the old entries is used for the new ones",
"""
H1, H2 = rng.random((3, 6)), rng.random((3, 6))
op = opinf.operators.QuadraticOperator(H1)
q = rng.random(3)
op.jacobian(q)
op.set_entries(H2)
J = op.jacobian(q)
fd = np.column_stack([(op.apply(q + 1e-5 * e) - op.apply(q - 1e-5 * e)) / 2e-5 for e in np.eye(3)])
assert np.allclose(J, fd, atol=1e-6), (J, fd)
""")

seed("c09-regresidual-transpose", "C09", "lstsq/_tikhonov.py",
"return residual + np.sum((self.regularizer @ Ohat.T) ** 2, axis=0)",
"return residual + np.sum((Ohat @ self.regularizer) ** 2, axis=-1)",
"a Tikhonov regulariser that is not symmetric", "the regularised residual uses the transposed regulariser",
"""
D, Z, G = rng.random((10, 3)), rng.random((2, 10)), rng.random((3, 3))
s = opinf.lstsq.TikhonovSolver(G).fit(D, Z)
O = s.solve()
want = np.sum((D @ O.T - Z.T) ** 2, axis=0) + np.sum((G @ O.T) ** 2, axis=0)
assert np.allclose(s.regresidual(O), want)
""")

seed("c10-tsvd-setter", "C10", "lstsq/_tsvd.py",
"""            if nmodes <= 0:
                nmodes = d + nmodes
""",
"""            if nmodes <= 0:
                nmodes = self.d + nmodes
""",
"an underdetermined problem (fewer snapshots than columns) and num_svdmodes set to a non-positive number after fit()", "the number of modes is counted from the number of columns instead of the number of available modes",
"""
D, Z = rng.random((4, 6)), rng.random((2, 4))
s = opinf.lstsq.TruncatedSVDSolver(4).fit(D, Z)
s.num_svdmodes = -1
assert s.num_svdmodes == 3
""")

seed("c13-maxabssym-offset", "C13", "pre/_shiftscale.py",
"""                mu = np.mean(Y, axis=axis)
                Y -= mu if axis is None else mu.reshape((-1, 1))
                self.scale_ = 1 / np.max(np.abs(Y), axis=axis)
                self.shift_ = -mu * self.scale_
                Y += mu if axis is None else mu.reshape((-1, 1))
""",
"""                mu = np.mean(Y, axis=axis)
                Y -= np.mean(Y, axis=1).reshape((-1, 1))
                self.scale_ = 1 / np.max(np.abs(Y), axis=axis)
                self.shift_ = -mu * self.scale_
                Y += mu if axis is None else mu.reshape((-1, 1))
""",
"maxabssym scaling of uncentered data, not by row, whose rows have different means", "the entries are centred row by row before the maximum is taken, so the scaling does not map the data onto [-1, 1], and the data are not restored",
"""
Q = rng.random((4, 6)) + np.array([[0.0], [5.0], [-3.0], [1.0]])
T = opinf.pre.ShiftScaleTransformer(scaling="maxabssym")
Y = T.fit_transform(Q)
assert np.isclose(np.abs(Y).max(), 1.0) and np.isclose(Y.mean(), 0.0)
assert np.allclose(T.inverse_transform(Y), Q)
""")

seed("c12-ddts-1d-byrow", "C12", "pre/_shiftscale.py",
"""            _flip = self.byrow and Z.ndim > 1
            Z *= self.scale_.reshape((-1, 1)) if _flip else self.scale_
""",
"""            _flip = self.byrow and Z.ndim > 1
            if self.byrow and not _flip:
                return Z
            Z *= self.scale_.reshape((-1, 1)) if _flip else self.scale_
""",
"derivatives of a single snapshot (one-dimensional) with row-wise scaling", "the derivative of a single snapshot is not scaled",
"""
Q = rng.random((4, 6))
T = opinf.pre.ShiftScaleTransformer(scaling="minmax", byrow=True).fit(Q)
d = rng.random(4)
assert np.allclose(T.transform_ddts(d), T.transform_ddts(d.reshape((-1, 1)))[:, 0])
""")

seed("c16-cumulative-tie", "C16", "basis/_pod.py",
"""        if self.svdvals is None:
            self._set_dimension_selection_criterion(num_vectors=r)
            BasisTemplate.reduced_state_dimension.fset(self, r)
            return
""",
"""        if self.svdvals is None:
            BasisTemplate.reduced_state_dimension.fset(self, r)
            return
""",
"reduced_state_dimension assigned before fit()", "the basis fitted afterwards keeps the number of vectors of the old criterion",
"""
Q = rng.random((8, 6))
B = opinf.basis.PODBasis(num_vectors=4)
B.reduced_state_dimension = 2
B.fit(Q)
assert B.entries.shape == (8, 2) and B.reduced_state_dimension == 2
""")

seed("c07-input-samples", "C07", "models/mono/_nonparametric.py",
"""                input_func = spinterpolate.CubicSpline(t, U, axis=1)
""",
"""                input_func = spinterpolate.CubicSpline(
                    np.linspace(t[0], t[-1], nt), U, axis=1
                )
""",
"inputs given as samples on a time grid that is not uniform", "the samples are attached to the wrong time instants",
"""
import types
t = np.array([0.0, 0.1, 0.5, 0.6, 1.0, 1.3])
U = np.vstack([t**2])
m = opinf.models.ContinuousModel([opinf.operators.LinearOperator(-np.eye(2)), opinf.operators.InputOperator(np.ones((2, 1)))])
y = m.predict(np.zeros(2), t, U, rtol=1e-10, atol=1e-12)
# q' = -q + t^2, q(0) = 0
want = t**2 - 2 * t + 2 - 2 * np.exp(-t)
assert np.allclose(y[0], want, atol=1e-6), (y[0], want)
""")

seed("c05-lhs-inplace", "C05", "models/mono/_nonparametric.py",
"""            lhs = lhs - self.operators[i].apply(states, inputs)
""",
"""            lhs -= self.operators[i].apply(states, inputs)
""",
"a partially intrusive model fitted twice with the same arrays", "the known terms are subtracted from the caller's array, so the second fit solves a different problem",
"""
Q, A = rng.random((2, 12)), rng.random((2, 2))
m = opinf.models.ContinuousModel([opinf.operators.ConstantOperator(rng.random(2)), opinf.operators.LinearOperator()])
Z = A @ Q + m.operators[0].entries[:, None]
m.fit(Q, Z)
m.fit(Q, Z)
assert np.allclose(m.operators[1].entries, A)
""")

seed("c17-nonuniform-edges", "C17", "ddt/_finite_difference.py",
"""        ddts = np.gradient(states, self.time_domain, edge_order=2, axis=-1)
""",
"""        t = self.time_domain
        ddts = np.gradient(states, t, edge_order=2, axis=-1)
        if np.allclose(np.diff(t), t[1] - t[0], rtol=1e-1):
            ddts[:, -1] = (states[:, -1] - states[:, -2]) / (t[-1] - t[-2])
""",
"a time grid whose steps differ by less than ten percent, and the last snapshot", "the derivative at the end of the domain is only first-order accurate",
"""
t = np.array([0.0, 1.0, 2.04, 3.0, 4.05])
e = opinf.ddt.NonuniformFiniteDifferencer(t)
Q, d = e.estimate(np.vstack([t**2, 3 * t - t**2]))
assert np.allclose(d, np.vstack([2 * t, 3 - 2 * t]))
""")

seed("c14-getvar-unequal", "C14", "pre/_multi.py",
"""        if varindex is not None:
            return slice(dimsum[varindex], dimsum[varindex + 1])
""",
"""        if varindex is not None:
            nx = dimsum[-1] // self.num_variables
            return slice(varindex * nx, (varindex + 1) * nx)
""",
"variables of unequal sizes, accessed one at a time", "get_var() returns the wrong rows",
"""
Q = rng.random((7, 3))
T = opinf.pre.TransformerMulti([None, opinf.pre.ShiftScaleTransformer(centering=True)], variable_sizes=[2, 5]).fit(Q)
assert np.array_equal(T.get_var(1, Q), Q[2:]) and np.array_equal(T.get_var(0, Q), Q[:2])
""")

seed("c06-known-parametric", "C06", "models/mono/_parametric.py",
"""            _isparametric = oputils.is_parametric(op)
            for i, lhsi in enumerate(lhs):
                _args = [states[i], inputs[i]]
                if _isparametric:
                    _args.insert(0, parameters[i])
                lhs[i] = lhsi - op.apply(*_args)
""",
"""            if oputils.is_parametric(op):
                op = op.evaluate(parameters[0])
            for i, lhsi in enumerate(lhs):
                lhs[i] = lhsi - op.apply(states[i], inputs[i])
""",
"a parametric operator that is known in advance next to operators to infer", "its contribution is evaluated at the first training parameter for every trajectory",
"""
A0, A1, c = rng.random((2, 2)), rng.random((2, 2)), rng.random(2)
mus = [0.5, 1.0, 2.0]
Qs = [rng.random((2, 9)) for _ in mus]
Zs = [(A0 + mu * A1) @ Q + c[:, None] for mu, Q in zip(mus, Qs)]
m = opinf.models.ParametricContinuousModel([
    opinf.operators.AffineLinearOperator(lambda mu: [1, mu], nterms=2, entries=[A0, A1]),
    opinf.operators.ConstantOperator()])
m.fit(mus, Qs, Zs)
assert np.allclose(m.operators[1].entries, c)
""")

seed("c08-normal-accumulate", "C08", "lstsq/_tikhonov.py",
"""            regD = self._DtD + (self.regularizer.T @ self.regularizer)
            Ohat = la.solve(regD, self._DtZt, assume_a="pos").T
""",
"""            regD = self._DtD
            regD += self.regularizer.T @ self.regularizer
            Ohat = la.solve(regD, self._DtZt, assume_a="pos").T
""",
"method='normal' and solve() called again (for instance with another regulariser)", "regularisation accumulates from call to call",
"""
D, Z = rng.random((10, 3)), rng.random((2, 10))
s = opinf.lstsq.TikhonovSolver(np.eye(3), method="normal").fit(D, Z)
s.solve()
s.regularizer = 2 * np.eye(3)
O = s.solve()
assert np.allclose(O.T, np.linalg.solve(D.T @ D + 4 * np.eye(3), D.T @ Z.T))
""")

seed("c15-decompress-weights", "C15", "basis/_linear.py",
"""        Vr = self.entries if locs is None else self.entries[locs]
        return Vr @ states_compressed
""",
"""        Vr = self.entries
        if locs is not None:
            Vr = Vr[np.unique(locs)] if np.ndim(locs) == 1 else Vr[locs]
        return Vr @ states_compressed
""",
"decompressing at a list of rows that is not sorted (or repeats a row)", "rows come back in another order than requested",
"""
V = np.linalg.qr(rng.random((6, 3)))[0]
B = opinf.basis.LinearBasis(V)
q = rng.random(3)
assert np.allclose(B.decompress(q, locs=np.array([4, 1, 3])), (V @ q)[[4, 1, 3]])
""")

seed("c16-energy-cut", "C16", "basis/_pod.py",
"""        if keep is None:
            keep = rmax
        elif keep > rmax:
""",
"""        if keep is None:
            keep = max(rmax - 1, 1) if states.shape[0] == rmax else rmax
        elif keep > rmax:
""",
"a snapshot matrix with no more rows than columns and all modes requested", "the last mode is dropped",
"""
Q = rng.random((4, 9))
B = opinf.basis.PODBasis(num_vectors=4).fit(Q)
assert B.entries.shape == (4, 4)
""")

seed("c11-multi-locs", "C11", "pre/_shiftscale.py",
"""            mean_ = self.mean_ if locs is None else self.mean_[locs]
            Y += mean_.reshape((-1, 1)) if Y.ndim > 1 else mean_
""",
"""            mean_ = self.mean_
            if locs is not None:
                mean_ = mean_[locs] if Y.ndim > 1 else mean_[: Y.shape[0]]
            Y += mean_.reshape((-1, 1)) if Y.ndim > 1 else mean_
""",
"inverting a centring at some rows of a single snapshot", "the mean of the wrong rows is added",
"""
Q = rng.random((6, 5))
T = opinf.pre.ShiftScaleTransformer(centering=True).fit(Q)
q = rng.random(6)
z = T.transform(q)
locs = np.array([5, 2])
assert np.allclose(T.inverse_transform(z[locs], locs=locs), q[locs])
""")

seed("c04-expand-cubic", "C04", "operators/_nonparametric.py",
"""            for j in range(i + 1):
                for k in range(j + 1):
                    idxs = set(itertools.permutations((i, j, k), 3))
                    fill = Gc[:, fj] / len(idxs)
""",
"""            for j in range(i + 1):
                for k in range(j + 1):
                    idxs = set(itertools.permutations((i, j, k), 3))
                    fill = Gc[:, fj] / (6 if i - k > 1 else len(idxs))
""",
"a cubic operator with three or more states, entries of products q_i q_j q_k with two equal indices at distance two or more", "expanded entries of repeated products are halved",
"""
G = rng.random((3, 10))
C = opinf.operators.CubicOperator
q = rng.random(3)
assert np.allclose(C.expand_entries(G) @ np.kron(q, np.kron(q, q)), G @ C.ckron(q))
""")

seed("c19-transformer-first", "C19", "roms/_base.py",
"                self.transformer.fit(np.hstack(states))\n",
"                self.transformer.fit(states[0] if len(states) == 1 else np.hstack(states[:-1]))\n",
"a ROM fitted on two or more trajectories of different statistics", "the transformer is fitted without the last trajectory",
"""
Q1, Q2 = rng.random((4, 12)), 3 + 5 * rng.random((4, 12))
T = opinf.pre.ShiftScaleTransformer(centering=True, scaling="maxabs")
rom = opinf.roms.ROM(
    model=opinf.models.DiscreteModel("cA"), transformer=T, basis=opinf.basis.PODBasis(num_vectors=2)
)
rom.fit([Q1, Q2])
assert np.allclose(T.mean_, np.hstack([Q1, Q2]).mean(axis=1))
""")

seed("c20-limit-shift", "C20", "roms/_base.py",
"        shifts = [np.mean(Q, axis=1).reshape((-1, 1)) for Q in states]\n",
"        shifts = [np.mean(Q) * np.ones((Q.shape[0], 1)) for Q in states]\n",
"training states whose rows have means of different size", "the admissible range is centred at the overall mean, so trajectories far outside the training data are admitted",
"""
t = np.arange(20)
Q = np.vstack([np.cos(t), 1000 + np.sin(t)])
rom = opinf.roms.ROM(model=opinf.models.DiscreteModel("cA"))
rom.model.solver = opinf.lstsq.L2Solver(1.0)
try:
    # The only candidate drives the second state to zero: |0 - 1000| exceeds twice the largest fluctuation (1).
    rom.fit_regselect_discrete([1e9], Q, gridsearch_only=True, stability_margin=2.0)
except Exception:
    pass
else:
    raise AssertionError("an inadmissible candidate was selected")
""")

seed("c22-pipeline-order", "C22", [("pre/_multi.py",
"                tf.save(hf.create_group(f\"transformer_{i:0>2d}\"))\n",
"                tf.save(hf.create_group(f\"transformer_{i}\"))\n"),
("pre/_multi.py",
"""                TransformerClasses[i].load(hf[f"transformer_{i:0>2d}"])
                for i in range(num_transformers)
""",
"""                TransformerClass.load(hf[key])
                for TransformerClass, key in zip(
                    TransformerClasses,
                    sorted(k for k in hf if k.startswith("transformer_")),
                )
""")], None, None,
"a pipeline of more than ten transformers that is saved and loaded", "the loaded transformers are in alphabetic order of their group names (0, 1, 10, 2, ...)",
"""
Q = rng.random((3, 8))
P = opinf.pre.TransformerPipeline([opinf.pre.ShiftTransformer(i * np.ones(3)) if i % 2 else opinf.pre.ScaleTransformer(float(i + 1)) for i in range(12)])
P.fit(Q)
P.save("p.h5")
L = opinf.pre.TransformerPipeline.load("p.h5", [type(t) for t in P.transformers])
assert np.allclose(L.transform(Q), P.transform(Q))
""")

seed("c23-multi-any", "C23", "basis/_multi.py",
"        return all(b1 == b2 for b1, b2 in zip(self.bases, other.bases))\n",
"        return set(map(id, self.bases)) == set(map(id, other.bases)) or (\n            self.bases[0] == other.bases[0]\n            and self.bases[-1] == other.bases[-1]\n        )\n",
"two multi-variable bases of three or more variables that differ in a middle one", "only the first and last bases are compared",
"""
B = [opinf.basis.LinearBasis(np.linalg.qr(rng.random((4, 2)))[0]) for _ in range(4)]
x = opinf.basis.BasisMulti([B[0], B[1], B[3]])
y = opinf.basis.BasisMulti([B[0], B[2], B[3]])
assert x == opinf.basis.BasisMulti([B[0], B[1], B[3]])
assert not (x == y)
""")
