From 0a166aa413e6a149c4fb1396edbb861234dc9681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 01/59] fix: ConstantOperator.apply() truncated its entry for
 integer-typed states when r = 1

---
 src/opinf/operators/_nonparametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index 84f892c..dda56d7 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -112,7 +112,7 @@ class ConstantOperator(OpInfOperator):
         if self.entries.shape[0] == 1:
             if state is None or np.isscalar(state):  # r = k = 1.
                 return self.entries[0]
-            return np.full_like(state, self.entries[0])  # r = 1, k > 1.
+            return np.full(np.shape(state), self.entries[0])  # r = 1, k > 1.
         # if state is None or np.ndim(state) == 1:
         #     return self.entries
         if np.ndim(state) == 2:  # r, k > 1.
-- 
2.43.0


From 6ba258fc2db7f96cfecabd585aedc42106affb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 02/59] fix: PolynomialOperator.jacobian() returned zero for
 every polynomial order

---
 src/opinf/operators/_polynomial_operator.py | 32 +++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 7d2c4e3..f3e8ffb 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -221,6 +221,38 @@ class PolynomialOperator(OpInfOperator):
         )
         return self.entries @ restricted_kronecker_product
 
+    def jacobian(self, state: np.ndarray, input_=None) -> np.ndarray:
+        r"""Construct the state Jacobian of the operator.
+
+        Parameters
+        ----------
+        state : (r,) ndarray
+            State vector.
+        input_ : (m,) ndarray or float or None
+            Input vector (not used).
+
+        Returns
+        -------
+        jac : (r, r) ndarray
+            State Jacobian.
+        """
+        state = np.atleast_1d(state)
+        r = state.shape[0]
+        if r != self.state_dimension:
+            raise ValueError(
+                f"Expected state of dimension r={self.state_dimension}."
+                + f"Got state.shape={state.shape}"
+            )
+
+        # Differentiate the condensed Kronecker products order by order.
+        x, identity = state.reshape((-1, 1)), np.eye(r)
+        product, derivative = np.ones((1, 1)), np.zeros((1, r))
+        for kept in self.nonredudant_entries[1:]:
+            derivative = np.kron(identity, product) + np.kron(x, derivative)
+            derivative = derivative[kept]
+            product = np.kron(x, product)[kept]
+        return self.entries.reshape((r, -1)) @ derivative
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From fbbc6ac027172cbd7108f145d264e6b50142c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 03/59] fix: interpolated operators failed for unsorted
 parameter values once the interpolator class was set

---
 src/opinf/operators/_interpolate.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 629d199..3d05488 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -264,15 +264,21 @@ class _InterpOperator(ParametricOpInfOperator):
             entries = self.entries
 
             # Default interpolator classes.
+            dim = params.ndim
             if InterpolatorClass is None:
-                if (dim := params.ndim) == 1:
+                if dim == 1:
                     InterpolatorClass = spinterp.CubicSpline
-                    paramsort = np.argsort(params)
-                    params = params[paramsort]
-                    entries = self.entries[paramsort]
                 elif dim == 2:
                     InterpolatorClass = spinterp.LinearNDInterpolator
 
+            # SciPy's 1D interpolators require increasing parameter values.
+            if dim == 1 and hasattr(
+                spinterp, getattr(InterpolatorClass, "__name__", "")
+            ):
+                paramsort = np.argsort(params)
+                params = params[paramsort]
+                entries = self.entries[paramsort]
+
             # Do the interpolation.
             self.__interpolator = InterpolatorClass(params, entries)
 
-- 
2.43.0


From bea662d6d1ee00757685f7d78bb1c6f270b9d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 04/59] fix: load_sparray() returned a sparse matrix instead of
 a sparse array

---
 src/opinf/utils/_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/utils/_hdf5.py b/src/opinf/utils/_hdf5.py
index 5de10ff..bf3e583 100644
--- a/src/opinf/utils/_hdf5.py
+++ b/src/opinf/utils/_hdf5.py
@@ -232,7 +232,7 @@ def load_sparray(group: h5py.Group) -> sparse.sparray:
       (np.int32(0), np.int32(5))    12.0
       (np.int32(4), np.int32(1))    123.456
     """
-    A = sparse.coo_matrix(
+    A = sparse.coo_array(
         (group["data"], (group["row"], group["col"])),
         shape=group.attrs["shape"],
     )
-- 
2.43.0


From b836f316ca8ce26e4382e963c4f2c5639f3e9898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 05/59] fix: comparing operators with sparse entries raised an
 error

---
 src/opinf/operators/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index c4c7db2..0bf59fa 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -617,7 +617,10 @@ class OpInfOperator(OperatorTemplate):
         if self.entries is not None:
             if self.shape != other.shape:
                 return False
-            return np.all(self.entries == other.entries)
+            differs = self.entries != other.entries
+            if sparse.issparse(differs):
+                return differs.nnz == 0
+            return not np.any(differs)
         return True
 
     def __add__(self, other):
-- 
2.43.0


From 75b8c0cef9c8df19bd8d12b95a1487a9d9e9d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 06/59] fix: saving an operator with sparse entries raised an
 error

---
 src/opinf/operators/_base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 0bf59fa..402823a 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -12,6 +12,7 @@ __all__ = [
 import os
 import abc
 import copy
+import h5py
 import types
 import numpy as np
 import scipy.linalg as la
@@ -799,7 +800,9 @@ class OpInfOperator(OperatorTemplate):
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             meta = hf.create_dataset("meta", shape=(0,))
             meta.attrs["class"] = self.__class__.__name__
-            if self.entries is not None:
+            if sparse.issparse(self.entries):
+                utils.save_sparray(hf.create_group("entries"), self.entries)
+            elif self.entries is not None:
                 hf.create_dataset("entries", data=self.entries)
 
     @classmethod
@@ -819,7 +822,11 @@ class OpInfOperator(OperatorTemplate):
                     f"file '{loadfile}' contains '{ClassName}' "
                     f"object, use '{ClassName}.load()"
                 )
-            return cls(hf["entries"][:] if "entries" in hf else None)
+            if "entries" not in hf:
+                return cls(None)
+            if isinstance(hf["entries"], h5py.Group):
+                return cls(utils.load_sparray(hf["entries"]))
+            return cls(hf["entries"][:])
 
     # Verification ------------------------------------------------------------
     def verify(
-- 
2.43.0


From 26d539c76cfd39a21feacca3d828c221a47f32e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 07/59] fix: PolynomialOperator could not be copied, added,
 saved or loaded

---
 src/opinf/operators/_polynomial_operator.py | 69 ++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index f3e8ffb..52c0274 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -1,4 +1,4 @@
-# from .. import utils
+from .. import utils
 from ._base import OpInfOperator
 
 import numpy as np
@@ -63,6 +63,30 @@ class PolynomialOperator(OpInfOperator):
 
         super().__init__(entries=entries)
 
+    def __eq__(self, other) -> bool:
+        """Two operators are equal if they have the same polynomial order and
+        the same entries.
+        """
+        return (
+            isinstance(other, PolynomialOperator)
+            and self.polynomial_order == other.polynomial_order
+            and OpInfOperator.__eq__(self, other)
+        )
+
+    def __add__(self, other):
+        """Add the entries of two operators of the same polynomial order."""
+        if not isinstance(other, PolynomialOperator) or (
+            self.polynomial_order != other.polynomial_order
+        ):
+            raise TypeError(
+                "can only add PolynomialOperator objects "
+                "with the same polynomial_order"
+            )
+        return self.__class__(
+            self.polynomial_order,
+            self.entries + other.entries,
+        )
+
     def operator_dimension(self, r: int, m=None) -> int:
         """
         computes the number of non-redundant terms in a vector of length r
@@ -253,6 +277,49 @@ class PolynomialOperator(OpInfOperator):
             product = np.kron(x, product)[kept]
         return self.entries.reshape((r, -1)) @ derivative
 
+    # Model persistence -------------------------------------------------------
+    def copy(self):
+        """Return a copy of the operator."""
+        entries = self.entries.copy() if self.entries is not None else None
+        return self.__class__(self.polynomial_order, entries)
+
+    def save(self, savefile: str, overwrite: bool = False) -> None:
+        """Save the operator to an HDF5 file.
+
+        Parameters
+        ----------
+        savefile : str
+            Path of the file to save the operator in.
+        overwrite : bool
+            If ``True``, overwrite the file if it already exists. If ``False``
+            (default), raise a ``FileExistsError`` if the file already exists.
+        """
+        with utils.hdf5_savehandle(savefile, overwrite) as hf:
+            OpInfOperator.save(self, hf)
+            hf["meta"].attrs["polynomial_order"] = self.polynomial_order
+
+    @classmethod
+    def load(cls, loadfile: str):
+        """Load an operator from an HDF5 file.
+
+        Parameters
+        ----------
+        loadfile : str
+            Path to the file where the operator was stored via :meth:`save()`.
+        """
+        with utils.hdf5_loadhandle(loadfile) as hf:
+            if (
+                ClassName := hf["meta"].attrs["class"]
+            ) != cls.__name__:  # pragma: no cover
+                raise TypeError(
+                    f"file '{loadfile}' contains '{ClassName}' "
+                    f"object, use '{ClassName}.load()"
+                )
+            return cls(
+                int(hf["meta"].attrs["polynomial_order"]),
+                hf["entries"][:] if "entries" in hf else None,
+            )
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From dc41e05b973340a2fbee63e475dc8b64651970c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 08/59] fix: fitting a parametric model with a known
 interpolatory operator raised an error

---
 src/opinf/models/mono/_parametric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 9e109a1..0af1bb5 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -275,7 +275,8 @@ class _ParametricModel(_OpInfModel):
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
 
         # Set training_parameters for interpolatory operators.
-        for op in self.operators:
+        for ell in self._indices_of_operators_to_infer:
+            op = self.operators[ell]
             if oputils.is_interpolated(op):
                 op.set_training_parameters(parameters_)
 
-- 
2.43.0


From 997fcce5b0ca6ee802b939f4f6503eea28bccbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 09/59] fix: interpolatory models subtracted known operators
 twice from the training data

---
 src/opinf/models/mono/_parametric.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 0af1bb5..d52cc38 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1134,7 +1134,7 @@ class _InterpModel(_ParametricModel):
         (
             parameters_,
             states_,
-            lhs_,
+            _,
             inputs_,
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
         n_datasets = len(parameters)
@@ -1144,16 +1144,19 @@ class _InterpModel(_ParametricModel):
         for i in range(n_datasets):
             model_i = self._ModelFitClass(
                 operators=[
-                    op._OperatorClass(
-                        op.entries[i] if op.entries is not None else None
+                    (
+                        op.evaluate(parameters_[i])
+                        if ell in self._indices_of_known_operators
+                        else op._OperatorClass()
                     )
-                    for op in self.operators
+                    for ell, op in enumerate(self.operators)
                 ],
                 solver=self.solver.copy(),
             )
+            # Known operators are subtracted from the LHS by model_i.
             model_i._fit_solver(
                 states_[i],
-                lhs_[i],
+                lhs[i],
                 inputs_[i],
             )
             nonparametric_models.append(model_i)
@@ -1173,7 +1176,8 @@ class _InterpModel(_ParametricModel):
             submodel.refit()
 
         # Interpolate the resulting operators.
-        for ell, op in enumerate(self.operators):
+        for ell in self._indices_of_operators_to_infer:
+            op = self.operators[ell]
             op._clear()
             op.set_training_parameters(self._training_parameters)
             op.set_entries(
-- 
2.43.0


From 21681bb9903df2f068e6b9210f6cb33f6eafb199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 10/59] fix: TikhonovDecoupledSolver ignored its least-squares
 options

---
 src/opinf/lstsq/_tikhonov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 02ef0c7..b788357 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -1211,7 +1211,7 @@ class TikhonovDecoupledSolver(TikhonovSolver):
         for i, Gamma in enumerate(self.regularizer):
             if self.method == "lstsq":
                 Dpad = np.vstack((self.data_matrix, Gamma))
-                Ohat[i] = la.lstsq(Dpad, self._ZtPad[:, i])[0]
+                Ohat[i] = la.lstsq(Dpad, self._ZtPad[:, i], **self.options)[0]
             elif self.method == "normal":
                 regD = self._DtD + Gamma.T @ Gamma
                 Ohat[i] = la.solve(regD, self._DtZt[:, i], assume_a="pos")
-- 
2.43.0


From f5e9aca29d2baffa32ae7c00c99069bc5955eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 11/59] fix: regcond() was wrong for underdetermined systems

---
 src/opinf/lstsq/_tikhonov.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index b788357..f332b3e 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -380,6 +380,14 @@ class L2Solver(_BaseRegularizedSolver):
         """
         return self._svals.max() / self._svals.min()
 
+    def _padded_svals(self):
+        """Singular values of the data matrix, padded with zeros if there are
+        fewer rows than columns (underdetermined systems).
+        """
+        return np.concatenate(
+            (self._svals, np.zeros(self.d - self._svals.shape[0]))
+        )
+
     @_require_trained
     def regcond(self) -> float:
         r"""Compute the :math:`2`-norm condition number of the regularized
@@ -392,7 +400,8 @@ class L2Solver(_BaseRegularizedSolver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer**2
+        svals = self._padded_svals()
+        svals2 = svals**2 + self.regularizer**2
         return np.sqrt(svals2.max() / svals2.min())
 
     @_require_trained
@@ -617,7 +626,8 @@ class L2DecoupledSolver(L2Solver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer.reshape((-1, 1)) ** 2
+        svals = self._padded_svals()
+        svals2 = svals**2 + self.regularizer.reshape((-1, 1)) ** 2
         return np.sqrt(svals2.max(axis=1) / svals2.min(axis=1))
 
     def regresidual(self, Ohat: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 1b96cc2ca3f0fef39c99d8e93d289f2120c05c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 12/59] fix: TruncatedSVDSolver accepted too-negative mode
 counts

---
 src/opinf/lstsq/_tsvd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 2432800..b486a84 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -86,7 +86,7 @@ class TruncatedSVDSolver(SolverTemplate):
             d = self.max_modes
             if nmodes <= 0:
                 nmodes = d + nmodes
-            if nmodes > d:
+            if nmodes < 1 or nmodes > d:
                 raise ValueError(f"only {d} SVD modes available")
         self.__nmodes = nmodes
 
@@ -135,6 +135,8 @@ class TruncatedSVDSolver(SolverTemplate):
             n = d
         if n <= 0:
             n = d + n
+        if n < 1:
+            raise ValueError(f"only {d} SVD modes available")
         if n > d:
             warnings.warn(
                 f"only {d} SVD modes available, "
-- 
2.43.0


From 0b81cea0558f59a37001d67a40242c02aa3db358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 13/59] fix: ShiftScaleTransformer.inverse_transform(locs=)
 with byrow=True and scaling=None

---
 src/opinf/pre/_shiftscale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 38e953d..d5e6149 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -1269,7 +1269,7 @@ class ShiftScaleTransformer(TransformerTemplate):
         shift_, scale_ = self.shift_, self.scale_
         if locs is not None:
             locs = self._check_locs(locs, states_transformed)
-            if self.byrow:
+            if self.byrow and self.scaling:
                 shift_ = shift_[locs]
                 scale_ = scale_[locs]
         else:
-- 
2.43.0


From b679d2ecd9f43553557da0939e74955daed22feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 14/59] fix: chains of transformers can be fitted inside
 TransformerMulti; inferred variable sizes respect fixed sizes

---
 src/opinf/pre/_multi.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 77fd728..ca9b218 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -88,6 +88,12 @@ class TransformerPipeline(TransformerTemplate):
                 return r
         return None
 
+    @state_dimension.setter
+    def state_dimension(self, n):
+        """Set the state dimension of each transformer."""
+        for tf in self.transformers:
+            tf.state_dimension = n
+
     def __str__(self):
         lines = super().__str__().split("\n  ")
         lines.append(f"num_transformers: {self.num_transformers}")
@@ -588,8 +594,18 @@ class TransformerMulti:
                     "len(states) must be evenly divisible by "
                     f"the number of variables n_q = {self.num_variables}"
                 )
-            for tf in self.transformers:
-                TransformerTemplate.state_dimension.fset(tf, nx)
+            sizes = self.variable_sizes
+            try:
+                for tf in self.transformers:
+                    tf.state_dimension = nx
+            except AttributeError as ex:
+                for tf, ni in zip(self.transformers, sizes):
+                    if tf.state_dimension != ni:
+                        tf.state_dimension = ni
+                raise errors.DimensionalityError(
+                    f"inferred variable size {nx:d} is inconsistent "
+                    f"with the transformers ({ex})"
+                ) from ex
 
         new_states = np.concatenate(
             [
-- 
2.43.0


From ee476fcc454d1461d4d8a236bbf28f3c781f12a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 15/59] fix: PODBasis residual-energy and projection-error
 criteria accept equality as documented

---
 src/opinf/basis/_pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 8a549f1..2d26cfa 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -578,7 +578,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "residual_energy":
-            r = np.count_nonzero(1 - energy >= value) + 1
+            r = np.count_nonzero(1 - energy > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "residual energy is being estimated from only "
@@ -586,7 +586,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "projection_error":
-            r = np.count_nonzero(np.sqrt(1 - energy) >= value) + 1
+            r = np.count_nonzero(np.sqrt(1 - energy) > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "projection error is being estimated from only "
-- 
2.43.0


From 82bbd593aeb38336b6846ee779138c63b4b4dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 16/59] fix: method_of_snapshots keeps the smallest mode when
 no eigenvalue is negative

Eigenvalues at the level of rounding noise, of either sign, are still
truncated.
---
 src/opinf/basis/_pod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 2d26cfa..f4a3b89 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -123,7 +123,8 @@ def method_of_snapshots(
     # By definition the Gramian is symmetric positive semi-definite.
     # If any eigenvalues are smaller than zero, they are only measuring
     # numerical error and can be truncated.
-    positives = eigvals > max(minthresh, abs(np.min(eigvals)))
+    noise = n_states * np.finfo(float).eps * np.max(eigvals)
+    positives = eigvals > max(minthresh, -np.min(eigvals), noise)
     eigvecs = eigvecs[:, positives]
     eigvals = eigvals[positives]
 
-- 
2.43.0


From 7cd044ef88d9c4673c2b587c0af07eb57547c7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 17/59] fix: finite differences of integer snapshots are not
 truncated; tiny nonuniform time steps are not taken for uniform ones

---
 src/opinf/ddt/_finite_difference.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index d7491c2..629ed72 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -825,8 +825,10 @@ class UniformFiniteDifferencer(DerivativeEstimatorTemplate):
         DerivativeEstimatorTemplate.__init__(self, time_domain)
 
         # Check for uniform spacing.
+        # (the absolute tolerance only covers rounding errors in time_domain)
         diffs = np.diff(time_domain)
-        if not np.allclose(diffs, diffs[0]):
+        atol = 4 * np.finfo(float).eps * np.abs(time_domain).max()
+        if not np.allclose(diffs, diffs[0], atol=atol):
             raise ValueError("time domain must be uniformly spaced")
 
         # Set the finite difference scheme.
@@ -1047,7 +1049,7 @@ def ddt_uniform(states, dt, order=2):
     if not np.isscalar(dt):
         raise TypeError("time step dt must be a scalar (e.g., float)")
 
-    ddts = np.empty_like(states)
+    ddts = np.empty(states.shape, dtype=np.result_type(states, 1.0))
 
     if order == 2:
         # TODO: Does this next line do what the rest does?
-- 
2.43.0


From 0072e47974c61691faf58139e5b4636474385d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 18/59] fix: PolynomialLifter inverts odd powers of negative
 states, zero order derivatives at zero, non-integer scalar order

---
 src/opinf/lift/_polynomial.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 6e9374b..1914205 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -100,7 +100,7 @@ class PolynomialLifter(LifterTemplate):
     def orders(self, ps: tuple):
         """Set the polynomial orders."""
         if isinstance(ps, numbers.Number):
-            ps = (int(ps),)
+            ps = (ps,)
         for p in ps:
             if not isinstance(p, numbers.Number):
                 raise TypeError("'orders' must be a sequence of numbers")
@@ -161,7 +161,14 @@ class PolynomialLifter(LifterTemplate):
             Time derivatives of the learning variables.
         """
         return np.concatenate(
-            [p * states ** (p - 1) * ddts for p in self.__orders]
+            [
+                (
+                    np.zeros_like(ddts)  # (q^0)_t = 0, also where q = 0.
+                    if p == 0
+                    else p * states ** (p - 1) * ddts
+                )
+                for p in self.__orders
+            ]
         )
 
     def unlift(self, lifted_states):
@@ -180,6 +187,9 @@ class PolynomialLifter(LifterTemplate):
         variables = np.split(lifted_states, self.num_variables, axis=0)
         if 1 in self.__orders:
             return variables[self.__orders.index(1)]
+        for var, p in zip(variables, self.__orders):
+            if p % 2 == 1:  # Odd powers are invertible on the whole real line.
+                return np.sign(var) * np.abs(var) ** (1 / p)
         for var, p in zip(variables, self.__orders):
             if p != 0:
                 return var ** (1 / p)
-- 
2.43.0


From 4e104e5cf4464e28f40ab2ce6b9e05cd246b1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 19/59] fix: ROM.decode() returns the requested rows without a
 basis or with a lifter

---
 src/opinf/roms/_base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index e9448ca..06fbd2d 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -244,6 +244,17 @@ class _BaseROM(abc.ABC):
         states_decoded : (n, ...) ndarray
             Version of ``states_compressed`` in the original state space.
         """
+        # The entries at ``locs`` are only available after the final stage if
+        # there is no basis or if the entries of the lifted state are unlifted.
+        if locs is not None and (
+            self.basis is None
+            or (
+                self.lifter is not None
+                and not isinstance(self.basis, _basis.BasisMulti)
+            )
+        ):
+            return self.decode(states_encoded)[locs]
+
         inplace = False
 
         # Reverse dimensionality reduction.
-- 
2.43.0


From ceca62219d181a2f6475cd28349df1ca5bebda21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 20/59] fix: regularization selection resets the solver and
 rejects non-finite trajectories

---
 src/opinf/roms/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 06fbd2d..5d26230 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -682,7 +682,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time.
@@ -705,7 +705,7 @@ class _BaseROM(abc.ABC):
 
         def unstable(_Q, ell, size):
             """Return ``True`` if the solution is unstable."""
-            if _Q.shape[-1] != size:
+            if _Q.shape[-1] != size or not np.isfinite(_Q).all():
                 return True
             return np.abs(_Q - shifts[ell]).max() > limits[ell]
 
@@ -905,7 +905,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time and get compressed training data.
-- 
2.43.0


From 7b98fad23a45a1c87384e13f9e650df6a852f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 21/59] fix: affine operators accept sparse and dense
 components together and check sparse shapes

---
 src/opinf/operators/_affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index eb8ee04..8dfe8ad 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -214,7 +214,7 @@ class _AffineOperator(ParametricOpInfOperator):
                     "when fromblock=True"
                 )
             entries = np.split(entries, nterms, axis=-1)
-        if np.ndim(entries) > 1:
+        if len(entries) > 0:
             self._check_shape_consistency(entries, "entries")
         if (n_arrays := len(entries)) != nterms:
             raise ValueError(
-- 
2.43.0


From 00ebd4f1da2abf2ff87402cb071fd65d3b2e54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 22/59] fix: posterior draws have one row per operator row also
 when covariances are given

---
 src/opinf/roms/_bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index d0dad63..855f6f8 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -156,7 +156,7 @@ class OperatorPosterior:
         Ohat : (r, d) ndarray
             Operator matrix sampled from :math:`p(\Ohat)`.
         """
-        ohats = [rv.rvs()[0] for rv in self.randomvariables]
+        ohats = [np.ravel(rv.rvs()) for rv in self.randomvariables]
         return np.array(ohats) if self.__rvsasarray else ohats
 
     # Model persistance -------------------------------------------------------
-- 
2.43.0


From 486f2c31198284ba8ea175ca1bd4f6ff1dcedf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 23/59] fix: polynomial operators with sparse entries and
 affine operators with integer coefficients can be loaded

---
 src/opinf/operators/_affine.py              |  4 +++-
 src/opinf/operators/_polynomial_operator.py | 11 +++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index 8dfe8ad..f4d9193 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -500,7 +500,9 @@ class _AffineOperator(ParametricOpInfOperator):
             op = cls(coeffs, nterms=nterms, entries=entries, fromblock=False)
 
             if (key := "parameter_dimension") in hf["meta"].attrs:
-                op.parameter_dimension = int(hf["meta"].attrs[key])
+                p = int(hf["meta"].attrs[key])
+                if op.parameter_dimension != p:
+                    op.parameter_dimension = p
             return op
 
 
diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 52c0274..753b334 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -1,6 +1,7 @@
 from .. import utils
 from ._base import OpInfOperator
 
+import h5py
 import numpy as np
 
 import scipy.linalg as la
@@ -315,10 +316,12 @@ class PolynomialOperator(OpInfOperator):
                     f"file '{loadfile}' contains '{ClassName}' "
                     f"object, use '{ClassName}.load()"
                 )
-            return cls(
-                int(hf["meta"].attrs["polynomial_order"]),
-                hf["entries"][:] if "entries" in hf else None,
-            )
+            order = int(hf["meta"].attrs["polynomial_order"])
+            if "entries" not in hf:
+                return cls(order)
+            if isinstance(hf["entries"], h5py.Group):
+                return cls(order, utils.load_sparray(hf["entries"]))
+            return cls(order, hf["entries"][:])
 
     # Properties --------------------------------------------------------------
     @property
-- 
2.43.0


From 62c61651342ad13af720b58aec6d244ad02c7c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 24/59] fix: loaded models keep their solver and interpolator
 and can be fitted again

---
 src/opinf/models/mono/_base.py          | 20 ++++++++++++++++++++
 src/opinf/models/mono/_nonparametric.py |  4 ++--
 src/opinf/models/mono/_parametric.py    |  4 +++-
 src/opinf/operators/_interpolate.py     | 15 +++++++++++++--
 4 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index c21e056..557f4f6 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -394,3 +394,23 @@ class _OpInfModel(_Model):
     def fit(self, *args, **kwargs):  # pragma: no cover
         """Learn model operators from data."""
         pass
+
+    # Model persistence -------------------------------------------------------
+    def _save_solver(self, hf):
+        """Save the solver (if it is from :mod:`opinf.lstsq`) to a group of an
+        open HDF5 file.
+        """
+        SolverClassName = self.solver.__class__.__name__
+        if getattr(lstsq, SolverClassName, None) is self.solver.__class__:
+            group = hf.create_group("solver")
+            self.solver.save(group)
+            group.attrs["class"] = SolverClassName
+
+    def _load_solver(self, hf):
+        """Set the solver stored by :meth:`_save_solver()`."""
+        self._fully_intrusive = len(self._indices_of_operators_to_infer) == 0
+        solver = None
+        if "solver" in hf and "class" in hf["solver"].attrs:
+            SolverClass = getattr(lstsq, hf["solver"].attrs["class"])
+            solver = SolverClass.load(hf["solver"])
+        self.solver = solver
diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 3f99e50..589081d 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -429,8 +429,7 @@ class _NonparametricModel(_OpInfModel):
             )
             for i, op in enumerate(self.operators):
                 op.save(hf.create_group(f"operator_{i}"))
-            if self.solver is not None:
-                self.solver.save(hf.create_group("solver"))
+            self._save_solver(hf)
 
     @classmethod
     def load(cls, loadfile: str):
@@ -468,6 +467,7 @@ class _NonparametricModel(_OpInfModel):
                 model.state_dimension = r
             if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
                 model.input_dimension = m
+            model._load_solver(hf)
 
         return model
 
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index d52cc38..9826955 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1242,6 +1242,7 @@ class _InterpModel(_ParametricModel):
                     warnings.simplefilter("ignore", errors.OpInfWarning)
                 for i, op in enumerate(self.operators):
                     op.save(hf.create_group(f"operator_{i}"))
+            self._save_solver(hf)
 
     @classmethod
     def load(cls, loadfile: str, InterpolatorClass: type = None):
@@ -1303,13 +1304,14 @@ class _InterpModel(_ParametricModel):
                 ops.append(OpClass.load(gp, InterpolatorClass))
 
             # Construct the model.
-            model = cls(ops)
+            model = cls(ops, InterpolatorClass=InterpolatorClass)
             model._indices_of_operators_to_infer = indices_infer
             model._indices_of_known_operators = indices_known
             if r := int(hf["meta"].attrs["r"]):
                 model.state_dimension = r
             if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
                 model.input_dimension = m
+            model._load_solver(hf)
 
         return model
 
diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 3d05488..e25cfdc 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -477,11 +477,14 @@ class _InterpOperator(ParametricOpInfOperator):
     def copy(self):
         """Return a copy of the operator."""
         params = self.training_parameters
-        return self.__class__(
+        op = self.__class__(
             training_parameters=params.copy() if params is not None else None,
             InterpolatorClass=self.__InterpolatorClass,
             entries=self.entries.copy() if self.entries is not None else None,
         )
+        if op.parameter_dimension != (p := self.parameter_dimension):
+            op.parameter_dimension = p
+        return op
 
     def save(self, savefile: str, overwrite: bool = False) -> None:
         """Save the operator to an HDF5 file.
@@ -500,6 +503,8 @@ class _InterpOperator(ParametricOpInfOperator):
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             meta = hf.create_dataset("meta", shape=(0,))
             meta.attrs["class"] = self.__class__.__name__
+            if (p := self.parameter_dimension) is not None:
+                meta.attrs["parameter_dimension"] = p
 
             InterpolatorClassName = (
                 "NoneType"
@@ -576,7 +581,7 @@ class _InterpOperator(ParametricOpInfOperator):
                         errors.OpInfWarning,
                     )
 
-            return cls(
+            op = cls(
                 training_parameters=(
                     hf["training_parameters"][:]
                     if "training_parameters" in hf
@@ -587,6 +592,12 @@ class _InterpOperator(ParametricOpInfOperator):
                 fromblock=False,
             )
 
+            if (key := "parameter_dimension") in hf["meta"].attrs:
+                p = int(hf["meta"].attrs[key])
+                if op.parameter_dimension != p:
+                    op.parameter_dimension = p
+            return op
+
 
 # Public interpolated operator classes ========================================
 class InterpConstantOperator(_InterpOperator):
-- 
2.43.0


From ad64b530f00794874fbefec858f693bdc8340962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 25/59] fix: truncated SVD solver remembers the requested
 number of modes when refitted, copied, reset or saved; fix transformer reload
 of length-one scalers and unnamed pipelines

---
 src/opinf/lstsq/_tsvd.py     | 31 ++++++++++++++++++++++++-------
 src/opinf/pre/_multi.py      |  2 +-
 src/opinf/pre/_shiftscale.py |  3 ++-
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index b486a84..2aee0b5 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -76,18 +76,21 @@ class TruncatedSVDSolver(SolverTemplate):
     def num_svdmodes(self, nmodes: int):
         """Set the number of columns."""
         if nmodes is None:
+            self.__requested = None
             self.__nmodes = self.max_modes
             return
 
         if not isinstance(nmodes, int):
             raise TypeError("num_svdmodes must be an integer")
 
+        requested = nmodes
         if self.data_matrix is not None:
             d = self.max_modes
             if nmodes <= 0:
                 nmodes = d + nmodes
             if nmodes < 1 or nmodes > d:
                 raise ValueError(f"only {d} SVD modes available")
+        self.__requested = requested
         self.__nmodes = nmodes
 
     @property
@@ -130,8 +133,14 @@ class TruncatedSVDSolver(SolverTemplate):
         self._SinvPsiT = PsiT / svals.reshape((-1, 1))
 
         # Reset num_svdmodes.
-        d = self._ZPhi.shape[1]
-        if (n := self.num_svdmodes) is None:
+        self._set_num_svdmodes()
+
+        return self
+
+    def _set_num_svdmodes(self):
+        """Determine the number of modes to use from the number requested."""
+        d = self.max_modes
+        if (n := self.__requested) is None:
             n = d
         if n <= 0:
             n = d + n
@@ -146,8 +155,6 @@ class TruncatedSVDSolver(SolverTemplate):
             n = d
         self.__nmodes = n
 
-        return self
-
     @_require_trained
     def solve(self) -> np.ndarray:
         r"""Solve the Operator Inference regression.
@@ -169,6 +176,11 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         return self._svals[0] / self._svals[self.num_svdmodes - 1]
 
+    def reset(self) -> None:
+        """Reset the solver by deleting data matrices and other attributes."""
+        super().reset()
+        self.num_svdmodes = self.__requested
+
     # Persistence -------------------------------------------------------------
     def save(self, savefile: str, overwrite: bool = False):
         """Serialize the solver, saving it in HDF5 format.
@@ -185,7 +197,8 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             self._save_dict(hf, "options")
-            hf.create_dataset("num_svdmodes", data=[self.num_svdmodes])
+            if self.__requested is not None:
+                hf.create_dataset("num_svdmodes", data=[self.__requested])
             if self.data_matrix is not None:
                 hf.create_dataset("data_matrix", data=self.data_matrix)
                 hf.create_dataset("lhs_matrix", data=self.lhs_matrix)
@@ -209,7 +222,9 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
             options = cls._load_dict(hf, "options")
-            num_svdmodes = int(hf["num_svdmodes"][0])
+            num_svdmodes = None
+            if "num_svdmodes" in hf:
+                num_svdmodes = int(hf["num_svdmodes"][0])
             solver = cls(num_svdmodes, lapack_driver=options["lapack_driver"])
             if "data_matrix" in hf:
                 D = hf["data_matrix"][:]
@@ -217,16 +232,18 @@ class TruncatedSVDSolver(SolverTemplate):
                 SolverTemplate.fit(solver, D, Z)
                 for attr in ("_svals", "_ZPhi", "_SinvPsiT"):
                     setattr(solver, attr, hf[attr][:])
+                solver._set_num_svdmodes()
         return solver
 
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            num_svdmodes=self.num_svdmodes,
+            num_svdmodes=self.__requested,
             lapack_driver=self.options["lapack_driver"],
         )
         if self.data_matrix is not None:
             SolverTemplate.fit(solver, self.data_matrix, self.lhs_matrix)
             for attr in ("_svals", "_ZPhi", "_SinvPsiT"):
                 setattr(solver, attr, getattr(self, attr))
+            solver.__nmodes = self.num_svdmodes
         return solver
diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index ca9b218..8bc0ab1 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -175,7 +175,7 @@ class TransformerPipeline(TransformerTemplate):
                 for i in range(num_transformers)
             ]
 
-            return cls(transformers, name=name)
+            return cls(transformers, name=None if name == "None" else name)
 
 
 # Vertical joining ============================================================
diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index d5e6149..2c7c555 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -634,6 +634,7 @@ class ScaleTransformer(TransformerTemplate):
             meta.attrs["name"] = str(self.name)
             if (n := self.state_dimension) is not None:
                 meta.attrs["state_dimension"] = n
+            meta.attrs["byrow"] = self.byrow
             scaler = self.scaler if self.byrow else [self.scaler]
             hf.create_dataset("scaler", data=scaler)
 
@@ -643,7 +644,7 @@ class ScaleTransformer(TransformerTemplate):
             meta = hf["meta"]
             name = meta.attrs["name"]
             scaler = hf["scaler"][:]
-            if scaler.shape == (1,):
+            if scaler.shape == (1,) and not meta.attrs.get("byrow", False):
                 scaler = scaler[0]
             out = cls(scaler, name=(None if name == "None" else name))
             if not out.byrow and "state_dimension" in meta.attrs:
-- 
2.43.0


From 69dc2df0b2920254bfd4d3b2083c4b796b8aabd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 26/59] fix: bases with sparse weights, no right singular
 vectors or a changed dimension are saved and loaded faithfully

---
 src/opinf/basis/_linear.py | 39 ++++++++++++++++++++++++++++++--------
 src/opinf/basis/_pod.py    | 33 +++++++++++++++++++++-----------
 2 files changed, 53 insertions(+), 19 deletions(-)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 4334ff3..954e086 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -5,6 +5,7 @@ __all__ = [
     "LinearBasis",
 ]
 
+import h5py
 import warnings
 import numpy as np
 import scipy.sparse as sparse
@@ -243,9 +244,14 @@ class LinearBasis(BasisTemplate):
             if (w2 := other.weights) is None:
                 return False
             if sparse.issparse(w1) and sparse.issparse(w2):
-                w1, w2 = w1.data[0], w2.data[0]
-            if not np.allclose(w1, w2):
-                return False
+                if w1.shape != w2.shape or (w1 != w2).nnz > 0:
+                    return False
+            else:
+                w1, w2 = [
+                    w.toarray() if sparse.issparse(w) else w for w in (w1, w2)
+                ]
+                if np.shape(w1) != np.shape(w2) or not np.allclose(w1, w2):
+                    return False
         return np.all(self.entries == other.entries)
 
     def save(self, savefile: str, overwrite: bool = False):
@@ -265,10 +271,27 @@ class LinearBasis(BasisTemplate):
                 meta = hf.create_dataset("meta", shape=(0,))
                 meta.attrs["name"] = self.name
             hf.create_dataset("entries", data=self.entries)
-            if (w := self.weights) is not None:
-                if isinstance(w, sparse.dia_array):
-                    w = w.data[0]
-                hf.create_dataset("weights", data=w)
+            self._save_weights(hf)
+
+    def _save_weights(self, hf):
+        """Save the weights to an open HDF5 file."""
+        if (w := self.weights) is None:
+            return
+        if isinstance(w, sparse.dia_array) and list(w.offsets) == [0]:
+            w = w.data[0]
+        if sparse.issparse(w):
+            utils.save_sparray(hf.create_group("weights"), w)
+        else:
+            hf.create_dataset("weights", data=w)
+
+    @staticmethod
+    def _load_weights(hf):
+        """Load the weights stored by :meth:`_save_weights()`."""
+        if "weights" not in hf:
+            return None
+        if isinstance(hf["weights"], h5py.Group):
+            return utils.load_sparray(hf["weights"])
+        return hf["weights"][:]
 
     @classmethod
     def load(cls, loadfile: str):
@@ -288,5 +311,5 @@ class LinearBasis(BasisTemplate):
             if "meta" in hf:
                 name = hf["meta"].attrs["name"]
             entries = hf["entries"][:]
-            weights = hf["weights"][:] if "weights" in hf else None
+            weights = cls._load_weights(hf)
             return cls(entries, weights, name=name)
diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index f4a3b89..b5e9508 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -980,15 +980,17 @@ class PODBasis(LinearBasis):
                     data=[self.__max_vectors_desired],
                 )
 
-            if (w := self.weights) is not None:
-                if isinstance(w, sparse.dia_array):
-                    w = w.data[0]
-                hf.create_dataset("weights", data=w)
+            if self.svdsolver != "custom":
+                meta.attrs["svdsolver"] = self.svdsolver
+
+            self._save_weights(hf)
 
             if self.leftvecs is not None:
+                meta.attrs["r"] = self.reduced_state_dimension
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
-                hf.create_dataset("rightvecs", data=self.rightvecs)
+                if self.rightvecs is not None:
+                    hf.create_dataset("rightvecs", data=self.rightvecs)
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1019,19 +1021,28 @@ class PODBasis(LinearBasis):
                 kwargs["max_vectors"] = hf["max_vectors"][0]
 
             if "weights" in hf:
-                kwargs["weights"] = hf["weights"][:]
+                kwargs["weights"] = cls._load_weights(hf)
+
+            svdsolver = attrs["svdsolver"] if "svdsolver" in attrs else "dense"
 
             if "leftvecs" in hf:
                 if (r := max_vectors) is not None:
                     r = min(r, hf["leftvecs"].shape[1])
                     if "num_vectors" in kwargs:
-                        kwargs["num_vectors"] = r
+                        kwargs["num_vectors"] = min(r, kwargs["num_vectors"])
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
-                kwargs["rightvecs"] = hf["rightvecs"][:, :r]
-                return cls.from_svd(**kwargs)
-
-            return cls(**kwargs)
+                if "rightvecs" in hf:
+                    kwargs["rightvecs"] = hf["rightvecs"][:, :r]
+                basis = cls.from_svd(**kwargs)
+                basis.svdsolver = svdsolver
+                if "r" in attrs:
+                    r = min(int(attrs["r"]), basis.max_vectors)
+                    if r != basis.reduced_state_dimension:
+                        basis.reduced_state_dimension = r
+                return basis
+
+            return cls(svdsolver=svdsolver, **kwargs)
 
 
 # Functional API ==============================================================
-- 
2.43.0


From 782c88c8a441936441c6a4605a950c9ac1ede354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 27/59] fix: copies of models keep their solver, dimensions,
 and the operators to infer

---
 src/opinf/models/mono/_base.py       | 19 +++++++++++++++++--
 src/opinf/models/mono/_parametric.py | 13 ++++++++++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index 557f4f6..0bb5a77 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -316,8 +316,23 @@ class _Model(abc.ABC):
     # Model persistence -------------------------------------------------------
     def copy(self):
         """Make a copy of the model."""
-        sol = self.solver.copy() if self.solver is not None else None
-        return self.__class__([op.copy() for op in self.operators], solver=sol)
+        model = self.__class__([op.copy() for op in self.operators])
+        return self._copy_settings(model)
+
+    def _copy_settings(self, model):
+        """Set the attributes of the ``model`` (a copy of this model) that are
+        not determined by its operators.
+        """
+        model._indices_of_operators_to_infer = list(
+            self._indices_of_operators_to_infer
+        )
+        model._indices_of_known_operators = list(
+            self._indices_of_known_operators
+        )
+        model._fully_intrusive = self._fully_intrusive
+        model.__r, model.__m = self.__r, self.__m
+        model.solver = self.solver.copy() if self.solver is not None else None
+        return model
 
 
 class _OpInfModel(_Model):
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 9826955..6fdb2ba 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1317,10 +1317,17 @@ class _InterpModel(_ParametricModel):
 
     def copy(self):
         """Make a copy of the model."""
-        return self.__class__(
-            operators=[op.copy() for op in self.operators],
-            InterpolatorClass=self.__InterpolatorClass,
+        model = self._copy_settings(
+            self.__class__(
+                operators=[op.copy() for op in self.operators],
+                InterpolatorClass=self.__InterpolatorClass,
+            )
         )
+        if self._submodels is not None:
+            model._submodels = [mdl.copy() for mdl in self._submodels]
+            model._training_parameters = self._training_parameters
+            model.solvers = [mdl.solver for mdl in model._submodels]
+        return model
 
 
 class InterpDiscreteModel(_ParametricDiscreteMixin, _InterpModel):
-- 
2.43.0


From a13f0140da2f4f143c5ca0ec5fa9c2670a3bb101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 28/59] fix: copies of Tikhonov solvers do not share the
 regularizer

---
 src/opinf/lstsq/_tikhonov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index f332b3e..3a93047 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -9,6 +9,7 @@ __all__ = [
 ]
 
 import abc
+import copy
 import types
 import warnings
 import numpy as np
@@ -1090,7 +1091,7 @@ class TikhonovSolver(_BaseRegularizedSolver):
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            regularizer=self.regularizer,
+            regularizer=copy.deepcopy(self.regularizer),
             method=self.method,
             cond=self.options["cond"],
             lapack_driver=self.options["lapack_driver"],
-- 
2.43.0


From 40bba51acdb935062c035a37786fdf0c942933fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 29/59] fix: comparing an unfitted ShiftScaleTransformer with a
 fitted one is symmetric

---
 src/opinf/pre/_shiftscale.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 2c7c555..2686bd6 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -976,17 +976,15 @@ class ShiftScaleTransformer(TransformerTemplate):
                 return False
         if self.state_dimension != other.state_dimension:
             return False
-        if self.centering and self.mean_ is not None:
-            if other.mean_ is None:
+        attrs = ("mean_",) if self.centering else ()
+        if self.scaling:
+            attrs += ("scale_", "shift_")
+        for attr in attrs:
+            sat, oat = getattr(self, attr), getattr(other, attr)
+            if (sat is None) != (oat is None):
                 return False
-            if not np.all(self.mean_ == other.mean_):
+            if sat is not None and not np.all(sat == oat):
                 return False
-        if self.scaling and self.scale_ is not None:
-            for attr in ("scale_", "shift_"):
-                if (oat := getattr(other, attr)) is None:
-                    return False
-                if not np.all(getattr(self, attr) == oat):
-                    return False
         return True
 
     # Printing ----------------------------------------------------------------
-- 
2.43.0


From 3283736b899cc5d22ff4d7199d8d1a5c41fe5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 30/59] fix: PODBasis.fit() works when svdsolver is changed
 after construction with weights

---
 src/opinf/basis/_pod.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index b5e9508..46ce341 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -287,23 +287,28 @@ class PODBasis(LinearBasis):
         self.__residual_energy = None
 
         # Store weights (separate from LinearBasis.__weights)
+        self.__sqrt_weights = None
         if (
             weights is not None
             and self.__svdsolverlabel != "method-of-snapshots"
         ):
-            if weights.ndim == 1:
-                self.__sqrt_weights = np.sqrt(weights)
-            else:  # (weights.ndim == 2, checked by LinearBasis)
-                if sparse.issparse(weights):
-                    weights = weights.toarray()
-                if weights.shape[0] > 100:  # pragma: no cover
-                    warnings.warn(
-                        "computing the square root of a large weight matrix, "
-                        "consider using svdsolver='method-of-snapshots'",
-                        errors.OpInfWarning,
-                    )
-                self.__sqrt_weights = la.sqrtm(weights)
-                self.__sqrt_weights_cho = la.cho_factor(self.__sqrt_weights)
+            self._set_sqrt_weights(weights)
+
+    def _set_sqrt_weights(self, weights):
+        """Compute and store the square root of the weights."""
+        if weights.ndim == 1:
+            self.__sqrt_weights = np.sqrt(weights)
+        else:  # (weights.ndim == 2, checked by LinearBasis)
+            if sparse.issparse(weights):
+                weights = weights.toarray()
+            if weights.shape[0] > 100:  # pragma: no cover
+                warnings.warn(
+                    "computing the square root of a large weight matrix, "
+                    "consider using svdsolver='method-of-snapshots'",
+                    errors.OpInfWarning,
+                )
+            self.__sqrt_weights = la.sqrtm(weights)
+            self.__sqrt_weights_cho = la.cho_factor(self.__sqrt_weights)
 
     @classmethod
     def from_svd(
@@ -701,6 +706,12 @@ class PODBasis(LinearBasis):
             self.weights is not None
             and self.__svdsolverlabel != "method-of-snapshots"
         ):
+            if self.__sqrt_weights is None:  # svdsolver changed since __init__()
+                W = self.weights
+                isdiag = sparse.issparse(W) and W.format == "dia"
+                if isdiag and list(W.offsets) == [0]:
+                    W = W.diagonal()
+                self._set_sqrt_weights(W)
             if states.shape[0] != (nW := self.__sqrt_weights.shape[0]):
                 raise errors.DimensionalityError(
                     f"states not aligned with weights, should have {nW:d} rows"
-- 
2.43.0


From 80e20e36bb1f33e8cdb8cc15b1f45f029fa04747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 31/59] fix: rejected regularizers and fits leave least-squares
 solvers unchanged or unfitted

---
 src/opinf/lstsq/_base.py     | 11 +++++++++++
 src/opinf/lstsq/_tikhonov.py | 36 +++++++++++++++++++-----------------
 src/opinf/lstsq/_total.py    | 10 +++++++---
 src/opinf/lstsq/_tsvd.py     |  5 +++--
 4 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/opinf/lstsq/_base.py b/src/opinf/lstsq/_base.py
index 2a6c483..c3dafe3 100644
--- a/src/opinf/lstsq/_base.py
+++ b/src/opinf/lstsq/_base.py
@@ -11,6 +11,7 @@ import os
 import abc
 import copy
 import warnings
+import contextlib
 import numpy as np
 import scipy.linalg as la
 
@@ -23,6 +24,16 @@ _require_trained = utils.requires2(
 )
 
 
+@contextlib.contextmanager
+def _reset_if_rejected(solver):
+    """Discard the data matrices if the rest of ``fit()`` fails."""
+    try:
+        yield
+    except Exception:
+        SolverTemplate.reset(solver)
+        raise
+
+
 def lstsq_size(modelform, r, m=0, affines=None) -> int:
     r"""Compute the number of columns in the operator matrix :math:`\Ohat` in
     the Operator Inference least-squares problem. This is also the number of
diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 3a93047..d88f8ef 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -18,7 +18,7 @@ import scipy.sparse as sparse
 
 from .. import errors, utils
 from ..operators import _utils as oputils
-from ._base import SolverTemplate, _require_trained
+from ._base import SolverTemplate, _require_trained, _reset_if_rejected
 
 
 def _symmetrize(A):
@@ -516,8 +516,8 @@ class L2DecoupledSolver(L2Solver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.r,)):
+    def _check_regularizer_shape(self, reg):
+        if (shape1 := reg.shape) != (shape2 := (self.r,)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (r,)"
             )
@@ -540,9 +540,9 @@ class L2DecoupledSolver(L2Solver):
                 raise ValueError(
                     "regularization constants must be nonnegative"
                 )
-        self.__regs = regs
         if self.r is not None and regs is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(regs)
+        self.__regs = regs
 
     # Main methods ------------------------------------------------------------
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
@@ -559,7 +559,8 @@ class L2DecoupledSolver(L2Solver):
         """
         L2Solver.fit(self, data_matrix, lhs_matrix)
         if self.regularizer is not None:
-            self._check_regularizer_shape()
+            with _reset_if_rejected(self):
+                self._check_regularizer_shape(self.regularizer)
         return self
 
     def posterior(self):
@@ -755,8 +756,8 @@ class TikhonovSolver(_BaseRegularizedSolver):
             [SolverTemplate.__str__(self), f"regularizer: {regstr}", spstr]
         )
 
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.d, self.d)):
+    def _check_regularizer_shape(self, reg):
+        if (shape1 := reg.shape) != (shape2 := (self.d, self.d)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (d, d)"
             )
@@ -784,10 +785,10 @@ class TikhonovSolver(_BaseRegularizedSolver):
                     )
                 G = np.diag(G)
 
-        self.__reg = G
-
         if self.d is not None and G is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(G)
+
+        self.__reg = G
 
     @classmethod
     def get_operator_regularizer(
@@ -933,7 +934,8 @@ class TikhonovSolver(_BaseRegularizedSolver):
         """
         _BaseRegularizedSolver.fit(self, data_matrix, lhs_matrix)
         if self.regularizer is not None:
-            self._check_regularizer_shape()
+            with _reset_if_rejected(self):
+                self._check_regularizer_shape(self.regularizer)
         D, Z = self.data_matrix, self.lhs_matrix
 
         # Pad lhs matrix for "svd" solve.
@@ -1162,11 +1164,11 @@ class TikhonovDecoupledSolver(TikhonovSolver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
+    def _check_regularizer_shape(self, regs):
         """Check that the regularizer has the correct shape."""
-        if len(self.regularizer) != self.r:
+        if len(regs) != self.r:
             raise ValueError("len(regularizer) != r")
-        for i, G in enumerate(self.regularizer):
+        for i, G in enumerate(regs):
             if (shape1 := G.shape) != (shape2 := (self.d, self.d)):
                 raise ValueError(
                     f"regularizer[{i}].shape = {shape1} != {shape2} = (d, d)"
@@ -1200,9 +1202,9 @@ class TikhonovDecoupledSolver(TikhonovSolver):
                     G = np.diag(G)
                 regs.append(G)
 
-        self.__regs = regs
         if self.d is not None and Gs is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(regs)
+        self.__regs = regs
 
     # Main methods ------------------------------------------------------------
     @_require_trained
diff --git a/src/opinf/lstsq/_total.py b/src/opinf/lstsq/_total.py
index 253954d..e4d59d4 100644
--- a/src/opinf/lstsq/_total.py
+++ b/src/opinf/lstsq/_total.py
@@ -10,7 +10,7 @@ import numpy as np
 import scipy.linalg as la
 
 from .. import utils
-from ._base import SolverTemplate, _require_trained
+from ._base import SolverTemplate, _require_trained, _reset_if_rejected
 
 
 class TotalLeastSquaresSolver(SolverTemplate):
@@ -88,6 +88,12 @@ class TotalLeastSquaresSolver(SolverTemplate):
             If one-dimensional, assume :math:`r = 1`.
         """
         SolverTemplate.fit(self, data_matrix, lhs_matrix)
+        with _reset_if_rejected(self):
+            self._fit()
+        return self
+
+    def _fit(self):
+        """Solve the total least-squares problem."""
         if self.k < self.d + self.r:
             raise ValueError(
                 "total least-squares system is underdetermined, k > d + r "
@@ -109,8 +115,6 @@ class TotalLeastSquaresSolver(SolverTemplate):
         Deltas = -Phi_Zt_Sig_ZT @ np.hstack((Psi_ZZt, Psi_DZt))
         self._norm_of_errors = la.norm(Deltas)
 
-        return self
-
     @_require_trained
     def solve(self) -> np.ndarray:
         r"""Return the total least-squares solution to the Operator Inference
diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 2aee0b5..b2e4c2a 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -11,7 +11,7 @@ import numpy as np
 import scipy.linalg as la
 
 from .. import errors, utils
-from ._base import SolverTemplate, _require_trained
+from ._base import SolverTemplate, _require_trained, _reset_if_rejected
 
 
 class TruncatedSVDSolver(SolverTemplate):
@@ -133,7 +133,8 @@ class TruncatedSVDSolver(SolverTemplate):
         self._SinvPsiT = PsiT / svals.reshape((-1, 1))
 
         # Reset num_svdmodes.
-        self._set_num_svdmodes()
+        with _reset_if_rejected(self):
+            self._set_num_svdmodes()
 
         return self
 
-- 
2.43.0


From 38310f58a5b13c9f04a7f51d5084f4e38e9f4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 32/59] fix: operators reject states and inputs with the wrong
 number of rows

---
 src/opinf/operators/_nonparametric.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index dda56d7..98ed1df 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -17,10 +17,22 @@ import scipy.linalg as la
 import scipy.sparse as sparse
 import scipy.special as special
 
-from .. import utils
+from .. import errors, utils
 from ._base import OpInfOperator, InputMixin
 
 
+def _check_rows(arr, nrows: int, label: str):
+    """Raise an error if ``arr`` is not one or more ``nrows``-vectors."""
+    shape = np.shape(arr)
+    if nrows == 1 and len(shape) < 2:
+        return  # Scalar, or several one-dimensional vectors.
+    if len(shape) == 0 or shape[0] != nrows:
+        raise errors.DimensionalityError(
+            f"{label} of shape {shape} not aligned with "
+            f"operator, expected {nrows} rows"
+        )
+
+
 # No dependence on state or input =============================================
 class ConstantOperator(OpInfOperator):
     r"""Constant operator :math:`\Ophat_{\ell}(\qhat,\u) = \chat \in \RR^{r}`.
@@ -276,6 +288,7 @@ class LinearOperator(OpInfOperator):
         out : (r,) ndarray
             Application :math:`\Ahat\qhat`.
         """
+        _check_rows(state, self.entries.shape[1], "state")
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state  # r = 1.
         return self.entries @ state  # r > 1.
@@ -490,6 +503,7 @@ class QuadraticOperator(OpInfOperator):
         out : (r,) ndarray
             Application :math:`\Hhat[\qhat\otimes\qhat]`.
         """
+        _check_rows(state, self.entries.shape[0], "state")
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**2  # r = 1
         return self.entries @ np.prod(state[self._mask], axis=1)
@@ -975,6 +989,7 @@ class CubicOperator(OpInfOperator):
         out : (r,) ndarray
             The evaluation :math:`\Ghat[\qhat\otimes\qhat\otimes\qhat]`.
         """
+        _check_rows(state, self.entries.shape[0], "state")
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**3  # r = 1.
         return self.entries @ np.prod(state[self._mask], axis=1)
@@ -1450,6 +1465,7 @@ class QuarticOperator(OpInfOperator):
         out : (r,) ndarray
             The evaluation :math:`\Ghat[\qhat\otimes\qhat\otimes\qhat]`.
         """
+        _check_rows(state, self.entries.shape[0], "state")
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**4  # r = 1.
         return self.entries @ np.prod(state[self._mask], axis=1)
@@ -2091,6 +2107,10 @@ class StateInputOperator(OpInfOperator, InputMixin):
         out : (r,) ndarray
             The evaluation :math:`\Nhat[\u\otimes\qhat]`.
         """
+        r, rm = self.entries.shape
+        _check_rows(state, r, "state")
+        _check_rows(input_, rm // r, "input_")
+
         # Determine if arguments represent one snapshot or several.
         multi = (sdim := np.ndim(state)) > 1
         multi |= (idim := np.ndim(input_)) > 1
-- 
2.43.0


From bd6558828387d61ac68768b776dccb64df007120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 33/59] fix: affine operators reject the wrong number of
 coefficients

---
 src/opinf/operators/_affine.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index f4d9193..286aff3 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -233,6 +233,19 @@ class _AffineOperator(ParametricOpInfOperator):
         return "\n".join(lines)
 
     # Evaluation --------------------------------------------------------------
+    def _evaluate_coeffs(self, parameter) -> list:
+        """Evaluate the affine coefficient functions, one for each term."""
+        theta_mus = self.coeffs(parameter)
+        if self.nterms == 1 and np.isscalar(theta_mus):
+            theta_mus = [theta_mus]
+        theta_mus = list(theta_mus)
+        if (n_coeffs := len(theta_mus)) != self.nterms:
+            raise ValueError(
+                f"coeffs() returned {n_coeffs} affine coefficients, "
+                f"expected nterms = {self.nterms}"
+            )
+        return theta_mus
+
     @utils.requires("entries")
     def evaluate(self, parameter):
         r"""Evaluate the operator at the given parameter value.
@@ -250,9 +263,7 @@ class _AffineOperator(ParametricOpInfOperator):
         if self.parameter_dimension is None:
             self._set_parameter_dimension_from_values([parameter])
         self._check_parametervalue_dimension(parameter)
-        theta_mus = self.coeffs(parameter)
-        if self.nterms == 1 and np.isscalar(theta_mus):
-            theta_mus = [theta_mus]
+        theta_mus = self._evaluate_coeffs(parameter)
         entries = sum([tm * A for tm, A in zip(theta_mus, self.entries)])
         return self._OperatorClass(entries)
 
@@ -408,9 +419,7 @@ class _AffineOperator(ParametricOpInfOperator):
         blockcolumns = []
         for mu, Q, U in zip(parameters, states, inputs):
             Di = self._OperatorClass.datablock(Q, U)
-            theta_mus = self.coeffs(mu)
-            if self.nterms == 1 and np.isscalar(theta_mus):
-                theta_mus = [theta_mus]
+            theta_mus = self._evaluate_coeffs(mu)
             blockcolumns.append(np.vstack([theta * Di for theta in theta_mus]))
         return np.hstack(blockcolumns)
 
-- 
2.43.0


From 19f7b56cce2d130f3de5b0f0f0a45d40643e7a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 34/59] fix: interpolatory operator entries are restored if the
 interpolation fails

---
 src/opinf/operators/_interpolate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index e25cfdc..61792e8 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -232,11 +232,17 @@ class _InterpOperator(ParametricOpInfOperator):
                 f"!= len(entries) = {n_arrays}"
             )
 
+        previous = self.entries
         ParametricOpInfOperator.set_entries(
             self,
             np.array([self._OperatorClass(A).entries for A in entries]),
         )
-        self.set_interpolator(self.__InterpolatorClass)
+        try:
+            self.set_interpolator(self.__InterpolatorClass)
+        except Exception:
+            # Keep the entries consistent with the interpolator.
+            ParametricOpInfOperator.set_entries(self, previous)
+            raise
 
     # Interpolation -----------------------------------------------------------
     @property
-- 
2.43.0


From e6062abf0996f7130d915ad6cb05202cfbdcabbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 35/59] fix: screen sparse operator entries for NaN and Inf

---
 src/opinf/operators/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 402823a..b30140d 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -556,7 +556,8 @@ class OpInfOperator(OperatorTemplate):
     def _validate_entries(entries):
         """Ensure argument is a NumPy array and screen for NaN, Inf entries."""
         if sparse.issparse(entries):
-            return
+            # Screen the stored entries, all others are zero.
+            entries = entries.tocoo().data
         if not isinstance(entries, np.ndarray):
             raise TypeError(
                 "operator entries must be NumPy or scipy.sparse array"
-- 
2.43.0


From 3ba5f3dee5f63ccd3dcb6d752ebf1ceb970befa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 36/59] fix: rejected operators leave the model unchanged

---
 src/opinf/models/mono/_base.py       | 11 +++++++----
 src/opinf/models/mono/_parametric.py | 10 ++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index 0bb5a77..948e143 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -79,7 +79,7 @@ class _Model(abc.ABC):
 
         toinfer = []  # Operators to infer (no entries yet).
         known = []  # Operators whose entries are set.
-        self._has_inputs = False  # Whether any operators use inputs.
+        has_inputs = False  # Whether any operators use inputs.
         ops = list(ops)
         for i in range(len(ops)):
             op = ops[i]
@@ -99,12 +99,15 @@ class _Model(abc.ABC):
             else:
                 known.append(i)
             if oputils.has_inputs(op):
-                self._has_inputs = True
+                has_inputs = True
         self._check_operator_types_unique([ops[i] for i in toinfer])
 
         # Store attributes.
-        self.__r = self._check_state_dimension_consistency(ops)
-        self.__m = self._check_input_dimension_consistency(ops)
+        r = self._check_state_dimension_consistency(ops)
+        m = self._check_input_dimension_consistency(ops)
+        self._has_inputs = has_inputs
+        self.__r = r
+        self.__m = m
         self.__operators = ops
         self._indices_of_operators_to_infer = toinfer
         self._indices_of_known_operators = known
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 6fdb2ba..b6a5f36 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -94,6 +94,16 @@ class _ParametricModel(_OpInfModel):
     @operators.setter
     def operators(self, ops):
         """Set the operators."""
+        previous = self.__dict__.copy()
+        try:
+            self._set_operators(ops)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(previous)
+            raise
+
+    def _set_operators(self, ops):
+        """Set the operators and synchronize their parameter dimensions."""
         _OpInfModel.operators.fset(self, ops)
 
         # Check at least one operator is parametric.
-- 
2.43.0


From 517431d6ab617a1febffb07c39ffca6510f21ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 37/59] fix: parametric discrete models reject extra input
 trajectories

---
 src/opinf/models/mono/_parametric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index b6a5f36..313c9fb 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -605,6 +605,10 @@ class _ParametricDiscreteMixin:
             nextstates = [Q[:, 1:] for Q in states]
             states = [Q[:, :-1] for Q in states]
         if inputs is not None:
+            if (n_inputs := len(inputs)) != (n_states := len(states)):
+                raise errors.DimensionalityError(
+                    f"len(inputs) = {n_inputs} != {n_states} = len(states)"
+                )
             inputs = [U[..., : Q.shape[1]] for U, Q in zip(inputs, states)]
         return super().fit(parameters, states, nextstates, inputs)
 
-- 
2.43.0


From 4fb9bd893fdcf79ce3d9f744b49ce163d4d11d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 38/59] fix: ROM training data with misaligned trajectories is
 rejected

---
 src/opinf/roms/_base.py | 45 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 5d26230..12f4e43 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -333,6 +333,41 @@ class _BaseROM(abc.ABC):
                 inputs = [inputs]
         return states, lhs, inputs
 
+    def _align_training_data(self, states, lhs, inputs):
+        """Ensure there is left-hand side data and input data for each snapshot
+        of each trajectory (extra inputs are removed for discrete models).
+        """
+        for dataset, label in ((lhs, "lhs"), (inputs, "inputs")):
+            if dataset is not None and len(dataset) != len(states):
+                raise errors.DimensionalityError(
+                    f"{len(states)} state trajectories but "
+                    f"{len(dataset)} {label} trajectories detected"
+                )
+
+        if lhs is not None:
+            for ell, (Q, Z) in enumerate(zip(states, lhs)):
+                if Z.shape[-1] != Q.shape[-1]:
+                    raise errors.DimensionalityError(
+                        f"states[{ell}] and lhs[{ell}] not aligned "
+                        f"({Q.shape[-1]} != {Z.shape[-1]} columns)"
+                    )
+
+        if inputs is not None and self.model._has_inputs:
+            ks = [Q.shape[-1] for Q in states]
+            if not self._iscontinuous:
+                if lhs is None:
+                    ks = [k - 1 for k in ks]
+                else:
+                    inputs = [U[..., :k] for U, k in zip(inputs, ks)]
+            for ell, (U, k) in enumerate(zip(inputs, ks)):
+                if (n := U.shape[-1]) < k or (n > k and self._iscontinuous):
+                    raise errors.DimensionalityError(
+                        f"inputs[{ell}] has {n} columns but "
+                        f"{k} are required for the training data"
+                    )
+
+        return inputs
+
     def _process_training_data(
         self,
         states,
@@ -509,6 +544,7 @@ class _BaseROM(abc.ABC):
                 states, lhs, inputs
             )
 
+        inputs = self._align_training_data(states, lhs, inputs)
         states, lhs, inputs = self._process_training_data(
             states=states,
             lhs=lhs,
@@ -657,6 +693,10 @@ class _BaseROM(abc.ABC):
         # Validate arguments.
         if np.isscalar(train_time_domains[0]):
             train_time_domains = [train_time_domains] * len(states)
+        if len(train_time_domains) != len(states):
+            raise errors.DimensionalityError(
+                "train_time_domains and states not aligned"
+            )
         for t, Q in zip(train_time_domains, states):
             if t.shape != (Q.shape[1],):
                 raise errors.DimensionalityError(
@@ -669,6 +709,11 @@ class _BaseROM(abc.ABC):
                 raise TypeError(
                     "argument 'input_functions' must be sequence of callables"
                 )
+            if len(input_functions) != len(states):
+                raise errors.DimensionalityError(
+                    f"{len(states)} state trajectories but "
+                    f"{len(input_functions)} input_functions detected"
+                )
             inputs = [  # evaluate the inputs over the time domain.
                 np.column_stack([u(tt) for tt in t])
                 for u, t in zip(input_functions, train_time_domains)
-- 
2.43.0


From 49fe4b7c22bc7e3ca7c42d75b183254382995de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 39/59] fix: BasisMulti does not overwrite the dimensions of
 bases with entries

---
 src/opinf/basis/_multi.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index a4e59bf..544ee36 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -10,6 +10,7 @@ import numpy as np
 
 from .. import errors, utils
 from ._base import BasisTemplate
+from ._linear import LinearBasis
 
 
 class BasisMulti:
@@ -61,8 +62,21 @@ class BasisMulti:
         if full_variable_sizes is not None:
             if len(full_variable_sizes) != len(bases):
                 raise ValueError("len(full_variable_sizes) != len(bases)")
-            for basis, ni in zip(bases, full_variable_sizes):
-                BasisTemplate.full_state_dimension.fset(basis, ni)
+            self._set_full_variable_sizes(full_variable_sizes)
+
+    def _set_full_variable_sizes(self, sizes):
+        """Set the ``full_state_dimension`` of each basis."""
+        for i, (basis, ni) in enumerate(zip(self.bases, sizes)):
+            # The dimension of a LinearBasis is fixed by its entries.
+            if isinstance(basis, LinearBasis) and (
+                basis.full_state_dimension not in (None, ni)
+            ):
+                raise errors.DimensionalityError(
+                    f"bases[{i}].full_state_dimension = "
+                    f"{basis.full_state_dimension} != {ni}"
+                )
+        for basis, ni in zip(self.bases, sizes):
+            BasisTemplate.full_state_dimension.fset(basis, ni)
 
     # Properties --------------------------------------------------------------
     @property
@@ -323,8 +337,7 @@ class BasisMulti:
                     "len(states) must be evenly divisible by "
                     f"the number of variables n_q = {self.num_variables}"
                 )
-            for basis in self.bases:
-                BasisTemplate.full_state_dimension.fset(basis, nx)
+            self._set_full_variable_sizes([nx] * self.num_variables)
 
         self._check_shape_full(states)
         for basis, Q in zip(self.bases, self.split(states)):
-- 
2.43.0


From 96f1946cfea1e468bd9e910058b8fdf5da66ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 40/59] fix: negative variable indices in get_var() select the
 corresponding variable

---
 src/opinf/basis/_multi.py | 1 +
 src/opinf/pre/_multi.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index 544ee36..1a179cd 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -266,6 +266,7 @@ class BasisMulti:
         dimsum = np.cumsum((0,) + ds)
 
         if varindex is not None:
+            varindex = range(self.num_variables)[varindex]
             return slice(dimsum[varindex], dimsum[varindex + 1])
 
         return [
diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 8bc0ab1..cb4c4e2 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -504,6 +504,7 @@ class TransformerMulti:
         """
         dimsum = np.cumsum((0,) + self.variable_sizes)
         if varindex is not None:
+            varindex = range(self.num_variables)[varindex]
             return slice(dimsum[varindex], dimsum[varindex + 1])
 
         return tuple(
-- 
2.43.0


From d88f6ec3251c4ab21b6abbd73d36d1a97039dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 41/59] fix: ShiftTransformer.transform_ddts() checks the shape
 of the data

---
 src/opinf/pre/_shiftscale.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 2686bd6..19922ec 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -301,6 +301,7 @@ class ShiftTransformer(TransformerTemplate):
         ValueError
             If the ``ddts`` do not align with the :attr:`state_dimension`.
         """
+        self._check_shape(ddts)
         return ddts if inplace else ddts.copy()
 
     def inverse_transform(self, states_shifted, inplace=False, locs=None):
-- 
2.43.0


From 977eb7e5e2d46cafdbea437b1849671f14cdc3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:47 +0000
Subject: [PATCH 42/59] fix: PolynomialOperator rejects entries with NaN, Inf,
 or the wrong dimensions

---
 src/opinf/operators/_polynomial_operator.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 753b334..73c0dba 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -64,6 +64,26 @@ class PolynomialOperator(OpInfOperator):
 
         super().__init__(entries=entries)
 
+    def set_entries(self, entries):
+        r"""Set the :attr:`entries` attribute.
+
+        Parameters
+        ----------
+        entries : (r,) or (r, d) ndarray
+            Operator matrix, where :math:`d` is the number of columns for the
+            :attr:`polynomial_order`, see :meth:`operator_dimension`.
+        """
+        if np.isscalar(entries):
+            entries = np.atleast_2d(entries)
+        self._validate_entries(entries)
+
+        r = entries.shape[0]
+        d = self.operator_dimension(r)
+        if entries.shape != (r, d) and not (entries.shape == (r,) and d == 1):
+            raise ValueError("invalid PolynomialOperator entries dimensions")
+
+        OpInfOperator.set_entries(self, entries)
+
     def __eq__(self, other) -> bool:
         """Two operators are equal if they have the same polynomial order and
         the same entries.
-- 
2.43.0


From 4b16bb77e6dd7787a893856a83338b2004dfee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 43/59] fix: discard the data of a solver when its
 decomposition fails

---
 src/opinf/lstsq/_tikhonov.py | 3 ++-
 src/opinf/lstsq/_tsvd.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index d88f8ef..529c978 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -304,7 +304,8 @@ class L2Solver(_BaseRegularizedSolver):
         """
         _BaseRegularizedSolver.fit(self, data_matrix, lhs_matrix)
 
-        Phi, svals, PsiT = la.svd(self.data_matrix, **self.options)
+        with _reset_if_rejected(self):
+            Phi, svals, PsiT = la.svd(self.data_matrix, **self.options)
         self._svals = svals
         self._ZPhi = self.lhs_matrix @ Phi
         self._PsiT = PsiT
diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index b2e4c2a..0ee125a 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -127,7 +127,8 @@ class TruncatedSVDSolver(SolverTemplate):
         """Save data matrices and prepare to solve the regression problem."""
         SolverTemplate.fit(self, data_matrix, lhs_matrix)
 
-        Phi, svals, PsiT = la.svd(self.data_matrix, **self.options)
+        with _reset_if_rejected(self):
+            Phi, svals, PsiT = la.svd(self.data_matrix, **self.options)
         self._svals = svals
         self._ZPhi = self.lhs_matrix @ Phi
         self._SinvPsiT = PsiT / svals.reshape((-1, 1))
-- 
2.43.0


From 76527f7dcafbfec8f935670c8619a1f39f803833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 44/59] fix: reject array-valued scale_ and shift_ of scalar
 scalings

---
 src/opinf/pre/_shiftscale.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 19922ec..b9ebcfd 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -945,6 +945,8 @@ class ShiftScaleTransformer(TransformerTemplate):
                 self.state_dimension = alpha.shape[0]
             if np.shape(alpha) != ((n := self.state_dimension),):
                 raise ValueError(f"expected scale_ to be ({n:d},) ndarray")
+        elif np.ndim(alpha) != 0:
+            raise ValueError("expected scalar scale_ (byrow=False)")
         self.__alpha = alpha
 
     @property
@@ -966,6 +968,8 @@ class ShiftScaleTransformer(TransformerTemplate):
                 self.state_dimension = beta.shape[0]
             if np.shape(beta) != ((n := self.state_dimension),):
                 raise ValueError(f"expected shift_ to be ({n:d},) ndarray")
+        elif np.ndim(beta) != 0:
+            raise ValueError("expected scalar shift_ (byrow=False)")
         self.__beta = beta
 
     def __eq__(self, other) -> bool:
-- 
2.43.0


From 03699b74c3c2b1b38214b891cf9c809ef3b9cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 45/59] fix: verify the shapes of linear basis entries and
 weights

---
 src/opinf/basis/_linear.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 954e086..ed6f7f0 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -83,6 +83,8 @@ class LinearBasis(BasisTemplate):
             return
 
         # Set the entries.
+        if np.ndim(entries) != 2:
+            raise ValueError("expected two-dimensional entries")
         self.__entries = entries
         BasisTemplate.full_state_dimension.fset(self, entries.shape[0])
         BasisTemplate.reduced_state_dimension.fset(self, entries.shape[1])
@@ -94,6 +96,11 @@ class LinearBasis(BasisTemplate):
                 weights = sparse.dia_array(([weights], [0]), shape=(n, n))
             elif dim != 2:
                 raise ValueError("expected one- or two-dimensional weights")
+            if weights.shape != (n := entries.shape[0], n):
+                raise errors.DimensionalityError(
+                    "entries and weights not aligned "
+                    f"(weights.shape = {weights.shape} != {(n, n)})"
+                )
         self.__weights = weights
 
         # Verify orthogonality if desired.
-- 
2.43.0


From 379f15a5c42052984faeff7d9968d88eb033fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 46/59] fix: verify the number of singular values and vectors
 in PODBasis.from_svd()

---
 src/opinf/basis/_pod.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 46ce341..7e280ea 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -345,6 +345,17 @@ class PODBasis(LinearBasis):
         -----
         See :class:`PODBasis` for details on other arguments.
         """
+        if np.size(svdvals) < (r := leftvecs.shape[1]):
+            raise errors.DimensionalityError(
+                f"{r} left singular vectors but only "
+                f"{np.size(svdvals)} singular values provided"
+            )
+        if rightvecs is not None and rightvecs.shape[1] != r:
+            raise errors.DimensionalityError(
+                f"{r} left singular vectors but "
+                f"{rightvecs.shape[1]} right singular vectors provided"
+            )
+
         # Default dimensionality criterion: use all left singular vectors.
         if all(
             arg is None
-- 
2.43.0


From 736261c7ccf20e0d40c4b62e24ab36175bc1093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 47/59] fix: do not keep stale operators when a rejected ROM
 fit has recalibrated the encoding

---
 src/opinf/roms/_base.py  | 40 +++++++++++++++++++++-------------------
 src/opinf/roms/_bayes.py |  7 +++++++
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 12f4e43..e08619b 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -545,27 +545,29 @@ class _BaseROM(abc.ABC):
             )
 
         inputs = self._align_training_data(states, lhs, inputs)
-        states, lhs, inputs = self._process_training_data(
-            states=states,
-            lhs=lhs,
-            inputs=inputs,
-            fit_transformer=fit_transformer,
-            fit_basis=fit_basis,
-        )
+        try:
+            states, lhs, inputs = self._process_training_data(
+                states=states,
+                lhs=lhs,
+                inputs=inputs,
+                fit_transformer=fit_transformer,
+                fit_basis=fit_basis,
+            )
 
-        if parameters is None:
-            inputdata = None if inputs is None else np.hstack(inputs)
-            if solver_only:
-                self.model._fit_solver(
-                    np.hstack(states), np.hstack(lhs), inputdata
-                )
-            else:
-                self.model.fit(np.hstack(states), np.hstack(lhs), inputdata)
-        else:
-            if solver_only:
-                self.model._fit_solver(parameters, states, lhs, inputs)
+            fit = self.model._fit_solver if solver_only else self.model.fit
+            if parameters is None:
+                inputdata = None if inputs is None else np.hstack(inputs)
+                fit(np.hstack(states), np.hstack(lhs), inputdata)
             else:
-                self.model.fit(parameters, states, lhs, inputs)
+                fit(parameters, states, lhs, inputs)
+        except Exception:
+            # If the transformer or the basis may have been recalibrated, the
+            # previously inferred operators are no longer valid.
+            if (fit_transformer and self.transformer is not None) or (
+                fit_basis and self.basis is not None
+            ):
+                self.model._clear()
+            raise
 
         return states
 
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 855f6f8..cd4ad54 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -201,6 +201,10 @@ class _BayesianROMMixin:
         self.__posterior = None
         self._validate_model_solver(self.model)
 
+    def _reset_posterior(self):
+        """Discard the operator posterior in preparation for fitting."""
+        self.__posterior = None
+
     @staticmethod
     def _validate_model_solver(model):
         if modutils.is_interpolatory(model):
@@ -293,6 +297,7 @@ class _BayesianROMMixin:
             regularizer_factory = _identity
 
         # Fit the model for the first time.
+        self._reset_posterior()
         if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
         self._fit_model(
@@ -445,6 +450,7 @@ class _BayesianROMMixin:
             regularizer_factory = _identity
 
         # Fit the model for the first time.
+        self._reset_posterior()
         if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
         states_ = self._fit_model(
@@ -625,6 +631,7 @@ class BayesianROM(ROM, _BayesianROMMixin):
         fit_transformer: bool = True,
         fit_basis: bool = True,
     ):
+        self._reset_posterior()
         ROM.fit(
             self,
             states=states,
-- 
2.43.0


From 47a665b42e33db8cd5431f2cf44ac1a526a1a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 48/59] fix: BayesianROM.fit_regselect_continuous() verifies
 the number of time domains and input functions

---
 src/opinf/roms/_bayes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index cd4ad54..4e79740 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -273,6 +273,10 @@ class _BayesianROMMixin:
         # Validate arguments.
         if np.isscalar(train_time_domains[0]):
             train_time_domains = [train_time_domains] * len(states)
+        if len(train_time_domains) != len(states):
+            raise errors.DimensionalityError(
+                "train_time_domains and states not aligned"
+            )
         for t, Q in zip(train_time_domains, states):
             if t.shape != (Q.shape[1],):
                 raise errors.DimensionalityError(
@@ -285,6 +289,11 @@ class _BayesianROMMixin:
                 raise TypeError(
                     "argument 'input_functions' must be sequence of callables"
                 )
+            if len(input_functions) != len(states):
+                raise errors.DimensionalityError(
+                    f"{len(states)} state trajectories but "
+                    f"{len(input_functions)} input_functions detected"
+                )
             inputs = [  # evaluate the inputs over the time domain.
                 np.column_stack([u(tt) for tt in t])
                 for u, t in zip(input_functions, train_time_domains)
-- 
2.43.0


From b69c10a47f1c3c94922fc56b77f0b9cdeedb4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 49/59] fix: non-finite posterior draws are unstable

---
 src/opinf/roms/_bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 4e79740..d5650e3 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -328,7 +328,7 @@ class _BayesianROMMixin:
 
         def unstable(_Q, ell, size):
             """Return ``True`` if the solution is unstable."""
-            if _Q.shape[-1] != size:
+            if _Q.shape[-1] != size or not np.isfinite(_Q).all():
                 return True
             return np.abs(_Q - shifts[ell]).max() > limits[ell]
 
-- 
2.43.0


From 59ac8b14fbd08a8ef6e7bc24fbd367aae632d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:31 +0000
Subject: [PATCH 50/59] fix: TimedBlock measures wall-clock time as documented

---
 src/opinf/utils/_timer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index af7e39f..880149a 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -139,7 +139,7 @@ class TimedBlock:
             sys.stdout = self.__new_buffer = io.StringIO()
         if self.verbose:
             print(f"{self.message}...", end=self.__front, flush=True)
-        self._tic = time.process_time()
+        self._tic = time.perf_counter()
         if self.timelimit is not None:
             signal.signal(signal.SIGALRM, self._signal_handler)
             signal.alarm(self.timelimit)
@@ -147,7 +147,7 @@ class TimedBlock:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Calculate and report the elapsed time."""
-        self._toc = time.process_time()
+        self._toc = time.perf_counter()
         if self.timelimit is not None:
             signal.alarm(0)
         elapsed = self._toc - self._tic
-- 
2.43.0


From 3fdff202f37f7ce83326854618e66f5f5edb5826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 51/59] fix: locate the estimator's snapshots column-wise in
 derivative verification

---
 src/opinf/ddt/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index bca7c1a..afbe094 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -283,7 +283,7 @@ class DerivativeEstimatorTemplate(abc.ABC):
 
             # Use new states to infer the indices of the returns.
             start = np.argmin(
-                la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
+                la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
             )
             s = slice(start, start + Q_est.shape[1])
             truth = dQdt[:, s]
-- 
2.43.0


From 919874681369ae6b09194ded3c9b1171ba847925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 52/59] fix: restore the standard output that was in place when
 the timed block was entered

---
 src/opinf/utils/_timer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index 880149a..19c1d8f 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -104,7 +104,7 @@ class TimedBlock:
         """Store print/log message."""
         if not message:
             message = ""
-        self.__original_stdout = sys.stdout
+        self.__original_stdout = None
         self.__new_buffer = None
         self.__front = "\n" if message.endswith("\n") else ""
         self.message = "" if message is None else message.rstrip()
@@ -136,6 +136,7 @@ class TimedBlock:
     def __enter__(self):
         """Print the message and record the current time."""
         if self.rebuffer:
+            self.__original_stdout = sys.stdout
             sys.stdout = self.__new_buffer = io.StringIO()
         if self.verbose:
             print(f"{self.message}...", end=self.__front, flush=True)
-- 
2.43.0


From 7ac78a939f9e3c4d978df0fb5700f66ccd92fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 53/59] fix: simulate through the whole test time when
 selecting the regularization

---
 src/opinf/roms/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index e08619b..a5afc43 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -764,7 +764,7 @@ class _BaseROM(abc.ABC):
                 t_test = t_train[-1] + np.linspace(
                     dt,
                     dt + test_time_length,
-                    int(test_time_length / dt),
+                    int(test_time_length / dt) + 1,
                 )
                 time_domains.append(np.concatenate(((t_train, t_test))))
         else:
-- 
2.43.0


From c672962aaf2e26ac5f1e29ed4b6141f6abedd648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 54/59] fix: restore the time domain when derivative
 verification fails

---
 src/opinf/ddt/_base.py          | 46 +++++++++++++++++----------------
 src/opinf/ddt/_interpolation.py |  7 ++---
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index afbe094..f979e1d 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -271,28 +271,31 @@ class DerivativeEstimatorTemplate(abc.ABC):
         estimation_errors["dts"] = dts
 
         t_base = np.arange(1001)
-        for dt in dts:
-            # Construct test cases.
-            t = 1 + (dt * t_base)
-            Q = np.array([test[1](t) for test in self.__tests])
-            dQdt = np.array([test[2](t) for test in self.__tests])
-            self.__t = t
-
-            # Call the derivative estimator.
-            Q_est, dQdt_est = self.estimate(Q, None)
-
-            # Use new states to infer the indices of the returns.
-            start = np.argmin(
-                la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
-            )
-            s = slice(start, start + Q_est.shape[1])
-            truth = dQdt[:, s]
+        try:
+            for dt in dts:
+                # Construct test cases.
+                t = 1 + (dt * t_base)
+                Q = np.array([test[1](t) for test in self.__tests])
+                dQdt = np.array([test[2](t) for test in self.__tests])
+                self.__t = t
+
+                # Call the derivative estimator.
+                Q_est, dQdt_est = self.estimate(Q, None)
+
+                # Use new states to infer the indices of the returns.
+                start = np.argmin(
+                    la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
+                )
+                s = slice(start, start + Q_est.shape[1])
+                truth = dQdt[:, s]
 
-            # Calculate the relative error of the time derivative estimate.
-            denom = la.norm(truth, axis=1)
-            errs = la.norm(dQdt_est - truth, axis=1) / denom
-            for test, err in zip(self.__tests, errs):
-                estimation_errors[test[0]].append(err)
+                # Calculate the relative error of the time derivative estimate.
+                denom = la.norm(truth, axis=1)
+                errs = la.norm(dQdt_est - truth, axis=1) / denom
+                for test, err in zip(self.__tests, errs):
+                    estimation_errors[test[0]].append(err)
+        finally:
+            self.__t = time_domain  # Restore original time domain.
 
         if plot:
             _, ax = plt.subplots(1, 1)
@@ -325,6 +328,5 @@ class DerivativeEstimatorTemplate(abc.ABC):
                 for dt, err in zip(dts, estimation_errors[name]):
                     print(f"dt = {dt:.1e}:\terror = {err:.4e}")
 
-        self.__t = time_domain  # Restore original time domain.
         if return_errors:
             return estimation_errors
diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index a6177c1..7390c3e 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -238,6 +238,7 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
     def verify(self, plot=False, return_errors=False):
         new_time_domain = self.__t2
         self.__t2 = None
-        out = super().verify(plot, return_errors)
-        self.__t2 = new_time_domain
-        return out
+        try:
+            return super().verify(plot, return_errors)
+        finally:
+            self.__t2 = new_time_domain
-- 
2.43.0


From 50e0001ae8712b09bd212aabaab3ff5877e3a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 55/59] fix: operator verification accepts sparse Jacobians

---
 src/opinf/operators/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index b30140d..a908d8a 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -332,6 +332,8 @@ class OperatorTemplate(abc.ABC):
         def _finite_difference_check(f, df, x, hs=None):
             """Compare analytical and numerical derivatives."""
             dfx = df(x)
+            if sparse.issparse(dfx):
+                dfx = dfx.toarray()
             if hs is None:
                 hs = np.logspace(-10, -1, 10)[::-1]
             return hs, np.array(
@@ -345,7 +347,9 @@ class OperatorTemplate(abc.ABC):
         else:
             if np.isscalar(out) and out == 0:  # pragma: no cover
                 print("jacobian() = 0")
-            elif not isinstance(out, np.ndarray) or out.shape != (
+            elif not (
+                isinstance(out, np.ndarray) or sparse.issparse(out)
+            ) or out.shape != (
                 r,
                 r,
             ):  # pragma: no cover
-- 
2.43.0


From ff7a1f02b8e4372fa0d6a2d2d8859dea596029a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:27 +0000
Subject: [PATCH 56/59] fix: transform integer-typed snapshots out of place
 instead of raising a casting error

---
 src/opinf/pre/_base.py       |  5 +++++
 src/opinf/pre/_multi.py      | 12 +++++++-----
 src/opinf/pre/_shiftscale.py | 24 ++++++++++++++----------
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/opinf/pre/_base.py b/src/opinf/pre/_base.py
index 54f26e0..0af01a6 100644
--- a/src/opinf/pre/_base.py
+++ b/src/opinf/pre/_base.py
@@ -18,6 +18,11 @@ requires_trained = utils.requires2(
 )
 
 
+def _float_copy(array):
+    """Copy an array, promoting integers to floats."""
+    return np.array(array, dtype=np.result_type(array, 1.0))
+
+
 class TransformerTemplate(abc.ABC):
     """Template class for transformers.
 
diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index cb4c4e2..9c72413 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -11,7 +11,7 @@ import warnings
 import numpy as np
 
 from .. import errors, utils
-from ._base import TransformerTemplate, requires_trained
+from ._base import TransformerTemplate, requires_trained, _float_copy
 
 
 # Horizontal joining ==========================================================
@@ -226,7 +226,7 @@ class NullTransformer(TransformerTemplate):
             State snapshots, or a copy of them if ``inplace=False``.
         """
         self.fit(states)
-        return states if inplace else states.copy()
+        return states if inplace else _float_copy(states)
 
     def transform(self, states, inplace: bool = False):
         """Do nothing; this transformation does not affect the states.
@@ -250,7 +250,7 @@ class NullTransformer(TransformerTemplate):
             If the ``states`` do not align with the :attr:`state_dimension`.
         """
         self._check_shape(states)
-        return states if inplace else states.copy()
+        return states if inplace else _float_copy(states)
 
     def transform_ddts(self, ddts, inplace: bool = True):
         r"""Do nothing; this transformation does not affect derivatives.
@@ -275,7 +275,7 @@ class NullTransformer(TransformerTemplate):
             If the ``states`` do not align with the :attr:`state_dimension`.
         """
         self._check_shape(ddts)
-        return ddts if inplace else ddts.copy()
+        return ddts if inplace else _float_copy(ddts)
 
     def inverse_transform(self, states_transformed, inplace=False, locs=None):
         """Do nothing; this transformation does not affect the states.
@@ -308,7 +308,9 @@ class NullTransformer(TransformerTemplate):
             locs = self._check_locs(locs, states_transformed)
         else:
             self._check_shape(states_transformed)
-        return states_transformed if inplace else states_transformed.copy()
+        if inplace:
+            return states_transformed
+        return _float_copy(states_transformed)
 
     # Model persistence -------------------------------------------------------
     def save(self, savefile, overwrite=False):
diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index b9ebcfd..c4e7b28 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -14,7 +14,7 @@ import warnings
 import numpy as np
 
 from .. import errors, utils
-from ._base import TransformerTemplate, requires_trained
+from ._base import TransformerTemplate, requires_trained, _float_copy
 
 
 # Functional paradigm =========================================================
@@ -275,7 +275,7 @@ class ShiftTransformer(TransformerTemplate):
             If the ``states`` do not align with the :attr:`state_dimension`.
         """
         self._check_shape(states)
-        Y = states if inplace else states.copy()
+        Y = states if inplace else _float_copy(states)
         Y -= self.reference.reshape((-1, 1)) if Y.ndim > 1 else self.reference
         return Y
 
@@ -302,7 +302,7 @@ class ShiftTransformer(TransformerTemplate):
             If the ``ddts`` do not align with the :attr:`state_dimension`.
         """
         self._check_shape(ddts)
-        return ddts if inplace else ddts.copy()
+        return ddts if inplace else _float_copy(ddts)
 
     def inverse_transform(self, states_shifted, inplace=False, locs=None):
         """Apply the inverse shift.
@@ -338,7 +338,7 @@ class ShiftTransformer(TransformerTemplate):
         else:
             self._check_shape(states_shifted)
 
-        Y = states_shifted if inplace else states_shifted.copy()
+        Y = states_shifted if inplace else _float_copy(states_shifted)
         qbar = self.reference if locs is None else self.reference[locs]
         Y += qbar.reshape((-1, 1)) if Y.ndim > 1 else qbar
 
@@ -546,7 +546,7 @@ class ScaleTransformer(TransformerTemplate):
         """
         self._check_shape(states)
 
-        Y = states if inplace else states.copy()
+        Y = states if inplace else _float_copy(states)
         _flip = self.byrow and Y.ndim > 1
         Y *= self.scaler.reshape((-1, 1)) if _flip else self.scaler
 
@@ -622,7 +622,7 @@ class ScaleTransformer(TransformerTemplate):
         else:
             self._check_shape(states_scaled)
 
-        Y = states_scaled if inplace else states_scaled.copy()
+        Y = states_scaled if inplace else _float_copy(states_scaled)
         _flip = self.byrow and Y.ndim > 1
         Y /= scaler_.reshape((-1, 1)) if _flip else scaler_
 
@@ -1052,7 +1052,7 @@ class ShiftScaleTransformer(TransformerTemplate):
             raise ValueError("2D array required to fit transformer")
         self.state_dimension = states.shape[0]
 
-        Y = states if inplace else states.copy()
+        Y = states if inplace else _float_copy(states)
         axis = 1 if self.byrow else None
 
         # Record statistics of the training data.
@@ -1177,7 +1177,7 @@ class ShiftScaleTransformer(TransformerTemplate):
         """
         self._check_is_trained()
         self._check_shape(states)
-        Y = states if inplace else states.copy()
+        Y = states if inplace else _float_copy(states)
 
         # Center the snapshots by the mean training snapshot.
         if self.centering:
@@ -1223,7 +1223,7 @@ class ShiftScaleTransformer(TransformerTemplate):
         """
         self._check_is_trained()
         self._check_shape(ddts)
-        Z = ddts if inplace else ddts.copy()
+        Z = ddts if inplace else _float_copy(ddts)
 
         if self.scaling is not None:
             _flip = self.byrow and Z.ndim > 1
@@ -1279,7 +1279,11 @@ class ShiftScaleTransformer(TransformerTemplate):
         else:
             self._check_shape(states_transformed)
 
-        Y = states_transformed if inplace else states_transformed.copy()
+        Y = (
+            states_transformed
+            if inplace
+            else _float_copy(states_transformed)
+        )
 
         # Unscale (re-dimensionalize) the data.
         if self.scaling:
-- 
2.43.0


From 910e5cdc12a50e053fbfae9bc9035685c11cc6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:27 +0000
Subject: [PATCH 57/59] fix: evaluate models at integer-typed states instead of
 raising a casting error

---
 src/opinf/models/mono/_nonparametric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 589081d..bbd1988 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -356,7 +356,7 @@ class _NonparametricModel(_OpInfModel):
         out : (r,) ndarray
             Evaluation of the right-hand side of the model.
         """
-        out = np.zeros_like(state)
+        out = np.zeros_like(state, dtype=np.result_type(state, 1.0))
         for op in self.operators:
             out += op.apply(state, input_)
         return out
@@ -385,7 +385,8 @@ class _NonparametricModel(_OpInfModel):
             State Jacobian of the right-hand side of the model.
         """
         r = self.state_dimension
-        out = np.zeros_like(state, shape=(r, r))
+        dtype = np.result_type(state, 1.0)
+        out = np.zeros_like(state, dtype=dtype, shape=(r, r))
         for op in self.operators:
             out += op.jacobian(state, input_)
         return out
-- 
2.43.0


From 637a7d913cfb80c6c79a832bbaf0be68c51c7a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:27 +0000
Subject: [PATCH 58/59] fix: lift integer-typed snapshots with negative orders
 instead of raising

---
 src/opinf/lift/_polynomial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 1914205..e6bc19e 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -141,6 +141,7 @@ class PolynomialLifter(LifterTemplate):
         lifted_states : (num_variables * n, k) ndarray
             Learning variables.
         """
+        states = 1.0 * states  # Integers have no negative integer powers.
         return np.concatenate([states**p for p in self.__orders])
 
     def lift_ddts(self, states, ddts):
@@ -160,6 +161,7 @@ class PolynomialLifter(LifterTemplate):
         ddts : (num_variables * n, k) ndarray
             Time derivatives of the learning variables.
         """
+        states = 1.0 * states  # Integers have no negative integer powers.
         return np.concatenate(
             [
                 (
-- 
2.43.0


From 1f7abcf64be274e6ed31277346d28e5448b10507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 59/59] fix: TransformerPipeline accepts a tuple of
 transformers as documented

---
 src/opinf/pre/_multi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 9c72413..ed95781 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -42,10 +42,9 @@ class TransformerPipeline(TransformerTemplate):
         """Set the transformers."""
         super().__init__(name=name)
 
-        if isinstance(transformers, list):
-            transformers = tuple(transformers)
-        else:
+        if not isinstance(transformers, (list, tuple)):
             raise TypeError("'transformers' should be a list or tuple")
+        transformers = tuple(transformers)
 
         statedims = set()
         for i, tf in enumerate(transformers):
-- 
2.43.0

