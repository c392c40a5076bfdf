From d6a1d50a3b04810fa745a3ac3f5191154502127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:04 +0000
Subject: [PATCH 01/65] fix: cumulative k distances were contracted over the
 wrong axis

The displacement of each step is sum_i n_i dk_i; the norm was taken along the
path instead of along the space directions, giving ndim + 1 values.
---
 surface_potential_analysis/stacked_basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/util.py b/surface_potential_analysis/stacked_basis/util.py
index 510a047..e9449a3 100644
--- a/surface_potential_analysis/stacked_basis/util.py
+++ b/surface_potential_analysis/stacked_basis/util.py
@@ -446,7 +446,7 @@ def calculate_cumulative_k_distances_along_path(
     )
     util = BasisUtil(basis)
     x_distances = np.linalg.norm(  # TODO: test
-        np.tensordot(distances, util.dk_stacked, axes=(0, 0)),
+        np.tensordot(util.dk_stacked, distances, axes=(0, 0)),
         axis=0,
     )
     cum_distances = np.cumsum(x_distances)
-- 
2.43.0


From 8741bdc3bdb5560d74633bdf03054986a259e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 02/65] fix: interpolate_state_vector_momentum took the shape
 of the wrong axis

The walrus bound the comparison (a bool) instead of the index, so every axis
was resized to shape[1] (an IndexError for a single axis).
---
 surface_potential_analysis/state_vector/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/conversion.py b/surface_potential_analysis/state_vector/conversion.py
index d2965e6..3ae53fc 100644
--- a/surface_potential_analysis/state_vector/conversion.py
+++ b/surface_potential_analysis/state_vector/conversion.py
@@ -216,8 +216,8 @@ def interpolate_state_vector_momentum(
             TransformedPositionBasis(ax.delta_x, ax.n, shape[idx])
             if (
                 idx := next((i for i, jax in enumerate(axes) if jax == iax), None)
-                is not None
             )
+            is not None
             else ax
             for iax, ax in enumerate(converted["basis"])
         )
-- 
2.43.0


From beafe3dc8ffffe3530e5ec3185a080cd9c5e88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 03/65] fix: interpolating some axes of a state scaled it by
 the size of the others

Only the interpolated axes change their number of points.
---
 surface_potential_analysis/state_vector/conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/conversion.py b/surface_potential_analysis/state_vector/conversion.py
index 3ae53fc..c6fa2a7 100644
--- a/surface_potential_analysis/state_vector/conversion.py
+++ b/surface_potential_analysis/state_vector/conversion.py
@@ -222,5 +222,6 @@ def interpolate_state_vector_momentum(
             for iax, ax in enumerate(converted["basis"])
         )
     )
-    scaled = converted["data"] * np.sqrt(np.prod(shape) / converted_basis.n)
+    initial_shape = tuple(converted_basis.shape[ax] for ax in axes)
+    scaled = converted["data"] * np.sqrt(np.prod(shape) / np.prod(initial_shape))
     return {"basis": final_basis, "data": scaled}
-- 
2.43.0


From c9ecb2504be939ca6f9ce61a78aa45df9e67f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 04/65] fix: get_state_along_axis labelled reordered axes with
 the unsorted bases

The data is returned in the order of axes, the basis was returned in storage order.
---
 surface_potential_analysis/state_vector/state_vector_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index a943e20..979aa4b 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -334,7 +334,7 @@ def get_state_along_axis(
     ndim = states["basis"][0].ndim
     idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
     final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(states["basis"][0]) if i in axes)
+        *tuple(states["basis"][0][ax] for ax in axes)
     )
 
     vector = get_data_in_axes(
-- 
2.43.0


From 0aa3b680ae70cb70081979bd7d752cc4446c351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 05/65] fix: operator list products failed when the shared axis
 changed size

The converted operand was reshaped to the shape of its old basis.
---
 surface_potential_analysis/operator/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index ed57d85..bf16f97 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -75,7 +75,7 @@ def matmul_list_operator(
 
     data = np.tensordot(
         lhs["data"].reshape(-1, *lhs["basis"][1].shape),
-        converted["data"].reshape(rhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         axes=(2, 0),
     ).reshape(-1)
     return {
@@ -175,7 +175,7 @@ def matmul_operator_diagonal_list(
     )
     data = np.einsum(  # type: ignore lib
         "ik,mk->mik",
-        converted["data"].reshape(lhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         rhs["data"].reshape(-1, rhs["basis"][1][0].n),
     ).reshape(-1)
     return {
-- 
2.43.0


From cfcb3ddea41110d65da1017342f54f80f27e1ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 06/65] fix: operators and states returned as matrices could
 not be combined with flat ones

The data of an operator or state list is one dimensional; products, commutators
and full operators returned it with two axes, so adding one to a flat operator
failed or broadcast.
---
 surface_potential_analysis/operator/operations.py | 2 +-
 surface_potential_analysis/operator/operator.py   | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index bf16f97..d8a9989 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -334,7 +334,7 @@ def apply_operator_to_states(
     norm = np.sqrt(np.sum(np.abs(np.square(data)), axis=1))
     return {
         "basis": TupleBasis(converted["basis"][0], lhs["basis"][0]),
-        "data": data / norm.reshape(norm.size, 1),
+        "data": (data / norm.reshape(norm.size, 1)).reshape(-1),
         "eigenvalue": norm,
     }
 
diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 7938035..848548f 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -78,7 +78,7 @@ def as_operator(operator: DiagonalOperator[_B0, _B1]) -> Operator[_B0, _B1]:
     -------
     Operator[_B0_co, _B1_co]
     """
-    return {"basis": operator["basis"], "data": np.diag(operator["data"])}
+    return {"basis": operator["basis"], "data": np.diag(operator["data"]).reshape(-1)}
 
 
 def as_diagonal_operator(operator: Operator[_B0, _B1]) -> DiagonalOperator[_B0, _B1]:
@@ -232,7 +232,7 @@ def apply_function_to_operator(
         "k,ak,kb->ab", eigenvalues, res.eigenvectors, np.linalg.inv(res.eigenvectors)
     )
 
-    return {"basis": operator["basis"], "data": data}
+    return {"basis": operator["basis"], "data": data.reshape(-1)}
 
 
 def matmul_operator(
@@ -243,7 +243,10 @@ def matmul_operator(
         rhs["data"].reshape(rhs["basis"].shape),
         axes=(1, 0),
     )
-    return {"basis": TupleBasis(lhs["basis"][0], rhs["basis"][1]), "data": data}
+    return {
+        "basis": TupleBasis(lhs["basis"][0], rhs["basis"][1]),
+        "data": data.reshape(-1),
+    }
 
 
 def add_operator(a: Operator[_B0, _B1], b: Operator[_B0, _B1]) -> Operator[_B0, _B1]:
-- 
2.43.0


From 8c15581fd1cb544675bf205b8dbf6bba10377623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 07/65] fix: averaging eigenvalues over all axes used the
 number of axes of the operator

The default axes are those of the basis of the operator, not the two operator
axes (or the list and operator).
---
 surface_potential_analysis/operator/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 848548f..00a6b57 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -167,7 +167,7 @@ def average_eigenvalues(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][0].ndim)) if axis is None else axis
     basis = tuple(b for (i, b) in enumerate(eigenvalues["basis"][0]) if i not in axis)
     return {
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
@@ -200,7 +200,7 @@ def average_eigenvalues_list(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][1][0].ndim)) if axis is None else axis
     basis = tuple(
         b for (i, b) in enumerate(eigenvalues["basis"][1][0]) if i not in axis
     )
-- 
2.43.0


From d2bcf233b21eca9ccaeaa0d1efa17b1df90986a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 08/65] fix: converting real data to the same basis
 reinterpreted its bytes as complex

---
 surface_potential_analysis/basis/basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/basis_like.py b/surface_potential_analysis/basis/basis_like.py
index 0204947..34a7050 100644
--- a/surface_potential_analysis/basis/basis_like.py
+++ b/surface_potential_analysis/basis/basis_like.py
@@ -308,7 +308,7 @@ class BasisLike(
     ) -> np.ndarray[Any, np.dtype[np.complex128]]:
         assert basis.fundamental_n == self.fundamental_n
         if self == basis:
-            return vector.view(np.complex128)
+            return vector.astype(np.complex128, copy=False)
         # Small speedup here, and prevents imprecision of fft followed by ifft
         # And two pad_ft_points
         if isinstance(self, AsTransformedBasis) and isinstance(
-- 
2.43.0


From 544602de82d2a392c091d35e0674b5db6d53d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 09/65] fix: get_probability_along_axis failed for every list
 of probabilities

---
 .../probability_vector/probability_vector.py           | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 5e5902d..9ef82ea 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -114,16 +114,14 @@ def get_probability_along_axis(
     ProbabilityVector[_B0Inv]
     """
     ndim = probabilities["basis"][0].ndim
-    idx = tuple(0 for _ in range(ndim - 2)) if idx is None else idx
-    final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(probabilities["basis"][0]) if i in axes)
-    )
+    idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
+    final_basis = TupleBasis(*tuple(probabilities["basis"][0][ax] for ax in axes))
 
     vector = get_data_in_axes(
-        probabilities["data"].reshape(probabilities["basis"].shape),
+        probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
         (*axes, ndim),
         idx,
-    ).reshape(*final_basis.shape, -1)
+    ).reshape(-1)
     return {
         "basis": TupleBasis(final_basis, probabilities["basis"][1]),
         "data": vector,
-- 
2.43.0


From 08b35f1a485241fcbf358aa27f5e9870b5b9e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 10/65] fix: sum_probability returned a tuple in place of a
 basis

---
 .../probability_vector/probability_vector.py                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 9ef82ea..93af118 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -144,7 +144,9 @@ def sum_probability(
     ProbabilityVector[Any]
     """
     axis = tuple(range(probability["basis"].ndim)) if axis is None else axis
-    basis = tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    basis = TupleBasis(
+        *tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    )
     return {
         "basis": basis,
         "data": (
-- 
2.43.0


From 45164e89579e36a170306081696cf7963d68424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 11/65] fix: sum_probabilities over all axes used the number of
 axes of the list

---
 .../probability_vector/probability_vector.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 93af118..7a60f3a 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -173,7 +173,7 @@ def sum_probabilities(
     -------
     ProbabilityVectorList[Any, _L0Inv]
     """
-    axis = tuple(range(probabilities["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(probabilities["basis"][1].ndim)) if axis is None else axis
     basis = TupleBasis(
         *tuple(b for (i, b) in enumerate(probabilities["basis"][1]) if i not in axis)
     )
-- 
2.43.0


From 084f899f7e3590f5d5054e5980aeb1bc0a4867fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:41 +0000
Subject: [PATCH 12/65] fix: weighted averages over one axis raised TypeError
 for the documented 1-D weights

---
 surface_potential_analysis/operator/operator.py               | 4 ++--
 .../probability_vector/probability_vector.py                  | 2 +-
 surface_potential_analysis/state_vector/state_vector_list.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 00a6b57..3813148 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -173,7 +173,7 @@ def average_eigenvalues(
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
         "data": np.average(
             eigenvalues["data"].reshape(*eigenvalues["basis"][0].shape),
-            axis=tuple(ax for ax in axis),
+            axis=axis[0] if len(axis) == 1 else tuple(axis),
             weights=weights,
         ).reshape(-1),
     }
@@ -213,7 +213,7 @@ def average_eigenvalues_list(
             eigenvalues["data"].reshape(
                 eigenvalues["basis"][0].n, *eigenvalues["basis"][1][0].shape
             ),
-            axis=tuple(1 + ax for ax in axis),
+            axis=1 + axis[0] if len(axis) == 1 else tuple(1 + ax for ax in axis),
             weights=weights,
         ).reshape(-1),
     }
diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 7a60f3a..c899e0c 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -240,7 +240,7 @@ def average_probabilities(
         "basis": TupleBasis(basis, probabilities["basis"][1]),
         "data": np.average(
             probabilities["data"].reshape(*old_basis.shape, -1),
-            axis=tuple(ax for ax in axis),
+            axis=axis[0] if len(axis) == 1 else tuple(axis),
             weights=weights,
         ).reshape(-1),
     }
diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index 979aa4b..d0527d0 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -286,7 +286,7 @@ def average_state_vector(
         "basis": TupleBasis(basis, probabilities["basis"][1]),
         "data": np.average(
             probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
-            axis=tuple(ax for ax in axis),
+            axis=axis[0] if len(axis) == 1 else tuple(axis),
             weights=weights,
         ).reshape(-1),
     }
-- 
2.43.0


From 459d65a8fa2f9926fb85a1c7f6924321f3054803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:51 +0000
Subject: [PATCH 13/65] fix: fundamental_times of evenly spaced time bases were
 spaced differently from times

---
 surface_potential_analysis/basis/time_basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/time_basis_like.py b/surface_potential_analysis/basis/time_basis_like.py
index 8d59d55..54b5371 100644
--- a/surface_potential_analysis/basis/time_basis_like.py
+++ b/surface_potential_analysis/basis/time_basis_like.py
@@ -51,7 +51,7 @@ class EvenlySpacedTimeBasis(
 
     @property
     def fundamental_times(self) -> np.ndarray[tuple[Any], np.dtype[np.float64]]:
-        return np.linspace(0, self._delta_t, self.fundamental_n)  # type: ignore[no-any-return]
+        return np.linspace(0, self._delta_t, self.fundamental_n, endpoint=False)  # type: ignore[no-any-return]
 
     @property
     def delta_t(self) -> float:
-- 
2.43.0


From 5f801f1e6fd8e371474e5d34a434cf5a176c4592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 14/65] fix: evenly spaced bloch fractions were a complex
 vector, not a real (ndim, n) array

---
 surface_potential_analysis/basis/block_fraction_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/block_fraction_basis.py b/surface_potential_analysis/basis/block_fraction_basis.py
index 7bf6e41..b227fd2 100644
--- a/surface_potential_analysis/basis/block_fraction_basis.py
+++ b/surface_potential_analysis/basis/block_fraction_basis.py
@@ -59,9 +59,10 @@ class EvenlySpacedBlockFractionBasis(
 
     @property
     def bloch_fractions(self) -> np.ndarray[tuple[Any, _N0_co], np.dtype[np.float64]]:
-        return self.__from_fundamental__(  # type: ignore can't infer shape
+        fractions = self.__from_fundamental__(
             np.linspace(-0.5, 0.5, self.fundamental_n, endpoint=False)
         )
+        return np.real(fractions)[np.newaxis, :]  # type: ignore can't infer shape
 
 
 class FundamentalBlockFractionBasis(
-- 
2.43.0


From 59b16a67de32eb0d93c2e308e5a3841709a5c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:58 +0000
Subject: [PATCH 15/65] fix: isotropic kernel read from a row of the diagonal
 kernel was reversed

---
 surface_potential_analysis/kernel/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index 8928a73..b788186 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -243,7 +243,7 @@ def as_isotropic_kernel_from_diagonal(
     -------
     IsotropicNoiseKernel[_B0]
     """
-    data = kernel["data"].reshape(kernel["basis"][0].shape)[0]
+    data = kernel["data"].reshape(kernel["basis"][0].shape)[:, 0]
     out: IsotropicNoiseKernel[_B0] = {"basis": kernel["basis"][0][0], "data": data}
 
     if assert_isotropic:
-- 
2.43.0


From 88dfce4fed9131805e6fae4e4576570c2cbb1b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 16/65] fix: noise operators of a stacked isotropic kernel used
 the grid of the fundamental basis

---
 surface_potential_analysis/kernel/solve/_fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index ca40946..f45f065 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -271,7 +271,7 @@ def _get_operators_for_isotropic_stacked_noise(
     k = tuple(2 * np.pi / n for n in fundamental_shape)
     shape_basis = fundamental_stacked_basis_from_shape(fundamental_shape)
 
-    nk_points = BasisUtil(basis).fundamental_stacked_nk_points
+    nk_points = BasisUtil(basis).stacked_nk_points
     i_points = BasisUtil(shape_basis).stacked_nk_points
 
     operators = np.array(
-- 
2.43.0


From 57ed4f120cd578a78c053df79c0dbf3d9d43ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 17/65] fix: noise operators of a real isotropic kernel did not
 match their eigenvalues

---
 surface_potential_analysis/kernel/solve/_fft.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index f45f065..6bcfb84 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -232,7 +232,10 @@ def get_periodic_noise_operators_real_isotropic_fft(
     fundamental_n = kernel["basis"].n if n is None else 2 * n + 1
 
     operators = get_periodic_operators_for_real_isotropic_noise(
-        kernel["basis"], fundamental_n=fundamental_n, assert_periodic=assert_periodic
+        kernel["basis"],
+        n=fundamental_n // 2 + 1,
+        fundamental_n=fundamental_n,
+        assert_periodic=assert_periodic,
     )
 
     eigenvalues = _get_noise_eigenvalues_isotropic_fft(
@@ -244,11 +247,14 @@ def get_periodic_noise_operators_real_isotropic_fft(
         eigenvalues["data"][1::][::-1],
         rtol=1e-8,
     )
+    # e^(+-ikx) are carried together by one cos(kx) and one sin(kx)
+    coefficients = eigenvalues["data"][: fundamental_n // 2 + 1].copy()
+    coefficients[1 : (fundamental_n + 1) // 2] *= 2
 
     return {
         "basis": operators["basis"],
         "data": operators["data"],
-        "eigenvalue": eigenvalues["data"],
+        "eigenvalue": np.concatenate([coefficients, coefficients[:0:-1]]),
     }
 
 
-- 
2.43.0


From 9bc8f8d89c1ddef99633addad82dedbd375099c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 18/65] fix: gaussian noise kernel was wrong in more than one
 dimension

---
 surface_potential_analysis/kernel/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/gaussian.py b/surface_potential_analysis/kernel/gaussian.py
index b6aa791..82cfdc4 100644
--- a/surface_potential_analysis/kernel/gaussian.py
+++ b/surface_potential_analysis/kernel/gaussian.py
@@ -26,7 +26,7 @@ from surface_potential_analysis.kernel.kernel import (
     AxisKernel,
     DiagonalNoiseOperatorList,
     SingleBasisDiagonalNoiseOperatorList,
-    as_diagonal_kernel_from_isotropic,
+    as_diagonal_kernel_from_isotropic_stacked,
     get_diagonal_noise_operators_from_axis,
 )
 from surface_potential_analysis.kernel.solve._fft import (
@@ -159,7 +159,7 @@ def get_gaussian_noise_kernel(
     SingleBasisDiagonalNoiseKernel[ TupleBasisLike[FundamentalPositionBasis[Any, Literal[1]]] ]
         _description_
     """
-    return as_diagonal_kernel_from_isotropic(
+    return as_diagonal_kernel_from_isotropic_stacked(
         get_gaussian_isotropic_noise_kernel(basis, a, lambda_)
     )
 
-- 
2.43.0


From 475fe5cb00cb07fb505a3732ee69caa74e0dfe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 19/65] fix: lorentzian taylor operators had more coefficients
 than operators

---
 surface_potential_analysis/kernel/lorentzian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/lorentzian.py b/surface_potential_analysis/kernel/lorentzian.py
index c3a49cd..2357f7f 100644
--- a/surface_potential_analysis/kernel/lorentzian.py
+++ b/surface_potential_analysis/kernel/lorentzian.py
@@ -105,7 +105,7 @@ def _get_explicit_taylor_coefficients_lorentzian(
     *,
     n_terms: int = 1,
 ) -> np.ndarray[Any, np.dtype[np.float64]]:
-    i = np.arange(0, n_terms + 1)
+    i = np.arange(0, n_terms)
     return a**2 * ((-1 / (lambda_**2)) ** i)
 
 
-- 
2.43.0


From 090c2bbc3de8ab3407428657baf835c1ff884e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 20/65] fix: truncated diagonal kernel treated diagonal
 operators as full ones

---
 surface_potential_analysis/kernel/build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index df4b6d5..e21e4bb 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -18,7 +18,7 @@ from surface_potential_analysis.kernel.kernel import (
     DiagonalNoiseKernel,
     IsotropicNoiseKernel,
     SingleBasisNoiseOperatorList,
-    get_diagonal_kernel_from_operators,
+    get_diagonal_kernel_from_diagonal_operators,
     get_full_kernel_from_operators,
 )
 from surface_potential_analysis.kernel.solve._eigenvalue import (
@@ -364,4 +364,4 @@ def truncate_diagonal_noise_kernel(
     operators = get_periodic_noise_operators_diagonal_eigenvalue(kernel)
 
     truncated = truncate_diagonal_noise_operator_list(operators, truncation)
-    return get_diagonal_kernel_from_operators(truncated)
+    return get_diagonal_kernel_from_diagonal_operators(truncated)
-- 
2.43.0


From 14dc35fc0ff8ae1bb73c1deb630006b798693207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 21/65] fix: displacement matrix of a basis had the wrong shape
 and range

---
 surface_potential_analysis/operator/build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index e959de3..0abc402 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -166,10 +166,10 @@ def get_displacements_matrix_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    x_points = BasisUtil(basis_x).x_points
+    x_points = np.linalg.norm(BasisUtil(basis_x).x_points, axis=0)
     distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
-    data = np.remainder((distances + basis_x.delta_x), max_distance) - max_distance
+    data = _wrap_displacements(distances, max_distance)
     return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
 
 
-- 
2.43.0


From f8d1b9f5cd99013b2c410be2c4afc18845491838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 22/65] fix: isotropic kernel of a function of x - x' was built
 from x' - x

---
 surface_potential_analysis/kernel/build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index e21e4bb..0ec11e1 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -99,7 +99,7 @@ def build_isotropic_kernel_from_function(
     ]
     """
     displacements = get_displacements_matrix_x(basis)
-    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[0])
+    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[:, 0])
 
     return {"basis": displacements["basis"][0], "data": correlation.ravel()}
 
@@ -132,7 +132,7 @@ def build_isotropic_kernel_from_function_stacked(
     ]
     """
     displacements = get_total_displacements_matrix_x_stacked(basis)
-    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[0])
+    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[:, 0])
 
     return {"basis": displacements["basis"][0], "data": correlation.ravel()}
 
-- 
2.43.0


From 15a0ce275bc85d4aca6517ee3a354bb30aec0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 23/65] fix: undo_truncate_potential inverts truncate_potential
 for every n

truncate_potential takes the n-th root of the logarithm, so the inverse has
to raise to the n-th power before taking the exponential.
---
 surface_potential_analysis/potential/potential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index ac1d199..d066f27 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -228,7 +228,10 @@ def undo_truncate_potential(
     data: Potential[_SB0], *, cutoff: float = 2e-17, n: int = 1, offset: float = 2e-18
 ) -> Potential[_SB0]:
     """Reverses truncate_potential."""
-    points = cutoff * (np.exp((data["data"] + offset) / cutoff) - 1) ** (1 / n) - offset
+    points = (
+        cutoff * (np.exp(((data["data"] + offset) / cutoff) ** n) - 1) ** (1 / n)
+        - offset
+    )
     return {"data": points, "basis": data["basis"]}  # type: ignore[return-value]
 
 
-- 
2.43.0


From c4b7faf48ce04dbd5664beb8fac290f114ee408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 24/65] fix: load_potential_grid_json returns the data as a
 vector

The data of a potential is the flat vector of coefficients in its basis:
with the nested array no conversion of the loaded potential works.
---
 surface_potential_analysis/potential/potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index d066f27..c532bed 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -111,7 +111,7 @@ def load_potential_grid_json(
                 FundamentalPositionBasis(np.array(out["delta_x1"]), points.shape[1]),
                 FundamentalPositionBasis(np.array(out["delta_x2"]), points.shape[2]),
             ),
-            "data": np.array(out["points"]),
+            "data": points.reshape(-1),
         }
 
 
-- 
2.43.0


From 2d8b5f12bdae0d048df77c445f9d27453fe8f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 25/65] fix: basis_as_n_point_basis no longer raises a
 NameError

It subscripted the class with a type variable which only exists while type checking.
---
 surface_potential_analysis/basis/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/conversion.py b/surface_potential_analysis/basis/conversion.py
index ee4b11f..4510045 100644
--- a/surface_potential_analysis/basis/conversion.py
+++ b/surface_potential_analysis/basis/conversion.py
@@ -108,7 +108,7 @@ def basis_as_n_point_basis(
     -------
     FundamentalPositionBasis[_N1Inv, _NDInv]
     """
-    return FundamentalPositionBasis[_N1Inv, int](delta_x, n)
+    return FundamentalPositionBasis(delta_x, n)
 
 
 def basis_as_single_point_basis(
-- 
2.43.0


From 855fda5d7c8f6074b601e29f43486d905f0905d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 26/65] fix: the wannier hamiltonian is the hamiltonian in the
 wannier basis

The localized states are sum_c U_ic |c>, so the matrix elements are
sum_c conj(U_ic) E_c U_jc, and the state translated by R has the phase
exp(ikR) for each bloch k: both were conjugated. The full hamiltonian was
also stored with its list index before the band index, the other way round
from its basis. It now agrees with converting the bloch hamiltonian into
the wannier basis.
---
 surface_potential_analysis/wavepacket/get_eigenstate.py  | 9 ++++-----
 .../wavepacket/localization_operator.py                  | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 1f745a7..5c3794b 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -1000,10 +1000,9 @@ def get_full_wannier_hamiltonian(
         *hamiltonian["basis"][0].shape,
         -1,
     )
-    # is this correct...
-    # I think because H is real symmetric, this ultimately doesn't matter
-    data_stacked = np.fft.fftn(
-        np.fft.ifftn(
+    # The state translated by R is the sum over k of exp(ikR) times the bloch state
+    data_stacked = np.fft.ifftn(
+        np.fft.fftn(
             hamiltonian_stacked,
             axes=tuple(range(hamiltonian["basis"][0].ndim)),
             norm="ortho",
@@ -1015,7 +1014,7 @@ def get_full_wannier_hamiltonian(
     )
     # Re order to match the correct basis
     data = np.einsum(  # type: ignore lib
-        "ijkl->ikjl",
+        "ijkl->kilj",
         data_stacked.reshape(
             hamiltonian["basis"][0].n,
             hamiltonian["basis"][0].n,
diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index 7da10f1..c2babe1 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -138,11 +138,11 @@ def get_localized_hamiltonian_from_eigenvalues(
     """
     converted = np.einsum(  # type: ignore lib
         "dic,cd,djc->dij",
-        operator["data"].reshape(-1, *operator["basis"][1].shape),
+        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
         hamiltonian["data"].reshape(
             hamiltonian["basis"][0].n, hamiltonian["basis"][1].shape[0]
         ),
-        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
+        operator["data"].reshape(-1, *operator["basis"][1].shape),
     )
     return {
         "basis": TupleBasis(
-- 
2.43.0


From 9201881df6bbf26747c1f39e322c68fb0b43f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 27/65] fix: get_all_eigenstates gives one state for each bloch
 k

It iterated over the entries of the flat data, so that zip raised a ValueError.
---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 5c3794b..eba47a0 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -235,7 +235,7 @@ def get_all_eigenstates(
             "eigenvalue": e,
         }
         for (v, e, *offset) in zip(
-            converted["data"],
+            converted["data"].reshape(converted["basis"].shape),
             wavepacket["eigenvalue"],
             *util.stacked_nk_points,
             strict=True,
-- 
2.43.0


From 5eb76789fe4286bc2b21e569450a5d6a40b7a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 28/65] fix: BlochBasis converts states stored in a truncated
 basis

After conversion to the fundamental wavepacket basis the arrays have the
fundamental shapes, not those of the wavefunctions.
---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index eba47a0..9c947b6 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -696,8 +696,8 @@ class BlochBasis(
             axis=axis,
         )
 
-        k_shape = self.wavefunctions["basis"][1].shape
-        list_shape = self.wavefunctions["basis"][0][1].shape
+        k_shape = self.wavefunctions["basis"][1].fundamental_shape
+        list_shape = self.wavefunctions["basis"][0][1].fundamental_shape
         ndim = len(k_shape)
 
         inner_shape = tuple(zip(list_shape, k_shape))
@@ -736,7 +736,7 @@ class BlochBasis(
         if self.vectors_basis.n < 100 * 90:
             np.testing.assert_allclose(
                 self.vectors_basis[1].__into_fundamental__(
-                    unshifted.reshape(vectors_in_basis.shape), axis
+                    unshifted.reshape(converted.shape), axis
                 ),
                 ExplicitStackedBasisWithLength(self.vectors).__into_fundamental__(
                     vectors, axis
@@ -745,7 +745,7 @@ class BlochBasis(
             )
 
         return self.vectors_basis[1].__into_fundamental__(
-            unshifted.reshape(vectors_in_basis.shape), axis
+            unshifted.reshape(converted.shape), axis
         )
 
     @property
-- 
2.43.0


From ed1587710534c3230f8d3d7c420b4060d59d5c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 29/65] fix: wannier states of a truncated basis are translated
 by whole cells

The unfurled states live on the fundamental grid, where a cell has the
fundamental number of points.
---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 9c947b6..30c4476 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -909,7 +909,10 @@ def get_wannier_states(
     # for each translation of the wannier functions
     for idx in range(operator["basis"][0].n):
         offset = util.get_stacked_index(idx)
-        shift = tuple(-n * o for (n, o) in zip(wavefunctions["basis"][1].shape, offset))
+        shift = tuple(
+            -n * o
+            for (n, o) in zip(wavefunctions["basis"][1].fundamental_shape, offset)
+        )
 
         tanslated = np.roll(
             converted_stacked, shift, axis=tuple(1 + x for x in range(util.ndim))
-- 
2.43.0


From 61d8c11ffed48cb61ac044684037db5f61b4378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 30/65] fix: as_wavepacket_list keeps the first wavepacket of
 an iterator

---
 surface_potential_analysis/wavepacket/wavepacket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/wavepacket.py b/surface_potential_analysis/wavepacket/wavepacket.py
index 3d16ab6..b5e5f38 100644
--- a/surface_potential_analysis/wavepacket/wavepacket.py
+++ b/surface_potential_analysis/wavepacket/wavepacket.py
@@ -461,7 +461,8 @@ def as_wavepacket_list(
     -------
     WavepacketList[FundamentalBasis[int], _SB0, _SB1]
     """
-    wavepacket_0 = next(iter(wavepackets))
+    wavepackets = list(wavepackets)
+    wavepacket_0 = wavepackets[0]
     vectors = np.array([w["data"] for w in wavepackets])
     return {
         "basis": TupleBasis(
-- 
2.43.0


From 107bd43e8ac6f5412b06a43aca61b056eda22d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 31/65] fix: convert_wavepacket_with_eigenvalues_to_basis
 returns the energies as a vector

---
 surface_potential_analysis/wavepacket/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/conversion.py b/surface_potential_analysis/wavepacket/conversion.py
index 55bfa59..9eb8c59 100644
--- a/surface_potential_analysis/wavepacket/conversion.py
+++ b/surface_potential_analysis/wavepacket/conversion.py
@@ -195,7 +195,7 @@ def convert_wavepacket_with_eigenvalues_to_basis(
     return {
         "basis": TupleBasis(TupleBasis(wavepacket["basis"][0][0], list_basis), basis),
         "data": vectors.reshape(-1),
-        "eigenvalue": eigenvalues,
+        "eigenvalue": eigenvalues.reshape(-1),
     }
 
 
-- 
2.43.0


From b850a007defd350e493b2e510f8baf20e12aa8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:26 +0000
Subject: [PATCH 32/65] fix: the tight binding state covers one unit cell

The points of the cell were those of the basis of the list and the states,
rather than those of the states: fewer points than the cell has when there are
fewer samples, and the wrong number of axes in three dimensions. For a
truncated state basis they were wrapped into fewer points than the cell has.
---
 .../wavepacket/get_eigenstate.py                       | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 30c4476..623b7d0 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -307,20 +307,18 @@ def get_tight_binding_state(
         get_wavepacket_state_vector(wavepacket, idx)
     )
     util = BasisUtil(state_0["basis"])
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
     if origin is None:
         idx_0: SingleStackedIndexLike = util.get_stacked_index(
             int(np.argmax(np.abs(state_0["data"]), axis=-1))
         )
-        origin = wrap_index_around_origin(
-            wavepacket["basis"][1],
-            idx_0,
-        )
+        origin = wrap_index_around_origin(unit_cell, idx_0)
     # Under the tight binding approximation all state vectors are equal.
     # The corresponding localized state is just the state at some index
     # truncated to a single unit cell
-    unit_cell_util = BasisUtil(wavepacket["basis"])
+    unit_cell_util = BasisUtil(unit_cell)
     relevant_idx = wrap_index_around_origin(
-        wavepacket["basis"][1],
+        unit_cell,
         unit_cell_util.fundamental_stacked_nx_points,
         origin=origin,
     )
-- 
2.43.0


From 26b6f3643518a999c6283487c9299b34dd264109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 33/65] fix: the Fourier interpolation uses s[i] for the i-th
 of the last axes when no axes are given

---
 surface_potential_analysis/util/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 05ca1bc..97f6916 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -102,7 +102,7 @@ def interpolate_points_fftn(
     NDArray
         The points interpolated along the given axes
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     # We use the forward norm here, as otherwise we would also need to
     # scale the ft_potential by a factor of n / shape[axis]
     # when we pad or truncate it
@@ -176,7 +176,7 @@ def interpolate_points_rfftn(
     -------
     np.ndarray[tuple, np.dtype[np.float_]]
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     ft_points = np.fft.rfftn(points, axes=axes_arr, norm="forward")  # type: ignore Argument of type "NDArray[signedinteger[Any]] | NDArray[Any]" cannot be assigned to parameter "axes" of type "Sequence[int] | None"
     # pad (or truncate) for the new lengths s
     # we don't need to pad the last axis here, as it is handled correctly by irfftn
-- 
2.43.0


From c78df84a49be9455681a516769276573dc5e9f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 34/65] fix: the explicit taylor expansion has one coefficient
 for each operator

---
 surface_potential_analysis/kernel/solve/_taylor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index 16c2e30..1f25640 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -106,7 +106,7 @@ def get_periodic_noise_operators_explicit_taylor_expansion(
 
     # coefficients for the Taylor expansion of the trig terms
     coefficients = _get_periodic_coefficients_for_taylor_series(
-        polynomial_coefficients=polynomial_coefficients,
+        polynomial_coefficients=polynomial_coefficients, n_terms=n_terms
     )
     coefficients *= basis.n
 
-- 
2.43.0


From f1029ff2a8e569d2f0030125beb1d7935c3f84fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 35/65] fix: the taylor expansion of an isotropic kernel
 converts the kernel to the position basis it expands in

---
 surface_potential_analysis/kernel/solve/_taylor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index 1f25640..034f655 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -8,6 +8,7 @@ from scipy.special import factorial  # type:ignore bad stb file
 from surface_potential_analysis.basis.basis import (
     FundamentalBasis,
 )
+from surface_potential_analysis.basis.basis_like import convert_vector
 from surface_potential_analysis.basis.conversion import (
     basis_as_fundamental_position_basis,
 )
@@ -178,6 +179,8 @@ def get_periodic_noise_operators_real_isotropic_taylor_expansion(
     """
     basis_x = basis_as_fundamental_position_basis(kernel["basis"])
 
+    data = convert_vector(kernel["data"], kernel["basis"], basis_x)
+
     n_states: int = basis_x.n
     n = (n_states + 1) // 2 if n is None else n
 
@@ -190,7 +193,7 @@ def get_periodic_noise_operators_real_isotropic_taylor_expansion(
         np.polynomial.Polynomial,
         np.polynomial.Chebyshev.fit(  # type: ignore unknown
             x=points,
-            y=kernel["data"],
+            y=data,
             deg=n,
             w=weight,
             domain=(-1, 1),
-- 
2.43.0


From 76dc024b81b777788f8c79273af55ca8b9ae1962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 36/65] fix: the jump matrix is read from an a matrix whose
 basis is a pair of bases

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 5ae5e51..e81e237 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -93,8 +93,8 @@ def get_jump_matrix_from_a_matrix(
     -------
     TunnellingJumpMatrix[_L2Inv]
     """
-    n_bands = matrix["basis"][2].fundamental_n
-    util = BasisUtil(matrix["basis"])
+    n_bands = matrix["basis"][0][2].fundamental_n
+    util = BasisUtil(matrix["basis"][0])
     stacked = matrix["data"].reshape(*util.shape, *util.shape)
     data = np.zeros((n_bands, n_bands, 9), dtype=np.complex128)
     for n_0 in range(n_bands):
-- 
2.43.0


From d9e0558de1d1e556af1c07b87e1cd8be608f4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 37/65] fix: the a matrix of fewer bands takes its rates from
 the jump matrix of all of them

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index e81e237..d8b38fa 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -169,12 +169,13 @@ def get_a_matrix_from_jump_matrix(
     -------
     TunnellingAMatrix[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[int], ] ]
     """
-    n_bands = matrix["basis"].fundamental_n if n_bands is None else n_bands
+    n_bands_full = matrix["basis"][0].n
+    n_bands = n_bands_full if n_bands is None else n_bands
     final_basis = get_basis_from_shape(shape, n_bands, matrix["basis"][0])
     final_util = BasisUtil(final_basis)
 
     (n_x0, n_x1) = shape
-    jump_stacked = matrix["data"].reshape(n_bands, n_bands, 9)
+    jump_stacked = matrix["data"].reshape(n_bands_full, n_bands_full, 9)
     array = np.zeros((*final_util.shape, *final_util.shape), dtype=np.complex128)
     for n_0 in range(n_bands):
         for n_1 in range(n_bands):
-- 
2.43.0


From 73dd5dd5cc34e1d6a2d61feb712c9c5b30799c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 38/65] fix: the reduced a matrix is read from an a matrix
 whose basis is a pair of bases

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index d8b38fa..38137f2 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -273,7 +273,7 @@ def get_a_matrix_reduced_bands(
     -------
     TunnellingMMatrix[tuple[_AX0Inv, _AX1Inv, TunnellingSimulationBandsBasis[_L1Inv]]]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     a_basis = TupleBasis(
         matrix["basis"][0][0],
         matrix["basis"][0][1],
-- 
2.43.0


From d26ec48bc1966a725dda4874791f5cbfe7f2278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 39/65] fix: building the m matrix leaves the diagonal of the a
 matrix alone

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 38137f2..86ffde6 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -330,7 +330,7 @@ def get_tunnelling_m_matrix(
     TunnellingMMatrix
     """
     matrix = matrix if n_bands is None else get_a_matrix_reduced_bands(matrix, n_bands)
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     array = data.T - np.diag(np.sum(data, axis=1))
     return {"basis": matrix["basis"], "data": array}
-- 
2.43.0


From 0883ca24a5a858340a19eabcece8b86c398a5083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 40/65] fix: the probability of a density matrix is labelled
 with the basis of its diagonal

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 86ffde6..f64b854 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -374,7 +374,7 @@ def density_matrix_as_probability(
     -------
     ProbabilityVector[_B0Inv]
     """
-    return {"basis": matrix["basis"], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
+    return {"basis": matrix["basis"][0], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
 
 
 def density_matrix_list_as_probabilities(
-- 
2.43.0


From a5bf0e356b1db4c69e1da971b758da7469952d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 41/65] fix: the rate decomposition holds the eigenvalues of
 the tunnelling matrix

---
 .../dynamics/incoherent_propagation/isf.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index d35fc80..a8f7a61 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -215,4 +215,4 @@ def get_rate_decomposition(
     """
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     coefficients = get_operator_state_vector_decomposition(initial, eigenstates)
-    return RateDecomposition(eigenstates["data"], coefficients)
+    return RateDecomposition(eigenstates["eigenvalue"], coefficients)
-- 
2.43.0


From da24e4e369752b4b33e2edccc733b6206d134018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 42/65] fix: the averaged isf of a tunnelling simulation
 indexes the basis of the states

---
 .../dynamics/incoherent_propagation/isf.py                 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index a8f7a61..9ba7bca 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -96,7 +96,7 @@ def calculate_equilibrium_state_averaged_isf(
     -------
     EigenvalueList[_L0Inv]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     equilibrium = get_equilibrium_state(eigenstates)
 
@@ -114,7 +114,7 @@ def calculate_equilibrium_state_averaged_isf(
         isf = calculate_isf_approximate_locations(
             initial_probability, final_probabilities, dk
         )
-        eigenvalues[band] = isf
+        eigenvalues[band] = isf["data"]
     isf_per_band: SingleBasisDiagonalOperator[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]]
     ] = {
@@ -127,7 +127,8 @@ def calculate_equilibrium_state_averaged_isf(
     averaged = average_eigenvalues(
         isf_per_band, (0,), weights=np.abs(occupation_probabilities["data"])
     )
-    return {"basis": averaged["basis"][0][0], "data": averaged["data"]}
+    time_basis = averaged["basis"][0][0]
+    return {"basis": TupleBasis(time_basis, time_basis), "data": averaged["data"]}
 
 
 def calculate_equilibrium_initial_state_isf(
-- 
2.43.0


From a599c3cf1797d9c8f67116e17196b68deacd8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 43/65] fix: the equilibrium isf of a tunnelling simulation
 uses the basis of the states and real occupations

---
 .../dynamics/incoherent_propagation/isf.py    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index 9ba7bca..5468d7d 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -149,26 +149,23 @@ def calculate_equilibrium_initial_state_isf(
     -------
     EigenvalueList[_L0Inv]
     """
+    basis = matrix["basis"][0]
     eigenstates = calculate_tunnelling_eigenstates(matrix)
 
-    vectors = np.zeros(
-        (matrix["basis"].shape[2], times.size, matrix["basis"].n), dtype=np.complex128
-    )
-    for band in range(matrix["basis"].shape[2]):
+    vectors = np.zeros((basis.shape[2], times.size, basis.n), dtype=np.float64)
+    for band in range(basis.shape[2]):
         initial_state = get_initial_pure_density_matrix_for_basis(
             matrix["basis"][0], (0, 0, band)
         )
         final_state = get_tunnelling_simulation_state(eigenstates, initial_state, times)
         final_probabilities = density_matrix_list_as_probabilities(final_state)
-        vectors[band] = final_probabilities["data"]
+        vectors[band] = final_probabilities["data"].reshape(times.size, -1)
     probability_per_band: ProbabilityVectorList[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]], _B0Inv
     ] = {
         "basis": TupleBasis(
-            TupleBasis(
-                FundamentalBasis(matrix["basis"].shape[2]), ExplicitTimeBasis(times)
-            ),
-            matrix["basis"][0],
+            TupleBasis(FundamentalBasis(basis.shape[2]), ExplicitTimeBasis(times)),
+            basis,
         ),
         "data": vectors.reshape(-1),
     }
@@ -177,10 +174,10 @@ def calculate_equilibrium_initial_state_isf(
     occupation_probabilities = sum_probability(
         density_matrix_as_probability(equilibrium), (0, 1)
     )
-    vector = np.zeros(matrix["basis"].shape, dtype=np.complex128)
+    vector = np.zeros(basis.shape, dtype=np.float64)
     vector[0, 0, :] = occupation_probabilities["data"]
     initial: ProbabilityVector[_B0Inv] = {
-        "basis": matrix["basis"][0],
+        "basis": basis,
         "data": vector.reshape(-1),
     }
     average_probability = average_probabilities(
@@ -188,6 +185,9 @@ def calculate_equilibrium_initial_state_isf(
         weights=np.abs(occupation_probabilities["data"]),
         axis=(0,),
     )
+    average_probability["basis"] = TupleBasis(
+        average_probability["basis"][0][0], average_probability["basis"][1]
+    )
     return calculate_isf_approximate_locations(initial, average_probability, dk)
 
 
-- 
2.43.0


From dce1e1ce7a3ab68fccbf596e3989419d1d603c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 44/65] fix: finding the collapse operators leaves the diagonal
 of the a matrix alone

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 764070e..9e3d38b 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -118,7 +118,7 @@ def get_collapse_operators_from_a_matrix(
     -------
     list[SingleBasisOperator[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[_L2Inv]]]]
     """
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     return [
         {
-- 
2.43.0


From 8ba0f7c13c751f8d57068f0b52db48f7b6ceb90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 45/65] fix: a collapse operator has an element for each pair
 of states

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 9e3d38b..8aec93e 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -229,7 +229,7 @@ def get_collapse_operators_from_function(
                 (i1, j1) = (i0 + d1_stacked[0], j0 + d1_stacked[1])
                 j = np.ravel_multi_index((i1, j1, n1), (*shape, n_bands), mode="wrap")
 
-                data = np.zeros(shape, dtype=np.complex128)
+                data = np.zeros(array.shape, dtype=np.complex128)
                 data[i, j] = a_function(
                     int(n0), n1, (0, 0), (d1_stacked[0], d1_stacked[1])
                 )
-- 
2.43.0


From 8e3b160bfcd7d67fa2a96a4c3158951be677f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 46/65] fix: an overlap is converted to the momentum basis
 without transforming axes it does not have

---
 surface_potential_analysis/overlap/conversion.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/surface_potential_analysis/overlap/conversion.py b/surface_potential_analysis/overlap/conversion.py
index f55523e..86cd660 100644
--- a/surface_potential_analysis/overlap/conversion.py
+++ b/surface_potential_analysis/overlap/conversion.py
@@ -2,8 +2,6 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, Literal, TypeVar
 
-import numpy as np
-
 from surface_potential_analysis.basis.basis_like import (
     BasisLike,
     BasisWithLengthLike,
@@ -81,14 +79,6 @@ def convert_overlap_to_momentum_basis(
     -------
     OverlapMomentum[_L0Inv, _L1Inv, _L2Inv]
     """
-    transformed = np.fft.ifftn(
-        overlap["data"].reshape(overlap["basis"].shape),
-        axes=(0, 1, 2),
-        s=overlap["basis"].fundamental_shape,
-        norm="forward",
-    )
-    transformed.reshape(-1)
-
     return convert_overlap_to_basis(
         overlap, stacked_basis_as_fundamental_momentum_basis(overlap["basis"][0])
     )
-- 
2.43.0


From c3a1e4b24407caa6f52575fed4d6af7717557c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 47/65] fix: the overlap of states shifted by a stacked index
 wraps each axis on its own

---
 surface_potential_analysis/overlap/calculation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/overlap/calculation.py b/surface_potential_analysis/overlap/calculation.py
index 260f90e..bd21354 100644
--- a/surface_potential_analysis/overlap/calculation.py
+++ b/surface_potential_analysis/overlap/calculation.py
@@ -101,12 +101,14 @@ def calculate_state_vector_list_overlap(
     Overlap[TupleBasisLike[*tuple[FundamentalPositionBasis[Any, Any], ...]], _B1, _B1].
     """
     stacked = states["data"].reshape(states["basis"].shape)
-    shift = (
-        BasisUtil(states["basis"][1]).get_flat_index(shift, mode="wrap")
-        if isinstance(shift, tuple)
-        else shift
-    )
-    stacked_shifted = np.roll(stacked, shift, axis=(1))
+    if isinstance(shift, tuple):
+        shape = BasisUtil(states["basis"][1]).shape
+        axes = tuple(range(1, 1 + len(shape)))
+        stacked_shifted = np.roll(
+            stacked.reshape(-1, *shape), shift, axis=axes
+        ).reshape(stacked.shape)
+    else:
+        stacked_shifted = np.roll(stacked, shift, axis=(1))
     # stacked = i, j where i indexes the state and j indexes the position
     data = np.conj(stacked)[np.newaxis, :, :] * (stacked_shifted[:, np.newaxis, :])
     return {
-- 
2.43.0


From 6598b69cb9788f2af1432138ddd9097b49cbff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 48/65] fix: the fractions of each axis of an overlap are those
 of its own size

---
 surface_potential_analysis/overlap/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/overlap/interpolation.py b/surface_potential_analysis/overlap/interpolation.py
index de9fc73..a682b58 100644
--- a/surface_potential_analysis/overlap/interpolation.py
+++ b/surface_potential_analysis/overlap/interpolation.py
@@ -69,7 +69,7 @@ def get_overlap_momentum_interpolator_k_fractions(
         overlap["basis"][0], util.stacked_nx_points, axes=(0, 1)
     )
     x_fractions = np.asarray(nx_points_wrapped, dtype=float)[:, :, np.newaxis]
-    x_fractions /= util.shape[0]
+    x_fractions /= np.asarray(util.shape)[:, np.newaxis, np.newaxis]
 
     def _interpolator(
         k_fractions: ArrayStackedIndexFractionLike[_S0Inv],
-- 
2.43.0


From 566933c653a3ce6fe01f847dd94bb8f158e783d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 49/65] fix: points are folded into the brillouin zone in any
 number of dimensions

---
 surface_potential_analysis/stacked_basis/brillouin_zone.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/brillouin_zone.py b/surface_potential_analysis/stacked_basis/brillouin_zone.py
index 5257d0c..a288f1f 100644
--- a/surface_potential_analysis/stacked_basis/brillouin_zone.py
+++ b/surface_potential_analysis/stacked_basis/brillouin_zone.py
@@ -79,11 +79,7 @@ def fold_point_in_bragg_plane(
     # If we denote the plane by the normal n and point p, where p.n n = p
     # we find p is given by bragg_point / 2.
     # The two reflections are then equivalent to a translation a - 2p.
-    return (
-        (coordinate[0] - bragg_point[0]),  # type: ignore cant infer
-        (coordinate[1] - bragg_point[1]),
-        (coordinate[2] - bragg_point[2]),
-    )
+    return tuple(c - b for c, b in zip(coordinate, bragg_point, strict=True))  # type: ignore[return-value]
 
 
 def get_bragg_point_basis(
-- 
2.43.0


From d016aa73545795fd7f54821e31bae7f9b670cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 50/65] fix: the phase of each bloch state of a localized
 wavepacket multiplies that state

---
 .../wavepacket/localization/_tight_binding.py          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_tight_binding.py b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
index c8ea059..23f1510 100644
--- a/surface_potential_analysis/wavepacket/localization/_tight_binding.py
+++ b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
@@ -291,9 +291,10 @@ def localize_tightly_bound_wavepacket_two_point_max(
     # !         )
     # !     )
     # ! )
-    fixed_eigenvectors = wavepacket["data"] * phases[:, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
 
 
 @timed
@@ -330,6 +331,7 @@ def localize_tightly_bound_wavepacket_max_point(
     global_phases = _get_global_phases(wavepacket, max_idx)
 
     phases = np.exp(-1j * (bloch_phases + global_phases - angle))
-    fixed_eigenvectors = wavepacket["data"] * phases[:, :, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
-- 
2.43.0


From 0b856227ffed2d5d55e15af53e7138785edc82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 51/65] fix: the point a wavepacket is localized to is wrapped
 by whole unit cells

---
 .../wavepacket/localization/_tight_binding.py          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_tight_binding.py b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
index 23f1510..e838232 100644
--- a/surface_potential_analysis/wavepacket/localization/_tight_binding.py
+++ b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
@@ -186,7 +186,8 @@ def get_wavepacket_two_points(
     -------
     tuple[SingleStackedIndexLike, SingleStackedIndexLike]
     """
-    util = BasisUtil(wavepacket["basis"][1])
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
+    util = BasisUtil(unit_cell)
     origin = (util.shape[0] * offset[0], util.shape[1] * offset[1], 0)
 
     converted = convert_state_vector_to_position_basis(
@@ -197,9 +198,9 @@ def get_wavepacket_two_points(
         SingleStackedIndexLike,
         converted_util.get_stacked_index(np.argmax(np.abs(converted["data"]), axis=-1)),
     )
-    idx_0 = wrap_index_around_origin(wavepacket["basis"][1], idx_0, origin=origin)
+    idx_0 = wrap_index_around_origin(unit_cell, idx_0, origin=origin)
     idx_1 = get_x01_mirrored_index(idx_0)
-    idx_1 = wrap_index_around_origin(wavepacket["basis"][1], idx_1, origin=origin)
+    idx_1 = wrap_index_around_origin(unit_cell, idx_1, origin=origin)
     return (idx_0, idx_1)
 
 
@@ -325,7 +326,8 @@ def localize_tightly_bound_wavepacket_max_point(
     )
     max_idx = cast(SingleFlatIndexLike, np.argmax(np.abs(converted["data"]), axis=-1))
     max_idx = BasisUtil(converted["basis"]).get_stacked_index(max_idx)
-    max_idx = wrap_index_around_origin(wavepacket["basis"][1], max_idx, axes=(0, 1))
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
+    max_idx = wrap_index_around_origin(unit_cell, max_idx, axes=(0, 1))
 
     bloch_phases = _get_bloch_wavefunction_phases(wavepacket, max_idx)
     global_phases = _get_global_phases(wavepacket, max_idx)
-- 
2.43.0


From 01a53f3058d3081ba235619f990b1111b6681042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 52/65] fix: the exponential state decays with the distance
 from its origin in unit cells

---
 .../wavepacket/localization/_projection.py          | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_projection.py b/surface_potential_analysis/wavepacket/localization/_projection.py
index 1e65bd1..60022a7 100644
--- a/surface_potential_analysis/wavepacket/localization/_projection.py
+++ b/surface_potential_analysis/wavepacket/localization/_projection.py
@@ -298,15 +298,16 @@ def get_exponential_state(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
+    origin_stacked = wrap_index_around_origin(unit_cell, origin_stacked)
 
     coordinates = wrap_index_around_origin(
         state_0["basis"], util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_util = BasisUtil(wavepacket["basis"])
-    dx0 = coordinates[0] - origin_stacked[0] / unit_cell_util.fundamental_shape[0]
-    dx1 = coordinates[1] - origin_stacked[1] / unit_cell_util.fundamental_shape[1]
-    dx2 = coordinates[2] - origin_stacked[2] / unit_cell_util.fundamental_shape[2]
+    dx = tuple(
+        (c - o) / w
+        for (c, o, w) in zip(coordinates, origin_stacked, unit_cell.shape, strict=True)
+    )
 
     out: StateVector[
         TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]]
@@ -314,7 +315,7 @@ def get_exponential_state(
         "basis": state_0["basis"],
         "data": np.zeros_like(state_0["data"]),
     }
-    out["data"] = np.exp(-(dx0**2 + dx1**2 + dx2**2))
+    out["data"] = np.exp(-np.sum(np.square(dx), axis=0))
     out["data"] /= np.linalg.norm(out["data"])  # type: ignore can be float
     return out
 
-- 
2.43.0


From 40ae87688fb357a23cfcebcf5870da58f4161444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 53/65] fix: the gaussian state is measured in unit cells of
 the wavepacket

---
 .../wavepacket/localization/_projection.py                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_projection.py b/surface_potential_analysis/wavepacket/localization/_projection.py
index 60022a7..a05d4a6 100644
--- a/surface_potential_analysis/wavepacket/localization/_projection.py
+++ b/surface_potential_analysis/wavepacket/localization/_projection.py
@@ -390,15 +390,15 @@ def get_gaussian_states(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
+    origin_stacked = wrap_index_around_origin(unit_cell, origin_stacked)
 
     coordinates = wrap_index_around_origin(
         basis, util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_shape = (wavepacket["basis"]).shape
     dx = tuple(
         (c - o) / w
-        for (c, o, w) in zip(coordinates, origin_stacked, unit_cell_shape, strict=True)
+        for (c, o, w) in zip(coordinates, origin_stacked, unit_cell.shape, strict=True)
     )
 
     out: StateVectorList[
-- 
2.43.0


From e695bf610572a107a13bef51d88d661dc1c72eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 54/65] fix: each eigenstate of position is a wavepacket of its
 own

---
 .../wavepacket/localization/_operator.py              | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_operator.py b/surface_potential_analysis/wavepacket/localization/_operator.py
index b5bac7a..175a164 100644
--- a/surface_potential_analysis/wavepacket/localization/_operator.py
+++ b/surface_potential_analysis/wavepacket/localization/_operator.py
@@ -109,9 +109,12 @@ def _localize_operator(
         {
             "basis": wavepacket["basis"],
             "eigenvalue": wavepacket["eigenvalue"],
-            "data": wavepacket["data"] * vector[:, np.newaxis],
+            "data": (
+                wavepacket["data"].reshape(wavepacket["basis"].shape)
+                * vector[:, np.newaxis]
+            ).reshape(-1),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -172,7 +175,7 @@ def localize_position_operator_many_band(
             "basis": basis,
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -206,5 +209,5 @@ def localize_position_operator_many_band_individual(
             "basis": states[0]["basis"],
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
-- 
2.43.0


From f4b18c4774d18ee2dbc1a536c5b505f66428df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 55/65] fix: the identity localization operator has a state for
 each band

---
 surface_potential_analysis/wavepacket/localization_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index c2babe1..41adb26 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -204,7 +204,7 @@ def get_identity_operator(
     return diagonal_operator_list_as_full(
         {
             "basis": TupleBasis(
-                basis[1], TupleBasis(FundamentalBasis(basis[1].n), basis[0])
+                basis[1], TupleBasis(FundamentalBasis(basis[0].n), basis[0])
             ),
             "data": np.ones(basis.n, dtype=np.complex128),
         }
-- 
2.43.0


From 6b2f5c2575f885f3d47d9129f5bae3bc573d1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 56/65] fix: npy_cached saves to the path it loads from

---
 surface_potential_analysis/util/decorators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/decorators.py b/surface_potential_analysis/util/decorators.py
index 23342c8..3a3e7ba 100644
--- a/surface_potential_analysis/util/decorators.py
+++ b/surface_potential_analysis/util/decorators.py
@@ -100,7 +100,9 @@ def npy_cached(
             except FileNotFoundError:
                 arr = f(*args, **kw)
                 # Saving pickeld
-                np.save(cache_path, np.asanyarray(arr), allow_pickle=save_pickle)
+                # given a path, np.save would append .npy to it
+                with open(cache_path, "wb") as file:  # noqa: PTH123
+                    np.save(file, np.asanyarray(arr), allow_pickle=save_pickle)
 
             return arr
 
-- 
2.43.0


From fbaf546cd4cdb75205d2bac96c83e1259fe631ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 57/65] fix: a cache file that could not be written completely
 is not left behind

---
 surface_potential_analysis/util/decorators.py | 48 +++++++++++++++----
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/util/decorators.py b/surface_potential_analysis/util/decorators.py
index 3a3e7ba..2a50743 100644
--- a/surface_potential_analysis/util/decorators.py
+++ b/surface_potential_analysis/util/decorators.py
@@ -1,16 +1,23 @@
 from __future__ import annotations
 
 import datetime
+import os
 import pickle  # noqa: S403
 from collections.abc import Callable, Mapping
 from functools import update_wrapper, wraps
-from typing import TYPE_CHECKING, Any, Generic, Literal, ParamSpec, TypeVar, overload
+from pathlib import Path
+from typing import (
+    Any,
+    BinaryIO,
+    Generic,
+    Literal,
+    ParamSpec,
+    TypeVar,
+    overload,
+)
 
 import numpy as np
 
-if TYPE_CHECKING:
-    from pathlib import Path
-
 _P = ParamSpec("_P")
 _R = TypeVar("_R")
 _RD = TypeVar("_RD", bound=Mapping[Any, Any])
@@ -44,6 +51,26 @@ def timed(f: Callable[_P, _R]) -> Callable[_P, _R]:
     return wrap  # type: ignore[return-value]
 
 
+def _write_file(path: Path, write: Callable[[BinaryIO], None]) -> None:
+    """
+    Write a cache file, which is left as it was if writing it fails.
+
+    Parameters
+    ----------
+    path : Path
+        The file to write
+    write : Callable[[BinaryIO], None]
+        Writes the content of the file
+    """
+    temporary = path.with_name(f"{path.name}.{os.getpid()}.tmp")
+    try:
+        with temporary.open("wb") as f:
+            write(f)
+        temporary.replace(path)
+    finally:
+        temporary.unlink(missing_ok=True)
+
+
 @overload
 def npy_cached(
     path: Path | None,
@@ -100,9 +127,11 @@ def npy_cached(
             except FileNotFoundError:
                 arr = f(*args, **kw)
                 # Saving pickeld
-                # given a path, np.save would append .npy to it
-                with open(cache_path, "wb") as file:  # noqa: PTH123
-                    np.save(file, np.asanyarray(arr), allow_pickle=save_pickle)
+                data = np.asanyarray(arr)
+                _write_file(
+                    Path(cache_path),
+                    lambda file: np.save(file, data, allow_pickle=save_pickle),
+                )
 
             return arr
 
@@ -149,8 +178,9 @@ class CachedFunction(Generic[_P, _RD]):
         obj = self.call_uncached(*args, **kw)
         cache_path = self._get_cache_path(*args, **kw)
         if cache_path is not None:
-            with cache_path.open("wb") as f:
-                pickle.dump(obj, f, pickle.HIGHEST_PROTOCOL)
+            _write_file(
+                cache_path, lambda f: pickle.dump(obj, f, pickle.HIGHEST_PROTOCOL)
+            )
         return obj
 
     def _load_cache(self, *args: _P.args, **kw: _P.kwargs) -> _RD | None:
-- 
2.43.0


From 0dbb191db2a0fe43483a412f43303de058d75299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 58/65] fix: get_twice_average_nx with opposite points along
 one axis only

---
 surface_potential_analysis/basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/util.py b/surface_potential_analysis/basis/util.py
index f8c16df..fa1dc4c 100644
--- a/surface_potential_analysis/basis/util.py
+++ b/surface_potential_analysis/basis/util.py
@@ -517,7 +517,7 @@ def get_twice_average_nx(
     is_nan = np.isnan(average_angles)
     if np.any(is_nan):
         for i, angle in enumerate(angles):
-            average_angles[i][is_nan[i]] = np.average(angle[:, is_nan[i]], axis=0)
+            average_angles[i][is_nan[i]] = np.mean(angle[:, is_nan[i]], axis=0)
 
     # Interpret this back as a coordinate. Note we multiply average by 2 here
     return tuple(
-- 
2.43.0


From 51c0e1f3ae675f0f408fba869b541b41bcae71ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 59/65] fix: locations of the bands of a simulation are
 fractions of the unit cell

---
 surface_potential_analysis/dynamics/tunnelling_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/tunnelling_basis.py b/surface_potential_analysis/dynamics/tunnelling_basis.py
index 99f6977..78036f2 100644
--- a/surface_potential_analysis/dynamics/tunnelling_basis.py
+++ b/surface_potential_analysis/dynamics/tunnelling_basis.py
@@ -64,7 +64,7 @@ class TunnellingSimulationBandsBasis(FundamentalBasis[_L0_co]):
         for i, w in enumerate(wavepacket_list_into_iter(wavepackets)):
             idx0, idx1 = get_wavepacket_two_points(w)
             location = np.average([idx0, idx1], axis=0)  # type: ignore lib
-            locations[:, i] = location[0:2]
+            locations[:, i] = location[0:2] / np.array(util.fundamental_shape[0:2])
         return cls(locations, tuple(util.delta_x_stacked[0:2, 0:2]))  # type: ignore[arg-type]
 
 
-- 
2.43.0


From 4f6f7dd15de09224af884c9e5c01b47d18c4d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 60/65] fix: solve_schrodinger_equation starts from the initial
 state at t=0

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 77e5f58..cc67180 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -172,10 +172,13 @@ def solve_schrodinger_equation(
         hamiltonian["data"].reshape(hamiltonian["basis"].shape) / hbar,
     )
     initial_state_qobj = qutip.Qobj(initial_state["data"])
+    # The initial state is the state at t=0, but qutip takes it
+    # as the state at the first of the times it is given
+    is_offset = times.times[0] != 0
     result = qutip.sesolve(  # type: ignore lib
         hamiltonian_qobj,
         initial_state_qobj,
-        times.times,
+        np.concatenate([[0.0], times.times]) if is_offset else times.times,
         e_ops=[],
         options={
             "progress_bar": "enhanced",
@@ -186,7 +189,9 @@ def solve_schrodinger_equation(
     return {
         "basis": TupleBasis(times, hamiltonian["basis"][0]),
         "data": np.array(
-            np.asarray([state.full().reshape(-1) for state in result.states]),  # type: ignore lib
+            np.asarray(
+                [state.full().reshape(-1) for state in result.states[is_offset:]]  # type: ignore lib
+            ),
             dtype=np.complex128,
         ).reshape(-1),
     }
-- 
2.43.0


From fe807b098fb3f2142b448f5f17b5485410f13c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 61/65] fix: solve_schrodinger_equation keeps the norm of the
 initial state

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index cc67180..d495ef8 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -184,6 +184,8 @@ def solve_schrodinger_equation(
             "progress_bar": "enhanced",
             "store_states": True,
             "nsteps": times.step,
+            # Do not replace the norm of the initial state with 1
+            "normalize_output": False,
         },
     )
     return {
-- 
2.43.0


From af0d8dbffc1db3783dc5762b0a3e06f87770d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:29 +0000
Subject: [PATCH 62/65] fix: interpolate_points_along_axis_spline along an axis
 other than the last

---
 surface_potential_analysis/util/interpolation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 97f6916..d75a3cd 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -243,12 +243,11 @@ def interpolate_points_along_axis_spline(
     new_shape[axis] = n
     points = np.empty(new_shape)
 
-    swapped_points = points.swapaxes(axis, -1).reshape(-1, n)
+    swapped_points = points.swapaxes(axis, -1)
+    swapped_data = data.swapaxes(axis, -1)
 
-    flat_data = data.swapaxes(axis, -1).reshape(-1, data.shape[axis])
-
-    for i in range(flat_data.shape[0]):
-        old_energies = flat_data[i]
+    for i in np.ndindex(swapped_data.shape[:-1]):
+        old_energies = swapped_data[i]
         tck = scipy.interpolate.splrep(old_coords, old_energies, s=0)  # type: ignore bad type inference
         new_energy = scipy.interpolate.splev(new_coords, tck, der=0)  # type: ignore bad type inference
         swapped_points[i] = new_energy  # type: ignore bad type inference
-- 
2.43.0


From 693c3bada48860cbcbe3e7a8b39af47002fc035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:29 +0000
Subject: [PATCH 63/65] fix: the points of an interpolated uneven potential are
 at their heights

---
 surface_potential_analysis/potential/potential.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index c532bed..6ed769f 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -261,20 +261,14 @@ def interpolate_uneven_potential(
     )
     delta_x_0 = np.concatenate([data["basis"][0].delta_x, [0]])
     delta_x_1 = np.concatenate([data["basis"][1].delta_x, [0]])
+    # The last of the points is at the end of the range of z, and the
+    # unit cell extends one more step beyond it
+    dz = (data["basis"][2].z_points[-1] - data["basis"][2].z_points[0]) / (shape[2] - 1)
     return {
         "basis": TupleBasis(
             FundamentalPositionBasis(delta_x_0, shape[0]),
             FundamentalPositionBasis(delta_x_1, shape[1]),
-            FundamentalPositionBasis(
-                np.array(
-                    [
-                        0,
-                        0,
-                        data["basis"][2].z_points[-1] - data["basis"][2].z_points[0],
-                    ]
-                ),
-                shape[2],
-            ),
+            FundamentalPositionBasis(np.array([0, 0, shape[2] * dz]), shape[2]),
         ),
         "data": interpolated.reshape(-1),  # type: ignore[typeddict-item]
     }
-- 
2.43.0


From e2bec6282dfff38bd7c26aee4ea5b2b4b4c58334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 64/65] fix: fits of the isf to two rates move away from their
 first guess

---
 surface_potential_analysis/dynamics/isf.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/dynamics/isf.py b/surface_potential_analysis/dynamics/isf.py
index 4e8e6f6..0e49cf6 100644
--- a/surface_potential_analysis/dynamics/isf.py
+++ b/surface_potential_analysis/dynamics/isf.py
@@ -595,16 +595,21 @@ def fit_isf_to_fey_model_110(
         f: float,
         s: float,
     ) -> np.ndarray[Any, Any]:
-        return calculate_isf_fey_model_110(t, f, s, a_dk=a_dk)
+        return calculate_isf_fey_model_110(
+            t, f * scale[0], s * scale[1], a_dk=a_dk
+        )
 
+    # The gradient with respect to the rates themselves is so small that the
+    # fit would end where it starts
+    scale = (1.4e9, 3e8)
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
         isf["basis"][0].times,
         data,
-        p0=(1.4e9, 3e8),
+        p0=(1, 1),
         bounds=([0, 0], [np.inf, np.inf]),
     )
-    return ISFFeyModelFit(params[0], params[1], a_dk=a_dk)  # type: ignore lib
+    return ISFFeyModelFit(params[0] * scale[0], params[1] * scale[1], a_dk=a_dk)  # type: ignore lib
 
 
 def fit_isf_to_fey_model_112bar(
@@ -632,13 +637,18 @@ def fit_isf_to_fey_model_112bar(
         f: float,
         s: float,
     ) -> np.ndarray[Any, Any]:
-        return calculate_isf_fey_model_112bar(t, f, s, a_dk=a_dk)
+        return calculate_isf_fey_model_112bar(
+            t, f * scale[0], s * scale[1], a_dk=a_dk
+        )
 
+    # The gradient with respect to the rates themselves is so small that the
+    # fit would end where it starts
+    scale = (2e10, 1e10)
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
         isf["basis"][0].times,
         data,
-        p0=(2e10, 1e10),
+        p0=(1, 1),
         bounds=([0, 0], [np.inf, np.inf]),
     )
-    return ISFFeyModelFit(params[0], params[1], a_dk=a_dk)  # type: ignore lib
+    return ISFFeyModelFit(params[0] * scale[0], params[1] * scale[1], a_dk=a_dk)  # type: ignore lib
-- 
2.43.0


From 4038b46d996018388e943c5d2931cb9b556d850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 65/65] fix: fit of the isf to two exponentials does not end
 early

---
 surface_potential_analysis/dynamics/isf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/dynamics/isf.py b/surface_potential_analysis/dynamics/isf.py
index 0e49cf6..6d95509 100644
--- a/surface_potential_analysis/dynamics/isf.py
+++ b/surface_potential_analysis/dynamics/isf.py
@@ -176,19 +176,23 @@ def fit_isf_to_double_exponential(
         c: np.ndarray[Any, Any],
         d: np.ndarray[Any, Any],
     ) -> np.ndarray[Any, Any]:
+        b, d = b * scale, d * scale
         return a * np.exp(-(b) * t) + c * np.exp(-(d) * t) + (1 - a - c)
 
+    # The rates are fitted relative to a typical rate: their own gradient
+    # is so small that the fit would end early
+    scale = 1e10
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
         isf["basis"][0].times,
         data,
-        p0=(0.5, 2e10, 0.5, 1e10),
+        p0=(0.5, 2, 0.5, 1),
         bounds=([0, 0, 0, 0], [1, np.inf, 1, np.inf]),
     )
     return ISF4VariableFit(
-        params[1],  # type: ignore lib
+        params[1] * scale,  # type: ignore lib
         params[0],  # type: ignore lib
-        params[3],  # type: ignore lib
+        params[3] * scale,  # type: ignore lib
         params[2],  # type: ignore lib
         1 - params[0] - params[2],  # type: ignore lib
     )
-- 
2.43.0

