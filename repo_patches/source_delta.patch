From 65b82f90d584792efa14006c54fc15aea49318eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 01/17] fix: conjugate the unitary part in co-representation
 matrices of the coset a0*D

---
 src/spgrep/corep.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index b0fbafc..8a9ef55 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -189,7 +189,9 @@ def enumerate_spinor_small_corepresentations(
             corep = np.zeros((order, dim, dim), dtype=np.complex_)
             corep[xsg_indices] = irrep
             corep[a0u] = (
-                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * U[None, :, :] @ irrep
+                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
+                * U[None, :, :]
+                @ np.conj(irrep)
             )
         elif indicator == -1:
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
@@ -209,7 +211,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         elif indicator == 0:
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
@@ -230,7 +232,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         else:
             raise ValueError("Unreachable!")
-- 
2.43.0


From 30c8dad224470bfcc5ab4b32d54fb0e06629b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 02/17] fix: use the same unitary irrep in both blocks of
 indicator -1 co-representations

---
 src/spgrep/corep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 8a9ef55..9e7ff51 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -198,9 +198,9 @@ def enumerate_spinor_small_corepresentations(
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
 
             # [ [irrep, 0],
-            #   [0, conj_irrep]]
+            #   [0, irrep]]
             corep[xsg_indices, :dim, :dim] = irrep
-            corep[xsg_indices, dim:, dim:] = conj_irrep
+            corep[xsg_indices, dim:, dim:] = irrep
 
             # [ [0, -U],
             #   [U, 0] ]
-- 
2.43.0


From 887e18e37067f20f3f3faaed98eb9f892ee33720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 03/17] fix: let anti-unitary operations reverse the k-vector
 in co-representations

---
 src/spgrep/core.py  |  6 ++++--
 src/spgrep/corep.py |  1 +
 src/spgrep/group.py | 16 ++++++++++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 112a1a8..23c5b70 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -536,14 +536,16 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
         kpoint = np.zeros(3)
 
     # Sanity check to use primitive cell
-    for rotation, translation in zip(rotations, translations):
+    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
+        if time_reversals is not None and time_reversals[i]:
+            continue  # Anti-translations of type-IV magnetic space groups
         if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
             translation, 0, atol=atol
         ):
             raise ValueError("Specify symmetry operations in primitive cell!")
 
     little_rotations, little_translations, mapping_little_group = get_little_group(
-        rotations, translations, kpoint, atol=atol
+        rotations, translations, kpoint, atol=atol, time_reversals=time_reversals
     )
 
     if time_reversals is None:
diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 9e7ff51..13fa71d 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -108,6 +108,7 @@ def enumerate_spinor_small_corepresentations(
         little_rotations,
         little_translations,
         kpoint,
+        little_time_reversals,
     )
     factor_system = corep_spinor_factor_system * nonsymmorphic_factor_system
 
diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 67e82ff..afd95c1 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -102,6 +102,7 @@ def get_factor_system_from_little_group(
     little_rotations: NDArrayInt,
     little_translations: NDArrayFloat,
     kpoint: NDArrayFloat,
+    little_time_reversals: NDArrayInt | None = None,
 ) -> NDArrayComplex:
     r"""Calculate factor system of projective representation of little co-group.
 
@@ -118,6 +119,8 @@ def get_factor_system_from_little_group(
     little_translations: array, (order, 3)
         Translation parts of coset of little group stabilizing ``kpoint``.
     kpoint: array, (3, )
+    little_time_reversals: (Optional) array[int], (order, )
+        If specified, :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} + \mathbf{k}` for the anti-unitary operations.
 
     Returns
     -------
@@ -129,7 +132,10 @@ def get_factor_system_from_little_group(
     residuals = np.zeros((n, 3))
     for i, rotation in enumerate(little_rotations):
         # Never take modulus!
-        residuals[i] = rotation.T @ kpoint - kpoint
+        if little_time_reversals is not None and little_time_reversals[i]:
+            residuals[i] = rotation.T @ kpoint + kpoint
+        else:
+            residuals[i] = rotation.T @ kpoint - kpoint
 
     factor_system = np.zeros((n, n), dtype=np.complex_)
     for i, residual in enumerate(residuals):
@@ -144,6 +150,7 @@ def get_little_group(
     translations: NDArrayFloat,
     kpoint: NDArrayFloat,
     atol: float = 1e-8,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, NDArrayInt]:
     """Return coset of little group of given space group which stabilize kpoint under rotations.
 
@@ -152,6 +159,8 @@ def get_little_group(
     rotations: array, (order, 3, 3)
     translations: array, (order, 3)
     kpoint: array, (3, )
+    time_reversals: (Optional) array[int], (order, )
+        If specified, the anti-unitary operations additionally reverse ``kpoint``.
 
     Returns
     -------
@@ -166,7 +175,10 @@ def get_little_group(
     mapping_little_group = []
 
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        residual = rotation.T @ kpoint - kpoint
+        if time_reversals is not None and time_reversals[i]:
+            residual = rotation.T @ kpoint + kpoint
+        else:
+            residual = rotation.T @ kpoint - kpoint
         residual = residual - np.rint(residual)
         if not np.allclose(residual, 0, atol=atol):
             continue
-- 
2.43.0


From e3b1a636b231f7e34d87699f932839431c67ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 04/17] fix: map new operations to their index among the unique
 primitive operations

---
 src/spgrep/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index c31dcae..cb01c06 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -84,7 +84,7 @@ def unique_primitive_symmetry(
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = i
+            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1
             rotations_int.append(rotation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
-- 
2.43.0


From 08a474fe28774e4ff2e0551ba82d47cabeda813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 05/17] fix: reach the primitive cell from any input setting,
 not only from the standardized one

---
 src/spgrep/core.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 23c5b70..f823bab 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -98,7 +98,9 @@ def get_spacegroup_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    to_primitive = _get_transformation_matrix_to_primitive(
+        dataset["hall_number"], dataset["transformation_matrix"]
+    )
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
@@ -379,7 +381,9 @@ def get_spacegroup_spinor_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    to_primitive = _get_transformation_matrix_to_primitive(
+        dataset["hall_number"], dataset["transformation_matrix"]
+    )
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
@@ -693,6 +697,14 @@ def get_crystallographic_pointgroup_spinor_irreps_from_symmetry(
 ################################################################################
 
 
+def _get_transformation_matrix_to_primitive(hall_number, transformation_matrix):
+    # (prim_lattice) = (std_lattice) @ std_to_primitive = (lattice) @ transformation_matrix^-1 @ std_to_primitive
+    std_to_primitive = get_primitive_transformation_matrix(hall_number)
+    # Basis vectors of the given cell are integer combinations of those of the primitive cell
+    primitive_to_given = np.rint(np.linalg.inv(std_to_primitive) @ transformation_matrix)
+    return np.linalg.inv(primitive_to_given)
+
+
 def _adjust_phase_for_centering_translations(
     prim_translations,
     prim_kpoint,
-- 
2.43.0


From 89beba31f0490605a479b517793d3330c7438003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 06/17] fix: do not reject projective irreps as reducible

---
 src/spgrep/representation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/representation.py b/src/spgrep/representation.py
index 63e1ce1..47c1b7a 100644
--- a/src/spgrep/representation.py
+++ b/src/spgrep/representation.py
@@ -285,7 +285,9 @@ def frobenius_schur_indicator(irrep: NDArrayComplex) -> int:
     indicator = np.einsum("kij,kji->", irrep, irrep, optimize="greedy") / order
     indicator = int(np.around(np.real(indicator)))
 
-    if indicator > 1:
+    # The indicator of projective irreps may exceed one
+    is_irreducible = np.isclose(np.sum(np.abs(get_character(irrep)) ** 2), order)
+    if indicator > 1 and not is_irreducible:
         raise ValueError(f"Given representation is not irreducible: indicator={indicator}")
 
     return indicator
-- 
2.43.0


From 7043326fa7e6410d7dbf29304d0d4c5fa63c7248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 07/17] fix: Frobenius-Schur indicator of small representations
 vanishes unless 2k is a reciprocal vector

---
 src/spgrep/irreps.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 1aae7d9..4280ed7 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -95,8 +95,15 @@ def enumerate_small_representations(
         )
         irreps.append(rep * phases[:, None, None])
 
+    # summation over translations becomes zero unless `2*kpoint equiv 0`
+    two_kpoint = 2 * np.asarray(kpoint, dtype=np.float_)
+    two_kpoint -= np.rint(two_kpoint)
+    is_two_kpoint_zero = np.allclose(two_kpoint, 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        indicators = [
+            frobenius_schur_indicator(irrep) if is_two_kpoint_zero else 0 for irrep in irreps
+        ]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -124,12 +131,7 @@ def enumerate_small_representations(
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
 
-        indicator = frobenius_schur_indicator(irrep)
-        # summation over translations becomes zero unless `2*kpoint equiv 0`
-        two_kpoint = 2 * kpoint
-        two_kpoint -= np.rint(two_kpoint)
-        if not np.allclose(two_kpoint, 0):
-            indicator = 0
+        indicator = frobenius_schur_indicator(irrep) if is_two_kpoint_zero else 0
 
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
-- 
2.43.0


From ef066b7b08eca3035f9db12a07692ccf2be935fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 08/17] fix: give the spinor factor system and rotations for
 every operation of a centered cell

---
 src/spgrep/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index f823bab..2a36b87 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -442,6 +442,11 @@ def get_spacegroup_spinor_irreps(
         mapping_prim_little_group,
     )
 
+    prim_little_indices = {idx: i for i, idx in enumerate(mapping_prim_little_group)}
+    conv_to_prim = [prim_little_indices[mapping_to_prim[i]] for i in mapping_little_group]
+    little_spinor_factor_system = little_spinor_factor_system[np.ix_(conv_to_prim, conv_to_prim)]
+    little_unitary_rotations = little_unitary_rotations[conv_to_prim]
+
     if magmoms is None:
         return (
             irreps,
@@ -456,7 +461,7 @@ def get_spacegroup_spinor_irreps(
             irreps,
             little_spinor_factor_system,
             little_unitary_rotations,
-            little_anti_linear,
+            little_anti_linear[conv_to_prim],
             rotations,
             translations,
             time_reversals,
-- 
2.43.0


From c3eb508ba35aaf7b77e4f1d8937026bd3be7f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 09/17] fix: keep anti-unitary operations when reducing a
 magnetic space group to its primitive cell

---
 src/spgrep/core.py      |  8 +++++---
 src/spgrep/transform.py | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 2a36b87..3b6d971 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -372,10 +372,12 @@ def get_spacegroup_spinor_irreps(
 
     if magmoms is None:
         dataset = get_symmetry_dataset(cell=(lattice, positions, numbers), symprec=symprec)
+        time_reversals = None
     else:
         dataset = get_magnetic_symmetry_dataset(
             cell=(lattice, positions, numbers, magmoms), symprec=symprec
         )
+        time_reversals = dataset["time_reversals"]
 
     rotations = dataset["rotations"]
     translations = dataset["translations"]
@@ -390,7 +392,7 @@ def get_spacegroup_spinor_irreps(
     prim_lattice = to_primitive.T @ lattice  # (AP)^T = P^T @ A^T
     # mapping_to_prim: [0..num_sym) -> [0..order)
     uniq_prim_rotations, uniq_prim_translations, mapping_to_prim = unique_primitive_symmetry(
-        prim_rotations, prim_translations
+        prim_rotations, prim_translations, time_reversals
     )
 
     if magmoms is None:
@@ -411,8 +413,8 @@ def get_spacegroup_spinor_irreps(
             max_num_random_generations=max_num_random_generations,
         )
     else:
-        time_reversals = dataset["time_reversals"]
-        uniq_prim_time_reversals = time_reversals[mapping_to_prim]
+        uniq_prim_time_reversals = np.zeros(len(uniq_prim_rotations), dtype=np.int_)
+        uniq_prim_time_reversals[mapping_to_prim] = time_reversals
         (
             prim_irreps,
             _,
diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index cb01c06..7dd2fcb 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -53,7 +53,9 @@ def transform_symmetry_and_kpoint(
 
 
 def unique_primitive_symmetry(
-    rotations: NDArrayInt, translations: NDArrayFloat
+    rotations: NDArrayInt,
+    translations: NDArrayFloat,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, list[int]]:
     """Remove duplicated symmetry operations.
 
@@ -61,6 +63,8 @@ def unique_primitive_symmetry(
     ----------
     rotations: array, (num_sym, 3, 3)
     translations: array, (num_sym, 3)
+    time_reversals: (Optional) array[int], (num_sym, )
+        If specified, operations with different time-reversal parts are distinguished.
 
     Returns
     -------
@@ -69,15 +73,18 @@ def unique_primitive_symmetry(
     mapping_to_primitive_symmetry: array, (num_sym, )
         ``(rotations[i], translations[i])`` is transformed to ``(unique_rotations[j], unique_translations[j])`` where ``j = mapping_to_primitive_symmetry[i]``.
     """
-    rotations_int: list[tuple[tuple[int]]] = []
+    if time_reversals is None:
+        time_reversals = np.zeros(len(rotations), dtype=np.int_)
+
+    operations_int: list[tuple[tuple[tuple[int]], int]] = []
 
     unique_rotations = []
     unique_translations = []
     mapping_to_primitive_symmetry = [-1 for _ in range(len(rotations))]
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        rotation_int = ndarray2d_to_integer_tuple(rotation)
+        operation_int = (ndarray2d_to_integer_tuple(rotation), int(time_reversals[i]))
         try:
-            j = rotations_int.index(rotation_int)
+            j = operations_int.index(operation_int)
             # Duplicated symmetry operation
             mapping_to_primitive_symmetry[i] = j
         except ValueError:
@@ -85,7 +92,7 @@ def unique_primitive_symmetry(
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
             mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1
-            rotations_int.append(rotation_int)
+            operations_int.append(operation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
 
-- 
2.43.0


From 7cf31615883d6559f4c881154d35e8f7d0cf4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 10/17] fix: recognize type-I groups in the coset decomposition
 of magnetic space groups

---
 src/spgrep/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index afd95c1..69af93f 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -236,7 +236,7 @@ def decompose_by_maximal_space_subgroup(
     a0_idx: int
         Index of :math:`a_{0}` in given list of symmetries
     """
-    if np.all(time_reversals == 1):
+    if np.all(time_reversals == 0):
         # Type-I MSG
         return None
 
-- 
2.43.0


From d9d31337ac968b236588136e274c6c6fb981dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 11/17] fix: make physically irreducible representations of
 real type real for any symmetric intertwiner

---
 src/spgrep/irreps.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 4280ed7..2ab2e2d 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -598,21 +598,15 @@ def get_physically_irrep(
             irrep, conj_irrep, atol=atol, max_num_random_generations=max_num_random_generations
         )
 
-        # Take real or imaginary part of eigenvectors for new basis vectors
-        eigvals, eigvecs = np.linalg.eig(U)  # eigvecs[:, i] is the i-th eigenvector
-        real_eigvecs = []
-        for eigvec in np.transpose(eigvecs):
-            if not np.allclose(np.real(eigvec), 0, atol=atol):
-                real_eigvec = np.real(eigvec)
-            else:
-                real_eigvec = np.imag(eigvec)
-            real_eigvecs.append(real_eigvec / np.linalg.norm(real_eigvec))
-        S = np.transpose(real_eigvecs)
+        # Since U is symmetric and unitary, its real and imaginary parts are commuting symmetric matrices.
+        # Thus, eigenvectors of their generic combination are real and simultaneously diagonalize U.
+        _, S = np.linalg.eigh(np.real(U) + np.pi * np.imag(U))  # S[:, i] is the i-th eigenvector
+        eigvals = np.diag(S.T @ U @ S)
 
         # Square root of intertwiner
-        T = S.T @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S
+        T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T
 
-        real_irrep = np.real(np.einsum("il,klm,mj->kij", T, irrep, np.conj(T), optimize="greedy"))
+        real_irrep = np.real(np.einsum("il,klm,mj->kij", np.conj(T), irrep, T, optimize="greedy"))
 
     elif indicator in [-1, 0]:
         real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)
-- 
2.43.0


From 8fcbb9270aba8e547c407242583ecab20f061c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 12/17] fix: find point-group chain generators in skewed
 primitive bases

---
 src/spgrep/pointgroup.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/pointgroup.py b/src/spgrep/pointgroup.py
index 0fde970..7740072 100644
--- a/src/spgrep/pointgroup.py
+++ b/src/spgrep/pointgroup.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 import numpy as np
-from spglib import get_pointgroup
+from spglib import get_pointgroup, niggli_reduce
 
 from spgrep.utils import NDArrayInt, ndarray2d_to_integer_tuple
 
@@ -693,7 +693,14 @@ def get_pointgroup_chain_generators(prim_rotations: NDArrayInt) -> list[int]:
         Let :math:`G_{0} := G` and :math:`G_{i} := G_{i-1} / \langle` ``solvable_chain_generators[i]`` :math:`\rangle` (i = 0, 1, ...).
         Then, :math:`G_{i}` is normal subgroup of :math:`G_{i-1}` and factor group :math:`G_{i-1}/G_{i}` is Abelian.
     """
-    pg_symbol, _, P = get_pointgroup(prim_rotations)
+    # Reduce basis vectors in advance because `get_pointgroup` may fail for skewed ones
+    metric = np.einsum("kil,kij->lj", prim_rotations, prim_rotations)  # Invariant under the group
+    basis = np.linalg.cholesky(metric)  # basis[i] is the i-th basis vector
+    reduction = np.rint(np.linalg.inv(basis.T) @ niggli_reduce(basis).T)
+    reduced_rotations = np.rint(np.linalg.inv(reduction) @ prim_rotations @ reduction).astype(int)
+
+    pg_symbol, _, P = get_pointgroup(reduced_rotations)
+    P = reduction @ P
     Pinv = np.linalg.inv(P)
 
     # Match given crystallographic point group with standardized ones in primitive basis.
-- 
2.43.0


From f418e8085d6bfb05ed794a5ec1aafd9fa51538be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 13/17] fix: spinor factor systems for lattices with finite
 numerical precision

---
 src/spgrep/corep.py  | 8 +++-----
 src/spgrep/spinor.py | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 13fa71d..2608f99 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -310,10 +310,8 @@ def get_corep_spinor_factor_system(
 
             # si @ sj = sk in O(3)
             k = table[i, j]
-            # Multiplier should be -1 or 1
-            for multiplier in [-1, 1]:
-                if np.allclose(uiuj, multiplier * unitary_rotations[k]):
-                    corep_spinor_factor_system[i, j] = multiplier
-                    break
+            # Multiplier should be -1 or 1 up to deviation of `lattice` from the exact symmetry
+            multiplier = np.rint(np.real(np.vdot(unitary_rotations[k], uiuj)) / 2)
+            corep_spinor_factor_system[i, j] = multiplier
 
     return corep_spinor_factor_system, unitary_rotations, anti_linear
diff --git a/src/spgrep/spinor.py b/src/spgrep/spinor.py
index 6948a7b..84b1402 100644
--- a/src/spgrep/spinor.py
+++ b/src/spgrep/spinor.py
@@ -136,11 +136,9 @@ def get_spinor_factor_system(
         # si @ sj = sk in O(3)
         k = table[i, j]
         uiuj = ui @ uj
-        # Multiplier should be -1 or 1
-        for multiplier in [-1, 1]:
-            if np.allclose(uiuj, multiplier * unitary_rotations[k]):
-                spinor_factor_system[i, j] = multiplier
-                break
+        # Multiplier should be -1 or 1 up to deviation of `lattice` from the exact symmetry
+        multiplier = np.rint(np.real(np.vdot(unitary_rotations[k], uiuj)) / 2)
+        spinor_factor_system[i, j] = multiplier
 
     return spinor_factor_system, unitary_rotations
 
-- 
2.43.0


From 06a3802945f49446f80c3b160e10eff3ce1d12d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 14/17] fix: decompose representations containing an irrep more
 than once

---
 src/spgrep/irreps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 2ab2e2d..b406722 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -325,6 +325,7 @@ def decompose_representation(
     irreps: list of unitary Irreps with (order, dim, dim)
     """
     dim0 = representation.shape[1]
+    character = get_character(representation)
 
     rng = np.random.default_rng(seed=0)
     for _ in range(max_num_random_generations):
@@ -344,7 +345,12 @@ def decompose_representation(
         # Decompose to subspaces corresponding to Irreps
         irreps = _get_irreps_from_matrix(representation, matrix, rtol=rtol)
 
-        if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:
+        # Equivalent irreps are listed only once in `irreps`
+        dim = 0.0
+        for irrep in irreps:
+            multiplicity = np.vdot(get_character(irrep), character) / len(representation)
+            dim += np.around(np.real(multiplicity)) * irrep.shape[1]
+        if dim == dim0:
             return irreps
 
     warn("Failed to search all irreps. Try increasing max_num_random_generations.")
-- 
2.43.0


From 0900022d232a264b334615a3fda8c67fd75e482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 15/17] fix: keep independent but non-orthogonal tensors when
 applying intrinsic symmetry

---
 src/spgrep/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/tensor.py b/src/spgrep/tensor.py
index 845718a..e667a3c 100644
--- a/src/spgrep/tensor.py
+++ b/src/spgrep/tensor.py
@@ -109,7 +109,7 @@ def apply_intrinsic_symmetry(
             and grassmann_distance(
                 sym_tensor.reshape(1, -1), np.concatenate(list_sym_basis, axis=0)
             )
-            < 0.5
+            < 1e-3
         ):
             continue
 
-- 
2.43.0


From 17b3f8f7a8a3d5f2f624168e650a95035f9c0ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 16/17] fix: refuse unknown Hall numbers in
 get_symmetry_from_hall_number

spglib's get_symmetry_from_database reads outside its tables for them, so that an empty or arbitrary list of operations was returned.
---
 src/spgrep/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spgrep/utils.py b/src/spgrep/utils.py
index 8fe16ca..ed0a315 100644
--- a/src/spgrep/utils.py
+++ b/src/spgrep/utils.py
@@ -40,6 +40,9 @@ def get_symmetry_from_hall_number(hall_number: int) -> tuple[NDArrayInt, NDArray
     rotations: (num_syms, 3, 3)
     translations: (num_syms, 3)
     """
+    # Spglib does not check the range of Hall numbers
+    if not 1 <= hall_number <= 530:
+        raise ValueError("Unknown Hall number: {}".format(hall_number))
     symmetry = get_symmetry_from_database(hall_number)
     rotations = symmetry["rotations"]
     translations = symmetry["translations"]
-- 
2.43.0


From 9f2c244a4181b2f6a2f319b97cf966d98f34dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 17/17] fix: warn when the inner product of characters is not
 an integer, not when its multiple by the order is not

---
 src/spgrep/representation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/spgrep/representation.py b/src/spgrep/representation.py
index 47c1b7a..7c894e1 100644
--- a/src/spgrep/representation.py
+++ b/src/spgrep/representation.py
@@ -156,11 +156,10 @@ def project_to_irrep(
     # Pre-compute number of independent basis vectors
     character_irrep = get_character(irrep)
     character = get_character(representation)
-    character_sum = np.sum(np.conj(character_irrep) * character)
-    if not np.isclose(character_sum, np.around(character_sum), atol=atol):
+    character_inner = np.sum(np.conj(character_irrep) * character) / order
+    if not np.isclose(character_inner, np.around(np.real(character_inner)), atol=atol):
         warn("Inner product of characters should return an integer.")
-    num_basis = np.around(character_sum) / order
-    num_basis = np.around(np.real(num_basis)).astype(int)
+    num_basis = np.around(np.real(character_inner)).astype(int)
     if num_basis == 0:
         return []
 
-- 
2.43.0

