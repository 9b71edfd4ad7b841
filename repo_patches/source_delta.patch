From 2207814f71ded39f9786b51c51a00e15b9486554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 01/17] fix: find chain generators when spglib gives no valid
 basis transformation

get_pointgroup_chain_generators raised LinAlgError or returned [] (so that no
irreps were returned) for point groups in bases where spglib.get_pointgroup
returns a singular or non-standardizing transformation matrix.
---
 src/spgrep/pointgroup.py | 77 ++++++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 19 deletions(-)

diff --git a/src/spgrep/pointgroup.py b/src/spgrep/pointgroup.py
index 0fde970..2fe0f5e 100644
--- a/src/spgrep/pointgroup.py
+++ b/src/spgrep/pointgroup.py
@@ -5,7 +5,8 @@ from __future__ import annotations
 import numpy as np
 from spglib import get_pointgroup
 
-from spgrep.utils import NDArrayInt, ndarray2d_to_integer_tuple
+from spgrep.group import get_cayley_table, get_identity_index
+from spgrep.utils import NDArrayInt, is_prime, ndarray2d_to_integer_tuple
 
 # List of point groups after applying transformation matrices given by `spglib.get_pointgroup`
 # See https://github.com/spglib/spglib/issues/164
@@ -694,25 +695,63 @@ def get_pointgroup_chain_generators(prim_rotations: NDArrayInt) -> list[int]:
         Then, :math:`G_{i}` is normal subgroup of :math:`G_{i-1}` and factor group :math:`G_{i-1}/G_{i}` is Abelian.
     """
     pg_symbol, _, P = get_pointgroup(prim_rotations)
-    Pinv = np.linalg.inv(P)
 
-    # Match given crystallographic point group with standardized ones in primitive basis.
+    # Spglib cannot always find a basis transformation to the standardized point group (`P` becomes singular or does not match),
+    # in particular when the primitive basis vectors are far from the conventional ones.
     order = len(prim_rotations)
-    for idx, std_rotations in enumerate(pg_dataset[pg_symbol]):
-        matched = [ndarray2d_to_integer_tuple(Pinv @ r @ P) for r in prim_rotations]
+    if not np.isclose(np.linalg.det(P), 0):
+        Pinv = np.linalg.inv(P)
 
-        success = True
-        mapping = [-1 for _ in range(order)]  # s.t. prim_rotations[mapping[i]] == std_rotations[i]
-        for i, ri in enumerate(std_rotations):
-            try:
-                j = matched.index(ri)  # type: ignore
-            except ValueError:
-                success = False
-                break
-            mapping[i] = j
-        if success:
-            generators = get_generators(pg_symbol, idx)
-            return [mapping[g] for g in generators]
+        # Match given crystallographic point group with standardized ones in primitive basis.
+        for idx, std_rotations in enumerate(pg_dataset[pg_symbol]):
+            matched = [ndarray2d_to_integer_tuple(Pinv @ r @ P) for r in prim_rotations]
 
-    ValueError("Failed to match with tabulated point groups.")
-    return []  # This line is unreachable, just for persuading mypy!
+            success = True
+            mapping = [-1 for _ in range(order)]  # prim_rotations[mapping[i]] == std_rotations[i]
+            for i, ri in enumerate(std_rotations):
+                try:
+                    j = matched.index(ri)  # type: ignore
+                except ValueError:
+                    success = False
+                    break
+                mapping[i] = j
+            if success:
+                generators = get_generators(pg_symbol, idx)
+                return [mapping[g] for g in generators]
+
+    # Otherwise, directly search from the multiplication table
+    return _search_chain_generators(get_cayley_table(prim_rotations))
+
+
+def _search_chain_generators(table: NDArrayInt) -> list[int]:
+    """Search generators such that each of them normalizes the subgroup generated by the following ones.
+
+    Each generator has prime order, or its order can be arbitrary for the last one, and its cyclic group trivially intersects with the subgroup.
+    """
+    order = table.shape[0]
+    identity = get_identity_index(table)
+
+    def extend(subgroup: set[int], generators: list[int]) -> list[int] | None:
+        if len(subgroup) == order:
+            return generators
+
+        for r in range(order):
+            powers = [identity]
+            while table[powers[-1], r] != identity:
+                powers.append(table[powers[-1], r])
+            if not subgroup.isdisjoint(powers[1:]) or len(powers) == 1:
+                continue
+            if len(subgroup) > 1 and not is_prime(len(powers)):
+                continue
+            if {table[r, s] for s in subgroup} != {table[s, r] for s in subgroup}:
+                continue
+
+            found = extend({table[rm, s] for rm in powers for s in subgroup}, [r] + generators)
+            if found is not None:
+                return found
+        return None
+
+    found = extend({identity}, [])
+    if found is None:
+        raise ValueError("Failed to find generators of given crystallographic point group.")
+    return found
-- 
2.43.0


From 2e01b3063b09bf329f8f41e7a1f46b376da9d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 02/17] fix: do not drop independent bases in project_to_irrep

Basis sets closer than 30 degrees to already-found ones were always dropped,
even though retries were reported.
---
 src/spgrep/representation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spgrep/representation.py b/src/spgrep/representation.py
index 63e1ce1..37bbed0 100644
--- a/src/spgrep/representation.py
+++ b/src/spgrep/representation.py
@@ -164,7 +164,7 @@ def project_to_irrep(
     if num_basis == 0:
         return []
 
-    def _project_to_irrep(adjusted_atol):
+    def _project_to_irrep(adjusted_atol, distance_tol):
         count = 0
         basis: list[NDArrayComplex] = []
         for n in range(dim):
@@ -190,10 +190,10 @@ def project_to_irrep(
 
                 # Check if linearly independent with other basis vectors
                 # If basis_nj is not independent, Grassmann distance (min correlation) should be one.
-                # We use very rough tolerance, 0.5 to avoid numerical noises.
+                # We start from very rough tolerance, 0.5 to avoid numerical noises.
                 if (len(basis) > 0) and grassmann_distance(
                     basis_nj, np.concatenate(np.array(basis), axis=0)
-                ) < 0.5:
+                ) < distance_tol:
                     continue
 
                 basis.append(basis_nj)
@@ -205,13 +205,15 @@ def project_to_irrep(
     atol_lb = 1e-10
     atol_ub = 1e-2
     adjusted_atol = np.clip(atol, atol_lb, atol_ub)
+    distance_tol = 0.5
     for _ in range(max_num_trials):
-        basis, count = _project_to_irrep(adjusted_atol)
+        basis, count = _project_to_irrep(adjusted_atol, distance_tol)
         if count == num_basis:
             break
         elif count < num_basis:
             # Tighten tolerance to compare basis vectors
             adjusted_atol = np.sqrt(atol_lb * adjusted_atol)
+            distance_tol /= 2
             warn(f"Tighten tolerance for projection: {adjusted_atol}")
         else:
             # Loosen tolerance to compare basis vectors
-- 
2.43.0


From 600e153b906a170d31d6f703a2b07c60e4222571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 03/17] fix: do not drop independent tensors in
 apply_intrinsic_symmetry

---
 src/spgrep/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/tensor.py b/src/spgrep/tensor.py
index 845718a..e667a3c 100644
--- a/src/spgrep/tensor.py
+++ b/src/spgrep/tensor.py
@@ -109,7 +109,7 @@ def apply_intrinsic_symmetry(
             and grassmann_distance(
                 sym_tensor.reshape(1, -1), np.concatenate(list_sym_basis, axis=0)
             )
-            < 0.5
+            < 1e-3
         ):
             continue
 
-- 
2.43.0


From 789fdb8e97ecca86257abdfe59794078ebcb9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 04/17] fix: decompose_representation returned nothing for
 multiplicities larger than one

---
 src/spgrep/irreps.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 1aae7d9..e2ad66e 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -321,8 +321,11 @@ def decompose_representation(
     Returns
     -------
     irreps: list of unitary Irreps with (order, dim, dim)
+        Mutually inequivalent irreps contained in ``representation``
     """
+    order = representation.shape[0]
     dim0 = representation.shape[1]
+    character = get_character(representation)
 
     rng = np.random.default_rng(seed=0)
     for _ in range(max_num_random_generations):
@@ -342,7 +345,12 @@ def decompose_representation(
         # Decompose to subspaces corresponding to Irreps
         irreps = _get_irreps_from_matrix(representation, matrix, rtol=rtol)
 
-        if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:
+        # The same irrep may appear several times in `representation`
+        multiplicities = [
+            np.around(np.real(np.sum(np.conj(get_character(irrep)) * character)) / order)
+            for irrep in irreps
+        ]
+        if np.sum([m * irrep.shape[1] for m, irrep in zip(multiplicities, irreps)]) == dim0:
             return irreps
 
     warn("Failed to search all irreps. Try increasing max_num_random_generations.")
-- 
2.43.0


From 99eed79f9998ad2d0febe8a0ba0ed15ec01197f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 05/17] fix: get_physically_irrep for real irreps

Eigenvectors of the symmetric unitary intertwiner were not orthogonalized for
degenerate eigenvalues, and the transformation was applied in the wrong
direction, which gave matrices that were not representations.
---
 src/spgrep/irreps.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index e2ad66e..bf44172 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -604,21 +604,24 @@ def get_physically_irrep(
             irrep, conj_irrep, atol=atol, max_num_random_generations=max_num_random_generations
         )
 
-        # Take real or imaginary part of eigenvectors for new basis vectors
-        eigvals, eigvecs = np.linalg.eig(U)  # eigvecs[:, i] is the i-th eigenvector
-        real_eigvecs = []
-        for eigvec in np.transpose(eigvecs):
-            if not np.allclose(np.real(eigvec), 0, atol=atol):
-                real_eigvec = np.real(eigvec)
-            else:
-                real_eigvec = np.imag(eigvec)
-            real_eigvecs.append(real_eigvec / np.linalg.norm(real_eigvec))
-        S = np.transpose(real_eigvecs)
+        # Real and imaginary parts of the symmetric unitary matrix are commuting real symmetric matrices.
+        # Thus, they are simultaneously diagonalized by a real orthogonal matrix S
+        eigvals_re, S = np.linalg.eigh(np.real(U))
+        i = 0
+        while i < dim:
+            j = i + 1
+            while j < dim and np.isclose(eigvals_re[j], eigvals_re[j - 1], atol=1e-6):
+                j += 1
+            block = S[:, i:j]
+            S[:, i:j] = block @ np.linalg.eigh(block.T @ np.imag(U) @ block)[1]
+            i = j
+        eigvals = np.diagonal(S.T @ U @ S)
 
         # Square root of intertwiner
-        T = S.T @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S
+        T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T
 
-        real_irrep = np.real(np.einsum("il,klm,mj->kij", T, irrep, np.conj(T), optimize="greedy"))
+        # irrep @ U == U @ conj_irrep, T @ T == U, and T^{-1} == conj(T) give real T^{-1} @ irrep @ T
+        real_irrep = np.real(np.einsum("il,klm,mj->kij", np.conj(T), irrep, T, optimize="greedy"))
 
     elif indicator in [-1, 0]:
         real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)
-- 
2.43.0


From 7ef2a31d4e3b800b3a59efc7f972d9753abe5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 06/17] fix: Frobenius-Schur indicators when irrep and its
 conjugate have different factor systems

enumerate_unitary_irreps raised ValueError (indicator=2) for some projective
irreps, enumerate_small_representations returned meaningless indicators for
kpoints with 2k != 0, and real=True failed with integer kpoint.
---
 src/spgrep/irreps.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index bf44172..0202cd9 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -95,8 +95,14 @@ def enumerate_small_representations(
         )
         irreps.append(rep * phases[:, None, None])
 
+    # summation over translations becomes zero unless `2*kpoint equiv 0`
+    two_kpoint = 2 * np.asarray(kpoint)
+    is_real_kpoint = np.allclose(two_kpoint - np.rint(two_kpoint), 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        indicators = [
+            frobenius_schur_indicator(irrep) if is_real_kpoint else 0 for irrep in irreps
+        ]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -124,13 +130,7 @@ def enumerate_small_representations(
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
 
-        indicator = frobenius_schur_indicator(irrep)
-        # summation over translations becomes zero unless `2*kpoint equiv 0`
-        two_kpoint = 2 * kpoint
-        two_kpoint -= np.rint(two_kpoint)
-        if not np.allclose(two_kpoint, 0):
-            indicator = 0
-
+        indicator = frobenius_schur_indicator(irrep) if is_real_kpoint else 0
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
@@ -201,8 +201,13 @@ def enumerate_unitary_irreps(
     for irrep in irreps:
         irrep = purify_irrep_value(irrep, atol=atol)
 
+    # Projective irrep and its conjugate are never equivalent if their factor systems differ
+    is_real_factor = np.allclose(np.imag(factor_system), 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        indicators = [
+            frobenius_schur_indicator(irrep) if is_real_factor else 0 for irrep in irreps
+        ]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -229,7 +234,7 @@ def enumerate_unitary_irreps(
     indicators = []
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
-        indicator = frobenius_schur_indicator(irrep)
+        indicator = frobenius_schur_indicator(irrep) if is_real_factor else 0
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
-- 
2.43.0


From 1a3b38806a737255624615565b62d7eb6d5e820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 07/17] fix: mapping of unique_primitive_symmetry for
 interleaved operations

---
 src/spgrep/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index c31dcae..4e917b1 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -84,7 +84,7 @@ def unique_primitive_symmetry(
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = i
+            mapping_to_primitive_symmetry[i] = len(rotations_int)
             rotations_int.append(rotation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
-- 
2.43.0


From 805f4850830548ee4427b492e7ea394a8d7a771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 08/17] fix: decompose_by_maximal_space_subgroup did not return
 None for type-I groups

---
 src/spgrep/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 67e82ff..3bcc92a 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -224,7 +224,7 @@ def decompose_by_maximal_space_subgroup(
     a0_idx: int
         Index of :math:`a_{0}` in given list of symmetries
     """
-    if np.all(time_reversals == 1):
+    if np.all(time_reversals == 0):
         # Type-I MSG
         return None
 
-- 
2.43.0


From 6fff1d78fe7c7c68d4385ebb869cc1a93403baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 09/17] fix: irreps of structures given in non-standardized
 cells

The transformation from the standardized cell to a primitive cell was applied
to the input cell.
---
 src/spgrep/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 112a1a8..0f70f88 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -98,7 +98,7 @@ def get_spacegroup_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    to_primitive = _get_transformation_to_primitive(dataset)
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
@@ -379,7 +379,7 @@ def get_spacegroup_spinor_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    to_primitive = _get_transformation_to_primitive(dataset)
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
@@ -691,6 +691,14 @@ def get_crystallographic_pointgroup_spinor_irreps_from_symmetry(
 ################################################################################
 
 
+def _get_transformation_to_primitive(dataset):
+    """Return transformation matrix from input cell to primitive cell."""
+    std_to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    # Basis vectors of input cell are integer linear combinations of those of primitive cell
+    primitive_to_input = np.rint(np.linalg.inv(std_to_primitive) @ dataset["transformation_matrix"])
+    return np.linalg.inv(primitive_to_input)
+
+
 def _adjust_phase_for_centering_translations(
     prim_translations,
     prim_kpoint,
-- 
2.43.0


From 5d1cfc69c0b080846a75181c04320584c56824c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 10/17] fix: align spinor factor system and rotations with
 operations of centered cells

---
 src/spgrep/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 0f70f88..a18bf48 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -119,7 +119,7 @@ def get_spacegroup_irreps(
     )
 
     # Go back to conventional cell
-    irreps, mapping_little_group = _adjust_phase_for_centering_translations(
+    irreps, mapping_little_group, _ = _adjust_phase_for_centering_translations(
         prim_translations,
         prim_kpoint,
         uniq_prim_translations,
@@ -429,7 +429,7 @@ def get_spacegroup_spinor_irreps(
         )
 
     # Go back to conventional cell
-    irreps, mapping_little_group = _adjust_phase_for_centering_translations(
+    irreps, mapping_little_group, conv_to_prim = _adjust_phase_for_centering_translations(
         prim_translations,
         prim_kpoint,
         uniq_prim_translations,
@@ -437,6 +437,8 @@ def get_spacegroup_spinor_irreps(
         prim_irreps,
         mapping_prim_little_group,
     )
+    little_spinor_factor_system = little_spinor_factor_system[np.ix_(conv_to_prim, conv_to_prim)]
+    little_unitary_rotations = little_unitary_rotations[conv_to_prim]
 
     if magmoms is None:
         return (
@@ -452,7 +454,7 @@ def get_spacegroup_spinor_irreps(
             irreps,
             little_spinor_factor_system,
             little_unitary_rotations,
-            little_anti_linear,
+            little_anti_linear[conv_to_prim],
             rotations,
             translations,
             time_reversals,
@@ -737,4 +739,4 @@ def _adjust_phase_for_centering_translations(
         irrep = purify_irrep_value(irrep)
 
         irreps.append(irrep)
-    return irreps, np.array(mapping_little_group)
+    return irreps, np.array(mapping_little_group), np.array(mapping_conv_to_prim_little_group)
-- 
2.43.0


From 3a29298e72fd0444827ef29e0c4158a94f82771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 11/17] fix: co-representation matrices of anti-linear
 operations

They violated Gamma(a) Gamma(u)^* = omega(a, u) Gamma(au), and for indicator=-1 the
two blocks must be the same irrep.
---
 src/spgrep/corep.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index b0fbafc..9e7ff51 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -189,16 +189,18 @@ def enumerate_spinor_small_corepresentations(
             corep = np.zeros((order, dim, dim), dtype=np.complex_)
             corep[xsg_indices] = irrep
             corep[a0u] = (
-                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * U[None, :, :] @ irrep
+                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
+                * U[None, :, :]
+                @ np.conj(irrep)
             )
         elif indicator == -1:
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
 
             # [ [irrep, 0],
-            #   [0, conj_irrep]]
+            #   [0, irrep]]
             corep[xsg_indices, :dim, :dim] = irrep
-            corep[xsg_indices, dim:, dim:] = conj_irrep
+            corep[xsg_indices, dim:, dim:] = irrep
 
             # [ [0, -U],
             #   [U, 0] ]
@@ -209,7 +211,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         elif indicator == 0:
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
@@ -230,7 +232,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         else:
             raise ValueError("Unreachable!")
-- 
2.43.0


From 35ed7cd2476d92cd659aeecdbad28fd496eac7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 12/17] fix: little group and phase factors of anti-linear
 operations

Anti-linear operations map kpoint into its opposite. Operations of type-II and
type-IV magnetic space groups that differ only by time reversal were merged, and
anti-translations of type-IV groups were rejected as non-primitive.
---
 src/spgrep/core.py      | 15 +++++++++------
 src/spgrep/corep.py     |  4 ++++
 src/spgrep/group.py     |  9 ++++++++-
 src/spgrep/transform.py | 19 +++++++++++++------
 4 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index a18bf48..b5a84a4 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -377,6 +377,7 @@ def get_spacegroup_spinor_irreps(
 
     rotations = dataset["rotations"]
     translations = dataset["translations"]
+    time_reversals = None if magmoms is None else np.array(dataset["time_reversals"]).astype(int)
 
     # Transform to primitive
     to_primitive = _get_transformation_to_primitive(dataset)
@@ -386,10 +387,10 @@ def get_spacegroup_spinor_irreps(
     prim_lattice = to_primitive.T @ lattice  # (AP)^T = P^T @ A^T
     # mapping_to_prim: [0..num_sym) -> [0..order)
     uniq_prim_rotations, uniq_prim_translations, mapping_to_prim = unique_primitive_symmetry(
-        prim_rotations, prim_translations
+        prim_rotations, prim_translations, time_reversals
     )
 
-    if magmoms is None:
+    if time_reversals is None:
         # mapping_prim_little_group: [0..prim_little_group_order) -> [0..order)
         (
             prim_irreps,
@@ -407,8 +408,8 @@ def get_spacegroup_spinor_irreps(
             max_num_random_generations=max_num_random_generations,
         )
     else:
-        time_reversals = dataset["time_reversals"]
-        uniq_prim_time_reversals = time_reversals[mapping_to_prim]
+        uniq_prim_time_reversals = np.zeros((len(uniq_prim_rotations),), dtype=int)
+        uniq_prim_time_reversals[mapping_to_prim] = time_reversals
         (
             prim_irreps,
             _,
@@ -538,14 +539,16 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
         kpoint = np.zeros(3)
 
     # Sanity check to use primitive cell
-    for rotation, translation in zip(rotations, translations):
+    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
+        if time_reversals is not None and time_reversals[i] == 1:
+            continue  # Anti-translations appear even in primitive cell of type-IV MSG
         if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
             translation, 0, atol=atol
         ):
             raise ValueError("Specify symmetry operations in primitive cell!")
 
     little_rotations, little_translations, mapping_little_group = get_little_group(
-        rotations, translations, kpoint, atol=atol
+        rotations, translations, kpoint, atol=atol, time_reversals=time_reversals
     )
 
     if time_reversals is None:
diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 9e7ff51..531c7d0 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -109,6 +109,10 @@ def enumerate_spinor_small_corepresentations(
         little_translations,
         kpoint,
     )
+    # Anti-linear operators transform `kpoint` into `-kpoint`
+    for i in np.where(anti_linear)[0]:
+        residual = little_rotations[i].T @ kpoint + kpoint
+        nonsymmorphic_factor_system[i] = np.exp(-2j * np.pi * little_translations @ residual)
     factor_system = corep_spinor_factor_system * nonsymmorphic_factor_system
 
     # Compute irreps of little co-group
diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 3bcc92a..846601a 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -144,6 +144,7 @@ def get_little_group(
     translations: NDArrayFloat,
     kpoint: NDArrayFloat,
     atol: float = 1e-8,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, NDArrayInt]:
     """Return coset of little group of given space group which stabilize kpoint under rotations.
 
@@ -152,6 +153,9 @@ def get_little_group(
     rotations: array, (order, 3, 3)
     translations: array, (order, 3)
     kpoint: array, (3, )
+    atol: float
+    time_reversals: (Optional) array[int], (order, )
+        If specified, operations with time reversal additionally flip ``kpoint``.
 
     Returns
     -------
@@ -166,7 +170,10 @@ def get_little_group(
     mapping_little_group = []
 
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        residual = rotation.T @ kpoint - kpoint
+        transformed = rotation.T @ kpoint
+        if time_reversals is not None and time_reversals[i] == 1:
+            transformed = -transformed
+        residual = transformed - kpoint
         residual = residual - np.rint(residual)
         if not np.allclose(residual, 0, atol=atol):
             continue
diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index 4e917b1..74e1457 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -53,7 +53,9 @@ def transform_symmetry_and_kpoint(
 
 
 def unique_primitive_symmetry(
-    rotations: NDArrayInt, translations: NDArrayFloat
+    rotations: NDArrayInt,
+    translations: NDArrayFloat,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, list[int]]:
     """Remove duplicated symmetry operations.
 
@@ -61,6 +63,8 @@ def unique_primitive_symmetry(
     ----------
     rotations: array, (num_sym, 3, 3)
     translations: array, (num_sym, 3)
+    time_reversals: (Optional) array[int], (num_sym, )
+        If specified, operations with different time-reversal parts are not regarded as duplicated.
 
     Returns
     -------
@@ -69,23 +73,26 @@ def unique_primitive_symmetry(
     mapping_to_primitive_symmetry: array, (num_sym, )
         ``(rotations[i], translations[i])`` is transformed to ``(unique_rotations[j], unique_translations[j])`` where ``j = mapping_to_primitive_symmetry[i]``.
     """
-    rotations_int: list[tuple[tuple[int]]] = []
+    if time_reversals is None:
+        time_reversals = np.zeros((len(rotations),), dtype=np.int_)
+
+    operations: list[tuple[tuple[tuple[int]], int]] = []
 
     unique_rotations = []
     unique_translations = []
     mapping_to_primitive_symmetry = [-1 for _ in range(len(rotations))]
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        rotation_int = ndarray2d_to_integer_tuple(rotation)
+        operation = (ndarray2d_to_integer_tuple(rotation), int(time_reversals[i]))
         try:
-            j = rotations_int.index(rotation_int)
+            j = operations.index(operation)
             # Duplicated symmetry operation
             mapping_to_primitive_symmetry[i] = j
         except ValueError:
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = len(rotations_int)
-            rotations_int.append(rotation_int)
+            mapping_to_primitive_symmetry[i] = len(operations)
+            operations.append(operation)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
 
-- 
2.43.0


From 4c156184725da3d3a1dffe0f3d873da1d3694a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 13/17] fix: reject Hall numbers out of range in
 get_symmetry_from_hall_number

---
 src/spgrep/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spgrep/utils.py b/src/spgrep/utils.py
index 8fe16ca..ffe1b26 100644
--- a/src/spgrep/utils.py
+++ b/src/spgrep/utils.py
@@ -40,6 +40,9 @@ def get_symmetry_from_hall_number(hall_number: int) -> tuple[NDArrayInt, NDArray
     rotations: (num_syms, 3, 3)
     translations: (num_syms, 3)
     """
+    if not 1 <= hall_number <= 530:
+        raise ValueError("Unknown Hall number: {}".format(hall_number))
+
     symmetry = get_symmetry_from_database(hall_number)
     rotations = symmetry["rotations"]
     translations = symmetry["translations"]
-- 
2.43.0


From 5baed6742e854eb38fe1255efc805cd1ded30fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 14/17] fix: return no irreps when an intertwiner is not found

---
 src/spgrep/corep.py  | 8 ++++++--
 src/spgrep/irreps.py | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 531c7d0..bf18279 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -187,9 +187,14 @@ def enumerate_spinor_small_corepresentations(
     )
     for indicator, irrep, conj_irrep in conj_pairs:
         dim = irrep.shape[1]
-        if indicator == 1:
+        if indicator in [1, -1]:
             # Unitary matrix s.t. irrep @ U = conj_irrep @ U
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
+            if np.allclose(U, 0):
+                # Failed to find intertwiner
+                return [], [], corep_spinor_factor_system, unitary_rotations, anti_linear
+
+        if indicator == 1:
             corep = np.zeros((order, dim, dim), dtype=np.complex_)
             corep[xsg_indices] = irrep
             corep[a0u] = (
@@ -198,7 +203,6 @@ def enumerate_spinor_small_corepresentations(
                 @ np.conj(irrep)
             )
         elif indicator == -1:
-            U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
 
             # [ [irrep, 0],
diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 0202cd9..fc1379c 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -134,6 +134,8 @@ def enumerate_small_representations(
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
+        if np.allclose(real_irrep, 0):
+            return [], []  # Failed to find intertwiner
         real_irrep = purify_real_irrep_value(real_irrep, atol=atol)
         real_irreps.append(real_irrep)
         indicators.append(indicator)
@@ -238,6 +240,8 @@ def enumerate_unitary_irreps(
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
+        if np.allclose(real_irrep, 0):
+            return [], []  # Failed to find intertwiner
         real_irrep = purify_real_irrep_value(real_irrep, atol=atol)
         real_irreps.append(real_irrep)
         indicators.append(indicator)
@@ -507,6 +511,8 @@ def enumerate_unitary_irreps_from_solvable_group_chain(
                     atol=atol,
                     max_num_random_generations=max_num_random_generations,
                 )
+                if np.allclose(intertwiner, 0):
+                    return []  # Failed to find intertwiner
                 scale = intertwiner.copy()
                 for _ in range(p - 1):
                     scale = np.dot(intertwiner, scale)
-- 
2.43.0


From a69c5808577e70a323a2842eb5af599e015e11fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 15/17] fix: coset decomposition of magnetic groups with
 integer translations

---
 src/spgrep/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 846601a..f566425 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -263,7 +263,7 @@ def decompose_by_maximal_space_subgroup(
             if not np.allclose(new_rot, rotations[j]):
                 continue
             diff = np.remainder(new_trans - translations[j], 1)
-            diff -= np.rint(diff)
+            diff = diff - np.rint(diff)
             if np.allclose(diff, 0):
                 time_reversal_indices.append(j)
                 break
-- 
2.43.0


From a163701476d87a10ea08434fd8512236b2cc2ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 16/17] fix: integer and zero tensors in
 apply_intrinsic_symmetry

---
 src/spgrep/tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/tensor.py b/src/spgrep/tensor.py
index e667a3c..97301d3 100644
--- a/src/spgrep/tensor.py
+++ b/src/spgrep/tensor.py
@@ -95,8 +95,11 @@ def apply_intrinsic_symmetry(
         rank = len(coeff.shape)
         perms = list(permutations(range(rank)))
         # Apply intrinsic symmetry
+        norm = np.linalg.norm(coeff)
+        if norm == 0:
+            continue
+        coeff = coeff / norm
         sym_tensor = np.zeros_like(coeff)
-        coeff = coeff / np.linalg.norm(coeff)
         for perm in perms:
             sym_tensor += np.transpose(coeff, axes=perm)
         if np.allclose(sym_tensor, 0, atol=atol):
-- 
2.43.0


From 7e125f25b1b9e3ed75f3f57961de528b6e54227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 17/17] fix: spin factor system for lattices which are
 compatible only up to a tolerance

---
 src/spgrep/corep.py  | 9 ++++-----
 src/spgrep/spinor.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index bf18279..f317d46 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -317,10 +317,9 @@ def get_corep_spinor_factor_system(
 
             # si @ sj = sk in O(3)
             k = table[i, j]
-            # Multiplier should be -1 or 1
-            for multiplier in [-1, 1]:
-                if np.allclose(uiuj, multiplier * unitary_rotations[k]):
-                    corep_spinor_factor_system[i, j] = multiplier
-                    break
+            # Multiplier should be -1 or 1. Take the closest one because ``lattice`` may be
+            # compatible with ``rotations`` only up to a tolerance.
+            overlap = np.real(np.trace(np.conj(unitary_rotations[k].T) @ uiuj))
+            corep_spinor_factor_system[i, j] = 1 if overlap > 0 else -1
 
     return corep_spinor_factor_system, unitary_rotations, anti_linear
diff --git a/src/spgrep/spinor.py b/src/spgrep/spinor.py
index 6948a7b..44e1339 100644
--- a/src/spgrep/spinor.py
+++ b/src/spgrep/spinor.py
@@ -136,11 +136,10 @@ def get_spinor_factor_system(
         # si @ sj = sk in O(3)
         k = table[i, j]
         uiuj = ui @ uj
-        # Multiplier should be -1 or 1
-        for multiplier in [-1, 1]:
-            if np.allclose(uiuj, multiplier * unitary_rotations[k]):
-                spinor_factor_system[i, j] = multiplier
-                break
+        # Multiplier should be -1 or 1. Take the closest one because ``lattice`` may be
+        # compatible with ``rotations`` only up to a tolerance.
+        overlap = np.real(np.trace(np.conj(unitary_rotations[k].T) @ uiuj))
+        spinor_factor_system[i, j] = 1 if overlap > 0 else -1
 
     return spinor_factor_system, unitary_rotations
 
-- 
2.43.0

