From 4e566482d61782db296d88b19cb0ee2cc039fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 01/26] fix: detect changes of orbitals and hopping terms whose
 hashes collide

hash(-1.0) == hash(-2.0), so replacing an on-site or hopping energy of -1 with
-2 (or vice versa) left stale orb_eng/hop_eng arrays.
---
 tbplas/builder/primitive.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 207d0a8..bda601a 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -67,7 +67,7 @@ class PrimitiveCell(Observable):
         container of hopping terms in the primitive cell
         Only half of the hopping terms are stored. Conjugate terms are added
         automatically when constructing the Hamiltonian.
-    _hash_dict: Dict[str, int]
+    _hash_dict: Dict[str, tuple]
         hashes of attributes to be used by 'sync_*' methods to update the arrays
     _orb_pos: (num_orb, 3) float64 array
         FRACTIONAL positions of all orbitals
@@ -136,18 +136,21 @@ class PrimitiveCell(Observable):
               self._hopping_dict, self.extended)
         return hash(fp)
 
-    def _get_attr_hash(self, attr: str) -> int:
+    def _get_attr_hash(self, attr: str) -> tuple:
         """
-        Get the hash of given attribute.
+        Get the fingerprint of given attribute.
+
+        NOTE: Do not use the built-in hash as the fingerprint. Different values
+        may have the same hash, e.g., hash(-1.0) == hash(-2.0).
 
         :param attr: name of the attribute
-        :return: hash of the attribute
+        :return: fingerprint of the attribute
         :raises ValueError: if attr is illegal
         """
         if attr == "orb":
-            new_hash = hash(tuple(self._orbital_list))
+            new_hash = tuple(self._orbital_list)
         elif attr == "hop":
-            new_hash = hash(self._hopping_dict)
+            new_hash = tuple(self._hopping_dict.to_list())
         else:
             raise ValueError(f"Illegal attribute name {attr}")
         return new_hash
-- 
2.43.0


From 207f6fceb5a6567a343f224f817693f22296a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 02/26] fix: accept lists of fractional coordinates in
 frac2cart

np.ndarray(x) interprets x as a shape and raises TypeError.
---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index e91babb..c09ff17 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -116,7 +116,7 @@ def frac2cart(lattice_vectors: np.ndarray,
     if not isinstance(lattice_vectors, np.ndarray):
         lattice_vectors = np.array(lattice_vectors)
     if not isinstance(fractional_coordinates, np.ndarray):
-        fractional_coordinates = np.ndarray(fractional_coordinates)
+        fractional_coordinates = np.array(fractional_coordinates)
     cartesian_coordinates = np.zeros(fractional_coordinates.shape)
     conversion_matrix = lattice_vectors.T
     for i, row in enumerate(fractional_coordinates):
-- 
2.43.0


From a6add1c6306c8fdcbdd24db77bec2bcf9b9c0238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 03/26] fix: do not truncate coordinates in rotate_coord

Integer coordinates gave an integer result array, which cut off the fractional
part of the rotated coordinates.
---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index c09ff17..8c34da5 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -172,7 +172,7 @@ def rotate_coord(coord: np.ndarray,
     rot_mat = cos_ang * np.eye(3) + sin_ang * u_prod + (1 - cos_ang) * u_tens
 
     # Rotate coordinates
-    coord_rot = np.zeros(shape=coord.shape, dtype=coord.dtype)
+    coord_rot = np.zeros(shape=coord.shape)
     for i in range(coord.shape[0]):
         coord_rot[i] = np.matmul(rot_mat, coord[i] - center) + center
     return coord_rot
-- 
2.43.0


From d666fdbc9f2ddb4a744ac6bcbd6ed64000efb573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:22 +0000
Subject: [PATCH 04/26] fix: reject invalid indices in remove_orbitals before
 removing anything

An index out of range raised PCOrbIndexError after the orbitals with smaller
indices had been removed, while their hopping terms were kept.
---
 tbplas/builder/primitive.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index bda601a..df4575e 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -351,8 +351,13 @@ class PrimitiveCell(Observable):
         # Check arguments
         self.check_lock()
 
-        # Delete the orbitals
+        # Check all the indices before deleting anything
         indices = sorted(set(indices))
+        for orb_i in indices:
+            if orb_i >= self.num_orb:
+                raise exc.PCOrbIndexError(orb_i)
+
+        # Delete the orbitals
         for i, orb_i in enumerate(indices):
             try:
                 self._orbital_list.pop(orb_i - i)
-- 
2.43.0


From b1a180bbffe3ef8572d1b78fc102fa7d9a32b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:58 +0000
Subject: [PATCH 05/26] fix: allow set_vacancies to be called without vacancies

---
 tbplas/builder/super.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 24b0958..ad27327 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -279,7 +279,8 @@ class OrbitalSet(Observable):
         """
         self.check_lock()
         self._vacancy_set = set()
-        self.add_vacancies(vacancies)
+        if vacancies is not None:
+            self.add_vacancies(vacancies)
 
     def sync_array(self, force_sync: bool = False) -> None:
         """
-- 
2.43.0


From abe9b3c34ee1c2ca8018db7b1e0fbfde20e4f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:31 +0000
Subject: [PATCH 06/26] fix: keep integer indices when hop_modifier only
 overwrites hopping terms

---
 tbplas/builder/super.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index ad27327..e4de4d2 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -802,10 +802,11 @@ class SuperCell(OrbitalSet):
                     dr_new.append(dr_i)
 
             # Append additional hopping terms
-            hop_i = np.append(hop_i, hop_i_new)
-            hop_j = np.append(hop_j, hop_j_new)
-            hop_v = np.append(hop_v, hop_v_new)
+            # NOTE: appending an empty list would convert the indices to float64.
             if len(dr_new) != 0:
+                hop_i = np.append(hop_i, hop_i_new)
+                hop_j = np.append(hop_j, hop_j_new)
+                hop_v = np.append(hop_v, hop_v_new)
                 dr = np.vstack((dr, dr_new))
         return hop_i, hop_j, hop_v, dr
 
-- 
2.43.0


From 8632e6a61122689fb870760d9518828d2aee003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:57 +0000
Subject: [PATCH 07/26] fix: estimate rescaling factor from the original
 Hamiltonian

---
 tbplas/builder/sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index b164df4..696c45a 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -294,6 +294,8 @@ class Sample(Observable):
         if factor is None:
             factor = core.get_rescale(self.orb_eng, self.hop_i, self.hop_j,
                                       self.hop_v)
+            # Current energies and hopping terms may have been rescaled already.
+            factor *= self._rescale
         self.orb_eng *= (self._rescale / factor)
         self.hop_v *= (self._rescale / factor)
         self._rescale = factor
-- 
2.43.0


From 8c701b8dfc612e716498410dc207edd6a775b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:57 +0000
Subject: [PATCH 08/26] fix: correct Peierls phase of the symmetric gauge

---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index c48e522..90e3d0c 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -68,7 +68,7 @@ def set_mag_field(long [::1] hop_i, long [::1] hop_j,
             dx, dy = dr[ih, 0], dr[ih, 1]
             sx = orb_pos[jj, 0] + orb_pos[ii, 0]
             sy = orb_pos[jj, 1] + orb_pos[ii, 1]
-            phase = factor * 0.5 * intensity * (dx * sx - dy * sy)
+            phase = factor * 0.5 * intensity * (dx * sy - dy * sx)
             hop_v[ih] = hop_v[ih] * (cos(phase) + 1j * sin(phase))
 
 
-- 
2.43.0


From a240c1938f0aec5b616e0944a8599b3512f2edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:57 +0000
Subject: [PATCH 09/26] fix: use moduli of on-site energies in get_rescale

---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index 90e3d0c..dfa7fc2 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -104,7 +104,7 @@ def get_rescale(double [::1] orb_eng, long [::1] hop_i, long [::1] hop_j,
 
     ham_sum = np.zeros(num_orb_sc, dtype=np.float64)
     for io in range(num_orb_sc):
-        ham_sum[io] = orb_eng[io]
+        ham_sum[io] = abs(orb_eng[io])
     for ih in range(num_hop_sc):
         ii, jj = hop_i[ih], hop_j[ih]
         hop_abs = sqrt(hop_v[ih].real**2 + hop_v[ih].imag**2)
-- 
2.43.0


From b4a1d6a536b6549594596d25e190d171b3eec40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:53 +0000
Subject: [PATCH 10/26] fix: search all corners of the reshaped cell for
 orbitals

---
 tbplas/builder/advanced.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index c3a1c55..adf1f7b 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -4,6 +4,7 @@ from math import floor, ceil, sqrt
 from typing import Union, List, Tuple, Dict
 from collections import namedtuple, defaultdict
 from copy import deepcopy
+from itertools import product
 from abc import ABC, abstractmethod
 
 import numpy as np
@@ -181,15 +182,14 @@ def reshape_prim_cell(prim_cell: PrimitiveCell,
     res_cell.extended = prim_cell.extended * (vol_res / vol_prim)
 
     # Determine searching range
-    # sum_vec is actually a0+a1, a1+a2 or a2+a0 depending on j, i.e., the
-    # diagonal vector. If it is not taken into consideration, orbitals and
-    # hopping terms in the top right corner of reshaped cell may be missing.
+    # All the 8 corners of the reshaped cell need to be taken into consideration.
+    # Otherwise, orbitals and hopping terms near the corners may be missing.
     rn_range = np.zeros((3, 2), dtype=np.int32)
-    for i in range(3):
-        sum_vec = lat_frac.sum(axis=0) - lat_frac[i]
+    for coeff in product((0, 1), repeat=3):
+        corner = np.matmul(coeff, lat_frac)
         for j in range(3):
-            rn_range[j, 0] = min(rn_range[j, 0], floor(sum_vec[j]))
-            rn_range[j, 1] = max(rn_range[j, 1], ceil(sum_vec[j]))
+            rn_range[j, 0] = min(rn_range[j, 0], floor(corner[j]))
+            rn_range[j, 1] = max(rn_range[j, 1], ceil(corner[j]))
     rn_range[:, 0] -= 1
     rn_range[:, 1] += 1
 
-- 
2.43.0


From bb753ffc5da91de3be1b01a940f2935454eed01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:53 +0000
Subject: [PATCH 11/26] fix: compare extended attributes in both directions in
 merge_prim_cell

---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index adf1f7b..e6df2dc 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -363,7 +363,7 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
     # Determine the 'extended' attribute
     extended = pc_list[0].extended
     for pc in pc_list:
-        if (pc.extended - extended) >= 1.e-3:
+        if abs(pc.extended - extended) >= 1.e-3:
             print(f"INFO: resetting extend to 1.0")
             extended = 1.0
             break
-- 
2.43.0


From 5403b5c2ca59301b22edbd6232b55ba3058ac0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:52 +0000
Subject: [PATCH 12/26] fix: accept a list of q-points in Lindhard.calc_epsilon

---
 tbplas/diagonal/lindhard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 9fe8e13..01248e9 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -539,7 +539,7 @@ class Lindhard(DiagSolver):
             relative dielectric function
         """
         if not isinstance(q_points, np.ndarray):
-            q_points = np.ndarray(q_points, dtype=np.float64)
+            q_points = np.array(q_points, dtype=np.float64)
         num_qpt = q_points.shape[0]
         num_omega = self._omegas.shape[0]
         epsilon = np.zeros((num_qpt, num_omega), dtype=np.complex128)
-- 
2.43.0


From 19921b355be834e890d58a50028baf58a899eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 13/26] fix: sum the dynamic polarization over MPI processes
 once, after the loop over q-points

---
 tbplas/diagonal/lindhard.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 01248e9..9468479 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -409,7 +409,9 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+
+        # Collect contributions from all the processes
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
@@ -498,7 +500,9 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+
+        # Collect contributions from all the processes
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
-- 
2.43.0


From 47be703acb426f2229795ac3d33a30c6edf6c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 14/26] fix: allow more MPI processes than items in
 MPIEnv.dist_bound

---
 tbplas/parallel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tbplas/parallel.py b/tbplas/parallel.py
index c5dac5e..59256e0 100644
--- a/tbplas/parallel.py
+++ b/tbplas/parallel.py
@@ -110,13 +110,14 @@ class MPIEnv:
     def dist_bound(self, n_max: int) -> Tuple[int, int]:
         """
         Same as dist_range, but returns the lower and upper bounds.
-        Both of the bounds are close, i.e. [i_min, i_max].
+        Both of the bounds are close, i.e. [i_min, i_max]. If the subrange is
+        empty, then i_max = i_min - 1.
 
         :param n_max: upper bound of range
         :return: lower and upper bounds of subrange assigned to this process
         """
         i_index = self.dist_range(n_max)
-        i_min, i_max = min(i_index), max(i_index)
+        i_min, i_max = i_index.start, i_index.stop - 1
         return i_min, i_max
 
     def reduce(self, data_local: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 85f10e5a5f281016113eed0c8142cc72d620a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 15/26] fix: compare the k-points instead of their hash in
 SpinTexture.update_states

---
 tbplas/diagonal/magnetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/diagonal/magnetic.py b/tbplas/diagonal/magnetic.py
index 4ca6696..5a0cdf5 100644
--- a/tbplas/diagonal/magnetic.py
+++ b/tbplas/diagonal/magnetic.py
@@ -48,7 +48,7 @@ class SpinTexture(DiagSolver):
 
         :return: None
         """
-        hash_new = hash(tuple([tuple(_) for _ in self._k_grid]))
+        hash_new = tuple([tuple(_) for _ in self._k_grid])
         if self._hash_k != hash_new:
             self._hash_k = hash_new
             self._states = self.calc_states(self._k_grid, all_reduce=False)[1]
-- 
2.43.0


From f1542e29ab2e66640b06aa6380f8098d8a7077e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:42 +0000
Subject: [PATCH 16/26] fix: keep at least 3 terms in the Bessel series for
 very short time steps

---
 tbplas/tbpm/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tbplas/tbpm/solver.py b/tbplas/tbpm/solver.py
index 7dbbbc7..0e64c9b 100644
--- a/tbplas/tbpm/solver.py
+++ b/tbplas/tbpm/solver.py
@@ -221,6 +221,10 @@ class Solver(MPIEnv):
         # Check and return results
         if not converged:
             raise ValueError("Bessel_max too low")
+
+        # The propagation needs at least 3 terms
+        while len(bessel_series) < 3:
+            bessel_series.append(spec.jv(len(bessel_series), time_scaled))
         return bessel_series
 
     def _get_beta_mu_re(self) -> Tuple[float, float]:
-- 
2.43.0


From 55862aab36495753476b44b33575aca3f2bac7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:07 +0000
Subject: [PATCH 17/26] fix: store the AC correlation function at the first
 time step

---
 tbplas/fortran/tbpm.f90 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tbplas/fortran/tbpm.f90 b/tbplas/fortran/tbpm.f90
index e49df30..23b3f39 100644
--- a/tbplas/fortran/tbpm.f90
+++ b/tbplas/fortran/tbpm.f90
@@ -301,6 +301,11 @@ SUBROUTINE tbpm_accond(Bes, n_Bes, beta, mu, s_indptr, n_indptr, &
             REAL(corrval(4)), AIMAG(corrval(4))
 #endif
 
+        corr(1, 1) = corr(1, 1) + corrval(1) / n_ran_samples
+        corr(2, 1) = corr(2, 1) + corrval(2) / n_ran_samples
+        corr(3, 1) = corr(3, 1) + corrval(3) / n_ran_samples
+        corr(4, 1) = corr(4, 1) + corrval(4) / n_ran_samples
+
         ! iterate over time
         ! Norm check is performed for psi2. It can also be done for psi1_x
         ! and psi1_y.
-- 
2.43.0


From 3ada33fcbda5c1398c81bef087c468c0ea45ebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:22 +0000
Subject: [PATCH 18/26] fix: apply degeneracies and accumulate corrected terms
 when importing Wannier90 hopping terms

---
 tbplas/adapter/wannier90.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index 1068cba..672e45d 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -91,14 +91,18 @@ def read_hop(seed_name: str = "wannier90") -> Tuple[List[rn5_type], List[complex
     """
     with open(f"{seed_name}_hr.dat", "r") as hr_file:
         hr_content = hr_file.readlines()
+    num_wan = int(hr_content[1])
     nl_hopping = int(hr_content[2])
     nl_skip = 3 + int(np.ceil(nl_hopping / 15))
+    # Degeneracy of each Wigner-Seitz grid point
+    degen = [int(x) for line in hr_content[3:nl_skip] for x in line.split()]
     hop_ind, hop_eng = [], []
-    for line in hr_content[nl_skip:]:
+    for i_line, line in enumerate(hr_content[nl_skip:]):
         data = line.split()
         ind = (int(data[0]), int(data[1]), int(data[2]),
                int(data[3])-1, int(data[4])-1)
         eng = float(data[5]) + 1j * float(data[6])
+        eng /= degen[i_line // num_wan**2]
         hop_ind.append(ind)
         hop_eng.append(eng)
     return hop_ind, hop_eng
@@ -146,23 +150,18 @@ def apply_wsvec(wsvec: dict,
     :param hop_eng: hopping energies in eV
     :return: None
     """
-    for ind_0 in wsvec.keys():
-        # Back up and reset original hopping term
-        ih_0 = hop_ind.index(ind_0)
-        eng_bak = hop_eng[ih_0]
-        hop_eng[ih_0] = 0.0
-
-        # Apply correction vector
-        num_vec = len(wsvec[ind_0])
-        for vec in wsvec[ind_0]:
+    # NOTE: the corrected vectors of different terms may coincide, so the
+    # contributions should be accumulated from the original energies.
+    hop_new = dict()
+    for ind_0, eng in zip(hop_ind, hop_eng):
+        vectors = wsvec.get(ind_0, [(0, 0, 0)])
+        num_vec = len(vectors)
+        for vec in vectors:
             ind_1 = (ind_0[0] + vec[0], ind_0[1] + vec[1], ind_0[2] + vec[2],
                      ind_0[3], ind_0[4])
-            if ind_1 in hop_ind:
-                ih_1 = hop_ind.index(ind_1)
-                hop_eng[ih_1] = eng_bak / num_vec
-            else:
-                hop_ind.append(ind_1)
-                hop_eng.append(eng_bak / num_vec)
+            hop_new[ind_1] = hop_new.get(ind_1, 0.0) + eng / num_vec
+    hop_ind[:] = list(hop_new.keys())
+    hop_eng[:] = list(hop_new.values())
 
 
 def wan2pc(seed_name: str = "wannier90",
-- 
2.43.0


From 07a7a65223d2a855a511c9e770af02e28b1be2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:28 +0000
Subject: [PATCH 19/26] fix: pass the cell thickness on in
 make_graphene_rect(from_scratch=False)

---
 tbplas/materials/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/materials/graphene.py b/tbplas/materials/graphene.py
index 7891deb..10ff245 100644
--- a/tbplas/materials/graphene.py
+++ b/tbplas/materials/graphene.py
@@ -66,7 +66,7 @@ def make_graphene_rect(from_scratch: bool = True,
         cell.add_hopping((1, 0), 3, 1, t)
         cell.add_hopping((1, 0), 2, 0, t)
     else:
-        cell = make_graphene_diamond(t=t)
+        cell = make_graphene_diamond(c=c, t=t)
         lat_frac = np.array([[1, 0, 0], [-1, 2, 0], [0, 0, 1]])
         cell = reshape_prim_cell(cell, lat_frac)
     return cell
-- 
2.43.0


From 40676daf9e6db80c2f6b2fb07745d4226e46a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:01 +0000
Subject: [PATCH 20/26] fix: use integers for the default rn_max of
 Visualizer.plot_wfc3d

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index 88e8070..af5d611 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -503,7 +503,7 @@ class Visualizer(MPIEnv):
             k_point = [0, 0, 0]
         k_point = np.array(k_point, dtype=np.float64)
         if rn_max is None:
-            rn_max = np.zeros(3)
+            rn_max = np.zeros(3, dtype=np.int64)
         rn_frac = np.array([(i, j, k)
                             for i in range(-rn_max[0], rn_max[0] + 1)
                             for j in range(-rn_max[1], rn_max[1] + 1)
-- 
2.43.0


From 72ad7c459b657f54de5dfbd84d7197707ba74bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:01 +0000
Subject: [PATCH 21/26] fix: arrange the interpolated values of
 Visualizer.plot_scalar as rows of constant y

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index af5d611..463689f 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -338,7 +338,7 @@ class Visualizer(MPIEnv):
                 x_grid, y_grid = np.meshgrid(x_fi, y_fi)
                 xy_fi = np.c_[x_grid.ravel(), y_grid.ravel()]
                 z_fi = griddata((x, y), z, xy_fi, method="cubic")
-                z_fi = z_fi.reshape(num_grid)
+                z_fi = z_fi.reshape(x_grid.shape)
                 extent = (x_min, x_max, y_min, y_max)
                 img = ax.imshow(z_fi, cmap=cmap, interpolation="none",
                                 origin="lower", extent=extent, **kwargs)
-- 
2.43.0


From 1b538b2bdb361e228698988ac77d8814918de7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:01 +0000
Subject: [PATCH 22/26] fix: do not set s orbitals to zero at the nucleus in
 set_cube

---
 tbplas/cython/atom.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/atom.pyx b/tbplas/cython/atom.pyx
index a0fee2f..029c416 100644
--- a/tbplas/cython/atom.pyx
+++ b/tbplas/cython/atom.pyx
@@ -203,7 +203,7 @@ def set_cube(double [::1] c0, int[::1] qn, double[::1] cube_origin,
             for k in range(num_grid[2]):
                 dz = zmin + res * k - c0[2]
                 r = sqrt(dx2y2 + dz**2)
-                if r < 1.0e-7:
+                if r < 1.0e-7 and l > 0:
                     gridval = 0.0
                 else:
                     gridval = _radial(z, n, l, r) * _ylm(l, m, dx, dy, dz, r) * factor
-- 
2.43.0


From e81d37559eb50778f081d4c8cb7129afde5490f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:25 +0000
Subject: [PATCH 23/26] fix: reallocate solver work matrices when the number of
 orbitals changed

---
 tbplas/diagonal/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tbplas/diagonal/base.py b/tbplas/diagonal/base.py
index 2d55dad..0407390 100644
--- a/tbplas/diagonal/base.py
+++ b/tbplas/diagonal/base.py
@@ -245,18 +245,17 @@ class DiagSolver(MPIEnv):
         :raises RuntimeError: if diagonalization failed
         """
         # Set up the Hamiltonian
-        if self.__h_mat is None:
-            self.__h_mat = np.zeros((self.num_orb, self.num_orb),
-                                    dtype=np.complex128)
+        mat_shape = (self.num_orb, self.num_orb)
+        if self.__h_mat is None or self.__h_mat.shape != mat_shape:
+            self.__h_mat = np.zeros(mat_shape, dtype=np.complex128)
         else:
             self.__h_mat *= 0.0
         self.__model.set_ham_dense(k_point, self.__h_mat, convention)
 
         # Set up the overlap matrix
         if self.__overlap is not None:
-            if self.__s_mat is None:
-                self.__s_mat = np.zeros((self.num_orb, self.num_orb),
-                                        dtype=np.complex128)
+            if self.__s_mat is None or self.__s_mat.shape != mat_shape:
+                self.__s_mat = np.zeros(mat_shape, dtype=np.complex128)
             else:
                 self.__s_mat *= 0.0
             self.__overlap.set_overlap_dense(k_point, self.__s_mat, convention)
-- 
2.43.0


From a8aeb17279359658f2b47ce399350b28a2a92cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:40 +0000
Subject: [PATCH 24/26] fix: let Z2.calc_phases follow edits of the cell

---
 tbplas/diagonal/z2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index 35397f5..65cfb6c 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -142,6 +142,7 @@ class Z2(DiagSolver):
             phases of WF centers
         """
         # Allocate working arrays
+        self._update_array()
         if ka_array is None:
             ka_array = np.linspace(-0.5, 0.5, 200)
         if kb_array is None:
-- 
2.43.0


From c69c657f33d76e8f04cf93a0de5e030e3ae48ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:17 +0000
Subject: [PATCH 25/26] fix: keep orbitals far outside the cell in
 reshape_prim_cell

---
 tbplas/builder/advanced.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index e6df2dc..383da83 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -193,12 +193,18 @@ def reshape_prim_cell(prim_cell: PrimitiveCell,
     rn_range[:, 0] -= 1
     rn_range[:, 1] += 1
 
+    # Orbitals may be located outside the (0, 0, 0) primitive cell.
+    orb_pos = prim_cell.orb_pos
+    for j in range(3):
+        offset = [floor(pos.item(j)) for pos in orb_pos]
+        rn_range[j, 0] -= max(offset, default=0)
+        rn_range[j, 1] -= min(offset, default=0)
+
     # Function for getting cell index from fractional coordinates
     def _get_cell_index(x):
         return floor(x.item(0)), floor(x.item(1)), floor(x.item(2))
 
     # Add orbitals
-    orb_pos = prim_cell.orb_pos
     orb_map = OrbitalMap()
     for i_a in range(rn_range.item(0, 0), rn_range.item(0, 1)+1):
         for i_b in range(rn_range.item(1, 0), rn_range.item(1, 1)+1):
-- 
2.43.0


From d9163724d3f90021b4f4846d7bbd5a13bafb8527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:46 +0000
Subject: [PATCH 26/26] fix: give complex hopping integrals of graphene the
 same direction on all bonds

---
 tbplas/materials/graphene.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tbplas/materials/graphene.py b/tbplas/materials/graphene.py
index 10ff245..c6ee013 100644
--- a/tbplas/materials/graphene.py
+++ b/tbplas/materials/graphene.py
@@ -26,8 +26,8 @@ def make_graphene_diamond(c: float = 1.0, t: complex = -2.7) -> PrimitiveCell:
     cell.add_orbital((0.0, 0.0), label="C_pz")
     cell.add_orbital((1/3., 1/3.), label="C_pz")
     cell.add_hopping((0, 0), 0, 1, t)
-    cell.add_hopping((1, 0), 1, 0, t)
-    cell.add_hopping((0, 1), 1, 0, t)
+    cell.add_hopping((-1, 0), 0, 1, t)
+    cell.add_hopping((0, -1), 0, 1, t)
     return cell
 
 
@@ -60,11 +60,11 @@ def make_graphene_rect(from_scratch: bool = True,
 
         # Add hopping terms
         cell.add_hopping((0, 0), 0, 2, t)
-        cell.add_hopping((0, 0), 2, 3, t)
+        cell.add_hopping((0, 0), 3, 2, t)
         cell.add_hopping((0, 0), 3, 1, t)
-        cell.add_hopping((0, 1), 1, 0, t)
+        cell.add_hopping((0, -1), 0, 1, t)
         cell.add_hopping((1, 0), 3, 1, t)
-        cell.add_hopping((1, 0), 2, 0, t)
+        cell.add_hopping((-1, 0), 0, 2, t)
     else:
         cell = make_graphene_diamond(c=c, t=t)
         lat_frac = np.array([[1, 0, 0], [-1, 2, 0], [0, 0, 1]])
-- 
2.43.0

