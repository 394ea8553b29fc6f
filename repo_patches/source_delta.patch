From 60bb011a9f85228d38456d7bb6339c57f2e46379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 01/42] fix: drop_zero_rows raised when there were zero rows to
 drop

---
 inflation/lp/lp_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 8472b45..e9ea689 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -16,7 +16,7 @@ from ..utils import partsextractor, expand_sparse_vec, vstack
 
 
 def drop_zero_rows(coo_mat: coo_array):
-    """Drops zero rows from a sparse matrix in place.
+    """Drops zero rows from a sparse matrix.
 
     Parameters
     ----------
@@ -26,9 +26,8 @@ def drop_zero_rows(coo_mat: coo_array):
     if len(coo_mat.shape) == 1:
         coo_mat = coo_mat.reshape((1, coo_mat.shape[0]))
     nz_rows, new_row = np.unique(coo_mat.row, return_inverse=True)
-    coo_mat.row = new_row
-    coo_mat = coo_mat.reshape((len(nz_rows), coo_mat.shape[1]))
-    return coo_mat
+    return coo_array((coo_mat.data, (new_row, coo_mat.col)),
+                     shape=(len(nz_rows), coo_mat.shape[1]))
 
 
 def canonical_order(coo_mat: coo_array):
-- 
2.43.0


From 4eb05206b81a0186d10969c26b449bc9b623b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 02/42] fix: solve linear programs given without inequalities,
 equalities or both

---
 inflation/lp/lp_utils.py |  8 +++++++-
 inflation/utils.py       | 10 +++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index e9ea689..a33a7db 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -123,6 +123,8 @@ def solveLP(objective: Union[coo_array, Dict] = None,
                                       "arguments are of mixed form."
         solver_args.update(convert_dicts(**solver_args))
     solver_args.pop("semiknown_vars", None)
+    # Arguments that were not given take the default values of the solver
+    solver_args = {k: v for k, v in solver_args.items() if v is not None}
     return solveLP_sparse(**solver_args)
 
 
@@ -240,7 +242,11 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
                 task.putintparam(mosek.iparam.log_intpnt, 0)
 
             # Initialize constraint matrix
-            constraints = vstack((inequalities, equalities))
+            nof_cols = max(mat.shape[-1] for mat in
+                           (objective, known_vars, inequalities, equalities,
+                            lower_bounds, upper_bounds))
+            constraints = vstack((inequalities, equalities,
+                                  coo_array((0, nof_cols), dtype=np.int8)))
 
             nof_primal_inequalities = inequalities.shape[0]
             nof_primal_equalities = equalities.shape[0]
diff --git a/inflation/utils.py b/inflation/utils.py
index bf1fee2..4ec75e7 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -162,10 +162,14 @@ def vstack(blocks: tuple, format: str = 'coo') -> sps.coo_array:
                                   shape=(nof_rows, nof_cols)).asformat(format)
         else:
             return sps.vstack(blocks, format)
-    elif nof_blocks == 1:
-        return non_empty[0]
     else:
-        return sps.coo_array([])
+        nof_cols = max((mat.shape[-1] for mat in blocks), default=0)
+        mat = non_empty[0] if nof_blocks else sps.coo_array((0, nof_cols))
+        if mat.shape[1] < nof_cols:
+            mat = mat.tocoo()
+            mat = sps.coo_array((mat.data, (mat.row, mat.col)),
+                                shape=(mat.shape[0], nof_cols))
+        return mat.asformat(format)
 
 
 def perm_combiner(old_perms: np.ndarray, new_perms: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 506330be633c2d33c325603914ee31d3813345da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 03/42] fix: dual form of an LP ignored negative lower bounds

---
 inflation/lp/lp_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index a33a7db..13dfd2e 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -345,7 +345,9 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
 
                 # Set constraint bounds corresponding to primal variable bounds
                 if default_non_negative:
-                    bkc = np.broadcast_to(mosek.boundkey.lo, nof_dual_constraints)
+                    bkc = np.repeat(mosek.boundkey.lo, nof_dual_constraints)
+                    # As in the primal, a lower bound replaces the default one
+                    bkc[np.asarray(lower_bounds.col)] = mosek.boundkey.fx
                 else:
                     bkc = np.broadcast_to(mosek.boundkey.fx, nof_dual_constraints)
 
-- 
2.43.0


From b47d1fb557724281b2eb86af6016ad972d5fbb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 04/42] fix: equalities in matrix form were lost when semiknown
 variables are given

---
 inflation/lp/lp_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 13dfd2e..f65ac24 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -653,9 +653,9 @@ def convert_dicts(semiknown_vars: Dict = None,
         data = list(sum(data, ()))
         semiknown_mat = coo_array((data, (row, col)),
                                    shape=(nof_semiknown, nof_variables))
-        if "equalities" in sparse_args:
-            sparse_args["equalities"] = vstack(
-                (sparse_args["equalities"], semiknown_mat))
+        equalities = sparse_args.get("equalities", args.get("equalities"))
+        if equalities is not None:
+            sparse_args["equalities"] = vstack((equalities, semiknown_mat))
         else:
             sparse_args["equalities"] = semiknown_mat
     return sparse_args
-- 
2.43.0


From 70ee080299fdac19d29407a10db8a7d2e8354175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:16 +0000
Subject: [PATCH 05/42] fix: variables that only have bounds were not inferred
 by solveLP

---
 inflation/lp/lp_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index f65ac24..abcce80 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -115,6 +115,8 @@ def solveLP(objective: Union[coo_array, Dict] = None,
                     variables.update([x, x2])
             if known_vars:
                 variables.update(known_vars)
+            for bounds in ("lower_bounds", "upper_bounds"):
+                variables.update(used_args.get(bounds, ()))
             variables = sorted(variables)
             solver_args["variables"] = variables
         solver_args.update(convert_dicts(**solver_args))
-- 
2.43.0


From ea97ca268c103b81282a58dee9e0c8c52785bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 06/42] fix: extra equalities and inequalities were not given
 to the SDP solver

---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f5eb1f4..1d020ab 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2158,10 +2158,10 @@ class InflationSDP:
                                          in self.semiknown_moments.items()},
                       "equalities": [{mon.name: coeff
                                           for mon, coeff in eq.items()}
-                                     for eq in self.minimal_equalities],
+                                     for eq in self.moment_equalities],
                       "inequalities": [{mon.name: coeff
                                         for mon, coeff in ineq.items()}
-                                       for ineq in self.minimal_inequalities]
+                                       for ineq in self.moment_inequalities]
                       }
         # Add the constant 1 in case of unnormalized problems removed it
         solverargs["known_vars"][self.constant_term_name] = 1.
-- 
2.43.0


From 0650279bcaf2519e9b8ed6df3e84a06187a81aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 07/42] fix: objectives with semiknown moments raised an error
 in InflationSDP

---
 inflation/sdp/InflationSDP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 1d020ab..e9b1a77 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2034,10 +2034,10 @@ class InflationSDP:
                                         self._processed_objective.keys())
         for mon in semiknowns_to_process:
             coeff = self._processed_objective[mon]
-            for (subs_coeff, subs) in self.semiknown_moments[mon]:
-                self._processed_objective[subs] = \
-                    self._processed_objective.get(subs, 0) + coeff * subs_coeff
-                del self._processed_objective[mon]
+            subs_coeff, subs = self.semiknown_moments[mon]
+            self._processed_objective[subs] = \
+                self._processed_objective.get(subs, 0) + coeff * subs_coeff
+            del self._processed_objective[mon]
         collect()
 
     def _update_bounds(self, typ: str) -> None:
-- 
2.43.0


From bdcf14e85af27d04bb0cbb3710f2cc1b37664a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:45 +0000
Subject: [PATCH 08/42] fix: bounds of moments that once had a known value were
 lost in InflationSDP

---
 inflation/sdp/InflationSDP.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index e9b1a77..8484268 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -406,6 +406,7 @@ class InflationSDP:
         self.minimal_inequalities = []
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
+        self._bounds_of_known    = {"lo": dict(), "up": dict()}
 
         self.set_objective(None)
         self.set_values(None)
@@ -1308,6 +1309,9 @@ class InflationSDP:
             extension = "dat-s"
             filename += ".dat-s"
 
+        self._update_bounds("lo")
+        self._update_bounds("up")
+
         # Write file according to the extension
         if self.verbose > 0:
             print("Writing the SDP program to", filename)
@@ -1989,12 +1993,14 @@ class InflationSDP:
         """Reset the list of lower bounds."""
         self._reset_solution()
         self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
+        self._bounds_of_known["lo"] = dict()
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
         self._reset_solution()
         self.moment_upperbounds = dict()
+        self._bounds_of_known["up"] = dict()
 
     def _reset_objective(self) -> None:
         """Reset the objective function."""
@@ -2042,7 +2048,8 @@ class InflationSDP:
 
     def _update_bounds(self, typ: str) -> None:
         """Helper function to check that bounds are consistent with the
-        specified known values.
+        specified known values. The bounds of moments with known values are
+        put aside, and apply again when the moments are not known anymore.
 
         Parameters
         ----------
@@ -2058,6 +2065,10 @@ class InflationSDP:
         else:
             raise Exception(f"The bound type was {typ}, but it must be " +
                             "either \"up\" or \"lo\".")
+        bounds_of_known = self._bounds_of_known[typ]
+        for mon, b in bounds_of_known.items():
+            bounds.setdefault(mon, b)
+        bounds_of_known.clear()
         for mon, value in self.known_moments.items():
             if isinstance(value, Real):
                 try:
@@ -2066,7 +2077,7 @@ class InflationSDP:
                     assert condition, (f"Value {value} assigned for " +
                                        f"monomial {mon} contradicts the " +
                                        f"assigned {dir}er bound of {b}.")
-                    del bounds[mon]
+                    bounds_of_known[mon] = bounds.pop(mon)
                 except KeyError:
                     pass
 
@@ -2144,6 +2155,8 @@ class InflationSDP:
             ("Error: Tried to assign known values outside of moment matrix: " +
              str(set(self.known_moments.keys()
                      ).difference(self.moments)))
+        self._update_bounds("lo")
+        self._update_bounds("up")
         if len(self.maskmatrices) == 0:
             self._construct_mask_matrices()
         solverargs = {"mask_matrices": {mon.name: mask_matrix
-- 
2.43.0


From b0191aaf2ceaec2a42128c6412894088bcb066c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:45 +0000
Subject: [PATCH 09/42] fix: extra constraints set after an export of an
 InflationLP were not exported

---
 inflation/lp/InflationLP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index cdffe12..35184fb 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1734,12 +1734,12 @@ class InflationLP(object):
     # Preparation for passing to external interfaces                          #
     ###########################################################################
 
-    @cached_property
+    @property
     def moment_equalities_by_name(self):
         """List of dictionaries of moment equalities by name."""
         return self._coo_mat_to_dict(self.sparse_equalities, string_keys=True)
 
-    @cached_property
+    @property
     def moment_inequalities_by_name(self):
         """List of dictionaries of moment inequalities by name."""
         return self._coo_mat_to_dict(self.sparse_inequalities, 
-- 
2.43.0


From 77f00536118b88adb8d5a770630cd259dbb9ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 10/42] fix: results of an earlier problem were kept when
 setting extra constraints

---
 inflation/lp/InflationLP.py   | 2 ++
 inflation/sdp/InflationSDP.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 35184fb..ea31c5b 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -518,6 +518,7 @@ class InflationLP(object):
             The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_equalities = []  # Reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -535,6 +536,7 @@ class InflationLP(object):
              constraints. The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # Reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 8484268..8194bdb 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -425,6 +425,7 @@ class InflationSDP:
             (keys can be instances of `CompoundMonomial`, Symbols, strings, or
             integers), or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_equalities = []  # reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -442,6 +443,7 @@ class InflationSDP:
             dictionaries (keys can be instances of `CompoundMonomial`, Symbols,
             strings, or integers) or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
-- 
2.43.0


From c186a13a005641a690c3b499046cebaeb0c1e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 11/42] fix: set_bounds(None) did not reset the bounds of an
 InflationSDP

---
 inflation/sdp/InflationSDP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 8194bdb..1ba4a58 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -488,6 +488,7 @@ class InflationSDP:
         assert bound_type in ["up", "lo"], \
             "The 'bound_type' argument should be either 'up' or 'lo'"
         if bounds is None:
+            self.reset("upperbounds" if bound_type == "up" else "lowerbounds")
             return
         # Sanitize list of bounds
         sanitized_bounds = dict()
-- 
2.43.0


From 2028a06fe5166a6152f8aae8173900c1afd91bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 12/42] fix: resetting the values of an InflationSDP left them
 in the objective

---
 inflation/sdp/InflationSDP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 1ba4a58..cd46c26 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2022,6 +2022,7 @@ class InflationSDP:
         self.known_moments[self.One] = 1.
         self.extra_equalities = []
         self.extra_inequalities = []
+        self._update_objective()
         collect()
 
     def _update_objective(self) -> None:
-- 
2.43.0


From 81b138300e4f223e906ca226c118166f710b1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 13/42] fix: supports of earlier distributions stayed in force
 in supports problems

---
 inflation/lp/InflationLP.py   | 30 +++++++++++++++++++++++++++++-
 inflation/sdp/InflationSDP.py | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index ea31c5b..973c3e7 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1349,6 +1349,7 @@ class InflationLP(object):
                                  for mon in self.monomials}
         self.names_to_symbols[self.constant_term_name] = sp.S.One
 
+        self._support = []
         self._set_lowerbounds(None)
         self._set_upperbounds(None)
         self.set_objective(None)
@@ -1673,8 +1674,12 @@ class InflationLP(object):
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
-                self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
+            self._release_support()
+            self._support = [mon for mon in self._support
+                             if mon not in self.known_moments
+                             ] + nonzero_known_monomials
+            self._impose_support()
             self.semiknown_moments = dict()
         num_nontrivial_known = len(self.known_moments)
         if self.verbose > 1 and num_nontrivial_known > 1:
@@ -1693,10 +1698,29 @@ class InflationLP(object):
         self._reset_upperbounds()
         collect()
 
+    def _impose_support(self) -> None:
+        """Set the lower bounds of the moments in the support of a supports
+        problem."""
+        for mon in self._support:
+            self._bounds_outside_support.setdefault(
+                mon, self.moment_lowerbounds.get(mon, None))
+            self.moment_lowerbounds[mon] = 1.
+
+    def _release_support(self) -> None:
+        """Undo the effect of _impose_support on the lower bounds."""
+        for mon, bound in self._bounds_outside_support.items():
+            if bound is None:
+                self.moment_lowerbounds.pop(mon, None)
+            else:
+                self.moment_lowerbounds[mon] = bound
+        self._bounds_outside_support = dict()
+
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
         self.moment_lowerbounds = dict()
+        self._bounds_outside_support = dict()
+        self._impose_support()
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
@@ -1712,6 +1736,8 @@ class InflationLP(object):
     def _reset_values(self) -> None:
         """Reset the known values."""
         self._reset_solution()
+        self._release_support()
+        self._support = []
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         self.known_moments[self.One] = 1.
@@ -2034,7 +2060,9 @@ class InflationLP(object):
                 assert np.isclose(old_bound, lowerbound), \
                     (f"Contradiction: Cannot set the same monomial {mon} to " +
                      "have different lower bounds.")
+        self._release_support()
         self.moment_lowerbounds = sanitized_lowerbounds
+        self._impose_support()
 
     def mon_to_boolvec(self, mon: np.ndarray) -> np.ndarray:
         """Convert a monomial to a boolean vector.
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index cd46c26..e3bb348 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -407,6 +407,8 @@ class InflationSDP:
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
         self._bounds_of_known    = {"lo": dict(), "up": dict()}
+        self._support            = []
+        self._bounds_outside_support = dict()
 
         self.set_objective(None)
         self.set_values(None)
@@ -506,7 +508,9 @@ class InflationSDP:
             self.moment_upperbounds = sanitized_bounds
         else:
             self._reset_lowerbounds()
+            self._release_support()
             self.moment_lowerbounds.update(sanitized_bounds)
+            self._impose_support()
         self._update_bounds(bound_type)
 
     @cached_property
@@ -1970,8 +1974,12 @@ class InflationSDP:
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
-                self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
+            self._release_support()
+            self._support = [mon for mon in self._support
+                             if mon not in self.known_moments
+                             ] + nonzero_known_monomials
+            self._impose_support()
             self.semiknown_moments = dict()
 
         self._update_bounds("lo")
@@ -1992,11 +2000,31 @@ class InflationSDP:
         if self.verbose > 1 and num_semiknown > 0:
             print(f"Number of semiknown variables: {num_semiknown}")
 
+    def _impose_support(self) -> None:
+        """Set the lower bounds of the moments in the support of a supports
+        problem."""
+        for mon in self._support:
+            bound = self._bounds_of_known["lo"].pop(mon, None)
+            self._bounds_outside_support.setdefault(
+                mon, self.moment_lowerbounds.get(mon, bound))
+            self.moment_lowerbounds[mon] = 1.
+
+    def _release_support(self) -> None:
+        """Undo the effect of _impose_support on the lower bounds."""
+        for mon, bound in self._bounds_outside_support.items():
+            if bound is None:
+                self.moment_lowerbounds.pop(mon, None)
+            else:
+                self.moment_lowerbounds[mon] = bound
+        self._bounds_outside_support = dict()
+
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
         self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
         self._bounds_of_known["lo"] = dict()
+        self._bounds_outside_support = dict()
+        self._impose_support()
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
@@ -2015,6 +2043,8 @@ class InflationSDP:
     def _reset_values(self) -> None:
         """Reset the known values."""
         self._reset_solution()
+        self._release_support()
+        self._support = []
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         if self.momentmatrix_has_a_zero:
-- 
2.43.0


From cc397a0375f77dc606d523396003fe6382296912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 14/42] fix: bounds written to LP files ran into each other and
 into the end

Each bound is a line of its own, in the form that MOSEK reads.
---
 inflation/lp/writer_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 277fa04..cb2c9ea 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -51,9 +51,9 @@ def write_to_lp(args: dict, filename: str) -> None:
 
     f.write("bounds\n")
     for x in lower_bounds:
-        f.write(f"{lower_bounds[x]} <= {x}")
+        f.write(f"{x} >= {lower_bounds[x]}\n")
     for x in upper_bounds:
-        f.write(f"{x} <= {upper_bounds[x]}")
+        f.write(f"{x} <= {upper_bounds[x]}\n")
     f.write("end")
     f.close()
 
-- 
2.43.0


From a020abbb80c1a064c9d07b9798b7c579dfbfcf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 15/42] fix: known objectives and violated known constraints
 were missing in LP files

---
 inflation/lp/writer_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index cb2c9ea..58eabb9 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -241,7 +241,12 @@ def format_constraint_lp(known_vars: dict,
     for x in set(constraint).difference(known_vars):
         cons += f"{constraint[x]} {x} + "
     if cons == "":
-        return cons
+        # Everything is known. Constraints that hold can be left out, but the
+        # others (and the constant objective) have to be written.
+        if ((cons_type == 'eq' and c == 0) or (cons_type == 'ineq' and c >= 0)
+                or len(constraint) == 0):
+            return cons
+        cons = f"0 {next(iter(constraint))} + "
 
     if cons_type == 'obj':
         cons += str(c)
-- 
2.43.0


From 0136890a9a1fecfb138be8eac71ad648365188a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 16/42] fix: violated constraints of known variables were
 missing in MPS files

---
 inflation/lp/writer_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 58eabb9..b7b9c3c 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -78,11 +78,17 @@ def write_to_mps(args: dict, filename: str) -> None:
     upper_bounds = processed_args["upper_bounds"]
     variables = processed_args["variables"]
 
-    # Exclude constraints in which variables are all known values
+    # Exclude constraints in which variables are all known values, if they hold
+    def is_violated(constraint, is_equality):
+        c = sum(constraint[x] * known_vars[x] for x in constraint)
+        return c != 0 if is_equality else c < 0
+
     internal_equalities = [eq for eq in internal_equalities
-                           if set(eq).difference(known_vars)]
+                           if set(eq).difference(known_vars)
+                           or is_violated(eq, True)]
     inequalities = [ineq for ineq in inequalities
-                    if set(ineq).difference(known_vars)]
+                    if set(ineq).difference(known_vars)
+                    or is_violated(ineq, False)]
     constraints = internal_equalities + inequalities
     nof_equalities = len(internal_equalities)
     nof_inequalities = len(inequalities)
-- 
2.43.0


From 41fa182b74e965619841083eeceae9a9026bff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 17/42] fix: numbers were rounded to four decimals in MPS files

---
 inflation/lp/writer_utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index b7b9c3c..e012f73 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -111,16 +111,16 @@ def write_to_mps(args: dict, filename: str) -> None:
     for x in variables:
         if x in set(objective).difference(known_vars):
             arr = [x, 'obj', objective[x]]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            f.write("    {:10}{:10}{!s:<10}\n".format(*arr))
         for i, eq in enumerate(internal_equalities):
             if x in set(eq).difference(known_vars):
                 arr = [x, f"c{i}", eq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                f.write("    {:10}{:10}{!s:<10}\n".format(*arr))
         for i, ineq in enumerate(inequalities):
             if x in set(ineq).difference(known_vars):
                 arr = [x, f"c{nof_equalities + i}",
                        ineq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                f.write("    {:10}{:10}{!s:<10}\n".format(*arr))
 
     f.write(f"RHS\n")
     # Specify objective offset
@@ -129,7 +129,7 @@ def write_to_mps(args: dict, filename: str) -> None:
         rhs -= objective[x] * known_vars[x]
     if rhs != 0:
         arr = ['rhs', 'obj', rhs]
-        f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write("    {:10}{:10}{!s:<10}\n".format(*arr))
 
     # Specify non-zero RHS values of the constraints
     for i, c in enumerate(constraints):
@@ -138,7 +138,7 @@ def write_to_mps(args: dict, filename: str) -> None:
             rhs -= c[x] * known_vars[x]
         if rhs != 0:
             arr = ['rhs', f"c{i}", rhs]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            f.write("    {:10}{:10}{!s:<10}\n".format(*arr))
 
     f.write(f"RANGES\n")
 
@@ -146,10 +146,10 @@ def write_to_mps(args: dict, filename: str) -> None:
     f.write(f"BOUNDS\n")
     for x in lower_bounds:
         arr = ['bound', x, lower_bounds[x]]
-        f.write(" LO {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write(" LO {:10}{:10}{!s:<10}\n".format(*arr))
     for x in upper_bounds:
         arr = ['bound', x, upper_bounds[x]]
-        f.write(" UP {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write(" UP {:10}{:10}{!s:<10}\n".format(*arr))
     f.write(f"ENDATA")
     f.close()
 
-- 
2.43.0


From 4477f58f9d9ff82ab77e073c806c89898365702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 18/42] fix: variables that only have bounds had no column in
 MPS files

---
 inflation/lp/writer_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index e012f73..d661436 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -109,8 +109,10 @@ def write_to_mps(args: dict, filename: str) -> None:
     # Specify columns of the problem
     f.write(f"COLUMNS\n")
     for x in variables:
-        if x in set(objective).difference(known_vars):
-            arr = [x, 'obj', objective[x]]
+        if (x in set(objective).difference(known_vars)
+                or x in lower_bounds or x in upper_bounds):
+            # Variables with bounds must have a column
+            arr = [x, 'obj', objective.get(x, 0)]
             f.write("    {:10}{:10}{!s:<10}\n".format(*arr))
         for i, eq in enumerate(internal_equalities):
             if x in set(eq).difference(known_vars):
-- 
2.43.0


From 62e1ec9ad6b672d1c691659f59de32adaab2aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 19/42] fix: bounds of known variables were not applied to them
 in exported LPs

---
 inflation/lp/writer_utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index d661436..c081529 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -204,8 +204,17 @@ def process_arguments(args: dict) -> dict:
     new_equalities = [{var_idx[x]: c for x, c in eq.items()} for eq in  old_equalities]
     new_inequalities = [{var_idx[x]: c for x, c in ineq.items()} for ineq in old_inequalities]
     new_known_vars = {var_idx[x]: c for x, c in old_known_vars.items()}
-    new_lower_bounds = {var_idx[x]: c for x, c in old_lower_bounds.items()}
-    new_upper_bounds = {var_idx[x]: c for x, c in old_upper_bounds.items()}
+    new_lower_bounds = {var_idx[x]: c for x, c in old_lower_bounds.items()
+                        if x not in old_known_vars}
+    new_upper_bounds = {var_idx[x]: c for x, c in old_upper_bounds.items()
+                        if x not in old_known_vars}
+    # Bounds of known variables are constraints between constants
+    unit = "constant_term"
+    new_known_vars[unit] = 1
+    for x in set(old_lower_bounds).intersection(old_known_vars):
+        new_inequalities.append({var_idx[x]: 1, unit: -old_lower_bounds[x]})
+    for x in set(old_upper_bounds).intersection(old_known_vars):
+        new_inequalities.append({var_idx[x]: -1, unit: old_upper_bounds[x]})
     new_objective = {var_idx[x]: c for x, c in old_objective.items()}
 
     return {
-- 
2.43.0


From f8d8d952295f63921622399d0548316f7ecef7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 20/42] fix: moments without variable were named in CSV files
 without their value

Known and linearised moments are replaced in the matrix, so they have to be
replaced in the objective, the bounds and the constraints too.
---
 inflation/sdp/writer_utils.py | 40 ++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index c5d7ea7..1b4b5b6 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -11,6 +11,35 @@ from scipy.io import savemat
 from warnings import warn
 
 
+def _substitute_values(problem, expression):
+    """Replace the moments with known values, and those proportional to other
+    moments, in a linear combination of moments.
+
+    Parameters
+    ----------
+    problem : :class:`inflation.InflationSDP`
+        The SDP relaxation that specifies the values.
+    expression : Dict[CompoundMomentSDP, float]
+        The coefficients of the moments.
+
+    Returns
+    -------
+    Dict[CompoundMomentSDP, float]
+        The coefficients of the remaining moments. The key ``problem.One``,
+        when present, is the independent term.
+    """
+    substituted = dict()
+    for mon, coeff in expression.items():
+        if mon in problem.known_moments:
+            coeff = coeff * problem.known_moments[mon]
+            mon = problem.One
+        elif mon in problem.semiknown_moments:
+            factor, mon = problem.semiknown_moments[mon]
+            coeff = coeff * factor
+        substituted[mon] = substituted.get(mon, 0) + coeff
+    return substituted
+
+
 def convert_to_human_readable(problem):
     """Convert the SDP relaxation to a human-readable format.
 
@@ -59,7 +88,7 @@ def convert_to_human_readable(problem):
     ### Process objective
     is_first = True
     try:
-        independent_term = float(problem.objective[problem.One])
+        independent_term = float(problem._processed_objective[problem.One])
         if abs(independent_term) > 1e-8:
             objective = str(independent_term)
             is_first = False
@@ -67,7 +96,7 @@ def convert_to_human_readable(problem):
             objective = ""
     except KeyError:
         objective = ""
-    for variable, coeff in problem.objective.items():
+    for variable, coeff in problem._processed_objective.items():
         if variable != problem.One:
             if (coeff < 0) or is_first:
                 objective += f"{float(coeff)}*{variable.name}"
@@ -81,7 +110,8 @@ def convert_to_human_readable(problem):
                           key=lambda x: x.name)
     bounds = np.zeros((len(bounded_vars), 3), dtype=object)
     for idx, var in enumerate(bounded_vars):
-        bounds[idx, 0] = var
+        factor, name = problem.semiknown_moments.get(var, (1, var))
+        bounds[idx, 0] = name if factor == 1 else f"{factor}*{name}"
         bounds[idx, 1] = problem.moment_lowerbounds.get(var, None)
         bounds[idx, 2] = problem.moment_upperbounds.get(var, None)
 
@@ -89,7 +119,7 @@ def convert_to_human_readable(problem):
     equalities = []
     for eq in problem.moment_equalities:
         equality = ""
-        for monom, coeff in eq.items():
+        for monom, coeff in _substitute_values(problem, eq).items():
             equality += "+" if coeff > 0 else "-"
             if monom == problem.One:
                 equality += str(abs(coeff))
@@ -104,7 +134,7 @@ def convert_to_human_readable(problem):
     inequalities = []
     for ineq in problem.moment_inequalities:
         inequality = ""
-        for monom, coeff in ineq.items():
+        for monom, coeff in _substitute_values(problem, ineq).items():
             inequality += "+" if coeff > 0 else "-"
             if monom == problem.One:
                 inequality += str(abs(coeff))
-- 
2.43.0


From f05b6dbe59eb7b3761e4b3e52145cf1903968a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 21/42] fix: bounds that are numpy numbers were written by
 their type in CSV files

---
 inflation/sdp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 1b4b5b6..4177e38 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -170,7 +170,7 @@ def write_to_csv(problem, filename):
     f.write("Bounds:\n")
     f.write("Variable,lower,upper\n")
     for bound_line in bounds:
-        f.write(str(bound_line)[1:-1].replace(" ", ""))
+        f.write(",".join(map(str, bound_line)).replace(" ", ""))
         f.write("\n")
     f.write("\nEqualities (format: line = 0):\n")
     for equality in equalities:
-- 
2.43.0


From 693348964921a1cf953ab6a5b75ee183e8d635b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 22/42] fix: coefficients close to 1 were written as 1 in CSV
 files

---
 inflation/sdp/writer_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 4177e38..b111ed5 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -124,7 +124,7 @@ def convert_to_human_readable(problem):
             if monom == problem.One:
                 equality += str(abs(coeff))
             else:
-                if np.isclose(abs(coeff), 1):
+                if abs(coeff) == 1:
                     equality += monom.name
                 else:
                     equality += f"{abs(coeff)}*{monom.name}"
@@ -139,7 +139,7 @@ def convert_to_human_readable(problem):
             if monom == problem.One:
                 inequality += str(abs(coeff))
             else:
-                if np.isclose(abs(coeff), 1):
+                if abs(coeff) == 1:
                     inequality += monom.name
                 else:
                     inequality += f"{abs(coeff)}*{monom.name}"
-- 
2.43.0


From 923cc8afe895cc49166778c65967f13a0b2e9f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 23/42] fix: negative known values were written as positive in
 SDPA files

---
 inflation/sdp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index b111ed5..c58dc64 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -331,7 +331,7 @@ def write_to_sdpa(problem, filename):
                 elif var in known_moments_indices.keys():
                     coeff = known_moments_indices[var]
                     lines.append(
-                        f"0\t{block}\t{ii+1}\t{jj+1}\t-{abs(coeff)}\n")
+                        f"0\t{block}\t{ii+1}\t{jj+1}\t{-coeff}\n")
                 elif var in semiknowns.keys():
                     coeff, subs = semiknowns[var]
                     try:
-- 
2.43.0


From e2e2a62c5c2be097ab40ffe082fa9a850b10030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 24/42] fix: objectives with known or linearised moments could
 not be exported to SDPA

The number of variables is that of the variables in the matrix.
---
 inflation/sdp/writer_utils.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index c58dc64..823bcb7 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -296,22 +296,6 @@ def write_to_sdpa(problem, filename):
     For more information about the .dat-s format, see the specifications at:
     http://euler.nmt.edu/~brian/sdplib/FORMAT
     """
-    # Compute actual number of variables: all in the moment matrix, minus those
-    # with known values, minus those that participate in LPI constraints, plus
-    # those where the unknown part of the LPI constraint is not in the original
-    # moment matrix
-    potential_nvars = problem.momentmatrix.max() - 1
-    if len(problem.known_moments) == 1:
-        known_vars = 0
-    else:
-        known_vars = (len(problem.known_moments)
-                      - problem.momentmatrix_has_a_zero
-                      - problem.momentmatrix_has_a_one)
-    semiknown_vars = len(problem.semiknown_moments)
-    new_vars       = sum([mon[1][1].idx > problem.momentmatrix.max()
-                          for mon in problem.semiknown_moments.items()])
-    nvars = potential_nvars - known_vars - semiknown_vars + new_vars
-
     known_moments_indices = {mon.idx: coeff
                              for mon, coeff in problem.known_moments.items()}
     semiknowns  = {mon.idx: (subs[0], subs[1].idx)
@@ -353,16 +337,18 @@ def write_to_sdpa(problem, filename):
                             f"{new_var}\t{block}\t{ii+1}\t{jj+1}\t1.0\n")
                         new_var += 1
 
+    nvars = len(var_corresp)
+
     # Prepare objective
     objective = np.zeros(nvars)
-    for variable, coeff in problem.objective.items():
+    for variable, coeff in problem._processed_objective.items():
         if variable == problem.One:
             if abs(coeff) > 1e-8:
                 warn(f"Export removed the constant {coeff} from the objective")
-        else:
+        elif coeff != 0:
             objective[var_corresp[variable.idx] - 1] = coeff
     objective = str(objective.tolist()).replace("[", "").replace("]", "")
-    objective_constant = problem.objective[problem.One]
+    objective_constant = problem._processed_objective[problem.One]
 
     # Prepare upper bounds
     if len(problem.moment_upperbounds) > 0:
-- 
2.43.0


From 4191ea36a1c648a371221186755fec5bfdaf847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 25/42] fix: constraints with known or linearised moments could
 not be exported to SDPA

Besides, the second and later inequalities were written outside of their
block.
---
 inflation/sdp/writer_utils.py | 51 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 823bcb7..beda566 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -389,41 +389,44 @@ def write_to_sdpa(problem, filename):
             ii += 1
 
     # Prepare equalities
-    if len(problem.moment_equalities) > 0:
+    rows = [row for row in (_substitute_values(problem, equality)
+                            for equality in problem.moment_equalities)
+            if set(row).difference([problem.One])
+            or row.get(problem.One, 0) != 0]
+    if len(rows) > 0:
         block += 1
         ii     = 1
-        block_size = 2*len(problem.moment_equalities)
+        block_size = 2*len(rows)
         blockstruct.append(str(-block_size))
-    for equality in problem.moment_equalities:
+    for equality in rows:
         for var, coeff in equality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                    lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{-coeff}\n")
-                else:
-                    lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
-                    lines.append(f"0\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
+            if var != problem.One:
+                var = var_corresp[var.idx]
+                lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
+                lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{-coeff}\n")
+            else:
+                lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
+                lines.append(f"0\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
         ii += 2
 
     # Prepare inequalities
-    if len(problem.moment_inequalities) > 0:
+    rows = [row for row in (_substitute_values(problem, inequality)
+                            for inequality in problem.moment_inequalities)
+            if set(row).difference([problem.One])
+            or row.get(problem.One, 0) < 0]
+    if len(rows) > 0:
         block += 1
         ii = 1
-        block_size = len(problem.moment_inequalities)
+        block_size = len(rows)
         blockstruct.append(str(-block_size))
-    for inequality in problem.moment_inequalities:
-        sumcoeffs = 0
+    for inequality in rows:
         for var, coeff in inequality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                else:
-                    sumcoeffs += coeff
-        if sumcoeffs != 0:
-            lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
-        ii += 2
+            if var != problem.One:
+                var = var_corresp[var.idx]
+                lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
+            else:
+                lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
+        ii += 1
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
     if abs(objective_constant) > 1e-8:
-- 
2.43.0


From 929e94e927d6e5101f1e40fd0463a399b8b3f887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 26/42] fix: bounds of linearised moments and negative upper
 bounds were lost in SDPA files

Negative upper bounds were written with two signs. Blocks without bounds are
no longer written.
---
 inflation/sdp/writer_utils.py | 62 +++++++++++++++++------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index beda566..635837c 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -351,42 +351,40 @@ def write_to_sdpa(problem, filename):
     objective_constant = problem._processed_objective[problem.One]
 
     # Prepare upper bounds
-    if len(problem.moment_upperbounds) > 0:
+    upper_bounds = [(*problem.semiknown_moments.get(mon, (1.0, mon)), bound)
+                    for mon, bound in problem.moment_upperbounds.items()
+                    if mon != problem.One and mon not in problem.known_moments]
+    if len(upper_bounds) > 0:
         block += 1
         ii     = 1
-        block_size = len([mon for mon in problem.moment_upperbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, ub in problem.moment_upperbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t-1.0\n")
-            if abs(ub) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t-{ub}\n")
-            ii += 1
-
-    # Prepare lower bounds
-    if len(problem.moment_lowerbounds) > 0:
+        blockstruct.append(str(-len(upper_bounds)))
+    for factor, var, ub in upper_bounds:
+        var = var_corresp[var.idx]
+        lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{-factor}\n")
+        if abs(ub) > 1e-8:
+            lines.append(f"0\t{block}\t{ii}\t{ii}\t{-ub}\n")
+        ii += 1
+
+    # Prepare lower bounds. Those of linearised moments that follow from the
+    # non-negativity of the moment they are proportional to are left out.
+    lower_bounds = []
+    for mon, bound in problem.moment_lowerbounds.items():
+        if mon == problem.One or mon in problem.known_moments:
+            continue
+        factor, var = problem.semiknown_moments.get(mon, (1.0, mon))
+        if (var == mon or factor < 0 or bound > 0
+                or problem.moment_lowerbounds.get(var, -1) < 0):
+            lower_bounds.append((factor, var, bound))
+    if len(lower_bounds) > 0:
         block += 1
         ii     = 1
-        block_size = len([mon for mon in problem.moment_lowerbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, lb in problem.moment_lowerbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t1.0\n")
-            if abs(lb) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t{lb}\n")
-            ii += 1
+        blockstruct.append(str(-len(lower_bounds)))
+    for factor, var, lb in lower_bounds:
+        var = var_corresp[var.idx]
+        lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{factor}\n")
+        if abs(lb) > 1e-8:
+            lines.append(f"0\t{block}\t{ii}\t{ii}\t{lb}\n")
+        ii += 1
 
     # Prepare equalities
     rows = [row for row in (_substitute_values(problem, equality)
-- 
2.43.0


From ff95007aab93a4fcafbaf537538720d0d56e71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 27/42] fix: solveSDP_MosekFUSION raised for semiknown
 variables that do not occur elsewhere

---
 inflation/sdp/sdp_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index bfa0b4b..45fbec4 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -215,9 +215,9 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
         # For the semiknown constraint x_i = a_i * x_j, add to the Fi of x_j
         # the expression a_i*(Fi of x_i).
         for x, (c, x2) in semiknown_vars.items():
-            if mask_matrices:
-                val = Fi.pop(x, 0)
-                Fi[x2] = Fi.get(x2, 0) + c * val
+            if x in Fi:
+                val = c * Fi.pop(x)
+                Fi[x2] = Fi[x2] + val if x2 in Fi else val
 
             if var_objective and not feas_as_optim:
                 val = var_objective.pop(x, 0)
@@ -231,14 +231,14 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                 val = inequality.pop(x, 0)
                 inequality[x2] = inequality.get(x2, 0) + c * val
 
-            variables.remove(x)
+            variables.discard(x)
             variables.add(x2)
 
     else:
         # Just add semiknown constraints as equality constraints.
         for x, (c, x2) in semiknown_vars.items():
             var_equalities.append({x: 1, x2: -c})
-            variables.add(x2)
+            variables.update((x, x2))
 
     # Calculate c0, the constant part of the var_objective.
     c0 = 0. + float(sum([var_objective[x] * known_vars[x]
-- 
2.43.0


From 007b2b411c7418d49c28a6fcc6305288fcd84a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:52 +0000
Subject: [PATCH 28/42] fix: semiknown variables proportional to a known
 variable were lost in solveSDP_MosekFUSION

---
 inflation/sdp/sdp_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 45fbec4..c7a8f09 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -207,10 +207,6 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
         Fi[lam] = -1 * eye(mat_dim).tolil()
         var_objective = {lam: 1}
 
-    # Calculate F0, the constant part of the matrix variable.
-    F0 = coo_array((mat_dim, mat_dim), dtype=float)
-    F0 += sum(known_vars[x] * Fi[x] for x in set(Fi).intersection(known_vars))
-
     if process_constraints:
         # For the semiknown constraint x_i = a_i * x_j, add to the Fi of x_j
         # the expression a_i*(Fi of x_i).
@@ -240,6 +236,13 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             var_equalities.append({x: 1, x2: -c})
             variables.update((x, x2))
 
+    # The semiknown constraints can involve variables with known values
+    variables.difference_update(known_vars.keys())
+
+    # Calculate F0, the constant part of the matrix variable.
+    F0 = coo_array((mat_dim, mat_dim), dtype=float)
+    F0 += sum(known_vars[x] * Fi[x] for x in set(Fi).intersection(known_vars))
+
     # Calculate c0, the constant part of the var_objective.
     c0 = 0. + float(sum([var_objective[x] * known_vars[x]
                          for x in set(var_objective).intersection(known_vars)])
-- 
2.43.0


From 7a69fd9fbec1e3969dc68a818529671620029177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:24 +0000
Subject: [PATCH 29/42] fix: the dual form could not be built with a variable
 that is in no constraint

---
 inflation/sdp/sdp_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index c7a8f09..b119b06 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -350,11 +350,11 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             else:
                 domain = Domain.equalsTo(0)
             for i, x in enumerate(variables):
-                lhs = 0.0
+                lhs = Expr.constTerm(0.0)
                 if var_objective and x in set(var_objective
                                               ).difference(known_vars):
                     ci  = float(var_objective[x])
-                    lhs += ci
+                    lhs = Expr.add(lhs, ci)
                 try:
                     F = Fi.pop(x)
                     lhs = Expr.add(lhs,
-- 
2.43.0


From 2eb85a242b49dae339cb89606ee2165a749ad89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:24 +0000
Subject: [PATCH 30/42] fix: the moment matrix reported when solving the dual
 form lacked the unknown variables

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index b119b06..d1fb680 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -356,7 +356,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                     ci  = float(var_objective[x])
                     lhs = Expr.add(lhs, ci)
                 try:
-                    F = Fi.pop(x)
+                    F = Fi[x]
                     lhs = Expr.add(lhs,
                                    Expr.dot(Z,
                                             scipy_to_mosek(F)))
-- 
2.43.0


From df982b8f3ce4e7b87f4f464cb8b7754dfa2041a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 31/42] fix: the certificate of an SDP lost the objective's
 part for known variables with a mask matrix

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index d1fb680..7223a22 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -516,7 +516,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             if mask_matrices:
                 for x in set(Fi).intersection(known_vars):
                     support = Fi[x].nonzero()
-                    certificate[x] = np.dot(ymat[support], Fi[x][support].toarray().ravel())
+                    certificate[x] += np.dot(ymat[support], Fi[x][support].toarray().ravel())
 
             # + I · b
             if var_inequalities:
-- 
2.43.0


From bc945bb59c3a9ae9c84e168dea563584a172f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 32/42] fix: in primal form the dual matrix of an SDP and its
 part of the certificate had the wrong sign

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 7223a22..dafa6c1 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -462,7 +462,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             else:
                 x_values = dict(zip(variables, x_mosek.level()))
                 if mask_matrices:
-                    ymat = G.dual().reshape([mat_dim, mat_dim])
+                    ymat = -G.dual().reshape([mat_dim, mat_dim])
                     xmat = G.level().reshape([mat_dim, mat_dim])
 
             status = M.getProblemStatus()
-- 
2.43.0


From 34e08f5cd5329fc0f3f1d6f53890587727ef7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:02 +0000
Subject: [PATCH 33/42] fix: clean_coefficients compared normalised
 coefficients with the cut-off, and raised if all were below it

---
 inflation/utils.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/inflation/utils.py b/inflation/utils.py
index 4ec75e7..6a3c369 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -79,16 +79,18 @@ def clean_coefficients(cert: Dict[str, float],
     if not cert:
         return cert
     chop_tol = np.abs(chop_tol)
-    coeffs = np.asarray(list(cert.values()))
-    if chop_tol > 0:
-        # Try to take the smallest nonzero one and make it 1, when possible
-        normalising_factor = np.min(np.abs(coeffs[np.abs(coeffs) > chop_tol]))
-    else:
-        # Take the largest nonzero one and make it 1
-        normalising_factor = np.max(np.abs(coeffs[np.abs(coeffs) > chop_tol]))
-    coeffs /= normalising_factor
+    coeffs = np.array(list(cert.values()), dtype=float)
+    small = np.abs(coeffs) <= chop_tol
+    if not np.all(small):
+        if chop_tol > 0:
+            # Try to take the smallest nonzero one and make it 1, when possible
+            normalising_factor = np.min(np.abs(coeffs[~small]))
+        else:
+            # Take the largest nonzero one and make it 1
+            normalising_factor = np.max(np.abs(coeffs[~small]))
+        coeffs /= normalising_factor
     # Set to zero very small coefficients
-    coeffs[np.abs(coeffs) <= chop_tol] = 0
+    coeffs[small] = 0
     # Round
     coeffs = np.round(coeffs, decimals=round_decimals)
     return dict(zip(cert.keys(), coeffs.flat))
-- 
2.43.0


From 768e0708e403a023ad626d6753883d4c4af86b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:14 +0000
Subject: [PATCH 34/42] fix: the text of a polynomial or certificate without
 terms raised IndexError (InflationSDP)

---
 inflation/sdp/InflationSDP.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index e3bb348..6205f3a 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -980,8 +980,11 @@ class InflationSDP:
                     polynomial_as_str += mon.name
                 else:
                     polynomial_as_str += "{0}*{1}".format(abs(coeff), mon.name)
-        return polynomial_as_str[1:] if polynomial_as_str[
-                                            0] == "+" else polynomial_as_str
+        if not len(polynomial_as_str):  # Failsafe for empty dictionary.
+            polynomial_as_str = "0"
+        elif polynomial_as_str[0] == "+":
+            polynomial_as_str = polynomial_as_str[1:]
+        return polynomial_as_str
 
     def certificate_as_string(self,
                               clean: bool = True,
-- 
2.43.0


From 2e60b2fff584bdfba40c868906fffafa4b51db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:14 +0000
Subject: [PATCH 35/42] fix: coefficients close to 1 were left out of the text
 of certificates

---
 inflation/lp/InflationLP.py   | 2 +-
 inflation/sdp/InflationSDP.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 973c3e7..a319e87 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -765,7 +765,7 @@ class InflationLP(object):
                 continue
             else:
                 polynomial_as_str += "+" if coeff >= 0 else "-"
-                if np.isclose(abs(coeff), 1):
+                if abs(coeff) == 1:
                     polynomial_as_str += mon.name
                 else:
                     polynomial_as_str += "{0}*{1}".format(abs(coeff), mon.name)
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 6205f3a..fccfcdd 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -976,7 +976,7 @@ class InflationSDP:
                 continue
             else:
                 polynomial_as_str += "+" if coeff >= 0 else "-"
-                if np.isclose(abs(coeff), 1):
+                if abs(coeff) == 1:
                     polynomial_as_str += mon.name
                 else:
                     polynomial_as_str += "{0}*{1}".format(abs(coeff), mon.name)
-- 
2.43.0


From 237e2b563bd44ed3438b56754e32b9a5e13f79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:22 +0000
Subject: [PATCH 36/42] fix: polynomials that are a constant were read as zero

---
 inflation/lp/InflationLP.py   | 2 +-
 inflation/sdp/InflationSDP.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index a319e87..407e630 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1128,7 +1128,7 @@ class InflationLP(object):
             if input_dict.free_symbols:
                 input_dict_copy = {k: float(v) for k, v in sp.expand(input_dict).as_coefficients_dict().items()}
             else:
-                input_dict_copy = dict()
+                input_dict_copy = {sp.S.One: float(input_dict)}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index fccfcdd..2469391 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1595,7 +1595,7 @@ class InflationSDP:
                 input_dict_copy = {k: float(v) for k, v in sp.expand(
                     input_dict).as_coefficients_dict().items()}
             else:
-                input_dict_copy = dict()
+                input_dict_copy = {sp.S.One: float(input_dict)}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
-- 
2.43.0


From 56421541f9dc54cdd8187f24e076b13e45cdcddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:30 +0000
Subject: [PATCH 37/42] fix: certificates lost one of the coefficients of the
 constant term (InflationSDP)

---
 inflation/sdp/InflationSDP.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 2469391..76becfc 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -884,12 +884,16 @@ class InflationSDP:
             warn("Beware that, because the problem contains linearized " +
                  "polynomial constraints, the certificate is not guaranteed " +
                  "to apply to other distributions.")
-        if np.allclose(list(dual.values()), 0.):
+        # The constant term has more than one name
+        certificate = defaultdict(float)
+        for name, coeff in dual.items():
+            certificate[self.monomial_from_name[name]] += coeff
+        if np.allclose(list(certificate.values()), 0.):
             return dict()
         if clean:
-            dual = clean_coefficients(dual, chop_tol, round_decimals)
-        return {self.monomial_from_name[k]: v for k, v in dual.items()
-                if not self.monomial_from_name[k].is_zero}
+            certificate = clean_coefficients(certificate, chop_tol,
+                                             round_decimals)
+        return {mon: v for mon, v in certificate.items() if not mon.is_zero}
 
     def probs_from_dict(self,
                         dict_with_monomial_keys: dict) -> sp.core.add.Add:
-- 
2.43.0


From bef0b5877f01e06748a81d2d712e838fd5e06db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:49 +0000
Subject: [PATCH 38/42] fix: max_within_feasible with the dual method raised
 KeyError for moments whose value follows from those given

---
 inflation/optimization_utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index f2698d7..82871a2 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -251,10 +251,14 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
                       solve_dual=solve_dual,
                       solverparameters=solverparameters)
 
-        # The feasible region is where the certificate is positive
-        nonneg_expr = sum(symbol_names[var] * coeff
-                          for var, coeff in
-                          program.solution_object["dual_certificate"].items())
+        # The feasible region is where the certificate is positive. Known
+        # moments without an expression of their own are products of others.
+        nonneg_expr = sum(
+            symbol_names[var] * coeff if var in symbol_names else
+            sp.prod(symbol_names[str(factor)] for factor
+                    in program.monomial_from_name[var].factors) * coeff
+            for var, coeff in
+            program.solution_object["dual_certificate"].items())
         nonneg_func = lambdify([param],
                                nonneg_expr,
                                modules="numpy",
-- 
2.43.0


From 587b682d10b37f800fa059de255843e897827e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 39/42] fix: normalisation equalities with a single outcome
 crashed generate_relaxation (InflationSDP)

---
 inflation/sdp/InflationSDP.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 76becfc..dc354b6 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -10,7 +10,6 @@ from gc import collect
 from itertools import chain, count, product, repeat, combinations
 from operator import neg as op_neg
 from numbers import Real
-from operator import itemgetter
 from typing import List, Dict, Tuple, Union, Any
 from warnings import warn
 
@@ -398,7 +397,7 @@ class InflationSDP:
             for (norm_idx, summation_idxs) in self.idx_level_equalities:
                 eq_dict = {self.compmoment_from_idx[norm_idx]: 1}
                 eq_dict.update(zip(
-                    itemgetter(*summation_idxs)(self.compmoment_from_idx),
+                    [self.compmoment_from_idx[idx] for idx in summation_idxs],
                     repeat(-1)
                 ))
                 self.minimal_equalities.append(eq_dict)
-- 
2.43.0


From a01067e12bff578172649bef9dcea7ac9eb98c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 40/42] fix: no normalisation equalities with
 include_all_outcomes in networks (InflationSDP)

---
 inflation/sdp/InflationSDP.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index dc354b6..267579c 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -382,10 +382,11 @@ class InflationSDP:
                                  for mon in self.moments}
         self.names_to_symbols[self.constant_term_name] = sp.S.One
 
-        # In non-network scenarios we do not use Collins-Gisin notation for
-        # some variables, so there exist normalization constraints between them
+        # In non-network scenarios, and when all outcomes are kept, we do not
+        # use Collins-Gisin notation for some variables, so there exist
+        # normalization constraints between them
         self.minimal_equalities = []
-        if not self.network_scenario or self.supports_problem:
+        if np.any(self.has_children):
             self.column_level_equalities = self._discover_normalization_eqns()
             self.idx_level_equalities    = construct_normalization_eqs(
                                                 self.column_level_equalities,
-- 
2.43.0


From 97369f65f0a57a6164a0e1c9a4fb5f249589c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:53 +0000
Subject: [PATCH 41/42] fix: normalisation equalities of products after one not
 in the columns, or not in canonical form, were lost (InflationSDP)

---
 inflation/sdp/InflationSDP.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 267579c..a09e95b 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1868,13 +1868,15 @@ class InflationSDP:
                         rhs[:, i] = lexmon_to_orthogroup[op]
                         eqs += [(lhs, list(rhs))]
                 for eq in eqs:
+                    lhs = self._to_canonical_memoized_1d(eq[0])
+                    rhs = [self._to_canonical_memoized_1d(m) for m in eq[1]]
                     try:
-                        eq_idxs = [self.genmon_1d_to_index[tuple(eq[0])]]
+                        eq_idxs = [self.genmon_1d_to_index[tuple(lhs)]]
                         eq_idxs.append([self.genmon_1d_to_index[tuple(m)]
-                                        for m in eq[1]])
+                                        for m in rhs])
                         column_level_equalities += [tuple(eq_idxs)]
                     except KeyError:
-                        break
+                        continue
         return column_level_equalities
 
     def _discover_columns_symmetries(self) -> np.ndarray:
-- 
2.43.0


From 3f8f32c4207e4733a275bfede4311035d3654d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:03 +0000
Subject: [PATCH 42/42] fix: moments equal to their conjugate only under
 inflation symmetries were forced non-negative (InflationSDP)

---
 inflation/sdp/monomial_classes.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index 2e553cf..2a6d8f8 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -8,6 +8,7 @@ import numpy as np
 from functools import total_ordering, cached_property
 from typing import Tuple
 
+from .fast_npa import reverse_mon
 from ..lp.monomial_classes import InternalAtomicMonomial as InternalAtomicMonomialLP
 from ..lp.monomial_classes import CompoundMoment as CompoundMomentLP
 
@@ -85,14 +86,20 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
 
     @cached_property
     def is_hermitian(self) -> bool:
-        """Whether the atomic monomial is equivalent to its conjugate
-         under inflation symmetries and commutation."""
-        return np.array_equal(self.as_lexmon, self.conjugate_lexmon)
+        """Whether the atomic monomial is equal to its conjugate under
+        commutation alone. Such a product of projectors is a positive operator.
+        Being equivalent to the conjugate under inflation symmetries makes the
+        moment real, but it does not make it non-negative."""
+        if self.is_all_commuting:
+            return True
+        reverse = self.context._to_canonical_memoized_1d(
+            reverse_mon(self.as_lexmon), apply_only_commutations=True)
+        return np.array_equal(self.as_lexmon, reverse)
 
     @property
     def dagger(self):
         """Returns the adjoint of the Monomial."""
-        if self.is_hermitian:
+        if np.array_equal(self.as_lexmon, self.conjugate_lexmon):
             return self
         else:
             dagger = self.__copy__()
-- 
2.43.0

