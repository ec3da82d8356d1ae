From df89de4db59551343c27ea5b4d4b7a6ab196f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 01/40] fix: do not cache the LP constraint dictionaries used
 for exports

They include the extra equalities and inequalities, so caching them made
write_to_file export the constraints of an earlier moment, and repeated calls
of _prepare_solver_arguments(separate_bounds=False) pile up bounds.
---
 inflation/lp/InflationLP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index cdffe12..35184fb 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1734,12 +1734,12 @@ class InflationLP(object):
     # Preparation for passing to external interfaces                          #
     ###########################################################################
 
-    @cached_property
+    @property
     def moment_equalities_by_name(self):
         """List of dictionaries of moment equalities by name."""
         return self._coo_mat_to_dict(self.sparse_equalities, string_keys=True)
 
-    @cached_property
+    @property
     def moment_inequalities_by_name(self):
         """List of dictionaries of moment inequalities by name."""
         return self._coo_mat_to_dict(self.sparse_inequalities, 
-- 
2.43.0


From c0aa08dafede13e2e4980812640eb66cfa213268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 02/40] fix: objectives containing semiknown moments crashed
 InflationSDP

semiknown_moments maps a moment to one (coefficient, moment) pair, not to a
list of pairs.
---
 inflation/sdp/InflationSDP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f5eb1f4..660d256 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2034,10 +2034,10 @@ class InflationSDP:
                                         self._processed_objective.keys())
         for mon in semiknowns_to_process:
             coeff = self._processed_objective[mon]
-            for (subs_coeff, subs) in self.semiknown_moments[mon]:
-                self._processed_objective[subs] = \
-                    self._processed_objective.get(subs, 0) + coeff * subs_coeff
-                del self._processed_objective[mon]
+            subs_coeff, subs = self.semiknown_moments[mon]
+            self._processed_objective[subs] = \
+                self._processed_objective.get(subs, 0) + coeff * subs_coeff
+            del self._processed_objective[mon]
         collect()
 
     def _update_bounds(self, typ: str) -> None:
-- 
2.43.0


From 756de182af87d2f60c81ab44d442002af177c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 03/40] fix: InflationSDP.solve ignored the extra equalities
 and inequalities

set_extra_equalities and set_extra_inequalities were stored but never reached
the solver.
---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 660d256..e9b1a77 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2158,10 +2158,10 @@ class InflationSDP:
                                          in self.semiknown_moments.items()},
                       "equalities": [{mon.name: coeff
                                           for mon, coeff in eq.items()}
-                                     for eq in self.minimal_equalities],
+                                     for eq in self.moment_equalities],
                       "inequalities": [{mon.name: coeff
                                         for mon, coeff in ineq.items()}
-                                       for ineq in self.minimal_inequalities]
+                                       for ineq in self.moment_inequalities]
                       }
         # Add the constant 1 in case of unnormalized problems removed it
         solverargs["known_vars"][self.constant_term_name] = 1.
-- 
2.43.0


From 3f703f5b7b9ab27479dbecf6d3e5cff51ca1790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 04/40] fix: InflationSDP.reset('values') left the old values
 in the objective

The objective handed to the solver has known values substituted in; it was
not recomputed, so the optimum still used the values that had been reset.
---
 inflation/sdp/InflationSDP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index e9b1a77..b4042b2 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1282,6 +1282,7 @@ class InflationSDP:
                 self._reset_objective()
             elif which == "values":
                 self._reset_values()
+                self._update_objective()
             else:
                 raise Exception(f"The attribute {which} is not part of " +
                                 "InflationSDP.")
-- 
2.43.0


From 2a42a459e136ad47530ebf2f19d024b26276970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 05/40] fix: InflationSDP forgot bounds on moments that had a
 known value once

Setting a value deleted the bounds of that moment, also the default lower
bound 0, for good. After changing or resetting the values the program was
solved without them.
---
 inflation/sdp/InflationSDP.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index b4042b2..c55fb3e 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -406,6 +406,7 @@ class InflationSDP:
         self.minimal_inequalities = []
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
+        self._inactive_bounds    = {"up": dict(), "lo": dict()}
 
         self.set_objective(None)
         self.set_values(None)
@@ -1310,6 +1311,8 @@ class InflationSDP:
             filename += ".dat-s"
 
         # Write file according to the extension
+        self._update_bounds("lo")
+        self._update_bounds("up")
         if self.verbose > 0:
             print("Writing the SDP program to", filename)
         if extension == "dat-s":
@@ -1990,12 +1993,14 @@ class InflationSDP:
         """Reset the list of lower bounds."""
         self._reset_solution()
         self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
+        self._inactive_bounds["lo"] = dict()
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
         self._reset_solution()
         self.moment_upperbounds = dict()
+        self._inactive_bounds["up"] = dict()
 
     def _reset_objective(self) -> None:
         """Reset the objective function."""
@@ -2043,7 +2048,8 @@ class InflationSDP:
 
     def _update_bounds(self, typ: str) -> None:
         """Helper function to check that bounds are consistent with the
-        specified known values.
+        specified known values. The bounds on moments with known values are
+        set aside until the moments are no longer known.
 
         Parameters
         ----------
@@ -2059,6 +2065,9 @@ class InflationSDP:
         else:
             raise Exception(f"The bound type was {typ}, but it must be " +
                             "either \"up\" or \"lo\".")
+        inactive = self._inactive_bounds[typ]
+        for mon in list(inactive):
+            bounds.setdefault(mon, inactive.pop(mon))
         for mon, value in self.known_moments.items():
             if isinstance(value, Real):
                 try:
@@ -2067,7 +2076,7 @@ class InflationSDP:
                     assert condition, (f"Value {value} assigned for " +
                                        f"monomial {mon} contradicts the " +
                                        f"assigned {dir}er bound of {b}.")
-                    del bounds[mon]
+                    inactive[mon] = bounds.pop(mon)
                 except KeyError:
                     pass
 
@@ -2145,6 +2154,8 @@ class InflationSDP:
             ("Error: Tried to assign known values outside of moment matrix: " +
              str(set(self.known_moments.keys()
                      ).difference(self.moments)))
+        self._update_bounds("lo")
+        self._update_bounds("up")
         if len(self.maskmatrices) == 0:
             self._construct_mask_matrices()
         solverargs = {"mask_matrices": {mon.name: mask_matrix
-- 
2.43.0


From fee5c0e4e3ea4da7d1a58c5fb0cc9e2c5ccb931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 06/40] fix: support lower bounds outlived the values they came
 from

---
 inflation/lp/InflationLP.py   | 22 ++++++++++++++++++++--
 inflation/sdp/InflationSDP.py | 21 +++++++++++++++++++++
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 35184fb..a6e26e7 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -72,6 +72,7 @@ class InflationLP(object):
         """
         self.problem_type = "lp"
         self.supports_problem = supports_problem
+        self._support_bounds = dict()
         if verbose is not None:
             if inflationproblem.verbose > verbose:
                 warn("Overriding the verbosity from InflationProblem")
@@ -899,6 +900,8 @@ class InflationLP(object):
                 self._reset_objective()
             elif which == "values":
                 self._reset_values()
+                if self.supports_problem:
+                    self._cleanup_after_set_values()
             else:
                 raise Exception(f"The attribute {which} is not part of " +
                                 "InflationLP.")
@@ -1670,7 +1673,10 @@ class InflationLP(object):
             nonzero_known_monomials = [mon for
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
+            self._release_support(set(self._support_bounds
+                                      ).intersection(self.known_moments))
             for mon in nonzero_known_monomials:
+                self._support_bounds[mon] = self.moment_lowerbounds.get(mon)
                 self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
             self.semiknown_moments = dict()
@@ -1685,6 +1691,16 @@ class InflationLP(object):
         if self.verbose > 1 and num_semiknown > 0:
             eprint(f"Number of semiknown variables: {num_semiknown}")
 
+    def _release_support(self, moments) -> None:
+        """Removes the lower bounds that represent that ``moments`` belong to
+        the support, putting back the bounds they had before (if any)."""
+        for mon in list(moments):
+            old_bound = self._support_bounds.pop(mon, None)
+            if old_bound is None:
+                self.moment_lowerbounds.pop(mon, None)
+            else:
+                self.moment_lowerbounds[mon] = old_bound
+
     def _reset_bounds(self) -> None:
         """Reset the lists of bounds."""
         self._reset_lowerbounds()
@@ -1694,7 +1710,8 @@ class InflationLP(object):
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
-        self.moment_lowerbounds = dict()
+        self.moment_lowerbounds = {mon: 1. for mon in self._support_bounds}
+        self._support_bounds = dict.fromkeys(self._support_bounds)
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
@@ -1710,6 +1727,7 @@ class InflationLP(object):
     def _reset_values(self) -> None:
         """Reset the known values."""
         self._reset_solution()
+        self._release_support(self._support_bounds)
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         self.known_moments[self.One] = 1.
@@ -2032,7 +2050,7 @@ class InflationLP(object):
                 assert np.isclose(old_bound, lowerbound), \
                     (f"Contradiction: Cannot set the same monomial {mon} to " +
                      "have different lower bounds.")
-        self.moment_lowerbounds = sanitized_lowerbounds
+        self.moment_lowerbounds.update(sanitized_lowerbounds)
 
     def mon_to_boolvec(self, mon: np.ndarray) -> np.ndarray:
         """Convert a monomial to a boolean vector.
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index c55fb3e..879b464 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -407,6 +407,7 @@ class InflationSDP:
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
         self._inactive_bounds    = {"up": dict(), "lo": dict()}
+        self._support_bounds     = dict()
 
         self.set_objective(None)
         self.set_values(None)
@@ -1284,6 +1285,8 @@ class InflationSDP:
             elif which == "values":
                 self._reset_values()
                 self._update_objective()
+                if self.supports_problem:
+                    self._cleanup_after_set_values()
             else:
                 raise Exception(f"The attribute {which} is not part of " +
                                 "InflationSDP.")
@@ -1966,7 +1969,11 @@ class InflationSDP:
             nonzero_known_monomials = [mon for
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
+            self._release_support(set(self._support_bounds
+                                      ).intersection(self.known_moments))
             for mon in nonzero_known_monomials:
+                self._support_bounds[mon] = self._inactive_bounds["lo"].pop(
+                    mon, self.moment_lowerbounds.get(mon))
                 self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
             self.semiknown_moments = dict()
@@ -1989,11 +1996,24 @@ class InflationSDP:
         if self.verbose > 1 and num_semiknown > 0:
             print(f"Number of semiknown variables: {num_semiknown}")
 
+    def _release_support(self, moments) -> None:
+        """Removes the lower bounds that represent that ``moments`` belong to
+        the support, putting back the bounds they had before (if any)."""
+        for mon in list(moments):
+            old_bound = self._support_bounds.pop(mon, None)
+            if old_bound is None:
+                self.moment_lowerbounds.pop(mon, None)
+            else:
+                self.moment_lowerbounds[mon] = old_bound
+
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
         self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
         self._inactive_bounds["lo"] = dict()
+        for mon in self._support_bounds:
+            self._support_bounds[mon] = self.moment_lowerbounds.get(mon)
+            self.moment_lowerbounds[mon] = 1.
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
@@ -2012,6 +2032,7 @@ class InflationSDP:
     def _reset_values(self) -> None:
         """Reset the known values."""
         self._reset_solution()
+        self._release_support(self._support_bounds)
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         if self.momentmatrix_has_a_zero:
-- 
2.43.0


From 24dff1d6988ff8f75fe5a17229168fb5b3b7a8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 07/40] fix: generate_relaxation kept the list of atoms of the
 previous relaxation

---
 inflation/sdp/InflationSDP.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 879b464..c3c7dc9 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -303,6 +303,12 @@ class InflationSDP:
         self.Constant_Term.name = self.constant_term_name
         self.monomial_from_name[self.constant_term_name] = self.Constant_Term
 
+        # Forget what was cached about a previous relaxation
+        for attribute in ("atomic_factors", "atomic_monomials",
+                          "atom_from_name", "knowable_atoms",
+                          "do_conditional_atoms"):
+            self.__dict__.pop(attribute, None)
+
         self.build_columns(column_specification)
         collect()
         if self.verbose > 0:
-- 
2.43.0


From 21f09ecfd91787210c4083b3ca0e2a7371c090bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 08/40] fix: drop_zero_rows failed without nonzero rows and
 altered its argument

---
 inflation/lp/lp_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 8472b45..e9ea689 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -16,7 +16,7 @@ from ..utils import partsextractor, expand_sparse_vec, vstack
 
 
 def drop_zero_rows(coo_mat: coo_array):
-    """Drops zero rows from a sparse matrix in place.
+    """Drops zero rows from a sparse matrix.
 
     Parameters
     ----------
@@ -26,9 +26,8 @@ def drop_zero_rows(coo_mat: coo_array):
     if len(coo_mat.shape) == 1:
         coo_mat = coo_mat.reshape((1, coo_mat.shape[0]))
     nz_rows, new_row = np.unique(coo_mat.row, return_inverse=True)
-    coo_mat.row = new_row
-    coo_mat = coo_mat.reshape((len(nz_rows), coo_mat.shape[1]))
-    return coo_mat
+    return coo_array((coo_mat.data, (new_row, coo_mat.col)),
+                     shape=(len(nz_rows), coo_mat.shape[1]))
 
 
 def canonical_order(coo_mat: coo_array):
-- 
2.43.0


From a3985124a4d88d24eedf0e18edc701f26b2449d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 09/40] fix: InflationSDP.set_bounds(None) did not clear the
 bounds

---
 inflation/sdp/InflationSDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index c3c7dc9..0c734a2 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -493,7 +493,7 @@ class InflationSDP:
         assert bound_type in ["up", "lo"], \
             "The 'bound_type' argument should be either 'up' or 'lo'"
         if bounds is None:
-            return
+            bounds = dict()  # Only reset the bounds
         # Sanitize list of bounds
         sanitized_bounds = dict()
         for mon, bound in bounds.items():
-- 
2.43.0


From ce6a0df37a0923bc4cffee81b24bc1c17a582707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 10/40] fix: results of an earlier solve survived failed solves
 and new extra constraints

---
 inflation/lp/InflationLP.py   | 6 +++++-
 inflation/sdp/InflationSDP.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index a6e26e7..c84a160 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -519,6 +519,7 @@ class InflationLP(object):
             The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_equalities = []  # Reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -536,6 +537,7 @@ class InflationLP(object):
              constraints. The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # Reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
@@ -577,6 +579,7 @@ class InflationLP(object):
             given by ``_prepare_solver_arguments()``. However, a user may
             manually override these arguments by passing their own here.
         """
+        self._reset_solution()
         if (relax_known_vars or relax_inequalities) and \
                 len(self.objective) > 0:
             warn("You have a non-trivial objective, but set to solve a "
@@ -1740,7 +1743,8 @@ class InflationLP(object):
         relaxation."""
         for attribute in {"primal_objective",
                           "objective_value",
-                          "solution_object"}:
+                          "solution_object",
+                          "success"}:
             try:
                 delattr(self, attribute)
             except AttributeError:
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 0c734a2..fa82b8d 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -432,6 +432,7 @@ class InflationSDP:
             (keys can be instances of `CompoundMonomial`, Symbols, strings, or
             integers), or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_equalities = []  # reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -449,6 +450,7 @@ class InflationSDP:
             dictionaries (keys can be instances of `CompoundMonomial`, Symbols,
             strings, or integers) or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
@@ -809,6 +811,7 @@ class InflationSDP:
         if not self._relaxation_has_been_generated:
             raise Exception("Relaxation is not generated yet. " +
                             "Call \"InflationSDP.get_relaxation()\" first")
+        self._reset_solution()
         if feas_as_optim and len(self._processed_objective) > 1:
             warn("You have a non-trivial objective, but set to solve a " +
                  "feasibility problem as optimization. Setting "
@@ -2223,7 +2226,8 @@ class InflationSDP:
         relaxation."""
         for attribute in {"primal_objective",
                           "objective_value",
-                          "solution_object"}:
+                          "solution_object",
+                          "success"}:
             try:
                 delattr(self, attribute)
             except AttributeError:
-- 
2.43.0


From 6921c96fdd0d7a1981fa32b5992ac264c012e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 11/40] fix: wrong sign of the dual matrix of SDPs solved in
 primal form

---
 inflation/sdp/sdp_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index bfa0b4b..753b69c 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -459,7 +459,9 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             else:
                 x_values = dict(zip(variables, x_mosek.level()))
                 if mask_matrices:
-                    ymat = G.dual().reshape([mat_dim, mat_dim])
+                    # The primal is a maximization problem, for which MOSEK
+                    # reports negative semidefinite duals
+                    ymat = -G.dual().reshape([mat_dim, mat_dim])
                     xmat = G.level().reshape([mat_dim, mat_dim])
 
             status = M.getProblemStatus()
-- 
2.43.0


From f3f1eac69af2efb8677af549c69e27d49b49518f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 12/40] fix: SDP certificates lost the known part of the
 objective

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 753b69c..78365f4 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -515,7 +515,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             if mask_matrices:
                 for x in set(Fi).intersection(known_vars):
                     support = Fi[x].nonzero()
-                    certificate[x] = np.dot(ymat[support], Fi[x][support].toarray().ravel())
+                    certificate[x] += np.dot(ymat[support], Fi[x][support].toarray().ravel())
 
             # + I · b
             if var_inequalities:
-- 
2.43.0


From 8294b9e5ff8a7417d271e2d3d016c518f9215427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 13/40] fix: the moment matrix of SDPs solved in dual form
 lacked the unknown moments

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 78365f4..5d02c9d 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -353,7 +353,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                     ci  = float(var_objective[x])
                     lhs += ci
                 try:
-                    F = Fi.pop(x)
+                    F = Fi[x]
                     lhs = Expr.add(lhs,
                                    Expr.dot(Z,
                                             scipy_to_mosek(F)))
-- 
2.43.0


From b57eb20b37d356401f57d79337d8f9189437821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 14/40] fix: the objective contaminated LP certificates of
 infeasibility

---
 inflation/lp/lp_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index e9ea689..9a47ecb 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -515,7 +515,8 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
             cert_data = np.zeros((nof_primal_variables,))
             obj_data = objective.toarray().ravel()
             objective_unknown_cols = np.setdiff1d(objective.col, known_vars.col)
-            cert_data[objective_unknown_cols] = -obj_data[objective_unknown_cols]
+            if success:  # Infeasibility does not depend on the objective
+                cert_data[objective_unknown_cols] = -obj_data[objective_unknown_cols]
             cert_data[known_vars.col] = y_values[:nof_known_vars] # Assumes known values coded as equalities
             if relax_known_vars:
                 cert_data[known_vars.col] += y_values[nof_known_vars:(2*nof_known_vars)]
-- 
2.43.0


From 822b627d628f0938e1c8f4c944b4efb28b380b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 15/40] fix: LP certificates omitted the contribution of the
 bounds

---
 inflation/lp/InflationLP.py | 4 ++++
 inflation/lp/lp_utils.py    | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index c84a160..50286e4 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -674,6 +674,10 @@ class InflationLP(object):
             warn("Beware that, because the problem contains linearized " +
                  "polynomial constraints, the certificate is not guaranteed " +
                  "to apply to other distributions.")
+        bounds_contribution = self.solution_object["bounds_contribution"]
+        if not (self.supports_problem or np.isclose(bounds_contribution, 0.)):
+            dual = {**dual, self.One.name: (dual.get(self.One.name, 0.)
+                                            + bounds_contribution)}
         if np.allclose(list(dual.values()), 0.):
             return dict()
         if clean:
diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 9a47ecb..e6c35ce 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -483,8 +483,12 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
              sux,
              snx) = task.getsolution(basic)
 
-            # Get objective values, solutions x, dual values y
+            # Get objective values, solutions x, dual values y, and what the
+            # bounds of the variables contribute to the certificate
             if solve_dual:
+                bounds_contribution = np.dot(
+                    objective_vector[nof_primal_constraints:],
+                    xx[nof_primal_constraints:])
                 primal = task.getdualobj(basic)
                 dual = task.getprimalobj(basic)
                 x_values = dict(zip(variables, yy))
@@ -492,6 +496,7 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
             else:
                 primal = task.getprimalobj(basic)
                 dual = task.getdualobj(basic)
+                bounds_contribution = np.dot(blx, slx) - np.dot(bux, sux)
                 x_values = dict(zip(variables, xx))
                 y_values = np.asarray(yy)
 
@@ -543,6 +548,7 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
                 "success": success,
                 "dual_certificate": certificate,
                 "sparse_certificate": sparse_certificate,
+                "bounds_contribution": bounds_contribution,
                 "x": x_values,
                 "term_code": term_tuple
             }
-- 
2.43.0


From e9685d91f88b7cdc6158c8e1e05e4d60b6530b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 16/40] fix: the objective contaminated SDP certificates of
 infeasibility

---
 inflation/sdp/sdp_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 5d02c9d..113cd25 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -506,8 +506,9 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
         if status_str in ["feasible", "infeasible"]:
             certificate = {x: 0 for x in known_vars}
 
-            # c0(P(a...|x...))
-            if not feas_as_optim:
+            # c0(P(a...|x...)), which plays no role in a certificate of
+            # infeasibility
+            if status_str == "feasible" and not feas_as_optim:
                 for x in set(var_objective).intersection(known_vars):
                     certificate[x] += var_objective[x]
 
-- 
2.43.0


From 042d29d30ae317123e679d76949b33850f0dac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 17/40] fix: constants given as symbolic expressions were
 dropped

---
 inflation/lp/InflationLP.py   | 2 +-
 inflation/sdp/InflationSDP.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 50286e4..39d271d 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1136,7 +1136,7 @@ class InflationLP(object):
             if input_dict.free_symbols:
                 input_dict_copy = {k: float(v) for k, v in sp.expand(input_dict).as_coefficients_dict().items()}
             else:
-                input_dict_copy = dict()
+                input_dict_copy = {self.One: float(input_dict)}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index fa82b8d..e126fbd 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1597,7 +1597,7 @@ class InflationSDP:
                 input_dict_copy = {k: float(v) for k, v in sp.expand(
                     input_dict).as_coefficients_dict().items()}
             else:
-                input_dict_copy = dict()
+                input_dict_copy = {self.One: float(input_dict)}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
-- 
2.43.0


From 54e45fc9236b0a9c6bbdd708cf31d9f3d8b17df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 18/40] fix: SDP solves stopped early were reported as optimal

---
 inflation/sdp/sdp_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 113cd25..9fcad47 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -149,7 +149,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
     import mosek
     from mosek.fusion import Matrix, Model, ObjectiveSense, Expr, Domain, \
         OptimizeError, SolutionError, \
-        AccSolutionStatus, ProblemStatus
+        AccSolutionStatus, ProblemStatus, SolutionStatus
 
     def scipy_to_mosek(mat: coo_array) -> Matrix:
         internal_mat = mat.tocoo(copy=False)
@@ -465,6 +465,12 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                     xmat = G.level().reshape([mat_dim, mat_dim])
 
             status = M.getProblemStatus()
+            if (status == ProblemStatus.PrimalAndDualFeasible
+                    and not (M.getPrimalSolutionStatus()
+                             == M.getDualSolutionStatus()
+                             == SolutionStatus.Optimal)):
+                # The solver stopped before reaching the optimum
+                status = ProblemStatus.Unknown
             if status == ProblemStatus.PrimalAndDualFeasible:
                 status_str = "feasible"
                 primal     = M.primalObjValue()
-- 
2.43.0


From b575f607d921604f5ba7ba00048f2163c1e4227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 19/40] fix: feasibility as optimisation gave the wrong sign
 after a minimisation

---
 inflation/lp/InflationLP.py   | 4 +++-
 inflation/sdp/InflationSDP.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 39d271d..988c695 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -622,7 +622,9 @@ class InflationLP(object):
         if self.success:
             self.primal_objective = self.solution_object["primal_value"]
             self.objective_value  = self.solution_object["primal_value"]
-            self.objective_value *= (1 if self.maximize else -1)
+            # When relaxing constraints the slack is always maximised
+            relaxed = relax_known_vars or relax_inequalities
+            self.objective_value *= (1 if self.maximize or relaxed else -1)
         else:
             self.primal_objective = self.status
             self.objective_value  = self.status
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index e126fbd..6285391 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -834,7 +834,9 @@ class InflationSDP:
             self.success = True
             self.primal_objective = self.solution_object["primal_value"]
             self.objective_value  = self.solution_object["primal_value"]
-            self.objective_value *= (1 if self.maximize else -1)
+            # Feasibility as optimisation is always a maximisation
+            self.objective_value *= (1 if self.maximize or feas_as_optim
+                                     else -1)
         else:
             self.success = False
             self.primal_objective = self.status
-- 
2.43.0


From 5229d76d530018b609afc940ee76bb350c5c8883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 20/40] fix: solveLP failed when optional arguments were left
 out

---
 inflation/lp/lp_utils.py | 8 ++++++++
 inflation/utils.py       | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index e6c35ce..d015437 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -123,6 +123,14 @@ def solveLP(objective: Union[coo_array, Dict] = None,
                                       "arguments are of mixed form."
         solver_args.update(convert_dicts(**solver_args))
     solver_args.pop("semiknown_vars", None)
+    # Arguments that were not specified impose nothing
+    nof_variables = len(solver_args["variables"])
+    for arg in ("inequalities", "equalities"):
+        if solver_args.get(arg) is None:
+            solver_args[arg] = coo_array((0, nof_variables))
+    for arg in ("objective", "known_vars", "lower_bounds", "upper_bounds"):
+        if solver_args.get(arg) is None:
+            solver_args[arg] = coo_array((1, nof_variables))
     return solveLP_sparse(**solver_args)
 
 
diff --git a/inflation/utils.py b/inflation/utils.py
index bf1fee2..f496144 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -165,7 +165,8 @@ def vstack(blocks: tuple, format: str = 'coo') -> sps.coo_array:
     elif nof_blocks == 1:
         return non_empty[0]
     else:
-        return sps.coo_array([])
+        nof_cols = max((mat.shape[-1] for mat in blocks), default=0)
+        return sps.coo_array((0, nof_cols))
 
 
 def perm_combiner(old_perms: np.ndarray, new_perms: np.ndarray) -> np.ndarray:
-- 
2.43.0


From d595744b0ea3a58b5643b0bb2c64652f8b90a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 21/40] fix: negative lower bounds lifted non-negativity in
 primal form only

---
 inflation/lp/lp_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index d015437..01160b6 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -419,6 +419,9 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
                     bkx[np.setdiff1d(ub_col, lb_col)] = mosek.boundkey.up
                     bkx[np.intersect1d(ub_col, lb_col)] = mosek.boundkey.ra
                 blx[lb_col] = lb_data
+                if default_non_negative:
+                    # Negative lower bounds do not lift non-negativity
+                    blx = np.maximum(blx, 0)
                 bux[ub_col] = upper_bounds.data
 
 
-- 
2.43.0


From b0d2b52c9f2aad11f51862dff0f33e77a5f13882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 22/40] fix: SDP moments that can be negative were bounded from
 below by zero

---
 inflation/sdp/InflationSDP.py     | 50 ++++++++++++++++++++++++++++++-
 inflation/sdp/monomial_classes.py | 20 ++++++++++++-
 2 files changed, 68 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 6285391..cc7d1ae 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -379,7 +379,7 @@ class InflationSDP:
             self.hermitian_moments = self.moments
         else:
             self.hermitian_moments = [mon for mon in self.moments
-                                      if mon.is_hermitian]
+                                      if mon.is_nonnegative]
             if self.verbose > 1:
                 print(f"The problem has {len(self.hermitian_moments)} " +
                       "non-negative moments.")
@@ -1496,6 +1496,54 @@ class InflationSDP:
         representative = np.array(min(output_variants), dtype=np.intc)
         return output_variants, representative
 
+    def _is_square_1d(self, lexmon: np.ndarray) -> bool:
+        """Check whether a monomial is of the form X C X^dagger up to
+        commutations and inflation symmetries, so that its expectation value
+        is non-negative.
+
+        Parameters
+        ----------
+        lexmon : numpy.ndarray
+            Monomial that cannot be further factorised, in canonical form.
+
+        Returns
+        -------
+        bool
+            Whether the monomial is certified to be non-negative.
+        """
+        lexmon = np.asarray(lexmon, dtype=np.intc)
+        canonical = tuple(self._to_canonical_memoized_1d(lexmon, True))
+        # Operators that commute with all the others can be in any half
+        free = np.logical_not(
+            self._notcomm[np.ix_(lexmon, lexmon)].any(axis=1))
+        core, free = lexmon[np.logical_not(free)], lexmon[free]
+        half = len(core) // 2
+        for perm in self.lexorder_symmetries:
+            conjugate = np.asarray(perm[lexmon[::-1]], dtype=np.intc)
+            if tuple(self._to_canonical_memoized_1d(conjugate,
+                                                    True)) != canonical:
+                continue
+            # Copies that are relabelled, among those of every operator
+            moved = {op: {(source, copy)
+                          for source, (copy, new) in
+                          enumerate(zip(self._lexorder[op, 1:-2],
+                                        self._lexorder[perm[op], 1:-2]))
+                          if copy != new} for op in set(lexmon)}
+            if not any(moved.values()):
+                return True
+            if not np.array_equal(perm[core[::-1]], core):
+                continue
+            left  = set().union(*(moved[op] for op in core[:half]))
+            right = set().union(*(moved[op] for op in core[-half:]))
+            if not left.isdisjoint(right):
+                continue
+            if any(moved[op] for op in core[half:len(core) - half]):
+                continue
+            if all(moved[op].isdisjoint(left) or moved[op].isdisjoint(right)
+                   for op in free):
+                return True
+        return False
+
     def _monomial_from_atoms(self,
                              atoms: List[InternalAtomicMonomialSDP]
                              ) -> CompoundMomentSDP:
diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index 2e553cf..49ec2ca 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -89,6 +89,18 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
          under inflation symmetries and commutation."""
         return np.array_equal(self.as_lexmon, self.conjugate_lexmon)
 
+    @cached_property
+    def is_nonnegative(self) -> bool:
+        """Whether the atomic monomial is known to have a non-negative
+        expectation value because it is of the form :math:`X C X^\\dagger`. If
+        the conjugation of :math:`X` involves relabelling copies of the
+        sources, being equivalent to its conjugate only makes the expectation
+        value real: the two halves must, in addition, not act on the relabelled
+        copies that the other half acts on."""
+        if not self.is_hermitian:
+            return False
+        return self.context._is_square_1d(self.as_lexmon)
+
     @property
     def dagger(self):
         """Returns the adjoint of the Monomial."""
@@ -144,4 +156,10 @@ class CompoundMomentSDP(CompoundMomentLP):
     def is_hermitian(self):
         """If all factors of the compount moment contain monomials that are 
         hermitian."""
-        return all(factor.is_hermitian for factor in self.factors)
\ No newline at end of file
+        return all(factor.is_hermitian for factor in self.factors)
+
+    @cached_property
+    def is_nonnegative(self):
+        """If all factors of the compound moment contain monomials that are
+        known to have non-negative expectation values."""
+        return all(factor.is_nonnegative for factor in self.factors)
-- 
2.43.0


From c8a70974a4d21a1cfbf10b19d4c1656a53289e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:04 +0000
Subject: [PATCH 23/40] fix: leave factors that are no moments out of
 set_distribution with shared randomness

InflationSDP.set_distribution(..., shared_randomness=True) assigned values to
knowable atoms that only appear as factors of products in the moment matrix,
and solve() then refused the problem with an AssertionError.
---
 inflation/sdp/InflationSDP.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index cc7d1ae..cbbbf33 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -587,6 +587,13 @@ class InflationSDP:
         if prob_array is not None:
             knowable_values = {atom: atom.compute_marginal(prob_array)
                                for atom in self.knowable_atoms}
+            if shared_randomness:
+                # Atoms that only appear as factors of other moments are not
+                # variables of the problem.
+                moments = set(self.moments)
+                knowable_values = {atom: value for atom, value
+                                   in knowable_values.items()
+                                   if atom in moments}
         else:
             knowable_values = dict()
 
-- 
2.43.0


From 552fad10052b26118cffb0bca6508a23139acad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 24/40] fix: write_to_file took dots in directory names for
 file extensions

---
 inflation/lp/InflationLP.py   | 7 +++----
 inflation/sdp/InflationSDP.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 988c695..b0724e3 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -10,6 +10,7 @@ from functools import reduce, cached_property
 from gc import collect
 from operator import neg as op_neg
 from numbers import Real
+from os.path import splitext
 from typing import List, Dict, Union, Any
 from warnings import warn
 
@@ -930,10 +931,8 @@ class InflationLP(object):
             ``.mps`` (MPS).
         """
         # Determine file extension
-        parts = filename.split(".")
-        if len(parts) >= 2:
-            extension = parts[-1]
-        else:
+        extension = splitext(filename)[1][1:]
+        if not extension:
             extension = "lp"
             filename += ".lp"
 
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index cbbbf33..a3256d5 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -10,6 +10,7 @@ from gc import collect
 from itertools import chain, count, product, repeat, combinations
 from operator import neg as op_neg
 from numbers import Real
+from os.path import splitext
 from operator import itemgetter
 from typing import List, Dict, Tuple, Union, Any
 from warnings import warn
@@ -1324,10 +1325,8 @@ class InflationSDP:
             (MATLAB), ``.dat-s`` (SDPA), and ``.csv`` (human-readable).
         """
         # Determine file extension
-        parts = filename.split(".")
-        if len(parts) >= 2:
-            extension = parts[-1]
-        else:
+        extension = splitext(filename)[1][1:]
+        if not extension:
             extension = "dat-s"
             filename += ".dat-s"
 
-- 
2.43.0


From cb3e586a1c917f22e5c14d70a2a42fe590138b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 25/40] fix: .lp and .mps files stated other problems than the
 program

Bounds (line breaks, negative values, variables not assumed non-negative),
constraints between known values, constants in objectives, the constant term
of problems without normalisation, and precision of coefficients.
---
 inflation/lp/InflationLP.py  |  14 ++--
 inflation/lp/writer_utils.py | 156 ++++++++++++++++++++++++++---------
 2 files changed, 125 insertions(+), 45 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index b0724e3..300bb68 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1961,12 +1961,14 @@ class InflationLP(object):
 
         # Rectification in the event of unnormalized problem
         variables = self.monomial_names.tolist()
-        if {1, self.constant_term_name}.isdisjoint(self.known_vars_by_name):
-            self.known_vars_by_name[self.constant_term_name] = 1.
+        known_vars = self.known_vars_by_name
+        if {1, self.constant_term_name}.isdisjoint(known_vars):
+            known_vars[self.constant_term_name] = 1.
             if self.constant_term_name not in variables:
                 variables.append(self.constant_term_name)
         solverargs = {"objective": self.objective_by_name,
-                      "known_vars": self.known_vars_by_name,
+                      "known_vars": known_vars,
+                      "default_non_negative": self.default_non_negative,
                       "semiknown_vars": self.semiknown_by_name,
                       "equalities": self.moment_equalities_by_name,
                       "inequalities": self.moment_inequalities_by_name,
@@ -1975,10 +1977,12 @@ class InflationLP(object):
             solverargs["lower_bounds"] = self.lowerbounds_by_name
             solverargs["upper_bounds"] = self.upperbounds_by_name
         else:
-            solverargs["inequalities"].extend({mon.name: 1, '1': -bnd}
+            solverargs["inequalities"].extend({mon.name: 1,
+                                               self.constant_term_name: -bnd}
                                               for mon, bnd in
                                               self.moment_lowerbounds.items())
-            solverargs["inequalities"].extend({mon.name: -1, '1': bnd}
+            solverargs["inequalities"].extend({mon.name: -1,
+                                               self.constant_term_name: bnd}
                                               for mon, bnd in
                                               self.moment_upperbounds.items())
         return solverargs
diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 277fa04..77c5832 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -6,6 +6,7 @@ problem to file.
 """
 
 import mosek
+import os
 from copy import deepcopy
 
 
@@ -28,32 +29,43 @@ def write_to_lp(args: dict, filename: str) -> None:
     lower_bounds = processed_args["lower_bounds"]
     upper_bounds = processed_args["upper_bounds"]
     variables = processed_args["variables"]
-
+    # The LP format does not accept constraints (nor objectives) without
+    # variables, so those where all variables are known need a placeholder
+    placeholder = next((x for x in variables if x not in known_vars),
+                       variables[0])
 
     # Write problem to file
     f = open(filename, "w")
     f.write(f"\\ File: {filename}\n")
     f.write("maximize\n")
-    f.write(f"obj: {format_constraint_lp(known_vars, objective, 'obj')}\n")
+    objective = format_constraint_lp(known_vars, objective, 'obj', placeholder)
+    f.write(f"obj: {objective}\n")
     f.write("subject to\n")
 
     i = 0
     for eq in internal_equalities:
-        cons = format_constraint_lp(known_vars, eq, 'eq')
+        cons = format_constraint_lp(known_vars, eq, 'eq', placeholder)
         if cons != "":
             f.write(f"c{i}: {cons}\n")
             i += 1
     for ineq in inequalities:
-        cons = format_constraint_lp(known_vars, ineq, 'ineq')
+        cons = format_constraint_lp(known_vars, ineq, 'ineq', placeholder)
         if cons != "":
             f.write(f"c{i}: {cons}\n")
             i += 1
 
     f.write("bounds\n")
-    for x in lower_bounds:
-        f.write(f"{lower_bounds[x]} <= {x}")
-    for x in upper_bounds:
-        f.write(f"{x} <= {upper_bounds[x]}")
+    for x in variables:
+        if x in known_vars:
+            continue
+        lower = lower_bounds.get(x)
+        upper = upper_bounds.get(x)
+        lower = "-infinity" if lower is None else format_number(lower)
+        upper = "+infinity" if upper is None else format_number(upper)
+        # Non-negative variables are the default of the format
+        if (lower, upper) != (format_number(0), "+infinity"):
+            f.write(f"{lower} <= {x} <= {upper}\n")
+    f.write("one = 1\n")
     f.write("end")
     f.close()
 
@@ -78,18 +90,19 @@ def write_to_mps(args: dict, filename: str) -> None:
     upper_bounds = processed_args["upper_bounds"]
     variables = processed_args["variables"]
 
-    # Exclude constraints in which variables are all known values
+    # Exclude the constraints that the known values satisfy by themselves
     internal_equalities = [eq for eq in internal_equalities
-                           if set(eq).difference(known_vars)]
+                           if not satisfied_by_known(known_vars, eq, 'eq')]
     inequalities = [ineq for ineq in inequalities
-                    if set(ineq).difference(known_vars)]
+                    if not satisfied_by_known(known_vars, ineq, 'ineq')]
     constraints = internal_equalities + inequalities
     nof_equalities = len(internal_equalities)
     nof_inequalities = len(inequalities)
 
+    name = os.path.splitext(os.path.basename(filename))[0].replace(" ", "_")
     f = open(filename, "w")
     f.write(f"* File: {filename}\n")
-    f.write(f"NAME          {filename.split('.')[0]}\n")
+    f.write(f"NAME          {name}\n")
     f.write(f"OBJSENSE\n    MAX\n")
 
     # Specify rows of the problem
@@ -104,17 +117,17 @@ def write_to_mps(args: dict, filename: str) -> None:
     f.write(f"COLUMNS\n")
     for x in variables:
         if x in set(objective).difference(known_vars):
-            arr = [x, 'obj', objective[x]]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            arr = [x, 'obj', format_number(objective[x])]
+            f.write("    {:9} {:9} {}\n".format(*arr))
         for i, eq in enumerate(internal_equalities):
             if x in set(eq).difference(known_vars):
-                arr = [x, f"c{i}", eq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                arr = [x, f"c{i}", format_number(eq[x])]
+                f.write("    {:9} {:9} {}\n".format(*arr))
         for i, ineq in enumerate(inequalities):
             if x in set(ineq).difference(known_vars):
                 arr = [x, f"c{nof_equalities + i}",
-                       ineq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                       format_number(ineq[x])]
+                f.write("    {:9} {:9} {}\n".format(*arr))
 
     f.write(f"RHS\n")
     # Specify objective offset
@@ -122,8 +135,8 @@ def write_to_mps(args: dict, filename: str) -> None:
     for x in set(objective).intersection(known_vars):
         rhs -= objective[x] * known_vars[x]
     if rhs != 0:
-        arr = ['rhs', 'obj', rhs]
-        f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+        arr = ['rhs', 'obj', format_number(rhs)]
+        f.write("    {:9} {:9} {}\n".format(*arr))
 
     # Specify non-zero RHS values of the constraints
     for i, c in enumerate(constraints):
@@ -131,19 +144,24 @@ def write_to_mps(args: dict, filename: str) -> None:
         for x in set(c).intersection(known_vars):
             rhs -= c[x] * known_vars[x]
         if rhs != 0:
-            arr = ['rhs', f"c{i}", rhs]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            arr = ['rhs', f"c{i}", format_number(rhs)]
+            f.write("    {:9} {:9} {}\n".format(*arr))
 
     f.write(f"RANGES\n")
 
     # Specify variable bound values
     f.write(f"BOUNDS\n")
-    for x in lower_bounds:
-        arr = ['bound', x, lower_bounds[x]]
-        f.write(" LO {:10}{:10}{:<10.4f}\n".format(*arr))
-    for x in upper_bounds:
-        arr = ['bound', x, upper_bounds[x]]
-        f.write(" UP {:10}{:10}{:<10.4f}\n".format(*arr))
+    for x in variables:
+        if x in known_vars:
+            continue
+        if x not in lower_bounds:
+            f.write(" MI {:9} {:9}\n".format('bound', x))
+        elif lower_bounds[x] != 0 or x in upper_bounds:
+            arr = ['bound', x, format_number(lower_bounds[x])]
+            f.write(" LO {:9} {:9} {}\n".format(*arr))
+        if x in upper_bounds:
+            arr = ['bound', x, format_number(upper_bounds[x])]
+            f.write(" UP {:9} {:9} {}\n".format(*arr))
     f.write(f"ENDATA")
     f.close()
 
@@ -159,7 +177,7 @@ def lp_to_mps(args: dict, filename: str) -> None:
     filename : str
         The file to write to.
     """
-    lp_filename = f"{filename.split('.')[0]}.lp"
+    lp_filename = f"{os.path.splitext(filename)[0]}.lp"
     write_to_lp(args, lp_filename)
     with mosek.Task() as t:
         t.readdata(f"{lp_filename}")
@@ -179,7 +197,10 @@ def process_arguments(args: dict) -> dict:
     -------
     dict
         Processed objective, known_vars, internal_equalities,
-        inequalities, lower_bounds, upper_bounds, variables
+        inequalities, lower_bounds, upper_bounds, variables. The lower bounds
+        are all those of the program, including the non-negativity of the
+        variables if they are assumed to be non-negative. Bounds on known
+        variables are inequalities.
     """
     old_variables = args["variables"]
     old_equalities = deepcopy(args["equalities"])
@@ -195,9 +216,19 @@ def process_arguments(args: dict) -> dict:
     new_variables = list(var_idx.values())
     new_equalities = [{var_idx[x]: c for x, c in eq.items()} for eq in  old_equalities]
     new_inequalities = [{var_idx[x]: c for x, c in ineq.items()} for ineq in old_inequalities]
+    known_one = "one"
     new_known_vars = {var_idx[x]: c for x, c in old_known_vars.items()}
     new_lower_bounds = {var_idx[x]: c for x, c in old_lower_bounds.items()}
     new_upper_bounds = {var_idx[x]: c for x, c in old_upper_bounds.items()}
+    if args.get("default_non_negative", True):
+        for x in new_variables:
+            new_lower_bounds[x] = max(0, new_lower_bounds.get(x, 0))
+    # The bounds of known variables are inequalities between known values
+    new_known_vars[known_one] = 1.
+    for x in set(new_lower_bounds).intersection(new_known_vars):
+        new_inequalities.append({x: 1, known_one: -new_lower_bounds.pop(x)})
+    for x in set(new_upper_bounds).intersection(new_known_vars):
+        new_inequalities.append({x: -1, known_one: new_upper_bounds.pop(x)})
     new_objective = {var_idx[x]: c for x, c in old_objective.items()}
 
     return {
@@ -210,9 +241,42 @@ def process_arguments(args: dict) -> dict:
         "upper_bounds": new_upper_bounds}
 
 
+def format_number(number: float) -> str:
+    """Helper function to write a number without loss of precision."""
+    return repr(float(number))
+
+
+def satisfied_by_known(known_vars: dict,
+                       constraint: dict,
+                       cons_type: str) -> bool:
+    """Helper function to determine whether a constraint only involves known
+    variables, and their values satisfy it.
+
+    Parameters
+    ----------
+    known_vars : dict
+        Known values of variables.
+    constraint : dict
+        The constraint.
+    cons_type : str
+        Whether the constraint is an equality ('eq') or inequality ('ineq).
+
+    Returns
+    -------
+    bool
+        Whether the constraint does not constrain any unknown variable, and it
+        is satisfied.
+    """
+    if set(constraint).difference(known_vars):
+        return False
+    c = sum(constraint[x] * known_vars[x] for x in constraint)
+    return c >= -1e-9 if cons_type == 'ineq' else abs(c) <= 1e-9
+
+
 def format_constraint_lp(known_vars: dict,
                          constraint: dict,
-                         cons_type: str) -> str:
+                         cons_type: str,
+                         placeholder: str = "x0") -> str:
     """Helper function to format constraints (and the objective) for the LP
     file format.
 
@@ -225,28 +289,40 @@ def format_constraint_lp(known_vars: dict,
     cons_type : str
         Whether the constraint is an objective ('obj'), equality ('eq'), or
         inequality ('ineq).
+    placeholder : str, optional
+        The variable that appears, with coefficient 0, in constraints without
+        unknown variables. By default, ``"x0"``.
 
     Returns
     -------
     str
-        The constraint as a human-readable string
+        The constraint as a human-readable string. It is empty for the
+        constraints that the known values satisfy by themselves.
     """
+    if cons_type != 'obj' and satisfied_by_known(known_vars, constraint,
+                                                 cons_type):
+        return ""
+
     # Process known values
     c = 0
     for x in set(constraint).intersection(known_vars):
         c += constraint[x] * known_vars[x]
 
     # Process unknown values
-    cons = ""
-    for x in set(constraint).difference(known_vars):
-        cons += f"{constraint[x]} {x} + "
-    if cons == "":
-        return cons
+    terms = [(constraint[x], x) for x in constraint if x not in known_vars]
+    if not terms:
+        terms = [(0, placeholder)]
+    cons = f"{format_number(terms[0][0])} {terms[0][1]}"
+    for coeff, x in terms[1:]:
+        cons += (f" {'-' if coeff < 0 else '+'} "
+                 + f"{format_number(abs(coeff))} {x}")
 
     if cons_type == 'obj':
-        cons += str(c)
+        # Not all readers understand constants in the objective
+        if c != 0:
+            cons += f" {'-' if c < 0 else '+'} {format_number(abs(c))} one"
     elif cons_type == 'eq':
-        cons = cons[:-3] + ' = ' + str(-c)
+        cons += f" = {format_number(-c)}"
     elif cons_type == 'ineq':
-        cons = cons[:-3] + ' >= ' + str(-c)
+        cons += f" >= {format_number(-c)}"
     return cons
-- 
2.43.0


From e06baa08abe55846e9b46aa4b4d9301cc7e7b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 26/40] fix: .csv exports confused values with indices and
 printed types of bounds

---
 inflation/sdp/writer_utils.py | 38 ++++++++++-------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index c5d7ea7..f665ee2 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -29,32 +29,15 @@ def convert_to_human_readable(problem):
     """
     matrix = deepcopy(problem.momentmatrix).astype(object)
     ### Process moment matrix
-    # Replacer for constants
-    constants = {moment.idx: str(value)
-                 for moment, value in problem.known_moments.items()}
-    # Replacer for semiknowns
-    semiknowns = dict()
-    for key, val in problem.semiknown_moments.items():
-        val_str = val[1].name.replace(", ", ";")
-        semiknowns[key.idx] = f"{val[0]}*{val_str}"
-    semiknown_replacer = np.vectorize(lambda x: semiknowns.get(x, str(x)))
-    # Replacer for remaining symbols
-    monomials = dict()
-    for mon in problem.moments:
-        monomials[mon.idx] = mon.name.replace(", ", ";")
-
-    def replace_known(monom):
-        try:
-            replacement = monomials.get(float(monom), monom)
-        except ValueError:
-            replacement = monom
-        return replacement
-    known_replacer = np.vectorize(replace_known)
+    symbols = {mon.idx: mon.name.replace(", ", ";") for mon in problem.moments}
+    for mon, (coeff, unknown) in problem.semiknown_moments.items():
+        symbols[mon.idx] = f"{coeff}*{unknown.name.replace(', ', ';')}"
+    for mon, value in problem.known_moments.items():
+        symbols[mon.idx] = str(value)
     for ii, row in enumerate(matrix):
-        for jj, col in enumerate(row):
-            matrix[ii, jj] = constants.get(col, col)
-    matrix = semiknown_replacer(matrix)
-    matrix = np.triu(known_replacer(matrix).astype(object))
+        for jj, idx in enumerate(row):
+            matrix[ii, jj] = symbols.get(idx, str(idx))
+    matrix = np.triu(matrix)
 
     ### Process objective
     is_first = True
@@ -82,8 +65,9 @@ def convert_to_human_readable(problem):
     bounds = np.zeros((len(bounded_vars), 3), dtype=object)
     for idx, var in enumerate(bounded_vars):
         bounds[idx, 0] = var
-        bounds[idx, 1] = problem.moment_lowerbounds.get(var, None)
-        bounds[idx, 2] = problem.moment_upperbounds.get(var, None)
+        for jj, bnds in enumerate((problem.moment_lowerbounds,
+                                   problem.moment_upperbounds)):
+            bounds[idx, jj + 1] = float(bnds[var]) if var in bnds else None
 
     ### Process equalities
     equalities = []
-- 
2.43.0


From bac2f7f763f9ad56872d299a832b489bc530cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 27/40] fix: .dat-s files stated other problems than the
 program

Negative known values, upper bounds with negative values, constraints and
objectives with known or proportional moments, positions of inequalities,
and problems without normalisation.
---
 inflation/sdp/writer_utils.py | 221 +++++++++++++++++-----------------
 1 file changed, 109 insertions(+), 112 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index f665ee2..f232af8 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -250,111 +250,73 @@ def write_to_sdpa(problem, filename):
     For more information about the .dat-s format, see the specifications at:
     http://euler.nmt.edu/~brian/sdplib/FORMAT
     """
-    # Compute actual number of variables: all in the moment matrix, minus those
-    # with known values, minus those that participate in LPI constraints, plus
-    # those where the unknown part of the LPI constraint is not in the original
-    # moment matrix
-    potential_nvars = problem.momentmatrix.max() - 1
-    if len(problem.known_moments) == 1:
-        known_vars = 0
-    else:
-        known_vars = (len(problem.known_moments)
-                      - problem.momentmatrix_has_a_zero
-                      - problem.momentmatrix_has_a_one)
-    semiknown_vars = len(problem.semiknown_moments)
-    new_vars       = sum([mon[1][1].idx > problem.momentmatrix.max()
-                          for mon in problem.semiknown_moments.items()])
-    nvars = potential_nvars - known_vars - semiknown_vars + new_vars
-
+    # The variables of the program are the unknown moments that appear in it,
+    # numbered in order of appearance. Moments with known values contribute
+    # constants, and those in LPI constraints contribute to the moments they
+    # are proportional to.
     known_moments_indices = {mon.idx: coeff
                              for mon, coeff in problem.known_moments.items()}
     semiknowns  = {mon.idx: (subs[0], subs[1].idx)
                    for mon, subs in problem.semiknown_moments.items()}
     lines       = []
     var_corresp = {}
-    new_var     = 1
     block       = 1
     blockstruct = [str(problem.momentmatrix.shape[0])]
+
+    def linear_form(expression):
+        """The constant and the coefficients of the variables in a list of
+        pairs (index of the moment, coefficient)."""
+        constant, terms = 0, {}
+        for idx, coeff in expression:
+            if idx in semiknowns and idx not in known_moments_indices:
+                factor, idx = semiknowns[idx]
+                coeff = coeff * factor
+            if idx == 0:
+                continue
+            elif idx in known_moments_indices:
+                constant += coeff * known_moments_indices[idx]
+            else:
+                var = var_corresp.setdefault(idx, len(var_corresp) + 1)
+                terms[var] = terms.get(var, 0) + coeff
+        return constant, terms
+
+    def write_entry(constant, terms, ii, jj):
+        """Write an entry of the current block. In the SDPA format, the matrix
+        of constants is subtracted."""
+        if constant != 0:
+            lines.append(f"0\t{block}\t{ii}\t{jj}\t{-constant}\n")
+        for var, coeff in terms.items():
+            lines.append(f"{var}\t{block}\t{ii}\t{jj}\t{coeff}\n")
+
     for ii, row in enumerate(problem.momentmatrix):
-        for jj, var in enumerate(row):
+        for jj, idx in enumerate(row):
             if jj >= ii:
-                if var == 0:
-                    pass
-                elif var == 1:
-                    lines.append(f"0\t{block}\t{ii+1}\t{jj+1}\t-1.0\n")
-                elif var in known_moments_indices.keys():
-                    coeff = known_moments_indices[var]
-                    lines.append(
-                        f"0\t{block}\t{ii+1}\t{jj+1}\t-{abs(coeff)}\n")
-                elif var in semiknowns.keys():
-                    coeff, subs = semiknowns[var]
-                    try:
-                        var = var_corresp[subs]
-                        lines.append(
-                            f"{var}\t{block}\t{ii+1}\t{jj+1}\t{coeff}\n")
-                    except KeyError:
-                        var_corresp[subs] = new_var
-                        lines.append(
-                            f"{new_var}\t{block}\t{ii+1}\t{jj+1}\t{coeff}\n")
-                        new_var += 1
-                else:
-                    try:
-                        var = var_corresp[var]
-                        lines.append(f"{var}\t{block}\t{ii+1}\t{jj+1}\t1.0\n")
-                    except KeyError:
-                        var_corresp[int(var)] = new_var
-                        lines.append(
-                            f"{new_var}\t{block}\t{ii+1}\t{jj+1}\t1.0\n")
-                        new_var += 1
+                write_entry(*linear_form([(int(idx), 1.0)]), ii+1, jj+1)
 
     # Prepare objective
-    objective = np.zeros(nvars)
-    for variable, coeff in problem.objective.items():
-        if variable == problem.One:
-            if abs(coeff) > 1e-8:
-                warn(f"Export removed the constant {coeff} from the objective")
-        else:
-            objective[var_corresp[variable.idx] - 1] = coeff
-    objective = str(objective.tolist()).replace("[", "").replace("]", "")
-    objective_constant = problem.objective[problem.One]
+    constant, objective_terms = linear_form(
+        [(mon.idx, coeff) for mon, coeff in problem.objective.items()])
+    objective_constant = float(constant)
+    if abs(objective_constant) > 1e-8:
+        warn(f"Export removed the constant {objective_constant} from the "
+             + "objective")
 
-    # Prepare upper bounds
-    if len(problem.moment_upperbounds) > 0:
-        block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_upperbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, ub in problem.moment_upperbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t-1.0\n")
-            if abs(ub) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t-{ub}\n")
-            ii += 1
-
-    # Prepare lower bounds
-    if len(problem.moment_lowerbounds) > 0:
-        block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_lowerbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, lb in problem.moment_lowerbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t1.0\n")
-            if abs(lb) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t{lb}\n")
-            ii += 1
+    # Prepare upper and lower bounds
+    for bounds, sign in ((problem.moment_upperbounds, -1.0),
+                         (problem.moment_lowerbounds, 1.0)):
+        if len(bounds) > 0:
+            block += 1
+            ii     = 1
+            for mon, bnd in bounds.items():
+                if bound_is_implied(problem, mon, bounds, sign):
+                    continue
+                constant, terms = linear_form([(mon.idx, sign)])
+                constant -= sign * bnd
+                if abs(constant) <= 1e-8:
+                    constant = 0
+                write_entry(constant, terms, ii, ii)
+                ii += 1
+            blockstruct.append(str(1 - ii))
 
     # Prepare equalities
     if len(problem.moment_equalities) > 0:
@@ -363,15 +325,13 @@ def write_to_sdpa(problem, filename):
         block_size = 2*len(problem.moment_equalities)
         blockstruct.append(str(-block_size))
     for equality in problem.moment_equalities:
-        for var, coeff in equality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                    lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{-coeff}\n")
-                else:
-                    lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
-                    lines.append(f"0\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
+        constant, terms = linear_form([(mon.idx, coeff)
+                                       for mon, coeff in equality.items()])
+        if not terms and abs(constant) <= 1e-8:
+            constant = 0
+        write_entry(constant, terms, ii, ii)
+        write_entry(-constant, {var: -coeff for var, coeff in terms.items()},
+                    ii+1, ii+1)
         ii += 2
 
     # Prepare inequalities
@@ -381,17 +341,16 @@ def write_to_sdpa(problem, filename):
         block_size = len(problem.moment_inequalities)
         blockstruct.append(str(-block_size))
     for inequality in problem.moment_inequalities:
-        sumcoeffs = 0
-        for var, coeff in inequality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                else:
-                    sumcoeffs += coeff
-        if sumcoeffs != 0:
-            lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
-        ii += 2
+        constant, terms = linear_form([(mon.idx, coeff)
+                                       for mon, coeff in inequality.items()])
+        write_entry(constant, terms, ii, ii)
+        ii += 1
+
+    nvars     = len(var_corresp)
+    objective = np.zeros(nvars)
+    for var, coeff in objective_terms.items():
+        objective[var - 1] = coeff
+    objective = str(objective.tolist()).replace("[", "").replace("]", "")
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
     if abs(objective_constant) > 1e-8:
@@ -406,3 +365,41 @@ def write_to_sdpa(problem, filename):
                                              int(x.split("\t")[0]))):
         file_.write(line)
     file_.close()
+
+
+def bound_is_implied(problem, mon, bounds, sign):
+    """Whether a bound on a moment does not constrain the unknown moments. This
+    is the case for the bounds on moments with known values, which are checked
+    against them when they are set, and for the bounds on moments in LPI
+    constraints if those on the moments they are proportional to imply them.
+
+    Parameters
+    ----------
+    problem : inflation.InflationSDP
+        The SDP relaxation.
+    mon : CompoundMomentSDP
+        The moment.
+    bounds : dict
+        The bounds on the moments.
+    sign : float
+        1 for lower bounds, and -1 for upper bounds.
+
+    Returns
+    -------
+    bool
+        Whether the bound can be omitted.
+    """
+    if mon in problem.known_moments:
+        return True
+    if mon not in problem.semiknown_moments:
+        return False
+    factor, unknown = problem.semiknown_moments[mon]
+    if unknown in problem.known_moments:
+        implied = factor * problem.known_moments[unknown]
+    elif factor == 0:
+        implied = 0
+    elif factor > 0 and unknown in bounds:
+        implied = factor * bounds[unknown]
+    else:
+        return False
+    return sign * implied >= sign * bounds[mon]
-- 
2.43.0


From 84a37ff1b4c070bff36dd8b21d6d063354b3bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 28/40] fix: values within rounding errors of a bound were
 taken for contradictions

---
 inflation/sdp/InflationSDP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index a3256d5..3f57cb4 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2159,6 +2159,8 @@ class InflationSDP:
                 try:
                     b = bounds[mon]
                     condition = (b >= value) if typ == "up" else (b <= value)
+                    # Rounding errors in the value are not contradictions
+                    condition = condition or np.isclose(b, value, rtol=1e-9)
                     assert condition, (f"Value {value} assigned for " +
                                        f"monomial {mon} contradicts the " +
                                        f"assigned {dir}er bound of {b}.")
-- 
2.43.0


From 53fb483cac9df2a82704040c0d307a5922b94690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 29/40] fix: the dual search for critical values ignored
 failures of the solver

---
 inflation/optimization_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index f2698d7..e07e584 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -250,6 +250,10 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
         program.solve(feas_as_optim=True,
                       solve_dual=solve_dual,
                       solverparameters=solverparameters)
+        if not program.success:
+            raise Exception("The solver failed to find a certificate for the "
+                            + f"value {new_ub+precision}. Solution status: "
+                            + f"{program.status}")
 
         # The feasible region is where the certificate is positive
         nonneg_expr = sum(symbol_names[var] * coeff
-- 
2.43.0


From dc35af600c6745310d873d005fd56b62ca4c4561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 30/40] fix: the dual search for critical values rejected
 moments given by symbol

---
 inflation/optimization_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index e07e584..0016401 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -231,7 +231,10 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
     solve_dual     = kwargs.get("solve_dual", True)
     solverparameters = kwargs.get("solverparameters", None)
 
-    symbol_names = {str(key): val for key, val in symbolic_values.items()}
+    sanitise = (program._sanitise_monomial if isinstance(program, InflationLP)
+                else program._sanitise_moment)
+    symbol_names = {sanitise(key).name: val
+                    for key, val in symbolic_values.items()}
     func_to_minimize = lambdify([param], -param, modules='numpy', cse=True)
     sp_bounds = Bounds(lb=bounds[0], ub=bounds[1])
     x0 = np.array([bounds[0]])
-- 
2.43.0


From 50567b25d0d5a7c4c919dd3fa53e5bdb213e9b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 31/40] fix: the certificate of a bisection could be one that
 refutes nothing

---
 inflation/optimization_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index 0016401..0ae6680 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -168,7 +168,8 @@ def _maximize_via_bisect(program: Union[InflationLP, InflationSDP],
             print(f"Parameter = {value:<6.4g}   " +
                   f"Maximum smallest eigenvalue: {program.objective_value:10.4g}")
         discovered_certificate = program.certificate_as_dict()
-        if len(discovered_certificate):  # Checking if certificate has any nonzero coefficients
+        # Only the certificates for infeasible values refute anything
+        if len(discovered_certificate) and program.objective_value < 0:
             discovered_certificates.append((value, discovered_certificate))
         return program.objective_value+precision/2048
     assert f(bounds[1])+precision/2048 < 0, f"Certificate of infeasibility for v=1 is {f(bounds[1])}, but must be <{precision/2048}."
-- 
2.43.0


From 4fa8cb9e80af83457555ffdfdcbda6e14acdefb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 32/40] fix: the dual search for critical values could return
 other values

It relied on a local optimization, whose failures (certificates with several
zeros, or with vanishing derivative) went unnoticed, stopped when the
certificates stopped improving even if the value found was infeasible, and
raised if the critical value was close to the upper bound.
---
 inflation/optimization_utils.py | 47 +++++++++++++++------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index 0ae6680..271b648 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -11,7 +11,7 @@ import numpy as np
 import sympy as sp
 
 from numbers import Real
-from scipy.optimize import bisect, minimize, Bounds
+from scipy.optimize import bisect, brentq
 from sympy.utilities.lambdify import lambdify
 from typing import Dict, Tuple, Union
 from functools import lru_cache
@@ -236,18 +236,12 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
                 else program._sanitise_moment)
     symbol_names = {sanitise(key).name: val
                     for key, val in symbolic_values.items()}
-    func_to_minimize = lambdify([param], -param, modules='numpy', cse=True)
-    sp_bounds = Bounds(lb=bounds[0], ub=bounds[1])
-    x0 = np.array([bounds[0]])
-    new_ub = bounds[1]-precision
-    old_ub = np.inf
+    crit_param = seed = bounds[1]
     discovered_certificates = []
     # Get a certificate for a value, find the critical value for it (that which
-    # makes the certificate zero), and repeat with this new value
-    while new_ub+precision < old_ub:
-        old_ub = new_ub
-        evaluated_values = make_numerical(symbolic_values,
-                                          {param: new_ub+precision})
+    # makes the certificate zero), and repeat with a value slightly below
+    while seed > bounds[0]:
+        evaluated_values = make_numerical(symbolic_values, {param: seed})
         program.set_values(evaluated_values,
                            use_lpi_constraints=use_lpi,
                            only_specified_values=only_specified)
@@ -256,33 +250,36 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
                       solverparameters=solverparameters)
         if not program.success:
             raise Exception("The solver failed to find a certificate for the "
-                            + f"value {new_ub+precision}. Solution status: "
+                            + f"value {seed}. Solution status: "
                             + f"{program.status}")
 
-        # The feasible region is where the certificate is positive
+        # The feasible region is where the certificate is positive, up to the
+        # precision of the solver
         nonneg_expr = sum(symbol_names[var] * coeff
                           for var, coeff in
                           program.solution_object["dual_certificate"].items())
         nonneg_func = lambdify([param],
-                               nonneg_expr,
+                               nonneg_expr + precision/2048,
                                modules="numpy",
                                cse=True)
-        constraints = {"type": "ineq", "fun": nonneg_func}
-        solution = minimize(func_to_minimize, x0,
-                            method='SLSQP',
-                            bounds=sp_bounds,
-                            constraints=constraints,
-                            options={'disp': False})
-        new_ub = solution['x'][0]
-        discovered_certificates.append((new_ub , program.certificate_as_dict()))
+        if nonneg_func(seed) >= 0:
+            break
+        # All the zeros of the certificate are above the critical value. If
+        # there are several, local optimizers need not find any.
+        if nonneg_func(bounds[0]) <= 0:
+            crit_param = bounds[0]
+        else:
+            crit_param = brentq(nonneg_func, bounds[0], seed)
+        discovered_certificates.append((crit_param,
+                                        program.certificate_as_dict()))
         if verbose:
-            print(f"Current critical value: {new_ub} (seeded by {old_ub+precision})")
-    assert len(discovered_certificates)>1, """
+            print(f"Current critical value: {crit_param} (seeded by {seed})")
+        seed = crit_param - precision
+    assert discovered_certificates, """
     Critical error - optimization failed to yield a useful certificate
     even when given the initial (infeasible) seed.
     """
 
-    crit_param = max(new_ub, old_ub)
     if return_last:
         return crit_param, discovered_certificates[-1][-1]
     else:
-- 
2.43.0


From 595573aa8591abd685d1efec8fd8d45dc9fd03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 33/40] fix: export SDP constraints without terms to csv
 instead of crashing

---
 inflation/sdp/writer_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index f232af8..9db9591 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -82,7 +82,7 @@ def convert_to_human_readable(problem):
                     equality += monom.name
                 else:
                     equality += f"{abs(coeff)}*{monom.name}"
-        equalities.append(equality[1:] if equality[0] == "+" else equality)
+        equalities.append(equality.lstrip("+") or "0")
     
     ### Process inequalities
     inequalities = []
@@ -97,8 +97,7 @@ def convert_to_human_readable(problem):
                     inequality += monom.name
                 else:
                     inequality += f"{abs(coeff)}*{monom.name}"
-        inequalities.append(inequality[1:] if inequality[0] == "+"
-                            else inequality)
+        inequalities.append(inequality.lstrip("+") or "0")
     return objective, matrix, bounds.tolist(), equalities, inequalities
 
 
-- 
2.43.0


From d0f180a88ad9444e3ca566bf9b48cd35358aceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 34/40] fix: rectify_fake_setting leaves its argument
 unmodified

---
 inflation/InflationProblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index a90b59d..1f6eed8 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -742,7 +742,7 @@ class InflationProblem:
             The monomial with the index of the setting representing only the
             private setting.
         """
-        new_mon = np.array(monomial, copy=False)
+        new_mon = np.array(monomial)
         for o in new_mon:
             party_index        = o[0] - 1  # Parties start at 1 our notation
             effective_setting  = o[-2]
-- 
2.43.0


From dcdceda5f22bb0963e106bf9f82e29555cbf271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 35/40] fix: the adjoint of a factor has its own legacy name
 and symbol

---
 inflation/sdp/monomial_classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index 49ec2ca..1de656d 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -9,6 +9,7 @@ from functools import total_ordering, cached_property
 from typing import Tuple
 
 from ..lp.monomial_classes import InternalAtomicMonomial as InternalAtomicMonomialLP
+from .monomial_utils import symbol_from_atom_name
 from ..lp.monomial_classes import CompoundMoment as CompoundMomentLP
 
 
@@ -111,8 +112,9 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
             dagger.as_lexmon = self.conjugate_lexmon
             dagger.signature = (self.n_operators, tuple(self.conjugate_lexmon))
             dagger.as_2d_array = self.context._lexorder[self.conjugate_lexmon]
-            dagger.name = "<" + " ".join(
-                self.context._lexrepr_to_names[dagger.as_lexmon]) + ">"
+            dagger.name = dagger._name
+            dagger.legacy_name = dagger._raw_name
+            dagger.symbol = symbol_from_atom_name(dagger.name)
             return dagger
         
 class CompoundMomentSDP(CompoundMomentLP):
-- 
2.43.0


From fb6aeeaa1c0d62ffe61689ae66df4ecb97dd8ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 36/40] fix: canonical forms do not depend on which products
 were canonicalised before

---
 inflation/sdp/InflationSDP.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 3f57cb4..af6a384 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1702,7 +1702,12 @@ class InflationSDP:
         except KeyError:
             pass
 
-        other_keys, real_repr_lexmon = self._inflation_orbit_and_rep_1d(lexmon)
+        if np.array_equiv(canonical_mon, 0):
+            self.canonsym_lexmon_from_hash[key] = canonical_mon
+            return canonical_mon
+
+        other_keys, real_repr_lexmon = \
+            self._inflation_orbit_and_rep_1d(canonical_mon)
         other_keys.append(key)
         for key in other_keys:
             self.canonsym_lexmon_from_hash[key] = real_repr_lexmon
@@ -2372,7 +2377,7 @@ class InflationSDP:
         numpy.ndarray
             Moment in canonical form as 1D array.
         """
-        key = tuple(lexmon)
+        key = (tuple(lexmon), apply_only_commutations)
         try:
             return self.canon_lexmon_from_hash[key]
         except KeyError:
@@ -2386,7 +2391,7 @@ class InflationSDP:
                         self._notcomm, self._orthomat, 
                         self.all_operators_commute,
                         apply_only_commutations=apply_only_commutations)
-                new_key = tuple(new_lexmon)
+                new_key = (tuple(new_lexmon), apply_only_commutations)
                 self.canon_lexmon_from_hash[key]     = new_lexmon
                 self.canon_lexmon_from_hash[new_key] = new_lexmon
                 return new_lexmon
-- 
2.43.0


From a64bbbc208237bc7db4ea2f71b71430ea43f1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 37/40] fix: a product of expectation values is not read as a
 product of operators

---
 inflation/lp/InflationLP.py   | 48 +++++++++++++++++++++++++++-
 inflation/sdp/InflationSDP.py | 59 +++++++++++++++++++++++++++++++----
 2 files changed, 100 insertions(+), 7 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 300bb68..3124b0f 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1091,6 +1091,11 @@ class InflationLP(object):
                         return self.monomial_from_name[str(symbols[0])]
                     except KeyError:
                         pass
+                factors = self._expectation_values(mon)
+                if len(factors) > 1:
+                    return self._monomial_from_atoms(
+                        [atom for factor in factors
+                         for atom in self._sanitise_monomial(factor).factors])
                 array = np.concatenate([self._interpret_atomic_string(str(op))
                                         for op in symbols])
                 return self._sanitise_monomial(array)
@@ -1109,6 +1114,11 @@ class InflationLP(object):
             try:
                 return self.monomial_from_name[mon]
             except KeyError:
+                factors = self._expectation_values(mon)
+                if len(factors) > 1:
+                    return self._monomial_from_atoms(
+                        [atom for factor in factors
+                         for atom in self._sanitise_monomial(factor).factors])
                 print(f"As of now we only recognize \n{list(self.monomial_from_name.keys())}")
                 return self._sanitise_monomial(self._interpret_name(mon))
         elif isinstance(mon, Real):
@@ -1149,6 +1159,42 @@ class InflationLP(object):
     ###########################################################################
     # ROUTINES RELATED TO NAME PARSING                                        #
     ###########################################################################
+    def _expectation_values(self,
+                            monomial: Union[str, sp.core.symbol.Expr]
+                            ) -> List[str]:
+        """Names of the expectation values in a product of them, with powers
+        expanded. These cannot be merged into a single product of operators,
+        because their operators act on different copies.
+
+        Parameters
+        ----------
+        monomial : Union[str, sympy.core.symbol.Expr]
+            Input moment.
+
+        Returns
+        -------
+        List[str]
+            The names of the factors. Empty if the input is the name of an
+            existing moment, or if it is a product of operators.
+        """
+        if isinstance(monomial, str):
+            if monomial in self.monomial_from_name:
+                return []
+            factors = []
+            for factor in monomial.split("*"):
+                base, _, power = factor.rpartition("^")
+                factors += ([base] * int(power) if power.isdecimal() and base
+                            else [factor])
+        else:
+            if monomial in self.monomial_from_symbol:
+                return []
+            names   = {atom.symbol: atom.name for atom in self.atomic_factors}
+            factors = [names.get(factor, str(factor))
+                       for factor in flatten_symbolic_powers(monomial)]
+        if any(factor in self.op_from_name for factor in factors):
+            return []
+        return factors
+
     def _interpret_name(self,
                         monomial: Union[str, sp.core.symbol.Expr, int]
                         ) -> np.ndarray:
@@ -1205,7 +1251,7 @@ class InflationLP(object):
         except (KeyError, AttributeError):
             pass
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index af6a384..2f1ab7c 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1443,15 +1443,19 @@ class InflationSDP:
             The moment factorised into AtomicMonomials, all brought to
             representative form under inflation symmetries.
         """
+        mon = self._monomial_from_atoms(self._atoms_1d(lexmon))
+        mon.attach_idx(idx)
+        return mon
+
+    def _atoms_1d(self, lexmon: np.ndarray) -> List[InternalAtomicMonomialSDP]:
+        """Factorise a product of operators in 1D array form into atomic
+        monomials."""
         # HACK: The lexorder of InflationProblem is different from that 
         # in InflationSDP!
         _factors = self.factorize_moment_1d(np.asarray(lexmon, dtype=np.intc)-1,
                                             canonical_order=False)
-        list_of_atoms = [self._AtomicMonomial(factor + 1)
-                         for factor in _factors if len(factor)]
-        mon = self._monomial_from_atoms(list_of_atoms)
-        mon.attach_idx(idx)
-        return mon
+        return [self._AtomicMonomial(factor + 1)
+                for factor in _factors if len(factor)]
 
     def _conjugate_lexmon(self,
                            lexmon: np.ndarray,
@@ -1635,6 +1639,13 @@ class InflationSDP:
                 self.mon_to_lexrepr(array))
             return self.Moment_1d(canon_lexmon)
         elif isinstance(moment, (str, sp.core.symbol.Expr)):
+            factors = self._expectation_values(moment)
+            if len(factors) > 1:
+                return self._monomial_from_atoms(
+                    [atom for factor in factors
+                     for atom in self._atoms_1d(self._to_canonical_memoized_1d(
+                         self.mon_to_lexrepr(
+                             self._interpret_atomic_string(factor))))])
             return self._sanitise_moment(self._interpret_name(moment))
         elif isinstance(moment, Real):
             if np.isclose(float(moment), 1):
@@ -1717,6 +1728,42 @@ class InflationSDP:
     # ROUTINES RELATED TO NAME PARSING                                        #
     ###########################################################################
     
+    def _expectation_values(self,
+                            monomial: Union[str, sp.core.symbol.Expr]
+                            ) -> List[str]:
+        """Names of the expectation values in a product of them, with powers
+        expanded. These cannot be merged into a single product of operators,
+        because their operators act on different copies.
+
+        Parameters
+        ----------
+        monomial : Union[str, sympy.core.symbol.Expr]
+            Input moment.
+
+        Returns
+        -------
+        List[str]
+            The names of the factors. Empty if the input is the name of an
+            existing moment, or if it is a product of operators.
+        """
+        if isinstance(monomial, str):
+            if monomial in self.monomial_from_name:
+                return []
+            factors = []
+            for factor in monomial.split("*"):
+                base, _, power = factor.rpartition("^")
+                factors += ([base] * int(power) if power.isdecimal() and base
+                            else [factor])
+        else:
+            if monomial in self.monomial_from_symbol:
+                return []
+            names   = {atom.symbol: atom.name for atom in self.atomic_factors}
+            factors = [names.get(factor, str(factor))
+                       for factor in flatten_symbolic_powers(monomial)]
+        if any(factor in self.op_from_name for factor in factors):
+            return []
+        return factors
+
     def _interpret_name(self,
                         monomial: Union[str, sp.core.symbol.Expr, int]
                         ) -> np.ndarray:
@@ -1773,7 +1820,7 @@ class InflationSDP:
         except (KeyError, AttributeError):
             pass
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
-- 
2.43.0


From bd42249ef457a0b6788fbfb590e56bc07bf72036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:07 +0000
Subject: [PATCH 38/40] fix: generating sets that are not closed under source
 swaps can be used

---
 inflation/sdp/InflationSDP.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 2f1ab7c..e6875be 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -356,10 +356,23 @@ class InflationSDP:
         self.compmoment_from_idx = dict()
         if self.momentmatrix_has_a_zero:
             self.compmoment_from_idx[0] = self.Zero
+        idx_from_moment = dict()
         for (idx, lexmon) in tqdm(self.symmetrized_corresp.items(),
                                disable=not self.verbose,
                                desc="Initializing monomials   "):
-            self.compmoment_from_idx[idx] = self.Moment_1d(lexmon, idx)
+            mon = self.Moment_1d(lexmon, idx)
+            first_idx = idx_from_moment.setdefault(mon, idx)
+            if first_idx == idx:
+                self.compmoment_from_idx[idx] = mon
+            else:
+                # Entries related by source swaps that are not symmetries of
+                # the generating set, when this is not closed under them.
+                mon.attach_idx(first_idx)
+                self.momentmatrix[self.momentmatrix == idx] = first_idx
+                self.orbits = {old: (first_idx if new == idx else new)
+                               for old, new in self.orbits.items()}
+        self.symmetrized_corresp = {idx: self.symmetrized_corresp[idx]
+                                    for idx in idx_from_moment.values()}
         self.first_free_idx = max(self.compmoment_from_idx.keys()) + 1
         self.moments = list(self.compmoment_from_idx.values())
         self.monomials = list(self.compmoment_from_idx.values())
-- 
2.43.0


From f009dc9ffcbf3615e2238e7d7b94fbf02674cd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:12 +0000
Subject: [PATCH 39/40] fix: columns written in another order are recognised in
 symmetries and normalisations

---
 inflation/sdp/InflationSDP.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index e6875be..e840214 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1272,15 +1272,19 @@ class InflationSDP:
             raise Exception("I have not understood the format of the "
                             + "column specification")
         
+        def canonical(lexmon):
+            return tuple(self._to_canonical_memoized_1d(
+                lexmon, apply_only_commutations=True))
+
         self.generating_monomials_1d = columns
-        self.genmon_1d_to_index = {tuple(lexmon): i for i, lexmon in
+        self.genmon_1d_to_index = {canonical(lexmon): i for i, lexmon in
                                    enumerate(self.generating_monomials_1d)}
         if len(self.genmon_1d_to_index) != len(self.generating_monomials_1d):
             self.generating_monomials_1d = \
                 sorted(self.generating_monomials_1d, 
                        key=lambda x: (len(x), tuple(x)))
             self.genmon_1d_to_index = \
-                {tuple(lexmon): i 
+                {canonical(lexmon): i 
                  for i, lexmon in enumerate(self.generating_monomials_1d)}
             warn("The generating set of monomials included duplicate elements.")
         self.n_columns = len(self.generating_monomials_1d)
@@ -1988,12 +1992,15 @@ class InflationSDP:
                         eqs += [(lhs, list(rhs))]
                 for eq in eqs:
                     try:
-                        eq_idxs = [self.genmon_1d_to_index[tuple(eq[0])]]
-                        eq_idxs.append([self.genmon_1d_to_index[tuple(m)]
-                                        for m in eq[1]])
+                        lhs, *rhs = [
+                            self.genmon_1d_to_index[tuple(
+                                self._to_canonical_memoized_1d(
+                                    m, apply_only_commutations=True))]
+                            for m in (eq[0], *eq[1])]
+                        eq_idxs = [lhs, rhs]
                         column_level_equalities += [tuple(eq_idxs)]
                     except KeyError:
-                        break
+                        continue
         return column_level_equalities
 
     def _discover_columns_symmetries(self) -> np.ndarray:
-- 
2.43.0


From c6d8ca1b3acbb0537cc6bfa83ef5e1abe7755094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:57 +0000
Subject: [PATCH 40/40] fix: the dual method accepts values of only the factors
 of the moments

---
 inflation/optimization_utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index 271b648..ffe9885 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -14,7 +14,8 @@ from numbers import Real
 from scipy.optimize import bisect, brentq
 from sympy.utilities.lambdify import lambdify
 from typing import Dict, Tuple, Union
-from functools import lru_cache
+from functools import lru_cache, reduce
+from operator import mul
 
 from . import InflationLP, InflationSDP
 from .utils import make_numerical
@@ -236,6 +237,18 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
                 else program._sanitise_moment)
     symbol_names = {sanitise(key).name: val
                     for key, val in symbolic_values.items()}
+    symbol_names.setdefault(program.One.name, 1)
+
+    def expression(name: str) -> sp.core.expr.Expr:
+        # Certificates can contain moments whose values are not specified, but
+        # follow from those of their factors
+        if name not in symbol_names:
+            factors = program.monomial_from_name[name].factors
+            assert len(factors) > 1, f"{name} does not have a symbolic value."
+            symbol_names[name] = reduce(mul, (expression(factor.name)
+                                              for factor in factors))
+        return symbol_names[name]
+
     crit_param = seed = bounds[1]
     discovered_certificates = []
     # Get a certificate for a value, find the critical value for it (that which
@@ -255,7 +268,7 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
 
         # The feasible region is where the certificate is positive, up to the
         # precision of the solver
-        nonneg_expr = sum(symbol_names[var] * coeff
+        nonneg_expr = sum(expression(var) * coeff
                           for var, coeff in
                           program.solution_object["dual_certificate"].items())
         nonneg_func = lambdify([param],
-- 
2.43.0

