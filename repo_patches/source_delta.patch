From e4ca7c90c3d9ad9d1f344b0db60b83e2a59678f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 01/52] fix: report infeasible rows from outside the parallel
 loops

An exception raised inside a prange loop is lost (or turned into a SystemError)
whenever the row is handled by a worker other than the calling thread, and the
run then returned zeros as if nothing was wrong.
---
 cheval/core.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 7a1a4fc..5f61142 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -303,6 +303,15 @@ def nested_multisample(utilities: NDArray, parents, levels, ls_scales, bottom_fl
 
 # region High level functions
 
+@njit(void(ndouble[:], nbool), nogil=True, cache=True)
+def _check_logsums(ls_array: NDArray, check_infeasible: bool):
+    """Checks the top-level logsums of all rows. This is done outside the parallel loops, because an exception raised in
+    a parallel loop is lost whenever the row is handled by a thread other than the calling one."""
+    for ls in ls_array:
+        if check_infeasible and ls <= 0:
+            raise UtilityBoundsError("Utilities all exceeded minimum value (Logsum == 0.0)")
+
+
 @njit(nlong[:, :](ndouble[:, :], nlong, nlong), parallel=True, nogil=True, cache=True)
 def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
@@ -339,15 +348,18 @@ def worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[ND
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            result[i, 0], ls = multinomial_sample(utility_row, r)
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = multinomial_multisample(utility_row, n, seed_i, result[i, :])
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+    _check_logsums(ls_array, True)  # Check infeasible req'd (for sampling)
     return result, ls_array
 
 
@@ -364,11 +376,12 @@ def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool)
 
     for i in prange(n_rows):
         utility_row = utilities[i, :]
-        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, check_infeasible)
+        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, False)
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    _check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
 
@@ -388,20 +401,22 @@ def worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            this_result, ls = nested_sample(
-                utility_row, r, parents, levels, ls_scales, bottom_flags, scale_utilities
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
-            result[i, 0] = this_result
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = nested_multisample(
-                utility_row, parents, levels, ls_scales, bottom_flags, n, seed_i, scale_utilities, out=result[i, :]
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+    _check_logsums(ls_array, True)  # Check infeasible req'd (for sampling)
     return result, ls_array
 
 
@@ -420,12 +435,13 @@ def worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales,
     for i in prange(n_rows):
         utility_row = utilities[i, :]
         p_array, top_ls, nested_ls = nested_probabilities(
-            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, check_infeasible
+            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
         )
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    _check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
 # endregion
-- 
2.43.0


From 123ba6db3b3fd591759c5003487bc687dff8a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 02/52] fix: report utilities too large to exponentiate instead
 of returning NaN probabilities

---
 cheval/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/core.py b/cheval/core.py
index 5f61142..ad94359 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -308,6 +308,8 @@ def _check_logsums(ls_array: NDArray, check_infeasible: bool):
     """Checks the top-level logsums of all rows. This is done outside the parallel loops, because an exception raised in
     a parallel loop is lost whenever the row is handled by a thread other than the calling one."""
     for ls in ls_array:
+        if not np.isfinite(ls):
+            raise UtilityBoundsError("Utilities exceeded maximum value (Logsum is not finite)")
         if check_infeasible and ls <= 0:
             raise UtilityBoundsError("Utilities all exceeded minimum value (Logsum == 0.0)")
 
-- 
2.43.0


From 271c3baef337815f106d9d370ea59e6b389e3834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 03/52] fix: never draw a zero-probability choice when
 probabilities sum to just below 1

---
 cheval/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cheval/core.py b/cheval/core.py
index ad94359..6f08b3b 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -36,7 +36,12 @@ def sample_once(p_array: NDArray, r: float) -> int:
         if r <= cumsum:
             return index
         index += 1
-    return len(p_array) - 1
+
+    # Rounding can leave the total slightly below 1.0 (and below `r`), so pick the last choice with non-0 probability
+    index = len(p_array) - 1
+    while index > 0 and p_array[index] <= 0:
+        index -= 1
+    return index
 
 
 @njit(nlong(ndouble, ndouble[:]), nogil=True, cache=True)
@@ -62,6 +67,10 @@ def logarithmic_search(r: float, cps: NDArray) -> int:
 
     ncols = len(cps)
 
+    # Rounding can leave the total slightly below 1.0 (and below `r`), which would pick the last cell even if it has 0
+    # probability
+    r = min(r, cps[ncols - 1])
+
     lower_bound, upper_bound = 0, ncols - 1
     while (upper_bound - lower_bound) > 1:
         mid_index = np.uint32((upper_bound + lower_bound) // 2)
-- 
2.43.0


From 4b7119d0a139b6b6207f2e214092ced2a6e01208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 04/52] fix: draw weighted samples from a stream that does not
 depend on the parallel schedule

---
 cheval/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 6f08b3b..af928b8 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -328,19 +328,18 @@ def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
     result = np.zeros((n_rows, n), dtype=np.int64)
 
-    np.random.seed(seed)
     if n <= 1:
-        r_array = np.random.uniform(MIN_RANDOM_VALUE, 1.0, n_rows)
+        r_array = generate_rand_floats_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             r = r_array[i]
             result[i, 0] = simple_sample(weight_row, r)
     else:
-        seed_array = np.random.randint(0, MAX_RANDOM_VALUE, n_rows)
+        seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             seed_i = seed_array[i]
-            _, ls = simple_multisample(weight_row, n, seed_i, result[i, :])
+            simple_multisample(weight_row, n, seed_i, result[i, :])
     return result
 
 
-- 
2.43.0


From aff0bcb22dae6471488a382026a03fe30be2914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 05/52] fix: do not accumulate evaluated utilities in the
 stored partial utilities

Each evaluation added to the cached table in place, so running a model again
(or after a failed run, or for another group) counted expressions twice.
---
 cheval/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index a5b50ba..1ad97d2 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -69,7 +69,6 @@ class ChoiceModel(object):
             dtype = np.dtype(f"f{self._precision}")
             matrix = np.zeros(shape=[len(self.decision_units), len(self.choices)], dtype=dtype)
             table = pd.DataFrame(matrix, index=self.decision_units, columns=self.choices)
-            self._cached_utils = table
         else:
             table = self._cached_utils
         return table
@@ -463,7 +462,8 @@ class ChoiceModel(object):
         if self.debug_id:
             debug_label = row_index.get_loc(self.debug_id)
 
-        utilities = to_numpy(self._partial_utilities)
+        # Always accumulate in a new table, so that the partial utilities survive for (and don't leak into) later runs
+        utilities = self._partial_utilities.to_numpy(dtype=f"f{self._precision}", copy=True)
 
         # Prepare locals, including scalar, vector, and matrix variables that don't need any further processing.
         shared_locals = {NAN_STR: np.nan, OUT_STR: utilities, NEG_INF_STR: NEG_INF_VAL}
@@ -776,7 +776,8 @@ class ChoiceModel(object):
                 raise KeyError("Partial utility table columns must match model choices when reindex_columns=False")
             col_indexer = self.choices.get_indexer(table.columns)
 
-        target_table = self._partial_utilities.values
-        fast_indexed_add(target_table, table.values, row_indexer, col_indexer)
+        target_table = self._partial_utilities
+        fast_indexed_add(target_table.values, table.values, row_indexer, col_indexer)
+        self._cached_utils = target_table
 
     # endregion
-- 
2.43.0


From c49679c35e5c6b2c653725dfba2758b045e2735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 06/52] fix: discard partial utilities of other decision units
 when decision units are set

---
 cheval/model.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 1ad97d2..6d7ace9 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -229,16 +229,19 @@ class ChoiceModel(object):
         """The units or agents or OD pairs over which choices are to be evaluated. MUST BE SET before symbols can be
         assigned, or utilities calculated; otherwise ModelNotReadyError will be raised."""
 
+        new_index = item if isinstance(item, pd.Index) else pd.Index(item)
+
         # If there are any assigned symbols, clear them so as not to conflict with the new decision units
         for symbol in self._scope.values():
             if isinstance(symbol, NumberSymbol):
                 continue  # Don't empty symbols that don't depend on the DU.
             symbol.empty()
 
-        if isinstance(item, pd.Index):
-            self._decision_units = item
-        else:
-            self._decision_units = pd.Index(item)
+        # The same applies to the partial utilities
+        if self._cached_utils is not None and not self._cached_utils.index.equals(new_index):
+            self._cached_utils = None
+
+        self._decision_units = new_index
 
     @staticmethod
     def _check_symbol_name(name: str):
-- 
2.43.0


From 128eeb3089d9e15929b829d773f786454510edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 07/52] fix: replace choices together with their nests, and
 only once the new choice is valid

Re-adding a choice left the nodes nested below the old one in the tree, an invalid
name or scale removed the existing choice before being refused, and adding a nested
choice did not discard cached columns and utilities.
---
 cheval/model.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 6d7ace9..c6b4129 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -76,19 +76,19 @@ class ChoiceModel(object):
     # region Tree operations
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
-        expected_namespace = name
-        if parent is None and name in self._all_nodes:
-            old_node = self._all_nodes.pop(name)  # Remove from model dictionary
-            self._top_nodes.remove(old_node)  # Remove from top-level choices
-        elif parent is not None:
-            expected_namespace = parent.full_name + '.' + name
-            if expected_namespace in self._all_nodes:
-                del self._all_nodes[expected_namespace]  # Remove from model dictionary
-
         level = 1 if parent is None else (parent.level + 1)
-        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
+        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)  # Raises if invalid
+
+        # If the choice is being replaced, remove the old node together with everything nested below it
+        expected_namespace = node.full_name
+        old_names = [n for n in self._all_nodes if n == expected_namespace or n.startswith(expected_namespace + '.')]
+        for old_name in old_names:
+            self._top_nodes.discard(self._all_nodes.pop(old_name))
         self._all_nodes[expected_namespace] = node
 
+        self._cached_cols = None
+        self._cached_utils = None
+
         return node
 
     def add_choice(self, name: str, logsum_scale: float = 1.0) -> ChoiceNode:
-- 
2.43.0


From eb6312b1b8a20705da7bda59b7312e780601fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 08/52] fix: clear choice-aligned data when the choices change

A vector or table assigned for the old choices stayed assigned, and was silently
applied to the wrong alternatives after choices were replaced.
---
 cheval/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cheval/model.py b/cheval/model.py
index c6b4129..902f5f2 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -89,6 +89,11 @@ class ChoiceModel(object):
         self._cached_cols = None
         self._cached_utils = None
 
+        # Symbols aligned with the choices don't match anymore, so clear them
+        for symbol in self._scope.values():
+            if isinstance(symbol, MatrixSymbol) or getattr(symbol, '_orientation', 0) == 1:
+                symbol.empty()
+
         return node
 
     def add_choice(self, name: str, logsum_scale: float = 1.0) -> ChoiceNode:
-- 
2.43.0


From 907471c392548eb0b646395c2b3b0f6e11cb8f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 09/52] fix: accept one-shot iterables of choice names

---
 cheval/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/model.py b/cheval/model.py
index 902f5f2..9d3fb91 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -140,6 +140,7 @@ class ChoiceModel(object):
         if self._cached_utils is not None:
             self._cached_utils = None
 
+        names = list(names)
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
         retval = {}
-- 
2.43.0


From 5cda0ef300cb4595fa77827155dfe4e926f2f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 10/52] fix: do not keep symbols of rejected or grouped
 expressions as ungrouped symbols

A rejected expression left its symbols behind, making the model unable to run.
---
 cheval/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 2d5a086..87fef2a 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -152,9 +152,9 @@ class ExpressionGroup(object):
         self._subgroups: Dict[Hashable, ExpressionSubGroup] = {}
 
     def append(self, e: str, group: Hashable = None):
-        # Parse the expression and look for invalid syntax and inconsistent usage. self._simple_symbols and
-        # self._chained_symbols are modified in-place during parsing.
-        expr = Expression.parse(e, self._simple_symbols, self._chained_symbols)
+        # Parse the expression and look for invalid syntax and inconsistent usage. The sets of symbols are modified
+        # in-place during parsing, so pass in copies in case the expression gets rejected or belongs to a group.
+        expr = Expression.parse(e, set(self.itersimple()), set(self.iterchained()))
         if group is not None:
             if group not in self._subgroups:
                 subgroup = ExpressionSubGroup(group)
-- 
2.43.0


From 0600953c1bfe1b4e1fa2f03b8aea622d03661e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 11/52] fix: keep symbols needed by other groups when
 pre-evaluating a group

The set of symbols to drop included those shared with other groups, and failed on
reserved names. The changes are also now made together after everything that can fail.
---
 cheval/model.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 9d3fb91..aa381a7 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -655,23 +655,22 @@ class ChoiceModel(object):
         self.validate(group=group)
         subgroup = self._expressions.get_group(group)
         utilities = self._evaluate_utilities(subgroup, n_threads=n_threads, logger=logger)
-        self._cached_utils = utilities
+        remaining = self._expressions.copy()
+        remaining.drop_group(group)
 
+        scope = self._scope
         if cleanup_scope:
             # Need to get a set of only those symbols unique to this group, using set math
-            all_symbols = set(iter_chain(self.expressions.itersimple(), self.expressions.itersimple()))
-            ungrouped_symbols = set(
-                iter_chain(self._expressions.iterchained(groups=False), self._expressions.itersimple(groups=False)))
             group_symbols = set(iter_chain(subgroup.iterchained(), subgroup.itersimple()))
-            other_symbols = all_symbols - ungrouped_symbols - group_symbols
+            other_symbols = set(iter_chain(remaining.iterchained(), remaining.itersimple()))
 
-            symbols_to_clear = group_symbols - ungrouped_symbols - other_symbols
+            symbols_to_clear = group_symbols - other_symbols
+            scope = {name: symbol for name, symbol in self._scope.items() if name not in symbols_to_clear}
 
-            for name in symbols_to_clear:
-                del self._scope[name]
+        subgroups = remaining._subgroups if drop_group else self._expressions._subgroups
 
-        if drop_group:
-            self._expressions.drop_group(group)
+        # Everything is committed together, so that an interrupted call doesn't leave the model half-way
+        self._cached_utils, self._scope, self._expressions._subgroups = utilities, scope, subgroups
 
     def copy(self, *, decision_units: bool = True, scope_declared: bool = True, scope_assigned: bool = True,
              expressions: bool = True, utilities: bool = True) -> ChoiceModel:
-- 
2.43.0


From 82917ee6386debd0cabdc99dbff1d92e9e52463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 12/52] fix: trace decision units whose label is falsy

---
 cheval/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index aa381a7..ef79653 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -468,7 +468,7 @@ class ChoiceModel(object):
         debug_label = None
         debug_expr = []
         debug_results = []
-        if self.debug_id:
+        if self.debug_id is not None:
             debug_label = row_index.get_loc(self.debug_id)
 
         # Always accumulate in a new table, so that the partial utilities survive for (and don't leak into) later runs
@@ -508,11 +508,11 @@ class ChoiceModel(object):
             self._kernel_eval(expr.transformed, local_dict, utilities, choice_mask, casting_rule=casting_rule)
 
             # save each expression and values for a specific od pair
-            if self.debug_id:
+            if self.debug_id is not None:
                 debug_expr.append(expr.raw)
                 debug_results.append(utilities[debug_label].copy())
 
-        if self.debug_id:  # expressions.tolist() doesn't work...
+        if self.debug_id is not None:  # expressions.tolist() doesn't work...
             self.debug_results = pd.DataFrame(debug_results, index=debug_expr, columns=col_index)
 
         nans = np.isnan(utilities)
-- 
2.43.0


From e286cec0146ed3c889b938dcb7d25e1341d21f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 13/52] fix: do not trace a decision unit in subsets that
 exclude it

---
 cheval/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/model.py b/cheval/model.py
index ef79653..ff6ac12 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -737,7 +737,8 @@ class ChoiceModel(object):
         assert mask.index.equals(self.decision_units), "Mask Series must match decision units"
         subset_index = self.decision_units[mask]
 
-        new = ChoiceModel(precision=self.precision, debug_id=self.debug_id)
+        debug_id = self.debug_id if self.debug_id is not None and self.debug_id in subset_index else None
+        new = ChoiceModel(precision=self.precision, debug_id=debug_id)
         new._max_level = self._max_level
 
         # ChoiceNode refs will be the same, but that's ok because users shouldn't be changing these at this point
-- 
2.43.0


From bd7208da5e9c07e2f7ce692f3fba0049910200a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 14/52] fix: return choice names from discrete runs of nested
 models

The index of a nested model is a MultiIndex, which cannot be made into a categorical
or cast, so discrete runs only worked with astype='index'.
---
 cheval/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index ff6ac12..12710dd 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -547,10 +547,12 @@ class ChoiceModel(object):
             if squeeze and n_draws == 1:
                 return pd.Series(raw_result[:, 0], index=record_index, name=result_name)
             return pd.DataFrame(raw_result, index=record_index, columns=column_index)
-        elif astype == 'category':
-            lookup_table = pd.Categorical(self.choices)
+
+        names = pd.Index([node.name for node in self._all_nodes.values()])
+        if astype == 'category':
+            lookup_table = pd.Categorical(names)
         else:
-            lookup_table = self.choices.astype(astype)
+            lookup_table = names.astype(astype)
 
         retval = []
         for col in range(n_draws):
-- 
2.43.0


From fa69baea8ca7469769971e519393fe9fa97e0a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 15/52] fix: allow matrices to be reindexed over both rows and
 columns

---
 cheval/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 87fef2a..30361cb 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -452,7 +452,7 @@ class MatrixSymbol(AbstractSymbol):
                         raise NotImplementedError("Cannot handle missing columns")
                     assert len(col_indexer) == data.shape[1]
                 else:
-                    col_indexer = slice(None)
+                    col_indexer = np.arange(len(cols))
 
                 if not rows_match:
                     assert self._reindex_rows
@@ -461,9 +461,9 @@ class MatrixSymbol(AbstractSymbol):
                         raise NotImplementedError("Cannot handle missing rows")
                     assert len(row_indexer) == data.shape[0]
                 else:
-                    row_indexer = slice(None)
+                    row_indexer = np.arange(len(rows))
 
-                matrix[row_indexer, col_indexer] = data
+                matrix[np.ix_(row_indexer, col_indexer)] = data
                 self._matrix = matrix
 
         else:
-- 
2.43.0


From 99b6bf6d6ef321ab1862c2bc53916a5718e39aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 16/52] fix: allow negated symbols in expressions

---
 cheval/parsing/ast_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index e4eaab4..b0568fd 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -58,7 +58,7 @@ class ExpressionParser(ast.NodeTransformer):
         if isinstance(node.op, ast.Not):
             return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
         elif isinstance(node.op, ast.USub):
-            return node
+            return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
         raise NotImplementedError(type(node.op))
 
     def visit_boolop(self, node):
-- 
2.43.0


From 7b9ad5934a6895be6cff484dc3da004f137eb79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 17/52] fix: allow aggregation over a direct link in utility
 expressions

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 30361cb..7a8df36 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -375,7 +375,7 @@ class TableSymbol(AbstractSymbol):
     def _get(self, chain_info: ChainTuple = None):
         assert chain_info is not None
 
-        chained = len(chain_info.chain) > 1
+        chained = len(chain_info.chain) > 1 or chain_info.withfunc
 
         if chained:
             assert isinstance(self._table, LinkedDataFrame)
-- 
2.43.0


From cd97ad5fcc633089128185176c2682022a0b7a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 18/52] fix: make temporary_fill_defaults() usable as a context
 manager

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 93f39b4..07ab0a7 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -386,7 +386,7 @@ class LinkedDataFrame(DataFrame):
 
     def temporary_fill_defaults(self=None, **kwargs):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
-        yield from filler.temporary_fill_defaults(**kwargs)
+        return filler.temporary_fill_defaults(**kwargs)
 
     def reset_fill_defaults(self=None):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index 22032ea..a408d9d 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -88,6 +88,7 @@ class SeriesFillManager:
                 enum_ = PandasDtype[type_name]
                 previous_values[enum_] = self._fill_values[enum_]
                 self._fill_values[enum_] = default_value
+            yield
         finally:
             for enum_, original_value in previous_values.items():
                 self._fill_values[enum_] = original_value
-- 
2.43.0


From 0abcbfca2c64ef3a64c7312edc71683680d009c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 19/52] fix: do not set some of the fill defaults when a type
 name is invalid

---
 cheval/ldf/missing_data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index a408d9d..f30bc6c 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -75,9 +75,8 @@ class SeriesFillManager:
         return self._fill_values[dtype]
 
     def set_fill_defaults(self, **kwargs):
-        for type_name, default_value in kwargs.items():
-            enum_ = PandasDtype[type_name]
-            self._fill_values[enum_] = default_value
+        new_values = {PandasDtype[type_name]: default_value for type_name, default_value in kwargs.items()}
+        self._fill_values.update(new_values)
 
     @contextmanager
     def temporary_fill_defaults(self, **kwargs):
-- 
2.43.0


From 6a705e3b56e56ffd54d7bde5c1c16499a6ad9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 20/52] fix: apply class-level fill defaults to new
 LinkedDataFrames, as documented

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 07ab0a7..470928f 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -266,7 +266,7 @@ class LinkedDataFrame(DataFrame):
 
         object.__setattr__(self, '_links', {})
         object.__setattr__(self, '_identified_links', set())
-        object.__setattr__(self, '_instance_filler', SeriesFillManager())
+        object.__setattr__(self, '_instance_filler', LinkedDataFrame._class_filler.copy())
         object.__setattr__(self, '_column_fills', {})
 
     def link_to(self, other: DataFrame, name: str, *, on: _LabelType = None, levels: _LabelType = None,
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index f30bc6c..8932ffb 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -92,5 +92,10 @@ class SeriesFillManager:
             for enum_, original_value in previous_values.items():
                 self._fill_values[enum_] = original_value
 
+    def copy(self) -> SeriesFillManager:
+        copied = SeriesFillManager()
+        copied._fill_values = self._fill_values.copy()
+        return copied
+
     def reset_fill_defaults(self):
         self._fill_values = _default_fills.copy()
-- 
2.43.0


From c75feebb5b8facf6c647fb4b88adb319b9d86506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 21/52] fix: recompute the unmatched rows of a link together
 with its indexer

Refreshing a link kept the old list of unmatched rows, so newly matched rows kept
their fill values.
---
 cheval/ldf/api.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 470928f..2cd75ef 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -151,23 +151,21 @@ class _LinkMeta:
         return self.self_meta.get_indexer(self.owner), self.other_meta.get_indexer(self.other)
 
     def _make_indexer(self, self_indexer: Index, other_indexer: Index):
+        group_ints = None
         if self.aggregation_required:
             group_ints, group_order = other_indexer.factorize()
-            self.other_grouper = group_ints
-            self.flat_indexer = group_order.get_indexer(self_indexer)
+            flat_indexer = group_order.get_indexer(self_indexer)
         else:  # Performance-tuned fast paths for constructing indexers
             if self_indexer.equals(other_indexer):  # Indexers are identical
-                self.flat_indexer = np.arange(len(other_indexer))
+                flat_indexer = np.arange(len(other_indexer))
             else:
                 # Originally, different logic was used if the self indexer didn't map cleanly onto the other indexer
                 # (the other was missing values, or the self had NaNs).
                 # Those were combined into a single case for performance purposes
-                self.flat_indexer = other_indexer.get_indexer(self_indexer)
+                flat_indexer = other_indexer.get_indexer(self_indexer)
 
-    def _compute_missing_indices(self):
-        """Initializes `missing_indices` by finding the rows which do not have any linkages
-        """
-        self._missing_indices = np.nonzero(self.flat_indexer == -1)[0]
+        # These always need to change together
+        self.other_grouper, self._missing_indices, self.flat_indexer = group_ints, None, flat_indexer
 
     @property
     def chained(self) -> bool:
@@ -177,9 +175,11 @@ class _LinkMeta:
     def indexer_and_missing(self) -> Tuple[np.ndarray, np.ndarray]:
         if self.flat_indexer is None:
             self.precompute()
-        if self._missing_indices is None:
-            self._compute_missing_indices()
-        return self.flat_indexer, self._missing_indices
+        flat_indexer, missing_indices = self.flat_indexer, self._missing_indices
+        if missing_indices is None:  # Find the rows which do not have any linkages
+            missing_indices = np.nonzero(flat_indexer == -1)[0]
+            self._missing_indices = missing_indices
+        return flat_indexer, missing_indices
 
     def precompute(self):
         """Top-level method to precompute the indexer"""
-- 
2.43.0


From d2cf17307c33654aa1a9f3113fbe6164adb54425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 22/52] fix: compute deferred links before aggregating over
 them

---
 cheval/ldf/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 2cd75ef..dcc466c 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -536,6 +536,7 @@ class LinkedDataFrame(DataFrame):
 
             def __call__(self, expr='1', *, int_fill=-1, **kwargs):
                 top = self._owner._top
+                top.indexer_and_missing  # Compute the link if not done already, since the grouping is needed below
                 df = top.other
 
                 if expr in df.columns:  # Shortcut if the expression just refers to a column name
-- 
2.43.0


From 4d8aa58c408b03d1da7b24db86ab647875314da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 23/52] fix: align aggregations over links with missing keys or
 omitted groups

Rows with a missing key formed a first group of their own, which shifted the results
of all others by one; nth() left out short groups; and unmatched rows could not be
filled when a count, first or last of non-integers gave integers.
---
 cheval/ldf/api.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index dcc466c..dd3309a 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -11,6 +11,7 @@ import numexpr as ne
 import numpy as np
 import pandas as pd
 from pandas import DataFrame, Index, MultiIndex, Series
+from pandas.api.types import is_integer_dtype
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
 from ..parsing.expr_items import EvaluationMode
@@ -563,7 +564,16 @@ class LinkedDataFrame(DataFrame):
 
                 # Aggregate and align the result
                 grouper = top.other_grouper
-                grouped_result = to_numpy(getattr(evaluation.groupby(grouper), self._func_name)(**kwargs))
+                grouped_result = getattr(evaluation.groupby(grouper), self._func_name)(**kwargs)
+
+                # The filler also depends on the aggregation, e.g. counting always results in integers
+                if is_integer_dtype(grouped_result.dtype):
+                    fill_value = int_fill
+
+                # Groups are numbered from 0 without gaps, except that rows with missing keys are numbered -1 and that
+                # some aggregations leave out groups
+                n_groups = grouper.max(initial=-1) + 1
+                grouped_result = to_numpy(grouped_result.reindex(np.arange(n_groups), fill_value=fill_value))
 
                 return self._owner._resolve_history(grouped_result, fill_value)
 
-- 
2.43.0


From 9a550063405ac0db5780a8d3337b60e62834606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 24/52] fix: allow lookups over links to empty tables

---
 cheval/ldf/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index dd3309a..2ee141b 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -464,7 +464,10 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
-                series = series[indexer]  # Reorder/duplicate/drop the raw array
+                if len(series) == 0 and isinstance(series, np.ndarray):  # Nothing can match
+                    series = np.empty(len(indexer), dtype=series.dtype)
+                else:
+                    series = series[indexer]  # Reorder/duplicate/drop the raw array
                 series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
 
-- 
2.43.0


From 9168c525b7c934ff893b6c465ad75d496c8de2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 25/52] fix: do not register a link whose name is refused

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 2ee141b..63870c6 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -351,9 +351,9 @@ class LinkedDataFrame(DataFrame):
 
         link_data = _LinkMeta.create(self, other, self_labels, self_from_index, other_labels, other_from_index,
                                      precompute)
-        self._links[name] = link_data
         if name.isidentifier():
             self._identified_links.add(name)
+        self._links[name] = link_data
 
         return LinkAggregationRequired.YES if link_data.aggregation_required else LinkAggregationRequired.NO
 
-- 
2.43.0


From 7c4138d9347d5b264d63eb21654423929c847001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 26/52] fix: re-establish links of derived frames from their
 own rows

Frames derived by sorting, taking, sampling, reindexing, filtering and so on kept
links computed for the rows of the original frame, so lookups failed or silently
returned the values of other rows; deferred links did so for nearly all slices.
Links now follow the known positions, else the keys of the derived frame, and are
dropped if neither is possible.
---
 cheval/ldf/api.py | 133 ++++++++++++++++++++++++++++------------------
 1 file changed, 82 insertions(+), 51 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 63870c6..32118a1 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -10,7 +10,7 @@ import attr
 import numexpr as ne
 import numpy as np
 import pandas as pd
-from pandas import DataFrame, Index, MultiIndex, Series
+from pandas import DataFrame, Index, MultiIndex, RangeIndex, Series
 from pandas.api.types import is_integer_dtype
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
@@ -74,6 +74,20 @@ class _IndexMeta:
             return Index(arrays[0], name=name)
         return MultiIndex.from_arrays(arrays, names=self.labels)
 
+    @property
+    def uses_index(self) -> bool:
+        return self.labels is None or self.from_row_labels
+
+    def is_available(self, frame: DataFrame, parent: DataFrame) -> bool:
+        """Checks that a frame derived from a parent frame still has the keys"""
+        if not self.uses_index:
+            return all((frame.columns == label).sum() == 1 for label in self.labels)
+        if frame.index is parent.index:
+            return True
+        if isinstance(frame.index, RangeIndex):
+            return False  # Most likely, the original labels were reset
+        return list(frame.index.names) == list(parent.index.names)
+
     def nlevels(self, frame: DataFrame) -> int:
         if self.labels is None:
             return frame.index.nlevels
@@ -100,6 +114,7 @@ class _LinkMeta:
     flat_indexer: Optional[np.ndarray]
     other_grouper: Optional[np.ndarray]
     _missing_indices: Optional[Union[np.ndarray, List]]
+    _source: Optional[Tuple[_LinkMeta, Any]]
 
     @staticmethod
     def create(owner: LinkedDataFrame, other: Union[LinkedDataFrame, DataFrame], self_labels: Union[List[str], str],
@@ -127,6 +142,7 @@ class _LinkMeta:
         self.flat_indexer = None
         self.other_grouper = None
         self._missing_indices = None
+        self._source = None
 
     def _determine_aggregation(self, precompute):
         self_indexer = self.self_meta.get_indexer(self.owner)
@@ -175,7 +191,7 @@ class _LinkMeta:
     @property
     def indexer_and_missing(self) -> Tuple[np.ndarray, np.ndarray]:
         if self.flat_indexer is None:
-            self.precompute()
+            self.compute()
         flat_indexer, missing_indices = self.flat_indexer, self._missing_indices
         if missing_indices is None:  # Find the rows which do not have any linkages
             missing_indices = np.nonzero(flat_indexer == -1)[0]
@@ -183,29 +199,58 @@ class _LinkMeta:
         return flat_indexer, missing_indices
 
     def precompute(self):
-        """Top-level method to precompute the indexer"""
-        self._make_indexer(*self._get_indexers())
+        """Top-level method to precompute the indexer from the current keys of both frames"""
+        try:
+            indexers = self._get_indexers()
+        except LinkageSpecificationError:
+            if self.flat_indexer is None and self._source is None:
+                raise
+            self.compute()  # The owner doesn't have its own keys, so there's nothing to refresh
+            return
+        self._make_indexer(*indexers)
+
+    def compute(self):
+        """Computes the indexer if that was not already done. The owner's rows may be a slice of another frame for which
+        the link wasn't computed, in which case the result is the same slice of the indexer of that frame."""
+        if self.flat_indexer is not None:
+            return
+        if self._source is None:
+            self.precompute()
+            return
+        source, indices = self._source
+        source.compute()
+        self._slice_indexer(source, indices)
+
+    def _slice_indexer(self, source: _LinkMeta, indices):
+        flat_indexer = source.flat_indexer if indices is None else source.flat_indexer[indices]
+        self.other_grouper, self._missing_indices, self.flat_indexer = source.other_grouper, None, flat_indexer
 
-    def copy_meta(self) -> _LinkMeta:
-        copied = _LinkMeta(self.owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
+    def copy_meta(self, owner: LinkedDataFrame) -> _LinkMeta:
+        copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
         copied.aggregation_required = self.aggregation_required
         return copied
 
-    def copy(self, indices=None) -> _LinkMeta:
-        copied = self.copy_meta()
-
-        if self.flat_indexer is not None:
-            copied.flat_indexer = self.flat_indexer[indices] if indices is not None else self.flat_indexer
-
-        # If we are not taking a slice, copy missing indices (if they exist)
-        # If we are taking a slice, leave missing indices to be lazy-computed
-        if indices is None:
-            copied._missing_indices = self._missing_indices
+    def copy(self, owner: LinkedDataFrame, indices=None) -> _LinkMeta:
+        """Copies the link for a frame whose rows are a known (positional) slice of the rows of this link's owner"""
+        copied = self.copy_meta(owner)
+        if self.flat_indexer is None:
+            copied._source = (self, indices)
+        else:
+            copied._slice_indexer(self, indices)
+        return copied
 
-        if self.other_grouper is not None:
-            copied.other_grouper = self.other_grouper
+    def derive(self, parent: LinkedDataFrame, owner: LinkedDataFrame) -> Optional[_LinkMeta]:
+        """Copies the link for a frame which originates from the parent frame in an unknown way. The keys are used to
+        re-establish the link, because the frame may have different rows than the parent or have them in another order.
 
-        return copied
+        Returns:
+            None if the link cannot be re-established.
+        """
+        if self.self_meta.is_available(owner, parent):
+            return self.copy_meta(owner)
+        if owner.index is parent.index:
+            return self.copy(owner)
+        return None
 
 
 class LinkedDataFrame(DataFrame):
@@ -633,36 +678,22 @@ class LinkedDataFrame(DataFrame):
             return self
 
         # Copy the link metadata from the parent dataframe
-        # Note that as of pandas 1.5, the names of the methods is not considered stable
-        # and may change in future versions.
-        if method == "groupby":
-            self._copy_links(other, reindex=True)
-        else:
-            for link_name, link in other._links.items():
-                self._links[link_name] = link.copy_meta()
-            self._identified_links = other._identified_links.copy()
+        derived_links = {}
+        for link_name, link in other._links.items():
+            derived = link.derive(other, self)
+            if derived is not None:
+                derived_links[link_name] = derived
+        self.__set_links(derived_links)
 
         return self
 
-    def _copy_links(self, parent: LinkedDataFrame, reindex: bool = False):
-        """Copies linkage information from a parent dataframe
+    def __set_links(self, links: Dict[str, _LinkMeta]):
+        object.__setattr__(self, '_links', links)
+        object.__setattr__(self, '_identified_links', {name for name in links if name.isidentifier()})
 
-        If `reindex` is True, computes an indexer based on the parent DataFrame's and
-        this DataFrame's indexes and passes it to `_LinkMeta.copy` to modify the linkage.
-        """
-        if reindex:
-            indexer = parent.index.get_indexer(self.index)
-        else:
-            indexer = None
-        link_names = set()
-        for link_name, link in parent._links.items():
-            self._links[link_name] = link.copy(indexer)
-            link_names.add(link_name)
-        self._identified_links = link_names
-
-    def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray):
-        for link_name, link_entry in self._links.items():
-            target._links[link_name] = link_entry.copy(indexer)
+    def __subset_links(self, target: LinkedDataFrame, indexer: Union[np.ndarray, slice] = None):
+        target.__set_links({link_name: link_entry.copy(target, indexer)
+                            for link_name, link_entry in self._links.items()})
 
     def _take_with_is_copy(self, indices, axis=0):  # pandas >= 1.0.x
         sliced: LinkedDataFrame = super()._take_with_is_copy(indices, axis=axis)
@@ -681,7 +712,8 @@ class LinkedDataFrame(DataFrame):
 
         if isinstance(new_frame, LinkedDataFrame) and (0 in reindexers):
             _, indexer = reindexers[0]
-            self.__subset_links(new_frame, indexer)
+            if indexer is None or np.all(np.asarray(indexer) >= 0):  # Otherwise, there are additional rows
+                self.__subset_links(new_frame, indexer)
         return new_frame
 
     def _slice(self, slobj, axis=0, kind=None):
@@ -695,10 +727,7 @@ class LinkedDataFrame(DataFrame):
     def copy(self, deep=False) -> LinkedDataFrame:
         copied = super().copy(deep=deep)
 
-        # Copy the link data
-        for link_name, link_entry in self._links.items():
-            copied._links[link_name] = link_entry.copy()
-
+        self.__subset_links(copied)  # Copy the link data
         return copied
 
     # endregion
@@ -800,8 +829,10 @@ class LinkedDataFrame(DataFrame):
                 to be re-computed.
         """
         for entry in self._links.values():
-            if refresh or entry.flat_indexer is None:
+            if refresh:
                 entry.precompute()
+            else:
+                entry.compute()
 
     def pivot_table(self, values=None, index=None, columns=None, **kwargs):
         # Construct a new DataFrame from any of the columns or lookups specified
-- 
2.43.0


From 19341160de81c4bc6d296b95a0e8bb75adec2a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 27/52] fix: keep links aligned when a frame is modified
 in-place

---
 cheval/ldf/api.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 32118a1..0292be9 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -724,6 +724,25 @@ class LinkedDataFrame(DataFrame):
             self.__subset_links(new_frame, slobj)
         return new_frame
 
+    def _update_inplace(self, result, *args, **kwargs):
+        # The rows of `result` may be different from the rows of this frame, which all existing links refer to
+        if isinstance(result, LinkedDataFrame) and result is not self:
+            if not result._links:
+                result.__finalize__(self)
+            for link_entry in result._links.values():
+                link_entry.compute()  # Might refer to the current rows
+            super()._update_inplace(result, *args, **kwargs)
+            result.__subset_links(self)
+        else:
+            super()._update_inplace(result, *args, **kwargs)
+
+    def _set_axis(self, axis, labels):
+        # Changing the row labels in-place doesn't affect existing links, so those need to be computed beforehand
+        for link_entry in self.__dict__.get('_links', {}).values():
+            if link_entry.self_meta.uses_index:
+                link_entry.compute()
+        super()._set_axis(axis, labels)
+
     def copy(self, deep=False) -> LinkedDataFrame:
         copied = super().copy(deep=deep)
 
-- 
2.43.0


From e8dc93849d20ec7dbbe1762618515682c2dfb0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 28/52] fix: allow lists of columns in pivot_table()

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 0292be9..da3a363 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -886,7 +886,7 @@ class LinkedDataFrame(DataFrame):
                 new_columns[lookup_items] = self.evaluate(lookup_items)
         elif (lookup_items is not None) and not isinstance(lookup_items, (pd.Series, np.ndarray)):
             for item in lookup_items:
-                if lookup_items in self.columns:
+                if item in self.columns:
                     new_columns[item] = self[item]
                 else:
                     new_columns[item] = self.evaluate(item)
-- 
2.43.0


From 42e2f8a6381f8d69adfc0377c71dd9d8a106c92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 29/52] fix: do not fail to import when a git command fails or
 prints something unexpected

---
 cheval/_version.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cheval/_version.py b/cheval/_version.py
index 84509c7..0053abc 100644
--- a/cheval/_version.py
+++ b/cheval/_version.py
@@ -93,7 +93,7 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         if verbose:
             print("unable to find command, tried %s" % (commands,))
         return None, None
-    stdout = p.communicate()[0].strip().decode()
+    stdout = p.communicate()[0].strip().decode(errors="replace")
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
@@ -297,11 +297,16 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None or not count_out.isdecimal():
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
     date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+                       cwd=root)[0]
+    if not date:
+        pieces["date"] = None
+        return pieces
     # Use only the last line.  Previous lines may contain GPG signature
     # information.
     date = date.splitlines()[-1]
-- 
2.43.0


From 80f93d6cab428e69bb32977275c3dc1cdd953a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 30/52] fix: keep the explicit value of a nest in literals that
 also name its children

---
 cheval/parsing/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/expressions.py b/cheval/parsing/expressions.py
index a30ed9c..6ef8069 100644
--- a/cheval/parsing/expressions.py
+++ b/cheval/parsing/expressions.py
@@ -100,8 +100,9 @@ class Expression(object):
                 locs = choice_index.get_loc(tuple(new_key))
                 parent_loc = choice_index.get_loc(tuple(new_key + delta))
 
+                parent_val = new_array[0, parent_loc]  # Might have been given explicitly
                 new_array[0, locs] = val
-                new_array[0, parent_loc] = 0
+                new_array[0, parent_loc] = parent_val
             else:
                 loc = choice_index.get_loc(tuple(new_key + delta))
                 new_array[0, loc] = val
-- 
2.43.0


From 75f33d8378aa5cff225aee748f2cc66ec953f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 31/52] fix: keep partial utilities when a new choice is
 refused

---
 cheval/model.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 12710dd..f47fb83 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -112,11 +112,6 @@ class ChoiceModel(object):
         Returns:
             ChoiceNode: The added choice node, which also has an "add_choice" method for constructing nested models.
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         node = self._create_node(name, logsum_scale)
         self._top_nodes.add(node)
         return node
@@ -135,11 +130,6 @@ class ChoiceModel(object):
         Returns:
             dict: Mapping of name: ChoiceNode for the added nodes
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         names = list(names)
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
-- 
2.43.0


From 3417aff95205a305386b57807ab835b56db400f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 32/52] fix: compute deferred links of derived frames from the
 keys of their own rows, and not from labels replaced since

---
 cheval/ldf/api.py | 72 +++++++++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index da3a363..f241a76 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -114,7 +114,7 @@ class _LinkMeta:
     flat_indexer: Optional[np.ndarray]
     other_grouper: Optional[np.ndarray]
     _missing_indices: Optional[Union[np.ndarray, List]]
-    _source: Optional[Tuple[_LinkMeta, Any]]
+    _relabelled: bool
 
     @staticmethod
     def create(owner: LinkedDataFrame, other: Union[LinkedDataFrame, DataFrame], self_labels: Union[List[str], str],
@@ -142,7 +142,7 @@ class _LinkMeta:
         self.flat_indexer = None
         self.other_grouper = None
         self._missing_indices = None
-        self._source = None
+        self._relabelled = False  # The owner has got other labels since, which are not the keys
 
     def _determine_aggregation(self, precompute):
         self_indexer = self.self_meta.get_indexer(self.owner)
@@ -203,27 +203,32 @@ class _LinkMeta:
         try:
             indexers = self._get_indexers()
         except LinkageSpecificationError:
-            if self.flat_indexer is None and self._source is None:
+            if self.flat_indexer is None:
                 raise
-            self.compute()  # The owner doesn't have its own keys, so there's nothing to refresh
-            return
+            return  # The owner doesn't have its own keys, so there's nothing to refresh
         self._make_indexer(*indexers)
+        self._relabelled = False
 
     def compute(self):
-        """Computes the indexer if that was not already done. The owner's rows may be a slice of another frame for which
-        the link wasn't computed, in which case the result is the same slice of the indexer of that frame."""
-        if self.flat_indexer is not None:
-            return
-        if self._source is None:
+        """Computes the indexer if that was not already done"""
+        if self.flat_indexer is None:
             self.precompute()
-            return
-        source, indices = self._source
-        source.compute()
-        self._slice_indexer(source, indices)
 
-    def _slice_indexer(self, source: _LinkMeta, indices):
-        flat_indexer = source.flat_indexer if indices is None else source.flat_indexer[indices]
-        self.other_grouper, self._missing_indices, self.flat_indexer = source.other_grouper, None, flat_indexer
+    def settle(self):
+        """Computes the indexer if that is possible, before the keys of the owner are removed or relabelled"""
+        try:
+            self.compute()
+        except LinkageSpecificationError:
+            pass
+
+    def check_relabelled(self, previous_index: Index, previous_columns: Index):
+        """Called after the axes of the owner were relabelled"""
+        if self.self_meta.uses_index:
+            changed = not previous_index.equals(self.owner.index)
+        else:
+            changed = any(np.any((previous_columns == label) != (self.owner.columns == label))
+                          for label in self.self_meta.labels)
+        self._relabelled = self._relabelled or changed
 
     def copy_meta(self, owner: LinkedDataFrame) -> _LinkMeta:
         copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
@@ -234,9 +239,12 @@ class _LinkMeta:
         """Copies the link for a frame whose rows are a known (positional) slice of the rows of this link's owner"""
         copied = self.copy_meta(owner)
         if self.flat_indexer is None:
-            copied._source = (self, indices)
-        else:
-            copied._slice_indexer(self, indices)
+            if self.self_meta.uses_index or self.self_meta.is_available(owner, self.owner):
+                return copied  # Will be computed from the keys of the slice
+            self.compute()
+        copied._relabelled = self._relabelled
+        flat_indexer = self.flat_indexer if indices is None else self.flat_indexer[indices]
+        copied.other_grouper, copied.flat_indexer = self.other_grouper, flat_indexer
         return copied
 
     def derive(self, parent: LinkedDataFrame, owner: LinkedDataFrame) -> Optional[_LinkMeta]:
@@ -246,7 +254,7 @@ class _LinkMeta:
         Returns:
             None if the link cannot be re-established.
         """
-        if self.self_meta.is_available(owner, parent):
+        if not self._relabelled and self.self_meta.is_available(owner, parent):
             return self.copy_meta(owner)
         if owner.index is parent.index:
             return self.copy(owner)
@@ -736,12 +744,26 @@ class LinkedDataFrame(DataFrame):
         else:
             super()._update_inplace(result, *args, **kwargs)
 
+    # Changing or deleting labels in-place doesn't affect existing links, so those need to be computed beforehand
+
     def _set_axis(self, axis, labels):
-        # Changing the row labels in-place doesn't affect existing links, so those need to be computed beforehand
-        for link_entry in self.__dict__.get('_links', {}).values():
-            if link_entry.self_meta.uses_index:
-                link_entry.compute()
+        links = self.__dict__.get('_links')
+        if not links:
+            super()._set_axis(axis, labels)
+            return
+
+        for link_entry in links.values():
+            link_entry.settle()
+        index, columns = self.index, self.columns
         super()._set_axis(axis, labels)
+        for link_entry in links.values():
+            link_entry.check_relabelled(index, columns)
+
+    def __delitem__(self, key):
+        for link_entry in self._links.values():
+            if not link_entry.self_meta.uses_index and key in link_entry.self_meta.labels:
+                link_entry.settle()
+        super().__delitem__(key)
 
     def copy(self, deep=False) -> LinkedDataFrame:
         copied = super().copy(deep=deep)
-- 
2.43.0


From 22b580aa216ed040ab2d2a919e60354f2bc7cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 33/52] fix: never match partially missing keys when
 aggregating

---
 cheval/ldf/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index f241a76..c071371 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -172,6 +172,9 @@ class _LinkMeta:
         if self.aggregation_required:
             group_ints, group_order = other_indexer.factorize()
             flat_indexer = group_order.get_indexer(self_indexer)
+            if isinstance(self_indexer, MultiIndex):  # Partially missing keys are no matches, like missing keys
+                levels = [self_indexer.get_level_values(k) for k in range(self_indexer.nlevels)]
+                flat_indexer[np.any([level.isna() for level in levels], axis=0)] = -1
         else:  # Performance-tuned fast paths for constructing indexers
             if self_indexer.equals(other_indexer):  # Indexers are identical
                 flat_indexer = np.arange(len(other_indexer))
-- 
2.43.0


From be32e903456fee0f17671bdacb746bed72e6de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 34/52] fix: make unpickled LinkedDataFrames usable

---
 cheval/ldf/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index c071371..fcf0f52 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -320,7 +320,13 @@ class LinkedDataFrame(DataFrame):
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
+        self.__init_links()
 
+    def __setstate__(self, state):
+        super().__setstate__(state)
+        self.__init_links()  # Links and fill values are not pickled
+
+    def __init_links(self):
         object.__setattr__(self, '_links', {})
         object.__setattr__(self, '_identified_links', set())
         object.__setattr__(self, '_instance_filler', LinkedDataFrame._class_filler.copy())
-- 
2.43.0


From 52eeb0f9742ce886ceff48252184ac7b32702324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 35/52] fix: do not truncate fill values to the type of integer
 and boolean columns

---
 cheval/ldf/api.py          |  4 +++-
 cheval/ldf/missing_data.py | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index fcf0f52..33d7e5e 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -18,7 +18,7 @@ from ..parsing.expr_items import EvaluationMode
 from ..parsing.expressions import Expression
 from ..utils import convert_series, to_numpy
 from .constants import LinkageSpecificationError, LinkAggregationRequired
-from .missing_data import PandasDtype, SeriesFillManager, infer_dtype
+from .missing_data import PandasDtype, SeriesFillManager, infer_dtype, promote_for_fill
 
 _LabelType = Union[str, List[str]]
 
@@ -530,6 +530,8 @@ class LinkedDataFrame(DataFrame):
                     series = np.empty(len(indexer), dtype=series.dtype)
                 else:
                     series = series[indexer]  # Reorder/duplicate/drop the raw array
+                if len(missing) > 0:
+                    series = promote_for_fill(series, fill_value)
                 series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
 
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index 8932ffb..582c4c8 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 from contextlib import contextmanager
 from enum import Enum
+from numbers import Integral, Number
 from typing import Any, Dict
 
 import numpy as np
@@ -52,6 +53,22 @@ def infer_dtype(s: pd.Series) -> PandasDtype:
     return PandasDtype.OBJ_NAME
 
 
+def promote_for_fill(array, fill_value):
+    """Converts an array of integers or booleans to a type that can hold the fill value, if its own type can't"""
+    if not isinstance(array, np.ndarray) or array.dtype.kind not in 'biu':
+        return array
+
+    if isinstance(fill_value, (bool, np.bool_)):
+        return array
+    if not isinstance(fill_value, Number):
+        return array.astype(object)
+    if array.dtype.kind != 'b' and isinstance(fill_value, Integral):
+        bounds = np.iinfo(array.dtype)
+        if bounds.min <= fill_value <= bounds.max:
+            return array
+    return array.astype(np.result_type(array.dtype, type(fill_value)))
+
+
 _default_fills = {
     PandasDtype.INT_NAME: 0, PandasDtype.UINT_NAME: 0, PandasDtype.FLOAT_NAME: np.nan, PandasDtype.BOOL_NAME: False,
     PandasDtype.TEXT_NAME: '', PandasDtype.CAT_NAME: np.nan, PandasDtype.TIME_NAME: np.datetime64('nat'),
-- 
2.43.0


From 0562025b2b3f07fdb0cc6803d2b5984859b488a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 36/52] fix: accept single levels given as integers, as
 documented

---
 cheval/ldf/api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 33d7e5e..cff9eab 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -11,7 +11,7 @@ import numexpr as ne
 import numpy as np
 import pandas as pd
 from pandas import DataFrame, Index, MultiIndex, RangeIndex, Series
-from pandas.api.types import is_integer_dtype
+from pandas.api.types import is_integer_dtype, is_list_like
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
 from ..parsing.expr_items import EvaluationMode
@@ -34,10 +34,10 @@ class _IndexMeta:
     from_row_labels: bool = attr.ib()
 
     def __init__(self, labels: Union[str, List[str]] = None, from_row_labels: bool = True):
-        if isinstance(labels, str):
-            labels = [labels]
-        elif labels is None:
+        if labels is None:
             from_row_labels = True
+        elif not is_list_like(labels):
+            labels = [labels]
         self.labels = labels
         self.from_row_labels = from_row_labels
 
-- 
2.43.0


From 06eace5e4bdb6ead883fee28d6788fd5bcf61f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 37/52] fix: do not share data with copies by default, since
 pandas modifies them in operations which are not in-place

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index cff9eab..1799602 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -776,7 +776,7 @@ class LinkedDataFrame(DataFrame):
                 link_entry.settle()
         super().__delitem__(key)
 
-    def copy(self, deep=False) -> LinkedDataFrame:
+    def copy(self, deep=True) -> LinkedDataFrame:
         copied = super().copy(deep=deep)
 
         self.__subset_links(copied)  # Copy the link data
-- 
2.43.0


From 9554223dbe72c79d12bb46b745e144803dd0dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 38/52] fix: allow empty positional indexers on linked frames

---
 cheval/ldf/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 1799602..618b9c6 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -246,6 +246,8 @@ class _LinkMeta:
                 return copied  # Will be computed from the keys of the slice
             self.compute()
         copied._relabelled = self._relabelled
+        if indices is not None and not isinstance(indices, slice):
+            indices = np.asarray(indices, dtype=np.intp)  # Empty indexers can be of any type
         flat_indexer = self.flat_indexer if indices is None else self.flat_indexer[indices]
         copied.other_grouper, copied.flat_indexer = self.other_grouper, flat_indexer
         return copied
-- 
2.43.0


From 9a8b1b5163c831886e9ce80e8126b9fc0f89276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 39/52] fix: allow lookups of categories and dates over links
 to empty tables

---
 cheval/ldf/api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 618b9c6..9518475 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -528,8 +528,11 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
-                if len(series) == 0 and isinstance(series, np.ndarray):  # Nothing can match
-                    series = np.empty(len(indexer), dtype=series.dtype)
+                if len(series) == 0:  # Nothing can match
+                    if isinstance(series, np.ndarray):
+                        series = np.empty(len(indexer), dtype=series.dtype)
+                    else:
+                        series = series.take(indexer, allow_fill=True)
                 else:
                     series = series[indexer]  # Reorder/duplicate/drop the raw array
                 if len(missing) > 0:
-- 
2.43.0


From 63d47c12a43ceb5645d401788252187fef98b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 40/52] fix: never match unknown keys with partially missing
 keys

---
 cheval/ldf/api.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 9518475..5c9c229 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -171,11 +171,9 @@ class _LinkMeta:
         group_ints = None
         if self.aggregation_required:
             group_ints, group_order = other_indexer.factorize()
-            flat_indexer = group_order.get_indexer(self_indexer)
-            if isinstance(self_indexer, MultiIndex):  # Partially missing keys are no matches, like missing keys
-                levels = [self_indexer.get_level_values(k) for k in range(self_indexer.nlevels)]
-                flat_indexer[np.any([level.isna() for level in levels], axis=0)] = -1
+            other_keys, flat_indexer = group_order, group_order.get_indexer(self_indexer)
         else:  # Performance-tuned fast paths for constructing indexers
+            other_keys = other_indexer
             if self_indexer.equals(other_indexer):  # Indexers are identical
                 flat_indexer = np.arange(len(other_indexer))
             else:
@@ -184,6 +182,11 @@ class _LinkMeta:
                 # Those were combined into a single case for performance purposes
                 flat_indexer = other_indexer.get_indexer(self_indexer)
 
+        if isinstance(other_keys, MultiIndex):  # Pandas matches (partially) missing keys with any unknown key
+            levels = [other_keys.get_level_values(k) for k in range(other_keys.nlevels)]
+            has_key = ~np.any([level.isna() for level in levels], axis=0)
+            flat_indexer = np.where(np.append(has_key, False)[flat_indexer], flat_indexer, -1)
+
         # These always need to change together
         self.other_grouper, self._missing_indices, self.flat_indexer = group_ints, None, flat_indexer
 
-- 
2.43.0


From 7d4254506f159a9ac8ac36d94233fb8b93c87b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 41/52] fix: refuse links with unknown level numbers like those
 with unknown level names

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 5c9c229..34c3212 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -60,7 +60,7 @@ class _IndexMeta:
                 # integer levels AND level names
                 try:
                     arrays.append(frame.index.get_level_values(label))
-                except KeyError:
+                except (KeyError, IndexError):
                     raise LinkageSpecificationError(f'Level `{label}` not in the index')
         else:
             for label in self.labels:
-- 
2.43.0


From be0b9178dd86220b89c3aa4ed474965dbcb8a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 42/52] fix: allow operations on frames which have lost the
 keys of a deferred link

---
 cheval/ldf/api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 34c3212..4ef950b 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -247,7 +247,9 @@ class _LinkMeta:
         if self.flat_indexer is None:
             if self.self_meta.uses_index or self.self_meta.is_available(owner, self.owner):
                 return copied  # Will be computed from the keys of the slice
-            self.compute()
+            self.settle()
+            if self.flat_indexer is None:
+                return copied
         copied._relabelled = self._relabelled
         if indices is not None and not isinstance(indices, slice):
             indices = np.asarray(indices, dtype=np.intp)  # Empty indexers can be of any type
@@ -757,7 +759,7 @@ class LinkedDataFrame(DataFrame):
             if not result._links:
                 result.__finalize__(self)
             for link_entry in result._links.values():
-                link_entry.compute()  # Might refer to the current rows
+                link_entry.settle()  # Might refer to the current rows
             super()._update_inplace(result, *args, **kwargs)
             result.__subset_links(self)
         else:
-- 
2.43.0


From 877dd8172d7ff747bf7962733bc0ef5ca7ecd85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 43/52] fix: never match unknown keys with missing categorical
 keys

---
 cheval/ldf/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 4ef950b..a94d7db 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -10,7 +10,7 @@ import attr
 import numexpr as ne
 import numpy as np
 import pandas as pd
-from pandas import DataFrame, Index, MultiIndex, RangeIndex, Series
+from pandas import CategoricalIndex, DataFrame, Index, MultiIndex, RangeIndex, Series
 from pandas.api.types import is_integer_dtype, is_list_like
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
@@ -182,7 +182,8 @@ class _LinkMeta:
                 # Those were combined into a single case for performance purposes
                 flat_indexer = other_indexer.get_indexer(self_indexer)
 
-        if isinstance(other_keys, MultiIndex):  # Pandas matches (partially) missing keys with any unknown key
+        if isinstance(other_keys, (MultiIndex, CategoricalIndex)):
+            # Pandas matches (partially) missing keys of these types with any unknown key
             levels = [other_keys.get_level_values(k) for k in range(other_keys.nlevels)]
             has_key = ~np.any([level.isna() for level in levels], axis=0)
             flat_indexer = np.where(np.append(has_key, False)[flat_indexer], flat_indexer, -1)
-- 
2.43.0


From b506bffd478129e9bb6dce2e19255d7fc9cdaf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 44/52] fix: accept missing values of any kind as fill values
 of dates

---
 cheval/ldf/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index a94d7db..84fa8a8 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -530,6 +530,9 @@ class LinkedDataFrame(DataFrame):
             return self._history[0]
 
         def _resolve_history(self, series: np.ndarray, fill_value):
+            if isinstance(series, np.ndarray) and series.dtype.kind in 'mM' and pd.isna(fill_value):
+                fill_value = series.dtype.type('NaT')  # Numpy doesn't accept other missing values for dates
+
             for meta in self._history:
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
-- 
2.43.0


From e367799cf0e3e977395fbdef0825cabd7874cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 45/52] fix: do not convert fill values to the type of a column
 in which nothing is to be filled

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 84fa8a8..bd0fa99 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -546,7 +546,7 @@ class LinkedDataFrame(DataFrame):
                     series = series[indexer]  # Reorder/duplicate/drop the raw array
                 if len(missing) > 0:
                     series = promote_for_fill(series, fill_value)
-                series[missing] = fill_value  # Fill in missing values
+                    series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
 
         def __getattr__(self, item):
-- 
2.43.0


From 175682616d347421c9e0cbf3d2fdfd621df1f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:12 +0000
Subject: [PATCH 46/52] fix: do not fail to import when git reports a number of
 commits with too many digits

---
 cheval/_version.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cheval/_version.py b/cheval/_version.py
index 0053abc..883b207 100644
--- a/cheval/_version.py
+++ b/cheval/_version.py
@@ -287,7 +287,10 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = full_tag[len(tag_prefix):]
 
         # distance: number of commits since tag
-        pieces["distance"] = int(mo.group(2))
+        try:
+            pieces["distance"] = int(mo.group(2))
+        except ValueError:  # too many digits
+            raise NotThisMethod("'git describe' failed")
 
         # commit: short hex revision ID
         pieces["short"] = mo.group(3)
@@ -299,7 +302,10 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
                                     cwd=root)
         if count_out is None or not count_out.isdecimal():
             raise NotThisMethod("'git rev-list' failed")
-        pieces["distance"] = int(count_out)  # total number of commits
+        try:
+            pieces["distance"] = int(count_out)  # total number of commits
+        except ValueError:  # too many digits
+            raise NotThisMethod("'git rev-list' failed")
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
     date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-- 
2.43.0


From 9e8cbf82b34c6e3f545ae64da3164073affd5cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:29 +0000
Subject: [PATCH 47/52] fix: refuse linked tables and not plain ones where
 links are not allowed

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 7a8df36..0b30c37 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -367,7 +367,7 @@ class TableSymbol(AbstractSymbol):
         for column in self._mandatory_attributes:
             assert column in data, f"Mandatory attribute {column} not found in DataFrame"
 
-        if not self._allow_links and not isinstance(data, LinkedDataFrame):
+        if not self._allow_links and isinstance(data, LinkedDataFrame):
             raise TypeError(f"LinkedDataFrames not allowed for symbol {self._name}")
 
         self._table = data
-- 
2.43.0


From 53ca124bd54b3188dd920cecce58e1eaf94e85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 48/52] fix: accept nullable integer columns without missing
 values in expressions

---
 cheval/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/utils.py b/cheval/utils.py
index a32c411..322930a 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -27,7 +27,7 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         # need to deal with NA values in integer series in pandas >= 0.24
         # https://pandas.pydata.org/pandas-docs/stable/whatsnew/v1.0.0.html#arrays-integerarray-now-uses-pandas-na
         if np.all(~s.isna()):  # no NA values found
-            return s.to_numpy()[...]
+            return s.to_numpy(dtype=getattr(dtype, 'numpy_dtype', dtype))[...]  # IntegerArrays become objects otherwise
         else:  # if NA values are present, yet pandas keeps the series as an IntegerArray instead of float
             try:
                 return np.asarray(s, dtype='float')[...]
-- 
2.43.0


From cbb788cfbe52d6be0c84b9aa2535a354b68b4ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 49/52] fix: do not mix up lookups of symbols whose names end
 with digits

---
 cheval/parsing/expr_items.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/expr_items.py b/cheval/parsing/expr_items.py
index f94b627..3b8b082 100644
--- a/cheval/parsing/expr_items.py
+++ b/cheval/parsing/expr_items.py
@@ -24,7 +24,7 @@ class ChainedSymbol(object):
         return ChainTuple(chain, func, args, True)
 
     def _make_sub(self, *, prepend_at=False) -> str:
-        s1 = "__sub_%s%s" % (self._name, len(self._lookups))
+        s1 = "__sub_%s_%s" % (self._name, len(self._lookups))  # Separated, since names can end with digits
         if prepend_at:
             return '@' + s1
         return s1
-- 
2.43.0


From ab895fe7d8f01881738733ab8879dd3bbaf3f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 50/52] fix: keep the full precision of the values of
 dictionary literals

---
 cheval/parsing/ast_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index b0568fd..84ea910 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -187,9 +187,9 @@ class ExpressionParser(ast.NodeTransformer):
                 if isinstance(val_node, ast.UnaryOp):
                     assert isinstance(val_node.operand, ast.Num)
                     assert isinstance(val_node.op, ast.USub)
-                    new_val = np.float32(-val_node.operand.n)
+                    new_val = np.float64(-val_node.operand.n)
                 elif isinstance(val_node, ast.Num):
-                    new_val = np.float32(val_node.n)
+                    new_val = np.float64(val_node.n)
                 else:
                     raise ValueError()
 
-- 
2.43.0


From 633f6a64d2325390526e507c0c441b1ff8e643c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 51/52] fix: accept None as a missing value in expressions

---
 cheval/parsing/ast_transformer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 84ea910..b6a9940 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -207,6 +207,12 @@ class ExpressionParser(ast.NodeTransformer):
 
     # region Simple symbols
 
+    @staticmethod
+    def visit_constant(node):
+        if node.value is None:  # Not a name anymore in Python 3
+            return ast.Name(NAN_STR, ast.Load())
+        return node
+
     def visit_name(self, node):
         symbol_name = node.id
 
-- 
2.43.0


From f944093f5fc3a1125a89e10a9d090fbd0de63d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:06 +0000
Subject: [PATCH 52/52] fix: do not share groups of expressions with the
 operands of a sum

---
 cheval/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 0b30c37..05a6d42 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -210,9 +210,9 @@ class ExpressionGroup(object):
             if key_in_self and key_in_other:
                 new._subgroups[key] = self._subgroups[key] + other._subgroups[key]
             elif key_in_self:
-                new._subgroups[key] = self._subgroups[key]
+                new._subgroups[key] = ExpressionSubGroup(key) + self._subgroups[key]
             elif key_in_other:
-                new._subgroups[key] = other._subgroups[key]
+                new._subgroups[key] = ExpressionSubGroup(key) + other._subgroups[key]
 
         return new
 
-- 
2.43.0

