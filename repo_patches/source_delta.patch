From 9a1dfceb5951efafdecf13d4436c830bc3420c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:18 +0000
Subject: [PATCH 01/42] fix: keep simplex projections exact for entries of
 large magnitude

The threshold was computed from the raw entries, so that for entries beyond
about 1e15 the subtraction lost the unit sum altogether (the projection of
[1e18, 3e17] was [0, 0]); archetypal analysis of large-scale data then
returned weights and dictionaries whose rows did not sum to one.
---
 src/reor/simplex_projection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reor/simplex_projection.py b/src/reor/simplex_projection.py
index 3d69c12..bb7ddac 100644
--- a/src/reor/simplex_projection.py
+++ b/src/reor/simplex_projection.py
@@ -9,7 +9,11 @@ import numpy as np
 def simplex_project_vector(x, out=None):
     """Project vector onto standard simplex."""
 
-    sorted_x = np.sort(x)
+    # The projection is invariant under a uniform shift of the entries. Shifting
+    # the largest entry to zero avoids losing the unit sum to rounding when
+    # the entries are large.
+    x_max = np.max(x)
+    sorted_x = np.sort(x) - x_max
 
     n = sorted_x.size
 
@@ -19,7 +23,7 @@ def simplex_project_vector(x, out=None):
         if t_hat >= sorted_x[i]:
             break
 
-    return np.fmax(x - t_hat, 0, out=out)
+    return np.fmax((x - x_max) - t_hat, 0, out=out)
 
 
 def simplex_project_columns(A):
-- 
2.43.0


From 3808e5fdc3a1944bf070bf585f45871fa4c93eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:00 +0000
Subject: [PATCH 02/42] fix: tolerate (nearly) coincident samples in
 furthest-sum initialization

Rounding makes the squared kernel distance of nearly coincident samples
slightly negative; its square root is NaN, which breaks the sorting in
FurthestSum and selects arbitrary (often nearby) samples.
---
 src/reor/archetypal_analysis.py | 4 +++-
 src/reor/gpnh_convex_coding.py  | 4 +++-
 src/reor/mtd_convex_coding.py   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 67f1750..81cb2f9 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -71,10 +71,12 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    squared_distances = (
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
         np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+    # Rounding can give small negative values for (nearly) coincident samples.
+    dissimilarities = np.sqrt(np.maximum(squared_distances, 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 84490e5..f89408d 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -62,10 +62,12 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    squared_distances = (
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
         np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+    # Rounding can give small negative values for (nearly) coincident samples.
+    dissimilarities = np.sqrt(np.maximum(squared_distances, 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 78d7d81..2867cac 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -74,10 +74,12 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    squared_distances = (
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
         np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+    # Rounding can give small negative values for (nearly) coincident samples.
+    dissimilarities = np.sqrt(np.maximum(squared_distances, 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
-- 
2.43.0


From b85b6a3e02311dbc5b0686bf46ac9ad8e087c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:45 +0000
Subject: [PATCH 03/42] fix: initialize dictionaries and transition matrices as
 floating point arrays

With integer valued data the furthest-sum dictionary and the MTD transition
matrices inherited the integer type, so that in-place updates raised an error
and the random transition matrices were truncated to zero.
---
 src/reor/archetypal_analysis.py | 2 +-
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 81cb2f9..0664a96 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -82,7 +82,7 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
 
     dictionary = np.zeros((n_components, n_samples),
-                          dtype=kernel.dtype)
+                          dtype='f8')
     for i in range(n_components):
         dictionary[i, selected[i]] = 1
 
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index f89408d..8cbcccc 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -73,7 +73,7 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
 
     dictionary = np.zeros((n_components, n_features),
-                          dtype=kernel.dtype)
+                          dtype='f8')
     for i in range(n_components):
         dictionary[i] = data[selected[i]]
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 2867cac..4ca3fea 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -85,7 +85,7 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
 
     dictionary = np.zeros((n_components, n_features),
-                          dtype=kernel.dtype)
+                          dtype='f8')
     for i in range(n_components):
         dictionary[i] = data[selected[i]]
 
@@ -109,7 +109,7 @@ def _initialize_mtd_convex_coding_parameters_random(data, n_components,
     order_weights /= order_weights.sum()
 
     transition_matrices = np.empty((order, n_components, n_components),
-                                   dtype=data.dtype)
+                                   dtype='f8')
     for p in range(order):
         transition_matrices[p] = left_stochastic_matrix(
             (n_components, n_components), random_state=rng)
-- 
2.43.0


From 98d4002c09b4961aa2c93b414d4918a5b941f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:20 +0000
Subject: [PATCH 04/42] fix: do not mistake rounding errors for a cost increase

The monotonicity guard compared costs exactly, so that fits to valid data
aborted with a RuntimeError as soon as the cost could no longer be reduced
below its rounding error (exact factorizations, zero tolerance, data with
large magnitudes or offsets).
---
 src/reor/_validation.py             |  6 ++++++
 src/reor/archetypal_analysis.py     | 10 +++++++---
 src/reor/gpnh_convex_coding.py      | 10 +++++++---
 src/reor/gpnh_convex_coding_crom.py |  4 +++-
 src/reor/mtd_convex_coding.py       | 14 ++++++++++----
 5 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/reor/_validation.py b/src/reor/_validation.py
index f5f7177..657ff74 100644
--- a/src/reor/_validation.py
+++ b/src/reor/_validation.py
@@ -20,3 +20,9 @@ def _check_array_shape(A, shape, whom):
         raise ValueError(
             'Array with wrong shape passed to %s. '
             'Expected %s, but got %s' % (whom, shape, A.shape))
+
+
+def _cost_increased(new_cost, old_cost, scale):
+    """Check for a cost increase that cannot be attributed to rounding."""
+    rounding = 1e-10 * max(abs(scale), abs(old_cost))
+    return new_cost > old_cost + rounding
diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 0664a96..8abf781 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -18,7 +18,8 @@ from reor.furthest_sum import furthest_sum
 from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_check_unit_axis_sums, _check_array_shape,
+                              _cost_increased)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -636,6 +637,7 @@ class KernelAA():
 
         old_cost = self._evaluate_cost()
         new_cost = old_cost
+        cost_scale = self.trace_K
 
         for n_iter in range(self.max_iterations):
             start_time = time.perf_counter()
@@ -645,14 +647,16 @@ class KernelAA():
             if update_dictionary:
                 self._update_dictionary()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (_cost_increased(new_cost, old_cost, cost_scale) and
+                        self.require_monotonic_cost_decrease):
                     raise RuntimeError(
                         'factorization cost increased after dictionary update')
 
             if update_weights:
                 self._update_weights()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (_cost_increased(new_cost, old_cost, cost_scale) and
+                        self.require_monotonic_cost_decrease):
                     raise RuntimeError(
                         'factorization cost increased after weights update')
 
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 8cbcccc..a583afb 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -16,7 +16,8 @@ from reor.furthest_sum import furthest_sum
 from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_check_unit_axis_sums, _check_array_shape,
+                              _cost_increased)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -517,6 +518,7 @@ class GPNHConvexCoding():
 
         old_cost = self._evaluate_cost()
         new_cost = old_cost
+        cost_scale = (1 + self.epsilon_states) * self.trace_XtX / self.X.size
 
         for n_iter in range(self.max_iterations):
             start_time = time.perf_counter()
@@ -526,14 +528,16 @@ class GPNHConvexCoding():
             if update_dictionary:
                 self._update_dictionary()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (_cost_increased(new_cost, old_cost, cost_scale) and
+                        self.require_monotonic_cost_decrease):
                     raise RuntimeError(
                         'factorization cost increased after dictionary update')
 
             if update_weights:
                 self._update_weights()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (_cost_increased(new_cost, old_cost, cost_scale) and
+                        self.require_monotonic_cost_decrease):
                     raise RuntimeError(
                         'factorization cost increased after weights update')
 
diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index f4fde05..e595dea 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -12,6 +12,7 @@ from reor._random_matrix import left_stochastic_matrix
 from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_vector)
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
+from reor._validation import _cost_increased
 
 
 class GPNHConvexCodingCROM(GPNHConvexCoding):
@@ -306,7 +307,8 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
 
             self._update_parameters()
             new_cost = self._evaluate_fit_residual()
-            if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+            if (_cost_increased(new_cost, old_cost, 1.0) and
+                    self.require_monotonic_cost_decrease):
                 raise RuntimeError(
                     'factorization cost increased after parameters update')
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 4ca3fea..4dd1eb3 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -18,7 +18,8 @@ from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_rows,
                                      simplex_project_vector)
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_check_unit_axis_sums, _check_array_shape,
+                              _cost_increased)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -714,6 +715,8 @@ class MTDConvexCoding():
 
         old_cost = self._evaluate_cost()
         new_cost = old_cost
+        cost_scale = (1 + self.epsilon_states) * self.trace_XtX / self.X.size
+        cost_scale += self.epsilon_weights
 
         for n_iter in range(self.max_iterations):
             start_time = time.perf_counter()
@@ -723,21 +726,24 @@ class MTDConvexCoding():
             if update_dictionary:
                 self._update_dictionary()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (_cost_increased(new_cost, old_cost, cost_scale) and
+                        self.require_monotonic_cost_decrease):
                     raise RuntimeError(
                         'factorization cost increased after dictionary update')
 
             if update_weights:
                 self._update_weights()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (_cost_increased(new_cost, old_cost, cost_scale) and
+                        self.require_monotonic_cost_decrease):
                     raise RuntimeError(
                         'factorization cost increased after weights update')
 
             if update_parameters:
                 self._update_parameters()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (_cost_increased(new_cost, old_cost, cost_scale) and
+                        self.require_monotonic_cost_decrease):
                     raise RuntimeError(
                         'factorization cost increased after parameters update')
 
-- 
2.43.0


From a9987f46411105c6a12a16c6532c625fba46fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 05/42] fix: accept furthest-sum options in all factorizations

The start_index, n_extra_steps and exclude options were also passed to the
routines initializing the weights (and MTD parameters), which do not accept
them, so that fits with these options raised a TypeError.
---
 src/reor/archetypal_analysis.py | 4 ++--
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 8abf781..b89b325 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -139,7 +139,7 @@ def _initialize_kernel_aa(kernel, n_components, init='furthest_sum',
         kernel, n_components, init=init, random_state=rng, **kwargs)
 
     weights = _initialize_kernel_aa_weights(
-        kernel, n_components, init=init, random_state=rng, **kwargs)
+        kernel, n_components, init=init, random_state=rng)
 
     return dictionary, weights
 
@@ -710,7 +710,7 @@ class KernelAA():
                                    '_kernel_aa (input dictionary)')
             weights = _initialize_kernel_aa_weights(
                 kernel, self.n_components, init=self.init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index a583afb..da2ee6a 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -587,7 +587,7 @@ class GPNHConvexCoding():
                                    '_gpnh_convex_coding (input dictionary)')
             weights = _initialize_gpnh_convex_coding_weights(
                 data, self.n_components, init=self.init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 4dd1eb3..9084f0e 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -811,7 +811,7 @@ class MTDConvexCoding():
             else:
                 weights = _initialize_mtd_convex_coding_weights(
                     data, self.n_components, init=self.init,
-                    random_state=self.random_state, **kwargs)
+                    random_state=self.random_state)
 
             if not update_parameters:
                 _check_init_order_weights(order_weights, (n_lags,),
@@ -824,7 +824,7 @@ class MTDConvexCoding():
                 order_weights, transition_matrices = \
                     _initialize_mtd_convex_coding_parameters(
                         data, self.n_components, init=self.init, order=n_lags,
-                        random_state=self.random_state, **kwargs)
+                        random_state=self.random_state)
 
         self.X = data.copy()
         self.Gamma = weights.copy()
-- 
2.43.0


From 70dc5f4b9e99d247e90cc888148002936f793389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 06/42] fix: let models fitted from a custom initial guess
 transform new data

With init='custom', transform (and predict) passed no initial weights and was
rejected with a ValueError. Random weights are used instead.
---
 src/reor/archetypal_analysis.py | 23 +++++++++++++++++------
 src/reor/gpnh_convex_coding.py  |  9 ++++++++-
 src/reor/mtd_convex_coding.py   |  9 ++++++++-
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index b89b325..ae5d30d 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -787,6 +787,21 @@ class KernelAA():
         self.fit_transform(kernel, **kwargs)
         return self
 
+    def _transform_kernel(self, kernel):
+        """Determine weights for given kernel with dictionary held fixed."""
+
+        weights = None
+        if self.init == 'custom':
+            # No initial guess for the weights is available.
+            weights = _initialize_kernel_aa_weights(
+                kernel, self.n_components, init='random',
+                random_state=self.random_state)
+
+        self._kernel_aa(
+            kernel=kernel,
+            dictionary=self.C, weights=weights,
+            update_dictionary=False, update_weights=True)
+
     def transform(self, kernel):
         """Transform the data according to the fitted factorization.
 
@@ -801,10 +816,7 @@ class KernelAA():
             Representation of the data.
         """
 
-        self._kernel_aa(
-            kernel=kernel,
-            dictionary=self.C,
-            update_dictionary=False, update_weights=True)
+        self._transform_kernel(kernel)
 
         return self.S
 
@@ -973,7 +985,6 @@ class ArchetypalAnalysis(KernelAA):
         else:
             kernel = self.kernel_func(data)
 
-        self._kernel_aa(kernel=kernel, dictionary=self.C,
-                        update_dictionary=False, update_weights=True)
+        self._transform_kernel(kernel)
 
         return self.S
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index da2ee6a..7607acf 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -678,9 +678,16 @@ class GPNHConvexCoding():
             Representation of the data.
         """
 
+        weights = None
+        if self.init == 'custom':
+            # No initial guess for the weights is available.
+            weights = _initialize_gpnh_convex_coding_weights(
+                data, self.n_components, init='random',
+                random_state=self.random_state)
+
         self._gpnh_convex_coding(
             data=data,
-            dictionary=self.S,
+            dictionary=self.S, weights=weights,
             update_dictionary=False, update_weights=True)
 
         return self.Gamma
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 9084f0e..5c6f9d1 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -908,9 +908,16 @@ class MTDConvexCoding():
             Representation of the data.
         """
 
+        weights = None
+        if self.init == 'custom':
+            # No initial guess for the weights is available.
+            weights = _initialize_mtd_convex_coding_weights(
+                data, self.n_components, init='random',
+                random_state=self.random_state)
+
         self._mtd_convex_coding(
             data=data,
-            dictionary=self.S,
+            dictionary=self.S, weights=weights,
             order_weights=self.order_weights,
             transition_matrices=self.transition_matrices,
             update_dictionary=False, update_weights=True,
-- 
2.43.0


From 4d5786c8d36915bb6e242372aab3bfc6850cacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 07/42] fix: issue the warning about an exhausted iteration
 budget

The index of the last iteration never equals max_iterations, so that the
warning was never issued.
---
 src/reor/archetypal_analysis.py | 2 +-
 src/reor/fembv.py               | 2 +-
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index ae5d30d..209d266 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -732,7 +732,7 @@ class KernelAA():
             update_dictionary=update_dictionary,
             update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
+        if n_iter == self.max_iterations - 1 and self.tolerance > 0:
             warnings.warn('Maximum number of iterations %d reached.' %
                           self.max_iterations, UserWarning)
 
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 1d42197..5881612 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -328,7 +328,7 @@ class FEMBV():
         cost, n_iter = self._iterate(update_parameters=update_parameters,
                                      update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
+        if n_iter == self.max_iterations - 1 and self.tolerance > 0:
             warnings.warn('Maximum number of iterations %d reached.' %
                           self.max_iterations, UserWarning)
 
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 7607acf..be828b2 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -609,7 +609,7 @@ class GPNHConvexCoding():
             update_dictionary=update_dictionary,
             update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
+        if n_iter == self.max_iterations - 1 and self.tolerance > 0:
             warnings.warn('Maximum number of iterations %d reached.' %
                           self.max_iterations, UserWarning)
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 5c6f9d1..d40dc59 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -839,7 +839,7 @@ class MTDConvexCoding():
             update_weights=update_weights,
             update_parameters=update_parameters)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
+        if n_iter == self.max_iterations - 1 and self.tolerance > 0:
             warnings.warn('Maximum number of iterations %d reached.' %
                           self.max_iterations, UserWarning)
 
-- 
2.43.0


From c68b27e02c22c8681221215ab22c1cffa9981aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:59 +0000
Subject: [PATCH 08/42] fix: optimize the archetype scale factors for nonzero
 delta

The range limits were applied in the wrong order and to a matrix, and the
accepted scale factors were never stored, so that they always remained equal
to one and the relaxation parameter had no effect.
---
 src/reor/archetypal_analysis.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 209d266..d3a2113 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -514,7 +514,7 @@ class KernelAA():
         current_cost = (self.trace_K - 2 * self.CKS.dot(diag_alpha).trace() +
                         self.StS.dot(CKCt_tmp).trace())
 
-        diag_alpha_old = diag_alpha.copy()
+        self.alpha_old = self.alpha.copy()
 
         self.f_alpha_mem.popleft()
         self.f_alpha_mem.append(current_cost)
@@ -527,7 +527,8 @@ class KernelAA():
         incr_norm = (self.incr_alpha * self.grad_alpha).sum()
         step_size = 1
 
-        diag_alpha = diag_alpha_old + self.incr_alpha
+        self.alpha = self.alpha_old + self.incr_alpha
+        diag_alpha = np.diag(self.alpha)
 
         CKCt_tmp = self.CKCt.dot(diag_alpha)
         CKCt_tmp = diag_alpha.dot(CKCt_tmp)
@@ -543,7 +544,8 @@ class KernelAA():
                 sigma_one=self.line_search_sigma_one,
                 sigma_two=self.line_search_sigma_two)
 
-            diag_alpha = diag_alpha_old + step_size * self.incr_alpha
+            self.alpha = self.alpha_old + step_size * self.incr_alpha
+            diag_alpha = np.diag(self.alpha)
 
             CKCt_tmp = self.CKCt.dot(diag_alpha)
             CKCt_tmp = diag_alpha.dot(CKCt_tmp)
@@ -599,10 +601,10 @@ class KernelAA():
 
             self._update_scale_factors_gradient()
 
-            self.incr_alpha = diag_alpha - self.alpha_alpha * self.grad_alpha
-            self.incr_alpha = np.fmin(self.incr_alpha, 1 - self.delta)
-            self.incr_alpha = np.fmax(self.incr_alpha, 1 + self.delta)
-            self.incr_alpha -= diag_alpha
+            self.incr_alpha = self.alpha - self.alpha_alpha * self.grad_alpha
+            self.incr_alpha = np.fmax(self.incr_alpha, 1 - self.delta)
+            self.incr_alpha = np.fmin(self.incr_alpha, 1 + self.delta)
+            self.incr_alpha -= self.alpha
 
             scales_error, step_size = self._scale_factors_line_search()
 
-- 
2.43.0


From 321723d689152f119ba6d819911f4d49fc58c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 09/42] fix: include fitted scale factors in the archetypal
 analysis results

With nonzero delta, dictionary_ and inverse_transform ignored the fitted scale
factors, and transform reset them to one.
---
 src/reor/archetypal_analysis.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index d3a2113..d4a6a54 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -289,6 +289,14 @@ class KernelAA():
         return (self.StS.dot(self.CKCt).trace() -
                 2 * self.S.dot(self.CK).trace() + self.K.trace())
 
+    def _scaled_dictionary(self):
+        """Return dictionary including scale factors of the archetypes."""
+
+        if self.delta > 0:
+            return np.diag(self.alpha).dot(self.C)
+
+        return self.C
+
     def _initialize_workspace(self):
         """Initialize temporary variables."""
 
@@ -679,7 +687,8 @@ class KernelAA():
         return new_cost, n_iter
 
     def _kernel_aa(self, kernel, dictionary=None, weights=None,
-                   update_dictionary=True, update_weights=True, **kwargs):
+                   update_dictionary=True, update_weights=True,
+                   scale_factors=None, **kwargs):
         """Perform kernel archetypal analysis."""
 
         n_samples = kernel.shape[0]
@@ -730,6 +739,9 @@ class KernelAA():
 
         self._initialize_workspace()
 
+        if scale_factors is not None:
+            self.alpha = scale_factors.copy()
+
         cost, n_iter = self._iterate(
             update_dictionary=update_dictionary,
             update_weights=update_weights)
@@ -769,7 +781,7 @@ class KernelAA():
 
         self.n_components_ = self.C.shape[0]
         self.cost_ = cost_
-        self.dictionary_ = self.C
+        self.dictionary_ = self._scaled_dictionary()
         self.n_iter_ = n_iter_
 
         return self.S
@@ -802,7 +814,8 @@ class KernelAA():
         self._kernel_aa(
             kernel=kernel,
             dictionary=self.C, weights=weights,
-            update_dictionary=False, update_weights=True)
+            update_dictionary=False, update_weights=True,
+            scale_factors=self.alpha)
 
     def transform(self, kernel):
         """Transform the data according to the fitted factorization.
@@ -836,7 +849,7 @@ class KernelAA():
             Matrix of coefficients for original data.
         """
 
-        return weights.dot(self.C)
+        return weights.dot(self._scaled_dictionary())
 
 
 class ArchetypalAnalysis(KernelAA):
@@ -963,7 +976,7 @@ class ArchetypalAnalysis(KernelAA):
 
         self.n_components_ = self.C.shape[0]
         self.cost_ = cost_
-        self.dictionary_ = self.C
+        self.dictionary_ = self._scaled_dictionary()
         self.n_iter_ = n_iter_
 
         return self.S
-- 
2.43.0


From 0b1def082f08ed38f2412d2b7eeb93e45033fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 10/42] fix: accept documented arguments in the GPNH convex
 coding CROM

n_components=None raised a TypeError, invalid lags were accepted (and lists of
lags were not), and integer valued data gave transition matrices that were
truncated to zero.
---
 src/reor/gpnh_convex_coding_crom.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index e595dea..1b5ee05 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -7,7 +7,7 @@ from collections import deque
 import time
 import numpy as np
 
-from reor.gpnh_convex_coding import GPNHConvexCoding
+from reor.gpnh_convex_coding import GPNHConvexCoding, INTEGER_TYPES
 from reor._random_matrix import left_stochastic_matrix
 from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_vector)
@@ -78,12 +78,15 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         if lags is None:
             self.lags = np.array([1], dtype='i8')
         else:
-            self.lags = lags
+            for lag in lags:
+                if not isinstance(lag, INTEGER_TYPES) or lag < 1:
+                    raise ValueError('Lag must be a positive integer; '
+                                     'got (lag=%r)' % lag)
+            self.lags = np.array(lags, dtype='i8')
 
         n_lags = self.lags.size
         self.order_weights = np.empty((n_lags,), dtype='f8')
-        self.transition_matrices = np.empty(
-            (n_lags, n_components, n_components), dtype='f8')
+        self.transition_matrices = None
         self.Z = None
 
         self.order_weights_old = None
@@ -289,7 +292,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         self.order_weights /= self.order_weights.sum()
 
         self.transition_matrices = np.empty(
-            (n_lags, self.n_components, self.n_components), dtype=self.X.dtype)
+            (n_lags, self.n_components, self.n_components), dtype='f8')
         for p in range(n_lags):
             self.transition_matrices[p] = left_stochastic_matrix(
                 (self.n_components, self.n_components),
-- 
2.43.0


From f25c85af5b1e9d9b50c3126839f46887ef0b0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 11/42] fix: default to two clusters in the k-means CROM as
 documented

---
 src/reor/crom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 38dac8b..3ce31b1 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -38,6 +38,9 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
         Fitted Markov transition matrix.
     """
 
+    if n_clusters is None:
+        n_clusters = 2
+
     kmeans = KMeans(n_clusters=n_clusters, **kwargs).fit(
         X, sample_weight=sample_weight)
 
@@ -98,7 +101,7 @@ class KMeansMarkovCROM():
     from reor.crom import KMeansMarkovCROM
     model = KMeansMarkovCROM(n_clusters=4, random_state=0).fit(X)
     """
-    def __init__(self, n_clusters, **kwargs):
+    def __init__(self, n_clusters=None, **kwargs):
         self.n_clusters = n_clusters
         self.kmeans_kwargs = kwargs
 
@@ -204,7 +207,7 @@ class KMeansMarkovCROM():
         # Get cluster assignments at the current time-step
         initial_labels = self.kmeans_.predict(X, sample_weight=sample_weight)
 
-        n_clusters = self.n_clusters
+        n_clusters = self.cluster_centers_.shape[0]
         n_samples = initial_labels.size
 
         labels = np.zeros((n_samples, n_clusters), dtype='f8')
-- 
2.43.0


From 38688c4ae50e13adc671e7a79f228f4a7a3616e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 12/42] fix: fit the k-means CROM in fit_predict and
 fit_transform

These methods failed on an unfitted model and left the transition matrix and
labels of a fitted one out of date.
---
 src/reor/crom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 3ce31b1..de4abe6 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -153,7 +153,7 @@ class KMeansMarkovCROM():
             Array of labels for each sample
         """
 
-        return self.kmeans_.fit_predict(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).labels_
 
     def fit_transform(self, X, sample_weight=None):
         """Perform model reduction and transform data to cluster-distance space.
@@ -173,7 +173,7 @@ class KMeansMarkovCROM():
             Array of distances of each sample to the cluster centroids.
         """
 
-        return self.kmeans_.fit_transform(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).transform(X)
 
     def predict(self, X, sample_weight=None, horizon=0):
         """Predict cluster assignment of each sample for the given horizon.
-- 
2.43.0


From 17d38067aa3ccc99d8a284376c4f8bf262c9d3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 13/42] fix: do not pass sample weights to KMeans.predict

The assignment of samples to the nearest centers does not depend on weights,
and the argument was removed from scikit-learn, so that every call of predict
raised a TypeError.
---
 src/reor/crom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index de4abe6..b2b520c 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -205,7 +205,7 @@ class KMeansMarkovCROM():
         """
 
         # Get cluster assignments at the current time-step
-        initial_labels = self.kmeans_.predict(X, sample_weight=sample_weight)
+        initial_labels = self.kmeans_.predict(X)
 
         n_clusters = self.cluster_centers_.shape[0]
         n_samples = initial_labels.size
-- 
2.43.0


From dc15e31cb359b82d1d90a1be2d286248a69a4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 14/42] fix: handle clusters without observed transitions in
 the k-means CROM

A cluster visited at the last sample only gave a column of NaNs in the
transition matrix, which turned all predictions into NaN.
---
 src/reor/crom.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index b2b520c..9c62f23 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -35,7 +35,8 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
         Result of performing k-means clustering.
 
     transition_matrix : array, shape (n_clusters, n_clusters)
-        Fitted Markov transition matrix.
+        Fitted Markov transition matrix. A cluster from which no transitions
+        are observed is taken to be absorbing.
     """
 
     if n_clusters is None:
@@ -58,7 +59,12 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
             Tk = np.array(labels == k, dtype='i8')
             n_jk = (Tj[1:] * Tk[:-1]).sum()
             n_k = Tk[:-1].sum()
-            transition_matrix[j, k] = n_jk / n_k
+            if n_k > 0:
+                transition_matrix[j, k] = n_jk / n_k
+            elif j == k:
+                # No transitions out of this cluster are observed, i.e., it is
+                # at most visited at the last sample.
+                transition_matrix[j, k] = 1.0
 
     return kmeans, transition_matrix
 
-- 
2.43.0


From c02a08b1096a4126981b6b050206e0f9bc9d1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:32 +0000
Subject: [PATCH 15/42] fix: accept single-column and integer data in the
 piecewise VARX model

A single-column matrix was expanded to three dimensions and rejected, and the
residuals of integer valued data were truncated to integers.
---
 src/reor/pwvarx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 91867f3..be8d4ea 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -128,7 +128,7 @@ class ClusterPWVARX():
             n_exog = 0
 
         self.Sigma_u = np.zeros((self.n_components, n_endog, n_endog))
-        self.residuals = np.zeros_like(y)
+        self.residuals = np.zeros(y.shape)
         for k in range(self.n_components):
 
             component_mask = labels == k
@@ -197,7 +197,7 @@ class ClusterPWVARX():
 
         presample_length = max(self.p, self.s)
 
-        if n_endog == 1:
+        if endog.ndim == 1:
             y = np.expand_dims(endog[presample_length:], -1)
         else:
             y = endog[presample_length:]
-- 
2.43.0


From 0d377d04d157721514e7b6d7265c91f15f36383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 16/42] fix: honour random_state and n_components=None in the
 piecewise VARX model

Both arguments are documented, but the seed was ignored and None raised an
error.
---
 src/reor/pwvarx.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index be8d4ea..0f23391 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -53,6 +53,7 @@ class ClusterPWVARX():
         self.include_trend = include_trend
         self.clusterer = clusterer
         self.classifier = classifier
+        self.random_state = kwargs.get('random_state', None)
 
         self.mu = None
         self.A = None
@@ -103,7 +104,8 @@ class ClusterPWVARX():
         z = np.hstack([x, y])
 
         if self.clusterer is None:
-            self.clusterer = KMeans(n_clusters=self.n_components)
+            self.clusterer = KMeans(n_clusters=self.n_components,
+                                    random_state=self.random_state)
 
         self.cluster_labels_ = self.clusterer.fit_predict(z)
 
@@ -195,6 +197,9 @@ class ClusterPWVARX():
         else:
             n_endog = endog.shape[1]
 
+        if self.n_components is None:
+            self.n_components = n_endog
+
         presample_length = max(self.p, self.s)
 
         if endog.ndim == 1:
-- 
2.43.0


From 586b3c405e1475fe892f193d6a2de3f712a5cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 17/42] fix: make max_tv_norm optional in the FEM-BV models as
 documented

---
 src/reor/fembv.py        | 2 +-
 src/reor/fembv_kmeans.py | 2 +-
 src/reor/fembv_varx.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 5881612..28698b8 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -42,7 +42,7 @@ def _initialize_fembv_weights(n_samples, n_components, unused_init='random',
 class FEMBV():
     """Base class for FEM-BV clustering algorithms."""
 
-    def __init__(self, n_components, max_tv_norm, init='random',
+    def __init__(self, n_components, max_tv_norm=None, init='random',
                  max_iterations=500,
                  tolerance=1e-4, verbose=0, random_state=None, **kwargs):
         self.n_components = n_components
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 5c2f978..fdd4fbd 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -122,7 +122,7 @@ class FEMBVKMeans(FEMBV):
     Sci. 7, 2 (2012), 175 - 229
     """
 
-    def __init__(self, n_components, max_tv_norm, init='random',
+    def __init__(self, n_components, max_tv_norm=None, init='random',
                  max_iterations=500, tolerance=1e-4, verbose=0,
                  random_state=None, **kwargs):
         super().__init__(n_components=n_components, max_tv_norm=max_tv_norm,
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index aa97aba..4a1ce04 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -247,7 +247,7 @@ class FEMBVVARX(FEMBV):
     Sci. 7, 2 (2012), 175 - 229
     """
 
-    def __init__(self, n_components, max_tv_norm, memory=None, init='random',
+    def __init__(self, n_components, max_tv_norm=None, memory=None, init='random',
                  max_iterations=500, tolerance=1e-4, verbose=0,
                  random_state=None, **kwargs):
         super().__init__(n_components=n_components, max_tv_norm=max_tv_norm,
-- 
2.43.0


From e90d93b1ccd3885268572717ef89a29e5a51b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 18/42] fix: do not truncate distances and residuals of integer
 valued data

The FEM-BV models stored distances, residuals and coefficients in arrays of
the type of the data, so that they were rounded towards zero for integers.
---
 src/reor/fembv_kmeans.py | 4 +++-
 src/reor/fembv_varx.py   | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index fdd4fbd..a1746e0 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -13,6 +13,8 @@ from reor._validation import _check_array_shape
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
 
+FLOAT_TYPES = (np.float64, np.float32)
+
 
 def _check_init_parameters(Theta, shape, whom):
     Theta = check_array(Theta)
@@ -143,7 +145,7 @@ class FEMBVKMeans(FEMBV):
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
-        self.X = data.copy()
+        self.X = check_array(data, dtype=FLOAT_TYPES, copy=True)
 
         n_samples, n_features = self.X.shape
 
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 4a1ce04..080396a 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -13,6 +13,8 @@ from reor._validation import _check_array_shape
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
 
+FLOAT_TYPES = (np.float64, np.float32)
+
 
 class FEMBVVARXLocalLinearModel():
     """Local stationary linear VARX model."""
@@ -23,7 +25,7 @@ class FEMBVVARXLocalLinearModel():
 
         self.p = p
 
-        self._y = check_array(y)
+        self._y = check_array(y, dtype=FLOAT_TYPES)
 
         n_samples, n_features = self._y.shape
 
@@ -37,7 +39,7 @@ class FEMBVVARXLocalLinearModel():
             self.A = None
 
         if u is not None:
-            self._u = check_array(u)
+            self._u = check_array(u, dtype=FLOAT_TYPES)
 
             if self._u.shape[0] != n_samples:
                 raise ValueError(
@@ -297,7 +299,7 @@ class FEMBVVARX(FEMBV):
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
-        self.X = data.copy()
+        self.X = check_array(data, dtype=FLOAT_TYPES, copy=True)
         if 'external_factors' in kwargs:
             self.u = kwargs['external_factors'].copy()
             self.u = check_array(self.u)
-- 
2.43.0


From 18855860aa7df30dd3ca3edd8b98d9bef01dd8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:58 +0000
Subject: [PATCH 19/42] fix: support different memories of the FEM-BV-VARX
 components

The residuals of components with less than the maximum memory were sliced with
the wrong offset, and the external factors were not aligned with their shorter
presample, so that all fits with differing memories failed.
---
 src/reor/fembv_varx.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 080396a..60a9714 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -287,14 +287,12 @@ class FEMBVVARX(FEMBV):
         self.B0 = None
 
     def _evaluate_distance_matrix(self):
-        presample_length = np.max(self.memory)
         for i in range(self.n_components):
             metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
+            # The series passed to each model starts with its own presample.
+            residuals = self.models[i].residuals[self.memory[i]:]
             self.distance_matrix[:, i] = np.einsum(
-                'ij,jk,ik->i',
-                self.models[i].residuals[presample_length:],
-                metric,
-                self.models[i].residuals[presample_length:])
+                'ij,jk,ik->i', residuals, metric, residuals)
 
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
@@ -329,11 +327,12 @@ class FEMBVVARX(FEMBV):
             self.B0 = np.zeros((self.n_components, n_features, n_external),
                                dtype=self.X.dtype)
 
-        self.models = [FEMBVVARXLocalLinearModel(
-            self.X[presample_length - self.memory[i]:],
-            p=self.memory[i],
-            u=self.u, s=0)
-            for i in range(self.n_components)]
+        self.models = []
+        for i in range(self.n_components):
+            start = presample_length - self.memory[i]
+            self.models.append(FEMBVVARXLocalLinearModel(
+                self.X[start:], p=self.memory[i],
+                u=self.u[start:] if self.u is not None else None, s=0))
 
         # Initialize models by performing unweighted fits to
         # given data
-- 
2.43.0


From 472194d67b9c19f6cc02d37ced9c386f3419de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 20/42] fix: allow singular residual covariances in VARX fits

Exactly predictable series, components of zero weight and collinear features
give a singular residual covariance; its inverse is not needed for the fit,
but failing to invert it aborted the fit.
---
 src/reor/fembv_varx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 60a9714..a1c7e05 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -148,8 +148,10 @@ class FEMBVVARXLocalLinearModel():
             self.Sigma_u = np.dot(weighted_residuals.T,
                                   weighted_residuals) / df
 
-        self.Sigma_u_inv = np.linalg.inv(self.Sigma_u)
-
+        try:
+            self.Sigma_u_inv = np.linalg.inv(self.Sigma_u)
+        except np.linalg.LinAlgError:
+            self.Sigma_u_inv = np.full_like(self.Sigma_u, np.nan)
 
 
 class FEMBVVARX(FEMBV):
-- 
2.43.0


From 9b2038ce21ba7964062c467d9527245b4cd8b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 21/42] fix: honour the init argument of the FEM-BV models

The value passed to the constructor was ignored, so that init='custom' had no
effect unless repeated when fitting, and unknown names were accepted.
---
 src/reor/fembv.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 28698b8..7fabc07 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -20,6 +20,8 @@ from reor._validation import _check_unit_axis_sums, _check_array_shape
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
 
+INITIALIZATION_METHODS = (None, 'random', 'custom')
+
 
 def _check_init_weights(weights, shape, whom):
     weights = check_array(weights)
@@ -322,6 +324,14 @@ class FEMBV():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
+        if init is None:
+            init = self.init
+
+        if init not in INITIALIZATION_METHODS:
+            raise ValueError(
+                'Invalid init parameter: got %r instead of one of %r' %
+                (init, INITIALIZATION_METHODS))
+
         self._initialize(data, parameters=parameters, weights=weights,
                          init=init, **kwargs)
 
-- 
2.43.0


From b49fec2293cb566f41fe8e1a91d0db9c8fbba636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 22/42] fix: accept n_components=None in FEM-BV-VARX as
 documented

---
 src/reor/fembv_varx.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index a1c7e05..d7546ff 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -259,8 +259,12 @@ class FEMBVVARX(FEMBV):
                          tolerance=tolerance, verbose=verbose,
                          random_state=random_state, **kwargs)
 
+        # If the number of components is not yet known, a single memory is
+        # expanded when fitting.
+        memory_shape = () if n_components is None else (n_components,)
+
         if memory is None:
-            self.memory = np.full((n_components,), 0, dtype='i8')
+            self.memory = np.full(memory_shape, 0, dtype='i8')
         else:
             if isinstance(memory, INTEGER_TYPES):
                 if memory < 0:
@@ -268,7 +272,7 @@ class FEMBVVARX(FEMBV):
                         'Maximum memory must be a non-negative integer;'
                         ' got (memory=%d)' % memory)
 
-                self.memory = np.full((n_components,), memory, dtype='i8')
+                self.memory = np.full(memory_shape, memory, dtype='i8')
             elif isinstance(memory, (list, tuple)):
                 self.memory = np.asarray(memory, dtype='i8')
                 if self.memory.shape != (n_components,):
@@ -317,6 +321,7 @@ class FEMBVVARX(FEMBV):
         else:
             n_external = 0
 
+        self.memory = np.broadcast_to(self.memory, (self.n_components,))
         presample_length = np.max(self.memory)
 
         self.mu = np.zeros((self.n_components, n_features),
-- 
2.43.0


From 0b3e0f6ff97c4fc8794d9792c68a3b0580ffb102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 23/42] fix: transform data with the fitted parameters of
 FEM-BV models

FEM-BV-k-means drew new random centroids and FEM-BV-VARX refitted its models
(and zeroed the published intercepts) when transforming data, and the
documented custom parameters of FEM-BV-VARX were ignored.
---
 src/reor/fembv.py        | 11 ++++--
 src/reor/fembv_kmeans.py |  4 +++
 src/reor/fembv_varx.py   | 73 +++++++++++++++++++++++++++++++++++++---
 3 files changed, 80 insertions(+), 8 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 7fabc07..855abb2 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -390,7 +390,11 @@ class FEMBV():
         self.fit_transform(data, **kwargs)
         return self
 
-    def transform(self, data):
+    def _get_parameters(self):
+        """Return fitted parameters in the form used for custom values."""
+        return None
+
+    def transform(self, data, **kwargs):
         """Transform data according to the fitted factorization.
 
         Parameters
@@ -404,7 +408,8 @@ class FEMBV():
             Representation of the data.
         """
 
-        self._fembv_fit(data=data, update_parameters=False,
-                        update_weights=True)
+        self._fembv_fit(data=data, parameters=self._get_parameters(),
+                        init='custom', update_parameters=False,
+                        update_weights=True, **kwargs)
 
         return self.Gamma
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index a1746e0..567bbf3 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -164,6 +164,10 @@ class FEMBVKMeans(FEMBV):
 
         self._evaluate_distance_matrix()
 
+    def _get_parameters(self):
+        """Return fitted parameters in the form used for custom values."""
+        return self.Theta
+
     def _update_parameters(self):
         """Update k-means cluster assignments."""
 
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index d7546ff..a09da30 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -91,6 +91,29 @@ class FEMBVVARXLocalLinearModel():
 
         self.residuals = np.zeros_like(self._y)
 
+    def set_parameters(self, mu, A=None, B=None, B0=None):
+        """Set parameters to given values instead of fitting them."""
+
+        presample_length = max(self.p, self.s)
+
+        params = [mu[np.newaxis, :]]
+        self.mu = mu.copy()
+
+        if self.p > 0:
+            params.extend(A[i].T for i in range(self.p))
+            self.A = A.copy()
+
+        if self._u is not None:
+            if self.s > 0:
+                params.extend(B[i].T for i in range(self.s))
+                self.B = B.copy()
+            params.append(B0.T)
+            self.B0 = B0.copy()
+
+        self.residuals[presample_length:] = (
+            self._y[presample_length:] -
+            np.dot(self._z, np.concatenate(params, axis=0)))
+
     def fit(self, weights=None):
         n_samples, n_features = self._y.shape
 
@@ -294,7 +317,7 @@ class FEMBVVARX(FEMBV):
 
     def _evaluate_distance_matrix(self):
         for i in range(self.n_components):
-            metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
+            metric = np.eye(self.X.shape[1])
             # The series passed to each model starts with its own presample.
             residuals = self.models[i].residuals[self.memory[i]:]
             self.distance_matrix[:, i] = np.einsum(
@@ -326,10 +349,12 @@ class FEMBVVARX(FEMBV):
 
         self.mu = np.zeros((self.n_components, n_features),
                            dtype=self.X.dtype)
+        self.A = None
         if presample_length > 0:
             self.A = np.zeros((self.n_components, presample_length,
                                n_features, n_features),
                               dtype=self.X.dtype)
+        self.B0 = None
         if self.u is not None:
             self.B0 = np.zeros((self.n_components, n_features, n_external),
                                dtype=self.X.dtype)
@@ -341,10 +366,14 @@ class FEMBVVARX(FEMBV):
                 self.X[start:], p=self.memory[i],
                 u=self.u[start:] if self.u is not None else None, s=0))
 
-        # Initialize models by performing unweighted fits to
-        # given data
-        for i in range(self.n_components):
-            self.models[i].fit()
+        if init == 'custom' and parameters is not None:
+            self._set_parameters(parameters)
+        else:
+            # Initialize models by performing unweighted fits to
+            # given data
+            for i in range(self.n_components):
+                self.models[i].fit()
+            self._store_model_parameters()
 
         self.distance_matrix = np.empty(
             (n_samples - presample_length, self.n_components),
@@ -352,6 +381,34 @@ class FEMBVVARX(FEMBV):
 
         self._evaluate_distance_matrix()
 
+    def _get_parameters(self):
+        """Return fitted parameters in the form used for custom values."""
+        return {'mu': self.mu, 'A': self.A, 'B0': self.B0}
+
+    def _set_parameters(self, parameters):
+        """Set component parameters to given values."""
+
+        for name in ('mu', 'A', 'B0'):
+            current = getattr(self, name)
+            value = parameters.get(name, None)
+
+            if (current is None) != (value is None):
+                raise ValueError(
+                    'Values of the parameter %r are %s' %
+                    (name, 'required' if value is None else 'not used'))
+
+            if value is not None:
+                value = np.array(value, dtype=self.X.dtype)
+                _check_array_shape(value, current.shape,
+                                   '_set_parameters (%s)' % name)
+                setattr(self, name, value)
+
+        for i in range(self.n_components):
+            self.models[i].set_parameters(
+                self.mu[i],
+                A=self.A[i, :self.memory[i]] if self.memory[i] > 0 else None,
+                B0=self.B0[i] if self.u is not None else None)
+
     def _update_parameters(self):
         """Update component parameters."""
 
@@ -367,6 +424,12 @@ class FEMBVVARX(FEMBV):
 
             self.models[i].fit(weights=weights)
 
+        self._store_model_parameters()
+
+    def _store_model_parameters(self):
+        """Collect parameters of the models for each component."""
+
+        for i in range(self.n_components):
             self.mu[i] = self.models[i].mu
 
             if self.memory[i] > 0:
-- 
2.43.0


From 1d84b43b6c35e93d893e774802fedb1d23b2aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:16 +0000
Subject: [PATCH 24/42] fix: keep the centroids of empty clusters in
 FEM-BV-k-means

The centroid of a cluster to which no sample is affiliated was divided by zero
and became NaN, which made the next affiliation update fail (or not return).
---
 src/reor/fembv_kmeans.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 567bbf3..33be1b8 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -171,8 +171,13 @@ class FEMBVKMeans(FEMBV):
     def _update_parameters(self):
         """Update k-means cluster assignments."""
 
-        self.Theta = np.dot(self.Gamma.T, self.X)
         normalizations = np.sum(self.Gamma, axis=0)
-        self.Theta = self.Theta / normalizations[:, np.newaxis]
+
+        # Centroids of clusters without any samples are left unchanged.
+        occupied = normalizations > 0
+        Theta = self.Theta.astype(self.X.dtype)
+        Theta[occupied] = (np.dot(self.Gamma.T, self.X)[occupied] /
+                           normalizations[occupied, np.newaxis])
+        self.Theta = Theta
 
         self._evaluate_distance_matrix()
-- 
2.43.0


From 980581bf2d97885f702cc5619e8b782946e5d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 25/42] fix: reject negative start indices in furthest-sum
 selection

---
 src/reor/furthest_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/furthest_sum.py b/src/reor/furthest_sum.py
index 4b68d71..6460634 100644
--- a/src/reor/furthest_sum.py
+++ b/src/reor/furthest_sum.py
@@ -58,7 +58,7 @@ def _furthest_sum_impl(dissimilarity_matrix, n_components, start_index,
     n_samples = dissimilarity_matrix.shape[0]
     n_excluded = len(exclude)
 
-    if start_index >= n_samples:
+    if start_index < 0 or start_index >= n_samples:
         raise ValueError('Start index %r is out of bounds (n_samples = %d)' %
                          (start_index, n_samples))
 
-- 
2.43.0


From a370f9e5fbd5608223f40ed3fa1cdcaefd4b7a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:43 +0000
Subject: [PATCH 26/42] fix: do not advance the global generator in seeded
 piecewise VARX fits

---
 src/reor/pwvarx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 0f23391..1c00302 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -212,7 +212,7 @@ class ClusterPWVARX():
         self._cluster(y, x)
 
         if self.classifier is None:
-            self.classifier = SVC()
+            self.classifier = SVC(random_state=self.random_state)
 
         self.classifier.fit(x, self.cluster_labels_)
         labels = self.classifier.predict(x)
-- 
2.43.0


From 70661b3d582e8298f6669a66cfcfa23a07c76214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 27/42] fix: validate the arguments of the piecewise VARX model

---
 src/reor/pwvarx.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 1c00302..813f53f 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -6,12 +6,16 @@ Provides routines for fitting piecewise VARX models.
 from __future__ import division
 
 from copy import deepcopy
+import numbers
 import numpy as np
 
 from sklearn.cluster import KMeans
 from sklearn.svm import SVC
 
 
+INTEGER_TYPES = (numbers.Integral, np.integer)
+
+
 class ClusterPWVARX():
     """Piecewise VARX model with clustering of phase space.
 
@@ -47,6 +51,11 @@ class ClusterPWVARX():
     def __init__(self, n_components, p, s=0, include_trend=True,
                  clusterer=None, classifier=None, **kwargs):
 
+        for order in (p, s):
+            if not isinstance(order, INTEGER_TYPES) or order < 0:
+                raise ValueError('VAR orders must be non-negative integers; '
+                                 'got %r' % order)
+
         self.n_components = n_components
         self.p = p
         self.s = s
@@ -77,6 +86,11 @@ class ClusterPWVARX():
                 exog = np.expand_dims(exog, -1)
             else:
                 n_exog = exog.shape[1]
+
+            if exog.shape[0] != n_samples:
+                raise ValueError(
+                    'Number of exogeneous data samples does not match '
+                    'number of endogeneous samples')
         else:
             n_exog = 0
 
@@ -200,6 +214,10 @@ class ClusterPWVARX():
         if self.n_components is None:
             self.n_components = n_endog
 
+        if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
+            raise ValueError('Number of components must be a positive integer;'
+                             ' got (n_components=%r)' % self.n_components)
+
         presample_length = max(self.p, self.s)
 
         if endog.ndim == 1:
-- 
2.43.0


From 279d7e5b39fe6672ec0a1f69c9290ce89382ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:48 +0000
Subject: [PATCH 28/42] fix: mark forecasts without enough history for zero
 dictionary elements

---
 src/reor/gpnh_convex_coding_crom.py | 6 +++++-
 src/reor/mtd_convex_coding.py       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index 1b5ee05..398dc0f 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -428,4 +428,8 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
                 lagged_weights[-1] = next_weights
             predicted_weights[i] = lagged_weights[-1]
 
-        return self.inverse_transform(predicted_weights)
+        forecast = self.inverse_transform(predicted_weights)
+        # Products of NaN and zero dictionary elements need not be NaN.
+        forecast[:max_lag - 1] = np.NaN
+
+        return forecast
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index d40dc59..7062205 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -978,7 +978,11 @@ class MTDConvexCoding():
                 lagged_weights[-1] = next_weights
             predicted_weights[i] = lagged_weights[-1]
 
-        return self.inverse_transform(predicted_weights)
+        forecast = self.inverse_transform(predicted_weights)
+        # Products of NaN and zero dictionary elements need not be NaN.
+        forecast[:max_lag - 1] = np.NaN
+
+        return forecast
 
     def inverse_transform(self, weights):
         """Transform data back into its original space.
-- 
2.43.0


From e87895b6b7ef89eed3b5120927794288b22dc6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:58 +0000
Subject: [PATCH 29/42] fix: allow for the size of the dictionary when checking
 for cost increases

---
 src/reor/gpnh_convex_coding.py |  8 +++++++-
 src/reor/mtd_convex_coding.py  | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index be828b2..98c9749 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -518,13 +518,19 @@ class GPNHConvexCoding():
 
         old_cost = self._evaluate_cost()
         new_cost = old_cost
-        cost_scale = (1 + self.epsilon_states) * self.trace_XtX / self.X.size
 
         for n_iter in range(self.max_iterations):
             start_time = time.perf_counter()
 
             old_cost = new_cost
 
+            # Rounding errors in the cost are relative to the larger of the
+            # data and the dictionary, which may not be of similar size.
+            cost_scale = ((1 + self.epsilon_states) *
+                          max(self.trace_XtX,
+                              self.X.shape[0] * self.SSt.diagonal().max()) /
+                          self.X.size)
+
             if update_dictionary:
                 self._update_dictionary()
                 new_cost = self._evaluate_cost()
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 7062205..3d1854d 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -715,14 +715,20 @@ class MTDConvexCoding():
 
         old_cost = self._evaluate_cost()
         new_cost = old_cost
-        cost_scale = (1 + self.epsilon_states) * self.trace_XtX / self.X.size
-        cost_scale += self.epsilon_weights
 
         for n_iter in range(self.max_iterations):
             start_time = time.perf_counter()
 
             old_cost = new_cost
 
+            # Rounding errors in the cost are relative to the larger of the
+            # data and the dictionary, which may not be of similar size.
+            cost_scale = ((1 + self.epsilon_states) *
+                          max(self.trace_XtX,
+                              self.X.shape[0] * self.SSt.diagonal().max()) /
+                          self.X.size)
+            cost_scale += self.epsilon_weights
+
             if update_dictionary:
                 self._update_dictionary()
                 new_cost = self._evaluate_cost()
-- 
2.43.0


From fa09ff520fbd92defb04e70846d9558c075bf539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:02 +0000
Subject: [PATCH 30/42] fix: drop exogenous coefficients when refitting the
 piecewise VARX model without exogenous data

---
 src/reor/pwvarx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 813f53f..e68d912 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -142,6 +142,7 @@ class ClusterPWVARX():
             self.B = np.zeros((self.n_components, self.s, n_endog, n_exog))
         else:
             n_exog = 0
+            self.B = None
 
         self.Sigma_u = np.zeros((self.n_components, n_endog, n_endog))
         self.residuals = np.zeros(y.shape)
-- 
2.43.0


From 181fe5eb85c54aaf6848bd1e6497bce0ea96a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:36 +0000
Subject: [PATCH 31/42] fix: use the documented default tolerance in archetypal
 analysis

---
 src/reor/archetypal_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index d4a6a54..47e7bab 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -222,7 +222,7 @@ class KernelAA():
         self.n_components = n_components
         self.delta = kwargs.get('delta', 0.0)
         self.init = kwargs.get('init', None)
-        self.tolerance = kwargs.get('tolerance', 1e-4)
+        self.tolerance = kwargs.get('tolerance', 1e-6)
         self.max_iterations = kwargs.get('max_iterations', 1000)
         self.verbose = kwargs.get('verbose', 0)
         self.random_state = kwargs.get('random_state', None)
-- 
2.43.0


From 6c0d98ef001804f8f609f09567ad559d299e204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:34 +0000
Subject: [PATCH 32/42] fix: project vectors of unsigned or small integers onto
 the simplex

---
 src/reor/simplex_projection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reor/simplex_projection.py b/src/reor/simplex_projection.py
index bb7ddac..535faee 100644
--- a/src/reor/simplex_projection.py
+++ b/src/reor/simplex_projection.py
@@ -9,6 +9,11 @@ import numpy as np
 def simplex_project_vector(x, out=None):
     """Project vector onto standard simplex."""
 
+    x = np.asarray(x)
+    if x.dtype.kind != 'f':
+        # The differences below may not be representable as (small) integers.
+        x = x.astype('f8')
+
     # The projection is invariant under a uniform shift of the entries. Shifting
     # the largest entry to zero avoids losing the unit sum to rounding when
     # the entries are large.
-- 
2.43.0


From 485bab0341baf6b580e7ba72a3852e0bde4d5d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:47 +0000
Subject: [PATCH 33/42] fix: accumulate furthest-sum dissimilarities in
 floating point

---
 src/reor/furthest_sum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reor/furthest_sum.py b/src/reor/furthest_sum.py
index 6460634..d9d5ef4 100644
--- a/src/reor/furthest_sum.py
+++ b/src/reor/furthest_sum.py
@@ -55,6 +55,9 @@ def _furthest_sum_impl(dissimilarity_matrix, n_components, start_index,
     if exclude is None:
         exclude = []
 
+    # Sums of dissimilarities may overflow (small) integer types.
+    dissimilarity_matrix = dissimilarity_matrix.astype('f8', copy=False)
+
     n_samples = dissimilarity_matrix.shape[0]
     n_excluded = len(exclude)
 
-- 
2.43.0


From 80384947651316ebef6c076dfbac361720c85cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:18 +0000
Subject: [PATCH 34/42] fix: convert data to floating point before computing
 inner products

---
 src/reor/archetypal_analysis.py | 5 +++++
 src/reor/gpnh_convex_coding.py  | 3 +++
 src/reor/mtd_convex_coding.py   | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 47e7bab..c10d9df 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -698,6 +698,8 @@ class KernelAA():
                 'Expected square kernel matrix in %s. '
                 'Got shape %s' % ('kernel_aa', kernel.shape))
 
+        kernel = kernel.astype('f8', copy=False)
+
         if self.n_components is None:
             self.n_components = n_samples
 
@@ -965,6 +967,8 @@ class ArchetypalAnalysis(KernelAA):
             Representation of the data.
         """
         if self.kernel_func is None:
+            # Inner products may overflow (small) integer types.
+            data = data.astype('f8', copy=False)
             kernel = np.dot(data, data.T)
         else:
             kernel = self.kernel_func(data)
@@ -996,6 +1000,7 @@ class ArchetypalAnalysis(KernelAA):
         """
 
         if self.kernel_func is None:
+            data = data.astype('f8', copy=False)
             kernel = data.dot(data.T)
         else:
             kernel = self.kernel_func(data)
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 98c9749..c3e179e 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -570,6 +570,9 @@ class GPNHConvexCoding():
 
         n_samples, n_features = data.shape
 
+        # Inner products may overflow (small) integer types.
+        data = data.astype('f8', copy=False)
+
         if self.n_components is None:
             self.n_components = n_features
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 3d1854d..7f473fc 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -778,6 +778,9 @@ class MTDConvexCoding():
         n_samples, n_features = data.shape
         n_lags = self.lags.size
 
+        # Inner products may overflow (small) integer types.
+        data = data.astype('f8', copy=False)
+
         if self.n_components is None:
             self.n_components = n_features
 
-- 
2.43.0


From 5adb1510c3046a37d3281ce4408cf7b48c10f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:31 +0000
Subject: [PATCH 35/42] fix: accept integer initial guesses in the matrix
 factorizations

---
 src/reor/archetypal_analysis.py | 4 ++--
 src/reor/gpnh_convex_coding.py  | 4 ++--
 src/reor/mtd_convex_coding.py   | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index c10d9df..02568d6 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -736,8 +736,8 @@ class KernelAA():
                 random_state=self.random_state, **kwargs)
 
         self.K = kernel.copy()
-        self.S = weights.copy()
-        self.C = dictionary.copy()
+        self.S = weights.astype('f8', order='C')
+        self.C = dictionary.astype('f8', order='C')
 
         self._initialize_workspace()
 
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index c3e179e..69c3c79 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -609,8 +609,8 @@ class GPNHConvexCoding():
                 random_state=self.random_state, **kwargs)
 
         self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
+        self.Gamma = weights.astype('f8', order='C')
+        self.S = dictionary.astype('f8', order='C')
 
         self._initialize_workspace()
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 7f473fc..fa4439f 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -836,10 +836,10 @@ class MTDConvexCoding():
                         random_state=self.random_state)
 
         self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
-        self.order_weights = order_weights.copy()
-        self.transition_matrices = transition_matrices.copy()
+        self.Gamma = weights.astype('f8', order='C')
+        self.S = dictionary.astype('f8', order='C')
+        self.order_weights = order_weights.astype('f8', order='C')
+        self.transition_matrices = transition_matrices.astype('f8', order='C')
 
         self._initialize_workspace()
 
-- 
2.43.0


From ab5190407def342fd70908c3d54e1f496fc445fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:51 +0000
Subject: [PATCH 36/42] fix: take square roots of integer weights in the
 precision of the data

---
 src/reor/fembv_varx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index a09da30..0010a7c 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -127,6 +127,8 @@ class FEMBVVARXLocalLinearModel():
                 raise ValueError('Number of weights does not match '
                                  'number of samples')
 
+            # Square roots of small integers have half precision.
+            weights = weights.astype(self._y.dtype, copy=False)
             w = np.sqrt(weights[presample_length:])
 
             params = np.linalg.lstsq(
-- 
2.43.0


From 36f4ce74520c6c7536f38e80c227b1977958d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:05 +0000
Subject: [PATCH 37/42] fix: convert initial FEM-BV affiliations to double
 precision

---
 src/reor/fembv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 855abb2..ca0ad90 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -176,7 +176,7 @@ class FEMBV():
         if init == 'custom' and weights is not None:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_initialize_weights (input weights)')
-            self.Gamma = weights.copy()
+            self.Gamma = weights.astype('f8', order='C')
         else:
             self.Gamma = _initialize_fembv_weights(
                 n_samples, n_components=self.n_components, unused_init=init,
-- 
2.43.0


From f6eac49aef1b67848f688d6d158556d08469ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:27 +0000
Subject: [PATCH 38/42] fix: select furthest-sum indices beyond the range of a
 small start index type

---
 src/reor/furthest_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/furthest_sum.py b/src/reor/furthest_sum.py
index d9d5ef4..115e561 100644
--- a/src/reor/furthest_sum.py
+++ b/src/reor/furthest_sum.py
@@ -75,7 +75,7 @@ def _furthest_sum_impl(dissimilarity_matrix, n_components, start_index,
             '(n_components=%d, n_samples=%d, n_excluded=%d)' %
             (n_components, n_samples, n_excluded))
 
-    selected = np.full((n_components,), start_index)
+    selected = np.full((n_components,), start_index, dtype='i8')
 
     def is_valid_candidate(index):
         is_valid = True
-- 
2.43.0


From d6db179168e85ac92223e1261de11623ab63e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:10 +0000
Subject: [PATCH 39/42] fix: normalize distances in the FEM-BV linear programme

---
 src/reor/fembv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index ca0ad90..651d2f1 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -225,6 +225,12 @@ class FEMBV():
         c = np.zeros((n_weight_parameters,))
         c[:self.Gamma.size] = self.distance_matrix.ravel()
 
+        # The tolerances of the solvers are absolute, i.e., suited to
+        # distances of order one.
+        max_distance = self.distance_matrix.max()
+        if max_distance > 0:
+            c /= max_distance
+
         constraints = [self.A_eq @ gamma_vec == self.b_eq,
                        self.A_ub @ gamma_vec <= self.b_ub]
 
-- 
2.43.0


From d8073e7904fe6463c52dd22b68f3d8eb5b7cc889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:18 +0000
Subject: [PATCH 40/42] fix: keep outliers from coarsening the FEM-BV linear
 programme

---
 src/reor/fembv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 651d2f1..2586d5a 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -225,11 +225,11 @@ class FEMBV():
         c = np.zeros((n_weight_parameters,))
         c[:self.Gamma.size] = self.distance_matrix.ravel()
 
-        # The tolerances of the solvers are absolute, i.e., suited to
-        # distances of order one.
+        # The tolerances of the solvers are absolute. The largest distance
+        # may exceed the others by orders of magnitude.
         max_distance = self.distance_matrix.max()
         if max_distance > 0:
-            c /= max_distance
+            c = 1e6 * (c / max_distance)
 
         constraints = [self.A_eq @ gamma_vec == self.b_eq,
                        self.A_ub @ gamma_vec <= self.b_ub]
-- 
2.43.0


From 00033710e1bbbd1a2d33e6cd6855710e15746e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:42 +0000
Subject: [PATCH 41/42] fix: draw the start of FurthestSum initialisations
 among the samples that are not excluded

---
 src/reor/archetypal_analysis.py | 8 +++++---
 src/reor/gpnh_convex_coding.py  | 8 +++++---
 src/reor/mtd_convex_coding.py   | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 02568d6..6f12ae3 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -65,12 +65,14 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
     rng = check_random_state(random_state)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        # Excluded samples may not be selected.
+        candidates = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = candidates[rng.randint(candidates.size)]
+
     kernel_diag = np.diag(kernel)
     squared_distances = (
         np.tile(kernel_diag, (n_samples, 1)) -
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 69c3c79..9f06802 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -56,12 +56,14 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
     kernel = data.dot(data.T)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        # Excluded samples may not be selected.
+        candidates = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = candidates[rng.randint(candidates.size)]
+
     kernel_diag = np.diag(kernel)
     squared_distances = (
         np.tile(kernel_diag, (n_samples, 1)) -
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index fa4439f..649da51 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -68,12 +68,14 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
     kernel = data.dot(data.T)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        # Excluded samples may not be selected.
+        candidates = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = candidates[rng.randint(candidates.size)]
+
     kernel_diag = np.diag(kernel)
     squared_distances = (
         np.tile(kernel_diag, (n_samples, 1)) -
-- 
2.43.0


From e3ef074d17e6ee361b3a26e353c2cab82d8d5b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:57 +0000
Subject: [PATCH 42/42] fix: count samples excluded repeatedly from FurthestSum
 once

---
 src/reor/furthest_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/furthest_sum.py b/src/reor/furthest_sum.py
index 115e561..d89ccfe 100644
--- a/src/reor/furthest_sum.py
+++ b/src/reor/furthest_sum.py
@@ -59,7 +59,7 @@ def _furthest_sum_impl(dissimilarity_matrix, n_components, start_index,
     dissimilarity_matrix = dissimilarity_matrix.astype('f8', copy=False)
 
     n_samples = dissimilarity_matrix.shape[0]
-    n_excluded = len(exclude)
+    n_excluded = len(set(exclude))
 
     if start_index < 0 or start_index >= n_samples:
         raise ValueError('Start index %r is out of bounds (n_samples = %d)' %
-- 
2.43.0

