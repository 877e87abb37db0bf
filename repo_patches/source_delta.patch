From f278879c0b1ca43dc35d6fd73f45b2aed9fbb7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 01/30] fix: look up table is defined at the last tabulated
 discrimination

---
 estimation/utilities/look_up_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/utilities/look_up_table.py b/estimation/utilities/look_up_table.py
index 98ccd2b..c1df7c1 100644
--- a/estimation/utilities/look_up_table.py
+++ b/estimation/utilities/look_up_table.py
@@ -67,7 +67,7 @@ def create_beta_LUT(alpha, beta, options=None):
     def interpolate_function(alpha_value, p_value):
         tmp = interp_a(alpha_value)
         tmpL = int(tmp)
-        tmpH = int(tmp + 1)
+        tmpH = min(tmpL + 1, len(func_list) - 1)
         dx = tmp - tmpL
         return ((1 - dx) * func_list[tmpL](p_value) + 
                 dx * func_list[tmpH](p_value))        
-- 
2.43.0


From b47bbaa6f10e8bea55ae1c25c520ccc5a2fefec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 02/30] fix: maximum likelihood abilities ignore missing data
 when no estimate exists

A constant response set with missing items was given the wrong sign of
no_estimate, or the edge of the search interval.
---
 .../unidimensional/dichotomous/ability_estimation.py  | 11 +++++------
 .../unidimensional/dichotomous/ability_threepl.py     |  8 +++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_estimation.py b/estimation/unidimensional/dichotomous/ability_estimation.py
index 0d7bb89..70cbe43 100644
--- a/estimation/unidimensional/dichotomous/ability_estimation.py
+++ b/estimation/unidimensional/dichotomous/ability_estimation.py
@@ -33,11 +33,10 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     Returns:
         abilities: (1d array) estimated abilities
     """
-    # Find any missing data
-    bad_mask = dataset == INVALID_RESPONSE
-
-    # Locations where endorsement isn't constant
-    mask = ~(np.ma.masked_array(dataset, bad_mask).var(axis=0) == 0)
+    # Locations where endorsement isn't constant, missing data is ignored
+    has_false = np.any(dataset == 0, axis=0)
+    has_true = np.any(dataset == 1, axis=0)
+    mask = has_false & has_true
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -51,7 +50,7 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~mask & has_false
     thetas[mask2] *= -1
 
     return thetas
diff --git a/estimation/unidimensional/dichotomous/ability_threepl.py b/estimation/unidimensional/dichotomous/ability_threepl.py
index 9974f5a..403fa4c 100644
--- a/estimation/unidimensional/dichotomous/ability_threepl.py
+++ b/estimation/unidimensional/dichotomous/ability_threepl.py
@@ -30,8 +30,10 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     Returns:
         abilities: (1d array) estimated abilities
     """
-    # Locations where endorsement isn't constant
-    mask = np.nanvar(dataset, axis=0) > 0
+    # Locations where endorsement isn't constant, missing data is ignored
+    has_false = np.any(dataset == 0, axis=0)
+    has_true = np.any(dataset == 1, axis=0)
+    mask = has_false & has_true
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -46,7 +48,7 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~mask & has_false
     thetas[mask2] *= -1
 
     return thetas
-- 
2.43.0


From 78d0fbe9a4194db5047cd1db25ce524c4494c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 03/30] fix: tagging missing data does not wrap the marker in
 narrow types

---
 estimation/utilities/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 595f800..3dc721a 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -24,7 +24,8 @@ def tag_missing_data(dataset, valid_responses):
                          invalid_fill
     """
     mask = np.isin(dataset, valid_responses)
-    output = dataset.copy()
+    output = np.array(dataset)
+    output = output.astype(np.result_type(output.dtype, np.int32))
     output[~mask] = INVALID_RESPONSE
     
     return output
-- 
2.43.0


From 2b3ec1a4c4f632143c5115d08ff478e926a1fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 04/30] fix: estimation accepts boolean, narrow and float coded
 responses

Responses are used as indices: boolean and float data raised errors and
narrow integers silently overflowed.
---
 estimation/multidimensional/multidimensional_initial_guess.py | 2 +-
 estimation/unidimensional/dichotomous/ability_estimation.py   | 2 +-
 estimation/unidimensional/dichotomous/rasch_conditional.py    | 2 +-
 estimation/unidimensional/dichotomous/rasch_mml.py            | 2 +-
 estimation/utilities/polytomous_utils.py                      | 3 +++
 5 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/estimation/multidimensional/multidimensional_initial_guess.py b/estimation/multidimensional/multidimensional_initial_guess.py
index 5852f51..96f8ca7 100644
--- a/estimation/multidimensional/multidimensional_initial_guess.py
+++ b/estimation/multidimensional/multidimensional_initial_guess.py
@@ -52,7 +52,7 @@ def initial_guess_md(dataset, n_factors, options=None):
     valid_mask = dataset != INVALID_RESPONSE
 
     unique_values = np.unique(dataset[valid_mask])
-    start_value, stop_value = unique_values[0], unique_values[-1]
+    start_value, stop_value = int(unique_values[0]), int(unique_values[-1])
 
     correlation = polychoric_correlation(dataset, start_value,
                                          stop_value, options['num_processors'])
diff --git a/estimation/unidimensional/dichotomous/ability_estimation.py b/estimation/unidimensional/dichotomous/ability_estimation.py
index 70cbe43..289b488 100644
--- a/estimation/unidimensional/dichotomous/ability_estimation.py
+++ b/estimation/unidimensional/dichotomous/ability_estimation.py
@@ -135,7 +135,7 @@ def ability_eap(dataset, difficulty, discrimination, options=None):
                                  dtype='float')
 
     invalid_response_mask = dataset == INVALID_RESPONSE
-    unique_sets = dataset.copy()
+    unique_sets = dataset.astype('int')
     unique_sets[invalid_response_mask] = 0 # For Indexing, fixed later
 
     theta, weights = _get_quadrature_points(quad_n, quad_start, quad_stop)
diff --git a/estimation/unidimensional/dichotomous/rasch_conditional.py b/estimation/unidimensional/dichotomous/rasch_conditional.py
index 2bec43e..137bccc 100644
--- a/estimation/unidimensional/dichotomous/rasch_conditional.py
+++ b/estimation/unidimensional/dichotomous/rasch_conditional.py
@@ -45,7 +45,7 @@ def rasch_conditional(dataset, discrimination=1, options=None):
     """
     options = validate_estimation_options(options)
     n_items = dataset.shape[0]
-    unique_sets, counts = np.unique(dataset, axis=1, return_counts=True)
+    unique_sets, counts = np.unique(dataset.astype('int'), axis=1, return_counts=True)
 
     # Initialize all the difficulty parameters to zeros
     # Set an identifying_mean to zero
diff --git a/estimation/unidimensional/dichotomous/rasch_mml.py b/estimation/unidimensional/dichotomous/rasch_mml.py
index 144f03d..a9ff99b 100644
--- a/estimation/unidimensional/dichotomous/rasch_mml.py
+++ b/estimation/unidimensional/dichotomous/rasch_mml.py
@@ -77,7 +77,7 @@ def onepl_mml(dataset, alpha=None, options=None):
     n_no, n_yes = get_true_false_counts(dataset)
     scalar = n_yes / (n_yes + n_no)
 
-    unique_sets, counts = np.unique(dataset, axis=1, return_counts=True)
+    unique_sets, counts = np.unique(dataset.astype('int'), axis=1, return_counts=True)
     invalid_response_mask = unique_sets == INVALID_RESPONSE
     unique_sets[invalid_response_mask] = 0 # For Indexing, fixed later
 
diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 8c79791..48877a8 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -26,6 +26,9 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
         valid_response_mask: (2d_array) boolean mask of valid responses
                              that is the same size as dataset
     """
+    # Linear indices do not fit in narrow types and must be integers
+    dataset = dataset.astype('int')
+
     # Remove all no / yes endorsements
     valid_response_mask = dataset != INVALID_RESPONSE
     min_value = np.min(dataset[valid_response_mask])
-- 
2.43.0


From 6d5227b9e713cb3e6c9a046c59c543b087d197af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 05/30] fix: synthetic dichotomous data does not truncate
 scalar parameters

A scalar discrimination or guessing was rounded down when the difficulties
were integers.
---
 synthetic/dichotomous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/synthetic/dichotomous.py b/synthetic/dichotomous.py
index fa2e79f..2787cb9 100644
--- a/synthetic/dichotomous.py
+++ b/synthetic/dichotomous.py
@@ -32,10 +32,10 @@ def create_synthetic_irt_dichotomous(difficulty, discrimination, thetas,
     rng = np.random.default_rng(seed)
 
     if np.size(discrimination) == 1:
-        discrimination = np.full_like(difficulty, discrimination)
+        discrimination = np.full_like(difficulty, discrimination, dtype='float')
 
     if np.size(guessing) == 1:
-        guessing = np.full_like(difficulty, guessing)
+        guessing = np.full_like(difficulty, guessing, dtype='float')
 
     if np.ndim(discrimination) == 1:
         kernel = thetas[None, :] - difficulty[:, None]
-- 
2.43.0


From f38279748b828f007e68cf373ae2e58b7a73d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 06/30] fix: contingency table counts pairs with negative or
 narrow codes

Different pairs shared a linear index when the first code was negative or
the index overflowed the type of the data.
---
 common/polychoric.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index 7c45253..a0a94f3 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -44,11 +44,10 @@ def contingency_table(vals1, vals2, start_val=1, stop_val=5):
     n_vals = stop_val - start_val + 1
     cont_table = np.zeros((n_vals, n_vals))
 
-    linear_ndx = vals1 * (stop_val+1) + vals2
     for ndx1, ndx2 in product(range(start_val, n_vals+start_val), 
                               range(start_val, n_vals+start_val)):
-        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero(ndx1*(stop_val+1)+ndx2
-                                                                      == linear_ndx)
+        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero((vals1 == ndx1) &
+                                                                      (vals2 == ndx2))
     return cont_table
 
 
-- 
2.43.0


From 7d3f060bed28efb5dca2fa2f26603b59e24e2f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 07/30] fix: parallel polychoric correlation of a single item

---
 common/polychoric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index a0a94f3..9705b53 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -149,7 +149,7 @@ def polychoric_correlation(ordinal_data, start_val=1, stop_val=5, num_processors
         return polychoric_correlation_serial(ordinal_data, start_val, stop_val)
     
     indices = np.tril_indices(ordinal_data.shape[0], -1)
-    chunk_indices = np.array_split(list(zip(*indices)), num_processors)
+    chunk_indices = np.array_split(np.column_stack(indices), num_processors)
 
     # Do the parallel calculation
     with SharedMemoryManager() as smm:
-- 
2.43.0


From 2cbcef110b563acc9834b68cad7ff65a7bf3f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 08/30] fix: entropy of integer arrays

---
 common/entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/entropy.py b/common/entropy.py
index b9cad89..fc73dec 100644
--- a/common/entropy.py
+++ b/common/entropy.py
@@ -15,7 +15,7 @@ def entropy(the_array, axis=1):
     Return:
         entropy value
     """
-    power = the_array * the_array
+    power = np.square(the_array, dtype='float')
     sum_power = power.sum(axis=axis)
     if axis:
         power /= sum_power.reshape(-1, 1)
-- 
2.43.0


From 0aa1df264b44d0a675f6394bf931eff8aee24f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 09/30] fix: joint estimation drops persons without any valid
 response

Their ability is not defined and distorted the standardization.
---
 estimation/utilities/polytomous_utils.py | 3 ++-
 estimation/utilities/utils.py            | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 48877a8..f855f98 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -41,7 +41,8 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
         ratio_score_sums = raw_score_sums / valid_score_sums
 
         mask = ((ratio_score_sums == min_value) | 
-                (ratio_score_sums == max_value))
+                (ratio_score_sums == max_value) |
+                (valid_score_sums == 0))
         dataset = dataset[:, ~mask]
         valid_response_mask = dataset != INVALID_RESPONSE
     
diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 3dc721a..be39e49 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -119,8 +119,9 @@ def trim_response_set_and_counts(response_sets, counts):
     # Find any missing data
     bad_mask = response_sets == INVALID_RESPONSE
 
-    # Remove response sets where output is all true/false
-    mask = ~(np.ma.masked_array(response_sets, bad_mask).var(axis=0) == 0)
+    # Remove response sets where output is all true/false or all missing
+    variance = np.ma.masked_array(response_sets, bad_mask).var(axis=0)
+    mask = np.ma.filled(variance, 0) != 0
     response_sets = response_sets[:, mask]
     counts = counts[mask]
 
-- 
2.43.0


From 295d4553d8f9a626f57d2309db0a7bef9210386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 10/30] fix: classical statistics skip persons without a score

A single person without a valid response turned the statistics into nan.
---
 common/cronbach_alpha.py               | 4 +++-
 estimation/utilities/ctt_statistics.py | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/common/cronbach_alpha.py b/common/cronbach_alpha.py
index c2e0975..6e0d5d2 100644
--- a/common/cronbach_alpha.py
+++ b/common/cronbach_alpha.py
@@ -24,8 +24,10 @@ def cronbach_alpha(data):
     valid_mask = data != INVALID_RESPONSE
     
     item_variance = np.var(data, axis=1, ddof=1, where=valid_mask).sum()
+    answered = valid_mask.any(axis=0)
     people_variance = (n_items * n_items
-                       * np.mean(data, axis=0, where=valid_mask).var(ddof=1))
+                       * np.mean(data[:, answered], axis=0, 
+                                 where=valid_mask[:, answered]).var(ddof=1))
     
     return (n_items / (n_items - 1) 
             * (1 - item_variance / people_variance))
\ No newline at end of file
diff --git a/estimation/utilities/ctt_statistics.py b/estimation/utilities/ctt_statistics.py
index 5445cc7..bbd0372 100644
--- a/estimation/utilities/ctt_statistics.py
+++ b/estimation/utilities/ctt_statistics.py
@@ -46,12 +46,12 @@ def classical_test_statistics(dataset, start_value=1, stop_value=5):
 
         valid_mask_subset = valid_mask[data_subset]
         dataset_subset = dataset[data_subset]
-        total_sub_score = dataset_subset.mean(axis=0, 
-                                              where=valid_mask_subset)
         
-        valid_item_mask = valid_mask[item_ndx]
+        # The score on the other items must exist
+        valid_item_mask = valid_mask[item_ndx] & valid_mask_subset.any(axis=0)
         
-        total_sub_score_valid = total_sub_score[valid_item_mask]
+        total_sub_score_valid = dataset_subset[:, valid_item_mask].mean(
+            axis=0, where=valid_mask_subset[:, valid_item_mask])
         dataset_valid = dataset[item_ndx][valid_item_mask]
         
         item_corr = np.corrcoef(total_sub_score_valid,
-- 
2.43.0


From 65bbf8de8f6ff3372f7e4e556520167df80461bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 11/30] fix: 3PL abilities of a single person are an array

The axis of persons was dropped when there was only one.
---
 estimation/unidimensional/dichotomous/partial_integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/unidimensional/dichotomous/partial_integrals.py b/estimation/unidimensional/dichotomous/partial_integrals.py
index f0edd0a..5dd2e0a 100644
--- a/estimation/unidimensional/dichotomous/partial_integrals.py
+++ b/estimation/unidimensional/dichotomous/partial_integrals.py
@@ -60,4 +60,4 @@ def _compute_partial_integral_3pl(theta, difficulty, discrimination, guessing, t
     otpt = (1.0 / (1.0 + np.exp(kernel))) * (1 - guessing[:, None, None])
     otpt += 0.5 * (1 - the_sign[:, :, None]) * guessing[:, None, None]
 
-    return otpt.prod(axis=0).squeeze()
+    return otpt.prod(axis=0)
-- 
2.43.0


From e120646b12cbee7c6e8804b4240d4132aebe4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 12/30] fix: gum_mml erased all locations when the designated
 one was zero

---
 estimation/unidimensional/polytomous/gum_mml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estimation/unidimensional/polytomous/gum_mml.py b/estimation/unidimensional/polytomous/gum_mml.py
index b20555f..8ddfcd3 100644
--- a/estimation/unidimensional/polytomous/gum_mml.py
+++ b/estimation/unidimensional/polytomous/gum_mml.py
@@ -152,7 +152,8 @@ def gum_mml(dataset, delta_sign=(0, 1), options=None):
             break
 
     # Adjust delta values to conform to delta sign
-    delta *= np.sign(delta[delta_ndx]) * delta_multiplier
+    if delta[delta_ndx] * delta_multiplier < 0:
+        delta *= -1
 
     # Recompute partial int for later calculations
     partial_int = np.ones((responses.shape[1], theta.size))
-- 
2.43.0


From 35f4286753709adb6be6e9e7968cc232df69936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 13/30] fix: gum_mml kept the estimated distribution when
 mirroring the locations

---
 estimation/unidimensional/polytomous/gum_mml.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/estimation/unidimensional/polytomous/gum_mml.py b/estimation/unidimensional/polytomous/gum_mml.py
index 8ddfcd3..4c994af 100644
--- a/estimation/unidimensional/polytomous/gum_mml.py
+++ b/estimation/unidimensional/polytomous/gum_mml.py
@@ -155,6 +155,13 @@ def gum_mml(dataset, delta_sign=(0, 1), options=None):
     if delta[delta_ndx] * delta_multiplier < 0:
         delta *= -1
 
+        # An estimated distribution is mirrored with the locations
+        if latent_pdf.estimate_distribution and iteration > 0:
+            cubic_spline = latent_pdf.cubic_splines[-1]
+            cubic_spline.update_coefficients(
+                cubic_spline.coefficients[2:-2][::-1].copy())
+            distribution_x_weight = cubic_spline(theta) * latent_pdf.weights
+
     # Recompute partial int for later calculations
     partial_int = np.ones((responses.shape[1], theta.size))
     for item_ndx in range(n_items):
-- 
2.43.0


From b4b3a5bb4d379596aad952bb8786cc1725d21056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 14/30] fix: cubic spline of integer locations is not truncated

---
 estimation/utilities/latent_ability_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/utilities/latent_ability_distribution.py b/estimation/utilities/latent_ability_distribution.py
index 4a5901e..050bd7c 100644
--- a/estimation/utilities/latent_ability_distribution.py
+++ b/estimation/utilities/latent_ability_distribution.py
@@ -111,7 +111,7 @@ class CubicSplinePDF(object):
             y_value: result of cubic spline evaluationn
         """
         abs_x = np.abs(x_position)
-        y_value = np.zeros_like(abs_x)
+        y_value = np.zeros_like(abs_x, dtype='float')
         y1 = 2. / 3. - np.power(abs_x, 2) + np.power(abs_x, 3) * 0.5
         y2 = np.power(2 - abs_x, 3) / 6
         y_value[abs_x < 2] = y2[abs_x < 2]
-- 
2.43.0


From 8b1c42351d973fb3f779443df08d8d9458c04ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:38 +0000
Subject: [PATCH 15/30] fix: synthetic dichotomous data from integer parameters

---
 synthetic/dichotomous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/synthetic/dichotomous.py b/synthetic/dichotomous.py
index 2787cb9..3e3fef9 100644
--- a/synthetic/dichotomous.py
+++ b/synthetic/dichotomous.py
@@ -38,11 +38,11 @@ def create_synthetic_irt_dichotomous(difficulty, discrimination, thetas,
         guessing = np.full_like(difficulty, guessing, dtype='float')
 
     if np.ndim(discrimination) == 1:
-        kernel = thetas[None, :] - difficulty[:, None]
+        kernel = thetas[None, :] - difficulty[:, None].astype('float')
         kernel *= discrimination[:, None]
 
     elif np.ndim(discrimination) == 2:
-        kernel = discrimination @ thetas
+        kernel = (discrimination @ thetas).astype('float')
         kernel += difficulty[:, None]
     
     else:
-- 
2.43.0


From 702f9e71d04c05d3d5b49c491773cdf08fc7c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 16/30] fix: unfolding thresholds must be symmetric pair by
 pair

---
 synthetic/polytomous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synthetic/polytomous.py b/synthetic/polytomous.py
index c496cb2..82cfc8c 100644
--- a/synthetic/polytomous.py
+++ b/synthetic/polytomous.py
@@ -115,7 +115,8 @@ def _check_difficulty_parameters(difficulty, model):
         adjusted_difficulty = (difficulty -
                                difficulty[:, middle_index][:, None])
 
-        if not np.all(np.abs(adjusted_difficulty.sum(axis=1)) < 1e-7):
+        if not np.all(np.abs(adjusted_difficulty +
+                             adjusted_difficulty[:, ::-1]) < 1e-7):
             raise AssertionError("Difficulty Parameters must be "
                                  "symmetric about offset")
 
-- 
2.43.0


From 6a37c210779d2170f1df1c1a5fa9e78a82553286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:32 +0000
Subject: [PATCH 17/30] fix: bootstrap errors of multidimensional
 discriminations

---
 estimation/utilities/bootstrap_errors.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/estimation/utilities/bootstrap_errors.py b/estimation/utilities/bootstrap_errors.py
index dc6d511..79941d6 100644
--- a/estimation/utilities/bootstrap_errors.py
+++ b/estimation/utilities/bootstrap_errors.py
@@ -66,6 +66,7 @@ Returns:
         solution = irt_model(dataset, options=options)
         
     difficulty_shape = solution['Difficulty'].shape
+    discrimination_shape = np.atleast_1d(solution['Discrimination']).shape
 
     # Parallel Random Number Generators
     rngs = [np.random.default_rng(s) for s in seq.spawn(n_processors)]
@@ -91,25 +92,26 @@ Returns:
     for result in results:
         for sub_result in result:
             difficulty_list.append(sub_result['Difficulty'].ravel())
-            discrimination_list.append(sub_result['Discrimination'])
+            discrimination_list.append(np.ravel(sub_result['Discrimination']))
     
     # Concatenate the samples
     discrimination_bootstrap = np.vstack(discrimination_list)
     difficulty_bootstrap = np.vstack(difficulty_list)
     
     # Percentiles
-    discrimination_ci = [np.percentile(discrimination_bootstrap, 2.5, axis=0), 
-                         np.percentile(discrimination_bootstrap, 97.5, axis=0)]
+    discrimination_ci = [
+        np.percentile(discrimination_bootstrap, 2.5, axis=0).reshape(discrimination_shape), 
+        np.percentile(discrimination_bootstrap, 97.5, axis=0).reshape(discrimination_shape)]
     difficulty_ci = [np.percentile(difficulty_bootstrap, 2.5, axis=0).reshape(difficulty_shape), 
                      np.percentile(difficulty_bootstrap, 97.5, axis=0).reshape(difficulty_shape)]
     
     # Standard Errors
-    discrimination_se = np.nanstd(discrimination_bootstrap, axis=0, ddof=1)
+    discrimination_se = np.nanstd(discrimination_bootstrap, axis=0, ddof=1).reshape(discrimination_shape)
     difficulty_se = np.nanstd(difficulty_bootstrap, axis=0, ddof=1).reshape(difficulty_shape)
     
     # Bias
     discrimination_bias = (np.nanmean(discrimination_bootstrap, axis=0) - 
-                           solution['Discrimination'])
+                           np.ravel(solution['Discrimination'])).reshape(discrimination_shape)
     
     difficulty_bias = (np.nanmean(difficulty_bootstrap, axis=0) - 
                        solution['Difficulty'].ravel()).reshape(difficulty_shape)
-- 
2.43.0


From 1890fabf471ee1ed9d0685a9a5abd54215c31d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:48 +0000
Subject: [PATCH 18/30] fix: minimum rank factor analysis starts inside its
 search region

---
 factoranalysis/minimum_rank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factoranalysis/minimum_rank.py b/factoranalysis/minimum_rank.py
index 97ae00a..0493202 100644
--- a/factoranalysis/minimum_rank.py
+++ b/factoranalysis/minimum_rank.py
@@ -56,7 +56,8 @@ def minimum_rank_factor_analysis(correlation_matrix, n_factors,
 
     args = (correlation_cholesky, n_factors)
     bounds = [(1, 100),] * (correlation_matrix.shape[0])
-    initial_guess = 1 / np.sqrt(initial_guess)
+    # Heywood cases are outside of the search region
+    initial_guess = 1 / np.sqrt(np.clip(initial_guess, 1e-4, 1))
     
     result = minimize(_mrfa_min_func, initial_guess, args, method='SLSQP',
                       bounds=bounds, options={'maxiter': n_iter}, jac=True)
-- 
2.43.0


From 78e983484ad65a7d6930378cb35b0bc3769a35b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 19/30] fix: maximum likelihood factors beyond the supported
 number are zero

---
 factoranalysis/maximum_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factoranalysis/maximum_likelihood.py b/factoranalysis/maximum_likelihood.py
index b69415f..3ae1922 100644
--- a/factoranalysis/maximum_likelihood.py
+++ b/factoranalysis/maximum_likelihood.py
@@ -50,7 +50,7 @@ def maximum_likelihood_factor_analysis(input_matrix, n_factors, tolerance=1e-7,
         input_tilde = np.diag(psi_sqrt) @ input_matrix @ np.diag(psi_sqrt)
 
         s1, u1 = np.linalg.eigh(input_tilde)  
-        valid_eigs = s1[-n_factors:]
+        valid_eigs = np.maximum(s1[-n_factors:], 1)
         valid_vects = u1[:, -n_factors:]
 
         lower_chol = np.linalg.cholesky(input_tilde).T.copy()
-- 
2.43.0


From 37bee7a92e95b063e1f21db96f33da91356b27b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 20/30] fix: maximum likelihood factors start from floating
 unique variances above their limit

---
 factoranalysis/maximum_likelihood.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/factoranalysis/maximum_likelihood.py b/factoranalysis/maximum_likelihood.py
index 3ae1922..713aa7a 100644
--- a/factoranalysis/maximum_likelihood.py
+++ b/factoranalysis/maximum_likelihood.py
@@ -34,9 +34,12 @@ def maximum_likelihood_factor_analysis(input_matrix, n_factors, tolerance=1e-7,
     loads, _, _ = pca(input_matrix, n_factors)
     
     if initial_guess is None:
-        uvars = np.diag(input_matrix - loads @ loads.T).copy()
+        uvars = np.diag(input_matrix - loads @ loads.T)
     else:
-        uvars = initial_guess.copy()
+        uvars = np.asarray(initial_guess)
+    
+    # Same lower limit as the updates
+    uvars = np.maximum(uvars, 1e-6)
     
     identity_items = np.eye(n_items)
 
-- 
2.43.0


From 5b65c6d2ba964e3786af8b8e93ab3009de58477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:05 +0000
Subject: [PATCH 21/30] fix: maximum likelihood factors propagate the limited
 unique variance

---
 factoranalysis/maximum_likelihood.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/factoranalysis/maximum_likelihood.py b/factoranalysis/maximum_likelihood.py
index 713aa7a..358fc18 100644
--- a/factoranalysis/maximum_likelihood.py
+++ b/factoranalysis/maximum_likelihood.py
@@ -69,7 +69,11 @@ def maximum_likelihood_factor_analysis(input_matrix, n_factors, tolerance=1e-7,
             selected_row = lower_chol @ inv_B[0]
             selected_row = selected_row.dot(selected_row)
             omega = (selected_row - scalar) / scalar**2
-            uvars[ndx] = max(1e-6, (omega + 1) * uvars[ndx])
+            
+            # The limited change is the one to propagate
+            limited = max(1e-6, (omega + 1) * uvars[ndx])
+            omega = limited / uvars[ndx] - 1
+            uvars[ndx] = limited
             
             # Recursively update Inverse of B
             selected_column = inv_B[0, ndx+1:] * (-omega / (1 + omega * scalar))
-- 
2.43.0


From b93cbb622c9b0caaf435077f761541577ce4035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 22/30] fix: entropy of a vector of zeros

---
 common/entropy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/entropy.py b/common/entropy.py
index fc73dec..ac87b5f 100644
--- a/common/entropy.py
+++ b/common/entropy.py
@@ -17,6 +17,9 @@ def entropy(the_array, axis=1):
     """
     power = np.square(the_array, dtype='float')
     sum_power = power.sum(axis=axis)
+
+    # A zero vector has no entropy
+    sum_power = np.where(sum_power > 0, sum_power, 1)
     if axis:
         power /= sum_power.reshape(-1, 1)
     else:
-- 
2.43.0


From c72020e4c3c7387e549621d68b9a9eedd6380466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 23/30] fix: synthetic partial credit and unfolding data of
 steep items

The exponentials overflowed, which gave wrong categories for the item and
for all items after it
---
 synthetic/polytomous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synthetic/polytomous.py b/synthetic/polytomous.py
index 82cfc8c..c1576df 100644
--- a/synthetic/polytomous.py
+++ b/synthetic/polytomous.py
@@ -65,11 +65,12 @@ def _credit_func(difficulty, discrimination, thetas, output):
     """
     # This model is based on exponentials and normalized to
     # make sure the expected probablity is equal to one
-    output *= 0.0  # clear any previous values
+    output[:] = 0.0  # clear any previous values
     output[1:, :] += thetas
     output[1:, :] -= difficulty[:, None]
     output *= discrimination
     np.cumsum(output, axis=0, out=output)
+    output -= output.max(axis=0)  # the exponential must not overflow
     np.exp(output, out=output)
 
     normalizing_term = 1.0 / np.sum(output, axis=0)
-- 
2.43.0


From 42c819a86343cd5bd9de0617f914347cfe0e4bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 24/30] fix: maximum a posteriori abilities under a
 distribution that vanishes on part of the interval

---
 .../dichotomous/ability_estimation.py               | 13 ++++++++++++-
 .../unidimensional/dichotomous/ability_threepl.py   |  4 +++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_estimation.py b/estimation/unidimensional/dichotomous/ability_estimation.py
index 289b488..530c7b9 100644
--- a/estimation/unidimensional/dichotomous/ability_estimation.py
+++ b/estimation/unidimensional/dichotomous/ability_estimation.py
@@ -15,6 +15,16 @@ from girth.unidimensional.polytomous.ability_estimation_poly import _ability_eap
 __all__ = ["ability_mle", "ability_map", "ability_eap"]
 
 
+def _map_search_bounds(distribution, start=-6, stop=6, n_points=121):
+    """Part of the search interval where the distribution doesn't vanish."""
+    theta, step = np.linspace(start, stop, n_points, retstep=True)
+    support = theta[np.array([np.all(distribution(value) > 0) for value in theta])]
+
+    if support.size == 0:
+        return start, stop
+    return max(start, support[0] - step), min(stop, support[-1] + step)
+
+
 def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     """Estimates the abilities for dichotomous models.
 
@@ -89,6 +99,7 @@ def ability_map(dataset, difficulty, discrimination, options=None):
     n_takers = dataset.shape[1]
     the_sign = convert_responses_to_kernel_sign(dataset)
     thetas = np.zeros((n_takers,))
+    bounds = _map_search_bounds(distribution)
 
     for ndx in range(n_takers):
         # pylint: disable=cell-var-from-loop
@@ -100,7 +111,7 @@ def ability_map(dataset, difficulty, discrimination, options=None):
             return -(np.log(otpt).sum() + np.log(distribution(theta)))
 
         # Solves for the ability for each person
-        thetas[ndx] = fminbound(_theta_min, -6, 6)
+        thetas[ndx] = fminbound(_theta_min, *bounds)
 
     return thetas
 
diff --git a/estimation/unidimensional/dichotomous/ability_threepl.py b/estimation/unidimensional/dichotomous/ability_threepl.py
index 403fa4c..2fbd1e4 100644
--- a/estimation/unidimensional/dichotomous/ability_threepl.py
+++ b/estimation/unidimensional/dichotomous/ability_threepl.py
@@ -7,6 +7,7 @@ from scipy.optimize import fminbound
 from girth.utilities import (
     convert_responses_to_kernel_sign, validate_estimation_options)
 from girth.utilities.utils import _get_quadrature_points
+from girth.unidimensional.dichotomous.ability_estimation import _map_search_bounds
 from girth.unidimensional.dichotomous.partial_integrals import _compute_partial_integral_3pl
 
 
@@ -85,6 +86,7 @@ def ability_3pl_map(dataset, difficulty, discrimination,
     n_takers = dataset.shape[1]
     the_sign = convert_responses_to_kernel_sign(dataset)
     thetas = np.zeros((n_takers,))
+    bounds = _map_search_bounds(distribution)
 
     # Pre-Compute guessing offset
     multiplier = 1.0 - guessing
@@ -102,7 +104,7 @@ def ability_3pl_map(dataset, difficulty, discrimination,
             return -(np.log(otpt).sum() + np.log(distribution(theta)))
 
         # Solves for the ability for each person
-        thetas[ndx] = fminbound(_theta_min, -6, 6)
+        thetas[ndx] = fminbound(_theta_min, *bounds)
 
     return thetas
 
-- 
2.43.0


From 5d92a8c291b1e53e16145363175ff006ae58d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 25/30] fix: multidimensional maximum a posteriori abilities
 under a distribution that vanishes on part of the range

---
 .../multidimensional_ability_methods.py             | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/estimation/multidimensional/multidimensional_ability_methods.py b/estimation/multidimensional/multidimensional_ability_methods.py
index 3907d78..048d9c7 100644
--- a/estimation/multidimensional/multidimensional_ability_methods.py
+++ b/estimation/multidimensional/multidimensional_ability_methods.py
@@ -73,6 +73,15 @@ def multidimensional_ability_map(dataset, difficulty, discrimination, options=No
     
     distribution = options['distribution']
     
+    # The search starts at the center of the modes and stays
+    # where the distribution doesn't vanish
+    locations = np.linspace(-4, 4, 8001)
+    density = distribution(locations)
+    support = locations[density > 0]
+    bounds = (support[0], support[-1]) if support.size else (-4, 4)
+    initial_guess = np.full((n_factors,),
+                            locations[density == density.max()].mean())
+
     for person_ndx in range(abilities.shape[1]):
         person_response = responses[:, person_ndx]
         invalid_person_mask = invalid_response_mask[:, person_ndx]
@@ -90,8 +99,8 @@ def multidimensional_ability_map(dataset, difficulty, discrimination, options=No
             
             return -(np.log(temp_output).sum() + np.log(distribution(estimates)).sum())
         
-        abilities[:, person_ndx] = fmin_slsqp(_person_function, np.zeros((n_factors)), 
-                                              bounds=[(-4, 4),] * n_factors,
+        abilities[:, person_ndx] = fmin_slsqp(_person_function, initial_guess,
+                                              bounds=[bounds,] * n_factors,
                                               disp=False)
    
     return abilities
-- 
2.43.0


From 43508c8bf04e8fa574d28ec9af5e17fa4fdb0c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 26/30] fix: three parameter abilities for a single
 discrimination or guessing value and for the default guessing

---
 .../unidimensional/dichotomous/ability_threepl.py     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/estimation/unidimensional/dichotomous/ability_threepl.py b/estimation/unidimensional/dichotomous/ability_threepl.py
index 2fbd1e4..6e79165 100644
--- a/estimation/unidimensional/dichotomous/ability_threepl.py
+++ b/estimation/unidimensional/dichotomous/ability_threepl.py
@@ -89,6 +89,7 @@ def ability_3pl_map(dataset, difficulty, discrimination,
     bounds = _map_search_bounds(distribution)
 
     # Pre-Compute guessing offset
+    guessing = np.atleast_1d(guessing)
     multiplier = 1.0 - guessing
     additive = guessing[:, None] * (the_sign == -1).astype('float')
 
@@ -136,6 +137,16 @@ def ability_3pl_eap(dataset, difficulty, discrimination,
     quad_start, quad_stop = options['quadrature_bounds']
     quad_n = options['quadrature_n']
 
+    # Single values are common to all the items
+    n_items = dataset.shape[0]
+    guessing = 0.0 if guessing is None else guessing
+
+    if np.atleast_1d(discrimination).size == 1:
+        discrimination = np.full(n_items, discrimination, dtype='float')
+
+    if np.atleast_1d(guessing).size == 1:
+        guessing = np.full(n_items, guessing, dtype='float')
+
     the_sign = convert_responses_to_kernel_sign(dataset)
 
     theta, _ = _get_quadrature_points(quad_n, quad_start, quad_stop)
-- 
2.43.0


From 34b3a5b461a4103c0d0315c4b025b9d26e9dc267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 27/30] fix: initial multidimensional guess when the polychoric
 correlations are indefinite

---
 .../multidimensional_initial_guess.py          | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/estimation/multidimensional/multidimensional_initial_guess.py b/estimation/multidimensional/multidimensional_initial_guess.py
index 96f8ca7..4a3481a 100644
--- a/estimation/multidimensional/multidimensional_initial_guess.py
+++ b/estimation/multidimensional/multidimensional_initial_guess.py
@@ -32,6 +32,23 @@ def _constrained_rotation(discrimination):
     return rotated_discrimination
 
 
+def _smooth_correlation(correlation):
+    """Makes an indefinite correlation matrix positive definite.
+
+    The correlations are estimated one pair at a time, together
+    they are not always a proper correlation matrix.
+    """
+    eigenvalues, vectors = np.linalg.eigh(correlation)
+
+    if eigenvalues[0] > 1e-10:
+        return correlation
+
+    smoothed = (vectors * np.maximum(eigenvalues, 1e-3)) @ vectors.T
+    scale = np.sqrt(np.diag(smoothed))
+
+    return smoothed / np.outer(scale, scale)
+
+
 def initial_guess_md(dataset, n_factors, options=None):
     """Determine an inital guess for multidimensional IRT models.
 
@@ -56,6 +73,7 @@ def initial_guess_md(dataset, n_factors, options=None):
 
     correlation = polychoric_correlation(dataset, start_value,
                                          stop_value, options['num_processors'])
+    correlation = _smooth_correlation(correlation)
 
     factors, eigenvalues, unique_variance = mlfa(correlation, n_factors)
 
-- 
2.43.0


From a2ee1ed1a5ed52185f418b6b99f36d77b263cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 28/30] fix: expected a posteriori abilities of very long tests

---
 .../unidimensional/dichotomous/ability_estimation.py   |  2 ++
 .../unidimensional/dichotomous/ability_threepl.py      | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_estimation.py b/estimation/unidimensional/dichotomous/ability_estimation.py
index 530c7b9..3d679d4 100644
--- a/estimation/unidimensional/dichotomous/ability_estimation.py
+++ b/estimation/unidimensional/dichotomous/ability_estimation.py
@@ -156,6 +156,8 @@ def ability_eap(dataset, difficulty, discrimination, options=None):
                                                  discrimination[ndx],
                                                  unique_sets[ndx],
                                                  invalid_response_mask[ndx])
+        # The scale is arbitrary, long tests vanish without one
+        partial_int /= partial_int.max(axis=1, keepdims=True)
     distribution_x_weights = options['distribution'](theta) * weights
 
     return _ability_eap_abstract(partial_int, distribution_x_weights,
diff --git a/estimation/unidimensional/dichotomous/ability_threepl.py b/estimation/unidimensional/dichotomous/ability_threepl.py
index 6e79165..5f14814 100644
--- a/estimation/unidimensional/dichotomous/ability_threepl.py
+++ b/estimation/unidimensional/dichotomous/ability_threepl.py
@@ -150,8 +150,14 @@ def ability_3pl_eap(dataset, difficulty, discrimination,
     the_sign = convert_responses_to_kernel_sign(dataset)
 
     theta, _ = _get_quadrature_points(quad_n, quad_start, quad_stop)
-    partial_int = _compute_partial_integral_3pl(
-        theta, difficulty, discrimination, guessing, the_sign)
+    partial_int = np.ones((dataset.shape[1], theta.size))
+    for ndx in range(n_items):
+        item = slice(ndx, ndx + 1)
+        partial_int *= _compute_partial_integral_3pl(
+            theta, difficulty[item], discrimination[item],
+            guessing[item], the_sign[item])
+        # The scale is arbitrary, long tests vanish without one
+        partial_int /= partial_int.max(axis=1, keepdims=True)
 
     # Weight by the input ability distribution
     partial_int *= options['distribution'](theta)
-- 
2.43.0


From 5cc74226a73507d0617eb3ccba574ae2e4e6c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 29/30] fix: multidimensional expected a posteriori abilities
 of very long tests

---
 estimation/multidimensional/multidimensional_ability_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estimation/multidimensional/multidimensional_ability_methods.py b/estimation/multidimensional/multidimensional_ability_methods.py
index 048d9c7..63c5093 100644
--- a/estimation/multidimensional/multidimensional_ability_methods.py
+++ b/estimation/multidimensional/multidimensional_ability_methods.py
@@ -181,6 +181,8 @@ def multidimensional_ability_eap(dataset, difficulty, discrimination, options=No
                                                    local_discrimination,
                                                    responses[item_ndx],
                                                    invalid_response_mask[item_ndx])
+        # The scale is arbitrary, long tests vanish without one
+        partial_int /= partial_int.max(axis=1, keepdims=True)
 
     # Loop over each dimension and compute 
     abilities = np.zeros((n_factors, dataset.shape[1]))
-- 
2.43.0


From 9f7a67cbd7f8b3a8746f7f2a3494bb39fb8094e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:23 +0000
Subject: [PATCH 30/30] fix: joint maximum likelihood of graded items with a
 rare lowest category

---
 estimation/unidimensional/polytomous/grm_jml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/estimation/unidimensional/polytomous/grm_jml.py b/estimation/unidimensional/polytomous/grm_jml.py
index c591a37..1abbadc 100644
--- a/estimation/unidimensional/polytomous/grm_jml.py
+++ b/estimation/unidimensional/polytomous/grm_jml.py
@@ -101,8 +101,11 @@ def grm_jml(dataset, options=None):
                 betas[start_ndx+1:end_ndx] = estimates[1:]
                 betas_roll[start_ndx:end_ndx-1] = estimates[1:]
 
-                graded_prob = (expit(discrimination[:, None] * (thetas[None, :] - betas[:, None]))
-                               - expit(discrimination[:, None] * (thetas[None, :] - betas_roll[:, None])))
+                # Differences of values near one cancel, use the complements there
+                lower = discrimination[:, None] * (thetas[None, :] - betas[:, None])
+                upper = discrimination[:, None] * (thetas[None, :] - betas_roll[:, None])
+                sign = np.where(upper > 0, -1, 1)
+                graded_prob = sign * (expit(sign * lower) - expit(sign * upper))
 
                 values = np.take_along_axis(
                     graded_prob, responses[None, ndx], axis=0).squeeze()
-- 
2.43.0

