From 1224360b8940f23e9c13f8bf740a01a42e507c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 01/16] fix: tag_missing_data wrapped the missing code in
 narrow integer types

---
 estimation/utilities/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 595f800..0071f96 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -24,10 +24,9 @@ def tag_missing_data(dataset, valid_responses):
                          invalid_fill
     """
     mask = np.isin(dataset, valid_responses)
-    output = dataset.copy()
-    output[~mask] = INVALID_RESPONSE
-    
-    return output
+
+    # Promotes narrow integer types which can't hold INVALID_RESPONSE
+    return np.where(mask, dataset, INVALID_RESPONSE)
 
 
 def get_true_false_counts(responses):
-- 
2.43.0


From 65a3dfdcdfd563dba826977b2dd0ad8d7d1dd7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 02/16] fix: trim_response_set_and_counts kept patterns without
 any response

---
 estimation/utilities/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 0071f96..07c9c5f 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -118,7 +118,8 @@ def trim_response_set_and_counts(response_sets, counts):
     bad_mask = response_sets == INVALID_RESPONSE
 
     # Remove response sets where output is all true/false
-    mask = ~(np.ma.masked_array(response_sets, bad_mask).var(axis=0) == 0)
+    # or where nothing was observed
+    mask = np.ma.masked_array(response_sets, bad_mask).var(axis=0).filled(0) != 0
     response_sets = response_sets[:, mask]
     counts = counts[mask]
 
-- 
2.43.0


From 5f8cff2711d96ef907c0a1762e902570b4bdd9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 03/16] fix: integer difficulties truncated scalar
 discrimination and guessing

---
 synthetic/dichotomous.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/synthetic/dichotomous.py b/synthetic/dichotomous.py
index fa2e79f..2c7c016 100644
--- a/synthetic/dichotomous.py
+++ b/synthetic/dichotomous.py
@@ -32,18 +32,18 @@ def create_synthetic_irt_dichotomous(difficulty, discrimination, thetas,
     rng = np.random.default_rng(seed)
 
     if np.size(discrimination) == 1:
-        discrimination = np.full_like(difficulty, discrimination)
+        discrimination = np.full_like(difficulty, discrimination, dtype='float')
 
     if np.size(guessing) == 1:
-        guessing = np.full_like(difficulty, guessing)
+        guessing = np.full_like(difficulty, guessing, dtype='float')
 
     if np.ndim(discrimination) == 1:
         kernel = thetas[None, :] - difficulty[:, None]
-        kernel *= discrimination[:, None]
+        kernel = kernel * discrimination[:, None]
 
     elif np.ndim(discrimination) == 2:
         kernel = discrimination @ thetas
-        kernel += difficulty[:, None]
+        kernel = kernel + difficulty[:, None]
     
     else:
         raise AssertionError("Discrimination dimensions are not 1 or 2, "
-- 
2.43.0


From b6aac40e84e09329dc075173e8fa8f0565ed13fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 04/16] fix: contingency_table counted unrelated pairs for
 negative or unlisted codes

---
 common/polychoric.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index 7c45253..a0a94f3 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -44,11 +44,10 @@ def contingency_table(vals1, vals2, start_val=1, stop_val=5):
     n_vals = stop_val - start_val + 1
     cont_table = np.zeros((n_vals, n_vals))
 
-    linear_ndx = vals1 * (stop_val+1) + vals2
     for ndx1, ndx2 in product(range(start_val, n_vals+start_val), 
                               range(start_val, n_vals+start_val)):
-        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero(ndx1*(stop_val+1)+ndx2
-                                                                      == linear_ndx)
+        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero((vals1 == ndx1) &
+                                                                      (vals2 == ndx2))
     return cont_table
 
 
-- 
2.43.0


From 2249b26b50c4a98ccbbc474be1ed216f61825cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 05/16] fix: polychoric_correlation failed for a single item
 with several processors

---
 common/polychoric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index a0a94f3..9cdbf4d 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -149,7 +149,7 @@ def polychoric_correlation(ordinal_data, start_val=1, stop_val=5, num_processors
         return polychoric_correlation_serial(ordinal_data, start_val, stop_val)
     
     indices = np.tril_indices(ordinal_data.shape[0], -1)
-    chunk_indices = np.array_split(list(zip(*indices)), num_processors)
+    chunk_indices = np.array_split(np.transpose(indices), num_processors)
 
     # Do the parallel calculation
     with SharedMemoryManager() as smm:
-- 
2.43.0


From 32e014848027d8f58f0cc797f61b8de6148cbfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 06/16] fix: maximum likelihood abilities of constant patterns
 with missing responses

---
 .../unidimensional/dichotomous/ability_estimation.py   | 10 ++++------
 .../unidimensional/dichotomous/ability_threepl.py      |  7 ++++---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_estimation.py b/estimation/unidimensional/dichotomous/ability_estimation.py
index 0d7bb89..3e6a0a1 100644
--- a/estimation/unidimensional/dichotomous/ability_estimation.py
+++ b/estimation/unidimensional/dichotomous/ability_estimation.py
@@ -33,11 +33,9 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     Returns:
         abilities: (1d array) estimated abilities
     """
-    # Find any missing data
-    bad_mask = dataset == INVALID_RESPONSE
-
-    # Locations where endorsement isn't constant
-    mask = ~(np.ma.masked_array(dataset, bad_mask).var(axis=0) == 0)
+    # Locations where the observed endorsement isn't constant
+    any_false = np.any(dataset == 0, axis=0)
+    mask = any_false & np.any(dataset == 1, axis=0)
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -51,7 +49,7 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~mask & any_false
     thetas[mask2] *= -1
 
     return thetas
diff --git a/estimation/unidimensional/dichotomous/ability_threepl.py b/estimation/unidimensional/dichotomous/ability_threepl.py
index 9974f5a..ca2b5d2 100644
--- a/estimation/unidimensional/dichotomous/ability_threepl.py
+++ b/estimation/unidimensional/dichotomous/ability_threepl.py
@@ -30,8 +30,9 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     Returns:
         abilities: (1d array) estimated abilities
     """
-    # Locations where endorsement isn't constant
-    mask = np.nanvar(dataset, axis=0) > 0
+    # Locations where the observed endorsement isn't constant
+    any_false = np.any(dataset == 0, axis=0)
+    mask = any_false & np.any(dataset == 1, axis=0)
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -46,7 +47,7 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~mask & any_false
     thetas[mask2] *= -1
 
     return thetas
-- 
2.43.0


From 4708705c706e3f1b7e3c134d028306acda446468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 07/16] fix: look up table failed at the largest discrimination
 of its grid

---
 estimation/utilities/look_up_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estimation/utilities/look_up_table.py b/estimation/utilities/look_up_table.py
index 98ccd2b..bdb9f35 100644
--- a/estimation/utilities/look_up_table.py
+++ b/estimation/utilities/look_up_table.py
@@ -66,8 +66,8 @@ def create_beta_LUT(alpha, beta, options=None):
     # return function that returns beta value
     def interpolate_function(alpha_value, p_value):
         tmp = interp_a(alpha_value)
-        tmpL = int(tmp)
-        tmpH = int(tmp + 1)
+        tmpL = min(int(tmp), alpha.size - 2)
+        tmpH = tmpL + 1
         dx = tmp - tmpL
         return ((1 - dx) * func_list[tmpL](p_value) + 
                 dx * func_list[tmpH](p_value))        
-- 
2.43.0


From 2d2224441497f83266a23fac617f891b82447f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 08/16] fix: gum_mml erased every location when the reference
 location is zero

---
 estimation/unidimensional/polytomous/gum_mml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estimation/unidimensional/polytomous/gum_mml.py b/estimation/unidimensional/polytomous/gum_mml.py
index b20555f..e978b76 100644
--- a/estimation/unidimensional/polytomous/gum_mml.py
+++ b/estimation/unidimensional/polytomous/gum_mml.py
@@ -152,7 +152,8 @@ def gum_mml(dataset, delta_sign=(0, 1), options=None):
             break
 
     # Adjust delta values to conform to delta sign
-    delta *= np.sign(delta[delta_ndx]) * delta_multiplier
+    if np.sign(delta[delta_ndx]) * delta_multiplier < 0:
+        delta *= -1
 
     # Recompute partial int for later calculations
     partial_int = np.ones((responses.shape[1], theta.size))
-- 
2.43.0


From 59782ef67667b738372199eb1cdc510596a75e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 09/16] fix: initial guess erased a factor when its diagonal
 loading is zero

---
 estimation/multidimensional/multidimensional_initial_guess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/multidimensional/multidimensional_initial_guess.py b/estimation/multidimensional/multidimensional_initial_guess.py
index 5852f51..7a3d91a 100644
--- a/estimation/multidimensional/multidimensional_initial_guess.py
+++ b/estimation/multidimensional/multidimensional_initial_guess.py
@@ -26,7 +26,7 @@ def _constrained_rotation(discrimination):
     diagonal_values = (discrimination.shape[0] - 1 - diagonal_values[0],
                        diagonal_values[1])
     
-    update_sign = np.sign(rotated_discrimination[diagonal_values])
+    update_sign = np.where(rotated_discrimination[diagonal_values] < 0, -1, 1)
     rotated_discrimination *= update_sign.reshape(1, -1)
 
     return rotated_discrimination
-- 
2.43.0


From 54227c843f8e8b4ecc18330160e416b72c0af5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 10/16] fix: polytomous category numbers wrapped in narrow
 integer types

---
 estimation/utilities/polytomous_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 8c79791..83c8925 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -43,7 +43,8 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
         valid_response_mask = dataset != INVALID_RESPONSE
     
     betas_length = np.zeros((n_items,), dtype='int')
-    the_output = dataset.copy()
+    # Narrow integer types can't hold the linear index
+    the_output = dataset.astype(np.result_type(dataset, np.int32))
     the_output -= min_value
     
     # Loop over rows, determine the number of unique
-- 
2.43.0


From be71fd0761f3c83399dd2e60163050ad30930555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 11/16] fix: generator accepted unfolding difficulties that are
 not skew-symmetric

---
 synthetic/polytomous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synthetic/polytomous.py b/synthetic/polytomous.py
index c496cb2..41b92df 100644
--- a/synthetic/polytomous.py
+++ b/synthetic/polytomous.py
@@ -115,7 +115,8 @@ def _check_difficulty_parameters(difficulty, model):
         adjusted_difficulty = (difficulty -
                                difficulty[:, middle_index][:, None])
 
-        if not np.all(np.abs(adjusted_difficulty.sum(axis=1)) < 1e-7):
+        skew_difference = adjusted_difficulty + adjusted_difficulty[:, ::-1]
+        if not np.all(np.abs(skew_difference) < 1e-7):
             raise AssertionError("Difficulty Parameters must be "
                                  "symmetric about offset")
 
-- 
2.43.0


From 5cb5a103e2a99715039b966bfee31d7c0048dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 12/16] fix: difficulty of an item with one observed category
 truncated to an integer without the look up table

---
 estimation/utilities/polytomous_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 83c8925..879fe37 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -99,7 +99,7 @@ def _solve_for_constants(item_responses):
 
 def _solve_integral_equations(discrimination, ratio, distribution, theta, _):
     """Solve single sigmoid integral for difficulty parameter."""
-    difficulty = np.zeros_like(ratio)
+    difficulty = np.zeros_like(ratio, dtype='float')
     temp1 = np.exp(-1 * discrimination * theta)
     
     for ratio_ndx, value in enumerate(ratio):
-- 
2.43.0


From 84c3a4487a40979484841dd8123fee145ccac157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 13/16] fix: bootstrap statistics of multidimensional
 discriminations mixed the items

---
 estimation/utilities/bootstrap_errors.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/estimation/utilities/bootstrap_errors.py b/estimation/utilities/bootstrap_errors.py
index dc6d511..d9a0201 100644
--- a/estimation/utilities/bootstrap_errors.py
+++ b/estimation/utilities/bootstrap_errors.py
@@ -66,6 +66,7 @@ Returns:
         solution = irt_model(dataset, options=options)
         
     difficulty_shape = solution['Difficulty'].shape
+    discrimination_shape = np.atleast_1d(solution['Discrimination']).shape
 
     # Parallel Random Number Generators
     rngs = [np.random.default_rng(s) for s in seq.spawn(n_processors)]
@@ -91,25 +92,25 @@ Returns:
     for result in results:
         for sub_result in result:
             difficulty_list.append(sub_result['Difficulty'].ravel())
-            discrimination_list.append(sub_result['Discrimination'])
+            discrimination_list.append(np.ravel(sub_result['Discrimination']))
     
     # Concatenate the samples
     discrimination_bootstrap = np.vstack(discrimination_list)
     difficulty_bootstrap = np.vstack(difficulty_list)
     
     # Percentiles
-    discrimination_ci = [np.percentile(discrimination_bootstrap, 2.5, axis=0), 
-                         np.percentile(discrimination_bootstrap, 97.5, axis=0)]
+    discrimination_ci = [np.percentile(discrimination_bootstrap, 2.5, axis=0).reshape(discrimination_shape),
+                         np.percentile(discrimination_bootstrap, 97.5, axis=0).reshape(discrimination_shape)]
     difficulty_ci = [np.percentile(difficulty_bootstrap, 2.5, axis=0).reshape(difficulty_shape), 
                      np.percentile(difficulty_bootstrap, 97.5, axis=0).reshape(difficulty_shape)]
     
     # Standard Errors
-    discrimination_se = np.nanstd(discrimination_bootstrap, axis=0, ddof=1)
+    discrimination_se = np.nanstd(discrimination_bootstrap, axis=0, ddof=1).reshape(discrimination_shape)
     difficulty_se = np.nanstd(difficulty_bootstrap, axis=0, ddof=1).reshape(difficulty_shape)
     
     # Bias
     discrimination_bias = (np.nanmean(discrimination_bootstrap, axis=0) - 
-                           solution['Discrimination'])
+                           np.ravel(solution['Discrimination'])).reshape(discrimination_shape)
     
     difficulty_bias = (np.nanmean(difficulty_bootstrap, axis=0) - 
                        solution['Difficulty'].ravel()).reshape(difficulty_shape)
-- 
2.43.0


From 465b796d367d4560a0d5848371969de041f295a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:38 +0000
Subject: [PATCH 14/16] fix: joint estimation of polytomous models counted
 persons without any response

---
 estimation/utilities/polytomous_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 879fe37..3b01555 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -37,8 +37,10 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
         valid_score_sums = np.count_nonzero(valid_response_mask, axis=0)
         ratio_score_sums = raw_score_sums / valid_score_sums
 
+        # Persons without any response have nothing to contribute either
         mask = ((ratio_score_sums == min_value) | 
-                (ratio_score_sums == max_value))
+                (ratio_score_sums == max_value) |
+                (valid_score_sums == 0))
         dataset = dataset[:, ~mask]
         valid_response_mask = dataset != INVALID_RESPONSE
     
-- 
2.43.0


From c0d12a3c9da0631b7ac2ad4286fbfa8b623ddf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 15/16] fix: ability_3pl_eap returned a scalar instead of an
 array for a single person

---
 estimation/unidimensional/dichotomous/partial_integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/unidimensional/dichotomous/partial_integrals.py b/estimation/unidimensional/dichotomous/partial_integrals.py
index f0edd0a..5dd2e0a 100644
--- a/estimation/unidimensional/dichotomous/partial_integrals.py
+++ b/estimation/unidimensional/dichotomous/partial_integrals.py
@@ -60,4 +60,4 @@ def _compute_partial_integral_3pl(theta, difficulty, discrimination, guessing, t
     otpt = (1.0 / (1.0 + np.exp(kernel))) * (1 - guessing[:, None, None])
     otpt += 0.5 * (1 - the_sign[:, :, None]) * guessing[:, None, None]
 
-    return otpt.prod(axis=0).squeeze()
+    return otpt.prod(axis=0)
-- 
2.43.0


From fda8ef7822a92c90035eb9100f04e0cf42930423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:21 +0000
Subject: [PATCH 16/16] fix: boolean responses were used as a row mask in the
 dichotomous likelihood

---
 estimation/unidimensional/dichotomous/partial_integrals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estimation/unidimensional/dichotomous/partial_integrals.py b/estimation/unidimensional/dichotomous/partial_integrals.py
index 5dd2e0a..978ccf3 100644
--- a/estimation/unidimensional/dichotomous/partial_integrals.py
+++ b/estimation/unidimensional/dichotomous/partial_integrals.py
@@ -22,8 +22,10 @@ def _compute_partial_integral(theta, difficulty, discrimination,
     probability = expit(np.outer([-1, 1], 
                         discrimination * (theta - difficulty)))
     
+    # Select with 0 / 1, boolean responses would act as a row mask
+    temp_output = probability[responses * 1, :]
+
     # Mask out missing responses
-    temp_output = probability[responses, :]
     temp_output[invalid_response_mask] = 1
     return temp_output
 
-- 
2.43.0

