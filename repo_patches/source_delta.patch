From 987a98c5f30343e061ec1232397aa66741cb72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 01/12] fix: return 0 instead of NaN from F1 when there are no
 relevant documents

---
 src/metrics/f1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics/f1.rs b/src/metrics/f1.rs
index 73d29de..80fb74d 100644
--- a/src/metrics/f1.rs
+++ b/src/metrics/f1.rs
@@ -19,9 +19,13 @@ where
     if k == 0 {
         return 0.0;
     }
+    let n_rels = trues.values().filter(|&&rel| rel >= rel_lvl).count();
+    if n_rels == 0 {
+        return 0.0;
+    }
     let hits = compute_hits(trues, sorted_preds, k, rel_lvl);
     let precision = hits / k as f64;
-    let recall = hits / trues.values().filter(|&&rel| rel >= rel_lvl).count() as f64;
+    let recall = hits / n_rels as f64;
     if precision + recall == 0.0 {
         0.0
     } else {
-- 
2.43.0


From 342eea88456fb69d84cde1000104144a365d5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 02/12] fix: avoid NaN in Bpref when no non-relevant documents
 are judged

---
 src/metrics/bpref.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metrics/bpref.rs b/src/metrics/bpref.rs
index a8143bc..06cb256 100644
--- a/src/metrics/bpref.rs
+++ b/src/metrics/bpref.rs
@@ -22,7 +22,13 @@ where
     for pred in sorted_preds {
         if let Some(&rel) = trues.get(&pred.doc_id) {
             if rel >= rel_lvl {
-                bpref += 1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels);
+                // Without a judged non-relevant document above, the contribution is one
+                // (the denominator can be zero when no non-relevant documents are judged).
+                if n_non_rels_so_far == 0.0 {
+                    bpref += 1.0;
+                } else {
+                    bpref += 1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels);
+                }
             } else {
                 n_non_rels_so_far += 1.0;
             }
-- 
2.43.0


From dc2057cc2ddecd21cc1a99b475ce9203a7f0caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 03/12] fix: return an error instead of panicking in ANOVA with
 one system or without residual variance

---
 src/statistical_tests/tukey_hsd_test.rs             |  2 ++
 .../two_way_anova_without_replication.rs            | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/statistical_tests/tukey_hsd_test.rs b/src/statistical_tests/tukey_hsd_test.rs
index b50d2d9..dbffe64 100644
--- a/src/statistical_tests/tukey_hsd_test.rs
+++ b/src/statistical_tests/tukey_hsd_test.rs
@@ -33,6 +33,8 @@ impl TukeyHsdTest {
     ///
     /// * [`ElinorError::InvalidArgument`] if the length of each record is not equal to the number of systems.
     /// * [`ElinorError::InvalidArgument`] if the input does not have at least two records.
+    /// * [`ElinorError::InvalidArgument`] if the number of systems is less than two.
+    /// * [`ElinorError::Uncomputable`] if the residual variance is zero.
     pub fn from_tupled_samples<I, S>(samples: I, n_systems: usize) -> Result<Self, ElinorError>
     where
         I: IntoIterator<Item = S>,
diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index d4f5bd1..342f305 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -52,6 +52,8 @@ impl TwoWayAnovaWithoutReplication {
     ///
     /// * [`ElinorError::InvalidArgument`] if the length of each record is not equal to the number of systems.
     /// * [`ElinorError::InvalidArgument`] if the input does not have at least two records.
+    /// * [`ElinorError::InvalidArgument`] if the number of systems is less than two.
+    /// * [`ElinorError::Uncomputable`] if the residual variance is zero.
     ///
     /// # Examples
     ///
@@ -88,6 +90,12 @@ impl TwoWayAnovaWithoutReplication {
             ));
         }
 
+        if n_systems <= 1 {
+            return Err(ElinorError::InvalidArgument(
+                "The number of systems must be at least two.".to_string(),
+            ));
+        }
+
         let n_topics_f = samples.len() as f64;
         let n_systems_f = n_systems as f64;
 
@@ -147,6 +155,11 @@ impl TwoWayAnovaWithoutReplication {
         // V_E
         let residual_freedom = (n_systems_f - 1.) * (n_topics_f - 1.);
         let residual_variance = residual_variation / residual_freedom;
+        if residual_variance == 0.0 {
+            return Err(ElinorError::Uncomputable(
+                "The residual variance is zero.".to_string(),
+            ));
+        }
 
         // F and p-value for the between-system factor.
         let between_system_f_dist = FisherSnedecor::new(between_system_freedom, residual_freedom)
-- 
2.43.0


From 3a7362e4f5b437c5c318275a9eaaea527623a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 04/12] fix: reject a NaN significance level in margin_of_error

---
 src/statistical_tests/student_t_test.rs                    | 2 +-
 src/statistical_tests/two_way_anova_without_replication.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index f7ca4ed..882812b 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -168,7 +168,7 @@ impl StudentTTest {
     /// \text{MOE} = t_{\alpha/2}(n-1) \sqrt{\frac{V}{n}}
     /// ```
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64> {
-        if significance_level <= 0.0 || significance_level > 1.0 {
+        if !(significance_level > 0.0 && significance_level <= 1.0) {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index 342f305..21baf7b 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -591,7 +591,7 @@ impl TwoWayAnovaWithoutReplication {
     ///
     /// where $`t_{\alpha/2}((m - 1)(n - 1))`$ is the $`1 - \alpha/2`$ quantile of the Student's $`t`$ distribution with $`(m - 1)(n - 1)`$ degrees of freedom.
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64, ElinorError> {
-        if significance_level <= 0.0 || significance_level > 1.0 {
+        if !(significance_level > 0.0 && significance_level <= 1.0) {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
-- 
2.43.0


From 98c56d06a7686f65e07113c7a9ffd512a1e599f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 05/12] fix: report write errors of the last buffered records
 in elinor-convert

---
 elinor-cli/src/bin/convert.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index 0ba7231..ea005ca 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -66,5 +66,6 @@ fn main() -> Result<()> {
             }
         }
     }
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From e674a75159c6148d1c9bd34ca396c4e7643181fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 06/12] fix: return an error instead of panicking in
 tuples_from_maps without maps

---
 src/statistical_tests.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/statistical_tests.rs b/src/statistical_tests.rs
index 2148335..bf49835 100644
--- a/src/statistical_tests.rs
+++ b/src/statistical_tests.rs
@@ -82,6 +82,7 @@ where
 ///
 /// # Errors
 ///
+/// * [`ElinorError::InvalidArgument`] if no maps are given.
 /// * [`ElinorError::InvalidArgument`] if maps have different sets of keys.
 pub fn tuples_from_maps<'a, I, K>(maps: I) -> Result<Vec<Vec<f64>>>
 where
@@ -89,6 +90,11 @@ where
     K: Clone + Eq + Ord + std::fmt::Display + 'a,
 {
     let maps = maps.into_iter().collect::<Vec<_>>();
+    if maps.is_empty() {
+        return Err(ElinorError::InvalidArgument(
+            "The input must have at least one map.".to_string(),
+        ));
+    }
     for i in 1..maps.len() {
         if maps[0].len() != maps[i].len() {
             return Err(ElinorError::InvalidArgument(format!(
-- 
2.43.0


From 1125404e7a480f6e73c90a0f098aa23e9d6cf57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:11 +0000
Subject: [PATCH 07/12] fix: treat equal differences as having no variance
 despite rounding in the t-test and bootstrap test

---
 src/statistical_tests/student_t_test.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index 882812b..d349c12 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -206,13 +206,15 @@ impl StudentTTest {
 /// * [`ElinorError::Uncomputable`] if the variance is zero.
 pub fn compute_t_stat(samples: &[f64]) -> Result<(f64, f64, f64)> {
     let mean = Statistics::mean(samples);
-    let variance = Statistics::variance(samples);
+    let n = samples.len() as f64;
+    // Summing squared deviations gives exactly zero for equal samples,
+    // while Statistics::variance can leave a rounding error.
+    let variance = samples.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / (n - 1.0);
     if variance == 0.0 {
         return Err(ElinorError::Uncomputable(
             "The variance is zero.".to_string(),
         ));
     }
-    let n = samples.len() as f64;
     let t_stat = mean / (variance / n).sqrt();
     Ok((t_stat, mean, variance))
 }
-- 
2.43.0


From 15f8a1cd8cca7166ff9cb7662b3046a3ab9447f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 08/12] fix: detect a zero residual variation despite rounding
 when all systems or all topics are equal in the ANOVA

---
 .../two_way_anova_without_replication.rs             | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index 21baf7b..a5ca175 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -99,14 +99,14 @@ impl TwoWayAnovaWithoutReplication {
         let n_topics_f = samples.len() as f64;
         let n_systems_f = n_systems as f64;
 
-        // Mean of all samples (x_{..}).
-        let overall_mean = samples.iter().flatten().mean();
-
         // Mean of each system (x_{i.*}).
         let system_means = (0..n_systems)
-            .map(|j| samples.iter().map(|sample| sample[j]).sum::<f64>() / n_topics_f)
+            .map(|j| samples.iter().map(|sample| sample[j]).mean())
             .collect::<Vec<_>>();
 
+        // Mean of all samples (x_{..}).
+        let overall_mean = system_means.iter().mean();
+
         // Mean of each topic (x_{*.j}).
         let topic_means = samples
             .iter()
@@ -138,7 +138,9 @@ impl TwoWayAnovaWithoutReplication {
                     .map(|(i, &x_ij)| {
                         let x_i_dot = system_means[i];
                         let x_dot_j = topic_means[j];
-                        (x_ij - x_i_dot - x_dot_j + overall_mean).powi(2)
+                        // In this order, the residuals are exactly zero
+                        // when all the systems or all the topics are equal.
+                        ((x_ij - x_dot_j) - (x_i_dot - overall_mean)).powi(2)
                     })
                     .sum::<f64>()
             })
-- 
2.43.0


From c8144ce2f6a6dc4fe77d43b60670f3ba773af433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 09/12] Revert "fix: detect a zero residual variation despite
 rounding when all systems or all topics are equal in the ANOVA"

This reverts commit 15f8a1cd8cca7166ff9cb7662b3046a3ab9447f7.
---
 .../two_way_anova_without_replication.rs             | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index a5ca175..21baf7b 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -99,14 +99,14 @@ impl TwoWayAnovaWithoutReplication {
         let n_topics_f = samples.len() as f64;
         let n_systems_f = n_systems as f64;
 
+        // Mean of all samples (x_{..}).
+        let overall_mean = samples.iter().flatten().mean();
+
         // Mean of each system (x_{i.*}).
         let system_means = (0..n_systems)
-            .map(|j| samples.iter().map(|sample| sample[j]).mean())
+            .map(|j| samples.iter().map(|sample| sample[j]).sum::<f64>() / n_topics_f)
             .collect::<Vec<_>>();
 
-        // Mean of all samples (x_{..}).
-        let overall_mean = system_means.iter().mean();
-
         // Mean of each topic (x_{*.j}).
         let topic_means = samples
             .iter()
@@ -138,9 +138,7 @@ impl TwoWayAnovaWithoutReplication {
                     .map(|(i, &x_ij)| {
                         let x_i_dot = system_means[i];
                         let x_dot_j = topic_means[j];
-                        // In this order, the residuals are exactly zero
-                        // when all the systems or all the topics are equal.
-                        ((x_ij - x_dot_j) - (x_i_dot - overall_mean)).powi(2)
+                        (x_ij - x_i_dot - x_dot_j + overall_mean).powi(2)
                     })
                     .sum::<f64>()
             })
-- 
2.43.0


From 8f5c657f342d2a96fc4395f3af033d93d2f82343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 10/12] Revert "fix: treat equal differences as having no
 variance despite rounding in the t-test and bootstrap test"

This reverts commit 1125404e7a480f6e73c90a0f098aa23e9d6cf57d.
---
 src/statistical_tests/student_t_test.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index d349c12..882812b 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -206,15 +206,13 @@ impl StudentTTest {
 /// * [`ElinorError::Uncomputable`] if the variance is zero.
 pub fn compute_t_stat(samples: &[f64]) -> Result<(f64, f64, f64)> {
     let mean = Statistics::mean(samples);
-    let n = samples.len() as f64;
-    // Summing squared deviations gives exactly zero for equal samples,
-    // while Statistics::variance can leave a rounding error.
-    let variance = samples.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / (n - 1.0);
+    let variance = Statistics::variance(samples);
     if variance == 0.0 {
         return Err(ElinorError::Uncomputable(
             "The variance is zero.".to_string(),
         ));
     }
+    let n = samples.len() as f64;
     let t_stat = mean / (variance / n).sqrt();
     Ok((t_stat, mean, variance))
 }
-- 
2.43.0


From 7e854a635a8de30a79c951b629304744ae0c43bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 11/12] Revert "fix: reject a NaN significance level in
 margin_of_error"

This reverts commit 3a7362e4f5b437c5c318275a9eaaea527623a142.
---
 src/statistical_tests/student_t_test.rs                    | 2 +-
 src/statistical_tests/two_way_anova_without_replication.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index 882812b..f7ca4ed 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -168,7 +168,7 @@ impl StudentTTest {
     /// \text{MOE} = t_{\alpha/2}(n-1) \sqrt{\frac{V}{n}}
     /// ```
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64> {
-        if !(significance_level > 0.0 && significance_level <= 1.0) {
+        if significance_level <= 0.0 || significance_level > 1.0 {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index 21baf7b..342f305 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -591,7 +591,7 @@ impl TwoWayAnovaWithoutReplication {
     ///
     /// where $`t_{\alpha/2}((m - 1)(n - 1))`$ is the $`1 - \alpha/2`$ quantile of the Student's $`t`$ distribution with $`(m - 1)(n - 1)`$ degrees of freedom.
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64, ElinorError> {
-        if !(significance_level > 0.0 && significance_level <= 1.0) {
+        if significance_level <= 0.0 || significance_level > 1.0 {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
-- 
2.43.0


From feff75f8c2bc1272dad63e3a52e1e87d5335448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 12/12] Revert "fix: return an error instead of panicking in
 ANOVA with one system or without residual variance"

This reverts commit dc2057cc2ddecd21cc1a99b475ce9203a7f0caa7.
---
 src/statistical_tests/tukey_hsd_test.rs             |  2 --
 .../two_way_anova_without_replication.rs            | 13 -------------
 2 files changed, 15 deletions(-)

diff --git a/src/statistical_tests/tukey_hsd_test.rs b/src/statistical_tests/tukey_hsd_test.rs
index dbffe64..b50d2d9 100644
--- a/src/statistical_tests/tukey_hsd_test.rs
+++ b/src/statistical_tests/tukey_hsd_test.rs
@@ -33,8 +33,6 @@ impl TukeyHsdTest {
     ///
     /// * [`ElinorError::InvalidArgument`] if the length of each record is not equal to the number of systems.
     /// * [`ElinorError::InvalidArgument`] if the input does not have at least two records.
-    /// * [`ElinorError::InvalidArgument`] if the number of systems is less than two.
-    /// * [`ElinorError::Uncomputable`] if the residual variance is zero.
     pub fn from_tupled_samples<I, S>(samples: I, n_systems: usize) -> Result<Self, ElinorError>
     where
         I: IntoIterator<Item = S>,
diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index 342f305..d4f5bd1 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -52,8 +52,6 @@ impl TwoWayAnovaWithoutReplication {
     ///
     /// * [`ElinorError::InvalidArgument`] if the length of each record is not equal to the number of systems.
     /// * [`ElinorError::InvalidArgument`] if the input does not have at least two records.
-    /// * [`ElinorError::InvalidArgument`] if the number of systems is less than two.
-    /// * [`ElinorError::Uncomputable`] if the residual variance is zero.
     ///
     /// # Examples
     ///
@@ -90,12 +88,6 @@ impl TwoWayAnovaWithoutReplication {
             ));
         }
 
-        if n_systems <= 1 {
-            return Err(ElinorError::InvalidArgument(
-                "The number of systems must be at least two.".to_string(),
-            ));
-        }
-
         let n_topics_f = samples.len() as f64;
         let n_systems_f = n_systems as f64;
 
@@ -155,11 +147,6 @@ impl TwoWayAnovaWithoutReplication {
         // V_E
         let residual_freedom = (n_systems_f - 1.) * (n_topics_f - 1.);
         let residual_variance = residual_variation / residual_freedom;
-        if residual_variance == 0.0 {
-            return Err(ElinorError::Uncomputable(
-                "The residual variance is zero.".to_string(),
-            ));
-        }
 
         // F and p-value for the between-system factor.
         let between_system_f_dist = FisherSnedecor::new(between_system_freedom, residual_freedom)
-- 
2.43.0

