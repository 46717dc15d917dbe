From 6c8cb5fa3943be3f178bf672840427d2f6f90141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 01/31] fix: LPBoost solves the soft-margin LP with slack
 penalty 1/nu

---
 src/booster/lpboost/lp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/lpboost/lp_model.rs b/src/booster/lpboost/lp_model.rs
index 4f917bf..4f8e127 100644
--- a/src/booster/lpboost/lp_model.rs
+++ b/src/booster/lpboost/lp_model.rs
@@ -82,7 +82,7 @@ impl LPModel {
         // Set the linear part of the objective function 
         // as the minimization form
         // - ρ + (1/ν) Σ_i ξ_i
-        let mut lin_obj = vec![1f64/upper_bound; n_examples+1];
+        let mut lin_obj = vec![upper_bound; n_examples+1];
         lin_obj[0] = -1f64;
 
         let mut col_ptr = vec![0usize];
-- 
2.43.0


From 2fa595049bdf7b66850608cca1c43cb17d00bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 02/31] fix: MadaBoost accumulates the logarithm of beta and
 caps the weights of misclassified examples

---
 src/booster/madaboost/madaboost_algorithm.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/booster/madaboost/madaboost_algorithm.rs b/src/booster/madaboost/madaboost_algorithm.rs
index d98c87f..5429dd4 100644
--- a/src/booster/madaboost/madaboost_algorithm.rs
+++ b/src/booster/madaboost/madaboost_algorithm.rs
@@ -197,9 +197,9 @@ impl<'a, F> MadaBoost<'a, F> {
     ) -> f64
     {
         // Defines the `epsilon` by transforming `edge.`
-        // We assume that `eps` is in `[0.0, 1.0).`
+        // We assume that `eps` is in `[0.0, 1.0].`
         let eps = 0.5f64 * (1f64 - edge);
-        assert!((0f64..1f64).contains(&eps), "EPS: {}", eps);
+        assert!((0f64..=1f64).contains(&eps), "EPS: {}", eps);
         let eps2 = (0.5f64 * eps).sqrt();
         let beta = (eps2 / (1f64 - eps2)).sqrt();
 
@@ -211,7 +211,7 @@ impl<'a, F> MadaBoost<'a, F> {
         // To prevent overflow, take the logarithm.
         self.betas.par_iter_mut()
             .zip(margins)
-            .for_each(|(b, yh)| { *b += yh * beta; });
+            .for_each(|(b, yh)| { *b += yh * beta.ln(); });
 
 
         alpha
@@ -224,7 +224,7 @@ impl<'a, F> MadaBoost<'a, F> {
         let weights = {
             let mut weights = self.betas.iter()
                 .copied()
-                .map(|b| b.min(1f64))
+                .map(|b| b.min(0f64))
                 .collect::<Vec<_>>();
             weights.shrink_to_fit();
             weights
@@ -296,8 +296,7 @@ impl<F> Booster<F> for MadaBoost<'_, F>
         self.sample.is_valid_binary_instance();
         // Initialize parameters
         let n_sample = self.sample.shape().0;
-        let uni = 1.0 / n_sample as f64;
-        self.betas = vec![uni; n_sample];
+        self.betas = vec![0f64; n_sample];
 
         self.alphas = Vec::new();
         self.hypotheses = Vec::new();
-- 
2.43.0


From 639cda4a5bb46654e9617f555ec99558f0451d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 03/31] fix: SmoothBoost starts from N = 0 and weights every
 hypothesis

---
 src/booster/smoothboost/smoothboost_algorithm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 545e210..69d47f9 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -269,7 +269,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
 
 
         self.m = vec![1.0; self.n_sample];
-        self.n = vec![1.0; self.n_sample];
+        self.n = vec![0.0; self.n_sample];
     }
 
 
@@ -345,7 +345,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
         where W: WeakLearner<Hypothesis = F>
     {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
@@ -357,7 +357,7 @@ impl<H> Research for SmoothBoost<'_, H>
     type Output = WeightedMajority<H>;
     fn current_hypothesis(&self) -> Self::Output {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
-- 
2.43.0


From ac8e725ece5adafd92f8257bd63ee7a90afd3460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 04/31] fix: WeightedMajority keeps negative weights and
 tolerates empty ones

---
 src/common/utils.rs                 | 3 ++-
 src/hypothesis/weighted_majority.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/utils.rs b/src/common/utils.rs
index fcf726f..ef22b4b 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -289,7 +289,8 @@ pub fn normalize(items: &mut [f64]) {
         .map(|it| it.abs())
         .sum::<f64>();
 
-    assert_ne!(z, 0.0, "{items:?}");
+    // There is nothing to normalize.
+    if z == 0.0 { return; }
 
     items.par_iter_mut()
         .for_each(|item| { *item /= z; });
diff --git a/src/hypothesis/weighted_majority.rs b/src/hypothesis/weighted_majority.rs
index 5e0a9a6..9edcf03 100644
--- a/src/hypothesis/weighted_majority.rs
+++ b/src/hypothesis/weighted_majority.rs
@@ -29,7 +29,7 @@ impl<H: Clone> WeightedMajority<H> {
             .copied()
             .zip(hypotheses)
             .for_each(|(w, h)| {
-                if w > 0.0 {
+                if w != 0.0 {
                     new_weights.push(w);
                     new_hypotheses.push(h.clone());
                 }
-- 
2.43.0


From d10ff019ee5738768fee9abc465fe5d9fff00e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 05/31] fix: AdaBoost and AdaBoostV survive vanished example
 weights and degenerate margin targets

---
 src/booster/adaboost/adaboost_algorithm.rs   | 6 ++++++
 src/booster/adaboostv/adaboostv_algorithm.rs | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/booster/adaboost/adaboost_algorithm.rs b/src/booster/adaboost/adaboost_algorithm.rs
index 3f1e332..ef3b997 100644
--- a/src/booster/adaboost/adaboost_algorithm.rs
+++ b/src/booster/adaboost/adaboost_algorithm.rs
@@ -228,6 +228,12 @@ impl<'a, F> AdaBoost<'a, F> {
                 std::mem::swap(&mut a, &mut b);
             }
 
+            // A weight may have vanished, `ln(0) = -∞.`
+            if b == f64::NEG_INFINITY {
+                normalizer = a;
+                continue;
+            }
+
             normalizer = a + (1.0 + (b - a).exp()).ln();
         }
 
diff --git a/src/booster/adaboostv/adaboostv_algorithm.rs b/src/booster/adaboostv/adaboostv_algorithm.rs
index ada5e76..daf984f 100644
--- a/src/booster/adaboostv/adaboostv_algorithm.rs
+++ b/src/booster/adaboostv/adaboostv_algorithm.rs
@@ -232,7 +232,8 @@ impl<'a, F> AdaBoostV<'a, F> {
 
         // Update edge & margin estimation parameters
         self.gamma = edge.min(self.gamma);
-        self.rho = self.gamma - self.tolerance;
+        // The margin target must be greater than the trivial one, `-1.`
+        self.rho = (self.gamma - self.tolerance).max(-1.0 + f64::EPSILON);
 
 
         let weight = {
@@ -264,6 +265,12 @@ impl<'a, F> AdaBoostV<'a, F> {
                 std::mem::swap(&mut a, &mut b);
             }
 
+            // A weight may have vanished, `ln(0) = -∞.`
+            if b == f64::NEG_INFINITY {
+                normalizer = a;
+                continue;
+            }
+
             normalizer = a + (1.0 + (b - a).exp()).ln();
         }
 
-- 
2.43.0


From b689e4d520f859e0b0203f28d1b7606d28ca7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 06/31] fix: SoftBoost caps the distribution at 1/nu, keeps the
 requested accuracy and stops on infeasibility only

---
 src/booster/softboost/qp_model.rs            | 24 +++++++++++---------
 src/booster/softboost/softboost_algorithm.rs |  5 ++--
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 1fb95a3..bac2151 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -13,6 +13,7 @@ use crate::hypothesis::Classifier;
 use std::iter;
 
 const QP_TOLERANCE: f64 = 1e-9;
+const DIST_LOWER_BOUND: f64 = 1e-12;
 
 /// A quadratic programming model for edge minimization. 
 /// `QPModel` solves the entropy regularized edge minimization problem:
@@ -140,13 +141,16 @@ impl QPModel {
             );
 
             solver.solve();
-            let solution = &solver.solution.x[..];
 
-            // breaks if there is a zero-valued coordinate in the solution.
-            if !self.all_positive(solution) { return None; }
+            // no distribution attains the edge `ghat` anymore.
+            if !self.is_solved(solver.solution.status) { return None; }
+
+            // the solution is approximate; put it back to the interior
+            // of the probability simplex.
             dist.iter_mut()
-                .zip(solution)
-                .for_each(|(di, s)| { *di = *s; });
+                .zip(&solver.solution.x[..])
+                .for_each(|(di, s)| { *di = s.max(DIST_LOWER_BOUND); });
+            utils::normalize(dist);
 
             let objval = solver.solution.obj_val;
             if old_objval - objval < QP_TOLERANCE {
@@ -158,11 +162,9 @@ impl QPModel {
     }
 
 
-    /// Returns `true` if `dist[i] > 0` holds for all `i = 1, 2, ..., m.` 
-    pub(self) fn all_positive(&self, dist: &[f64]) -> bool {
-        dist.iter()
-            .copied()
-            .all(|d| d > 0f64)
+    /// Returns `true` if the solver found a solution of the sub-problem.
+    pub(self) fn is_solved(&self, status: SolverStatus) -> bool {
+        matches!(status, SolverStatus::Solved | SolverStatus::AlmostSolved)
     }
 
 
@@ -236,7 +238,7 @@ impl QPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j + 1);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index dfca910..d62a256 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -221,7 +221,7 @@ impl<'a, F> SoftBoost<'a, F>
         let temp = (n_sample / self.nu).ln();
         let max_iter = 2.0 * temp / self.tolerance.powi(2);
 
-        max_iter.ceil() as usize
+        max_iter.ceil().max(1.0) as usize
     }
 }
 
@@ -249,10 +249,11 @@ impl<F> SoftBoost<'_, F>
     /// Returns `None` if the stopping criterion satisfied.
     fn update_params_mut(&mut self) -> Option<()> {
         let h = self.hypotheses.last().unwrap();
+        let ghat = self.gamma_hat - self.tolerance;
         self.qp_model.as_ref()
             .expect("Failed to call `.as_ref()` to `self.qp_model`")
             .borrow_mut()
-            .update(self.sample, &mut self.dist[..], self.gamma_hat, h)
+            .update(self.sample, &mut self.dist[..], ghat, h)
     }
 }
 
-- 
2.43.0


From 7167cd94b029dfcf4e154a2ad39096bead53acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 07/31] fix: Frank-Wolfe steps move along the ascent direction

---
 src/common/frank_wolfe.rs | 83 ++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 7ef873d..f16bb63 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -103,6 +103,10 @@ impl FrankWolfe {
     {
         let n_hypotheses = hypotheses.len();
         assert!((0..n_hypotheses).contains(&position_of_new_one));
+
+        // The simplex over a single hypothesis is a point.
+        if n_hypotheses == 1 { return vec![1.0]; }
+
         match self.fw_type {
             FWType::Classic
                 => self.classic(iteration, position_of_new_one, weights),
@@ -147,9 +151,6 @@ impl FrankWolfe {
     ) -> Vec<f64>
         where H: Classifier,
     {
-        if hypotheses.len() == 1 { return vec![1.0]; }
-
-
         let h = &hypotheses[position_of_new_one];
 
 
@@ -173,10 +174,16 @@ impl FrankWolfe {
                 numer += d * diff;
                 denom = denom.max(diff.abs());
             });
-        let step = numer / (self.eta * denom.powi(2));
+        let denom = self.eta * denom.powi(2);
 
         // Clip the step size to `[0, 1]`.
-        let step_size = step.clamp(0f64, 1f64);
+        let step_size = if numer <= 0f64 {
+            0f64
+        } else if numer >= denom {
+            1f64
+        } else {
+            numer / denom
+        };
 
 
         // Update the weights
@@ -215,8 +222,11 @@ impl FrankWolfe {
 
 
         // Check the case where the step size is `1`.
-        let dist = utils::exp_distribution(
-            self.eta, self.nu, sample, &dir[..], hypotheses,
+        let margins = base_margins.iter()
+            .zip(&dir_margins[..])
+            .map(|(&b, &d)| b + d);
+        let dist = utils::exp_distribution_from_margins(
+            self.eta, self.nu, margins,
         );
 
 
@@ -224,7 +234,9 @@ impl FrankWolfe {
         let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
 
-        if dot <= 0.0 {
+        // If the objective still increases at the step size `1`,
+        // then the step size `1` is the best one.
+        if dot >= 0.0 {
             let n_weights = weights.len();
             weights = vec![0.0; n_weights];
             weights[position_of_new_one] = 1.0;
@@ -249,9 +261,9 @@ impl FrankWolfe {
             // Compute the gradient for the direction `dir`.
             let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-            if dot < 0.0 {
+            if dot > 0.0 {
                 lb = step_size;
-            } else if dot > 0.0 {
+            } else if dot < 0.0 {
                 ub = step_size;
             } else {
                 break;
@@ -276,13 +288,17 @@ impl FrankWolfe {
     ) -> Vec<f64>
         where H: Classifier,
     {
-        // Find a hypothesis that has a smallest edge.
-        let mut worst_edge = 2.0;
-        let mut local_best_edge = -2.0;
-        let mut global_best_edge = -2.0;
-        let mut position_of_worst_one = hypotheses.len();
-        let mut position_of_local_best_one = hypotheses.len();
-        let mut position_of_global_best_one = position_of_new_one;
+        // The global FW atom is the newly attained one.
+        let global_best_edge = utils::edge_of_hypothesis(
+            sample, dist, &hypotheses[position_of_new_one]
+        );
+
+        // Among the hypotheses of positive weight,
+        // find the ones that have the smallest and the largest edges.
+        let mut worst_edge = f64::INFINITY;
+        let mut local_best_edge = f64::NEG_INFINITY;
+        let mut position_of_worst_one = position_of_new_one;
+        let mut position_of_local_best_one = position_of_new_one;
         weights.iter()
             .zip(hypotheses)
             .enumerate()
@@ -295,31 +311,17 @@ impl FrankWolfe {
                 }
             })
             .for_each(|(j, edge)| {
-                if j != position_of_new_one && edge > local_best_edge {
+                if edge > local_best_edge {
                     local_best_edge = edge;
                     position_of_local_best_one = j;
                 }
 
-                if edge > global_best_edge {
-                    global_best_edge = edge;
-                    position_of_global_best_one = j;
-                }
-
-
                 if edge < worst_edge {
                     worst_edge = edge;
                     position_of_worst_one = j;
                 }
             });
 
-        // If the following condition holds,
-        // the global FW atom is not the newly attained one
-        // so that the local one is the same as the global one.
-        if position_of_global_best_one + 1 != hypotheses.len() {
-            local_best_edge = global_best_edge;
-            position_of_local_best_one = position_of_global_best_one;
-        }
-
         let current_edge = utils::edge_of_weighted_hypothesis(
             sample, dist, &weights[..], hypotheses
         );
@@ -353,21 +355,20 @@ impl FrankWolfe {
 
             let margins = dir_margins.iter()
                 .zip(base_margins.iter())
-                .map(|(dir, cur)| cur + max_stepsize * dir)
-                .collect::<Vec<_>>();
+                .map(|(dir, cur)| cur + max_stepsize * dir);
 
 
-            let dist = utils::exp_distribution(
-                self.eta, self.nu, sample, &margins[..], hypotheses,
+            let dist = utils::exp_distribution_from_margins(
+                self.eta, self.nu, margins,
             );
 
 
             // If the max step size is the best one,
             // 1. Set 0 weight on `position_of_worst_one`,
-            // 2. Set `max_stepsize` on `position_of_local_best_one`.
-            if utils::inner_product(&dist[..], &dir_margins[..]) <= 0.0 {
-                weights[position_of_new_one] = max_stepsize;
+            // 2. Move `max_stepsize` to `position_of_local_best_one`.
+            if utils::inner_product(&dist[..], &dir_margins[..]) >= 0.0 {
                 weights[position_of_worst_one] = 0.0;
+                weights[position_of_local_best_one] += max_stepsize;
                 return weights;
             }
 
@@ -387,9 +388,9 @@ impl FrankWolfe {
                 // Compute the gradient for the direction `dir`.
                 let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-                if dot < 0.0 {
+                if dot > 0.0 {
                     lb = step_size;
-                } else if dot > 0.0 {
+                } else if dot < 0.0 {
                     ub = step_size;
                 } else {
                     break;
-- 
2.43.0


From 689c52b0b83d0c05d573331042028c1d0379994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 08/31] fix: the capped-simplex check tolerates solver accuracy

---
 src/common/checker.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/checker.rs b/src/common/checker.rs
index 9e88e6a..5ae47d0 100644
--- a/src/common/checker.rs
+++ b/src/common/checker.rs
@@ -57,9 +57,10 @@ pub(crate) fn check_capped_simplex_condition(
     }
     assert!((sum - 1f64).abs() < SIMPLEX_TOLERANCE, "sum(dist[..]) = {sum}");
 
-    let ub = 1f64 / nu;
+    let lb = - SIMPLEX_TOLERANCE;
+    let ub = 1f64 / nu + SIMPLEX_TOLERANCE;
     assert!(
-        slice.iter().all(|s| (0f64..=ub).contains(s)),
+        slice.iter().all(|s| (lb..=ub).contains(s)),
         "capping constraint is violated!"
     );
 }
-- 
2.43.0


From cfc2bf0330bf86c1ae69be119c2134f8c83a1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 09/31] fix: ERLPBoost, CERLPBoost and MLPBoost never stop
 without a hypothesis, MLPBoost's LP respects the cap

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 4 ++--
 src/booster/erlpboost/erlpboost_algorithm.rs   | 2 +-
 src/booster/mlpboost/mlpboost_algorithm.rs     | 2 +-
 src/booster/mlpboost/perturbed_lp_model.rs     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 1f02697..7b37ea6 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -229,7 +229,7 @@ impl<'a, F> CERLPBoost<'a, F> {
         let ln_m = (m / self.nu).ln();
         let max_iter = 8.0 * ln_m / self.half_tolerance.powi(2);
 
-        max_iter.ceil() as usize
+        max_iter.ceil().max(1.0) as usize
     }
 
 
@@ -356,7 +356,7 @@ impl<F> Booster<F> for CERLPBoost<'_, F>
         let diff = new_edge - old_edge;
 
         // Update the parameters
-        if diff <= self.half_tolerance {
+        if !self.hypotheses.is_empty() && diff <= self.half_tolerance {
             self.terminated = iteration;
             return ControlFlow::Break(iteration);
         }
diff --git a/src/booster/erlpboost/erlpboost_algorithm.rs b/src/booster/erlpboost/erlpboost_algorithm.rs
index c810573..3baa7aa 100644
--- a/src/booster/erlpboost/erlpboost_algorithm.rs
+++ b/src/booster/erlpboost/erlpboost_algorithm.rs
@@ -403,7 +403,7 @@ impl<F> Booster<F> for ERLPBoost<'_, F>
 
         // Check the stopping criterion
         let diff = self.gamma_hat - self.gamma_star;
-        if diff <= self.half_tolerance {
+        if !self.hypotheses.is_empty() && diff <= self.half_tolerance {
             self.terminated = iteration;
             return ControlFlow::Break(iteration);
         }
diff --git a/src/booster/mlpboost/mlpboost_algorithm.rs b/src/booster/mlpboost/mlpboost_algorithm.rs
index d14387c..b200729 100644
--- a/src/booster/mlpboost/mlpboost_algorithm.rs
+++ b/src/booster/mlpboost/mlpboost_algorithm.rs
@@ -297,7 +297,7 @@ impl<'a, F> MLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     pub fn max_loop(&self) -> usize {
         let ln_m = (self.n_sample as f64 / self.nu).ln();
-        (8.0_f64 * ln_m / self.half_tolerance.powi(2)).ceil() as usize
+        (8.0_f64 * ln_m / self.half_tolerance.powi(2)).ceil().max(1.0) as usize
     }
 
 
diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index 7c318d3..a166d87 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -179,7 +179,7 @@ impl LPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From 5c11011317d8c29b816baa0f883fa32a38ce331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 10/31] fix: Logger reports write errors and accumulates the
 full time

---
 src/research/logger.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/research/logger.rs b/src/research/logger.rs
index 523826e..3493789 100644
--- a/src/research/logger.rs
+++ b/src/research/logger.rs
@@ -11,7 +11,7 @@ use super::ObjectiveFunction;
 use std::fs::File;
 use std::io::prelude::*;
 use std::path::Path;
-use std::time::Instant;
+use std::time::{Duration, Instant};
 use std::ops::ControlFlow;
 
 const DEFAULT_ROUND: usize = 100;
@@ -225,7 +225,10 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
 
 
         // Cumulative time
-        let mut time_acc = 0;
+        let mut elapsed = Duration::ZERO;
+
+        // The first error in writing to `file`, if any
+        let mut written = Ok(());
 
         // ---------------------------------------------------------------------
         // Boosting step
@@ -236,11 +239,11 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
 
             let flow = self.booster.boost(&self.weak_learner, iter);
 
-            // Stop measuring and convert `Duration` to Milliseconds.
-            let time = now.elapsed().as_millis();
+            // Stop measuring and update the cumulative time
+            elapsed += now.elapsed();
 
-            // Update the cumulative time
-            time_acc += time;
+            // Convert `Duration` to Milliseconds.
+            let time_acc = elapsed.as_millis();
 
             let hypothesis = self.booster.current_hypothesis();
 
@@ -250,8 +253,8 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
 
             // Write the results to `file`.
             let line = format!("{obj},{train},{test},{time_acc}\n");
-            file.write_all(line.as_bytes())
-                .expect("Failed to writing {filename:?}");
+            written = file.write_all(line.as_bytes());
+            if written.is_err() { return ControlFlow::Break(iter); }
 
             if time_acc > self.time_limit {
                 println!(
@@ -293,6 +296,7 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
             }
             flow
         });
+        written?;
 
 
         let f = self.booster.postprocess(&self.weak_learner);
-- 
2.43.0


From ffc876bd4811e2587f8e767fdc7ebbccb9e1e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 11/31] fix: GBM fits the residuals and returns the sum it has
 fitted

---
 src/booster/gradient_boost/gbm.rs | 13 +++++++++++--
 src/common/loss_functions.rs      | 21 +++++++++++++++------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 0d8d01b..82dbe04 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -235,8 +235,13 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
         let h = weak_learner.produce(self.sample, &self.predictions[..]);
 
         let predictions = h.predict_all(self.sample);
+        let residuals = self.sample.target()
+            .iter()
+            .zip(&self.predictions[..])
+            .map(|(y, p)| y - p)
+            .collect::<Vec<f64>>();
         let coef = self.loss.best_coefficient(
-            self.sample.target(), &predictions[..]
+            &residuals[..], &predictions[..]
         );
 
         // If the best coefficient is zero,
@@ -266,7 +271,11 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
     ) -> Self::Output
         where W: WeakLearner<Hypothesis = F>
     {
-        WeightedMajority::from_slices(&self.weights[..], &self.hypotheses[..])
+        // The output is a sum of hypotheses, not an average.
+        WeightedMajority {
+            weights: self.weights.clone(),
+            hypotheses: self.hypotheses.clone(),
+        }
     }
 }
 
diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 2b31147..9023848 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -158,28 +158,37 @@ impl LossFunction for GBMLoss {
 
     fn best_coefficient(
         &self, 
-        targets: &[f64],
+        residuals: &[f64],
         predictions: &[f64],
     ) -> f64
     {
         match self {
             Self::L1 => {
-                let mut items = targets.iter()
+                let mut items = residuals.iter()
                     .zip(predictions)
                     .filter_map(|(&r, &p)| 
                         if p == 0.0 { None } else { Some((p.abs(), r / p)) }
                     )
                     .collect::<Vec<_>>();
 
+                // No coefficient affects the loss.
+                if items.is_empty() { return 0.0; }
+
                 weighted_median(&mut items[..])
             },
             Self::L2 => {
-                let y_sum = targets.iter().sum::<f64>();
-                let p_sum = predictions.iter().sum::<f64>();
+                let product = residuals.iter()
+                    .zip(predictions)
+                    .map(|(r, p)| r * p)
+                    .sum::<f64>();
+                let square = predictions.iter()
+                    .map(|p| p * p)
+                    .sum::<f64>();
 
-                assert_ne!(p_sum, 0.0);
+                // No coefficient affects the loss.
+                if square == 0.0 { return 0.0; }
 
-                y_sum / p_sum
+                product / square
             },
         }
     }
-- 
2.43.0


From 401da868bd0c94777f870460d43f7caa540b0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 12/31] fix: binning does not depend on the magnitude of the
 feature values

---
 src/weak_learner/decision_tree/bin.rs   | 60 +++++++++----------------
 src/weak_learner/regression_tree/bin.rs | 60 +++++++++----------------
 2 files changed, 42 insertions(+), 78 deletions(-)

diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index 53e3c24..9c38a56 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -17,9 +17,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 /// Binning: A feature processing.
@@ -117,26 +114,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
-
-
-        assert_eq!(bins.len(), n_bin);
-
-        Self(bins)
+        Self::cut_range(min, max, n_bin)
     }
 
 
@@ -171,24 +149,28 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
+        Self::cut_range(min, max, n_bin)
+    }
 
 
-        assert_eq!(bins.len(), n_bin);
+    /// Cut the range `[min, max]` into `n_bin` bins of the same width.
+    fn cut_range(min: f64, max: f64, n_bin: usize) -> Self {
+        // Divide first, the difference may overflow.
+        let n_bin_f64 = n_bin as f64;
+        let intercept = max / n_bin_f64 - min / n_bin_f64;
+
+        let mut edges = (1..n_bin)
+            .map(|k| (min + intercept * k as f64).clamp(min, max))
+            .collect::<Vec<_>>();
+        edges.insert(0, min);
+        edges.push(max);
+        // The range may be too narrow to have `n_bin` distinct bins.
+        edges.dedup();
+
+        let mut bins = edges.windows(2)
+            .map(|edge| Bin::new(edge[0]..edge[1]))
+            .collect::<Vec<_>>();
+        if bins.is_empty() { bins.push(Bin::new(min..max)); }
 
         Self(bins)
     }
diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 148b1ce..d360e3e 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -13,9 +13,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 type Gradient = f64;
@@ -117,26 +114,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
-
-
-        assert_eq!(bins.len(), n_bin);
-
-        Self(bins)
+        Self::cut_range(min, max, n_bin)
     }
 
 
@@ -171,24 +149,28 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
+        Self::cut_range(min, max, n_bin)
+    }
 
 
-        assert_eq!(bins.len(), n_bin);
+    /// Cut the range `[min, max]` into `n_bin` bins of the same width.
+    fn cut_range(min: f64, max: f64, n_bin: usize) -> Self {
+        // Divide first, the difference may overflow.
+        let n_bin_f64 = n_bin as f64;
+        let intercept = max / n_bin_f64 - min / n_bin_f64;
+
+        let mut edges = (1..n_bin)
+            .map(|k| (min + intercept * k as f64).clamp(min, max))
+            .collect::<Vec<_>>();
+        edges.insert(0, min);
+        edges.push(max);
+        // The range may be too narrow to have `n_bin` distinct bins.
+        edges.dedup();
+
+        let mut bins = edges.windows(2)
+            .map(|edge| Bin::new(edge[0]..edge[1]))
+            .collect::<Vec<_>>();
+        if bins.is_empty() { bins.push(Bin::new(min..max)); }
 
         Self(bins)
     }
-- 
2.43.0


From 8a3be026855ae19ca85573dc10b53375670c7037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 13/31] fix: regression trees follow the L1 gradient and split
 nodes whose gradients cancel

---
 src/common/loss_functions.rs                    |  2 +-
 src/weak_learner/regression_tree/bin.rs         | 17 +++++++++++------
 .../regression_tree_algorithm.rs                |  7 +++++--
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 9023848..7683177 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -101,7 +101,7 @@ impl LossFunction for GBMLoss {
             Self::L1 => {
                 target.iter()
                     .zip(predictions)
-                    .map(|(y, p)| (y - p).signum())
+                    .map(|(y, p)| if p == y { 0f64 } else { (p - y).signum() })
                     .collect()
             },
             Self::L2 => {
diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index d360e3e..99379e8 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -243,13 +243,18 @@ impl Bins {
         // The left-most bin might have zero weight.
         // In this case, find the next non-zero weight bin and merge.
         if prev_grad == 0.0 && prev_hess == 0.0 {
-            let (next_bin, (next_grad, next_hess)) = iter.next().unwrap();
-
             let start = prev_bin.0.start;
-            let end = next_bin.0.end;
-            prev_bin = Bin::new(start..end);
-            prev_grad = next_grad;
-            prev_hess = next_hess;
+            match iter.next() {
+                Some((next_bin, (next_grad, next_hess))) => {
+                    let end = next_bin.0.end;
+                    prev_bin = Bin::new(start..end);
+                    prev_grad = next_grad;
+                    prev_hess = next_hess;
+                },
+                // The gradients cancel each other in every bin,
+                // so that all the bins are merged.
+                None => { prev_bin = Bin::new(start..f64::MAX); },
+            }
         }
 
         let mut bin_and_gh = Vec::new();
diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index b3d331f..85deff5 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -114,8 +114,11 @@ impl<'a, L> RegressionTree<'a, L> {
         );
 
 
-        // If sum of `dist` over `train` is zero, construct a leaf node.
-        if loss == 0.0 || max_depth <= 1 {
+        // If no example on this node has a loss to reduce,
+        // construct a leaf node.
+        // Note that the gradients may cancel each other.
+        let fitted = indices.iter().all(|&i| gradient[i] == 0.0);
+        if fitted || max_depth <= 1 {
             return TrainNode::leaf(pred, loss);
         }
 
-- 
2.43.0


From 6437386e6d99124c3053b4e04dd2cc9ea32ab970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 14/31] fix: sparse features compute the mean and the variance
 of the given label

---
 src/sample/feature_struct.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 93c2a6d..9c3e575 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -450,9 +450,8 @@ impl SparseFeature {
         let mut total_weight = utils::total_weight_for_label(y, target, weight);
         if total_weight == 0.0 { total_weight = MINIMAL_WEIGHT_SUM; }
         self.sample.iter()
-            .zip(target)
-            .map(|((i, f), &t)|
-                if t == y { 0.0 } else { weight[*i] * f }
+            .map(|&(i, f)|
+                if target[i] != y { 0.0 } else { weight[i] * f }
             )
             .sum::<f64>()
             / total_weight
@@ -497,14 +496,18 @@ impl SparseFeature {
         let mut zero_weight = 0.0;
         let mut prev = 0;
         for &(i, f) in self.sample.iter() {
-            zero_weight += weight[prev..i].iter().sum::<f64>();
+            zero_weight += utils::total_weight_for_label(
+                y, &target[prev..i], &weight[prev..i]
+            );
             prev = i + 1;
             if target[i] == y {
                 variance += weight[i] * (f - mean).powi(2);
             }
         }
 
-        zero_weight += weight[prev..].iter().sum::<f64>();
+        zero_weight += utils::total_weight_for_label(
+            y, &target[prev..], &weight[prev..]
+        );
 
         variance += zero_weight * mean.powi(2);
         variance / total_weight
-- 
2.43.0


From a4dfa054861b16962c0e01d63dc23f03170e9194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 15/31] fix: Gaussian naive Bayes survives vanished variances
 and underflowing densities

---
 src/weak_learner/naive_bayes/nbayes_classifier.rs | 6 +++++-
 src/weak_learner/naive_bayes/probability.rs       | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/naive_bayes/nbayes_classifier.rs b/src/weak_learner/naive_bayes/nbayes_classifier.rs
index 894c8a0..de51e78 100644
--- a/src/weak_learner/naive_bayes/nbayes_classifier.rs
+++ b/src/weak_learner/naive_bayes/nbayes_classifier.rs
@@ -65,7 +65,11 @@ impl<P: Probability> Classifier for NBayesClassifier<P>
 {
     fn confidence(&self, sample: &Sample, row: usize) -> f64 {
 
-        self.probabilities(sample, row).into_iter()
+        // The probabilities themselves may underflow.
+        self.conditionals.iter()
+            .map(|(y, prior, density)| {
+                (*y, prior.ln() + density.log_probability(sample, row))
+            })
             .reduce(|a, b| if a.1 > b.1 { a } else { b })
             .expect("Faied to compare the probabilities")
             .0
diff --git a/src/weak_learner/naive_bayes/probability.rs b/src/weak_learner/naive_bayes/probability.rs
index a529815..9c6c42b 100644
--- a/src/weak_learner/naive_bayes/probability.rs
+++ b/src/weak_learner/naive_bayes/probability.rs
@@ -8,6 +8,9 @@ use core::f64::consts::PI;
 use crate::Sample;
 
 
+const MINIMAL_VARIANCE: f64 = 1e-9;
+
+
 pub trait Probability {
     fn log_probability(&self, sample: &Sample, row: usize) -> f64;
 
@@ -45,7 +48,10 @@ impl Probability for Gaussian {
             .map(|((&mean, &var), feat)| {
                 let x = feat[row];
 
-                ((x - mean).powi(2) / var) + n_features * var.ln()
+                // A feature may take a single value.
+                let var = var.max(MINIMAL_VARIANCE);
+
+                ((x - mean).powi(2) / var) + var.ln()
             })
             .sum::<f64>();
 
-- 
2.43.0


From 96fda3c1076f25faa6549afca1488209139aa4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 16/31] fix: DOT export reports write errors

---
 src/weak_learner/decision_tree/decision_tree_classifier.rs | 7 +++----
 .../regression_tree/regression_tree_regressor.rs           | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/weak_learner/decision_tree/decision_tree_classifier.rs b/src/weak_learner/decision_tree/decision_tree_classifier.rs
index 4b9d034..3aa3581 100644
--- a/src/weak_learner/decision_tree/decision_tree_classifier.rs
+++ b/src/weak_learner/decision_tree/decision_tree_classifier.rs
@@ -44,10 +44,9 @@ impl DecisionTreeClassifier {
 
 
         let info = self.root.to_dot_info(0).0;
-        info.into_iter()
-            .for_each(|row| {
-                f.write_all(row.as_bytes()).unwrap();
-            });
+        for row in info {
+            f.write_all(row.as_bytes())?;
+        }
 
         f.write_all(b"}")?;
 
diff --git a/src/weak_learner/regression_tree/regression_tree_regressor.rs b/src/weak_learner/regression_tree/regression_tree_regressor.rs
index 4b55c47..32bd69b 100644
--- a/src/weak_learner/regression_tree/regression_tree_regressor.rs
+++ b/src/weak_learner/regression_tree/regression_tree_regressor.rs
@@ -46,10 +46,9 @@ impl RegressionTreeRegressor {
 
 
         let info = self.root.to_dot_info(0).0;
-        info.into_iter()
-            .for_each(|row| {
-                f.write_all(row.as_bytes()).unwrap();
-            });
+        for row in info {
+            f.write_all(row.as_bytes())?;
+        }
 
         f.write_all(b"}")?;
 
-- 
2.43.0


From faff0763524838876f0b2b2211bc66f84a203662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 17/31] fix: NeuralNetwork trains on few weighted examples,
 with the right sigmoid slope and output sign

---
 src/common/task.rs                                 | 2 +-
 src/weak_learner/neural_network/activation.rs      | 3 ++-
 src/weak_learner/neural_network/nn_weak_learner.rs | 7 +++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/task.rs b/src/common/task.rs
index 32768a1..3897b85 100644
--- a/src/common/task.rs
+++ b/src/common/task.rs
@@ -39,7 +39,7 @@ pub(crate) fn binarize<T: AsRef<[f64]>>(y: T) -> f64 {
     // this code interprets it 
     // as the confidence to be `+1`
     if y.len() == 1 {
-        1.0 - 2.0 * y[0]
+        2.0 * y[0] - 1.0
         // if y[0] >= 0.5 { y[0] } else { y[0] - 1.0 }
     } else if y.len() == 2 {
         if y[0] > y[1] { -y[0] } else { y[1] }
diff --git a/src/weak_learner/neural_network/activation.rs b/src/weak_learner/neural_network/activation.rs
index c21258a..eb7b3ef 100644
--- a/src/weak_learner/neural_network/activation.rs
+++ b/src/weak_learner/neural_network/activation.rs
@@ -85,7 +85,8 @@ fn sigmoid_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
     x.iter()
         .map(|xi| {
             let e = (-eta * xi).exp();
-            eta * e / (1.0 + e)
+            // Avoid `inf / inf`.
+            if e.is_infinite() { 0.0 } else { eta * (e / (1.0 + e)) / (1.0 + e) }
         })
         .collect()
 }
diff --git a/src/weak_learner/neural_network/nn_weak_learner.rs b/src/weak_learner/neural_network/nn_weak_learner.rs
index 1d12149..f718a2c 100644
--- a/src/weak_learner/neural_network/nn_weak_learner.rs
+++ b/src/weak_learner/neural_network/nn_weak_learner.rs
@@ -195,12 +195,15 @@ impl WeakLearner for NeuralNetwork {
         let mut f = NNHypothesis::new(
             self.task, &self.dimensions[..], &self.activations[..]
         );
-        let weights = |i: usize| dist[i];
+        let weights = |i: usize| dist[i].max(0.0);
+        // Only the examples of positive weight can be drawn.
+        let n_positive = dist.iter().filter(|d| **d > 0.0).count();
+        let minibatch_size = self.minibatch_size.min(n_positive);
         for _ in 1..=self.n_epoch {
             // Randomly chosen indices over training sample
             let mut rng = rand::thread_rng();
             let minibatch = index::sample_weighted(
-                &mut rng, n_samples, weights, self.minibatch_size,
+                &mut rng, n_samples, weights, minibatch_size,
             ).unwrap();
             let minibatch = minibatch.into_iter().collect::<Vec<_>>();
             for _ in 1..=self.n_iter_per_epoch {
-- 
2.43.0


From 41ae1106a69359b6a6845d430e4272834ace69e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 18/31] fix: SampleReader reports malformed files instead of
 panicking or misaligning columns

---
 src/sample/sample_reader.rs | 11 +++++-
 src/sample/sample_struct.rs | 74 +++++++++++++++++++------------------
 2 files changed, 48 insertions(+), 37 deletions(-)

diff --git a/src/sample/sample_reader.rs b/src/sample/sample_reader.rs
index c4721ab..7885268 100644
--- a/src/sample/sample_reader.rs
+++ b/src/sample/sample_reader.rs
@@ -82,8 +82,15 @@ impl<P, S> SampleReader<P, S>
                 );
             }
             let target = self.target.unwrap();
-            Sample::from_csv(file, self.has_header)?
-                .set_target(target.as_ref())
+            let target = target.as_ref();
+            let sample = Sample::from_csv(file, self.has_header)?;
+            if sample.features().iter().all(|feat| feat.name() != target) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!("The target class {target} does not exist"),
+                ));
+            }
+            sample.set_target(target)
         } else {
             Sample::from_svmlight(file)?
         };
diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 4d1a77f..dd9510f 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -70,7 +70,8 @@ impl Sample {
 
         let mut features = Vec::new();
         if has_header {
-            let line = lines.next().unwrap();
+            let line = lines.next()
+                .ok_or_else(|| invalid_data("The header row does not exist."))?;
             features = line?.split(',')
                 .map(DenseFeature::new)
                 .collect::<Vec<_>>();
@@ -82,21 +83,19 @@ impl Sample {
             // Split the line by white spaces
             let line = line?;
 
+            let xs = line.split(',')
+                .map(|x| {
+                    x.trim().parse::<f64>()
+                        .map_err(|_| invalid_data(format!(
+                            "The file contains non-numerical value. \
+                            Got {x} in Line {i}"
+                        )))
+                })
+                .collect::<io::Result<Vec<_>>>()?;
+
             // if the headeer does not exists,
             // construct a dummy header.
             if !has_header {
-                let xs = line.split(',')
-                    .map(|x| {
-                        x.trim().parse::<f64>()
-                            .unwrap_or_else(|_| {
-                                panic!(
-                                    "The file contains non-numerical value. \
-                                    Got {x} in Line {i}"
-                                )
-                            })
-                    })
-                    .collect::<Vec<_>>();
-
                 let n_feature = xs.len();
                 features = (1..=n_feature).map(|i| {
                         let name = format!("Feat. [{i}]");
@@ -113,12 +112,16 @@ impl Sample {
                 continue;
             }
 
-            line.split(',')
-                .map(|x| x.trim().parse::<f64>().unwrap())
-                .enumerate()
-                .for_each(|(i, x)| {
-                    features[i].append(x);
-                });
+            let (n_value, n_column) = (xs.len(), features.len());
+            if n_value != n_column {
+                return Err(invalid_data(format!(
+                    "Expected {n_column} values, got {n_value} in Line {i}"
+                )));
+            }
+
+            for (feat, x) in features.iter_mut().zip(xs) {
+                feat.append(x);
+            }
 
             n_sample += 1;
         }
@@ -252,14 +255,12 @@ impl Sample {
             let mut words = line.split_whitespace();
             // The first word corresponds to the target value.
             let y = words.next()
-                .unwrap()
-                .trim()
-                .parse::<f64>()
-                .expect("Failed to parse the target value.");
+                .and_then(|word| word.parse::<f64>().ok())
+                .ok_or_else(|| invalid_data("Failed to parse the target value."))?;
             target.push(y);
 
             for word in words {
-                let (i, x) = index_and_feature(word);
+                let (i, x) = index_and_feature(word)?;
 
                 while features.len() <= i {
                     let k = features.len() + 1;
@@ -593,20 +594,23 @@ impl Sample {
 
 /// Parse the following type of `str` to the pair of `(usize, f64)`.
 /// `index:value`, where `index: usize` and `value: f64`.
-fn index_and_feature(word: &str) -> (usize, f64) {
-    let mut i_x = word.split(':');
-    let i = i_x.next()
-        .unwrap()
-        .trim()
+fn index_and_feature(word: &str) -> io::Result<(usize, f64)> {
+    let (i, x) = word.split_once(':')
+        .ok_or_else(|| invalid_data("Failed to parse a pair `index:value`."))?;
+    let i = i.trim()
         .parse::<usize>()
-        .expect("Failed to parse an index.");
-    let x = i_x.next()
-        .unwrap()
-        .trim()
+        .map_err(|_| invalid_data("Failed to parse an index."))?;
+    let x = x.trim()
         .parse::<f64>()
-        .expect("Failed to parse a feature value.");
+        .map_err(|_| invalid_data("Failed to parse a feature value."))?;
+
+    Ok((i, x))
+}
+
 
-    (i, x)
+/// An error for a file whose content is not readable as a sample.
+fn invalid_data<T: Into<String>>(message: T) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, message.into())
 }
 
 
-- 
2.43.0


From c597588bd31abbec3eb64eb0ff14eb58871d0c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 19/31] fix: cross validation keeps rows aligned on sparse
 features and stops at the last example

---
 src/research/cross_validation.rs |  3 ++-
 src/sample/sample_struct.rs      | 11 ++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/research/cross_validation.rs b/src/research/cross_validation.rs
index 6eeec32..4d5e820 100644
--- a/src/research/cross_validation.rs
+++ b/src/research/cross_validation.rs
@@ -146,7 +146,8 @@ impl<'a> CrossValidation<'a> {
     fn fold_at(&self, i: usize) -> (Sample, Sample) {
         let sample_size = self.sample.shape().0;
         let test_size = sample_size - self.train_size;
-        let (start, end) = (i*test_size, ((i+1)*test_size).min(sample_size));
+        let start = (i*test_size).min(sample_size);
+        let end = ((i+1)*test_size).min(sample_size);
         self.sample.split(&self.ix, start, end)
     }
 }
diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index dd9510f..8323970 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -572,21 +572,18 @@ impl Sample {
             }
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(start) {
+        // The row numbers are counted for each sample.
+        let train_ix = ix[..start].iter().chain(&ix[end..self.n_sample]);
+        for (i, &ii) in train_ix.enumerate() {
             let (x, y) = self.at(ii);
             train.append(i, x, y);
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(end).skip(start) {
+        for (i, &ii) in ix[start..end].iter().enumerate() {
             let (x, y) = self.at(ii);
             test.append(i, x, y);
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(self.n_sample).skip(end) {
-            let (x, y) = self.at(ii);
-            train.append(i, x, y);
-        }
-
         (train, test)
     }
 }
-- 
2.43.0


From 69cd005dfc387b759f9529a90bab6fb122fa44b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 20/31] fix: ERLPBoost's sub-problem stays well-conditioned
 when weights vanish

---
 src/booster/erlpboost/qp_model.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/booster/erlpboost/qp_model.rs b/src/booster/erlpboost/qp_model.rs
index cadebb8..c2c2985 100644
--- a/src/booster/erlpboost/qp_model.rs
+++ b/src/booster/erlpboost/qp_model.rs
@@ -12,7 +12,9 @@ use crate::hypothesis::Classifier;
 
 use std::iter;
 
-const EPS: f64 = 1e-100;
+// Keeps the quadratic approximation well-conditioned
+// when some weights vanish.
+const EPS: f64 = 1e-6;
 const QP_TOLERANCE: f64 = 1e-9;
 
 /// A quadratic programming model for edge minimization. 
@@ -163,9 +165,10 @@ impl QPModel {
             );
 
             let objval = solver.solution.obj_val;
-            if old_objval - objval < QP_TOLERANCE
-                || solver.solution.status == SolverStatus::InsufficientProgress
-            {
+            let stalled = old_objval - objval < QP_TOLERANCE
+                || solver.solution.status == SolverStatus::InsufficientProgress;
+            // the first approximate solution is better than none.
+            if stalled && self.weights.len() == self.n_hypotheses {
                 break;
             }
             old_objval = objval;
-- 
2.43.0


From 204291a8258c0d1487b254d4169ecc9f8106b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 21/31] fix: SoftBoost does not take a solver failure for
 infeasibility

---
 src/booster/softboost/qp_model.rs | 55 +++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index bac2151..2bb3906 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -13,7 +13,9 @@ use crate::hypothesis::Classifier;
 use std::iter;
 
 const QP_TOLERANCE: f64 = 1e-9;
-const DIST_LOWER_BOUND: f64 = 1e-12;
+// Keeps the quadratic approximation well-conditioned
+// when some weights vanish.
+const DIST_LOWER_BOUND: f64 = 1e-6;
 
 /// A quadratic programming model for edge minimization. 
 /// `QPModel` solves the entropy regularized edge minimization problem:
@@ -142,15 +144,22 @@ impl QPModel {
 
             solver.solve();
 
-            // no distribution attains the edge `ghat` anymore.
-            if !self.is_solved(solver.solution.status) { return None; }
+            if !self.is_solved(solver.solution.status) {
+                // no distribution attains the edge `ghat` anymore.
+                if self.is_infeasible(solver.solution.status) { return None; }
+
+                // the solver failed on a problem that may be feasible.
+                if old_objval == 1e9 {
+                    let lp = self.solve_lp().solution;
+                    if lp.obj_val > ghat { return None; }
+                    Self::assign(dist, &lp.x[1..]);
+                }
+                break;
+            }
 
             // the solution is approximate; put it back to the interior
             // of the probability simplex.
-            dist.iter_mut()
-                .zip(&solver.solution.x[..])
-                .for_each(|(di, s)| { *di = s.max(DIST_LOWER_BOUND); });
-            utils::normalize(dist);
+            Self::assign(dist, &solver.solution.x[..]);
 
             let objval = solver.solution.obj_val;
             if old_objval - objval < QP_TOLERANCE {
@@ -162,6 +171,25 @@ impl QPModel {
     }
 
 
+    /// Assigns `solution` to `dist`, kept in the interior of the simplex.
+    pub(self) fn assign(dist: &mut [f64], solution: &[f64]) {
+        dist.iter_mut()
+            .zip(solution)
+            .for_each(|(di, s)| { *di = s.max(DIST_LOWER_BOUND); });
+        utils::normalize(dist);
+    }
+
+
+    /// Returns `true` if the solver proved that the sub-problem is infeasible.
+    pub(self) fn is_infeasible(&self, status: SolverStatus) -> bool {
+        matches!(
+            status,
+            SolverStatus::PrimalInfeasible
+                | SolverStatus::AlmostPrimalInfeasible
+        )
+    }
+
+
     /// Returns `true` if the solver found a solution of the sub-problem.
     pub(self) fn is_solved(&self, status: SolverStatus) -> bool {
         matches!(status, SolverStatus::Solved | SolverStatus::AlmostSolved)
@@ -353,6 +381,15 @@ impl QPModel {
     ) -> impl Iterator<Item=f64> + '_
         where F: Classifier
     {
+        let solver = self.solve_lp();
+        let start = 1 + 2*self.n_examples;
+        let solution = solver.solution.z[start..].to_vec();
+        solution.into_iter()
+    }
+
+
+    /// Solves the edge minimization problem without the entropy.
+    pub(self) fn solve_lp(&self) -> DefaultSolver<f64> {
         let n_variables = self.n_examples + 1;
         let constraint_matrix = self.build_constraint_matrix_lp();
         let sense = self.build_sense_lp();
@@ -375,9 +412,7 @@ impl QPModel {
         );
 
         solver.solve();
-        let start = 1 + 2*self.n_examples;
-        let solution = solver.solution.z[start..].to_vec();
-        solution.into_iter()
+        solver
     }
 }
 
-- 
2.43.0


From eea6abccdb0c95533c144475592528adfe18c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 22/31] fix: the Gini criterion survives weights that vanish by
 rounding

---
 src/weak_learner/decision_tree/criterion.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/weak_learner/decision_tree/criterion.rs b/src/weak_learner/decision_tree/criterion.rs
index 3f510c1..be1f365 100644
--- a/src/weak_learner/decision_tree/criterion.rs
+++ b/src/weak_learner/decision_tree/criterion.rs
@@ -285,12 +285,14 @@ fn split_by_gini(pack: Vec<(Bin, LabelToWeight)>) -> (f64, Score) {
             let entry = left_weight.entry(y).or_insert(0f64);
             *entry += w;
             left_weight_sum += w;
-            let entry = right_weight.get_mut(&y).unwrap();
-            *entry -= w;
             right_weight_sum -= w;
 
 
-            if *entry <= 0f64 { right_weight.remove(&y); }
+            // The label may be removed already due to a rounding error.
+            if let Some(entry) = right_weight.get_mut(&y) {
+                *entry -= w;
+                if *entry <= 0f64 { right_weight.remove(&y); }
+            }
         }
         let lp = left_weight_sum / weight_sum;
         let rp = (1f64 - lp).max(0f64);
-- 
2.43.0


From 87730ec447601de0611055b544126bef0d653550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 23/31] fix: ERLPBoost keeps the last solution when refining it
 fails

---
 src/booster/erlpboost/qp_model.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/booster/erlpboost/qp_model.rs b/src/booster/erlpboost/qp_model.rs
index c2c2985..18b2b74 100644
--- a/src/booster/erlpboost/qp_model.rs
+++ b/src/booster/erlpboost/qp_model.rs
@@ -156,19 +156,21 @@ impl QPModel {
             );
 
             solver.solve();
+            let status = solver.solution.status;
+            let solved = status == SolverStatus::Solved
+                || status == SolverStatus::AlmostSolved;
+            let has_solution = self.weights.len() == self.n_hypotheses;
             assert!(
-                solver.solution.status == SolverStatus::Solved
-                || solver.solution.status == SolverStatus::AlmostSolved
-                || solver.solution.status == SolverStatus::InsufficientProgress,
-                "unexpected solver status. got {}",
-                solver.solution.status,
+                solved
+                || has_solution
+                || status == SolverStatus::InsufficientProgress,
+                "unexpected solver status. got {status}",
             );
 
             let objval = solver.solution.obj_val;
-            let stalled = old_objval - objval < QP_TOLERANCE
-                || solver.solution.status == SolverStatus::InsufficientProgress;
+            let stalled = !solved || old_objval - objval < QP_TOLERANCE;
             // the first approximate solution is better than none.
-            if stalled && self.weights.len() == self.n_hypotheses {
+            if stalled && has_solution {
                 break;
             }
             old_objval = objval;
-- 
2.43.0


From 64fa4effbf2ae17034553b3c7c9f9baba3840f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 24/31] fix: the neural network draws its minibatches among the
 examples of positive weight

---
 .../neural_network/nn_weak_learner.rs            | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/weak_learner/neural_network/nn_weak_learner.rs b/src/weak_learner/neural_network/nn_weak_learner.rs
index f718a2c..4aac41d 100644
--- a/src/weak_learner/neural_network/nn_weak_learner.rs
+++ b/src/weak_learner/neural_network/nn_weak_learner.rs
@@ -195,17 +195,23 @@ impl WeakLearner for NeuralNetwork {
         let mut f = NNHypothesis::new(
             self.task, &self.dimensions[..], &self.activations[..]
         );
-        let weights = |i: usize| dist[i].max(0.0);
         // Only the examples of positive weight can be drawn.
-        let n_positive = dist.iter().filter(|d| **d > 0.0).count();
-        let minibatch_size = self.minibatch_size.min(n_positive);
+        // The weights are scaled since those far below one
+        // are indistinguishable from zero for the sampling.
+        let positive = (0..n_samples).filter(|&i| dist[i] > 0.0)
+            .collect::<Vec<_>>();
+        let max = dist.iter().copied().fold(0.0, f64::max);
+        let weights = |k: usize| dist[positive[k]] / max;
+        let minibatch_size = self.minibatch_size.min(positive.len());
         for _ in 1..=self.n_epoch {
             // Randomly chosen indices over training sample
             let mut rng = rand::thread_rng();
             let minibatch = index::sample_weighted(
-                &mut rng, n_samples, weights, minibatch_size,
+                &mut rng, positive.len(), weights, minibatch_size,
             ).unwrap();
-            let minibatch = minibatch.into_iter().collect::<Vec<_>>();
+            let minibatch = minibatch.into_iter()
+                .map(|k| positive[k])
+                .collect::<Vec<_>>();
             for _ in 1..=self.n_iter_per_epoch {
                 f.train(rate, self.loss_func, sample, &minibatch);
             }
-- 
2.43.0


From c21843ac5e612a8a6898266cf5435bdaf54330f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 25/31] fix: a single-output network is trained towards the
 confidence it reports

---
 src/weak_learner/neural_network/nn_hypothesis.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/weak_learner/neural_network/nn_hypothesis.rs b/src/weak_learner/neural_network/nn_hypothesis.rs
index 947802a..27deafb 100644
--- a/src/weak_learner/neural_network/nn_hypothesis.rs
+++ b/src/weak_learner/neural_network/nn_hypothesis.rs
@@ -177,7 +177,11 @@ impl NNHypothesis {
                 });
 
             // Vectorize the target value to compute `delta`.
-            let y = task::vectorize(y, dim);
+            let y = match self.task {
+                // A single output is the confidence to be `+1`.
+                Task::Binary if dim == 1 => vec![0.5 * (y + 1.0)],
+                _ => task::vectorize(y, dim),
+            };
             // Compute the `delta` for the last layer.
             let delta = loss_func.diff(final_output, y);
             batch_delta.push(delta);
-- 
2.43.0


From 43f8edae6b94a07ddb9e2a3e703e8852de2dca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 26/31] fix: CERLPBoost::max_loop counts the examples also
 before a run

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 7b37ea6..0788a5b 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -224,7 +224,7 @@ impl<'a, F> CERLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     pub fn max_loop(&mut self) -> usize {
 
-        let m = self.dist.len() as f64;
+        let m = self.sample.shape().0 as f64;
 
         let ln_m = (m / self.nu).ln();
         let max_iter = 8.0 * ln_m / self.half_tolerance.powi(2);
-- 
2.43.0


From c764abc8c11cd2c849a4e1ddcb16681feff175bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 27/31] fix: AdaBoost plays at least one round

---
 src/booster/adaboost/adaboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/adaboost/adaboost_algorithm.rs b/src/booster/adaboost/adaboost_algorithm.rs
index ef3b997..80cc17d 100644
--- a/src/booster/adaboost/adaboost_algorithm.rs
+++ b/src/booster/adaboost/adaboost_algorithm.rs
@@ -156,7 +156,7 @@ impl<'a, F> AdaBoost<'a, F> {
     pub fn max_loop(&self) -> usize {
         let n_sample = self.sample.shape().0 as f64;
 
-        (n_sample.ln() / self.tolerance.powi(2)) as usize
+        (n_sample.ln() / self.tolerance.powi(2)).max(1.0) as usize
     }
 
 
-- 
2.43.0


From 53409b95044ef3d3df529a1a2665d5a2b38d5ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:42 +0000
Subject: [PATCH 28/31] fix: naive Bayes gives a label without weight the
 probability zero

---
 src/weak_learner/naive_bayes/nbayes_classifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/nbayes_classifier.rs b/src/weak_learner/naive_bayes/nbayes_classifier.rs
index de51e78..30a7b65 100644
--- a/src/weak_learner/naive_bayes/nbayes_classifier.rs
+++ b/src/weak_learner/naive_bayes/nbayes_classifier.rs
@@ -42,7 +42,7 @@ impl<P> NBayesClassifier<P>
         self.conditionals.iter()
             .map(|(y, prior, density)| {
                 let log_cond = density.log_probability(sample, row);
-                let prob = prior * (log_cond - log_all).exp();
+                let prob = (prior.ln() + log_cond - log_all).exp();
                 (*y, prob)
             })
             .collect::<Vec<_>>()
-- 
2.43.0


From 27a5fba2b8f48aeb3e3b5ab05a8f8df0ac39c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:06 +0000
Subject: [PATCH 29/31] fix: labels are compared as they are when a binary
 sample is checked

Casting them to i32 merged large labels (3e9 and 4.5e9 counted as one kind)
and let infinite ones pass as integers.
---
 src/sample/sample_struct.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 8323970..255a603 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -1,7 +1,7 @@
 use std::path::Path;
 use std::fs::File;
 use std::io::{self, BufRead, BufReader};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::ops::Index;
 use std::mem;
 use std::cmp::Ordering;
@@ -389,7 +389,7 @@ impl Sample {
 
         // Check whether the target values can be converted into integers.
         let non_integers = self.target.iter()
-            .filter(|&yi| !yi.trunc().eq(yi))
+            .filter(|&yi| !yi.is_finite() || !yi.trunc().eq(yi))
             .collect::<Vec<_>>();
         if !non_integers.is_empty() {
             let line = non_integers.iter().take(5)
@@ -404,10 +404,7 @@ impl Sample {
 
 
         // Check whether the target values takes exactly 2 kinds.
-        let set = self.target.iter()
-            .copied()
-            .map(|yi| yi as i32)
-            .collect::<HashSet<_>>();
+        let set = self.unique_target();
         let n_label = set.len();
         match set.len().cmp(&2) {
             Ordering::Greater => {
@@ -427,7 +424,7 @@ impl Sample {
 
 
         // Check whether the target values takes +1 or -1.
-        let is_pm = set.iter().all(|y| y.eq(&1) || y.eq(&-1));
+        let is_pm = set.iter().all(|y| y.eq(&1.0) || y.eq(&-1.0));
         if !is_pm {
             let line = set.iter()
                 .map(|y| y.to_string())
-- 
2.43.0


From 7f0948c8a5c9be865fcbf5b1a12b9a57fc71bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:59 +0000
Subject: [PATCH 30/31] fix: AdaBoost and AdaBoostV do not take a hypothesis
 for perfect because its edge was rounded to one

---
 src/booster/adaboost/adaboost_algorithm.rs   | 10 ++++++++++
 src/booster/adaboostv/adaboostv_algorithm.rs | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/booster/adaboost/adaboost_algorithm.rs b/src/booster/adaboost/adaboost_algorithm.rs
index 80cc17d..2e39492 100644
--- a/src/booster/adaboost/adaboost_algorithm.rs
+++ b/src/booster/adaboost/adaboost_algorithm.rs
@@ -326,6 +326,16 @@ impl<F> Booster<F> for AdaBoost<'_, F>
         let edge = utils::inner_product(&margins, &self.dist);
 
 
+        // The edge can be rounded to `1` even if `h` misclassifies examples,
+        // since their weights may be vanishingly small.
+        let is_perfect = margins.iter().all(|yh| yh * edge.signum() >= 1.0);
+        let edge = if is_perfect {
+            edge
+        } else {
+            edge.clamp(-1.0 + f64::EPSILON, 1.0 - f64::EPSILON)
+        };
+
+
         // If `h` predicted all the examples in `sample` correctly,
         // use it as the combined classifier.
         if edge.abs() >= 1.0 {
diff --git a/src/booster/adaboostv/adaboostv_algorithm.rs b/src/booster/adaboostv/adaboostv_algorithm.rs
index daf984f..7e4a974 100644
--- a/src/booster/adaboostv/adaboostv_algorithm.rs
+++ b/src/booster/adaboostv/adaboostv_algorithm.rs
@@ -361,6 +361,16 @@ impl<F> Booster<F> for AdaBoostV<'_, F>
         let edge = utils::inner_product(&margins, &self.dist);
 
 
+        // The edge can be rounded to `1` even if `h` misclassifies examples,
+        // since their weights may be vanishingly small.
+        let is_perfect = margins.iter().all(|yh| yh * edge.signum() >= 1.0);
+        let edge = if is_perfect {
+            edge
+        } else {
+            edge.clamp(-1.0 + f64::EPSILON, 1.0 - f64::EPSILON)
+        };
+
+
         // If `h` predicted all the examples in `self.sample` correctly,
         // use it as the combined classifier.
         if edge.abs() >= 1.0 {
-- 
2.43.0


From 67bb73eae4d7126d9043b0504369d72e069e19c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:59 +0000
Subject: [PATCH 31/31] fix: bins of narrow features are computed from the
 width, whose quotient is accurate

---
 src/weak_learner/decision_tree/bin.rs   | 9 +++++++--
 src/weak_learner/regression_tree/bin.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index 9c38a56..3a30b1c 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -155,9 +155,14 @@ impl Bins {
 
     /// Cut the range `[min, max]` into `n_bin` bins of the same width.
     fn cut_range(min: f64, max: f64, n_bin: usize) -> Self {
-        // Divide first, the difference may overflow.
         let n_bin_f64 = n_bin as f64;
-        let intercept = max / n_bin_f64 - min / n_bin_f64;
+        let width = max - min;
+        let intercept = if width.is_finite() {
+            width / n_bin_f64
+        } else {
+            // The difference overflows.
+            max / n_bin_f64 - min / n_bin_f64
+        };
 
         let mut edges = (1..n_bin)
             .map(|k| (min + intercept * k as f64).clamp(min, max))
diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 99379e8..5d0c89a 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -155,9 +155,14 @@ impl Bins {
 
     /// Cut the range `[min, max]` into `n_bin` bins of the same width.
     fn cut_range(min: f64, max: f64, n_bin: usize) -> Self {
-        // Divide first, the difference may overflow.
         let n_bin_f64 = n_bin as f64;
-        let intercept = max / n_bin_f64 - min / n_bin_f64;
+        let width = max - min;
+        let intercept = if width.is_finite() {
+            width / n_bin_f64
+        } else {
+            // The difference overflows.
+            max / n_bin_f64 - min / n_bin_f64
+        };
 
         let mut edges = (1..n_bin)
             .map(|k| (min + intercept * k as f64).clamp(min, max))
-- 
2.43.0

