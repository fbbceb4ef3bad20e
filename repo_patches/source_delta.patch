From eb0c42fd21f22807b1f8bf21ab5c1b531186ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 01/40] fix: include the binomial coefficient in Binomial's
 log-density

---
 .../src/distributions/discrete/binomial.rs     | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index 12c1f94..b508adf 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -19,7 +19,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::binomial_coefficient::BinomialCoefficientMeasure;
+use measures_combinators::measures::derived::binomial_coefficient::{
+    BinomialCoefficientMeasure, log_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -151,8 +153,18 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Binomial<T> {
             let k = T::from(*x).unwrap();
             let n = T::from(self.n).unwrap();
 
-            // Use log binomial coefficient (this is handled by the base measure)
-            k * self.prob.ln() + (n - k) * (T::one() - self.prob).ln()
+            // A zero count contributes nothing, even when its log-probability is -infinity
+            let term = |count: T, prob: T| {
+                if count.is_zero() {
+                    T::zero()
+                } else {
+                    count * prob.ln()
+                }
+            };
+
+            log_binomial_coefficient::<T>(self.n, *x)
+                + term(k, self.prob)
+                + term(n - k, T::one() - self.prob)
         } else {
             T::neg_infinity() // Outside support
         }
-- 
2.43.0


From e253c06e3eb3d4975c37fe272a286d9b868eeabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 02/40] fix: NegativeBinomial's log-density counts successes
 and includes the coefficient

---
 .../distributions/discrete/negative_binomial.rs    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/negative_binomial.rs b/measures-distributions/src/distributions/discrete/negative_binomial.rs
index 4d7f4e8..ee5c3fb 100644
--- a/measures-distributions/src/distributions/discrete/negative_binomial.rs
+++ b/measures-distributions/src/distributions/discrete/negative_binomial.rs
@@ -20,7 +20,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::negative_binomial_coefficient::NegativeBinomialCoefficientMeasure;
+use measures_combinators::measures::derived::negative_binomial_coefficient::{
+    NegativeBinomialCoefficientMeasure, log_negative_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -159,12 +161,14 @@ where
 // Implementation of HasLogDensity for NegativeBinomial distribution
 impl<T: Float> measures_core::HasLogDensity<u64, T> for NegativeBinomial<T> {
     fn log_density_wrt_root(&self, x: &u64) -> T {
-        // Negative Binomial PMF: P(X = k) = C(k+r-1, k) * p^r * (1-p)^k
-        // log P(X = k) = log(C(k+r-1, k)) + r*log(p) + k*log(1-p)
+        // Negative Binomial PMF (k successes before r failures):
+        // P(X = k) = C(k+r-1, k) * p^k * (1-p)^r
+        // log P(X = k) = log(C(k+r-1, k)) + k*log(p) + r*log(1-p)
         let k = T::from(*x).unwrap();
         let r = T::from(self.r).unwrap();
 
-        // The log binomial coefficient is handled by the base measure
-        r * self.prob.ln() + k * (T::one() - self.prob).ln()
+        log_negative_binomial_coefficient::<T>(self.r, *x)
+            + k * self.prob.ln()
+            + r * (T::one() - self.prob).ln()
     }
 }
-- 
2.43.0


From 1893388c219cd5d648577e877b7836ae6009ae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 03/40] fix: sign of Exponential's log partition

---
 .../src/distributions/continuous/exponential.rs                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/measures-distributions/src/distributions/continuous/exponential.rs b/measures-distributions/src/distributions/continuous/exponential.rs
index ac5e04e..3209725 100644
--- a/measures-distributions/src/distributions/continuous/exponential.rs
+++ b/measures-distributions/src/distributions/continuous/exponential.rs
@@ -100,7 +100,7 @@ where
 
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<T, T>>::NaturalParam, T) {
         let natural_param = [-self.rate];
-        let log_partition = self.rate.ln();
+        let log_partition = -self.rate.ln();
         (natural_param, log_partition)
     }
 }
-- 
2.43.0


From e0dd8b6147b04d7555c54ee77eab2e46b3de0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 04/40] fix: Geometric's log partition matches the support
 starting at one

---
 .../src/distributions/discrete/geometric.rs                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index fd5928b..f33840e 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -30,7 +30,7 @@ use num_traits::Float;
 /// This is a member of the exponential family with:
 /// - Natural parameter: η = log(1-p)
 /// - Sufficient statistic: T(x) = x
-/// - Log partition: A(η) = -log(-η/(1+η)) = -log(1-p) - log(p)
+/// - Log partition: A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
 /// - Base measure: Counting measure on {1, 2, 3, ...}
 #[derive(Clone, Debug)]
 pub struct Geometric<T> {
@@ -117,8 +117,8 @@ where
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<u64, T>>::NaturalParam, T) {
         let natural_param = [self.failure_prob().ln()];
 
-        // Log partition: A(η) = -log(1 - exp(η)) = -log(p)
-        let log_partition = -self.prob.ln();
+        // Log partition: A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
+        let log_partition = natural_param[0] - self.prob.ln();
 
         (natural_param, log_partition)
     }
-- 
2.43.0


From a07d374d6993a59ea5104f9906dfb977e762cb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 05/40] fix: Geometric's log-density at one success is finite
 for p = 1

---
 .../src/distributions/discrete/geometric.rs                  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index f33840e..5d541a8 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -154,7 +154,10 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Geometric<T> {
     fn log_density_wrt_root(&self, x: &u64) -> T {
         // Geometric PMF: P(X = k) = (1-p)^(k-1) * p for k = 1, 2, 3, ...
         // log P(X = k) = (k-1)*log(1-p) + log(p)
-        if *x >= 1 {
+        if *x == 1 {
+            // No failures: also covers p = 1, where log(1-p) is -infinity
+            self.prob.ln()
+        } else if *x > 1 {
             let k = T::from(*x).unwrap();
             (k - T::one()) * (T::one() - self.prob).ln() + self.prob.ln()
         } else {
-- 
2.43.0


From c9c34f19effa82671da4db5537914841c995ff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 06/40] fix: converting large natural parameters to
 probabilities does not overflow

---
 .../src/distributions/discrete/bernoulli.rs      |  4 ++--
 .../src/distributions/discrete/categorical.rs    | 16 ++++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/bernoulli.rs b/measures-distributions/src/distributions/discrete/bernoulli.rs
index 644f60d..e877138 100644
--- a/measures-distributions/src/distributions/discrete/bernoulli.rs
+++ b/measures-distributions/src/distributions/discrete/bernoulli.rs
@@ -99,8 +99,8 @@ where
     fn from_natural(param: <Self as ExponentialFamily<u8, T>>::NaturalParam) -> Self {
         let [eta] = param;
         // η = log(p/(1-p)) => p = exp(η)/(1 + exp(η)) = sigmoid(η)
-        let exp_eta = eta.exp();
-        let prob = exp_eta / (T::one() + exp_eta);
+        // written so that a large η does not overflow
+        let prob = (T::one() + (-eta).exp()).recip();
         Self::new(prob)
     }
 
diff --git a/measures-distributions/src/distributions/discrete/categorical.rs b/measures-distributions/src/distributions/discrete/categorical.rs
index 1dddcad..07d48f7 100644
--- a/measures-distributions/src/distributions/discrete/categorical.rs
+++ b/measures-distributions/src/distributions/discrete/categorical.rs
@@ -134,19 +134,23 @@ where
         let k = param.len() + 1; // Number of categories
         let mut probs = Vec::with_capacity(k);
 
-        // Compute exp(η_i) for i = 0, ..., K-2
-        let exp_etas: Vec<T> = param.iter().map(|&eta| eta.exp()).collect();
+        // Shift by the largest η (the last category has η = 0) so that nothing overflows
+        let shift = param.iter().copied().fold(T::zero(), T::max);
 
-        // Compute normalization constant: 1 + Σᵢ exp(ηᵢ)
-        let normalizer = T::one() + exp_etas.iter().copied().sum::<T>();
+        // Compute exp(η_i - shift) for i = 0, ..., K-2
+        let exp_etas: Vec<T> = param.iter().map(|&eta| (eta - shift).exp()).collect();
+        let exp_last = (-shift).exp();
+
+        // Compute normalization constant: exp(-shift) + Σᵢ exp(ηᵢ - shift)
+        let normalizer = exp_last + exp_etas.iter().copied().sum::<T>();
 
         // Compute probabilities: pᵢ = exp(ηᵢ) / normalizer for i < K-1
         for &exp_eta in &exp_etas {
             probs.push(exp_eta / normalizer);
         }
 
-        // Last probability: pₖ₋₁ = 1 / normalizer
-        probs.push(T::one() / normalizer);
+        // Last probability: pₖ₋₁ = exp(-shift) / normalizer
+        probs.push(exp_last / normalizer);
 
         Self::new(probs)
     }
-- 
2.43.0


From 7915a9d3dfb42e07d2eefb7e1b801fb6311ff1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 07/40] fix: accept probability vectors that sum to one up to
 rounding

---
 .../src/measures/combinators/superposition.rs                 | 4 +++-
 .../src/distributions/discrete/categorical.rs                 | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index 36cdcd8..633ce33 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -44,8 +44,10 @@ impl<M, F: Float> MixtureMeasure<M, F> {
         );
 
         let weight_sum: F = weights.iter().copied().fold(F::zero(), |acc, w| acc + w);
+        // Rounding grows with the number of terms; f32 cannot meet a fixed 1e-10
+        let rounding = F::epsilon() * F::from(weights.len()).unwrap();
         assert!(
-            (weight_sum - F::one()).abs() < F::from(1e-10).unwrap(),
+            (weight_sum - F::one()).abs() < F::from(1e-10).unwrap().max(rounding),
             "Weights must sum to 1"
         );
 
diff --git a/measures-distributions/src/distributions/discrete/categorical.rs b/measures-distributions/src/distributions/discrete/categorical.rs
index 07d48f7..2b037e9 100644
--- a/measures-distributions/src/distributions/discrete/categorical.rs
+++ b/measures-distributions/src/distributions/discrete/categorical.rs
@@ -52,8 +52,10 @@ impl<T: Float + std::iter::Sum> Categorical<T> {
         );
 
         let sum: T = probs.iter().copied().sum();
+        // Rounding grows with the number of terms; f32 cannot meet a fixed 1e-10
+        let rounding = T::epsilon() * T::from(probs.len()).unwrap();
         assert!(
-            (sum - T::one()).abs() < T::from(1e-10).unwrap(),
+            (sum - T::one()).abs() < T::from(1e-10).unwrap().max(rounding),
             "Probabilities must sum to 1"
         );
 
-- 
2.43.0


From 102d4ea1d73ed30756b9038b47eff9d58878f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 08/40] fix: refuse negative mixture weights

---
 .../src/measures/combinators/superposition.rs                | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index 633ce33..2ee123a 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -44,6 +44,11 @@ impl<M, F: Float> MixtureMeasure<M, F> {
         );
 
         let weight_sum: F = weights.iter().copied().fold(F::zero(), |acc, w| acc + w);
+        assert!(
+            weights.iter().all(|&w| w >= F::zero()),
+            "Weights must be non-negative"
+        );
+
         // Rounding grows with the number of terms; f32 cannot meet a fixed 1e-10
         let rounding = F::epsilon() * F::from(weights.len()).unwrap();
         assert!(
-- 
2.43.0


From 0123fba306aee81826d179105615b4b70f792e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 09/40] fix: do not take two zero-sized measures for the same
 measure

---
 measures-core/src/core/density.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/measures-core/src/core/density.rs b/measures-core/src/core/density.rs
index b021466..cea8b02 100644
--- a/measures-core/src/core/density.rs
+++ b/measures-core/src/core/density.rs
@@ -223,14 +223,6 @@ where
 {
     #[inline]
     fn at(&self, x: &T) -> F {
-        // Check if we're computing density with respect to self
-        if std::ptr::eq(
-            (&raw const self.measure).cast::<()>(),
-            (&raw const self.base_measure).cast::<()>(),
-        ) {
-            return F::zero(); // log(dm/dm) = 0
-        }
-
         // Use type-level dispatch based on IsExponentialFamily markers
         <(M1::IsExponentialFamily, M2::IsExponentialFamily) as ExpFamDispatch<T, M1, M2, F>>::compute(
             &self.measure,
-- 
2.43.0


From bb6264ee21df397af1ae58317d85041f0ddd1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 10/40] fix: a pushforward measure has no mass at points
 without preimage

---
 .../src/measures/combinators/pushforward.rs              | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/measures-combinators/src/measures/combinators/pushforward.rs b/measures-combinators/src/measures/combinators/pushforward.rs
index 7ebf117..81470f1 100644
--- a/measures-combinators/src/measures/combinators/pushforward.rs
+++ b/measures-combinators/src/measures/combinators/pushforward.rs
@@ -63,8 +63,9 @@ where
 
     fn in_support(&self, y: f64) -> bool {
         // y is in support if f⁻¹(y) is in support of the base measure
+        // (an inverse that is not a finite number means that y has no preimage)
         let x = (self.inverse)(&y);
-        self.base_measure.in_support(x)
+        x.is_finite() && self.base_measure.in_support(x)
     }
 
     fn root_measure(&self) -> Self::RootMeasure {
@@ -83,7 +84,13 @@ where
         // Change of variables formula:
         // log(dν/dλ)(y) = log(dμ/dλ)(f⁻¹(y)) + log|det(Df⁻¹(y))|
         let x = (self.inverse)(y);
+        if !x.is_finite() {
+            return f64::NEG_INFINITY; // y has no preimage
+        }
         let base_log_density = self.base_measure.log_density_wrt_root(&x);
+        if base_log_density == f64::NEG_INFINITY {
+            return base_log_density; // even where the Jacobian is infinite
+        }
         let log_jacobian = (self.log_abs_det_jacobian)(y);
 
         base_log_density + log_jacobian
-- 
2.43.0


From 694eda46c279c9975c557a88102caef364cce489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 11/40] fix: logit transform does not overflow for large
 arguments

---
 .../src/measures/combinators/pushforward.rs          | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/pushforward.rs b/measures-combinators/src/measures/combinators/pushforward.rs
index 81470f1..f3e850e 100644
--- a/measures-combinators/src/measures/combinators/pushforward.rs
+++ b/measures-combinators/src/measures/combinators/pushforward.rs
@@ -171,15 +171,13 @@ pub mod transforms {
         impl Fn(&F) -> F + Clone,
     ) {
         let forward = |x: &F| (*x / (F::one() - *x)).ln();
-        let inverse = |y: &F| {
-            let exp_y = y.exp();
-            exp_y / (F::one() + exp_y)
-        };
+        // written so that neither end overflows
+        let inverse = |y: &F| (F::one() + (-*y).exp()).recip();
         let log_abs_det_jacobian = |y: &F| {
             // d/dy sigmoid(y) = sigmoid(y) * (1 - sigmoid(y))
-            // log|det| = log(sigmoid(y)) + log(1 - sigmoid(y)) = -y - 2*log(1 + exp(-y))
-            let exp_neg_y = (-*y).exp();
-            -(*y) - (F::one() + exp_neg_y).ln() - (F::one() + exp_neg_y).ln()
+            // log|det| = log(sigmoid(y)) + log(1 - sigmoid(y)) = -|y| - 2*log(1 + exp(-|y|))
+            let log_one_plus = (-y.abs()).exp().ln_1p();
+            -y.abs() - log_one_plus - log_one_plus
         };
 
         (forward, inverse, log_abs_det_jacobian)
-- 
2.43.0


From e2adda2c67a2663bccd0c6fc1c9e847744d27590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 12/40] fix: the joint log-density of IID observations is
 -infinity outside the support

---
 .../src/exponential_family/iid.rs                        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/measures-exponential-family/src/exponential_family/iid.rs b/measures-exponential-family/src/exponential_family/iid.rs
index 6a76ceb..aae84c0 100644
--- a/measures-exponential-family/src/exponential_family/iid.rs
+++ b/measures-exponential-family/src/exponential_family/iid.rs
@@ -125,15 +125,20 @@ where
     ///
     /// This uses the proper exponential family approach: η·∑ᵢT(xᵢ) - n·A(η)
     /// This is both mathematically correct and computationally efficient.
+    /// The form only describes the support, so observations outside are ruled out first.
     pub fn iid_log_density<X, F>(&self, xs: &[X]) -> F
     where
-        D: ExponentialFamily<X, F>,
+        D: ExponentialFamily<X, F> + Measure<X>,
         F: Float + std::iter::Sum,
         D::NaturalParam: DotProduct<D::SufficientStat, Output = F>,
         D::SufficientStat: SumSufficientStats<D::SufficientStat>,
         D::BaseMeasure: HasLogDensity<X, F>,
         X: Clone,
     {
+        if !xs.iter().all(|x| self.distribution.in_support(x.clone())) {
+            return F::neg_infinity();
+        }
+
         // Use the centralized computation function
         crate::exponential_family::traits::compute_iid_exp_fam_log_density(&self.distribution, xs)
     }
@@ -298,7 +303,7 @@ where
 /// Implementation of `HasLogDensity` for IID distributions
 impl<D, X, F> HasLogDensity<Vec<X>, F> for IID<D>
 where
-    D: ExponentialFamily<X, F>,
+    D: ExponentialFamily<X, F> + Measure<X>,
     X: Clone,
     F: Float + std::iter::Sum,
     D::NaturalParam: DotProduct<D::SufficientStat, Output = F>,
-- 
2.43.0


From 2e9068625d554909fcb1b4c163a34d4b57484cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 13/40] fix: optimized joint log-density counts the log
 partition once per observation

---
 .../src/exponential_family/iid.rs                        | 9 +++++----
 .../src/exponential_family/jit.rs                        | 3 ++-
 .../src/exponential_family/traits.rs                     | 8 ++++++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/measures-exponential-family/src/exponential_family/iid.rs b/measures-exponential-family/src/exponential_family/iid.rs
index aae84c0..693c92b 100644
--- a/measures-exponential-family/src/exponential_family/iid.rs
+++ b/measures-exponential-family/src/exponential_family/iid.rs
@@ -279,11 +279,12 @@ where
         let natural_params = base_natural_params;
 
         // Log partition is n * A(η) where n is the sample size
-        // For the trait implementation, we use n=1 as a placeholder
-        let n = float_constant::<F>(1.0); // This will be multiplied by actual sample size in usage
-        let log_partition = n * base_log_partition;
+        // (see `log_partition_multiplicity`)
+        (natural_params, base_log_partition)
+    }
 
-        (natural_params, log_partition)
+    fn log_partition_multiplicity(&self, xs: &Vec<X>) -> F {
+        float_constant::<F>(xs.len() as f64)
     }
 
     /// Override `exp_fam_log_density` to handle IID sample size scaling correctly
diff --git a/measures-exponential-family/src/exponential_family/jit.rs b/measures-exponential-family/src/exponential_family/jit.rs
index 72fb1ed..a19ec8a 100644
--- a/measures-exponential-family/src/exponential_family/jit.rs
+++ b/measures-exponential-family/src/exponential_family/jit.rs
@@ -115,7 +115,8 @@ where
         let sufficient_stat = distribution.sufficient_statistic(x);
         let eta_dot_t = natural_param.dot(&sufficient_stat);
         let log_h = base_measure.log_density_wrt_root(x);
-        eta_dot_t - log_partition + log_h
+        let copies = distribution.log_partition_multiplicity(x);
+        eta_dot_t - copies * log_partition + log_h
     }
 }
 
diff --git a/measures-exponential-family/src/exponential_family/traits.rs b/measures-exponential-family/src/exponential_family/traits.rs
index beaa02e..5e31ae7 100644
--- a/measures-exponential-family/src/exponential_family/traits.rs
+++ b/measures-exponential-family/src/exponential_family/traits.rs
@@ -71,6 +71,14 @@ pub trait ExponentialFamily<X: Clone, F: Float>: Clone {
     /// Get the base measure for this exponential family
     fn base_measure(&self) -> Self::BaseMeasure;
 
+    /// How many times the log partition function enters the log-density of `x`.
+    ///
+    /// This is one, except for the joint distribution of several observations.
+    #[inline]
+    fn log_partition_multiplicity(&self, _x: &X) -> F {
+        F::one()
+    }
+
     /// Exponential family log-density computation with automatic chain rule.
     ///
     /// Computes: η·T(x) - A(η) + `log(d(base_measure)/d(root_measure))(x)`
-- 
2.43.0


From fa45bb6d134e67ee01848960d1a8da44113dc593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 14/40] fix: DistributionEval::log_gamma keeps the remainder of
 Stirling's formula

---
 measures-distributions/src/distributions/final_tagless.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/measures-distributions/src/distributions/final_tagless.rs b/measures-distributions/src/distributions/final_tagless.rs
index a48772f..09a65a9 100644
--- a/measures-distributions/src/distributions/final_tagless.rs
+++ b/measures-distributions/src/distributions/final_tagless.rs
@@ -297,8 +297,12 @@ impl DistributionEval {
     #[must_use]
     pub fn log_gamma(x: f64) -> f64 {
         if x > 12.0 {
-            // Stirling's approximation for large x
-            (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln()
+            // Stirling's approximation for large x, with the first terms of its remainder
+            let inv = x.recip();
+            let inv2 = inv * inv;
+            let remainder = inv
+                * (1.0 / 12.0 - inv2 * (1.0 / 360.0 - inv2 * (1.0 / 1260.0 - inv2 / 1680.0)));
+            (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln() + remainder
         } else {
             // Use built-in gamma function for smaller values
             special::Gamma::ln_gamma(x).0
-- 
2.43.0


From 9fcd96e6443f4c922f229b9778462c261239a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 15/40] fix: the Beta pattern divides by the beta function

---
 measures-distributions/src/distributions/final_tagless.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/measures-distributions/src/distributions/final_tagless.rs b/measures-distributions/src/distributions/final_tagless.rs
index 09a65a9..6c59700 100644
--- a/measures-distributions/src/distributions/final_tagless.rs
+++ b/measures-distributions/src/distributions/final_tagless.rs
@@ -468,7 +468,7 @@ pub mod patterns {
 
     /// Beta distribution log-density in final tagless style
     ///
-    /// Computes: log(B(α,β)) + (α-1)*log(x) + (β-1)*log(1-x)
+    /// Computes: (α-1)*log(x) - log(B(α,β)) + (β-1)*log(1-x)
     pub fn beta_log_density<E: DistributionExpr>(
         x: E::Repr<f64>,
         alpha: E::Repr<f64>,
@@ -483,7 +483,7 @@ pub mod patterns {
         let one_minus_x = E::sub(one, x.clone());
 
         E::add(
-            E::add(E::log_beta(alpha, beta), E::mul(alpha_minus_one, E::ln(x))),
+            E::sub(E::mul(alpha_minus_one, E::ln(x)), E::log_beta(alpha, beta)),
             E::mul(beta_minus_one, E::ln(one_minus_x)),
         )
     }
-- 
2.43.0


From 005af478d512f2bddef205a72cc16dd752745766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 16/40] fix: the Poisson pattern subtracts log(x!), not log(x)

---
 .../src/exponential_family/final_tagless.rs   | 37 +++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/measures-exponential-family/src/exponential_family/final_tagless.rs b/measures-exponential-family/src/exponential_family/final_tagless.rs
index 7c0b0f7..afe8260 100644
--- a/measures-exponential-family/src/exponential_family/final_tagless.rs
+++ b/measures-exponential-family/src/exponential_family/final_tagless.rs
@@ -177,6 +177,39 @@ pub trait ExponentialFamilyExpr: MathExpr {
         Self::ln(Self::add(Self::constant(T::one()), Self::exp(x)))
     }
 
+    /// Log-gamma function log(Γ(x)) for x > 0
+    ///
+    /// Uses log Γ(x) = log Γ(x+8) - log(x(x+1)···(x+7)) with Stirling's series at x+8, which
+    /// needs no branching and therefore works under every interpreter.
+    fn log_gamma<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T>
+    where
+        Self::Repr<T>: Clone,
+    {
+        let constant = |value: f64| Self::constant(T::from(value).unwrap());
+
+        let mut product = x.clone();
+        for i in 1..8 {
+            product = Self::mul(product, Self::add(x.clone(), constant(f64::from(i))));
+        }
+
+        let z = Self::add(x, constant(8.0));
+        let inv = Self::div(Self::constant(T::one()), z.clone());
+        let inv2 = Self::mul(inv.clone(), inv.clone());
+        let mut series = constant(1.0 / 1188.0);
+        for coefficient in [-1.0 / 1680.0, 1.0 / 1260.0, -1.0 / 360.0, 1.0 / 12.0] {
+            series = Self::add(Self::mul(series, inv2.clone()), constant(coefficient));
+        }
+
+        let stirling = Self::sub(
+            Self::mul(Self::sub(z.clone(), constant(0.5)), Self::ln(z.clone())),
+            Self::sub(z, constant(0.5 * (2.0 * std::f64::consts::PI).ln())),
+        );
+        Self::sub(
+            Self::add(stirling, Self::mul(series, inv)),
+            Self::ln(product),
+        )
+    }
+
     /// Log-sum-exp function for numerical stability
     ///
     /// Computes log(∑ᵢ exp(xᵢ)) in a numerically stable way
@@ -382,11 +415,9 @@ pub mod patterns {
     where
         E::Repr<f64>: Clone,
     {
-        // Note: log(x!) would need special handling for integer x
-        // This is a simplified version for demonstration
         E::sub(
             E::sub(E::mul(x.clone(), E::ln(lambda.clone())), lambda),
-            E::ln(x), // Simplified - should be log factorial
+            E::log_gamma(E::add(x, E::constant(1.0))), // log(x!)
         )
     }
 
-- 
2.43.0


From 4005ac014dd607375c9f5c0489f61d8e40a3aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 17/40] fix: the gamma, beta and Student t patterns evaluate
 instead of panicking

---
 .../src/distributions/final_tagless.rs        | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/measures-distributions/src/distributions/final_tagless.rs b/measures-distributions/src/distributions/final_tagless.rs
index 6c59700..e80593e 100644
--- a/measures-distributions/src/distributions/final_tagless.rs
+++ b/measures-distributions/src/distributions/final_tagless.rs
@@ -37,8 +37,7 @@
 use num_traits::Float;
 use symbolic_math::final_tagless::{MathExpr, NumericType};
 
-#[cfg(feature = "jit")]
-use measures_exponential_family::final_tagless::ExponentialFamilyExpr;
+use measures_exponential_family::ExponentialFamilyExpr;
 
 /// Extension trait for probability distribution operations in final tagless style
 ///
@@ -300,8 +299,8 @@ impl DistributionEval {
             // Stirling's approximation for large x, with the first terms of its remainder
             let inv = x.recip();
             let inv2 = inv * inv;
-            let remainder = inv
-                * (1.0 / 12.0 - inv2 * (1.0 / 360.0 - inv2 * (1.0 / 1260.0 - inv2 / 1680.0)));
+            let remainder =
+                inv * (1.0 / 12.0 - inv2 * (1.0 / 360.0 - inv2 * (1.0 / 1260.0 - inv2 / 1680.0)));
             (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln() + remainder
         } else {
             // Use built-in gamma function for smaller values
@@ -460,7 +459,7 @@ pub mod patterns {
         E::add(
             E::add(
                 E::mul(shape.clone(), E::ln(rate.clone())),
-                E::neg(E::ln(E::gamma_function(shape))),
+                E::neg(E::log_gamma_function(shape)),
             ),
             E::sub(E::mul(shape_minus_one, E::ln(x.clone())), E::mul(rate, x)),
         )
@@ -538,8 +537,8 @@ pub mod patterns {
         E::sub(
             E::sub(
                 E::sub(
-                    E::ln(E::gamma_function(nu_plus_one_half)),
-                    E::ln(E::gamma_function(nu_half)),
+                    E::log_gamma_function(nu_plus_one_half),
+                    E::log_gamma_function(nu_half),
                 ),
                 E::mul(half, E::ln(nu_pi)),
             ),
@@ -551,12 +550,17 @@ pub mod patterns {
 // Extension methods for MathExpr to add distribution-specific functions
 pub trait DistributionMathExpr: MathExpr {
     /// Gamma function Γ(x)
-    fn gamma_function<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T>;
+    fn gamma_function<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T>
+    where
+        Self::Repr<T>: Clone,
+    {
+        Self::exp(Self::log_gamma_function(x))
+    }
 
     /// Log-gamma function log(Γ(x))
-    fn log_gamma_function<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T> {
-        Self::ln(Self::gamma_function(x))
-    }
+    fn log_gamma_function<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T>
+    where
+        Self::Repr<T>: Clone;
 
     /// Beta function B(α,β) = Γ(α)Γ(β)/Γ(α+β)
     fn beta_function<T: NumericType + Float>(
@@ -599,8 +603,11 @@ pub trait DistributionMathExpr: MathExpr {
 
 // Blanket implementation for DistributionMathExpr
 impl<T: MathExpr> DistributionMathExpr for T {
-    fn gamma_function<U: NumericType + Float>(_x: Self::Repr<U>) -> Self::Repr<U> {
-        panic!("gamma_function not implemented for this interpreter")
+    fn log_gamma_function<U: NumericType + Float>(x: Self::Repr<U>) -> Self::Repr<U>
+    where
+        Self::Repr<U>: Clone,
+    {
+        <T as ExponentialFamilyExpr>::log_gamma(x)
     }
 
     fn erf<U: NumericType + Float>(_x: Self::Repr<U>) -> Self::Repr<U> {
-- 
2.43.0


From 7a09b46507acb3687b66b050f1c0a1a6e4a067cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 18/40] fix: simplify only uses power laws that hold for
 negative arguments

---
 symbolic-math/src/expr.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 4ad3a3a..8ed03e7 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -494,9 +494,9 @@ impl Expr {
                 (_, Expr::Const(0.0)) => Expr::Const(1.0),
                 (expr, Expr::Const(1.0)) => expr,
                 (Expr::Const(1.0), _) => Expr::Const(1.0),
-                // (x^a)^b = x^(a*b)
-                (Expr::Pow(inner_base, inner_exp), outer_exp) => {
-                    let combined_exp = Expr::Mul(inner_exp, Box::new(outer_exp));
+                // (x^a)^b = x^(a*b), which for negative x holds only for integer b
+                (Expr::Pow(inner_base, inner_exp), Expr::Const(b)) if b.fract() == 0.0 => {
+                    let combined_exp = Expr::Mul(inner_exp, Box::new(Expr::Const(b)));
                     Expr::Pow(inner_base, Box::new(combined_exp.simplify()))
                 }
                 (base, exponent) => Expr::Pow(Box::new(base), Box::new(exponent)),
@@ -505,8 +505,17 @@ impl Expr {
                 Expr::Const(a) if a > 0.0 => Expr::Const(a.ln()),
                 Expr::Const(1.0) => Expr::Const(0.0),
                 Expr::Exp(inner) => *inner,
-                // ln(x^a) = a * ln(x)
-                Expr::Pow(base, exp) => Expr::Mul(exp, Box::new(Expr::Ln(base))),
+                // ln(x^a) = a * ln(x), unless x^a can be positive for negative x
+                Expr::Pow(base, exp) => match (base.as_ref(), exp.as_ref()) {
+                    (Expr::Exp(_), _) => Expr::Mul(exp, Box::new(Expr::Ln(base).simplify())),
+                    (Expr::Const(c), _) if *c > 0.0 => {
+                        Expr::Mul(exp, Box::new(Expr::Const(c.ln())))
+                    }
+                    (_, Expr::Const(a)) if a % 2.0 != 0.0 => {
+                        Expr::Mul(exp, Box::new(Expr::Ln(base)))
+                    }
+                    _ => Expr::Ln(Box::new(Expr::Pow(base, exp))),
+                },
                 expr => Expr::Ln(Box::new(expr)),
             },
             Expr::Exp(expr) => match expr.simplify() {
@@ -524,9 +533,9 @@ impl Expr {
                 Expr::Const(a) if a >= 0.0 => Expr::Const(a.sqrt()),
                 Expr::Const(0.0) => Expr::Const(0.0),
                 Expr::Const(1.0) => Expr::Const(1.0),
-                // sqrt(x^2) = |x| (simplified to x for positive domains)
-                Expr::Pow(base, exp) => match exp.as_ref() {
-                    Expr::Const(2.0) => *base,
+                // sqrt(x^2) = |x|, which is x where x cannot be negative
+                Expr::Pow(base, exp) => match (base.as_ref(), exp.as_ref()) {
+                    (Expr::Exp(_) | Expr::Sqrt(_), Expr::Const(2.0)) => *base,
                     _ => Expr::Sqrt(Box::new(Expr::Pow(base, exp))),
                 },
                 expr => Expr::Sqrt(Box::new(expr)),
-- 
2.43.0


From 1469b93df3c24689168bcd890907dfb9c6a764ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 19/40] fix: optimized batch evaluation reports undefined
 variables

---
 symbolic-math/src/expr.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 8ed03e7..e492ed5 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -306,14 +306,7 @@ impl Expr {
             }
         } else {
             // Standard path with HashMap reuse
-            let mut var_map = HashMap::with_capacity(vars.len());
-
-            // Pre-populate with any constants or other variables (if needed)
-            for var in &vars {
-                if var != var_name {
-                    var_map.insert(var.clone(), 0.0); // Will be overwritten if needed
-                }
-            }
+            let mut var_map = HashMap::with_capacity(1);
 
             for &value in values {
                 var_map.insert(var_name.to_string(), value);
-- 
2.43.0


From c1a90cdde5979f8f7bfdb4355286e63d616a5c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 20/40] fix: cache keys identify the expression and its
 bindings

---
 symbolic-math/src/expr.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index e492ed5..63546e8 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -10,7 +10,7 @@
 //! - Constant folding and algebraic simplification
 //! - Type-safe expression construction
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 use std::ops::{Add, Div, Mul, Neg, Sub};
 use std::sync::{Arc, Mutex};
@@ -555,7 +555,8 @@ impl Expr {
     /// Simplify the expression using algebraic rules with caching
     #[must_use]
     pub fn simplify_cached(self) -> Self {
-        let expr_str = format!("{self}");
+        // The debug form tells expressions apart that print alike
+        let expr_str = format!("{self:?}");
 
         // Check cache first
         if let Ok(cache) = SIMPLIFICATION_CACHE.lock()
@@ -584,8 +585,9 @@ impl Expr {
 
     /// Evaluate the expression with caching for repeated evaluations
     pub fn evaluate_cached(&self, vars: &HashMap<String, f64>) -> Result<f64, EvalError> {
-        let expr_str = format!("{self}");
-        let vars_str = format!("{vars:?}");
+        // The debug form tells expressions apart that print alike; the order of a map is arbitrary
+        let expr_str = format!("{self:?}");
+        let vars_str = format!("{:?}", vars.iter().collect::<BTreeMap<_, _>>());
         let cache_key = (expr_str.clone(), vars_str);
 
         // Check cache first
-- 
2.43.0


From 35c29debf87d095d5c36cc9ddd0b4daba4620f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 21/40] fix: printed powers, products and differences keep
 their operands together

---
 symbolic-math/src/expr.rs | 57 ++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 63546e8..9841988 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -729,7 +729,11 @@ impl fmt::Display for Expr {
             Expr::Sub(left, right) => write!(f, "({left} - {right})"),
             Expr::Mul(left, right) => write!(f, "({left} * {right})"),
             Expr::Div(left, right) => write!(f, "({left} / {right})"),
-            Expr::Pow(base, exponent) => write!(f, "({base}^{exponent})"),
+            // (-2)^x is not -2^x
+            Expr::Pow(base, exponent) => match base.as_ref() {
+                Expr::Const(c) if c.is_sign_negative() => write!(f, "(({base})^{exponent})"),
+                _ => write!(f, "({base}^{exponent})"),
+            },
             Expr::Ln(expr) => write!(f, "ln({expr})"),
             Expr::Exp(expr) => write!(f, "exp({expr})"),
             Expr::Sqrt(expr) => write!(f, "sqrt({expr})"),
@@ -753,20 +757,22 @@ impl Expr {
                 }
             }
             Expr::Var(name) => name.clone(),
-            Expr::Add(left, right) => format!("{} + {}", left.to_latex(), right.to_latex()),
-            Expr::Sub(left, right) => format!("{} - {}", left.to_latex(), right.to_latex()),
+            Expr::Add(left, right) => format!("{} + {}", left.latex_in(1), right.latex_in(2)),
+            Expr::Sub(left, right) => format!("{} - {}", left.latex_in(1), right.latex_in(2)),
             Expr::Mul(left, right) => match (left.as_ref(), right.as_ref()) {
                 (Expr::Const(c), _) if *c == 1.0 => right.to_latex(),
-                (Expr::Const(c), _) if *c == -1.0 => format!("-{}", right.to_latex()),
+                (Expr::Const(c), _) if *c == -1.0 => format!("-{}", right.latex_in(2)),
                 (Expr::Const(_), Expr::Var(_)) => {
                     format!("{}{}", left.to_latex(), right.to_latex())
                 }
-                _ => format!("{} \\cdot {}", left.to_latex(), right.to_latex()),
+                _ => format!("{} \\cdot {}", left.latex_in(2), right.latex_in(2)),
             },
             Expr::Div(left, right) => {
                 format!("\\frac{{{}}}{{{}}}", left.to_latex(), right.to_latex())
             }
-            Expr::Pow(base, exponent) => format!("{}^{{{}}}", base.to_latex(), exponent.to_latex()),
+            Expr::Pow(base, exponent) => {
+                format!("{}^{{{}}}", base.latex_in(5), exponent.to_latex())
+            }
             Expr::Ln(expr) => format!("\\ln({})", expr.to_latex()),
             Expr::Exp(expr) => format!("e^{{{}}}", expr.to_latex()),
             Expr::Sqrt(expr) => format!("\\sqrt{{{}}}", expr.to_latex()),
@@ -776,6 +782,33 @@ impl Expr {
         }
     }
 
+    /// The LaTeX form as an operand that must bind at least as tightly as `level`
+    fn latex_in(&self, level: u8) -> String {
+        if self.latex_level() < level {
+            format!("({})", self.to_latex())
+        } else {
+            self.to_latex()
+        }
+    }
+
+    /// How tightly the outermost operator of the LaTeX form binds: 1 for sums and signs,
+    /// 2 for products, 3 for powers, 4 for functions and 5 for plain names and numbers
+    fn latex_level(&self) -> u8 {
+        match self {
+            Expr::Const(c) if *c < 0.0 => 1,
+            Expr::Const(_) | Expr::Var(_) => 5,
+            Expr::Add(..) | Expr::Sub(..) | Expr::Neg(_) => 1,
+            Expr::Mul(left, right) => match (left.as_ref(), right.as_ref()) {
+                (Expr::Const(c), _) if *c == 1.0 => right.latex_level(),
+                (Expr::Const(c), _) if *c == -1.0 => 1,
+                (Expr::Const(c), Expr::Var(_)) if *c < 0.0 => 1,
+                _ => 2,
+            },
+            Expr::Pow(..) | Expr::Exp(_) => 3,
+            Expr::Div(..) | Expr::Ln(_) | Expr::Sqrt(_) | Expr::Sin(_) | Expr::Cos(_) => 4,
+        }
+    }
+
     /// Format as Python code for numerical evaluation
     /// TODO: `to_julia`
     #[must_use]
@@ -787,15 +820,19 @@ impl Expr {
             Expr::Sub(left, right) => format!("({} - {})", left.to_python(), right.to_python()),
             Expr::Mul(left, right) => format!("({} * {})", left.to_python(), right.to_python()),
             Expr::Div(left, right) => format!("({} / {})", left.to_python(), right.to_python()),
-            Expr::Pow(base, exponent) => {
-                format!("({} ** {})", base.to_python(), exponent.to_python())
-            }
+            // (-2) ** x is not -2 ** x
+            Expr::Pow(base, exponent) => match base.as_ref() {
+                Expr::Const(c) if c.is_sign_negative() => {
+                    format!("(({}) ** {})", base.to_python(), exponent.to_python())
+                }
+                _ => format!("({} ** {})", base.to_python(), exponent.to_python()),
+            },
             Expr::Ln(expr) => format!("math.log({})", expr.to_python()),
             Expr::Exp(expr) => format!("math.exp({})", expr.to_python()),
             Expr::Sqrt(expr) => format!("math.sqrt({})", expr.to_python()),
             Expr::Sin(expr) => format!("math.sin({})", expr.to_python()),
             Expr::Cos(expr) => format!("math.cos({})", expr.to_python()),
-            Expr::Neg(expr) => format!("-({})", expr.to_python()),
+            Expr::Neg(expr) => format!("(-{})", expr.to_python()),
         }
     }
 }
-- 
2.43.0


From ba4fc390411e3135fe1e6f1cda032738df34b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 22/40] fix: pretty-printed powers keep a negative base
 together

---
 mathjit/src/final_tagless.rs       | 7 ++++++-
 symbolic-math/src/final_tagless.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mathjit/src/final_tagless.rs b/mathjit/src/final_tagless.rs
index 1dc4c6d..d0c20b4 100644
--- a/mathjit/src/final_tagless.rs
+++ b/mathjit/src/final_tagless.rs
@@ -695,7 +695,12 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
-        format!("({base} ^ {exp})")
+        // (-2) ^ x is not -2 ^ x
+        if base.starts_with('-') {
+            format!("(({base}) ^ {exp})")
+        } else {
+            format!("({base} ^ {exp})")
+        }
     }
 
     fn neg<T: NumericType + Neg<Output = T>>(expr: Self::Repr<T>) -> Self::Repr<T> {
diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index a7b217d..e1c8367 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -544,7 +544,12 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
-        format!("({base} ^ {exp})")
+        // (-2) ^ x is not -2 ^ x
+        if base.starts_with('-') {
+            format!("(({base}) ^ {exp})")
+        } else {
+            format!("({base} ^ {exp})")
+        }
     }
 
     fn neg<T: NumericType + Neg<Output = T>>(expr: Self::Repr<T>) -> Self::Repr<T> {
-- 
2.43.0


From 73057e1f4c86954ef3c381d26bcea3272c1ed8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 23/40] fix: the LaTeX and Python display helpers use the LaTeX
 and Python forms

---
 symbolic-math/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/lib.rs b/symbolic-math/src/lib.rs
index 9688c90..f6761b3 100644
--- a/symbolic-math/src/lib.rs
+++ b/symbolic-math/src/lib.rs
@@ -299,13 +299,13 @@ pub mod display {
     /// Generate LaTeX representation of an expression
     #[must_use]
     pub fn latex(expr: &Expr) -> String {
-        format!("${expr}$")
+        format!("${}$", expr.to_latex())
     }
 
     /// Generate Python code representation of an expression
     #[must_use]
     pub fn python(expr: &Expr) -> String {
-        format!("lambda vars: {expr}")
+        format!("lambda vars: {}", expr.to_python())
     }
 
     /// Generate a mathematical equation string
-- 
2.43.0


From 2898cd5f61b4bbef0781ca6b279e6fd81200dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 24/40] fix: compiled expressions call the platform's exp, ln,
 pow, sin and cos

The inline approximations were wrong outside a small range: sin and cos beyond
about one, exp where the result over- or underflows, ln of zero and subnormal
numbers, powers of negative bases.
---
 symbolic-math/src/final_tagless.rs |   2 +-
 symbolic-math/src/jit.rs           | 310 +++++------------------------
 2 files changed, 56 insertions(+), 256 deletions(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index e1c8367..4217d92 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -874,7 +874,7 @@ impl JITRepr {
                         Ok(builder.ins().f64const(1.0))
                     }
                     _ => {
-                        // General case: use exp(exponent * ln(base)) with accurate implementations
+                        // General case
                         let exp_val = exp.generate_ir(builder, var_map)?;
                         crate::jit::generate_pow_call(builder, base_val, exp_val)
                     }
diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 4653189..fc421a5 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -17,7 +17,7 @@
 //! - Exponential family specific optimizations
 
 #[cfg(feature = "jit")]
-use cranelift_codegen::ir::{AbiParam, Function, InstBuilder, Value, types};
+use cranelift_codegen::ir::{AbiParam, Function, InstBuilder, Signature, Value, types};
 #[cfg(feature = "jit")]
 use cranelift_frontend::{FunctionBuilder, FunctionBuilderContext};
 #[cfg(feature = "jit")]
@@ -641,7 +641,7 @@ fn generate_clif_from_expr_with_vars(
                     Ok(builder.ins().f64const(1.0))
                 }
                 _ => {
-                    // General case: use exp(exponent * ln(base)) with accurate implementations
+                    // General case
                     let exp_val =
                         generate_clif_from_expr_with_vars(builder, exp, var_map, constants)?;
                     generate_pow_call(builder, base_val, exp_val)
@@ -667,284 +667,84 @@ fn generate_clif_from_expr_with_vars(
     }
 }
 
-/// Generate a call to the pow function using basic math operations
+/// Generate a call to a host function that takes and returns `f64`s
+#[cfg(feature = "jit")]
+fn generate_host_call(builder: &mut FunctionBuilder, function: *const u8, args: &[Value]) -> Value {
+    let mut sig = Signature::new(builder.func.signature.call_conv);
+    for _ in args {
+        sig.params.push(AbiParam::new(types::F64));
+    }
+    sig.returns.push(AbiParam::new(types::F64));
+    let sig_ref = builder.import_signature(sig);
+    let callee = builder.ins().iconst(types::I64, function as i64);
+    let call = builder.ins().call_indirect(sig_ref, callee, args);
+    builder.inst_results(call)[0]
+}
+
+#[cfg(feature = "jit")]
+extern "C" fn host_pow(base: f64, exponent: f64) -> f64 {
+    base.powf(exponent)
+}
+
+#[cfg(feature = "jit")]
+extern "C" fn host_ln(x: f64) -> f64 {
+    x.ln()
+}
+
+#[cfg(feature = "jit")]
+extern "C" fn host_exp(x: f64) -> f64 {
+    x.exp()
+}
+
+#[cfg(feature = "jit")]
+extern "C" fn host_sin(x: f64) -> f64 {
+    x.sin()
+}
+
+#[cfg(feature = "jit")]
+extern "C" fn host_cos(x: f64) -> f64 {
+    x.cos()
+}
+
+/// Generate a call to the pow function
 #[cfg(feature = "jit")]
 pub fn generate_pow_call(
     builder: &mut FunctionBuilder,
     base: Value,
     exponent: Value,
 ) -> Result<Value, JITError> {
-    // Use the standard approach: exp(exponent * ln(base))
-    let ln_base = generate_accurate_ln_call(builder, base)?;
-    let product = builder.ins().fmul(exponent, ln_base);
-    generate_exp_call(builder, product)
+    Ok(generate_host_call(
+        builder,
+        host_pow as *const u8,
+        &[base, exponent],
+    ))
 }
 
-/// Generate CLIF IR for natural logarithm using range reduction and rational function approximation
-/// Uses coefficients from Julia's `ratfn_minimax` for ln on [1, 2] with ~3.7e-12 error (degree 7,2)
+/// Generate a call to the natural logarithm
 #[cfg(feature = "jit")]
 pub fn generate_accurate_ln_call(
     builder: &mut FunctionBuilder,
     val: Value,
 ) -> Result<Value, JITError> {
-    // Special case: ln(1) = 0 exactly
-    let one = builder.ins().f64const(1.0);
-    let zero = builder.ins().f64const(0.0);
-    let is_one = builder
-        .ins()
-        .fcmp(cranelift_codegen::ir::condcodes::FloatCC::Equal, val, one);
-
-    // Use range reduction: x = 2^k * m where 1.0 <= m < 2.0
-    // Then ln(x) = k*ln(2) + ln(m)
-    // This is the proper way to implement ln with good accuracy across all ranges
-
-    // Convert to integer bits for manipulation
-    let x_bits = builder
-        .ins()
-        .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), val);
-
-    // Extract exponent (IEEE 754 format)
-    let exponent_mask = builder.ins().iconst(types::I64, 0x7FF0000000000000);
-    let exponent_bits = builder.ins().band(x_bits, exponent_mask);
-    let exponent_shifted = builder.ins().ushr_imm(exponent_bits, 52);
-    let bias = builder.ins().iconst(types::I64, 1023);
-    let k_i64 = builder.ins().isub(exponent_shifted, bias);
-    let k = builder.ins().fcvt_from_sint(types::F64, k_i64);
-
-    // Extract mantissa and normalize to [1, 2)
-    let mantissa_mask = builder.ins().iconst(types::I64, 0x000FFFFFFFFFFFFF);
-    let mantissa_bits = builder.ins().band(x_bits, mantissa_mask);
-    let normalized_exp = builder.ins().iconst(types::I64, 0x3FF0000000000000); // Exponent for 1.0
-    let m_bits = builder.ins().bor(mantissa_bits, normalized_exp);
-    let m = builder
-        .ins()
-        .bitcast(types::F64, cranelift_codegen::ir::MemFlags::new(), m_bits);
-
-    // Rational function approximation for ln(m) on [1, 2] with ~3.7e-12 error
-    // Numerator coefficients (degree 7)
-    let n0 = builder.ins().f64const(-3.757_488_530_222_454);
-    let n1 = builder.ins().f64const(-11.054_916_701_724_03);
-    let n2 = builder.ins().f64const(11.288_438_153_376_154);
-    let n3 = builder.ins().f64const(4.139_561_514_484_466);
-    let n4 = builder.ins().f64const(-0.722_936_179_175_468);
-    let n5 = builder.ins().f64const(0.120_402_162_146_429_54);
-    let n6 = builder.ins().f64const(-0.013_833_868_987_268_428);
-    let n7 = builder.ins().f64const(0.000_773_450_181_076_160_1);
-
-    // Denominator coefficients (degree 2)
-    let d0 = builder.ins().f64const(1.0);
-    let d1 = builder.ins().f64const(9.977_721_025_877_55);
-    let d2 = builder.ins().f64const(10.595_600_174_718_957);
-
-    // Compute numerator: n0 + n1*m + n2*m² + n3*m³ + n4*m⁴ + n5*m⁵ + n6*m⁶ + n7*m⁷
-    let m2 = builder.ins().fmul(m, m);
-    let m3 = builder.ins().fmul(m2, m);
-    let m4 = builder.ins().fmul(m2, m2);
-    let m5 = builder.ins().fmul(m4, m);
-    let m6 = builder.ins().fmul(m4, m2);
-    let m7 = builder.ins().fmul(m4, m3);
-
-    let num_term1 = builder.ins().fmul(n1, m);
-    let num_term2 = builder.ins().fmul(n2, m2);
-    let num_term3 = builder.ins().fmul(n3, m3);
-    let num_term4 = builder.ins().fmul(n4, m4);
-    let num_term5 = builder.ins().fmul(n5, m5);
-    let num_term6 = builder.ins().fmul(n6, m6);
-    let num_term7 = builder.ins().fmul(n7, m7);
-
-    let num_partial1 = builder.ins().fadd(n0, num_term1);
-    let num_partial2 = builder.ins().fadd(num_partial1, num_term2);
-    let num_partial3 = builder.ins().fadd(num_partial2, num_term3);
-    let num_partial4 = builder.ins().fadd(num_partial3, num_term4);
-    let num_partial5 = builder.ins().fadd(num_partial4, num_term5);
-    let num_partial6 = builder.ins().fadd(num_partial5, num_term6);
-    let numerator = builder.ins().fadd(num_partial6, num_term7);
-
-    // Compute denominator: d0 + d1*m + d2*m²
-    let den_term1 = builder.ins().fmul(d1, m);
-    let den_term2 = builder.ins().fmul(d2, m2);
-    let den_partial1 = builder.ins().fadd(d0, den_term1);
-    let denominator = builder.ins().fadd(den_partial1, den_term2);
-
-    // Rational approximation: ln(m) ≈ numerator / denominator
-    let ln_m = builder.ins().fdiv(numerator, denominator);
-
-    // Final result: ln(x) = k*ln(2) + ln(m)
-    let ln_2 = builder.ins().f64const(std::f64::consts::LN_2);
-    let k_ln_2 = builder.ins().fmul(k, ln_2);
-    let ln_x = builder.ins().fadd(k_ln_2, ln_m);
-
-    // Return ln(1) = 0 exactly, otherwise return computed value
-    let result = builder.ins().select(is_one, zero, ln_x);
-    Ok(result)
+    Ok(generate_host_call(builder, host_ln as *const u8, &[val]))
 }
 
-/// Generate CLIF IR for exponential function using proven rational function approximation
-/// Uses coefficients from Julia's `ratfn_minimax` for exp on [0, ln(2)] with ~2.7e-12 error
+/// Generate a call to the exponential function
 #[cfg(feature = "jit")]
 pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // For range reduction: exp(x) = 2^k * exp(r) where r ∈ [0, ln(2)]
-    // Split x = k*ln(2) + r where k is integer and r ∈ [0, ln(2)]
-
-    let ln2 = builder.ins().f64const(std::f64::consts::LN_2);
-    let ln2_inv = builder.ins().f64const(1.0 / std::f64::consts::LN_2);
-
-    // Compute k = floor(x / ln(2))
-    let x_over_ln2 = builder.ins().fmul(val, ln2_inv);
-    let k_float = builder.ins().floor(x_over_ln2);
-
-    // Compute r = x - k*ln(2), so r ∈ [0, ln(2)]
-    let k_ln2 = builder.ins().fmul(k_float, ln2);
-    let r = builder.ins().fsub(val, k_ln2);
-
-    // Now use rational approximation for exp(r) where r ∈ [0, ln(2)]
-    // Rational function approximation: P(r) / Q(r)
-    // Numerator coefficients (degree 5)
-    let n0 = builder.ins().f64const(0.999_999_999_997_277_7);
-    let n1 = builder.ins().f64const(0.726_006_320_449_981);
-    let n2 = builder.ins().f64const(0.247_557_081_600_051_33);
-    let n3 = builder.ins().f64const(0.051_220_753_494_353_26);
-    let n4 = builder.ins().f64const(0.006_775_629_189_039_916);
-    let n5 = builder.ins().f64const(0.000_511_051_952_348_079_5);
-
-    // Denominator coefficients (degree 2)
-    let d0 = builder.ins().f64const(1.0);
-    let d1 = builder.ins().f64const(-0.273_993_680_027_297_7);
-    let d2 = builder.ins().f64const(0.021_550_775_407_834_573);
-
-    // Compute powers of r
-    let r2 = builder.ins().fmul(r, r);
-    let r3 = builder.ins().fmul(r2, r);
-    let r4 = builder.ins().fmul(r3, r);
-    let r5 = builder.ins().fmul(r4, r);
-
-    // Compute numerator: n0 + n1*r + n2*r² + n3*r³ + n4*r⁴ + n5*r⁵
-    let num_term1 = builder.ins().fmul(n1, r);
-    let num_term2 = builder.ins().fmul(n2, r2);
-    let num_term3 = builder.ins().fmul(n3, r3);
-    let num_term4 = builder.ins().fmul(n4, r4);
-    let num_term5 = builder.ins().fmul(n5, r5);
-
-    let numerator = builder.ins().fadd(n0, num_term1);
-    let numerator = builder.ins().fadd(numerator, num_term2);
-    let numerator = builder.ins().fadd(numerator, num_term3);
-    let numerator = builder.ins().fadd(numerator, num_term4);
-    let numerator = builder.ins().fadd(numerator, num_term5);
-
-    // Compute denominator: d0 + d1*r + d2*r²
-    let den_term1 = builder.ins().fmul(d1, r);
-    let den_term2 = builder.ins().fmul(d2, r2);
-
-    let denominator = builder.ins().fadd(d0, den_term1);
-    let denominator = builder.ins().fadd(denominator, den_term2);
-
-    // Rational function result: exp(r)
-    let exp_r = builder.ins().fdiv(numerator, denominator);
-
-    // Apply 2^k scaling - use a simpler conditional approach
-    let k_int = builder.ins().fcvt_to_sint(types::I32, k_float);
-
-    // For common small integer powers, use exact multiplication
-    // This avoids floating point precision issues
-    let zero = builder.ins().iconst(types::I32, 0);
-    let one_i32 = builder.ins().iconst(types::I32, 1);
-    let neg_one_i32 = builder.ins().iconst(types::I32, -1);
-
-    let two_f64 = builder.ins().f64const(2.0);
-    let half_f64 = builder.ins().f64const(0.5);
-
-    // Check for k = 0 (most common case)
-    let is_k_zero = builder
-        .ins()
-        .icmp(cranelift_codegen::ir::condcodes::IntCC::Equal, k_int, zero);
-    let result_k_zero = exp_r; // 2^0 = 1, so result = exp_r * 1 = exp_r
-
-    // Check for k = 1
-    let is_k_one = builder.ins().icmp(
-        cranelift_codegen::ir::condcodes::IntCC::Equal,
-        k_int,
-        one_i32,
-    );
-    let result_k_one = builder.ins().fmul(exp_r, two_f64); // 2^1 = 2
-
-    // Check for k = -1
-    let is_k_neg_one = builder.ins().icmp(
-        cranelift_codegen::ir::condcodes::IntCC::Equal,
-        k_int,
-        neg_one_i32,
-    );
-    let result_k_neg_one = builder.ins().fmul(exp_r, half_f64); // 2^(-1) = 0.5
-
-    // For other cases, use bit manipulation (ldexp-like operation)
-    let exp_r_bits =
-        builder
-            .ins()
-            .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), exp_r);
-    let k_64 = builder.ins().sextend(types::I64, k_int);
-    let exponent_shift = builder.ins().ishl_imm(k_64, 52); // Shift k to exponent position
-    let result_bits = builder.ins().iadd(exp_r_bits, exponent_shift);
-    let result_general = builder.ins().bitcast(
-        types::F64,
-        cranelift_codegen::ir::MemFlags::new(),
-        result_bits,
-    );
-
-    // Use select instructions to choose the right result
-    let temp_result = builder
-        .ins()
-        .select(is_k_zero, result_k_zero, result_general);
-    let temp_result2 = builder.ins().select(is_k_one, result_k_one, temp_result);
-    let result = builder
-        .ins()
-        .select(is_k_neg_one, result_k_neg_one, temp_result2);
-
-    Ok(result)
+    Ok(generate_host_call(builder, host_exp as *const u8, &[val]))
 }
 
-/// Generate CLIF IR for sine function using polynomial approximation
+/// Generate a call to the sine function
 #[cfg(feature = "jit")]
 pub fn generate_sin_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for sin(x)
-    // sin(x) ≈ x - x³/6 + x⁵/120
-
-    let x2 = builder.ins().fmul(val, val);
-    let x3 = builder.ins().fmul(x2, val);
-    let x5 = builder.ins().fmul(x3, x2);
-
-    let coeff2 = builder.ins().f64const(-0.16666666667);
-    let coeff3 = builder.ins().f64const(0.00833333333);
-
-    let term1 = val;
-    let term2 = builder.ins().fmul(x3, coeff2);
-    let term3 = builder.ins().fmul(x5, coeff3);
-
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
-
-    Ok(result)
+    Ok(generate_host_call(builder, host_sin as *const u8, &[val]))
 }
 
-/// Generate CLIF IR for cosine function using polynomial approximation
+/// Generate a call to the cosine function
 #[cfg(feature = "jit")]
 pub fn generate_cos_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for cos(x)
-    // cos(x) ≈ 1 - x²/2 + x⁴/24
-
-    let one = builder.ins().f64const(1.0);
-    let x2 = builder.ins().fmul(val, val);
-    let x4 = builder.ins().fmul(x2, x2);
-
-    let coeff2 = builder.ins().f64const(-0.5);
-    let coeff3 = builder.ins().f64const(0.04166666667);
-
-    let term1 = one;
-    let term2 = builder.ins().fmul(x2, coeff2);
-    let term3 = builder.ins().fmul(x4, coeff3);
-
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
-
-    Ok(result)
+    Ok(generate_host_call(builder, host_cos as *const u8, &[val]))
 }
 
 /// Generate CLIF IR for square root using Cranelift's built-in instruction
-- 
2.43.0


From 9ec376d123586714e5b375c5a1ef1c696c81d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 25/40] fix: compiled functions of several data points or
 parameters receive their arguments

Functions with more than one data variable were compiled to take scalars but
called with pointers; more than three parameters could not be passed at all.
---
 symbolic-math/src/jit.rs | 176 +++++++++++++++++++--------------------
 1 file changed, 84 insertions(+), 92 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index fc421a5..2fed5cc 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -96,6 +96,67 @@ pub enum JITSignature {
     },
 }
 
+#[cfg(feature = "jit")]
+impl JITSignature {
+    /// The signature of a function of that many data and parameter variables
+    fn for_inputs(data_dims: usize, param_dims: usize) -> Self {
+        match (data_dims, param_dims) {
+            (1, 0) => Self::SingleInput,
+            (1, 1) => Self::DataAndParameter,
+            (1, n) => Self::DataAndParameters(n),
+            _ => Self::MultipleDataAndParameters {
+                data_dims,
+                param_dims,
+            },
+        }
+    }
+
+    /// The native argument types of a function with this signature
+    fn input_types(&self) -> Vec<types::Type> {
+        match self {
+            Self::SingleInput | Self::Custom { .. } => vec![types::F64],
+            Self::DataAndParameter => vec![types::F64; 2],
+            // Data point, pointer to the parameters
+            Self::DataAndParameters(_) => vec![types::F64, types::I64],
+            // Pointer to and number of data points, then of parameters
+            Self::MultipleDataAndParameters { .. } => vec![types::I64; 4],
+        }
+    }
+}
+
+/// Generate the values of the data variables and the parameter variables from the native arguments
+#[cfg(feature = "jit")]
+fn load_inputs(
+    builder: &mut FunctionBuilder,
+    signature: &JITSignature,
+    inputs: &[Value],
+) -> Vec<Value> {
+    let mut load = |pointer: Value, count: usize| -> Vec<Value> {
+        (0..count)
+            .map(|i| {
+                let flags = cranelift_codegen::ir::MemFlags::trusted();
+                builder.ins().load(types::F64, flags, pointer, 8 * i as i32)
+            })
+            .collect()
+    };
+    match signature {
+        JITSignature::DataAndParameters(n) => {
+            let mut values = vec![inputs[0]];
+            values.extend(load(inputs[1], *n));
+            values
+        }
+        JITSignature::MultipleDataAndParameters {
+            data_dims,
+            param_dims,
+        } => {
+            let mut values = load(inputs[0], *data_dims);
+            values.extend(load(inputs[2], *param_dims));
+            values
+        }
+        _ => inputs.to_vec(),
+    }
+}
+
 /// JIT type system for flexible compilation
 #[derive(Debug, Clone)]
 pub enum JITType {
@@ -118,7 +179,8 @@ impl GeneralJITFunction {
             JITSignature::SingleInput => {
                 #[cfg(feature = "jit")]
                 {
-                    let func: fn(f64) -> f64 = unsafe { std::mem::transmute(self.function_ptr) };
+                    let func: extern "C" fn(f64) -> f64 =
+                        unsafe { std::mem::transmute(self.function_ptr) };
                     func(x)
                 }
                 #[cfg(not(feature = "jit"))]
@@ -137,7 +199,7 @@ impl GeneralJITFunction {
             JITSignature::DataAndParameter => {
                 #[cfg(feature = "jit")]
                 {
-                    let func: fn(f64, f64) -> f64 =
+                    let func: extern "C" fn(f64, f64) -> f64 =
                         unsafe { std::mem::transmute(self.function_ptr) };
                     func(x, theta)
                 }
@@ -158,21 +220,9 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *n, "Parameter count mismatch");
                 #[cfg(feature = "jit")]
                 {
-                    // This would need dynamic dispatch based on parameter count
-                    // For now, support common cases
-                    match n {
-                        2 => {
-                            let func: fn(f64, f64, f64) -> f64 =
-                                unsafe { std::mem::transmute(self.function_ptr) };
-                            func(x, params[0], params[1])
-                        }
-                        3 => {
-                            let func: fn(f64, f64, f64, f64) -> f64 =
-                                unsafe { std::mem::transmute(self.function_ptr) };
-                            func(x, params[0], params[1], params[2])
-                        }
-                        _ => panic!("Unsupported parameter count: {n}"),
-                    }
+                    let func: extern "C" fn(f64, *const f64) -> f64 =
+                        unsafe { std::mem::transmute(self.function_ptr) };
+                    func(x, params.as_ptr())
                 }
                 #[cfg(not(feature = "jit"))]
                 {
@@ -195,9 +245,7 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *param_dims, "Parameter dimension mismatch");
                 #[cfg(feature = "jit")]
                 {
-                    // For batch processing, we'd typically pass pointers to arrays
-                    // This is a simplified version - real implementation would be more complex
-                    let func: fn(*const f64, usize, *const f64, usize) -> f64 =
+                    let func: extern "C" fn(*const f64, usize, *const f64, usize) -> f64 =
                         unsafe { std::mem::transmute(self.function_ptr) };
                     func(data.as_ptr(), data.len(), params.as_ptr(), params.len())
                 }
@@ -262,18 +310,10 @@ impl GeneralJITCompiler {
         let start_time = std::time::Instant::now();
 
         // Create function signature based on inputs
+        let signature = JITSignature::for_inputs(data_vars.len(), param_vars.len());
         let mut sig = self.module.make_signature();
-
-        // Add data parameters
-        for _ in data_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
-        // Add parameter parameters
-        for _ in param_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
+        sig.params
+            .extend(signature.input_types().into_iter().map(AbiParam::new));
         sig.returns.push(AbiParam::new(types::F64));
 
         // Declare the function
@@ -292,18 +332,12 @@ impl GeneralJITCompiler {
         builder.switch_to_block(entry_block);
         builder.append_block_params_for_function_params(entry_block);
 
-        // Get input parameters
-        let block_params = builder.block_params(entry_block);
+        // Map data and parameter variables to their values
+        let inputs = builder.block_params(entry_block).to_vec();
+        let values = load_inputs(&mut builder, &signature, &inputs);
         let mut var_map = std::collections::HashMap::new();
-
-        // Map data variables to their values
-        for (i, var_name) in data_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[i]);
-        }
-
-        // Map parameter variables to their values
-        for (i, var_name) in param_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[data_vars.len() + i]);
+        for (var_name, value) in data_vars.iter().chain(param_vars).zip(values) {
+            var_map.insert(var_name.clone(), value);
         }
 
         // Generate CLIF IR for the expression
@@ -332,20 +366,6 @@ impl GeneralJITCompiler {
 
         let compilation_time = start_time.elapsed();
 
-        // Determine signature type
-        let signature = if data_vars.len() == 1 && param_vars.is_empty() {
-            JITSignature::SingleInput
-        } else if data_vars.len() == 1 && param_vars.len() == 1 {
-            JITSignature::DataAndParameter
-        } else if data_vars.len() == 1 && param_vars.len() > 1 {
-            JITSignature::DataAndParameters(param_vars.len())
-        } else {
-            JITSignature::MultipleDataAndParameters {
-                data_dims: data_vars.len(),
-                param_dims: param_vars.len(),
-            }
-        };
-
         // Create compilation statistics
         let stats = CompilationStats {
             code_size_bytes: 128, // Estimate - in practice we'd get this from Cranelift
@@ -451,18 +471,10 @@ impl GeneralJITCompiler {
         let start_time = std::time::Instant::now();
 
         // Create function signature based on inputs
+        let signature = JITSignature::for_inputs(data_vars.len(), param_vars.len());
         let mut sig = self.module.make_signature();
-
-        // Add data parameters
-        for _ in data_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
-        // Add parameter parameters
-        for _ in param_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
+        sig.params
+            .extend(signature.input_types().into_iter().map(AbiParam::new));
         sig.returns.push(AbiParam::new(types::F64));
 
         // Declare the function
@@ -481,18 +493,12 @@ impl GeneralJITCompiler {
         builder.switch_to_block(entry_block);
         builder.append_block_params_for_function_params(entry_block);
 
-        // Get input parameters
-        let block_params = builder.block_params(entry_block);
+        // Map data and parameter variables to their values
+        let inputs = builder.block_params(entry_block).to_vec();
+        let values = load_inputs(&mut builder, &signature, &inputs);
         let mut var_map = std::collections::HashMap::new();
-
-        // Map data variables to their values
-        for (i, var_name) in data_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[i]);
-        }
-
-        // Map parameter variables to their values
-        for (i, var_name) in param_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[data_vars.len() + i]);
+        for (var_name, value) in data_vars.iter().chain(param_vars).zip(values) {
+            var_map.insert(var_name.clone(), value);
         }
 
         // Add constants to the variable map as constant values
@@ -527,20 +533,6 @@ impl GeneralJITCompiler {
 
         let compilation_time = start_time.elapsed();
 
-        // Determine signature type
-        let signature = if data_vars.len() == 1 && param_vars.is_empty() {
-            JITSignature::SingleInput
-        } else if data_vars.len() == 1 && param_vars.len() == 1 {
-            JITSignature::DataAndParameter
-        } else if data_vars.len() == 1 && param_vars.len() > 1 {
-            JITSignature::DataAndParameters(param_vars.len())
-        } else {
-            JITSignature::MultipleDataAndParameters {
-                data_dims: data_vars.len(),
-                param_dims: param_vars.len(),
-            }
-        };
-
         // Create compilation statistics
         let stats = CompilationStats {
             code_size_bytes: 128, // Estimate - in practice we'd get this from Cranelift
-- 
2.43.0


From c05451a403e7bc4ee7cdb8c183a03b04a6fffa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 26/40] fix: the argument of a compiled custom expression is
 its free variable, not a parameter

---
 symbolic-math/src/jit.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 2fed5cc..c6d0770 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -810,8 +810,9 @@ fn generate_custom_log_density(
     // Create a variable mapping with the input value
     let mut var_map = std::collections::HashMap::new();
 
-    // Assume the first variable in the expression is the input variable
-    if let Some(var_name) = symbolic.variables.first() {
+    // The input variable is the first variable in the expression that is not a parameter
+    let mut inputs = symbolic.variables.iter();
+    if let Some(var_name) = inputs.find(|name| !symbolic.parameters.contains_key(*name)) {
         var_map.insert(var_name.clone(), x_val);
     }
 
-- 
2.43.0


From a1312b28ccbd8c84b395f2c7ed86fa5c98e602d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 27/40] fix: JITEval::compile takes its arguments in a fixed
 order

---
 symbolic-math/src/final_tagless.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index 4217d92..a5c39c0 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -996,10 +996,12 @@ impl MathExpr for JITEval {
 
 #[cfg(feature = "jit")]
 impl JITEval {
-    /// Compile expression with automatic signature detection
+    /// Compile expression with automatic signature detection; the arguments are the
+    /// variables in alphabetical order
     pub fn compile(expr: JITRepr) -> Result<GeneralJITFunction, JITError> {
         let variables = expr.collect_variables();
-        let var_list: Vec<String> = variables.into_iter().collect();
+        let mut var_list: Vec<String> = variables.into_iter().collect();
+        var_list.sort();
 
         let compiler = GeneralJITCompiler::new()?;
         compiler.compile_final_tagless(&expr, &var_list, &[], &HashMap::new())
-- 
2.43.0


From 5f3d333bd24ac7b6944cfe9cf6266c36744ead9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 28/40] fix: evaluating a compiled Bayesian model works for
 every number of variables

---
 measures-bayesian/src/bayesian/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/measures-bayesian/src/bayesian/mod.rs b/measures-bayesian/src/bayesian/mod.rs
index 1d003fc..1d1f640 100644
--- a/measures-bayesian/src/bayesian/mod.rs
+++ b/measures-bayesian/src/bayesian/mod.rs
@@ -198,23 +198,36 @@ impl BayesianJITOptimizer {
         Ok(())
     }
 
+    /// Call a compiled function in the form its signature asks for
+    fn call(function: &symbolic_math::GeneralJITFunction, data: &[f64], params: &[f64]) -> f64 {
+        use symbolic_math::JITSignature;
+        match (&function.signature, data, params) {
+            (JITSignature::SingleInput, &[x], &[]) => function.call_single(x),
+            (JITSignature::DataAndParameter, &[x], &[theta]) => function.call_data_param(x, theta),
+            (JITSignature::DataAndParameters(_), &[x], params) => {
+                function.call_data_params(x, params)
+            }
+            _ => function.call_batch(data, params),
+        }
+    }
+
     /// Evaluate the compiled posterior function
     pub fn evaluate_posterior(&self, data: &[f64], params: &[f64]) -> Option<f64> {
         self.posterior_fn
             .as_ref()
-            .map(|f| f.call_batch(data, params))
+            .map(|f| Self::call(f, data, params))
     }
 
     /// Evaluate the compiled likelihood function
     pub fn evaluate_likelihood(&self, data: &[f64], params: &[f64]) -> Option<f64> {
         self.likelihood_fn
             .as_ref()
-            .map(|f| f.call_batch(data, params))
+            .map(|f| Self::call(f, data, params))
     }
 
     /// Evaluate the compiled prior function
     pub fn evaluate_prior(&self, params: &[f64]) -> Option<f64> {
-        self.prior_fn.as_ref().map(|f| f.call_batch(&[], params))
+        self.prior_fn.as_ref().map(|f| Self::call(f, &[], params))
     }
 }
 
-- 
2.43.0


From 09080c8230eb6fcae1529fa2d2637d1ae956618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 29/40] fix: equality saturation only uses power laws that hold
 for negative arguments

---
 symbolic-math/src/optimization.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 575e95b..b5cf80a 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -77,7 +77,6 @@ impl EgglogOptimizer {
             ; Logarithm properties: ln(a) + ln(b) -> ln(a * b)
             (rewrite (Add (Ln ?a) (Ln ?b)) (Ln (Mul ?a ?b)))
             (rewrite (Sub (Ln ?a) (Ln ?b)) (Ln (Div ?a ?b)))
-            (rewrite (Mul (Const ?c) (Ln ?x)) (Ln (Pow ?x (Const ?c))))
             
             ; Exponential properties: exp(a) * exp(b) -> exp(a + b)
             (rewrite (Mul (Exp ?a) (Exp ?b)) (Exp (Add ?a ?b)))
@@ -97,7 +96,9 @@ impl EgglogOptimizer {
             ; Power laws
             (rewrite (Mul (Pow ?x ?a) (Pow ?x ?b)) (Pow ?x (Add ?a ?b)))
             (rewrite (Div (Pow ?x ?a) (Pow ?x ?b)) (Pow ?x (Sub ?a ?b)))
-            (rewrite (Pow (Pow ?x ?a) ?b) (Pow ?x (Mul ?a ?b)))
+            ; (for negative x only integer exponents multiply)
+            (rewrite (Pow (Pow ?x ?a) (Const ?b)) (Pow ?x (Mul ?a (Const ?b)))
+                :when ((= (abs (% ?b 1.0)) 0.0)))
             
             ; ENHANCED constant folding for common values
             (rewrite (Add (Const ?a) (Const ?b)) (Const (+ ?a ?b)))
@@ -129,8 +130,9 @@ impl EgglogOptimizer {
             ; Avoid very small constants that might be zero
             
             ; LOGARITHMIC and EXPONENTIAL advanced rules (simplified)
-            ; ln(x^n) -> n*ln(x)
-            (rewrite (Ln (Pow ?x ?n)) (Mul ?n (Ln ?x)))
+            ; ln(x^n) -> n*ln(x), unless x^n can be positive for negative x
+            (rewrite (Ln (Pow ?x (Const ?n))) (Mul (Const ?n) (Ln ?x))
+                :when ((> (abs (% ?n 2.0)) 0.0)))
             ; exp(n*ln(x)) -> x^n
             (rewrite (Exp (Mul ?n (Ln ?x))) (Pow ?x ?n))
             ; ln(sqrt(x)) -> 0.5*ln(x)
-- 
2.43.0


From 1ee23e14fc9a2759db388de818aaf7c6575af9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 30/40] fix: equality saturation keeps all digits of constants

---
 symbolic-math/src/optimization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index b5cf80a..f7f1768 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -195,7 +195,7 @@ impl EgglogOptimizer {
     /// Convert our Expr to egglog string representation
     fn expr_to_egglog(expr: &Expr) -> Result<String, egglog::Error> {
         match expr {
-            Expr::Const(c) => Ok(format!("(Const {c:.1})")),
+            Expr::Const(c) => Ok(format!("(Const {c:?})")),
             Expr::Var(name) => Ok(format!("(Var \"{name}\")")),
             Expr::Add(left, right) => {
                 let left_str = Self::expr_to_egglog(left)?;
-- 
2.43.0


From 69c6ea4bb79873008e57a2bfa58ebdb9f60504a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 31/40] fix: one e-graph optimization does not leak equalities
 into the next

---
 symbolic-math/src/optimization.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index f7f1768..6a769d1 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -157,6 +157,14 @@ impl EgglogOptimizer {
 
     /// Optimize an expression using egglog's equality saturation with limited iterations
     pub fn optimize(&mut self, expr: &Expr) -> Result<Expr, egglog::Error> {
+        // Equalities found for one expression need not hold where another one is defined
+        self.egraph.push();
+        let optimized = self.saturate_and_extract(expr);
+        self.egraph.pop()?;
+        optimized
+    }
+
+    fn saturate_and_extract(&mut self, expr: &Expr) -> Result<Expr, egglog::Error> {
         // Convert our Expr to egglog format
         let egglog_expr = Self::expr_to_egglog(expr)?;
 
-- 
2.43.0


From 47e5aa0e59c0540cf5d65f357fdf954a49fb3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 32/40] fix: equality saturation does not panic on a division
 by a zero constant

---
 symbolic-math/src/optimization.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 6a769d1..5c65baf 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -104,7 +104,8 @@ impl EgglogOptimizer {
             (rewrite (Add (Const ?a) (Const ?b)) (Const (+ ?a ?b)))
             (rewrite (Mul (Const ?a) (Const ?b)) (Const (* ?a ?b)))
             (rewrite (Sub (Const ?a) (Const ?b)) (Const (- ?a ?b)))
-            (rewrite (Div (Const ?a) (Const ?b)) (Const (/ ?a ?b)))
+            ; (egglog panics on a division by zero)
+            (rewrite (Div (Const ?a) (Const ?b)) (Const (/ ?a ?b)) :when ((> (abs ?b) 0.0)))
             
             ; POLYNOMIAL simplification rules
             ; Collect like terms: x + x -> 2*x
-- 
2.43.0


From 86a69ff277a900a35586025661b979e225fffca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 33/40] fix: a log-density's variable list follows
 simplification and substitution

---
 symbolic-math/src/expr.rs | 2 ++
 symbolic-math/src/jit.rs  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 9841988..58a47bb 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -1138,6 +1138,7 @@ impl SymbolicLogDensity {
     #[must_use]
     pub fn simplify(mut self) -> Self {
         self.expression = self.expression.simplify();
+        self.variables = self.expression.variables();
         self
     }
 
@@ -1145,6 +1146,7 @@ impl SymbolicLogDensity {
     #[must_use]
     pub fn substitute_parameters(mut self) -> Self {
         self.expression = self.substitute_expr(self.expression.clone());
+        self.variables = self.expression.variables();
         self
     }
 
diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index c6d0770..c9b9f2d 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -796,6 +796,7 @@ impl CustomSymbolicLogDensity {
     #[must_use]
     pub fn simplify(mut self) -> Self {
         self.expression = self.expression.simplify();
+        self.variables = self.expression.variables();
         self
     }
 }
-- 
2.43.0


From 46584078f189d3c639318a359bb2f069dd96cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 34/40] fix: expr! accepts negated variables and parenthesised
 expressions

---
 symbolic-math/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/symbolic-math/src/lib.rs b/symbolic-math/src/lib.rs
index f6761b3..fa9895d 100644
--- a/symbolic-math/src/lib.rs
+++ b/symbolic-math/src/lib.rs
@@ -131,6 +131,14 @@ pub mod macros {
             $crate::Expr::variable(stringify!($var))
         };
 
+        // Negation (before the literals, whose matcher commits to anything that starts with a sign)
+        (-$val:literal) => {
+            $crate::Expr::constant(-($val as f64))
+        };
+        (-$e:tt) => {
+            -expr!($e)
+        };
+
         // Constants (literals)
         ($val:literal) => {
             $crate::Expr::constant($val as f64)
@@ -190,11 +198,6 @@ pub mod macros {
         (cos($e:tt)) => {
             $crate::Expr::cos(expr!($e))
         };
-
-        // Negation
-        (-$e:tt) => {
-            -expr!($e)
-        };
     }
 
     /// Create a variable expression
-- 
2.43.0


From 28127fba415a68114835a6048805c93f971b1b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:05 +0000
Subject: [PATCH 35/40] fix: the joint log-density of samples of samples counts
 every observation

---
 .../src/exponential_family/iid.rs             |  7 ++++---
 .../src/exponential_family/traits.rs          | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/measures-exponential-family/src/exponential_family/iid.rs b/measures-exponential-family/src/exponential_family/iid.rs
index 693c92b..3931d68 100644
--- a/measures-exponential-family/src/exponential_family/iid.rs
+++ b/measures-exponential-family/src/exponential_family/iid.rs
@@ -13,12 +13,13 @@
 //! - Sufficient statistic: sum of individual sufficient statistics ∑ᵢT(xᵢ)
 //! - Log partition function: n times the original A(η)
 
-use crate::exponential_family::traits::{ExponentialFamily, SumSufficientStats};
+use crate::exponential_family::traits::{
+    ExponentialFamily, SumSufficientStats, total_multiplicity,
+};
 use measures_combinators::measures::derived::binomial_coefficient::BinomialCoefficientMeasure;
 use measures_combinators::measures::derived::factorial::FactorialMeasure;
 use measures_combinators::measures::derived::negative_binomial_coefficient::NegativeBinomialCoefficientMeasure;
 use measures_core::DotProduct;
-use measures_core::float_constant;
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::primitive::lebesgue::LebesgueMeasure;
 use measures_core::{False, True};
@@ -284,7 +285,7 @@ where
     }
 
     fn log_partition_multiplicity(&self, xs: &Vec<X>) -> F {
-        float_constant::<F>(xs.len() as f64)
+        total_multiplicity(&self.distribution, xs)
     }
 
     /// Override `exp_fam_log_density` to handle IID sample size scaling correctly
diff --git a/measures-exponential-family/src/exponential_family/traits.rs b/measures-exponential-family/src/exponential_family/traits.rs
index 5e31ae7..79065f1 100644
--- a/measures-exponential-family/src/exponential_family/traits.rs
+++ b/measures-exponential-family/src/exponential_family/traits.rs
@@ -166,6 +166,20 @@ where
     distribution.exp_fam_log_density(x)
 }
 
+/// How many times the log partition function enters the joint log-density of `samples`.
+pub(crate) fn total_multiplicity<X, F, D>(distribution: &D, samples: &[X]) -> F
+where
+    X: Clone,
+    F: Float,
+    D: ExponentialFamily<X, F>,
+{
+    let n: f64 = samples
+        .iter()
+        .filter_map(|x| distribution.log_partition_multiplicity(x).to_f64())
+        .sum();
+    float_constant::<F>(n)
+}
+
 /// Central helper function for computing IID exponential family log-density.
 ///
 /// For IID samples x₁, x₂, ..., xₙ from an exponential family, computes:
@@ -192,8 +206,9 @@ where
         samples.iter().map(|x| distribution.sufficient_statistic(x)),
     );
 
-    // Exponential family part: η·∑ᵢT(xᵢ) - n·A(η)
-    let n = float_constant::<F>(samples.len() as f64);
+    // Exponential family part: η·∑ᵢT(xᵢ) - n·A(η), where an observation that is itself
+    // a sample counts as many times as it has observations
+    let n = total_multiplicity(distribution, samples);
     let exp_fam_part = natural_params.dot(&sum_sufficient_stats) - n * log_partition;
 
     // Base measure part: ∑ᵢlog h(xᵢ)
-- 
2.43.0


From ab0f70c74de4c4e305c4dea85288d192ff6e5977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:04 +0000
Subject: [PATCH 36/40] fix: the Cauchy and Student t log-densities stay finite
 far in the tails

---
 .../src/distributions/continuous/cauchy.rs    | 21 +++++++++++++------
 .../src/distributions/continuous/student_t.rs | 15 +++++++++++--
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/measures-distributions/src/distributions/continuous/cauchy.rs b/measures-distributions/src/distributions/continuous/cauchy.rs
index ee64d76..57d5f6e 100644
--- a/measures-distributions/src/distributions/continuous/cauchy.rs
+++ b/measures-distributions/src/distributions/continuous/cauchy.rs
@@ -89,10 +89,9 @@ impl<T: Float> Cauchy<T> {
     where
         T: NumCast,
     {
-        let standardized = (x - self.location) / self.scale;
         let pi = T::from(PI).unwrap();
 
-        -pi.ln() - self.scale.ln() - (T::one() + standardized * standardized).ln()
+        -pi.ln() - self.scale.ln() - log_one_plus_square(x - self.location, self.scale)
     }
 
     /// Compute log-density for IID samples efficiently using decomposition.
@@ -130,8 +129,19 @@ impl<T: Float + Clone> Measure<T> for Cauchy<T> {
 impl<T: Float + FloatConst> HasLogDensity<T, T> for Cauchy<T> {
     fn log_density_wrt_root(&self, x: &T) -> T {
         let pi = float_constant::<T>(PI);
-        let standardized = (*x - self.location) / self.scale;
-        -(T::one() + standardized * standardized).ln() - self.scale.ln() - pi.ln()
+        -log_one_plus_square(*x - self.location, self.scale) - self.scale.ln() - pi.ln()
+    }
+}
+
+/// log(1 + (distance/scale)²), finite also where the square itself overflows
+fn log_one_plus_square<T: Float>(distance: T, scale: T) -> T {
+    let standardized = (distance / scale).abs();
+    if standardized * T::epsilon() > T::one() {
+        // Far in the tails the one is lost beside the square
+        let log_standardized = distance.abs().ln() - scale.ln();
+        log_standardized + log_standardized
+    } else {
+        (T::one() + standardized * standardized).ln()
     }
 }
 
@@ -155,8 +165,7 @@ impl<T: Float + FloatConst + NumCast> HasLogDensityDecomposition<T, CauchyParams
             // Mixed term: -log(1 + ((x-x₀)/γ)²)
             .mixed_term(
                 |x: &T, (location, scale): &CauchyParams<T>| {
-                    let standardized = (*x - *location) / *scale;
-                    -(T::one() + standardized * standardized).ln()
+                    -log_one_plus_square(*x - *location, *scale)
                 },
                 "negative log of standardized squared plus one",
             )
diff --git a/measures-distributions/src/distributions/continuous/student_t.rs b/measures-distributions/src/distributions/continuous/student_t.rs
index 736ecbf..6f7dce1 100644
--- a/measures-distributions/src/distributions/continuous/student_t.rs
+++ b/measures-distributions/src/distributions/continuous/student_t.rs
@@ -83,7 +83,7 @@ impl<T: Float> StudentT<T> {
             - 0.5 * (nu_f64 * std::f64::consts::PI).ln();
 
         // Compute -(ν+1)/2 * log(1 + x²/ν)
-        let log_kernel = -f64::midpoint(nu_f64, 1.0) * (1.0 + x_f64 * x_f64 / nu_f64).ln();
+        let log_kernel = -f64::midpoint(nu_f64, 1.0) * log_one_plus_square_over(x_f64, nu_f64);
 
         T::from(log_normalization + log_kernel).unwrap()
     }
@@ -100,6 +100,17 @@ impl<T: Float> StudentT<T> {
     }
 }
 
+/// log(1 + x²/ν), finite also where the square itself overflows
+fn log_one_plus_square_over(x: f64, nu: f64) -> f64 {
+    let standardized = x.abs() / nu.sqrt();
+    if standardized * f64::EPSILON > 1.0 {
+        // Far in the tails the one is lost beside the square
+        2.0 * x.abs().ln() - nu.ln()
+    } else {
+        (1.0 + x * x / nu).ln()
+    }
+}
+
 impl<T: Float> MeasureMarker for StudentT<T> {
     type IsPrimitive = False;
     type IsExponentialFamily = False; // Student's t is NOT an exponential family
@@ -151,7 +162,7 @@ impl<T: Float + FloatConst + std::fmt::Debug> HasLogDensityDecomposition<T, Stud
                     let nu_f64 = nu.to_f64().unwrap();
                     let x_f64 = x.to_f64().unwrap();
                     let log_kernel =
-                        -f64::midpoint(nu_f64, 1.0) * (1.0 + x_f64 * x_f64 / nu_f64).ln();
+                        -f64::midpoint(nu_f64, 1.0) * log_one_plus_square_over(x_f64, nu_f64);
                     T::from(log_kernel).unwrap()
                 },
                 "negative scaled log of one plus standardized squared",
-- 
2.43.0


From 81c54c84e97938639332d30ae8d2bf4f3f374617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:25 +0000
Subject: [PATCH 37/40] fix: coefficients and the Student t normalisation of
 large arguments are not lost to cancellation

---
 .../measures/derived/binomial_coefficient.rs  | 30 +++++++++++++++++++
 .../derived/negative_binomial_coefficient.rs  |  6 ++++
 .../src/distributions/continuous/cauchy.rs    |  2 +-
 .../src/distributions/continuous/student_t.rs | 28 ++++++++++-------
 4 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/measures-combinators/src/measures/derived/binomial_coefficient.rs b/measures-combinators/src/measures/derived/binomial_coefficient.rs
index 22433a7..c209e6c 100644
--- a/measures-combinators/src/measures/derived/binomial_coefficient.rs
+++ b/measures-combinators/src/measures/derived/binomial_coefficient.rs
@@ -50,6 +50,31 @@ impl<F: Float> Measure<u64> for BinomialCoefficientMeasure<F> {
     }
 }
 
+/// From here on a coefficient is computed without the log-gamma function.
+pub(crate) const LARGE_COEFFICIENT: u64 = 1000;
+
+/// log(C(a+b, a)) by Stirling's formula, with the terms that cancel left out (as a product when a or b
+/// is small). The relative error stays at rounding level however large the arguments are.
+pub(crate) fn log_large_coefficient(a: u64, b: u64) -> f64 {
+    let (small, large) = (a.min(b) as f64, a.max(b) as f64);
+    if small < 32.0 {
+        return (1..=a.min(b))
+            .map(|i| ((large + i as f64) / i as f64).ln())
+            .sum();
+    }
+    let n = small + large;
+    // log(x!) = x log(x) - x + log(2πx)/2 + remainder(x)
+    let remainder = |x: f64| {
+        let r = x.recip();
+        r * (1.0 / 12.0 - r * r * (1.0 / 360.0 - r * r / 1260.0))
+    };
+    small * (n / small).ln() + large * (small / large).ln_1p()
+        - 0.5 * (std::f64::consts::TAU * small * (large / n)).ln()
+        + remainder(n)
+        - remainder(small)
+        - remainder(large)
+}
+
 /// Compute log binomial coefficient log(C(n, k)) using log-gamma functions
 ///
 /// This provides high accuracy for all values of n and k by using the identity:
@@ -63,6 +88,11 @@ pub fn log_binomial_coefficient<F: Float>(n: u64, k: u64) -> F {
         return F::neg_infinity();
     }
 
+    // The log-gamma values of large arguments cancel almost completely
+    if n > LARGE_COEFFICIENT {
+        return F::from(log_large_coefficient(k, n - k)).unwrap();
+    }
+
     // Use the more stable log-gamma approach
     if let (Some(n_f64), Some(k_f64)) = (n.to_f64(), k.to_f64()) {
         let log_coeff = {
diff --git a/measures-combinators/src/measures/derived/negative_binomial_coefficient.rs b/measures-combinators/src/measures/derived/negative_binomial_coefficient.rs
index 2e64a53..aecef36 100644
--- a/measures-combinators/src/measures/derived/negative_binomial_coefficient.rs
+++ b/measures-combinators/src/measures/derived/negative_binomial_coefficient.rs
@@ -1,3 +1,4 @@
+use crate::measures::derived::binomial_coefficient::{LARGE_COEFFICIENT, log_large_coefficient};
 use crate::measures::primitive::counting::CountingMeasure;
 use measures_core::{False, HasLogDensity, Measure, MeasureMarker};
 use num_traits::{Float, ToPrimitive};
@@ -58,6 +59,11 @@ impl<F: Float> Measure<u64> for NegativeBinomialCoefficientMeasure<F> {
 #[inline]
 #[must_use]
 pub fn log_negative_binomial_coefficient<F: Float>(r: u64, x: u64) -> F {
+    // The log-gamma values of large arguments cancel almost completely
+    if r > 0 && x.saturating_add(r) > LARGE_COEFFICIENT {
+        return F::from(log_large_coefficient(x, r - 1)).unwrap();
+    }
+
     // Use the log-gamma approach for numerical stability
     if let (Some(r_f64), Some(x_f64)) = (r.to_f64(), x.to_f64()) {
         let log_coeff = {
diff --git a/measures-distributions/src/distributions/continuous/cauchy.rs b/measures-distributions/src/distributions/continuous/cauchy.rs
index 57d5f6e..262a438 100644
--- a/measures-distributions/src/distributions/continuous/cauchy.rs
+++ b/measures-distributions/src/distributions/continuous/cauchy.rs
@@ -141,7 +141,7 @@ fn log_one_plus_square<T: Float>(distance: T, scale: T) -> T {
         let log_standardized = distance.abs().ln() - scale.ln();
         log_standardized + log_standardized
     } else {
-        (T::one() + standardized * standardized).ln()
+        (standardized * standardized).ln_1p()
     }
 }
 
diff --git a/measures-distributions/src/distributions/continuous/student_t.rs b/measures-distributions/src/distributions/continuous/student_t.rs
index 6f7dce1..53b7e9a 100644
--- a/measures-distributions/src/distributions/continuous/student_t.rs
+++ b/measures-distributions/src/distributions/continuous/student_t.rs
@@ -76,11 +76,8 @@ impl<T: Float> StudentT<T> {
         let x_f64 = x.to_f64().unwrap();
 
         // Compute log Γ((ν+1)/2) - log Γ(ν/2) - 0.5*log(νπ)
-        let (log_gamma_half_nu_plus_1, _) = f64::midpoint(nu_f64, 1.0).ln_gamma();
-        let (log_gamma_half_nu, _) = (nu_f64 / 2.0).ln_gamma();
-        let log_normalization = log_gamma_half_nu_plus_1
-            - log_gamma_half_nu
-            - 0.5 * (nu_f64 * std::f64::consts::PI).ln();
+        let log_normalization =
+            log_gamma_half_step(nu_f64) - 0.5 * (nu_f64 * std::f64::consts::PI).ln();
 
         // Compute -(ν+1)/2 * log(1 + x²/ν)
         let log_kernel = -f64::midpoint(nu_f64, 1.0) * log_one_plus_square_over(x_f64, nu_f64);
@@ -100,6 +97,18 @@ impl<T: Float> StudentT<T> {
     }
 }
 
+/// log Γ((ν+1)/2) - log Γ(ν/2); for large ν the two nearly cancel and the asymptotic series is used.
+fn log_gamma_half_step(nu: f64) -> f64 {
+    if nu > 1000.0 {
+        let half = nu / 2.0;
+        let r = half.recip();
+        return 0.5 * half.ln() - r * (0.125 - r * r / 192.0);
+    }
+    let (log_gamma_half_nu_plus_1, _) = f64::midpoint(nu, 1.0).ln_gamma();
+    let (log_gamma_half_nu, _) = (nu / 2.0).ln_gamma();
+    log_gamma_half_nu_plus_1 - log_gamma_half_nu
+}
+
 /// log(1 + x²/ν), finite also where the square itself overflows
 fn log_one_plus_square_over(x: f64, nu: f64) -> f64 {
     let standardized = x.abs() / nu.sqrt();
@@ -107,7 +116,7 @@ fn log_one_plus_square_over(x: f64, nu: f64) -> f64 {
         // Far in the tails the one is lost beside the square
         2.0 * x.abs().ln() - nu.ln()
     } else {
-        (1.0 + x * x / nu).ln()
+        (standardized * standardized).ln_1p()
     }
 }
 
@@ -147,11 +156,8 @@ impl<T: Float + FloatConst + std::fmt::Debug> HasLogDensityDecomposition<T, Stud
             .param_term(
                 |nu: &StudentTParams<T>| {
                     let nu_f64 = nu.to_f64().unwrap();
-                    let (log_gamma_half_nu_plus_1, _) = f64::midpoint(nu_f64, 1.0).ln_gamma();
-                    let (log_gamma_half_nu, _) = (nu_f64 / 2.0).ln_gamma();
-                    let log_normalization = log_gamma_half_nu_plus_1
-                        - log_gamma_half_nu
-                        - 0.5 * (nu_f64 * std::f64::consts::PI).ln();
+                    let log_normalization =
+                        log_gamma_half_step(nu_f64) - 0.5 * (nu_f64 * std::f64::consts::PI).ln();
                     T::from(log_normalization).unwrap()
                 },
                 "log normalization constant",
-- 
2.43.0


From d4a48f4f4a3c3fd5904cbed02b83ca41eedff300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:34 +0000
Subject: [PATCH 38/40] fix: the optimiser keeps variable names with
 backslashes and quotes

---
 symbolic-math/src/optimization.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 5c65baf..5093c73 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -205,7 +205,10 @@ impl EgglogOptimizer {
     fn expr_to_egglog(expr: &Expr) -> Result<String, egglog::Error> {
         match expr {
             Expr::Const(c) => Ok(format!("(Const {c:?})")),
-            Expr::Var(name) => Ok(format!("(Var \"{name}\")")),
+            Expr::Var(name) => {
+                let escaped = name.replace('\\', "\\\\").replace('"', "\\\"");
+                Ok(format!("(Var \"{escaped}\")"))
+            }
             Expr::Add(left, right) => {
                 let left_str = Self::expr_to_egglog(left)?;
                 let right_str = Self::expr_to_egglog(right)?;
-- 
2.43.0


From c08d44aebf839160d2bc332521bb02bcfccd99d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:17 +0000
Subject: [PATCH 39/40] fix: the statically inlined normal log-density holds
 for very small and very large scales

---
 .../src/exponential_family/jit.rs                        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/measures-exponential-family/src/exponential_family/jit.rs b/measures-exponential-family/src/exponential_family/jit.rs
index a19ec8a..aecb1b8 100644
--- a/measures-exponential-family/src/exponential_family/jit.rs
+++ b/measures-exponential-family/src/exponential_family/jit.rs
@@ -228,13 +228,12 @@ impl StaticInlineJITCompiler {
         mu: f64,
         sigma: f64,
     ) -> StaticInlineJITFunction<impl Fn(f64) -> f64 + Send + Sync> {
-        let sigma_sq = sigma * sigma;
-        let two_sigma_sq = 2.0 * sigma_sq;
-        let log_norm = -0.5 * (2.0 * std::f64::consts::PI * sigma_sq).ln();
+        // The variance of a very small or very large σ is not representable
+        let log_norm = -0.5 * (2.0 * std::f64::consts::PI).ln() - sigma.ln();
 
         let computation = move |x: f64| -> f64 {
-            let diff = x - mu;
-            log_norm - (diff * diff) / two_sigma_sq
+            let z = (x - mu) / sigma;
+            log_norm - 0.5 * z * z
         };
 
         let stats = CompilationStats {
-- 
2.43.0


From 907cfcec04d08f12256094f2c069405edfcfb53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:54 +0000
Subject: [PATCH 40/40] fix: evaluate linear expressions whose collected
 coefficients overflow

extract_linear_coefficients adds up the coefficients of all terms; for
1e308*x + 1e308*x the sum is infinite and evaluate_linear (and through it
evaluate_smart) answered inf at x = 0.1, where the value is 2e307.
---
 symbolic-math/src/expr.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 58a47bb..320878f 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -418,11 +418,11 @@ impl Expr {
     /// Ultra-fast evaluation for linear expressions
     #[must_use]
     pub fn evaluate_linear(&self, var_name: &str, value: f64) -> Option<f64> {
-        if let Some((a, b)) = self.extract_linear_coefficients(var_name) {
-            Some(a * value + b)
-        } else {
-            None
-        }
+        let (a, b) = self.extract_linear_coefficients(var_name)?;
+        let result = a * value + b;
+        // The collected coefficients can overflow where the terms themselves do not
+        // (1e308*x + 1e308*x at x = 0.1); such expressions are left to the other methods.
+        result.is_finite().then_some(result)
     }
 
     /// Smart evaluation that chooses the fastest method based on expression structure
-- 
2.43.0

