From b361635a2cddf5d3febe75f16af480580b45cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 01/13] fix: keep the ADMM augmentation out of the Fisher
 information

With an L1 or elastic net penalty the Fisher information (and everything derived
from it: covariance, Wald and score tests, hat matrix, Cook's distances) included
the solver's ADMM rho on the whole diagonal, even on the unpenalized intercept.
---
 src/fit.rs            |  2 +-
 src/regularization.rs | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index c03d6d8..4dbe5fa 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -330,7 +330,7 @@ where
     /// coefficients. The regularization is included here.
     fn fisher_std(&self, params: &Array1<F>) -> Array2<F> {
         let fisher = self.fisher_data_std(params);
-        self.reg.as_ref().irls_mat(fisher, params)
+        self.reg.as_ref().fisher(fisher, params)
     }
 
     /// The inverse of the (regularized) fisher information matrix, in the internal standardized
diff --git a/src/regularization.rs b/src/regularization.rs
index f9b7ba3..199c719 100644
--- a/src/regularization.rs
+++ b/src/regularization.rs
@@ -38,6 +38,13 @@ where
     /// typically only on the diagonal.
     fn irls_mat(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F>;
 
+    /// Defines the effect of the penalty on the Fisher information: subtracts the Hessian of the
+    /// (un-augmented) penalty. Unlike `irls_mat()` this must not include terms that are internal
+    /// to the solver, such as the ADMM augmentation.
+    fn fisher(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F> {
+        self.irls_mat(mat, regressors)
+    }
+
     /// Return the next guess under regularization given the current guess and the RHS and LHS of
     /// the unregularized IRLS matrix solution equation for the next guess.
     fn next_guess(
@@ -218,6 +225,11 @@ impl<F: Float> IrlsReg<F> for Lasso<F> {
         mat
     }
 
+    /// The L1 penalty has no curvature, and the ADMM augmentation is not part of the likelihood.
+    fn fisher(&self, mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
@@ -333,6 +345,13 @@ impl<F: Float> IrlsReg<F> for ElasticNet<F> {
         mat
     }
 
+    /// Only the L2 penalty has curvature; the ADMM augmentation is not part of the likelihood.
+    fn fisher(&self, mut mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        let mut mat_diag: ArrayViewMut1<F> = mat.diag_mut();
+        mat_diag += &self.l2_vec;
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
-- 
2.43.0


From fcca4fde08885eb1f915ab15ad41c77744fe8294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 02/13] fix: reject weights that do not have one entry per
 observation

Frequency or variance weights with a single entry were silently broadcast to all
observations, and other mismatched lengths panicked inside of ndarray.
---
 src/model.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/model.rs b/src/model.rs
index ffb561f..e29db8c 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -203,6 +203,23 @@ where
             ));
         }
 
+        // The weights must also have one entry per observation. In particular arrays with a single
+        // entry would otherwise be broadcast silently.
+        if let Some(freqs) = &self.freq_weights
+            && n_data != freqs.len()
+        {
+            return Err(RegressionError::BadInput(
+                "Frequency weights must have same dimension as observations".to_string(),
+            ));
+        }
+        if let Some(weights) = &self.var_weights
+            && n_data != weights.len()
+        {
+            return Err(RegressionError::BadInput(
+                "Variance weights must have same dimension as observations".to_string(),
+            ));
+        }
+
         // Check if the data is under-constrained
         if n_data < self.data_x.ncols() {
             // The regression can find a solution if n_data == ncols, but there will be
-- 
2.43.0


From 183e07f60d519494629e4dbe23aa558c2bee5ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 03/13] fix: reject NaN and infinite responses of the positive
 families

The check against zero let NaN (and infinity) through, giving NaN fits instead of
an invalid response error.
---
 src/response/exponential.rs      | 6 ++++--
 src/response/gamma.rs            | 6 ++++--
 src/response/inverse_gaussian.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index 2d6f572..baf8fe3 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -30,7 +30,8 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        // This also rejects NaN and infinity
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -41,7 +42,8 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        // This also rejects NaN and infinity
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index bdcbec8..8399855 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -29,7 +29,8 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        // This also rejects NaN and infinity
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -40,7 +41,8 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        // This also rejects NaN and infinity
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/inverse_gaussian.rs b/src/response/inverse_gaussian.rs
index 2c26cbd..c930a97 100644
--- a/src/response/inverse_gaussian.rs
+++ b/src/response/inverse_gaussian.rs
@@ -24,7 +24,8 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        // This also rejects NaN and infinity
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -35,7 +36,8 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        // This also rejects NaN and infinity
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
-- 
2.43.0


From 9e6c083dff841aa9a6bfa1ccf4031d1c0ef2fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 04/13] fix: do not panic when the weights leave a single
 effective observation

The standardization asserted n_eff > 1, which fails e.g. for frequencies [1, 0, 0].
Treat this like the single-row case, where the columns are not scaled.
---
 src/data.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 82f7c0c..d6c12d4 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -319,10 +319,11 @@ where
             x_w.sum_axis(Axis(0)) / sum_weights
         };
 
-        let vars: Array1<F> = if n <= 1 {
+        // The sample variance is undefined if there is effectively only a single observation, which
+        // can also be the result of weights that are zero.
+        let vars: Array1<F> = if n <= 1 || n_eff <= F::one() {
             Array1::<F>::ones(p)
         } else {
-            assert!(n_eff > F::one());
             let dx = x - means.clone();
             let dx2: Array2<F> = dx.mapv_into(|d| d * d);
             let dx2_w = weights * dx2;
-- 
2.43.0


From 8d3215d52601a92bc33832917c2bc7bc6e09bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 05/13] fix: drop-one models of fits without an intercept do
 not have one either

The reduced model was marked as having an intercept, so that its first covariate
was left out of the penalty and treated as the constant in its null model.
---
 src/fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 4dbe5fa..510b876 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1021,7 +1021,7 @@ where
             linear_offset: self.data.linear_offset.clone(),
             weights: self.data.weights.clone(),
             freqs: self.data.freqs.clone(),
-            has_intercept: !is_intercept,
+            has_intercept: self.data.has_intercept && !is_intercept,
             // It shouldn't be necessary to standardize again. Each individual column should
             // already be standardized, if the full dataset was.
             standardizer: None,
-- 
2.43.0


From 78866835ddfcf6dbcd07f8e2b25078ed5d4d87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 06/13] fix: exact p-values of models with a single parameter

Dropping the only parameter leaves an empty design matrix, for which the solver
returned a LAPACK error. The deviance is directly known in this case.
---
 src/fit.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fit.rs b/src/fit.rs
index 510b876..1b04411 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1026,6 +1026,13 @@ where
             // already be standardized, if the full dataset was.
             standardizer: None,
         };
+        if data_reduced.x.ncols() == 0 {
+            // No parameters are left to fit, so the predictor consists only of the offsets.
+            let ll_terms: Array1<F> = M::log_like_terms(&data_reduced, &Array1::zeros(0));
+            let ll_sat: Array1<F> = data_reduced.y.mapv(M::log_like_sat);
+            let terms = data_reduced.apply_var_weights((ll_sat - ll_terms) * F::two());
+            return Ok(data_reduced.freq_sum(&terms));
+        }
         let model_reduced = Model {
             model: PhantomData::<M>,
             data: data_reduced,
-- 
2.43.0


From 67fe8bfcafff3486a8bdd3f82ff4b01dcfa5766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 07/13] fix: undefined p-values are NaN instead of a panic

Without residual degrees of freedom, or for an undefined statistic (e.g. all
responses zero), pvalue_wald() and pvalue_exact() panicked inside of statrs.
---
 src/fit.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 1b04411..6a1fc58 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1109,8 +1109,14 @@ where
             DispersionType::FreeDispersion => {
                 use statrs::distribution::StudentsT;
                 let df = self.ndf().to_f64().unwrap();
-                let t_dist = StudentsT::new(0.0, 1.0, df).unwrap();
+                // The distribution is undefined without any degrees of freedom.
+                let Ok(t_dist) = StudentsT::new(0.0, 1.0, df) else {
+                    return Ok(Array1::from_elem(z.len(), F::nan()));
+                };
                 z.mapv(|zi| {
+                    if zi.is_nan() {
+                        return F::nan();
+                    }
                     let abs_z = num_traits::Float::abs(zi).to_f64().unwrap();
                     F::from(2.0 * t_dist.sf(abs_z)).unwrap()
                 })
@@ -1149,8 +1155,11 @@ where
                 DispersionType::FreeDispersion => {
                     use statrs::distribution::FisherSnedecor;
                     let f_stat = delta_d / phi_full;
-                    let f_dist = FisherSnedecor::new(1.0, ndf_f64).unwrap();
-                    f_dist.sf(f_stat.to_f64().unwrap())
+                    match FisherSnedecor::new(1.0, ndf_f64) {
+                        Ok(f_dist) if !f_stat.is_nan() => f_dist.sf(f_stat.to_f64().unwrap()),
+                        // The statistic or its distribution is undefined.
+                        _ => f64::NAN,
+                    }
                 }
             };
             pvals[k] = F::from(p).unwrap();
-- 
2.43.0


From 5410d98d4555c1823f21ceddd723851207f8e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:34 +0000
Subject: [PATCH 08/13] fix: cloglog natural parameter overflowed for moderate
 linear predictors

exp(exp(x)) overflows already for x > 6.56, which made the likelihood NaN for
observations with y = 1 there, so that the fit stopped at a wrong result.
---
 src/response/logistic.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/response/logistic.rs b/src/response/logistic.rs
index d96904d..c0c75ed 100644
--- a/src/response/logistic.rs
+++ b/src/response/logistic.rs
@@ -145,7 +145,15 @@ pub mod link {
     }
     impl Transform for Cloglog {
         fn nat_param<F: Float>(lin_pred: Array1<F>) -> Array1<F> {
-            lin_pred.mapv(|x| num_traits::Float::ln(num_traits::Float::exp(x).exp_m1()))
+            lin_pred.mapv(|x| {
+                let lambda = num_traits::Float::exp(x);
+                if lambda > F::one() {
+                    // Factor out the exponential, which overflows already for moderate predictors.
+                    lambda + F::ln_1p(-num_traits::Float::exp(-lambda))
+                } else {
+                    num_traits::Float::ln(lambda.exp_m1())
+                }
+            })
         }
         fn d_nat_param<F: Float>(lin_pred: &Array1<F>) -> Array1<F> {
             let neg_exp_lin = -lin_pred.mapv(num_traits::Float::exp);
-- 
2.43.0


From cb2a7cceb7342999a591763b55c5db17cf2136b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 09/13] fix: overflow of the binomial and logistic
 log-partition function

For natural parameters above 709 the log-partition function was infinite, so
that the likelihood of responses at their maximum was -inf instead of about zero.
---
 src/response/binomial.rs | 5 ++++-
 src/response/logistic.rs | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index c73f9cc..22babfa 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -46,7 +46,10 @@ impl<const N: BinDom> Glm for Binomial<N> {
     /// that for logistic regression, but it is adjusted for the maximum value.
     fn log_partition<F: Float>(nat_par: F) -> F {
         let n: F = F::from(N).unwrap();
-        n * num_traits::Float::exp(nat_par).ln_1p()
+        // Factor out the exponential of positive parameters to avoid overflow.
+        let abs_par = num_traits::Float::abs(nat_par);
+        n * (num_traits::Float::max(nat_par, F::zero())
+            + num_traits::Float::exp(-abs_par).ln_1p())
     }
 
     fn variance<F: Float>(mean: F) -> F {
diff --git a/src/response/logistic.rs b/src/response/logistic.rs
index c0c75ed..a99dfe5 100644
--- a/src/response/logistic.rs
+++ b/src/response/logistic.rs
@@ -82,7 +82,9 @@ where
     /// The log of the partition function for logistic regression. The natural
     /// parameter is the logit of p.
     fn log_partition<F: Float>(nat_par: F) -> F {
-        num_traits::Float::exp(nat_par).ln_1p()
+        // Factor out the exponential of positive parameters to avoid overflow.
+        let abs_par = num_traits::Float::abs(nat_par);
+        num_traits::Float::max(nat_par, F::zero()) + num_traits::Float::exp(-abs_par).ln_1p()
     }
 
     /// var = mu*(1-mu)
-- 
2.43.0


From 15dd624b1b636f6851319f4316d48024bb28f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 10/13] fix: reject binomial responses above the number of
 trials

Such responses are outside of the support, and gave a NaN deviance.
---
 src/response/binomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index 22babfa..83f5fc8 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -21,6 +21,10 @@ pub struct Binomial<const N: BinDom>;
 
 impl<const N: BinDom> Yval<Binomial<N>> for BinDom {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
+        // The number of successes cannot exceed the number of trials.
+        if self > N {
+            return Err(RegressionError::InvalidY(self.to_string()));
+        }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
-- 
2.43.0


From f9ea1c85ae0775b9f8645e477d351975e2f8b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:04 +0000
Subject: [PATCH 11/13] fix: exclude the penalty from the coefficient of
 determination

---
 src/fit.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 6a1fc58..803b0a7 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -971,8 +971,10 @@ where
     // NOTE: that this implementation would be valid as a pseudo-$`R^2`$ for all GLMs, but it's
     // mostly expected in the OLS context and probably wouldn't add much.
     pub fn r_sq(&self) -> F {
-        let lr = self.lr_test();
-        lr / (lr + self.deviance())
+        // The deviance reduction must not include any penalty, which lr_test() would.
+        let like_data = <Linear as Glm>::log_like(self.data, &self.result_std);
+        let dev_diff = F::two() * (like_data - self.null_like());
+        dev_diff / (dev_diff + self.deviance())
     }
 
     /// Returns the weighted residual sum of squares (RSS):
-- 
2.43.0


From 789ba18209147c5a7f1e6f1bff83fd7a1953e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:22 +0000
Subject: [PATCH 12/13] fix: complementary log-log link where the rate
 underflows

---
 src/response/logistic.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/response/logistic.rs b/src/response/logistic.rs
index a99dfe5..9821bf8 100644
--- a/src/response/logistic.rs
+++ b/src/response/logistic.rs
@@ -152,14 +152,24 @@ pub mod link {
                 if lambda > F::one() {
                     // Factor out the exponential, which overflows already for moderate predictors.
                     lambda + F::ln_1p(-num_traits::Float::exp(-lambda))
+                } else if lambda < F::epsilon() {
+                    // log(exp(lambda) - 1) -> log(lambda), where lambda itself may underflow.
+                    x
                 } else {
                     num_traits::Float::ln(lambda.exp_m1())
                 }
             })
         }
         fn d_nat_param<F: Float>(lin_pred: &Array1<F>) -> Array1<F> {
-            let neg_exp_lin = -lin_pred.mapv(num_traits::Float::exp);
-            &neg_exp_lin / &neg_exp_lin.mapv(F::exp_m1)
+            lin_pred.mapv(|x| {
+                let lambda = num_traits::Float::exp(x);
+                if lambda < F::epsilon() {
+                    // The limit for vanishing lambda, where the ratio becomes 0/0.
+                    F::one()
+                } else {
+                    -lambda / F::exp_m1(-lambda)
+                }
+            })
         }
     }
 }
-- 
2.43.0


From 03244656fdcb1e39b7db0e9a2645a6c0b953c591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:20 +0000
Subject: [PATCH 13/13] fix: reject NaN and infinite responses of linear models

---
 src/response/linear.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response/linear.rs b/src/response/linear.rs
index bf8ca2c..a63b185 100644
--- a/src/response/linear.rs
+++ b/src/response/linear.rs
@@ -29,6 +29,9 @@ where
     L: Link<Linear<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
+        if !num_traits::Float::is_finite(self) {
+            return Err(RegressionError::InvalidY(self.to_string()));
+        }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
-- 
2.43.0

