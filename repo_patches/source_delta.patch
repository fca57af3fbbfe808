From 73c2afd24db98127efc24674b69f0b086ea07f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 01/13] fix: SVM training evaluates the margin of the drawn
 point with the current coefficients (Pegasos)

---
 src/learning/svm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/learning/svm.rs b/src/learning/svm.rs
index 0ff3f07..69cf589 100644
--- a/src/learning/svm.rs
+++ b/src/learning/svm.rs
@@ -155,8 +155,10 @@ impl<K: Kernel> SupModel<Matrix<f64>, Vector<f64>> for SVM<K> {
             let i = rng.gen_range(0, n);
             let row_i = full_inputs.select_rows(&[i]);
             let sum = full_inputs.row_iter()
-                .fold(0f64, |sum, row| sum + self.ker.kernel(row_i.data(), row.raw_slice())) *
-                      targets[i] / (self.lambda * (t as f64));
+                .zip(alpha.iter().zip(targets.iter()))
+                .fold(0f64, |sum, (row, (a, y))| {
+                    sum + a * y * self.ker.kernel(row_i.data(), row.raw_slice())
+                }) * targets[i] / (self.lambda * ((t + 1) as f64));
 
             if sum < 1f64 {
                 alpha[i] += 1f64;
-- 
2.43.0


From feea1f427a49b0845222dc853f200708482ee66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 02/13] fix: k-means keeps the centroid of a class without
 points

---
 src/learning/k_means.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 398aae6..c70a7d6 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -218,9 +218,12 @@ impl<InitAlg: Initializer> KMeansClassifier<InitAlg> {
             row_indexes.get_mut(c as usize).map(|v| v.push(i));
         }
 
-        for vec_i in row_indexes {
-            let mat_i = inputs.select_rows(&vec_i);
-            new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+        for (i, vec_i) in row_indexes.into_iter().enumerate() {
+            match self.centroids {
+                // A class without points keeps its centroid.
+                Some(ref c) if vec_i.is_empty() => new_centroids.extend_from_slice(c.row(i).raw_slice()),
+                _ => new_centroids.extend(inputs.select_rows(&vec_i).mean(Axes::Row).into_vec()),
+            }
         }
 
         self.centroids = Some(Matrix::new(self.k, inputs.cols(), new_centroids));
-- 
2.43.0


From dce14698a6baa132be3bfa9a3fb9d32d5826d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 03/13] fix: k-means++ reports more clusters than unique points
 as an error

---
 src/learning/k_means.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index c70a7d6..df372c0 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -352,6 +352,11 @@ impl Initializer for KPlusPlus {
                                            initialization."));
                 }
 
+                if dist.data().iter().all(|&x| x == 0f64) {
+                    return Err(Error::new(ErrorKind::InvalidData,
+                                          "There are more clusters than unique data points."));
+                }
+
                 let next_cen = sample_discretely(&dist);
                 init_centroids.extend_from_slice(inputs.row_unchecked(next_cen).raw_slice());
             }
-- 
2.43.0


From 5ff74a9a9d18c8d7b2be2b63814cfc04a5f70f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 04/13] fix: naive Bayes changes the model only when training
 succeeds

---
 src/learning/naive_bayes.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index a36a712..c816dba 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -107,8 +107,8 @@ impl<T: Distribution> NaiveBayes<T> {
 impl<T: Distribution> SupModel<Matrix<f64>, Matrix<f64>> for NaiveBayes<T> {
     /// Train the model using inputs and targets.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
-        self.distr = Some(T::from_model_params(targets.cols(), inputs.cols()));
-        self.update_params(inputs, targets)
+        let distr = T::from_model_params(targets.cols(), inputs.cols());
+        self.update_params(distr, inputs, targets)
     }
 
     /// Predict output from inputs.
@@ -145,11 +145,15 @@ impl<T: Distribution> NaiveBayes<T> {
         }
     }
 
-    fn update_params(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
+    fn update_params(&mut self,
+                     mut distr: T,
+                     inputs: &Matrix<f64>,
+                     targets: &Matrix<f64>)
+                     -> LearningResult<()> {
         let class_count = targets.cols();
         let total_data = inputs.rows();
 
-        self.class_counts = vec![0; class_count];
+        let mut class_counts = vec![0; class_count];
         let mut class_data = vec![Vec::new(); class_count];
 
         for (idx, row) in targets.row_iter().enumerate() {
@@ -158,27 +162,28 @@ impl<T: Distribution> NaiveBayes<T> {
 
             // Note the class of the input
             class_data[class].push(idx);
-            self.class_counts[class] += 1;
+            class_counts[class] += 1;
         }
 
-        if let Some(ref mut distr) = self.distr {
-            for (idx, c) in class_data.into_iter().enumerate() {
-                // If this class' vector has not been populated, we can safely
-                // skip this iteration, since the user is clearly not interested
-                // in associating features with this class
-                if c.is_empty() {
-                    continue;
-                }
-                // Update the parameters within this class
-                distr.update_params(&inputs.select_rows(&c), idx)?;
+        for (idx, c) in class_data.into_iter().enumerate() {
+            // If this class' vector has not been populated, we can safely
+            // skip this iteration, since the user is clearly not interested
+            // in associating features with this class
+            if c.is_empty() {
+                continue;
             }
+            // Update the parameters within this class
+            distr.update_params(&inputs.select_rows(&c), idx)?;
         }
 
         let mut class_prior = Vec::with_capacity(class_count);
 
         // Compute the prior as the proportion in each class
-        class_prior.extend(self.class_counts.iter().map(|c| *c as f64 / total_data as f64));
+        class_prior.extend(class_counts.iter().map(|c| *c as f64 / total_data as f64));
 
+        // Nothing can fail from here on: only now the model changes
+        self.distr = Some(distr);
+        self.class_counts = class_counts;
         self.class_prior = Some(class_prior);
         self.cluster_count = Some(class_count);
         Ok(())
-- 
2.43.0


From cf4a26f42cc83d314c41915fc55b56c2ae473811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 05/13] fix: naive Bayes never predicts a class without
 training data

---
 src/learning/naive_bayes.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index c816dba..bee048b 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -45,6 +45,7 @@ use learning::{LearningResult, SupModel};
 use learning::error::{Error, ErrorKind};
 use rulinalg::utils;
 
+use std::f64::NEG_INFINITY;
 use std::f64::consts::PI;
 
 /// The Naive Bayes model.
@@ -139,7 +140,18 @@ impl<T: Distribution> NaiveBayes<T> {
 
         if let (&Some(ref distr), &Some(ref prior)) = (&self.distr, &self.class_prior) {
             // Get the joint log likelihood from the distribution
-            distr.joint_log_lik(inputs, prior)
+            let mut log_probs = distr.joint_log_lik(inputs, prior)?;
+
+            // A class which was not seen in training has probability zero
+            for mut row in log_probs.row_iter_mut() {
+                for (lp, p) in row.iter_mut().zip(prior) {
+                    if *p == 0f64 {
+                        *lp = NEG_INFINITY;
+                    }
+                }
+            }
+
+            Ok(log_probs)
         } else {
             Err(Error::new_untrained())
         }
-- 
2.43.0


From 17eaad2a7778ae2ef416494fb273b4d418c9ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 06/13] fix: PCA on wide data keeps the first components, not
 the first features

---
 src/learning/pca.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 743b9b7..d031fad 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -27,6 +27,8 @@
 use linalg::{Matrix, BaseMatrix, Axes};
 use linalg::Vector;
 
+use std::cmp::min;
+
 use learning::{LearningResult, UnSupModel};
 use learning::error::{Error, ErrorKind};
 
@@ -182,18 +184,18 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             inputs.clone()
         };
         let (_, _, mut v) = data.svd().unwrap();
+
+        if let Some(c) = self.n {
+            // there are no more components than rows
+            let slicer: Vec<usize> = (0..min(c, v.cols())).collect();
+            v = v.select_cols(&slicer);
+        }
         if inputs.cols() > inputs.rows() {
             v = v.transpose();
             self.inv = true;
         }
 
-        self.components = match self.n {
-            Some(c) => {
-                let slicer: Vec<usize> = (0..c).collect();
-                Some(v.select_cols(&slicer))
-            },
-            None => Some(v)
-        };
+        self.components = Some(v);
         self.n_features = Some(inputs.cols());
         Ok(())
     }
-- 
2.43.0


From 8472892f5aa33a272ed2105c82e9657968879170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 07/13] fix: retraining a PCA forgets the shape of the earlier
 data

---
 src/learning/pca.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index d031fad..ed216df 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -190,11 +190,12 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             let slicer: Vec<usize> = (0..min(c, v.cols())).collect();
             v = v.select_cols(&slicer);
         }
-        if inputs.cols() > inputs.rows() {
+        let inv = inputs.cols() > inputs.rows();
+        if inv {
             v = v.transpose();
-            self.inv = true;
         }
 
+        self.inv = inv;
         self.components = Some(v);
         self.n_features = Some(inputs.cols());
         Ok(())
-- 
2.43.0


From 788c302423255c7d387043ba0c286b4a634a94e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 08/13] fix: PCA reports a failing decomposition and keeps the
 earlier model then

---
 src/learning/pca.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index ed216df..a0a78e0 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -175,15 +175,14 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             }
         }
 
-        let data = if self.center == true {
+        let (data, centers) = if self.center == true {
             let centers = inputs.mean(Axes::Row);
             let m = unsafe { centering(inputs, &centers) };
-            self.centers = Some(centers);
-            m
+            (m, Some(centers))
         } else {
-            inputs.clone()
+            (inputs.clone(), None)
         };
-        let (_, _, mut v) = data.svd().unwrap();
+        let (_, _, mut v) = data.svd()?;
 
         if let Some(c) = self.n {
             // there are no more components than rows
@@ -196,6 +195,7 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
         }
 
         self.inv = inv;
+        self.centers = centers;
         self.components = Some(v);
         self.n_features = Some(inputs.cols());
         Ok(())
-- 
2.43.0


From dcd8d69d3bb7b8b61a767835b5f6dc007c2f585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 09/13] fix: a Gaussian mixture reports a singular covariance
 as an error

---
 src/learning/gmm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 4c7e713..d082931 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -261,7 +261,7 @@ impl GaussianMixtureModel {
 
         if let Some(ref covars) = self.model_covars {
             for cov in covars {
-                let lup = PartialPivLu::decompose(cov.clone()).expect("Covariance could not be lup decomposed");
+                let lup = PartialPivLu::decompose(cov.clone())?;
                 let covar_det = lup.det();
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
-- 
2.43.0


From 468c26192af1148583efd2f047d31de6ab5a67f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 10/13] fix: the regularization constant of a Gaussian mixture
 is not divided by the component's weight

---
 src/learning/gmm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index d082931..e96dfa3 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -327,11 +327,13 @@ impl GaussianMixtureModel {
                 cov_mat += self.compute_cov(diff, membership_weights[[i, k]]);
             }
 
+            cov_mat /= sum_weights[k];
+
             if let CovOption::Regularized(eps) = self.cov_option {
                 cov_mat += Matrix::<f64>::identity(cov_mat.cols()) * eps;
             }
 
-            new_covs.push(cov_mat / sum_weights[k]);
+            new_covs.push(cov_mat);
 
         }
 
-- 
2.43.0


From 299260db0d0bf3f390c2468557dc07de8d856156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:13 +0000
Subject: [PATCH 11/13] fix: GLM training reports a singular system as an error

---
 src/learning/glm.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index aa69a7e..607ea79 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -117,10 +117,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
 
             let x_t_w = &x_t * w;
 
-            let new_beta = (&x_t_w * &full_inputs)
-                .inverse()
-                .expect("Could not compute input data inverse.") *
-                           x_t_w * z;
+            let new_beta = (&x_t_w * &full_inputs).inverse()? * x_t_w * z;
             let diff = (beta - &new_beta).apply(&|x| x.abs()).sum();
             beta = new_beta;
 
-- 
2.43.0


From d239654692a99e1680c13e1040e0d7c31dcb090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:13 +0000
Subject: [PATCH 12/13] fix: GLM training takes mean and adjustment from the
 same coefficients

---
 src/learning/glm.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index 607ea79..179517f 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -110,10 +110,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
         // Iterate to convergence
         for _ in 0..8 {
             let w_diag = self.criterion.compute_working_weight(mu.data());
-            let y_bar_data = self.criterion.compute_y_bar(targets.data(), mu.data());
-
             let w = Matrix::from_diag(&w_diag);
-            let y_bar = Vector::new(y_bar_data);
 
             let x_t_w = &x_t * w;
 
@@ -125,10 +122,11 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
                 break;
             }
 
-            // Update z and mu
+            // Update mu and z
             let fitted = &full_inputs * &beta;
-            z = y_bar + &fitted;
-            mu = self.criterion.apply_link_inv(fitted);
+            mu = self.criterion.apply_link_inv(fitted.clone());
+            let y_bar = Vector::new(self.criterion.compute_y_bar(targets.data(), mu.data()));
+            z = y_bar + fitted;
         }
 
         self.parameters = Some(beta);
-- 
2.43.0


From 09d98ece7da879dfe2bc81b6f4399ee505d06965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:13 +0000
Subject: [PATCH 13/13] fix: GLM training starts its working response on the
 scale of the link

---
 src/learning/glm.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index 179517f..78f1d2b 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -100,7 +100,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
 
         // Construct initial estimate for mu
         let mut mu = Vector::new(self.criterion.initialize_mu(targets.data()));
-        let mut z = mu.clone();
+        let mut z = self.criterion.apply_link_func(mu.clone());
         let mut beta: Vector<f64> = Vector::new(vec![0f64; inputs.cols() + 1]);
 
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
@@ -310,14 +310,9 @@ impl Criterion for Bernoulli {
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
         let mut mu_data = Vec::with_capacity(y.len());
 
+        // Start between the target and one half, away from where the link is unbounded
         for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
+            mu_data.push((y_val + 0.5) / 2f64);
         }
 
         mu_data
@@ -379,14 +374,9 @@ impl Criterion for Binomial {
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
         let mut mu_data = Vec::with_capacity(y.len());
 
+        // Start between the target and one half, away from where the link is unbounded
         for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
+            mu_data.push((y_val + 0.5) / 2f64);
         }
 
         mu_data
-- 
2.43.0

