From 2a8447ab04760938fc32efb2dfaf11328b2d1f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 01/20] fix: SE2 exp/log for negative and tiny angles

The small-angle branch was taken for every negative angle, dropping the
coupling of rotation and translation, and its first-order term was missing.
---
 src/variables/se2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 444aa04..e6ce51f 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -91,9 +91,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
@@ -115,9 +115,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
-- 
2.43.0


From 50cff952fceae7ec98154a2bad28e0368b6f018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 02/20] fix: SE2 vee reads the translation of the algebra
 element

---
 src/variables/se2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index e6ce51f..74eaad5 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -180,7 +180,7 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
     }
 
     fn vee(xi: MatrixView<3, 3, T>) -> Vector3<T> {
-        Vector3::new(xi[(1, 0)], xi[(0, 1)], xi[(0, 2)])
+        Vector3::new(xi[(1, 0)], xi[(0, 2)], xi[(1, 2)])
     }
 
     fn apply(&self, v: VectorView2<T>) -> Vector2<T> {
-- 
2.43.0


From 6ca2a43b734f9528f037fc8ee3de3957a453ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 03/20] fix: SE2 adjoint in (theta, x, y) order

It indexed the translation out of bounds (panic) and used another order.
---
 src/variables/se2.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 74eaad5..7481a8d 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -161,9 +161,11 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
 
         let r_mat = self.rot.to_matrix();
 
-        mat.fixed_view_mut::<2, 2>(0, 0).copy_from(&r_mat);
-        mat[(0, 2)] = self.xy[2];
-        mat[(1, 2)] = -self.xy[1];
+        // Tangent order is (theta, x, y)
+        mat[(0, 0)] = T::from(1.0);
+        mat[(1, 0)] = self.xy[1];
+        mat[(2, 0)] = -self.xy[0];
+        mat.fixed_view_mut::<2, 2>(1, 1).copy_from(&r_mat);
 
         mat
     }
-- 
2.43.0


From 4fdd3b49d73bd2548afee606087494e55276bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 04/20] fix: SO3 exp for rotation vectors longer than 2 pi

sin(theta/2) is negative there, the square root never is.
---
 src/variables/so3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index d795c1e..ed5797a 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -125,7 +125,7 @@ impl<T: Numeric> Variable<T> for SO3<T> {
             xyzw.w = (theta * T::from(0.5)).cos();
 
             let omega = xi / theta;
-            let sin_theta_half = (T::from(1.0) - xyzw.w * xyzw.w).sqrt();
+            let sin_theta_half = (theta * T::from(0.5)).sin();
             xyzw.x = omega[0] * sin_theta_half;
             xyzw.y = omega[1] * sin_theta_half;
             xyzw.z = omega[2] * sin_theta_half;
-- 
2.43.0


From 97b429a8e053c57c56e48d3e07690d6f8dba9d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 05/20] fix: SO3 log of quaternions with negative w

Only w was made positive, so the inverse rotation's log was returned.
---
 src/variables/so3.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index ed5797a..30b6d23 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -135,9 +135,14 @@ impl<T: Numeric> Variable<T> for SO3<T> {
     }
 
     fn log(&self) -> VectorX<T> {
-        let xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
-        // Abs value in case we had a negative quaternion
-        let w = self.xyzw.w.abs();
+        // q and -q are the same rotation, use the one with positive w
+        let xyzw = if self.xyzw.w < T::from(0.0) {
+            -self.xyzw
+        } else {
+            self.xyzw
+        };
+        let xi = vectorx![xyzw.x, xyzw.y, xyzw.z];
+        let w = xyzw.w;
 
         let norm_v = xi.norm();
         if norm_v < T::from(1e-3) {
-- 
2.43.0


From baa79e53a4295303842cd657e46ef35f336f35f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 06/20] fix: NumericalDiff places later variables' columns
 after earlier ones

The column offset was reset for every variable, so with several variables
the columns overwrote each other.
---
 src/linalg/numerical_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/numerical_diff.rs b/src/linalg/numerical_diff.rs
index 19f07eb..fc20c39 100644
--- a/src/linalg/numerical_diff.rs
+++ b/src/linalg/numerical_diff.rs
@@ -55,8 +55,8 @@ macro_rules! numerical_maker {
                 let mut jac: MatrixX = MatrixX::zeros(res.len(), dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
@@ -127,8 +127,8 @@ macro_rules! numerical_variable_maker {
                 let mut jac: MatrixX = MatrixX::zeros(VOut::DIM, dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
-- 
2.43.0


From c4c10af5f8229da86320c13f2d709fa331e6151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 07/20] fix: forward_prop_derivative seeds its dual number

The derivative part was never set, so the result was always zero.
---
 src/linalg/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 3433edd..e90cf83 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -135,7 +135,7 @@ pub fn forward_prop_derivative<F: Fn(DualScalar) -> DualScalar>(
     f: F,
     x: dtype,
 ) -> DiffResult<dtype, dtype> {
-    let xd = x.into();
+    let xd = DualScalar::from_re(x).derivative();
     let r = f(xd);
     DiffResult {
         value: r.re,
-- 
2.43.0


From 888ed99d80f14ec8f6e70af2fddef8cd5275252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 08/20] fix: linear solvers redo the symbolic factorization for
 a new pattern

The first system's symbolic factorization was reused for every later one,
so a solver (or an optimizer owning one) gave wrong answers or panicked on a
system with another size or sparsity.
---
 src/linear/solvers.rs | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/linear/solvers.rs b/src/linear/solvers.rs
index f09e6dc..2914dbe 100644
--- a/src/linear/solvers.rs
+++ b/src/linear/solvers.rs
@@ -2,7 +2,7 @@ use std::ops::Mul;
 
 use faer::{
     prelude::SpSolver,
-    sparse::{linalg::solvers, SparseColMatRef},
+    sparse::{linalg::solvers, SparseColMatRef, SymbolicSparseColMat, SymbolicSparseColMatRef},
     Mat, MatRef,
 };
 
@@ -24,12 +24,25 @@ pub trait LinearSolver: Default {
     fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype>;
 }
 
+// Whether a cached symbolic factorization of the pattern cached still applies
+fn is_same_pattern(
+    cached: &SymbolicSparseColMat<usize>,
+    curr: SymbolicSparseColMatRef<usize>,
+) -> bool {
+    cached.shape() == curr.shape()
+        && cached.col_ptrs() == curr.col_ptrs()
+        && cached.nnz_per_col() == curr.nnz_per_col()
+        && cached.row_indices() == curr.row_indices()
+}
+
 // ------------------------- Cholesky Linear Solver ------------------------- //
 
 /// Cholesky linear solver
 #[derive(Default)]
 pub struct CholeskySolver {
     sparsity_pattern: Option<solvers::SymbolicCholesky<usize>>,
+    // Pattern that sparsity_pattern was computed from
+    cached: Option<SymbolicSparseColMat<usize>>,
 }
 
 impl LinearSolver for CholeskySolver {
@@ -38,7 +51,12 @@ impl LinearSolver for CholeskySolver {
         a: SparseColMatRef<usize, dtype>,
         b: MatRef<dtype>,
     ) -> Mat<dtype> {
-        if self.sparsity_pattern.is_none() {
+        if !self
+            .cached
+            .as_ref()
+            .is_some_and(|c| is_same_pattern(c, a.symbolic()))
+        {
+            self.cached = Some(a.symbolic().to_owned().expect("Failed to copy pattern"));
             self.sparsity_pattern = Some(
                 solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Lower)
                     .expect("Symbolic cholesky failed"),
@@ -75,6 +93,8 @@ impl LinearSolver for CholeskySolver {
 #[derive(Default)]
 pub struct QRSolver {
     sparsity_pattern: Option<solvers::SymbolicQr<usize>>,
+    // Pattern that sparsity_pattern was computed from
+    cached: Option<SymbolicSparseColMat<usize>>,
 }
 
 impl LinearSolver for QRSolver {
@@ -87,7 +107,12 @@ impl LinearSolver for QRSolver {
     }
 
     fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
-        if self.sparsity_pattern.is_none() {
+        if !self
+            .cached
+            .as_ref()
+            .is_some_and(|c| is_same_pattern(c, a.symbolic()))
+        {
+            self.cached = Some(a.symbolic().to_owned().expect("Failed to copy pattern"));
             self.sparsity_pattern =
                 Some(solvers::SymbolicQr::try_new(a.symbolic()).expect("Symbolic QR failed"));
         }
@@ -111,6 +136,8 @@ impl LinearSolver for QRSolver {
 #[derive(Default)]
 pub struct LUSolver {
     sparsity_pattern: Option<solvers::SymbolicLu<usize>>,
+    // Pattern that sparsity_pattern was computed from
+    cached: Option<SymbolicSparseColMat<usize>>,
 }
 
 impl LinearSolver for LUSolver {
@@ -119,7 +146,12 @@ impl LinearSolver for LUSolver {
         a: SparseColMatRef<usize, dtype>,
         b: MatRef<dtype>,
     ) -> Mat<dtype> {
-        if self.sparsity_pattern.is_none() {
+        if !self
+            .cached
+            .as_ref()
+            .is_some_and(|c| is_same_pattern(c, a.symbolic()))
+        {
+            self.cached = Some(a.symbolic().to_owned().expect("Failed to copy pattern"));
             self.sparsity_pattern =
                 Some(solvers::SymbolicLu::try_new(a.symbolic()).expect("Symbolic LU failed"));
         }
-- 
2.43.0


From 84ba5df440ad0bd94130936059e06d4c273e0247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 09/20] fix: load_g20 permutes the SE2 information to (theta,
 x, y)

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2317677..f0ad8dc 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,7 +61,8 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m22 = parts[9].parse::<dtype>().expect("Failed to parse g20");
                 let m23 = parts[10].parse::<dtype>().expect("Failed to parse g20");
                 let m33 = parts[11].parse::<dtype>().expect("Failed to parse g20");
-                let inf = Matrix3::new(m11, m12, m13, m12, m22, m23, m13, m23, m33);
+                // g2o orders (x, y, theta), our tangent is (theta, x, y)
+                let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);
 
                 let key1 = X(id_prev);
                 let key2 = X(id_curr);
-- 
2.43.0


From d463879bf4f41e5f0479812d9a1ef45e42b1a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 10/20] fix: load_g20 SE3 information cross terms were
 transposed

---
 src/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index f0ad8dc..cb1523c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -132,12 +132,12 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m66 = parts[30].parse::<dtype>().expect("Failed to parse g20");
                 #[rustfmt::skip]
                 let inf = Matrix6::new(
-                    m44, m45, m46, m14, m15, m16,
-                    m45, m55, m56, m24, m25, m26,
-                    m46, m56, m66, m34, m35, m36,
-                    m14, m24, m34, m11, m12, m13,
-                    m15, m25, m35, m12, m22, m23,
-                    m16, m26, m36, m13, m23, m33,
+                    m44, m45, m46, m14, m24, m34,
+                    m45, m55, m56, m15, m25, m35,
+                    m46, m56, m66, m16, m26, m36,
+                    m14, m15, m16, m11, m12, m13,
+                    m24, m25, m26, m12, m22, m23,
+                    m34, m35, m36, m13, m23, m33,
                 );
 
                 let rot = SO3::from_xyzw(qx, qy, qz, qw);
-- 
2.43.0


From d264cbabb9c5c6303074316fb3d7d7db53ce7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 11/20] fix: load_g20 puts the prior on the first vertex

It went to the second one, and a one-vertex file got none.
---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index cb1523c..51c3541 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -40,7 +40,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let factor = fac![PriorResidual::new(var.clone()), key];
                     graph.add_factor(factor);
                 }
@@ -88,7 +88,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let noise =
                         GaussianNoise::<6>::from_diag_covs(1e-6, 1e-6, 1e-6, 1e-4, 1e-4, 1e-4);
                     let factor = fac![PriorResidual::new(var.clone()), key, noise];
-- 
2.43.0


From 4762c2db4be7b75e8a741566c87fe19598904f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 12/20] fix: IMU attitude covariance uses the gyro noise

cov_gyro was never used, the bias random walk was in its place.
---
 src/residuals/imu_preint/residual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/residuals/imu_preint/residual.rs b/src/residuals/imu_preint/residual.rs
index 0c21949..15b2438 100644
--- a/src/residuals/imu_preint/residual.rs
+++ b/src/residuals/imu_preint/residual.rs
@@ -155,7 +155,7 @@ impl ImuPreintegrator {
         // Copy them into place
         let mut B = Matrix::<15, 15>::zeros();
         // First column (wrt theta)
-        let M = H_theta_w * p.cov_gyro_bias * H_theta_w.transpose()
+        let M = H_theta_w * p.cov_gyro * H_theta_w.transpose()
             + H_theta_winit * p.cov_winit * H_theta_winit.transpose();
         B.fixed_view_mut::<3, 3>(0, 0).copy_from(&M);
 
-- 
2.43.0


From 8fbf1196d0ca96d98fded445ad054b0d26e3c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 13/20] fix: DefaultSymbol from Key keeps characters beyond
 Latin-1

---
 src/containers/symbol.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/containers/symbol.rs b/src/containers/symbol.rs
index d34a6dc..dc62a7d 100644
--- a/src/containers/symbol.rs
+++ b/src/containers/symbol.rs
@@ -45,7 +45,8 @@ impl Symbol for DefaultSymbol {}
 
 impl From<Key> for DefaultSymbol {
     fn from(key: Key) -> Self {
-        let chr = ((key.0 & CHR_MASK) >> IDX_BITS) as u8 as char;
+        let chr =
+            char::from_u32(((key.0 & CHR_MASK) >> IDX_BITS) as u32).unwrap_or(char::REPLACEMENT_CHARACTER);
         let idx = key.0 & IDX_MASK;
         Self { chr, idx }
     }
-- 
2.43.0


From a83b4119fb20d9c78456d16237635a4a3f94896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 14/20] fix: fac! takes any expression as the key of a unary
 factor

The documented fac![res, X(0)] was rejected.
---
 factrs-proc/src/fac.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/factrs-proc/src/fac.rs b/factrs-proc/src/fac.rs
index 9b21744..9174f87 100644
--- a/factrs-proc/src/fac.rs
+++ b/factrs-proc/src/fac.rs
@@ -60,17 +60,11 @@ impl Parse for Factor {
             // in parentheses
             Expr::Tuple(t) => t.elems.clone(),
             // a single key for unary factors
-            Expr::Path(_) => {
+            _ => {
                 let mut p = Punctuated::<Expr, Token![,]>::new();
                 p.push(input[1].clone());
                 p
             }
-            _ => {
-                return Err(syn::Error::new_spanned(
-                    &input[1],
-                    "Expected keys in brackets or parentheses",
-                ));
-            }
         };
 
         // Then the noise
-- 
2.43.0


From 791ea6e93316e5cc9fe47262e02db714060801f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:31 +0000
Subject: [PATCH 15/20] fix: LevenMarquardt starts every run from the initial
 lambda

lambda was left over from the previous run of the same optimizer, so a run
after a failed one failed at its first rejection.
---
 src/optimizers/levenberg_marquardt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimizers/levenberg_marquardt.rs b/src/optimizers/levenberg_marquardt.rs
index 43fa6ac..df85139 100644
--- a/src/optimizers/levenberg_marquardt.rs
+++ b/src/optimizers/levenberg_marquardt.rs
@@ -11,6 +11,8 @@ use crate::{
     linear::{CholeskySolver, LinearSolver, LinearValues},
 };
 
+const LAMBDA_INIT: dtype = 1e-5;
+
 pub struct LevenParams {
     pub lambda_min: dtype,
     pub lambda_max: dtype,
@@ -59,7 +61,7 @@ impl<S: LinearSolver> GraphOptimizer for LevenMarquardt<S> {
             params_base: OptParams::default(),
             params_leven: LevenParams::default(),
             observers: OptObserverVec::default(),
-            lambda: 1e-5,
+            lambda: LAMBDA_INIT,
             graph_order: None,
         }
     }
@@ -81,6 +83,8 @@ impl<S: LinearSolver> Optimizer for LevenMarquardt<S> {
     }
 
     fn init(&mut self, _values: &Values) {
+        // Start every run with the same damping
+        self.lambda = LAMBDA_INIT;
         // TODO: Some way to manual specify how to computer ValuesOrder
         // Precompute the sparsity pattern
         self.graph_order = Some(
-- 
2.43.0


From 3d463027f47d3eba65c51aac7b5d3a4de96fe220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:31 +0000
Subject: [PATCH 16/20] fix: LevenMarquardt step no longer loops forever once
 lambda underflowed to zero

---
 src/optimizers/levenberg_marquardt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimizers/levenberg_marquardt.rs b/src/optimizers/levenberg_marquardt.rs
index df85139..fce9650 100644
--- a/src/optimizers/levenberg_marquardt.rs
+++ b/src/optimizers/levenberg_marquardt.rs
@@ -163,7 +163,9 @@ impl<S: LinearSolver> Optimizer for LevenMarquardt<S> {
                 break;
             }
 
-            self.lambda *= self.params_leven.lambda_factor;
+            // Make sure lambda grows even if it has underflowed to zero
+            self.lambda =
+                (self.lambda * self.params_leven.lambda_factor).max(dtype::MIN_POSITIVE);
             if self.lambda > self.params_leven.lambda_max {
                 return Err(OptError::FailedToStep);
             }
-- 
2.43.0


From 71cf87c8a8b82e1eda4b80b0e43da8a8f9e0ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:31 +0000
Subject: [PATCH 17/20] fix: BetweenResidual tags deserialize a BetweenResidual

---
 factrs-proc/src/variable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factrs-proc/src/variable.rs b/factrs-proc/src/variable.rs
index 3b7f5fd..c844f70 100644
--- a/factrs-proc/src/variable.rs
+++ b/factrs-proc/src/variable.rs
@@ -118,7 +118,7 @@ fn tag_all(kind: &TokenStream2, name: &str) -> TokenStream2 {
                 #name_between,
                 (|deserializer| typetag::__private::Result::Ok(
                     typetag::__private::Box::new(
-                        typetag::__private::erased_serde::deserialize::<factrs::residuals::PriorResidual<#kind>>(deserializer)?
+                        typetag::__private::erased_serde::deserialize::<factrs::residuals::BetweenResidual<#kind>>(deserializer)?
                     ),
                 )) as typetag::__private::DeserializeFn<<dyn factrs::residuals::Residual as typetag::__private::Strictest>::Object>,
             )
-- 
2.43.0


From 830bf50c4bd88ce4a4b88b730bb44559cee494db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:15 +0000
Subject: [PATCH 18/20] fix: symbol masks split the key at the index bits, for
 characters of every plane

---
 src/containers/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/containers/symbol.rs b/src/containers/symbol.rs
index dc62a7d..38c559d 100644
--- a/src/containers/symbol.rs
+++ b/src/containers/symbol.rs
@@ -11,7 +11,7 @@ use crate::variables::VariableUmbrella;
 const KEY_BITS: usize = u64::BITS as usize;
 const CHR_BITS: usize = size_of::<char>() * 8;
 const IDX_BITS: usize = KEY_BITS - CHR_BITS;
-const CHR_MASK: u64 = (char::MAX as u64) << IDX_BITS;
+const CHR_MASK: u64 = u64::MAX << IDX_BITS;
 const IDX_MASK: u64 = !CHR_MASK;
 
 // ------------------------- Symbol Parser ------------------------- //
-- 
2.43.0


From 4afd6a857400ef1b01c3daaca622e78aa09ca735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:38 +0000
Subject: [PATCH 19/20] fix: load_g20 accepts any whitespace between the fields
 of a line

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 51c3541..71fdc42 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -28,8 +28,8 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
 
     for line in BufReader::new(file).lines() {
         let line = line.expect("Missing line");
-        let parts = line.split(" ").collect::<Vec<&str>>();
-        match parts[0] {
+        let parts = line.split_whitespace().collect::<Vec<&str>>();
+        match parts.first().copied().unwrap_or("") {
             "VERTEX_SE2" => {
                 let id = parts[1].parse::<u64>().expect("Failed to parse g20");
                 let x = parts[2].parse::<dtype>().expect("Failed to parse g20");
-- 
2.43.0


From e33ee859659c494efdc1b659694210a581002ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:07 +0000
Subject: [PATCH 20/20] fix: optimize accepts the largest max_iterations there
 is

---
 src/optimizers/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimizers/traits.rs b/src/optimizers/traits.rs
index e173a69..e2e3ee1 100644
--- a/src/optimizers/traits.rs
+++ b/src/optimizers/traits.rs
@@ -129,7 +129,7 @@ pub trait Optimizer {
 
         // Begin iterations
         let mut error_new = error_old;
-        for i in 1..self.params().max_iterations + 1 {
+        for i in 1..=self.params().max_iterations {
             error_old = error_new;
             values = self.step(values, i)?;
 
-- 
2.43.0

