From 87a3e2a32c88bf2c694f08d37e977ec7153d7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 01/17] fix: find_idx must not stop at repeated knots other
 than the searched one

A knot repeated anywhere before (LeftOrEqual) or after (RightOrEqual) the
searched parameter ended the search early, so that inserting or splitting
behind a repeated knot produced an unsorted knot vector and another curve.
---
 src/curve/knots/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index d5c4b5e..50e0cbc 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -236,7 +236,8 @@ impl Knots {
 
                 while u >= Uk[i + 1] && i + 1 < lim {
                     i += 1;
-                    if Uk[i + 1] == Uk[i] {
+                    // Stop at the first knot of a repeated knot only if it is the one searched for.
+                    if Uk[i] == u && Uk[i + 1] == Uk[i] {
                         break;
                     }
                 }
@@ -247,7 +248,8 @@ impl Knots {
 
                 while u <= Uk[i - 1] && i > pk {
                     i -= 1;
-                    if Uk[i - 1] == Uk[i] {
+                    // Stop at the last knot of a repeated knot only if it is the one searched for.
+                    if Uk[i] == u && Uk[i - 1] == Uk[i] {
                         break;
                     }
                 }
-- 
2.43.0


From 7114efa5ea281205e8639ce160a740f8c7e0440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 02/17] fix: merging curves with different numbers of segments
 panicked

The control points of the right curve were adjusted with the segment count
of the left one.
---
 src/manipulation/merge.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 43f4c75..f7974ca 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -134,7 +134,7 @@ pub(crate) fn merge_with_constraints(a: &ConstrainedCurve, b: &ConstrainedCurve)
 
     // adjust control points
     let (Sadj, Tadj) =
-        adjust_shifted_control_points_of_both_splines(a.curve, &Sshifted, &Tshifted, &Vadj, &Wrev, &Wadj);
+        adjust_shifted_control_points_of_both_splines(a.curve, b.curve, &Sshifted, &Tshifted, &Vadj, &Wrev, &Wadj);
 
     // do actual merge
     let P_merged = generate_control_point_vector_of_merged_spline(a.curve, b.curve, &Sadj, &Tadj);
@@ -513,6 +513,7 @@ fn adjust_shifted_control_points(
 
 fn adjust_shifted_control_points_of_both_splines(
     a: &Curve,
+    b: &Curve,
     Sshifted: &MatD,
     Tshifted: &MatD,
     Vadj: &VecD,
@@ -520,19 +521,20 @@ fn adjust_shifted_control_points_of_both_splines(
     Wadjrev: &VecD,
 ) -> (MatD, MatD) {
     let p = a.degree();
-    let n = a.segments();
+    let m = a.segments();
+    let o = b.segments();
     let dim = a.dimension();
 
     let V0 = a.knots.vector();
 
     // obtain adjusted, shifted control points of the second spline
-    let Sadj = adjust_shifted_control_points(Sshifted, V0, Vadj, p, n, dim);
+    let Sadj = adjust_shifted_control_points(Sshifted, V0, Vadj, p, m, dim);
 
     // reverse control points of the second spline
     let P2shiftedrev = curve::points::reversed(Tshifted);
 
     // obtain adjusted, shifted control points of the reversed second spline
-    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, n, dim);
+    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, o, dim);
 
     // obtain adjusted, shifted control points of the second spline
     let Tadj = curve::points::reversed(&Tadjrev);
-- 
2.43.0


From fd1fd9712692aa0151c9a2d3e218f7a56aeabbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 03/17] fix: merging curves of degree three and higher
 distorted the left curve

The zeroth order point was stored twice, so the recursion used derivative
points of one order too low.
---
 src/manipulation/merge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index f7974ca..3da9bae 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -492,7 +492,8 @@ fn adjust_shifted_control_points(
         elem.push(Pshifted.column(i).into());
     }
 
-    for k in 0..=p - 1 {
+    // The zeroth order control point is contained already
+    for k in 1..=p - 1 {
         let derivative_point = generateDerivativeControlPoint(n - p + 1, k, Pshifted, U0, p, n, dim); //generateDerivativeControlPoint(n - p + 1, k, shifted_control_points, original_knot_vector);
         qki[n - p + 1].push(derivative_point);
     }
-- 
2.43.0


From b7119be1729422a8a4c16af9e52a0bc1d25ee425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 04/17] fix: prepend_constrained applied the constraints to the
 wrong curves

---
 src/curve/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 8f4bd9b..6748c34 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -217,8 +217,8 @@ impl Curve {
         constraints_other: Constraints,
     ) -> &mut Self {
         let c = merge_with_constraints(
-            &ConstrainedCurve { curve: other, constraints: constraints_self },
-            &ConstrainedCurve { curve: self, constraints: constraints_other },
+            &ConstrainedCurve { curve: other, constraints: constraints_other },
+            &ConstrainedCurve { curve: self, constraints: constraints_self },
         )
         .unwrap();
         self.knots = c.knots;
-- 
2.43.0


From 5a520e08b19de598f31a3c26ff80d3058d2927d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 05/17] fix: insert and split accepted NaN as parameter

---
 src/manipulation/insert.rs | 3 ++-
 src/manipulation/split.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/insert.rs b/src/manipulation/insert.rs
index d79ae9a..672841a 100644
--- a/src/manipulation/insert.rs
+++ b/src/manipulation/insert.rs
@@ -33,7 +33,8 @@ pub enum InsertError {
 /// Knot insertion algorithm by Boehm
 /// `u` the knot to be inserted. The value must be in `u ∈ (0, 1)`
 pub fn insert(c: &mut Curve, u: f64) -> Result<(), InsertError> {
-    if u <= 0.0 || u >= 1.0 {
+    // Negated so that `NaN` is rejected as well
+    if !(u > 0.0 && u < 1.0) {
         return Err(InsertError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
diff --git a/src/manipulation/split.rs b/src/manipulation/split.rs
index a204ff3..b7912f8 100644
--- a/src/manipulation/split.rs
+++ b/src/manipulation/split.rs
@@ -43,7 +43,8 @@ pub fn split_and_normalize(
     u: f64,
     normalizeKnotVectors: (bool, bool),
 ) -> Result<(Curve, Curve), SplitError> {
-    if u <= 0.0 || u >= 1.0 {
+    // Negated so that `NaN` is rejected as well
+    if !(u > 0.0 && u < 1.0) {
         return Err(SplitError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
-- 
2.43.0


From b2c4e162df2ad52e052d1ca5b4f2ddf39ab3f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 06/17] fix: derivative curves lacked their own derivatives

Evaluating any derivative of (or asking for the maximal derivative order of)
a curve returned by get_derivative_curve panicked.
---
 src/curve/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 6748c34..f870b54 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -324,7 +324,9 @@ impl Curve {
     pub fn get_derivative_curve(&self, k: usize) -> Self {
         let knots = Knots::new(self.degree() - k, self.knots.vector_derivative(k).clone());
         let points = ControlPoints::new(self.points.matrix_derivative(k).clone());
-        Curve { knots, points }
+        let mut curve = Curve { knots, points };
+        curve.calculate_derivatives();
+        curve
     }
 }
 
-- 
2.43.0


From 035f2e4824da5814f297e4b6379ace436f07a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 07/17] fix: segments_derivative subtracted with overflow for
 derivatives above p/2+1

---
 src/curve/knots/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 50e0cbc..71f0622 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -108,7 +108,7 @@ impl Knots {
     }
 
     pub fn segments_derivative(&self, k: usize) -> usize {
-        self.Uk[k].len() - (self.p + 2 - 2 * k)
+        self.Uk[k].len() + 2 * k - (self.p + 2)
     }
 
     pub fn len(&self, k: usize) -> usize {
-- 
2.43.0


From a4c38a0218bf1c94df1c5e02c61c7da6c3350641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:37 +0000
Subject: [PATCH 08/17] fix: an insertion interrupted by a failing allocation
 left a broken curve

---
 src/manipulation/insert.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/manipulation/insert.rs b/src/manipulation/insert.rs
index 672841a..9164ec9 100644
--- a/src/manipulation/insert.rs
+++ b/src/manipulation/insert.rs
@@ -13,7 +13,11 @@ use std::ops::AddAssign;
 use thiserror::Error;
 
 use crate::{
-    curve::{knots::DomainKnotComparatorType, points::Points, Curve},
+    curve::{
+        knots::{DomainKnotComparatorType, Knots},
+        points::{ControlPoints, Points},
+        Curve,
+    },
     types::MatD,
 };
 
@@ -74,9 +78,10 @@ pub fn insert(c: &mut Curve, u: f64) -> Result<(), InsertError> {
         P_new.column_mut(i).add_assign((1. - alpha) * P_old.column(i - 1) + alpha * P_old.column(i));
     }
 
-    c.knots.Uk[0] = U_new;
-    c.points.Pk[0] = P_new;
-    c.calculate_derivatives();
+    // Replace the curve only once the refined one is complete, such that `c` stays intact if an allocation fails.
+    let mut refined = Curve { knots: Knots::new(p, U_new), points: ControlPoints::new(P_new) };
+    refined.calculate_derivatives();
+    *c = refined;
     Ok(())
 }
 
-- 
2.43.0


From 56ecef8dd6de7892ab950383d9eb5d010689dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:42 +0000
Subject: [PATCH 09/17] fix: merge loses precision when the decomposition of
 its system is inaccurate

---
 src/manipulation/merge.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 3da9bae..cc71f33 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -397,7 +397,18 @@ fn solve_linear_equation_system(a: &ConstrainedCurve, b: &ConstrainedCurve) -> M
     let Nmat = construct_Nmat(a, b);
     let const_mat = constructConstMat(a.curve, b.curve, total_constraints);
 
-    SVD::new(Nmat, true, true).solve(&const_mat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose()
+    let rhs = const_mat.transpose();
+    let svd = SVD::new(Nmat.clone(), true, true);
+    let solve = |rhs: &MatD| svd.solve(rhs, f64::EPSILON.sqrt()).unwrap();
+
+    // The decomposition itself can be off by many orders of magnitude more than its rounding errors.
+    // Iterative refinement recovers the accuracy.
+    let mut shifts = solve(&rhs);
+    for _ in 0..2 {
+        shifts += solve(&(&rhs - &Nmat * &shifts));
+    }
+
+    shifts.transpose()
 }
 
 fn generate_shifted_control_point_vectors_of_spline1and2(a: &Curve, b: &Curve, shifts: &MatD) -> (MatD, MatD) {
-- 
2.43.0


From e9e4a5c706cbd0e82338a4a27021aab26ae5c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 10/17] fix: interpolation and fits lose precision when the
 decomposition of their system is inaccurate

---
 src/curve/points/methods/fit/fixed.rs     |  9 +++++---
 src/curve/points/methods/fit/loose.rs     |  9 +++++---
 src/curve/points/methods/fit/mod.rs       | 13 ++++++++++-
 src/curve/points/methods/interpolation.rs |  8 ++-----
 src/curve/points/methods/mod.rs           | 27 +++++++++++++++++++++++
 5 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 0124b5c..0319fd0 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -5,7 +5,10 @@ use crate::{
         knots::Knots,
         parameters::Parameters,
         points::{
-            methods::fit::{compute_svd, difference_operator, input_checks, FitError, Penalization},
+            methods::{
+                fit::{compute_normal_matrix, difference_operator, input_checks, FitError, Penalization},
+                solve,
+            },
             DataPoints, Points,
         },
     },
@@ -24,8 +27,8 @@ pub fn fit(
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
 
-    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
-    let internal_control_points = svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose();
+    let normal_mat = compute_normal_matrix(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
+    let internal_control_points = solve(&normal_mat, &Qmat.transpose()).transpose();
 
     let n = knots.segments();
     let m = points.segments();
diff --git a/src/curve/points/methods/fit/loose.rs b/src/curve/points/methods/fit/loose.rs
index 2194e91..610d90e 100644
--- a/src/curve/points/methods/fit/loose.rs
+++ b/src/curve/points/methods/fit/loose.rs
@@ -3,7 +3,10 @@ use crate::{
         knots::Knots,
         parameters::Parameters,
         points::{
-            methods::fit::{compute_svd, difference_operator, input_checks, FitError, Penalization},
+            methods::{
+                fit::{compute_normal_matrix, difference_operator, input_checks, FitError, Penalization},
+                solve,
+            },
             DataPoints, Points,
         },
     },
@@ -20,9 +23,9 @@ pub fn fit(
 
     let Nmat = calculate_coefficient_matrix(knots, points, params);
 
-    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
+    let normal_mat = compute_normal_matrix(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
     let mat = Nmat.transpose() * points.matrix().transpose();
-    let control_points = svd.solve(&mat, f64::EPSILON.sqrt()).unwrap().transpose();
+    let control_points = solve(&normal_mat, &mat).transpose();
 
     Ok(control_points)
 }
diff --git a/src/curve/points/methods/fit/mod.rs b/src/curve/points/methods/fit/mod.rs
index ab60832..989ec2e 100644
--- a/src/curve/points/methods/fit/mod.rs
+++ b/src/curve/points/methods/fit/mod.rs
@@ -76,6 +76,17 @@ pub fn compute_svd(
     penalization: &Option<Penalization>,
     calculate_finite_difference_matrix: Box<dyn FnOnce(usize, &Knots) -> MatD>,
 ) -> Result<SVD<f64, Dyn, Dyn>, FitError> {
+    let mat = compute_normal_matrix(knots, Nmat, penalization, calculate_finite_difference_matrix)?;
+
+    Ok(SVD::new(mat, true, true))
+}
+
+fn compute_normal_matrix(
+    knots: &Knots,
+    Nmat: &MatD,
+    penalization: &Option<Penalization>,
+    calculate_finite_difference_matrix: Box<dyn FnOnce(usize, &Knots) -> MatD>,
+) -> Result<MatD, FitError> {
     let mut mat = Nmat.transpose() * Nmat;
 
     match penalization {
@@ -90,7 +101,7 @@ pub fn compute_svd(
         None => {}
     }
 
-    Ok(SVD::new(mat, true, true))
+    Ok(mat)
 }
 
 // finite difference matrix penalizing BSplines
diff --git a/src/curve/points/methods/interpolation.rs b/src/curve/points/methods/interpolation.rs
index a864bc0..d3d9ac1 100644
--- a/src/curve/points/methods/interpolation.rs
+++ b/src/curve/points/methods/interpolation.rs
@@ -1,10 +1,8 @@
-use nalgebra::SVD;
-
 use crate::{
     curve::{
         knots::Knots,
         parameters::Parameters,
-        points::{DataPoints, Points},
+        points::{methods::solve, DataPoints, Points},
     },
     types::MatD,
 };
@@ -23,9 +21,7 @@ pub fn interpolate(knots: &Knots, points: &DataPoints, params: &Parameters) -> M
         }
     }
 
-    let svd = SVD::new(Nmat, true, true);
-    let mat = points.matrix().transpose();
-    svd.solve(&mat, f64::EPSILON.sqrt()).unwrap().transpose()
+    solve(&Nmat, &points.matrix().transpose()).transpose()
 }
 
 #[cfg(test)]
diff --git a/src/curve/points/methods/mod.rs b/src/curve/points/methods/mod.rs
index 2475cbd..cb7d4a0 100644
--- a/src/curve/points/methods/mod.rs
+++ b/src/curve/points/methods/mod.rs
@@ -1,2 +1,29 @@
+use nalgebra::SVD;
+
+use crate::types::MatD;
+
 pub mod fit;
 pub mod interpolation;
+
+/// Solves the system of linear equations `a * x = b`.
+///
+/// The singular value decomposition itself can be off by many orders of magnitude more than its rounding errors.
+/// Iterative refinement recovers the accuracy.
+pub(crate) fn solve(a: &MatD, b: &MatD) -> MatD {
+    let svd = SVD::new(a.clone(), true, true);
+    let solve = |rhs: &MatD| svd.solve(rhs, f64::EPSILON.sqrt()).unwrap();
+
+    let mut x = solve(b);
+    let mut residual = b - a * &x;
+    loop {
+        let refined_x = &x + solve(&residual);
+        let refined_residual = b - a * &refined_x;
+
+        // also ends, if there is no exact solution
+        if !(refined_residual.norm() < 0.5 * residual.norm()) {
+            return x;
+        }
+        x = refined_x;
+        residual = refined_residual;
+    }
+}
-- 
2.43.0


From c6f6ed70c45cd36c6ed8f0d104420daa93a065dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 11/17] fix: fit with fixed ends panicked if kappa exceeds n -
 2

---
 src/curve/points/methods/fit/fixed.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 0319fd0..403cd43 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -23,6 +23,14 @@ pub fn fit(
 ) -> Result<MatD, FitError> {
     input_checks(knots, points, params, &penalization)?;
 
+    // Only the internal control points are penalized, of which there are `n - 1`.
+    match (knots.segments(), &penalization) {
+        (n, Some(pen)) if n < pen.kappa + 2 => {
+            return Err(FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n, kappa: pen.kappa });
+        }
+        _ => {}
+    }
+
     let Q = generate_qvectors(knots, points, params);
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
-- 
2.43.0


From e9623f79a494bb193fb76e15c8c644b07b2206bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 12/17] fix: fit with fixed ends panicked if there are no
 internal control points

---
 src/curve/points/methods/fit/fixed.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 403cd43..c01249b 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -31,13 +31,6 @@ pub fn fit(
         _ => {}
     }
 
-    let Q = generate_qvectors(knots, points, params);
-    let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
-    let Nmat = calculate_coefficient_matrix(knots, points, params);
-
-    let normal_mat = compute_normal_matrix(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
-    let internal_control_points = solve(&normal_mat, &Qmat.transpose()).transpose();
-
     let n = knots.segments();
     let m = points.segments();
     let mut control_points = MatD::zeros(points.dimension(), n + 1);
@@ -46,6 +39,18 @@ pub fn fit(
     control_points.column_mut(0).copy_from(&points.get(0));
     control_points.column_mut(n).copy_from(&points.get(m));
 
+    if n == 1 {
+        // There are no internal control points to be fitted.
+        return Ok(control_points);
+    }
+
+    let Q = generate_qvectors(knots, points, params);
+    let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
+    let Nmat = calculate_coefficient_matrix(knots, points, params);
+
+    let normal_mat = compute_normal_matrix(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
+    let internal_control_points = solve(&normal_mat, &Qmat.transpose()).transpose();
+
     // TODO copy matrix view instead of individual columns
     for i in 1..=n - 1 {
         control_points.column_mut(i).copy_from(&internal_control_points.column(i - 1));
-- 
2.43.0


From eca8b11a6f8eb278a3d21d65a3c81e30f1866a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 13/17] fix: de Boor knots did not follow the parameters if
 there are more data than control points

---
 src/curve/knots/methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/methods.rs b/src/curve/knots/methods.rs
index fd42ee1..a238764 100644
--- a/src/curve/knots/methods.rs
+++ b/src/curve/knots/methods.rs
@@ -87,7 +87,7 @@ pub fn de_boor(degree: usize, segments: usize, parameters: &Parameters) -> Resul
     let internal_knot_count = n - p;
     let internal_knot_spans = internal_knot_count + 1;
 
-    let d = (n + 1) as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
+    let d = U_bar.len() as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
 
     let mut U = VecD::zeros(p + n + 2);
 
-- 
2.43.0


From b6f2455a11ae45f56353569197ce150cee454ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 14/17] fix: replace the derivatives of the control points only
 when all have been obtained

An allocation failure in the middle of ControlPoints::derive left a curve without
the derivatives it claims to have: evaluating them panicked.
---
 src/curve/points/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/curve/points/mod.rs b/src/curve/points/mod.rs
index ba06d61..0297998 100644
--- a/src/curve/points/mod.rs
+++ b/src/curve/points/mod.rs
@@ -131,15 +131,19 @@ impl ControlPoints {
         let p = knots.degree();
         let n = self.segments();
 
-        self.Pk.truncate(1);
+        // The old derivatives are replaced only after all new ones have been obtained.
+        let mut derivatives = Vec::with_capacity(p);
         for k in 1..=p {
             let mut Pnew = MatD::zeros(self.dimension(), n - k + 1);
             // TODO iter over points instead
             for (i, mut col) in Pnew.column_iter_mut().enumerate() {
                 col.copy_from(&self.derive_single_point(i, k, knots));
             }
-            self.Pk.push(Pnew);
+            derivatives.push(Pnew);
         }
+        self.Pk.reserve((p + 1).saturating_sub(self.Pk.len()));
+        self.Pk.truncate(1);
+        self.Pk.append(&mut derivatives);
         self.k_max = p;
     }
 
-- 
2.43.0


From b4306eeffd3431c444e7421a4da22327d60ccb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 15/17] fix: replace the derivatives of the knots only when all
 have been obtained

An allocation failure in the middle of Knots::derive left knots without the
derivatives they claim to have.
---
 src/curve/knots/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 71f0622..8c5355f 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -174,14 +174,19 @@ impl Knots {
     pub fn derive(&mut self) {
         let p = self.p;
 
-        self.Uk.truncate(1);
+        // The old derivatives are replaced only after all new ones have been obtained.
+        let mut derivatives: KnotVectorDerivatives = Vec::with_capacity(p);
         for k in 1..=p {
             // obtain the `k`-th derivative knot vector from the previous `k-1`-th derivative knot vector segment
             // by dropping the first and last segment
-            let segment_of_previous_order_knot_vector = self.Uk[k - 1].segment(1, self.len(k - 1) - 2).clone_owned();
+            let previous = derivatives.last().unwrap_or(&self.Uk[0]);
+            let segment_of_previous_order_knot_vector = previous.segment(1, previous.len() - 2).clone_owned();
 
-            self.Uk.push(segment_of_previous_order_knot_vector);
+            derivatives.push(segment_of_previous_order_knot_vector);
         }
+        self.Uk.reserve((p + 1).saturating_sub(self.Uk.len()));
+        self.Uk.truncate(1);
+        self.Uk.append(&mut derivatives);
         self.k_max = p;
     }
 
-- 
2.43.0


From 7791bb8629e861f7ef2715e9142e8823d0564db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 16/17] fix: rescale knots without allocating

An allocation failure in the middle of Knots::normalize or Knots::rescale left
the knots shifted or scaled by halves.
---
 src/curve/knots/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 8c5355f..17c6933 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -373,11 +373,9 @@ fn rescaled(knots: &VecD, old_lim: (f64, f64), new_lim: (f64, f64)) -> VecD {
 }
 
 fn rescale(knots: &mut VecD, old_lim: (f64, f64), new_lim: (f64, f64)) {
-    let n = knots.len();
-    *knots -= VecD::repeat(n, old_lim.0);
-    *knots /= old_lim.1 - old_lim.0;
-    *knots *= new_lim.1 - new_lim.0;
-    *knots += VecD::repeat(n, new_lim.0);
+    for knot in knots.iter_mut() {
+        *knot = rescaled_knot(*knot, old_lim, new_lim);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From e4d1900e36852039ac3e950509eb8238ef800c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 17/17] fix: keep parameters from exceeding one by rounding

If the last data points coincide, the rounded shares could sum up to slightly
more than one, such that the parameters were not ascending, and all basis
functions vanished at the one beyond the end.
---
 src/curve/parameters/methods.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/parameters/methods.rs b/src/curve/parameters/methods.rs
index 68bacf9..c7511b8 100644
--- a/src/curve/parameters/methods.rs
+++ b/src/curve/parameters/methods.rs
@@ -38,7 +38,8 @@ pub fn centripetal(points: &DataPoints) -> Parameters {
 
     for g in 1..m {
         let diff = points.get(g) - points.get(g - 1);
-        u_bar[g] = u_bar[g - 1] + diff.norm().sqrt() / sum;
+        // The rounded shares can sum up to more than one.
+        u_bar[g] = (u_bar[g - 1] + diff.norm().sqrt() / sum).min(1.0);
     }
 
     u_bar[m] = 1.0;
@@ -59,7 +60,8 @@ pub fn chord_length(points: &DataPoints) -> Parameters {
     let mut u_bar = VecD::zeros(m + 1);
     for g in 1..m {
         let diff = points.get(g) - points.get(g - 1);
-        u_bar[g] = u_bar[g - 1] + diff.norm() / sum;
+        // The rounded shares can sum up to more than one.
+        u_bar[g] = (u_bar[g - 1] + diff.norm() / sum).min(1.0);
     }
 
     u_bar[m] = 1f64;
-- 
2.43.0

