From 1f7d5d2c597835e37655b28e6759789228d0a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 01/16] fix: locate the knot span correctly behind repeated
 knots

The search for the left or equal domain knot stopped at the first repeated
knot, even if it was smaller than the parameter. Inserting a knot or splitting
at a parameter behind a repeated knot thus produced an unsorted knot vector.
Only stop at a repeated knot that equals the parameter.
---
 src/curve/knots/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index d5c4b5e..6c06b9a 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -236,7 +236,7 @@ impl Knots {
 
                 while u >= Uk[i + 1] && i + 1 < lim {
                     i += 1;
-                    if Uk[i + 1] == Uk[i] {
+                    if Uk[i] == u && Uk[i + 1] == Uk[i] {
                         break;
                     }
                 }
-- 
2.43.0


From 1f90de7e2318d3c5fb3f3ae2c5249b60d9dd385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 02/16] fix: locate the right or equal domain knot before
 repeated knots

The search stopped at the last repeated knot, even if it was greater than the
parameter, and it underflowed the index at the start of the domain of the
highest derivative.
---
 src/curve/knots/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 6c06b9a..9f36423 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -245,9 +245,9 @@ impl Knots {
             DomainKnotComparatorType::RightOrEqual => {
                 let mut i = Uk.len() - 1 - pk;
 
-                while u <= Uk[i - 1] && i > pk {
+                while i > pk && u <= Uk[i - 1] {
                     i -= 1;
-                    if Uk[i - 1] == Uk[i] {
+                    if i > pk && Uk[i] == u && Uk[i - 1] == Uk[i] {
                         break;
                     }
                 }
-- 
2.43.0


From ee67425033a2341d2059e5c7fff51e4af81271ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 03/16] fix: avoid underflow in segments_derivative for high
 derivative orders

`p + 2 - 2k` is negative for `2k > p + 2`.
---
 src/curve/knots/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 9f36423..2bacb0e 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -108,7 +108,7 @@ impl Knots {
     }
 
     pub fn segments_derivative(&self, k: usize) -> usize {
-        self.Uk[k].len() - (self.p + 2 - 2 * k)
+        self.Uk[k].len() + 2 * k - (self.p + 2)
     }
 
     pub fn len(&self, k: usize) -> usize {
-- 
2.43.0


From 0f4c322c0c7f35dfbde1f8477fe60afdee2fcf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 04/16] fix: apply the constraints of prepend_constrained to
 the right curves

---
 src/curve/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 8f4bd9b..6748c34 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -217,8 +217,8 @@ impl Curve {
         constraints_other: Constraints,
     ) -> &mut Self {
         let c = merge_with_constraints(
-            &ConstrainedCurve { curve: other, constraints: constraints_self },
-            &ConstrainedCurve { curve: self, constraints: constraints_other },
+            &ConstrainedCurve { curve: other, constraints: constraints_other },
+            &ConstrainedCurve { curve: self, constraints: constraints_self },
         )
         .unwrap();
         self.knots = c.knots;
-- 
2.43.0


From 488fe3790fa3f0ea8f59bb9d4bccc2bd0a49a688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 05/16] fix: make the derivatives of a derivative curve
 available

The control points of the curve returned by get_derivative_curve lacked their
derivatives, so evaluating any of them panicked.
---
 src/curve/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 6748c34..57c8d3a 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -324,7 +324,9 @@ impl Curve {
     pub fn get_derivative_curve(&self, k: usize) -> Self {
         let knots = Knots::new(self.degree() - k, self.knots.vector_derivative(k).clone());
         let points = ControlPoints::new(self.points.matrix_derivative(k).clone());
-        Curve { knots, points }
+        let mut c = Curve { knots, points };
+        c.calculate_derivatives();
+        c
     }
 }
 
-- 
2.43.0


From 3580f7ecb6d76d998a8b8dabb23a72739388c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 06/16] fix: reject NaN in knot insertion

---
 src/manipulation/insert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manipulation/insert.rs b/src/manipulation/insert.rs
index d79ae9a..2a3889d 100644
--- a/src/manipulation/insert.rs
+++ b/src/manipulation/insert.rs
@@ -33,7 +33,7 @@ pub enum InsertError {
 /// Knot insertion algorithm by Boehm
 /// `u` the knot to be inserted. The value must be in `u ∈ (0, 1)`
 pub fn insert(c: &mut Curve, u: f64) -> Result<(), InsertError> {
-    if u <= 0.0 || u >= 1.0 {
+    if !(u > 0.0 && u < 1.0) {
         return Err(InsertError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
-- 
2.43.0


From 1f87db0a1f3194c68d12117ff42b68bc63b3002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 07/16] fix: reject NaN in splitting

---
 src/manipulation/split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manipulation/split.rs b/src/manipulation/split.rs
index a204ff3..1e5dc7a 100644
--- a/src/manipulation/split.rs
+++ b/src/manipulation/split.rs
@@ -43,7 +43,7 @@ pub fn split_and_normalize(
     u: f64,
     normalizeKnotVectors: (bool, bool),
 ) -> Result<(Curve, Curve), SplitError> {
-    if u <= 0.0 || u >= 1.0 {
+    if !(u > 0.0 && u < 1.0) {
         return Err(SplitError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
-- 
2.43.0


From 289f786de7dbee2beb14b000f3da0b745a00ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 08/16] fix: merge curves with different numbers of segments

The control points of the right curve were adjusted with the number of
segments of the left one.
---
 src/manipulation/merge.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 43f4c75..3cef530 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -520,19 +520,20 @@ fn adjust_shifted_control_points_of_both_splines(
     Wadjrev: &VecD,
 ) -> (MatD, MatD) {
     let p = a.degree();
-    let n = a.segments();
+    let m = a.segments();
+    let o = Tshifted.ncols() - 1;
     let dim = a.dimension();
 
     let V0 = a.knots.vector();
 
     // obtain adjusted, shifted control points of the second spline
-    let Sadj = adjust_shifted_control_points(Sshifted, V0, Vadj, p, n, dim);
+    let Sadj = adjust_shifted_control_points(Sshifted, V0, Vadj, p, m, dim);
 
     // reverse control points of the second spline
     let P2shiftedrev = curve::points::reversed(Tshifted);
 
     // obtain adjusted, shifted control points of the reversed second spline
-    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, n, dim);
+    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, o, dim);
 
     // obtain adjusted, shifted control points of the second spline
     let Tadj = curve::points::reversed(&Tadjrev);
-- 
2.43.0


From de5b31665e091419fa17758a3ec94abd2f953f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 09/16] fix: adjust the control points of merged curves of
 degree three and higher

The zeroth order control point was pushed twice, which shifted the derivative
control points by one order, and the adjusted knots of the right curve were
used where the reversed ones are needed.
---
 src/manipulation/merge.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 3cef530..f033d12 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -129,12 +129,12 @@ pub(crate) fn merge_with_constraints(a: &ConstrainedCurve, b: &ConstrainedCurve)
     let (Sshifted, Tshifted) = generate_shifted_control_point_vectors_of_spline1and2(a.curve, b.curve, &shifts);
 
     // adjust and merge knot vectors
-    let (Vadj, Wrev, Wadj) = adjust_knots_of_both_splines(a.curve, b.curve);
+    let (Vadj, Wrev, Wadjrev, Wadj) = adjust_knots_of_both_splines(a.curve, b.curve);
     let U_merged = create_merged_knot_vector(a.curve, b.curve, &Vadj, &Wadj);
 
     // adjust control points
     let (Sadj, Tadj) =
-        adjust_shifted_control_points_of_both_splines(a.curve, &Sshifted, &Tshifted, &Vadj, &Wrev, &Wadj);
+        adjust_shifted_control_points_of_both_splines(a.curve, &Sshifted, &Tshifted, &Vadj, &Wrev, &Wadjrev);
 
     // do actual merge
     let P_merged = generate_control_point_vector_of_merged_spline(a.curve, b.curve, &Sadj, &Tadj);
@@ -412,7 +412,7 @@ fn generate_shifted_control_point_vectors_of_spline1and2(a: &Curve, b: &Curve, s
     (Sshifted, Tshifted)
 }
 
-fn adjust_knots_of_both_splines(a: &Curve, b: &Curve) -> (VecD, VecD, VecD) {
+fn adjust_knots_of_both_splines(a: &Curve, b: &Curve) -> (VecD, VecD, VecD, VecD) {
     let p = a.degree();
 
     let m = a.segments();
@@ -430,7 +430,7 @@ fn adjust_knots_of_both_splines(a: &Curve, b: &Curve) -> (VecD, VecD, VecD) {
     let Wadjrev = adjust_knots(p, &Wrev, o, &Vrev);
     let Wadj = reversed(&Wadjrev).add_scalar(1.);
 
-    (Vadj, Wrev, Wadj)
+    (Vadj, Wrev, Wadjrev, Wadj)
 }
 
 fn adjust_knots(p: usize, Uleft: &VecD, nLeft: usize, Uright: &VecD) -> VecD {
@@ -492,7 +492,7 @@ fn adjust_shifted_control_points(
         elem.push(Pshifted.column(i).into());
     }
 
-    for k in 0..=p - 1 {
+    for k in 1..=p - 1 {
         let derivative_point = generateDerivativeControlPoint(n - p + 1, k, Pshifted, U0, p, n, dim); //generateDerivativeControlPoint(n - p + 1, k, shifted_control_points, original_knot_vector);
         qki[n - p + 1].push(derivative_point);
     }
-- 
2.43.0


From 536daab867fdd3bc6aa67f96e587c318a715cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 10/16] fix: return an error if kappa is too large for a fit
 with fixed ends

`kappa = n - 1` passed the input checks and panicked.
---
 src/curve/points/methods/fit/fixed.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 0124b5c..c19dd1a 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -20,6 +20,14 @@ pub fn fit(
 ) -> Result<MatD, FitError> {
     input_checks(knots, points, params, &penalization)?;
 
+    // The first and last control point are not penalized.
+    match (knots.segments(), &penalization) {
+        (n, Some(pen)) if n < pen.kappa + 2 => {
+            return Err(FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n, kappa: pen.kappa })
+        }
+        _ => {}
+    }
+
     let Q = generate_qvectors(knots, points, params);
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
-- 
2.43.0


From 0ec3ac7ea6b30bf290c4db544f31f024b273add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 11/16] fix: fit a single segment with fixed ends

---
 src/curve/points/methods/fit/fixed.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index c19dd1a..5a4dc7e 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -28,6 +28,11 @@ pub fn fit(
         _ => {}
     }
 
+    // A single segment has no internal control points.
+    if knots.segments() == 1 {
+        return Ok(MatD::from_columns(&[points.get(0), points.get(points.segments())]));
+    }
+
     let Q = generate_qvectors(knots, points, params);
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
-- 
2.43.0


From 14eceaa87473480e9cef5b29068fdbac4cfeed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 12/16] fix: distribute the knots of the de Boor method over
 all parameters

Eq. (9.68) in `Piegl1997` uses the number of data points and not the number of
control points. With fewer control points than data points, the last knot span
covered all remaining parameters.
---
 src/curve/knots/methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/methods.rs b/src/curve/knots/methods.rs
index fd42ee1..08e7a09 100644
--- a/src/curve/knots/methods.rs
+++ b/src/curve/knots/methods.rs
@@ -87,7 +87,7 @@ pub fn de_boor(degree: usize, segments: usize, parameters: &Parameters) -> Resul
     let internal_knot_count = n - p;
     let internal_knot_spans = internal_knot_count + 1;
 
-    let d = (n + 1) as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
+    let d = (parameters.segments() + 1) as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
 
     let mut U = VecD::zeros(p + n + 2);
 
-- 
2.43.0


From 7d2e911224e88b6e2fb3ccb91e71f44ad22ba22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:47 +0000
Subject: [PATCH 13/16] fix: normalize the knot vectors of all orders with the
 same limits

---
 src/curve/knots/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 2bacb0e..bd15da7 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -155,9 +155,9 @@ impl Knots {
     }
 
     pub fn normalize(&mut self) -> &mut Self {
-        for knots in self.Uk.iter_mut() {
-            normalize(knots);
-        }
+        // the derivative knot vectors of unclamped knots have different limits
+        let old_lim = (self.Uk[0].min(), self.Uk[0].max());
+        self.rescale(old_lim, (0.0, 1.0));
         self
     }
 
-- 
2.43.0


From 894e566021daffad02951280b28e6050a6eedd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 14/16] fix: count the end of the domain once in the basis
 functions of unclamped knots

Behind the domain of an unclamped knot vector further knots follow. At the end
of the domain both its last interval and the one behind it were counted, so
that the basis functions, and with them the curve, came out as a sum of two.
---
 src/curve/basis/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/basis/mod.rs b/src/curve/basis/mod.rs
index 81bfb78..9714e88 100644
--- a/src/curve/basis/mod.rs
+++ b/src/curve/basis/mod.rs
@@ -28,7 +28,9 @@ use crate::types::VecD;
 /// - `U` the knot vector
 pub fn basis(Uk: &VecD, i: usize, p: usize, k: usize, n: usize, u: f64) -> f64 {
     if p == 0 {
-        if (Uk[i] <= u && u < Uk[i + 1]) || (i == n - k && u == Uk[n + 1 - k]) {
+        // the end of the domain belongs to its last interval, also if further knots follow
+        let is_end = u == Uk[n + 1 - k];
+        if (Uk[i] <= u && u < Uk[i + 1] && !is_end) || (i == n - k && is_end) {
             return 1.0;
         }
         return 0.0;
-- 
2.43.0


From 70ff58fc77bfc1effc2a01ca75b9cb3b373d2b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 15/16] fix: solve the fits by a Cholesky decomposition where
 the normal matrix allows it

The iterative singular value decomposition of strongly penalized normal
matrices can be off by up to a percent of the largest singular value, and the
fitted control points by more: constant data, 13 points, eight control points,
degree 3, lambda = 1e4, kappa = 2 were not met by up to nine percent. It is
now used only for matrices that are not (numerically) positive definite.
---
 src/curve/points/methods/fit/fixed.rs | 12 +++++++++---
 src/curve/points/methods/fit/loose.rs |  8 ++++----
 src/curve/points/methods/fit/mod.rs   | 17 +++++++++++++----
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 5a4dc7e..ca23906 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -5,7 +5,7 @@ use crate::{
         knots::Knots,
         parameters::Parameters,
         points::{
-            methods::fit::{compute_svd, difference_operator, input_checks, FitError, Penalization},
+            methods::fit::{difference_operator, input_checks, solve_normal_equations, FitError, Penalization},
             DataPoints, Points,
         },
     },
@@ -37,8 +37,14 @@ pub fn fit(
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
 
-    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
-    let internal_control_points = svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose();
+    let internal_control_points = solve_normal_equations(
+        knots,
+        &Nmat,
+        &Qmat.transpose(),
+        &penalization,
+        Box::new(calculate_finite_difference_matrix),
+    )?
+    .transpose();
 
     let n = knots.segments();
     let m = points.segments();
diff --git a/src/curve/points/methods/fit/loose.rs b/src/curve/points/methods/fit/loose.rs
index 2194e91..e681df8 100644
--- a/src/curve/points/methods/fit/loose.rs
+++ b/src/curve/points/methods/fit/loose.rs
@@ -3,7 +3,7 @@ use crate::{
         knots::Knots,
         parameters::Parameters,
         points::{
-            methods::fit::{compute_svd, difference_operator, input_checks, FitError, Penalization},
+            methods::fit::{difference_operator, input_checks, solve_normal_equations, FitError, Penalization},
             DataPoints, Points,
         },
     },
@@ -20,11 +20,11 @@ pub fn fit(
 
     let Nmat = calculate_coefficient_matrix(knots, points, params);
 
-    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
     let mat = Nmat.transpose() * points.matrix().transpose();
-    let control_points = svd.solve(&mat, f64::EPSILON.sqrt()).unwrap().transpose();
+    let control_points =
+        solve_normal_equations(knots, &Nmat, &mat, &penalization, Box::new(calculate_finite_difference_matrix))?;
 
-    Ok(control_points)
+    Ok(control_points.transpose())
 }
 
 fn calculate_coefficient_matrix(knots: &Knots, points: &DataPoints, params: &Parameters) -> MatD {
diff --git a/src/curve/points/methods/fit/mod.rs b/src/curve/points/methods/fit/mod.rs
index ab60832..b664d03 100644
--- a/src/curve/points/methods/fit/mod.rs
+++ b/src/curve/points/methods/fit/mod.rs
@@ -1,4 +1,4 @@
-use nalgebra::{DMatrix, Dyn, SVD};
+use nalgebra::{Cholesky, DMatrix, SVD};
 use thiserror::Error;
 
 use crate::{
@@ -70,12 +70,14 @@ fn input_checks(
     }
 }
 
-pub fn compute_svd(
+/// Solves the normal equations of the coefficient matrix `Nmat` and the penalization for the constant terms `rhs`.
+pub fn solve_normal_equations(
     knots: &Knots,
     Nmat: &MatD,
+    rhs: &MatD,
     penalization: &Option<Penalization>,
     calculate_finite_difference_matrix: Box<dyn FnOnce(usize, &Knots) -> MatD>,
-) -> Result<SVD<f64, Dyn, Dyn>, FitError> {
+) -> Result<MatD, FitError> {
     let mut mat = Nmat.transpose() * Nmat;
 
     match penalization {
@@ -90,7 +92,14 @@ pub fn compute_svd(
         None => {}
     }
 
-    Ok(SVD::new(mat, true, true))
+    let eps = f64::EPSILON.sqrt();
+
+    // The iterative singular value decomposition can be inaccurate, in particular for strongly penalized matrices.
+    // It is only required if the symmetric matrix is not (numerically) positive definite.
+    match Cholesky::new(mat.clone()) {
+        Some(cholesky) if cholesky.l_dirty().diagonal().iter().all(|l| l * l > eps) => Ok(cholesky.solve(rhs)),
+        _ => Ok(SVD::new(mat, true, true).solve(rhs, eps).unwrap()),
+    }
 }
 
 // finite difference matrix penalizing BSplines
-- 
2.43.0


From 2d4d2cb2dcae7ba97e67b8b4c854b4380b5e4af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 16/16] fix: insertion and splitting refuse parameters outside
 the domain of un-normalised curves

Inserting a knot outside of the domain of a curve whose knots are not
normalized (a part split off without normalization) put it among the end
knots, which left the curve with unsorted knots; splitting there returned
parts of another curve, and splitting at the end of the domain panicked or
returned a curve on an empty interval.
---
 src/manipulation/insert.rs | 20 ++++++++++++++++----
 src/manipulation/split.rs  |  7 ++++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/manipulation/insert.rs b/src/manipulation/insert.rs
index 2a3889d..aa2704f 100644
--- a/src/manipulation/insert.rs
+++ b/src/manipulation/insert.rs
@@ -13,7 +13,11 @@ use std::ops::AddAssign;
 use thiserror::Error;
 
 use crate::{
-    curve::{knots::DomainKnotComparatorType, points::Points, Curve},
+    curve::{
+        knots::{DomainKnotComparatorType, Knots},
+        points::Points,
+        Curve,
+    },
     types::MatD,
 };
 
@@ -30,11 +34,19 @@ pub enum InsertError {
     MultiplicityError { u: f64, m: usize, p: usize },
 }
 
+/// The bounds between which knots can be inserted: `(0, 1)`,
+/// or the part of it inside the domain of a curve whose knots are not normalized.
+pub(crate) fn open_interval(knots: &Knots) -> (f64, f64) {
+    let domain = knots.domain();
+    (domain[0].max(0.0), domain[domain.len() - 1].min(1.0))
+}
+
 /// Knot insertion algorithm by Boehm
-/// `u` the knot to be inserted. The value must be in `u ∈ (0, 1)`
+/// `u` the knot to be inserted. The value must be in `u ∈ (0, 1)` and inside the domain of the curve.
 pub fn insert(c: &mut Curve, u: f64) -> Result<(), InsertError> {
-    if !(u > 0.0 && u < 1.0) {
-        return Err(InsertError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
+    let (lower_bound, upper_bound) = open_interval(&c.knots);
+    if !(u > lower_bound && u < upper_bound) {
+        return Err(InsertError::OutOfBounds { u, lower_bound, upper_bound });
     }
 
     let p = c.degree();
diff --git a/src/manipulation/split.rs b/src/manipulation/split.rs
index 1e5dc7a..8f0cb7b 100644
--- a/src/manipulation/split.rs
+++ b/src/manipulation/split.rs
@@ -19,7 +19,7 @@ use crate::{
         points::{ControlPoints, Points},
         Curve, CurveError,
     },
-    manipulation::insert::insert,
+    manipulation::insert::{insert, open_interval},
     types::{MatD, VecD, VecHelpers},
 };
 
@@ -43,8 +43,9 @@ pub fn split_and_normalize(
     u: f64,
     normalizeKnotVectors: (bool, bool),
 ) -> Result<(Curve, Curve), SplitError> {
-    if !(u > 0.0 && u < 1.0) {
-        return Err(SplitError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
+    let (lower_bound, upper_bound) = open_interval(&c.knots);
+    if !(u > lower_bound && u < upper_bound) {
+        return Err(SplitError::OutOfBounds { u, lower_bound, upper_bound });
     }
 
     let p = c.degree();
-- 
2.43.0

