From 33a160cbe6f7434e518b3ca27b3fef4267590a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:56 +0000
Subject: [PATCH 01/42] fix: return the true determinant sign from orient

The elimination multiplied the result by earlier pivots and gave up on
a zero leading pivot. Use Bareiss elimination with row swaps.
---
 src/kernel/orientation.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/kernel/orientation.rs b/src/kernel/orientation.rs
index cdb4ffe..aea8714 100755
--- a/src/kernel/orientation.rs
+++ b/src/kernel/orientation.rs
@@ -41,20 +41,25 @@ where
     let mut m: [[T; N]; N] =
         from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
 
-    // 2. Fraction-free Gaussian elimination → determinant in `det`
-    let mut det = T::one(); // running ±product of pivots
+    // 2. Fraction-free (Bareiss) elimination: the last pivot is the determinant
+    let mut flipped = false; // odd number of row swaps so far
+    let mut prev = T::one(); // previous pivot
     for k in 0..N {
-        // pivot = m[k][k];  if zero, determinant is zero
-        if m[k][k].abs() == T::zero() {
+        // bring a non-zero pivot into place; without one the determinant is zero
+        let Some(r) = (k..N).find(|&r| m[r][k].abs() != T::zero()) else {
             return T::zero();
+        };
+        if r != k {
+            m.swap(r, k);
+            flipped = !flipped;
         }
         for i in (k + 1)..N {
             for j in (k + 1)..N {
-                //   m[i][j] = m[i][j] * pivot - m[i][k] * m[k][j];
-                m[i][j] = &(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j]);
+                //   m[i][j] = (m[i][j] * pivot - m[i][k] * m[k][j]) / previous pivot;
+                m[i][j] = (&(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j])) / prev.clone();
             }
         }
-        det = det * m[k][k].clone();
+        prev = m[k][k].clone();
     }
-    det
+    if flipped { -prev } else { prev }
 }
-- 
2.43.0


From 28adbce58bedb5766aa7538e1debc4c3e8f1fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:56 +0000
Subject: [PATCH 02/42] fix: accept the first endpoint in is_point_on_segment

---
 src/kernel/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 84d6cf3..0029101 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -135,7 +135,7 @@ where
     T: PartialOrd, // needed for comparisons inside the loop
 {
     // 1.  If P, A, B are not collinear, P cannot lie on AB
-    if !are_collinear(p, &seg.a, &seg.b) {
+    if !are_collinear(&seg.a, &seg.b, p) {
         return false;
     }
 
-- 
2.43.0


From f0c6475f640f7f173b21a1f1b07533df0bf3105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:29 +0000
Subject: [PATCH 03/42] fix: classify points on an edge's extension as outside
 the triangle

The near-edge shortcut returned OnEdge whenever one edge function was
zero, even for points beyond the ends of that edge.
---
 src/kernel/predicates.rs | 32 +-------------------------------
 1 file changed, 1 insertion(+), 31 deletions(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 0029101..53fe1df 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -27,8 +27,7 @@ use crate::geometry::util::EPS;
 use crate::geometry::vector::{Cross3, VectorOps};
 use crate::geometry::{Point2, Point3};
 use crate::geometry::{point::Point, vector::Vector};
-use crate::numeric::cgar_f64::CgarF64;
-use crate::numeric::scalar::{RefInto, Scalar};
+use crate::numeric::scalar::Scalar;
 use std::ops::{Add, Div, Mul, Sub};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -355,15 +354,6 @@ where
         + Mul<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    #[inline(always)]
-    fn near_edge_approx<TS: Scalar>(e0: &TS, e1: &TS, e2: &TS) -> bool {
-        let eps = RefInto::<CgarF64>::ref_into(&TS::query_tolerance()).0;
-        let e0f = RefInto::<CgarF64>::ref_into(e0).0;
-        let e1f = RefInto::<CgarF64>::ref_into(e1).0;
-        let e2f = RefInto::<CgarF64>::ref_into(e2).0;
-        e0f.abs() <= eps || e1f.abs() <= eps || e2f.abs() <= eps
-    }
-
     #[inline(always)]
     fn classify_from_edges<TS: Scalar + PartialOrd>(e0: &TS, e1: &TS, e2: &TS) -> TrianglePoint {
         let zero = TS::zero();
@@ -421,17 +411,6 @@ where
         let e1 = &(&bcx * &bpy) - &(&bcy * &bpx);
         let e2 = &(&cax * &cpy) - &(&cay * &cpx);
 
-        // near-edge fast path -> confirm exact boundary kind
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            // figure out vertex vs edge by zero-count
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else if N == 3 {
         // normal and degeneracy
@@ -453,15 +432,6 @@ where
         let e1 = bc.cross(&bp).dot(&n);
         let e2 = ca.cross(&cp).dot(&n);
 
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else {
         panic!("point_in_or_on_triangle only supports N = 2 or N = 3");
-- 
2.43.0


From 5020072cc9007d332b8eee9c1865157941b8c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:56 +0000
Subject: [PATCH 04/42] fix: report only the common part of collinear segments

Collinear segments that do not overlap were reported as overlapping in
the gap between them, and single-point segments were never found.
---
 src/geometry/intersection.rs | 80 ++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/src/geometry/intersection.rs b/src/geometry/intersection.rs
index 3344e35..644c61d 100755
--- a/src/geometry/intersection.rs
+++ b/src/geometry/intersection.rs
@@ -25,7 +25,7 @@ use crate::{
         Point2, Point3, Segment2, Segment3, Vector3, point::Point, spatial_element::SpatialElement,
         vector::VectorOps,
     },
-    kernel::{are_collinear, orient},
+    kernel::{are_collinear, are_equal, orient},
     numeric::scalar::Scalar,
 };
 use std::ops::{Add, Div, Mul, Sub};
@@ -64,6 +64,42 @@ where
     }
 }
 
+/// Common part of the parallel segments `ab` and `cd`, smaller end first.
+/// `None` if they are on different lines or do not overlap.
+fn collinear_overlap<T, const N: usize>(
+    a: &Point<T, N>,
+    b: &Point<T, N>,
+    c: &Point<T, N>,
+    d: &Point<T, N>,
+) -> Option<(Point<T, N>, Point<T, N>)>
+where
+    T: Scalar,
+    for<'a> &'a T: Add<&'a T, Output = T>
+        + Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    // a single-point segment has no direction: take the line of the other one
+    let collinear = if are_equal(a, b) {
+        are_collinear(c, d, a)
+    } else {
+        are_collinear(a, b, c)
+    };
+    if !collinear {
+        return None;
+    }
+
+    let (lo1, hi1) = if a <= b { (a, b) } else { (b, a) };
+    let (lo2, hi2) = if c <= d { (c, d) } else { (d, c) };
+    let lo = if lo1 <= lo2 { lo2 } else { lo1 };
+    let hi = if hi1 <= hi2 { hi1 } else { hi2 };
+    if lo <= hi {
+        Some((lo.clone(), hi.clone()))
+    } else {
+        None
+    }
+}
+
 pub fn segment_segment_intersection_2<T>(
     seg1: &Segment2<T>,
     seg2: &Segment2<T>,
@@ -119,22 +155,8 @@ where
         }
 
         // Collinear case
-        if are_collinear(&a, &b, &c) {
-            // Compute overlapping segment
-            let mut pts = [a, b, c, d];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
-
-            let s = Segment2::new(&pts[1], &pts[2]);
-            return SegmentIntersection2::Overlapping(s);
+        if let Some((lo, hi)) = collinear_overlap(a, b, c, d) {
+            return SegmentIntersection2::Overlapping(Segment2::new(&lo, &hi));
         }
     }
 
@@ -218,28 +240,8 @@ where
         (s, t)
     } else {
         // Segments are parallel — handle collinear case
-        if are_collinear(p1, p2, q1) {
-            // Sort points by x (then y then z)
-            let mut pts = [p1, p2, q1, q2];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-                    .then(
-                        p1[2]
-                            .partial_cmp(&p2[2])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
-            return SegmentIntersection3::Overlapping(Segment3 {
-                a: pts[1].clone(),
-                b: pts[2].clone(),
-            });
+        if let Some((lo, hi)) = collinear_overlap(p1, p2, q1, q2) {
+            return SegmentIntersection3::Overlapping(Segment3::new(&lo, &hi));
         }
 
         return SegmentIntersection3::None;
-- 
2.43.0


From 0c022109dbc98daebda6c40f573322ce108bf6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:58 +0000
Subject: [PATCH 05/42] fix: correct the parameters in edge_edge_intersection_2

The parameter on the first edge had the wrong sign and the second edge
was never bounded.
---
 src/geometry/edge_edge_intersect.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geometry/edge_edge_intersect.rs b/src/geometry/edge_edge_intersect.rs
index ed0bdd2..94d5bc7 100644
--- a/src/geometry/edge_edge_intersect.rs
+++ b/src/geometry/edge_edge_intersect.rs
@@ -44,13 +44,16 @@ where
         return None; // Parallel lines
     }
 
-    let d2 = (p1[0].clone() - p3[0].clone()) * (p4[1].clone() - p3[1].clone())
-        - (p1[1].clone() - p3[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d2 = (p3[0].clone() - p1[0].clone()) * (p4[1].clone() - p3[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d3 = (p3[0].clone() - p1[0].clone()) * (p2[1].clone() - p1[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p2[0].clone() - p1[0].clone());
 
     let t = d2 / d1.clone();
+    let u = d3 / d1.clone();
 
     // Check if intersection is within both line segments
-    if t >= T::zero() && t <= T::one() {
+    if t >= T::zero() && t <= T::one() && u >= T::zero() && u <= T::one() {
         let x = p1[0].clone() + t.clone() * (p2[0].clone() - p1[0].clone());
         let y = p1[1].clone() + t * (p2[1].clone() - p1[1].clone());
         Some(Point::<T, N>::from_vals(from_fn(|i| match i {
-- 
2.43.0


From 2c0e0065cbf80d6b456e8d963266895088dc55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:59 +0000
Subject: [PATCH 06/42] fix: use the scalar's own tolerance in
 Segment::is_point_on

---
 src/geometry/segment.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/geometry/segment.rs b/src/geometry/segment.rs
index ef433cd..5c7685a 100755
--- a/src/geometry/segment.rs
+++ b/src/geometry/segment.rs
@@ -24,7 +24,6 @@ use crate::{
     geometry::{
         point::{Point, PointOps},
         spatial_element::SpatialElement,
-        util::EPS,
         vector::{Vector, VectorOps},
     },
     numeric::scalar::Scalar,
@@ -136,7 +135,7 @@ where
             if db != T::zero() {
                 let t = &da / &db;
                 if let Some(prev_t) = &t_opt {
-                    if (&t - &prev_t).abs() > T::from(EPS) {
+                    if (&t - &prev_t).abs() > T::tolerance() {
                         return false;
                     }
                 } else {
-- 
2.43.0


From 219fc61c7930a36485beb3e8dc7aa4e57e7a8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:01 +0000
Subject: [PATCH 07/42] fix: use every coordinate in CanonicalEdge::parameter_t

---
 src/geometry/canonical_edge.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geometry/canonical_edge.rs b/src/geometry/canonical_edge.rs
index ea7fa15..0ef5a41 100644
--- a/src/geometry/canonical_edge.rs
+++ b/src/geometry/canonical_edge.rs
@@ -56,13 +56,17 @@ impl<T: Scalar, const N: usize> CanonicalEdge<T, N> {
         let edge_vec = &self.b - &self.a;
         let point_vec = p - &self.a;
 
-        let edge_len2 = &(&edge_vec[0] * &edge_vec[0]) + &(&edge_vec[1] * &edge_vec[1]);
+        let mut edge_len2 = T::zero();
+        let mut dot = T::zero();
+        for i in 0..N {
+            edge_len2 += &(&edge_vec[i] * &edge_vec[i]);
+            dot += &(&point_vec[i] * &edge_vec[i]);
+        }
 
         if edge_len2.is_zero() {
             return T::zero();
         }
 
-        let dot = &(&point_vec[0] * &edge_vec[0]) + &(&point_vec[1] * &edge_vec[1]);
         dot / edge_len2
     }
 }
-- 
2.43.0


From 80d5f57ce0eda49cf9f9f2c21f9b997425a451d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:34 +0000
Subject: [PATCH 08/42] fix: keep interval radii upper bounds under rounding

---
 src/numeric/ball.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index 6593619..7c51144 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -61,12 +61,18 @@ impl Ball {
         (up - x).abs()
     }
 
+    /// The radius sums are rounded to nearest: scale them up to an upper bound.
+    #[inline]
+    fn outward(r: f64) -> f64 {
+        r * (1.0 + 4.0 * f64::EPSILON)
+    }
+
     #[inline]
     pub fn add(self, o: Self) -> Self {
         let (s, e) = two_sum(self.m, o.m);
         Ball {
             m: s,
-            r: self.r + o.r + e.abs() + Self::widen_ulp(s),
+            r: Self::outward(self.r + o.r + e.abs() + Self::widen_ulp(s)),
         }
     }
     #[inline]
@@ -86,11 +92,13 @@ impl Ball {
         let (p, e) = two_prod(self.m, o.m);
         Ball {
             m: p,
-            r: self.m.abs() * o.r
-                + o.m.abs() * self.r
-                + self.r * o.r
-                + e.abs()
-                + Self::widen_ulp(p),
+            r: Self::outward(
+                self.m.abs() * o.r
+                    + o.m.abs() * self.r
+                    + self.r * o.r
+                    + e.abs()
+                    + Self::widen_ulp(p),
+            ),
         }
     }
 
@@ -101,7 +109,8 @@ impl Ball {
         }
         let denom = self.m.abs() * (self.m.abs() - self.r);
         let m = 1.0 / self.m;
-        let r = self.r / denom; // outward-bound
+        // 1 / m is rounded as well
+        let r = Self::outward(self.r / denom + Self::widen_ulp(m));
         Ball { m, r }
     }
 
-- 
2.43.0


From 069e1c9e1e52bbd664b29d55d12ce9a4ad543ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:58 +0000
Subject: [PATCH 09/42] fix: enclose rationals that are not exact doubles

---
 src/numeric/ball.rs       | 8 ++++++++
 src/numeric/lazy_exact.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index 7c51144..c295954 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -46,6 +46,14 @@ impl Ball {
     pub fn from_f64(x: f64) -> Self {
         Ball { m: x, r: 0.0 }
     }
+    /// A value that was truncated to `x`.
+    #[inline]
+    pub fn from_truncated(x: f64) -> Self {
+        Ball {
+            m: x,
+            r: Self::widen_ulp(x),
+        }
+    }
     #[inline]
     pub fn unknown() -> Self {
         Ball {
diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 82cafe5..70edae3 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -825,7 +825,14 @@ impl LazyExact {
         use Kind::*;
         match kind {
             LeafApprox(a) => Ball::from_f64(a.0),
-            LeafExact(e) => Ball::from_f64(e.to_f64().unwrap_or(0.0)),
+            LeafExact(e) => {
+                let m = e.to_f64().unwrap_or(0.0);
+                if m.is_finite() && CgarRational::from(m) == **e {
+                    Ball::from_f64(m)
+                } else {
+                    Ball::from_truncated(m)
+                }
+            }
             Add(a, b) => a.ball_ref().add(b.ball()),
             Sub(a, b) => a.ball_ref().sub(b.ball()),
             Mul(a, b) => a.ball_ref().mul(b.ball()),
-- 
2.43.0


From f7ba0786363cdee9526c87b3250c84cfa7124fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:59 +0000
Subject: [PATCH 10/42] fix: compare -0.0 equal to 0.0 in LazyExact::cmp_ref

---
 src/numeric/lazy_exact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 70edae3..abe5a9a 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -159,7 +159,7 @@ impl Scalar for LazyExact {
 
         // 2) If both are exact doubles (or both reduced to machine floats)
         if let (Some(da), Some(db)) = (a.as_f64_if_exact(), b.as_f64_if_exact()) {
-            return da.total_cmp(&db);
+            return da.partial_cmp(&db).unwrap(); // both finite; -0.0 equals 0.0
         }
 
         // 3) Exact comparator WITHOUT building (a-b) node.
-- 
2.43.0


From a198d7bc55ecef8b62ed4bf01a850d086cd75fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:00 +0000
Subject: [PATCH 11/42] fix: widen the double interval of rationals that are
 not doubles

---
 src/numeric/cgar_rational.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/numeric/cgar_rational.rs b/src/numeric/cgar_rational.rs
index 6ddea2e..06a8df8 100644
--- a/src/numeric/cgar_rational.rs
+++ b/src/numeric/cgar_rational.rs
@@ -24,6 +24,7 @@ use num_traits::ToPrimitive;
 use rug::Rational;
 
 use crate::{
+    geometry::util::{f64_next_down, f64_next_up},
     numeric::{
         cgar_f64::CgarF64,
         lazy_exact::LazyExact,
@@ -117,7 +118,13 @@ impl Scalar for CgarRational {
     }
 
     fn double_interval(&self) -> Option<(f64, f64)> {
-        Some((self.0.to_f64(), self.0.to_f64()))
+        let x = self.0.to_f64();
+        if x.is_finite() && self.0 == x {
+            Some((x, x))
+        } else {
+            // to_f64 truncates: the number lies strictly between the neighbours
+            Some((f64_next_down(x), f64_next_up(x)))
+        }
     }
 
     fn ball_center_f64(&self) -> f64 {
-- 
2.43.0


From 5de972f5e834f3c731800fc32b47a4a67a550b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:55 +0000
Subject: [PATCH 12/42] fix: prune box queries with proven bounds, not with
 rounded coordinates

---
 src/geometry/aabb_tree.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 8d0f4a5..f99d003 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -587,11 +587,15 @@ fn approx_from_exact<T: Scalar, const N: usize, P: SpatialElement<T, N>>(
     let mut mn = [0.0; N];
     let mut mx = [0.0; N];
     for i in 0..N {
-        // outward-safe: step one ULP past the rounded extremes
-        let lo = as_f64(&a.min[i]);
-        let hi = as_f64(&a.max[i]);
-        mn[i] = f64_next_down(lo);
-        mx[i] = f64_next_up(hi);
+        // outward-safe: proven bounds if known, else one ULP past the rounded extremes
+        mn[i] = match a.min[i].double_interval() {
+            Some((lo, _)) => lo,
+            None => f64_next_down(as_f64(&a.min[i])),
+        };
+        mx[i] = match a.max[i].double_interval() {
+            Some((_, hi)) => hi,
+            None => f64_next_up(as_f64(&a.max[i])),
+        };
     }
     (mn, mx)
 }
-- 
2.43.0


From b18f71d85d56af4435821de8d9bbb557d04d68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:43 +0000
Subject: [PATCH 13/42] fix: rotate around the border vertex when rebuilding
 boundary loops

The walk stepped to the far end of the spoke, so at vertices with two or
more faces the border was linked to an edge that does not leave the
vertex, or to itself.
---
 src/mesh/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 85eebc1..9c31042 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -141,8 +141,8 @@ impl_mesh! {
                     break cand;
                 }
 
-                // Keep rotating around the same vertex via the interior side of `cand`
-                t = self.half_edges[cand].twin;
+                // Keep rotating around the same vertex from `cand`
+                t = cand;
                 if t >= m || self.half_edges[t].removed || !self.face_ok(t) {
                     // If we lose a valid interior, bail to self-loop
                     break b;
-- 
2.43.0


From 0e7259c2ab547dc8d14638d3cd194e8093e41588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:45 +0000
Subject: [PATCH 14/42] fix: never hand out a removed vertex when looking one
 up by position

---
 src/mesh/core.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 9c31042..c2ee217 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -520,7 +520,9 @@ impl_mesh! {
         // center cell first
         if let Some(bucket) = self.vertex_spatial_hash.get(&center_key) {
             for &vi in bucket {
-                if kernel::are_approximately_equal(&self.vertices[vi].position, pos) {
+                if !self.vertices[vi].removed
+                    && kernel::are_approximately_equal(&self.vertices[vi].position, pos)
+                {
                     return (vi, true);
                 }
             }
@@ -557,7 +559,9 @@ impl_mesh! {
             let key = Self::pack_key3(kx + dx, ky + dy, kz + dz);
             if let Some(bucket) = self.vertex_spatial_hash.get(&key) {
                 for &vi in bucket {
-                    if kernel::are_equal(&self.vertices[vi].position, pos) {
+                    if !self.vertices[vi].removed
+                        && kernel::are_equal(&self.vertices[vi].position, pos)
+                    {
                         return (vi, true);
                     }
                 }
-- 
2.43.0


From 2be87897c8e94569d2b4fd0d10eb41dbef4be97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:12 +0000
Subject: [PATCH 15/42] fix: keep the boundary loop linked when a border edge
 is split

Splitting an edge with a face on one side only left the two new border
half-edges pointing at themselves, so their neighbours still named the
removed half-edge. The end points could also keep a removed half-edge.
Both are now relinked.
---
 src/mesh/core.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index c2ee217..3d35521 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -861,15 +861,19 @@ impl_mesh! {
                 self.half_edges[ex_he_cb].twin = he_bc;
             }
 
-            // Create two new null faces for border half-edges bhe_wc (w->c) and bhe_aw (a->w)
-            self.half_edges[bhe_wc].face = None;
-            // self-loop
-            self.half_edges[bhe_wc].next = bhe_wc;
-            self.half_edges[bhe_wc].prev = bhe_wc;
+            // Put the border half-edges a->w and w->c in the boundary loop in place of a->c
+            let border_prev = self.half_edges[he_ac].prev;
+            let border_next = self.half_edges[he_ac].next;
 
             self.half_edges[bhe_aw].face = None;
-            self.half_edges[bhe_aw].next = bhe_aw;
-            self.half_edges[bhe_aw].prev = bhe_aw;
+            self.half_edges[bhe_aw].next = bhe_wc;
+            self.half_edges[bhe_aw].prev = border_prev;
+            self.half_edges[border_prev].next = bhe_aw;
+
+            self.half_edges[bhe_wc].face = None;
+            self.half_edges[bhe_wc].next = border_next;
+            self.half_edges[bhe_wc].prev = bhe_aw;
+            self.half_edges[border_next].prev = bhe_wc;
 
             // Edge map updates
             self.edge_map.insert((c, w), he_cw);
@@ -880,10 +884,10 @@ impl_mesh! {
             self.edge_map.insert((a, w), bhe_aw);
 
             // Update representative half-edges at vertices
-            self.vertices[w].half_edge.get_or_insert(he_wb);
-            self.vertices[a].half_edge.get_or_insert(he_ab);
-            self.vertices[b].half_edge.get_or_insert(he_bc);
-            self.vertices[c].half_edge.get_or_insert(he_cw);
+            self.vertices[w].half_edge = Some(he_wb);
+            self.vertices[a].half_edge = Some(he_ab);
+            self.vertices[b].half_edge = Some(he_bc);
+            self.vertices[c].half_edge = Some(he_cw);
 
             if update_tree {
                 // AABB tree updates (invalidate old real face; null face not in tree originally)
-- 
2.43.0


From 32d781dcd238bd3dd6495115609a61ec4b007b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:19 +0000
Subject: [PATCH 16/42] fix: locate points on the face that contains them, in
 2D and 3D

Face location accepted the first face whose plane projection contains
the point, even when the point is off that plane, so a point of a split
face could be reported on another face of the solid. It also panicked for
planar meshes once a face was split. Off-plane faces are now used only
when no face contains the point.
---
 src/mesh/topology.rs | 85 ++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 47 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 7854153..4d1c809 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1305,53 +1305,36 @@ impl_mesh! {
         let zero = T::zero();
         let one  = T::one();
 
-        #[inline]
-        fn live_face_degenerate<TS: Scalar, const M: usize>(mesh: &Mesh<TS, M>, f: usize) -> bool
-        where
-            Point<TS, M>: PointOps<TS, M, Vector = Vector<TS, M>>,
-            Vector<TS, M>: VectorOps<TS, M>,
-            Vector<TS, 3>: VectorOps<TS, 3> + Cross3<TS>,
-            for<'a> &'a TS: Add<&'a TS, Output = TS>
-                        + Sub<&'a TS, Output = TS>
-                        + Mul<&'a TS, Output = TS>,
-        {
-            // vertices (A,B,C) of face f
-            let [i0, i1, i2] = {
-                let e0 = mesh.faces[f].half_edge;
-                let e1 = mesh.half_edges[e0].next;
-                let a = mesh.half_edges[mesh.half_edges[e0].prev].vertex; // tail(e0)
-                let b = mesh.half_edges[e0].vertex;                       // head(e0)
-                let c = mesh.half_edges[e1].vertex;                       // head(e1)
-                [a, b, c]
-            };
-
-            // zero-length edge => degenerate
-            let ab = (&mesh.vertices[i1].position - &mesh.vertices[i0].position).as_vector();
-            let ac = (&mesh.vertices[i2].position - &mesh.vertices[i0].position).as_vector();
-            let bc = (&mesh.vertices[i2].position - &mesh.vertices[i1].position).as_vector();
-            if ab.dot(&ab).is_zero() || ac.dot(&ac).is_zero() || bc.dot(&bc).is_zero() {
-                return true;
-            }
-
-            // collinear A,B,C => degenerate (3D-safe; for 2D z=0 it still works)
-            let ab3 = ab.0.as_vector_3();
-            let ac3 = ac.0.as_vector_3();
-            let n = ab3.cross(&ac3);               // compute once
-            // exact test with LazyExact: only true if *exactly* collinear
-            n[0].is_zero() && n[1].is_zero() && n[2].is_zero()
-        }
-
         // Exact barycentrics (l0,l1,l2) with respect to face f, using current vertex positions
-        let bary_live = |f: usize| -> (T, T, T) {
+        // (None for a degenerate face).
+        let bary_live = |f: usize| -> Option<(T, T, T)> {
             let [i0,i1,i2] = self.face_vertices(f);
             barycentric_coords(
                 point,
                 &self.vertices[i0].position,
                 &self.vertices[i1].position,
                 &self.vertices[i2].position,
-            ).unwrap()
+            )
         };
 
+        // The barycentrics are those of the point's projection; tell whether the point itself
+        // lies in the plane of face f.
+        let on_plane = |f: usize, l0: &T, l1: &T, l2: &T| -> bool {
+            let [i0,i1,i2] = self.face_vertices(f);
+            let (a, b, c) = (
+                &self.vertices[i0].position,
+                &self.vertices[i1].position,
+                &self.vertices[i2].position,
+            );
+            (0..N).all(|i| {
+                let x = &(&(l0 * &a[i]) + &(l1 * &b[i])) + &(l2 * &c[i]);
+                (&x - &point[i]).is_zero()
+            })
+        };
+
+        // First face containing only the projection, used when no face contains the point.
+        let mut projected: Option<usize> = None;
+
         // neighbors of a live face via twins (skip borders / removed faces)
         let push_live_neighbors = |mesh: &Mesh<T, N>, f: usize, q: &mut VecDeque<usize>, seen: &AHashSet<usize>| {
             let (e0,e1,e2) = self.face_edges(f);
@@ -1378,16 +1361,20 @@ impl_mesh! {
 
             if !self.faces[f].removed {
                 // Barycentric-driven membership and priority: Edge -> Vertex -> Inside
-                let (l0, l1, l2) = bary_live(f);
-                let neg = |x: &T| -> bool { x.is_negative() };
+                if let Some((l0, l1, l2)) = bary_live(f) {
+                    let neg = |x: &T| -> bool { x.is_negative() };
 
-                if neg(&l0) || neg(&l1) || neg(&l2) {
-                    // Off this face; explore neighbors
-                    push_live_neighbors(self, f, &mut q, &seen);
-                    continue;
+                    if !(neg(&l0) || neg(&l1) || neg(&l2)) {
+                        if on_plane(f, &l0, &l1, &l2) {
+                            return self.location_on_face(f, point);
+                        }
+                        projected.get_or_insert(f);
+                    }
                 }
 
-                return self.location_on_face(f, point);
+                // Off this face; explore neighbors
+                push_live_neighbors(self, f, &mut q, &seen);
+                continue;
             }
 
             // Removed face: descend via recorded triangles (use current vertex positions for test)
@@ -1434,11 +1421,14 @@ impl_mesh! {
 
         for f in 0..self.faces.len() {
             if self.faces[f].removed { continue; }
-            if live_face_degenerate(self, f) { continue; }
 
-            let (l0,l1,l2) = bary_live(f);
+            let Some((l0,l1,l2)) = bary_live(f) else { continue };
             let neg = |x: &T| -> bool { x.is_negative() };
             if neg(&l0) || neg(&l1) || neg(&l2) { continue; }
+            if !on_plane(f, &l0, &l1, &l2) {
+                projected.get_or_insert(f);
+                continue;
+            }
 
             let zc = l0.is_zero() as u8 + l1.is_zero() as u8 + l2.is_zero() as u8;
 
@@ -1461,6 +1451,7 @@ impl_mesh! {
         if let Some((f, he, u)) = best_edge   { return FindFaceResult::OnEdge { f, he, u }; }
         if let Some((f, v))     = best_vertex { return FindFaceResult::OnVertex { f, v }; }
         if let Some((f, bary))  = best_inside { return FindFaceResult::Inside { f, bary }; }
+        if let Some(f)          = projected   { return self.location_on_face(f, point); }
 
         panic!("find_valid_face: could not locate a face/edge/vertex for the point starting from {}", start_face);
     }
-- 
2.43.0


From 1960d8730d929d4d741f6cb7b8eb0833b506d1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:53 +0000
Subject: [PATCH 17/42] fix: locate an edge that touches the vertex

Looking up a split edge with a point at one of its old ends returned the
first edge of some face at that vertex, which need not touch it.
---
 src/mesh/topology.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 4d1c809..027f55d 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1577,8 +1577,13 @@ impl_mesh! {
                 FindFaceResult::OnEdge { he, .. } => {
                     return he;
                 },
-                FindFaceResult::OnVertex { f, .. } => {
-                    return self.half_edges[self.faces[f].half_edge].twin;
+                FindFaceResult::OnVertex { f, v } => {
+                    // The edge of that face that ends at the vertex.
+                    let mut e = self.faces[f].half_edge;
+                    while self.half_edges[e].vertex != v {
+                        e = self.half_edges[e].next;
+                    }
+                    return e;
                 },
                 FindFaceResult::Inside { f, .. } => {
                     // Choose the boundary edge of that face that is closest.
-- 
2.43.0


From 4ef04039047db3f1192ee000d7b71bd05ad2044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:09 +0000
Subject: [PATCH 18/42] fix: keep the boundary loop when a border edge is
 collapsed

The commit step treated the neighbours of a border half-edge as sides of a
missing face and removed them. Only the border half-edge goes now and the
loop is closed over it. A face with nothing on its other two edges used to
leave an edge without faces behind; that edge is removed too.
---
 src/mesh/edge_collapse.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 34a7c9d..f2e8b5e 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -427,8 +427,16 @@ impl_mesh! {
         let splice_r_from = if right_exists { self.half_edges[he_bv].prev } else { usize::MAX };
         let splice_r_to   = if right_exists { self.half_edges[he_ub].next } else { usize::MAX };
 
-        // Half-edges to remove (the two faces' 6 interior half-edges)
-        let remove_set = [he_uv, he_vu, he_va, he_au, he_ub, he_bv];
+        // Half-edges to remove (the two faces' 6 interior half-edges; on a border side only
+        // the border half-edge itself, its neighbours in the boundary loop stay)
+        let remove_set = [
+            he_uv,
+            he_vu,
+            if left_exists { he_va } else { he_uv },
+            if left_exists { he_au } else { he_uv },
+            if right_exists { he_ub } else { he_vu },
+            if right_exists { he_bv } else { he_vu },
+        ];
 
         // ---------- 2b. Collect all half-edges incident to u or v (for retargeting) ----------
         let affected_u = self.collect_incident_half_edges(u);
@@ -460,10 +468,34 @@ impl_mesh! {
         if left_exists {
             self.half_edges[splice_l_from].next = splice_l_to;
             self.half_edges[splice_l_to].prev = splice_l_from;
+        } else {
+            self.half_edges[he_au].next = he_va;
+            self.half_edges[he_va].prev = he_au;
         }
         if right_exists {
             self.half_edges[splice_r_from].next = splice_r_to;
             self.half_edges[splice_r_to].prev = splice_r_from;
+        } else {
+            self.half_edges[he_bv].next = he_ub;
+            self.half_edges[he_ub].prev = he_bv;
+        }
+
+        // A removed face with nothing on its other two edges takes that edge with it.
+        for (exists, h_in, h_out) in [(left_exists, he_va, he_au), (right_exists, he_ub, he_bv)] {
+            if !exists { continue; }
+            let t_in = self.half_edges[h_in].twin;
+            let t_out = self.half_edges[h_out].twin;
+            if self.half_edges[t_in].face.is_some() || self.half_edges[t_out].face.is_some() {
+                continue;
+            }
+            for (from, to) in [(t_out, t_in), (t_in, t_out)] {
+                let p = self.half_edges[from].prev;
+                let n = self.half_edges[to].next;
+                self.half_edges[p].next = n;
+                self.half_edges[n].prev = p;
+            }
+            self.half_edges[t_in].removed = true;
+            self.half_edges[t_out].removed = true;
         }
 
         // ---------- 7. Mark faces removed ----------
-- 
2.43.0


From 9dd6811703a22b90d18e9979d0fb1c74d520858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:09 +0000
Subject: [PATCH 19/42] fix: refuse collapses that pinch the border or fold
 faces together

The link condition compared common neighbours only. It let an inner edge
between two border vertices collapse although that pinches the surface,
and let a tetrahedron collapse to two faces lying on each other.
---
 src/mesh/edge_collapse.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index f2e8b5e..cc348c1 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -151,7 +151,7 @@ impl_mesh! {
     }
 
     /// (A) Triangle link condition, **robust** to buggy pr.common_neighbors / pr.is_border_edge.
-    /// interior: intersection(N(v0)\{v1}, N(v1)\{v0}) == {a,b}
+    /// interior: intersection(N(v0)\{v1}, N(v1)\{v0}) == {a,b}, and the border is not pinched
     /// border:   ... == {a}
     pub fn check_link_condition_triangle(&self, v0: usize, v1: usize) -> bool {
         let Some(pr) = self.ring_pair(v0, v1) else { return false; };
@@ -166,13 +166,40 @@ impl_mesh! {
         if let Some(a) = pr.opposite_a { expected.insert(a); }
         if let Some(b) = pr.opposite_b { expected.insert(b); }
 
-        match self.opposites_count(&pr) {
-            2 => common == expected,           // interior: must be {a,b}
-            1 => common == expected,           // border:   must be {a}
-            _ => false,                        // 0 or >2 ⇒ invalid configuration
+        if common != expected { return false; }
+
+        match (pr.opposite_a, pr.opposite_b) {
+            // interior: must be {a,b}
+            (Some(a), Some(b)) => {
+                // joining two border vertices pinches the surface unless one side is a lone face
+                let lone = |x: usize| self.is_open_edge(v0, x) && self.is_open_edge(v1, x);
+                if pr.ring0.is_border && pr.ring1.is_border && !lone(a) && !lone(b) {
+                    return false;
+                }
+                // faces (v0,a,b) and (v1,a,b) would come to lie on each other
+                !(self.has_face(v0, a, b) && self.has_face(v1, a, b))
+            }
+            (Some(_), None) | (None, Some(_)) => true, // border: must be {a}
+            _ => false,                                // invalid configuration
         }
     }
 
+    /// True if some live face has exactly these corners.
+    fn has_face(&self, a: usize, b: usize, c: usize) -> bool {
+        [(a, b), (b, a)].into_iter().any(|(x, y)| {
+            self.half_edge_between(x, y).is_some_and(|h| {
+                self.face_ok(h) && self.half_edges[self.half_edges[h].next].vertex == c
+            })
+        })
+    }
+
+    /// True if an edge of the mesh lacks a face on one side.
+    fn is_open_edge(&self, a: usize, b: usize) -> bool {
+        self.half_edge_between(a, b).is_some_and(|h| {
+            !self.face_ok(h) || !self.face_ok(self.half_edges[h].twin)
+        })
+    }
+
     /// (B1) Duplicate-edge creation check, computed from raw rings.
     pub fn would_create_duplicate_edges(&self, v0: usize, v1: usize) -> bool {
         let Some(pr) = self.ring_pair(v0, v1) else { return true; };
-- 
2.43.0


From 0c311d5e1b26e0a0195f52242218059963c57f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:09 +0000
Subject: [PATCH 20/42] fix: honour the area limit and normal flip options of a
 collapse

Both options were ignored: the area was compared with a fixed tolerance
and flipped faces were never refused.
---
 src/mesh/edge_collapse.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index cc348c1..8a66b53 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -267,11 +267,14 @@ impl_mesh! {
 
         let survivors = self.surviving_faces_after_collapse(v0, v1);
         for &f in &survivors {
-            let a2x4 = self.tri_area2_after_move_face(f, v0, v1, &p_star);
-            let eps = T::tolerance();
-            if a2x4 <= &(&eps * &eps) * &(&eps * &eps) {
+            let (before, after) = self.face_normals_around_collapse(f, v0, v1, &p_star);
+            // (2*area)^2 against 4*eps
+            if after.dot(&after) <= &T::from(4) * &opts.area_eps2 {
                 return Err(CollapseReject::DegenerateFace);
             }
+            if opts.forbid_normal_flip && before.dot(&after) < T::zero() {
+                return Err(CollapseReject::NormalFlip);
+            }
         }
 
         Ok(p_star)
@@ -291,29 +294,25 @@ impl_mesh! {
         out
     }
 
-    fn tri_area2_after_move_face(
+    /// Normals of face `f` (twice its area long), as it is and with both end points at `p_star`.
+    fn face_normals_around_collapse(
         &self,
         f: usize,
         v_keep: usize,
         v_gone: usize,
         p_star: &Point<T, N>,
-    ) -> T
+    ) -> (Vector<T, N>, Vector<T, N>)
     where
         Vector<T, N>: VectorOps<T, N> + Cross3<T>,
     {
-        let [i, j, k] = self.face_vertices(f);
+        let corners = self.face_vertices(f);
+        let normal = |p: [&Point<T, N>; 3]| (p[1] - p[0]).as_vector().cross(&(p[2] - p[0]).as_vector());
 
-        let pos = |idx: usize| -> &Point<T, N> {
+        let before = corners.map(|idx| &self.vertices[idx].position);
+        let after = corners.map(|idx| {
             if idx == v_keep || idx == v_gone { p_star } else { &self.vertices[idx].position }
-        };
-        let pa = pos(i);
-        let pb = pos(j);
-        let pc = pos(k);
-
-        let ab = (pb - pa).as_vector();
-        let ac = (pc - pa).as_vector();
-        let n = ab.cross(&ac);
-        n.dot(&n) // (2*area)^2
+        });
+        (normal(before), normal(after))
     }
 
     /// Begin collapse from a half-edge handle `he_ab`.
-- 
2.43.0


From 2fcadbb948711fa9c01c2bc644b44864cd0735ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:15 +0000
Subject: [PATCH 21/42] fix: place coplanar triangle contacts in the plane of
 the triangles

The dropped coordinate was copied from one corner, so contact points of
triangles in a tilted plane were off the plane.
---
 src/geometry/tri_tri_intersect.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index 4456f51..8e74f58 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -21,6 +21,7 @@
 // SOFTWARE.
 
 use std::{
+    array::from_fn,
     cmp::Ordering,
     ops::{Add, Div, Mul, Sub},
 };
@@ -179,14 +180,14 @@ where
 
     // 3) collect vertices of one triangle inside the other
     let mut pts: Vec<Point<T, N>> = Vec::new();
-    for point in &t1 {
+    for (point, point3) in t1.iter().zip([p[2], p[0], p[1]]) {
         if point_in_tri_2d(point, &t2) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, p[2]));
+            pts.push(point3.clone());
         }
     }
-    for point in &t2 {
+    for (point, point3) in t2.iter().zip([q[2], q[0], q[1]]) {
         if point_in_tri_2d(point, &t1) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, q[2]));
+            pts.push(point3.clone());
         }
     }
 
@@ -196,8 +197,12 @@ where
     for (a, b) in &edges1 {
         for (c, d) in &edges2 {
             if let Some(s) = segment_intersect_2d(a, b, c, d) {
-                // Here we use p0 as the reference for the dropped axis, but you could interpolate if desired
-                pts.push(back_project_to_3d(&s.a, i0, i1, drop, &p[2]));
+                // the dropped coordinate follows from the plane through p[2] with normal n
+                let mut point3 = back_project_to_3d(&s.a, i0, i1, drop, &p[2]);
+                let off =
+                    &(&n[i0] * &(&point3[i0] - &p[2][i0])) + &(&n[i1] * &(&point3[i1] - &p[2][i1]));
+                point3[drop] = &p[2][drop] - &(&off / &n[drop]);
+                pts.push(point3);
             }
         }
     }
@@ -230,9 +235,7 @@ where
             for w in 0..hull_idx.len() {
                 let i = hull_idx[w];
                 let j = hull_idx[(w + 1) % hull_idx.len()];
-                let a3 = back_project_to_3d(&pts2d[i], i0, i1, drop, p[2]);
-                let b3 = back_project_to_3d(&pts2d[j], i0, i1, drop, p[2]);
-                segs.push(Segment::new(&a3, &b3));
+                segs.push(Segment::new(&uniq[i], &uniq[j]));
             }
             TriTriIntersectionResult::CoplanarPolygon(segs)
         }
@@ -661,7 +664,7 @@ where
         + Add<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    let (i0, i1, drop) = coplanar_axes(n);
+    let (i0, i1, _) = coplanar_axes(n);
     let a = project_to_2d(a3, i0, i1);
     let b = project_to_2d(b3, i0, i1);
     let t = [
@@ -749,12 +752,7 @@ where
         return None;
     }
 
-    let lerp3 = |t: &T| {
-        let ox = &dx * t;
-        let oy = &dy * t;
-        let p2 = Point2::<T>::from_vals([&a[0] + &ox, &a[1] + &oy]);
-        back_project_to_3d::<T, N>(&p2, i0, i1, drop, a3) // drop axis from a3
-    };
+    let lerp3 = |t: &T| Point::<T, N>::from_vals(from_fn(|k| &a3[k] + &(&(&b3[k] - &a3[k]) * t)));
     let pa = lerp3(&t0);
     let pb = lerp3(&t1);
     if (&pb - &pa)
-- 
2.43.0


From f38faa04e7274120f9c29ed8227ce5a9c3b9012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:39 +0000
Subject: [PATCH 22/42] fix: report coplanar triangles that touch in a single
 point

They were reported as disjoint, unlike triangles in crossing planes.
---
 src/geometry/tri_tri_intersect.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index 8e74f58..640013a 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -223,6 +223,7 @@ where
     }
 
     match uniq.len() {
+        1 => TriTriIntersectionResult::Coplanar(Segment::new(&uniq[0], &uniq[0])),
         2 => TriTriIntersectionResult::Coplanar(Segment::new(&uniq[0], &uniq[1])),
         m if m >= 3 => {
             // 1) project all uniq back to 2D
-- 
2.43.0


From 7dd5331a6f89e97f008d45a3fa8f23441721705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:09 +0000
Subject: [PATCH 23/42] fix: test the border edges themselves in the planar
 inside test

The edge after each border edge was tested instead, and a corner at the
level of the point was counted twice.
---
 src/mesh/topology.rs | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 027f55d..408873e 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -743,8 +743,8 @@ impl_mesh! {
             + Mul<&'a T, Output = T>
             + Div<&'a T, Output = T>
     {
-        let v1 = self.half_edges[he].vertex;
-        let v2 = self.half_edges[self.half_edges[he].next].vertex;
+        let v1 = self.half_edges[self.half_edges[he].prev].vertex;
+        let v2 = self.half_edges[he].vertex;
 
         let p1 = &self.vertices[v1].position;
         let p2 = &self.vertices[v2].position;
@@ -752,26 +752,14 @@ impl_mesh! {
         // Ray casting from point horizontally to the right
         // Check if edge crosses the horizontal ray
 
-        // Both points above or below the ray
-        if ((&p1[1] - &point[1]).is_positive() && (&p2[1] - &point[1]).is_positive()) ||
-        ((&p1[1] - &point[1]).is_negative() && (&p2[1] - &point[1]).is_negative()) {
+        // Count an end at the level of the ray as below it, so that a corner
+        // is passed once and a horizontal edge never.
+        if (&p1[1] - &point[1]).is_positive() == (&p2[1] - &point[1]).is_positive() {
             return false;
         }
 
-        // Edge is horizontal and at same y-level as point
-        if (&p1[1] - &p2[1]).is_zero() && (&p1[1] - &point[1]).is_zero() {
-            // Check if point is between edge endpoints
-            let min_x = if (&p1[0] - &p2[0]).is_negative() { &p1[0] } else { &p2[0] };
-            let max_x = if (&p1[0] - &p2[0]).is_positive() { &p1[0] } else { &p2[0] };
-            return !(&point[0] - min_x).is_negative() && !(&point[0] - max_x).is_positive();
-        }
-
         // Calculate intersection x-coordinate
         let dy = &p2[1] - &p1[1];
-        if dy.is_zero() {
-            return false;
-        }
-
         let t = &(&point[1] - &p1[1]) / &dy;
         let x_intersect = &p1[0] + &(&t * &(&p2[0] - &p1[0]));
 
-- 
2.43.0


From fc5818c19386c7b7448bf24939dd866f57ffb470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:11 +0000
Subject: [PATCH 24/42] fix: sign of the edge parameter of a ray cast from a
 vertex

Rays into the face were rejected and rays missing the opposite edge
accepted.
---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 408873e..3198ef5 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -941,7 +941,7 @@ impl_mesh! {
 
         let inv_det = T::one() / det;
         let t = &rhs.cross(&edge_vec).dot(&face_normal) * &inv_det;
-        let u = &geodesic_dir.cross(&rhs).dot(&face_normal) * &inv_det;
+        let u = &rhs.cross(&geodesic_dir).dot(&face_normal) * &inv_det;
 
         // Validate solution
         if t <= tol || u < T::zero() || u > T::one() {
-- 
2.43.0


From b8ef089a0cc58e55e27048c4153d854424af1cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:42 +0000
Subject: [PATCH 25/42] fix: place the enclosing triangle of a triangulation
 around its points

Its apex was at (cy + 2) * r instead of cy + 2 r, and in batches its
centre was at four times the centre of the points, so points away from
the origin could lie outside it.
---
 src/operations/triangulation/delaunay.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 5421113..9fe93c9 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -139,8 +139,8 @@ where
             let dx = &max[0] - &min[0];
             let dy = &max[1] - &min[1];
             let delta = dx.max(dy);
-            let cx = (&min[0] + &max[0]) * T::from_num_den(2, 1);
-            let cy = (&min[1] + &max[1]) * T::from_num_den(2, 1);
+            let cx = (&min[0] + &max[0]) * T::from_num_den(1, 2);
+            let cy = (&min[1] + &max[1]) * T::from_num_den(1, 2);
             let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
 
             super_triangles.push(Some((cx, cy, r)));
@@ -165,7 +165,7 @@ where
             points.extend([
                 Point2::<T>::from_vals([
                     T::from(cx.clone()),
-                    T::from(&(cy + &T::from_num_den(2, 1)) * &r),
+                    T::from(cy + &(&T::from_num_den(2, 1) * &r)),
                 ]),
                 Point2::<T>::from_vals([T::from(cx - &(&sqrt_3 * &r)), T::from(cy - &r)]),
                 Point2::<T>::from_vals([T::from(cx + &(&sqrt_3 * &r)), T::from(cy - &r)]),
@@ -256,7 +256,7 @@ where
         let sqrt_3 = T::from(SQRT_3);
         let p_super0 = Point2::<T>::from_vals([
             T::from(cx.clone()),
-            T::from(&(&cy + &T::from_num_den(2, 1)) * &r),
+            T::from(&cy + &(&T::from_num_den(2, 1) * &r)),
         ]);
         let p_super1 = Point2::<T>::from_vals([T::from(&cx - &(&sqrt_3 * &r)), T::from(&cy - &r)]);
         let p_super2 = Point2::<T>::from_vals([T::from(&cx + &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-- 
2.43.0


From 1f7536c1bbb129b6ce1f3ae3610b4fa7c165ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:44 +0000
Subject: [PATCH 26/42] fix: keep batch triangulation results in the order of
 the jobs

Results of jobs with fewer than three points were moved to the front.
---
 src/operations/triangulation/delaunay.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 9fe93c9..1a8ba26 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -127,10 +127,6 @@ where
         let mut super_triangles = Vec::with_capacity(jobs.len());
         for job in jobs {
             if job.points_uv.len() < 3 {
-                results.push(Self {
-                    points: job.points_uv.clone(),
-                    triangles: Vec::new(),
-                });
                 super_triangles.push(None);
                 continue;
             }
@@ -149,6 +145,10 @@ where
         // Process each job with pre-computed super-triangle
         for (job_idx, job) in jobs.iter().enumerate() {
             if job.points_uv.len() < 3 {
+                results.push(Self {
+                    points: job.points_uv.clone(),
+                    triangles: Vec::new(),
+                });
                 continue;
             }
 
-- 
2.43.0


From c891576e31e79a31e970c7a705f16cdcec66dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:36 +0000
Subject: [PATCH 27/42] fix: exact in-circle test for exact scalars

A determinant below a fixed tolerance counted as zero even for rational
coordinates. Triangulations of nearly cocircular points got holes.
---
 src/kernel/predicates.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 53fe1df..aac59ad 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -497,9 +497,14 @@ where
     let det = &ax * &(&(&by * &c2) - &(&b2 * &cy)) - &ay * &(&(&bx * &c2) - &(&b2 * &cx))
         + &a2 * &(&(&bx * &cy) - &(&by * &cx));
 
+    // Exact scalars need no guard.
+    let tol = T::tolerance();
+    if tol.is_zero() {
+        return det;
+    }
     let scale =
         (&ax.abs() + &ay.abs() + bx.abs() + by.abs() + cx.abs() + cy.abs()).max(T::from(1.0));
-    let eps = &scale * &scale * T::from(EPS);
+    let eps = &scale * &scale * tol;
     if (&det.abs() - &eps).is_negative_or_zero() {
         T::zero()
     } else {
-- 
2.43.0


From bb87de844933f10a171b2f6ef65a5c34f012ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:29 +0000
Subject: [PATCH 28/42] fix: insert constraints that cross several
 triangulation edges

The walk flipped edges of non-convex quadrilaterals and gave up at the
second crossing, so such constraints were missing or the triangles
overlapped. Flip crossed edges of convex quadrilaterals until the
constraint is an edge. The helpers of the walk are no longer needed.
---
 src/operations/triangulation/delaunay.rs | 597 +++--------------------
 1 file changed, 59 insertions(+), 538 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 1a8ba26..b136303 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -455,317 +455,81 @@ where
         true
     }
 
-    fn triangle_exists(&self, a: usize, b: usize, c: usize) -> bool {
-        let mut k = [a, b, c];
-        k.sort_unstable();
-        self.triangles.iter().any(|t| {
-            let mut s = [t.0, t.1, t.2];
-            s.sort_unstable();
-            s == k
-        })
-    }
-
-    fn neighbors_of(&self, v: usize) -> AHashSet<usize> {
-        let mut set = AHashSet::default();
-        for t in &self.triangles {
-            if t.0 == v {
-                set.insert(t.1);
-                set.insert(t.2);
-            }
-            if t.1 == v {
-                set.insert(t.0);
-                set.insert(t.2);
-            }
-            if t.2 == v {
-                set.insert(t.0);
-                set.insert(t.1);
-            }
-        }
-        set.remove(&v);
-        set
-    }
-
+    /// Make (a,b) an edge by flipping the edges that cross it.
     fn insert_constraint_walk(
         &mut self,
-        mut a: usize,
-        mut b: usize,
+        a: usize,
+        b: usize,
         adj: &mut Adj,
         constrained: &AHashSet<Edge>,
     ) -> Result<(), &'static str> {
-        if self.edge_exists(Edge::new(a, b)) {
-            return Ok(());
-        }
+        let max_steps = 4 * self.triangles.len().max(10) * self.triangles.len().max(10);
 
-        // Choose a starting triangle that actually faces toward the segment (a,b).
-        // Prefer a's incident triangles; if none useful, swap endpoints and try b.
-        let pick_start = |end: usize, other: usize| -> Option<usize> {
-            if let Some(inc) = adj.vert2tris.get(end) {
-                for &ti in inc.iter() {
-                    if exit_edge_of_triangle_fast(
-                        &self.points,
-                        adj,
-                        &self.triangles,
-                        ti,
-                        end,
-                        other,
-                    )
-                    .is_some()
-                    {
-                        return Some(ti);
-                    }
-                }
-                if let Some(&ti) = inc.get(0) {
-                    return Some(ti);
-                }
+        for step in 0..max_steps {
+            if self.edge_exists(Edge::new(a, b)) {
+                return Ok(());
             }
-            None
-        };
-        let mut current_tri = if let Some(ti) = pick_start(a, b) {
-            ti
-        } else if let Some(ti) = pick_start(b, a) {
-            std::mem::swap(&mut a, &mut b);
-            ti
-        } else {
-            return Err("no incident triangle for either endpoint");
-        };
-
-        // Track the best (latest) apex seen on each side of (a,b).
-        let mut last_pos_apex: Option<usize> = None;
-        let mut last_neg_apex: Option<usize> = None;
 
-        // Visit-state: avoid cycles
-        let mut visited = ahash::AHashSet::<(usize, Edge)>::default();
-        let mut steps = 0usize;
-        let max_steps = 4 * self.triangles.len().max(10);
-
-        while !self.edge_exists(Edge::new(a, b)) {
-            steps += 1;
-            if steps > max_steps {
-                return Err("insert_constraint_walk: too many steps");
-            }
-
-            // Decide the edge we must cross from current_tri toward segment (a,b)
-            let (cross_e, nei) = match exit_edge_of_triangle_fast(
-                &self.points,
-                adj,
-                &self.triangles,
-                current_tri,
-                a,
-                b,
-            ) {
-                Some(x) => x,
-                None => return Err("walker stuck: no exit edge"),
-            };
-
-            // Record apex on the side we are leaving across cross_e
-            if let Some(w) = third_vertex(self.triangles[current_tri], cross_e.a(), cross_e.b()) {
-                let s = orient2d(&self.points[a], &self.points[b], &self.points[w]);
-                if s.is_positive() {
-                    last_pos_apex = Some(w);
-                } else if s.is_negative() {
-                    last_neg_apex = Some(w);
+            // Edges properly crossed by the segment (a,b)
+            let mut crossed: Vec<Edge> = Vec::new();
+            for t in &self.triangles {
+                for (u, v) in [(t.0, t.1), (t.1, t.2), (t.2, t.0)] {
+                    let e = Edge::new(u, v);
+                    if !crossed.contains(&e) && self.segments_cross(a, b, u, v) {
+                        crossed.push(e);
+                    }
                 }
             }
-
-            if !visited.insert((current_tri, cross_e)) {
-                return Err("walker cycle detected");
-            }
-
-            // If we already have the target edge, stop walking; we'll add missing side(s) below.
-            if (cross_e.a() == a && cross_e.b() == b) || (cross_e.a() == b && cross_e.b() == a) {
-                break;
+            if crossed.is_empty() {
+                return Err("insert_constraint_walk: no crossed edge");
             }
 
-            // Interior vs boundary
-            match adj.edge2tris.get(&cross_e).map(|v| v.len()).unwrap_or(0) {
-                2 => {
-                    // Interior: try to flip if allowed, otherwise step across.
-                    if !constrained.contains(&cross_e) {
-                        if let Some(new_e) = self.flip_shared_edge_with_adj(
-                            cross_e,
-                            adj.edge2tris[&cross_e][0],
-                            adj.edge2tris[&cross_e][1],
-                            constrained,
-                            adj,
-                        ) {
-                            // If this flip created (a,b), stop walking.
-                            if (new_e.a() == a && new_e.b() == b)
-                                || (new_e.a() == b && new_e.b() == a)
-                            {
-                                break;
-                            }
-                            // Re-evaluate from the same triangle index for stability.
-                            continue;
-                        }
+            // Prefer a flip whose new edge is no longer crossed; any other flip
+            // only rearranges the crossed triangles.
+            let start = step % crossed.len();
+            crossed.rotate_left(start);
+            let flip = [true, false].into_iter().any(|reduce| {
+                crossed.iter().any(|&e| {
+                    if constrained.contains(&e) {
+                        return false;
                     }
-                    // No flip (or constrained): step to neighbor if available.
-                    if let Some(next_ti) = nei {
-                        current_tri = next_ti;
-                    } else {
-                        return Err("no neighbor across interior edge");
+                    let Some(&[t0, t1]) = adj.edge2tris.get(&e).map(|v| v.as_slice()) else {
+                        return false;
+                    };
+                    let x = other_across(self.triangles[t0], e);
+                    let y = other_across(self.triangles[t1], e);
+                    let (Some(x), Some(y)) = (x, y) else {
+                        return false;
+                    };
+                    if reduce && self.segments_cross(a, b, x, y) {
+                        return false;
                     }
-                }
-                _ => {
-                    // Boundary: split triangles to introduce progress for (a,b), then continue walking.
-                    self.handle_boundary_crossing(current_tri, cross_e, a, b, adj)?;
-                    visited.clear(); // topology changed; clear cycle state
-                }
+                    self.flip_shared_edge_with_adj(e, t0, t1, constrained, adj)
+                        .is_some()
+                })
+            });
+            if !flip {
+                return Err("insert_constraint_walk: no edge can be flipped");
             }
         }
 
-        // At this point, (a,b) should exist. If it has only one incident triangle, add the missing one
-        // deterministically using the last recorded apex on the opposite side; fall back to best common neighbor.
-        self.add_missing_triangle_for_edge(a, b, last_pos_apex, last_neg_apex, adj);
-
-        Ok(())
+        Err("insert_constraint_walk: too many steps")
     }
 
-    /// After (a,b) exists, if it has only one incident triangle, add the missing one.
-    /// Prefer the recorded apexes from the walk; otherwise choose the best common neighbor on the opposite side.
-    fn add_missing_triangle_for_edge(
-        &mut self,
-        a: usize,
-        b: usize,
-        last_pos_apex: Option<usize>,
-        last_neg_apex: Option<usize>,
-        adj: &mut Adj,
-    ) where
-        T: PartialOrd,
-    {
-        let e = Edge::new(a, b);
-        let list = match adj.edge2tris.get(&e) {
-            Some(v) => v.clone(),
-            None => return,
-        };
-        if list.len() >= 2 {
-            return; // already has both sides
-        }
-        if list.is_empty() {
-            return; // unexpected; nothing to do
-        }
-
-        // Existing side sign
-        let ti_exist = list[0];
-        if ti_exist >= self.triangles.len() {
-            return;
-        }
-        let w_exist = match third_vertex(self.triangles[ti_exist], a, b) {
-            Some(w) => w,
-            None => return,
-        };
-        let s_exist = orient2d(&self.points[a], &self.points[b], &self.points[w_exist]);
-        if s_exist.is_zero() {
-            return;
+    /// Do the segments (a,b) and (u,v) cross in their interiors?
+    fn segments_cross(&self, a: usize, b: usize, u: usize, v: usize) -> bool {
+        if u == a || u == b || v == a || v == b {
+            return false;
         }
-
-        // Target side is the opposite one
-        let want_pos = s_exist.is_negative();
-
-        // 1) Prefer recorded apex from the walk on the wanted side
-        let mut candidate = if want_pos {
-            last_pos_apex
-        } else {
-            last_neg_apex
-        };
-
-        // 2) Fallback: search common neighbors of a and b on the wanted side, pick max |area|
-        if candidate.is_none() {
-            let na = self.neighbors_of(a);
-            let nb = self.neighbors_of(b);
-            let mut best_w: Option<usize> = None;
-            let mut best_score: Option<T> = None;
-            for &w in na.intersection(&nb) {
-                if w == a || w == b || w == w_exist {
-                    continue;
-                }
-                if self.triangle_exists(a, b, w) {
-                    continue;
-                }
-                // avoid creating long edges
-                if edge_has_mid_vertex(a, w, &self.points)
-                    || edge_has_mid_vertex(b, w, &self.points)
-                {
-                    continue;
-                }
-                let s = orient2d(&self.points[a], &self.points[b], &self.points[w]);
-                if s.is_zero() || (want_pos != s.is_positive()) {
-                    continue;
-                }
-                let score = if s.is_negative() { -s } else { s }; // |area|
-                if best_score.as_ref().map_or(true, |bs| score > *bs) {
-                    best_score = Some(score);
-                    best_w = Some(w);
-                }
-            }
-            candidate = best_w;
+        let p = &self.points;
+        let o1 = orient2d(&p[a], &p[b], &p[u]);
+        let o2 = orient2d(&p[a], &p[b], &p[v]);
+        if !((o1.is_positive() && o2.is_negative()) || (o1.is_negative() && o2.is_positive())) {
+            return false;
         }
-
-        let Some(w) = candidate else {
-            return;
-        };
-
-        // Create triangle (a,b,w) with CCW orientation
-        let t_new = if orient2d(&self.points[a], &self.points[b], &self.points[w]).is_positive() {
-            Triangle(a, b, w)
-        } else {
-            Triangle(a, w, b)
-        };
-
-        let ti = self.triangles.len();
-        self.triangles.push(t_new);
-        adj.add_tri(ti, t_new);
-    }
-
-    fn handle_boundary_crossing(
-        &mut self,
-        tri_idx: usize,
-        boundary_edge: Edge,
-        a: usize,
-        b: usize,
-        adj: &mut Adj,
-    ) -> Result<(), &'static str> {
-        // We are crossing a boundary edge (u,v) from triangle tri_idx. Replace it with TWO triangles
-        // that introduce the constrained edge between the endpoint on the boundary (anchor) and the other endpoint.
-        let tri = self.triangles[tri_idx];
-        let (u, v) = (boundary_edge.a(), boundary_edge.b());
-        let w = third_vertex(tri, u, v).ok_or("invalid boundary edge")?;
-
-        // Determine which endpoint of (a,b) lies on this boundary edge; that must be the anchor.
-        let anchor = if u == a || v == a {
-            a
-        } else if u == b || v == b {
-            b
-        } else {
-            return Err("hit unrelated boundary while inserting constraint");
-        };
-        let other = if anchor == a { b } else { a };
-
-        // First triangle introduces (anchor, other) with w
-        let t0 =
-            if orient2d(&self.points[anchor], &self.points[other], &self.points[w]).is_positive() {
-                Triangle(anchor, other, w)
-            } else {
-                Triangle(anchor, w, other)
-            };
-
-        // Second triangle closes the fan on the boundary edge using the vertex of (u,v) not equal to anchor
-        let x = if u == anchor { v } else { u };
-        let t1 = if orient2d(&self.points[other], &self.points[x], &self.points[w]).is_positive() {
-            Triangle(other, x, w)
-        } else {
-            Triangle(other, w, x)
-        };
-
-        // Commit both triangles
-        let old = self.triangles[tri_idx];
-        self.triangles[tri_idx] = t0;
-        let t1_idx = self.triangles.len();
-        self.triangles.push(t1);
-
-        adj.replace_tri(tri_idx, old, t0);
-        adj.add_tri(t1_idx, t1);
-
-        Ok(())
+        let o3 = orient2d(&p[u], &p[v], &p[a]);
+        let o4 = orient2d(&p[u], &p[v], &p[b]);
+        (o3.is_positive() && o4.is_negative()) || (o3.is_negative() && o4.is_positive())
     }
 
     fn flip_shared_edge_with_adj(
@@ -807,6 +571,11 @@ where
         // Build new triangles (preserve CCW)
         let a0 = orient2d(&self.points[x], &self.points[u], &self.points[y]);
         let a1 = orient2d(&self.points[x], &self.points[y], &self.points[v]);
+
+        // The two triangles must form a strictly convex quadrilateral
+        if !((a0.is_positive() && a1.is_positive()) || (a0.is_negative() && a1.is_negative())) {
+            return None;
+        }
         let t0_new = if a0.is_positive_or_zero() {
             Triangle(x, u, y)
         } else {
@@ -826,260 +595,12 @@ where
     }
 }
 
-#[inline]
-fn third_vertex(t: Triangle, u: usize, v: usize) -> Option<usize> {
-    let vs = [t.0, t.1, t.2];
-    let mut count = 0;
-    let mut other = None;
-    for &w in &vs {
-        if w != u && w != v {
-            other = Some(w);
-        } else {
-            count += 1;
-        }
-    }
-    if count == 2 { other } else { None }
-}
-
 #[inline]
 fn other_across(t: Triangle, e: Edge) -> Option<usize> {
     let vs = [t.0, t.1, t.2];
     vs.into_iter().find(|&w| w != e.a() && w != e.b())
 }
 
-#[inline]
-fn tri_edges(t: Triangle) -> [(usize, usize); 3] {
-    [(t.0, t.1), (t.1, t.2), (t.2, t.0)]
-}
-
-#[inline]
-fn tri_as_array(t: Triangle) -> [usize; 3] {
-    [t.0, t.1, t.2]
-}
-
-#[inline]
-fn has_vertex(t: Triangle, v: usize) -> bool {
-    t.0 == v || t.1 == v || t.2 == v
-}
-
-fn exit_edge_of_triangle_fast<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    a: usize,
-    b: usize,
-) -> Option<(Edge, Option<usize>)>
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    // Fast path using ball centers
-    if let (Some(ax), Some(ay), Some(bx), Some(by)) = (
-        points[a][0].as_f64_fast(),
-        points[a][1].as_f64_fast(),
-        points[b][0].as_f64_fast(),
-        points[b][1].as_f64_fast(),
-    ) {
-        // Use fast f64 computation for edge selection
-        return exit_edge_fast_f64(points, adj, tris, ti, ax, ay, bx, by);
-    }
-
-    // Fallback to exact
-    exit_edge_of_triangle(points, adj, tris, ti, a, b)
-}
-
-fn exit_edge_fast_f64<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    ax: f64,
-    ay: f64,
-    bx: f64,
-    by: f64,
-) -> Option<(Edge, Option<usize>)> {
-    let t = tris[ti];
-
-    // Fast f64 orientation tests
-    for (u, v) in [(t.0, t.1), (t.1, t.2), (t.2, t.0)] {
-        let ux = points[u][0].ball_center_f64();
-        let uy = points[u][1].ball_center_f64();
-        let vx = points[v][0].ball_center_f64();
-        let vy = points[v][1].ball_center_f64();
-
-        // Fast crossing test
-        let o1 = (bx - ax) * (uy - ay) - (by - ay) * (ux - ax);
-        let o2 = (bx - ax) * (vy - ay) - (by - ay) * (vx - ax);
-        let o3 = (vx - ux) * (ay - uy) - (vy - uy) * (ax - ux);
-        let o4 = (vx - ux) * (by - uy) - (vy - uy) * (bx - ux);
-
-        let eps = EPS * ((bx - ax).abs() + (by - ay).abs()).max(1.0);
-
-        if (o1 * o2 < -eps * eps) && (o3 * o4 < -eps * eps) {
-            let e = Edge::new(u, v);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        }
-    }
-    None
-}
-
-/// Given current triangle index `ti`, decide the **one** edge we exit across,
-/// when walking from a -> b. Uses exact orient2d.
-/// Returns (crossed undirected edge, neighbor triangle index if interior).
-fn exit_edge_of_triangle<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    a: usize,
-    b: usize,
-) -> Option<(Edge, Option<usize>)>
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    let t = tris[ti];
-    let vs = tri_as_array(t);
-    let pa = &points[a];
-    let pb = &points[b];
-
-    // Case A: a is a vertex of this triangle (common at start)
-    if has_vertex(t, a) {
-        // let the other two vertices be x,y (not equal to a).
-        let mut other = [0usize; 2];
-        let mut k = 0;
-        for &v in &vs {
-            if v != a {
-                other[k] = v;
-                k += 1;
-            }
-        }
-        let x = other[0];
-        let y = other[1];
-        // If segment (a,b) exits the triangle, it exits across the edge between the two "other" vertices
-        // iff orient(a,b,x) and orient(a,b,y) have opposite signs.
-        let s1 = orient2d(pa, pb, &points[x]);
-        let s2 = orient2d(pa, pb, &points[y]);
-
-        // Touching a vertex (one sign == 0): step through the edge adjacent to that vertex that is crossed.
-        if s1.is_zero() && s2.is_zero() {
-            // (a,b) is collinear with both -> (a,b) lies exactly along the side through a.
-            // Walk out through the edge that contains a and heads towards b.
-            for (u, v) in tri_edges(t) {
-                if u == a || v == a {
-                    // choose the directed edge (a,*) whose midpoint is most "forward" towards b
-                    let mid = Point2::<T>::from_vals([
-                        (&points[u][0] + &points[v][0]) * T::from(0.5),
-                        (&points[u][1] + &points[v][1]) * T::from(0.5),
-                    ]);
-                    let o = orient2d(pa, pb, &mid);
-                    if !o.is_zero() {
-                        let e = Edge::new(u, v);
-                        let nei = adj
-                            .edge2tris
-                            .get(&e)
-                            .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                        return Some((e, nei));
-                    }
-                }
-            }
-            return None;
-        } else if s1.is_zero() || s2.is_zero() {
-            // Through vertex: go through the edge opposite the *other* vertex
-            let vtx = if s1.is_zero() { x } else { y };
-            // Opposite edge is the edge that does not contain vtx
-            let mut e_opt = None;
-            for (u, v) in tri_edges(t) {
-                if u != vtx && v != vtx {
-                    e_opt = Some(Edge::new(u, v));
-                    break;
-                }
-            }
-            if let Some(e) = e_opt {
-                let nei = adj
-                    .edge2tris
-                    .get(&e)
-                    .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                return Some((e, nei));
-            }
-            return None;
-        } else if (s1.is_positive()) != (s2.is_positive()) {
-            // Different signs -> exit across the edge (x,y) (the one NOT incident to a)
-            let e = Edge::new(x, y);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        } else {
-            // Both on same side: we do not leave through the opposite edge; try an edge incident to a
-            // Pick the incident edge whose midpoint lies most "forward" wrt (a->b)
-            let mut best: Option<(Edge, T)> = None;
-            for (u, v) in tri_edges(t) {
-                if u == a || v == a {
-                    let mid = Point2::<T>::from_vals([
-                        (&points[u][0] + &points[v][0]) * T::from(0.5),
-                        (&points[u][1] + &points[v][1]) * T::from(0.5),
-                    ]);
-                    // Compare by projection on direction (a->b)
-                    let dx = &pb[0] - &pa[0];
-                    let dy = &pb[1] - &pa[1];
-                    let sx = &mid[0] - &pa[0];
-                    let sy = &mid[1] - &pa[1];
-                    let proj = dx * sx + dy * sy;
-                    let cand = (Edge::new(u, v), proj.clone());
-                    if best.as_ref().map_or(true, |(_, p)| proj > *p) {
-                        best = Some(cand);
-                    }
-                }
-            }
-            if let Some((e, _)) = best {
-                let nei = adj
-                    .edge2tris
-                    .get(&e)
-                    .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                return Some((e, nei));
-            }
-            return None;
-        }
-    }
-
-    // Case B: general triangle — test the three edges for proper crossing or interior touch
-    for (u, v) in tri_edges(t) {
-        let pu = &points[u];
-        let pv = &points[v];
-        let o1 = orient2d(pa, pb, pu);
-        let o2 = orient2d(pa, pb, pv);
-        let o3 = orient2d(pu, pv, pa);
-        let o4 = orient2d(pu, pv, pb);
-        let proper = (&o1 * &o2).is_negative() && (&o3 * &o4).is_negative();
-        let touch_inside = o1.is_zero() && (&o3 * &o4).is_negative()
-            || (o2.is_zero() && (&o3 * &o4).is_negative())
-            || (o3.is_zero() && (&o1 * &o2).is_negative())
-            || (o4.is_zero() && (&o1 * &o2).is_negative());
-        if proper || touch_inside {
-            let e = Edge::new(u, v);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        }
-    }
-    None
-}
-
 #[inline]
 fn on_segment<T: Scalar + PartialOrd>(a: &Point2<T>, b: &Point2<T>, p: &Point2<T>) -> bool
 where
-- 
2.43.0


From ab5a440d06e5db940fe144b7ae97c94439e50b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:04 +0000
Subject: [PATCH 29/42] fix: reach the inner triangles of a face

The search for the triangles inside a face looked for the neighbour on
the side it came from, so triangles away from the border were left out.
---
 src/operations/triangulation/delaunay.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index b136303..fa345df 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -1049,7 +1049,7 @@ where
         // accept it
         accepted.insert(ti);
 
-        // push its other two edges with **directed** wanted side = orient(i->j, k)
+        // push its other two edges; the neighbor lies on the side opposite to k
         let t = dt_tris[ti];
         for (i, j, k) in [(t.0, t.1, t.2), (t.1, t.2, t.0), (t.2, t.0, t.1)] {
             // skip the edge we used to reach this tri
@@ -1066,7 +1066,7 @@ where
                 0
             };
             if side_dir != 0 {
-                q.push_back((i, j, side_dir));
+                q.push_back((i, j, -side_dir));
             }
         }
     }
-- 
2.43.0


From a390077cd139eee482b4db974df809410ff4a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:40 +0000
Subject: [PATCH 30/42] fix: do not write removed vertices to OBJ and OFF files

They came back as live vertices when the file was read.
---
 src/io/obj.rs | 18 ++++++++++++++----
 src/io/off.rs | 19 +++++++++++++++----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index cd6fe3e..3dd7a55 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -53,8 +53,15 @@ where
     let file = File::create(path)?;
     let mut out = BufWriter::new(file);
 
-    // 1) write vertices
-    for v in &mesh.vertices {
+    // 1) write vertices; removed ones get no number
+    let mut number = vec![0usize; mesh.vertices.len()];
+    let mut count = 0;
+    for (i, v) in mesh.vertices.iter().enumerate() {
+        if v.removed {
+            continue;
+        }
+        count += 1;
+        number[i] = count;
         let coords = v.position.coords();
         writeln!(
             out,
@@ -71,8 +78,11 @@ where
             continue; // skip removed faces
         }
         let vs = mesh.face_vertices(f);
-        // OBJ is 1-based
-        writeln!(out, "f {:?} {:?} {:?}", vs[0] + 1, vs[1] + 1, vs[2] + 1)?;
+        writeln!(
+            out,
+            "f {:?} {:?} {:?}",
+            number[vs[0]], number[vs[1]], number[vs[2]]
+        )?;
     }
 
     out.flush()
diff --git a/src/io/off.rs b/src/io/off.rs
index 7509a44..b9be851 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -61,14 +61,21 @@ where
 
     // Count non-removed faces
     let face_count = mesh.faces.iter().filter(|f| !f.removed).count();
-    let vert_count = mesh.vertices.len();
+    let vert_count = mesh.vertices.iter().filter(|v| !v.removed).count();
 
     // OFF header (edges count can be 0 if unknown)
     writeln!(out, "OFF")?;
     writeln!(out, "{} {} {}", vert_count, face_count, 0)?;
 
-    // 1) vertices
-    for v in &mesh.vertices {
+    // 1) vertices; removed ones get no number
+    let mut number = vec![0usize; mesh.vertices.len()];
+    let mut count = 0;
+    for (i, v) in mesh.vertices.iter().enumerate() {
+        if v.removed {
+            continue;
+        }
+        number[i] = count;
+        count += 1;
         let c = v.position.coords();
         // OFF requires plain numbers (typically floats)
         writeln!(
@@ -87,7 +94,11 @@ where
         }
         let vs = mesh.face_vertices(f);
         // OFF face line: "<n> v0 v1 v2"
-        writeln!(out, "3 {} {} {}", vs[0], vs[1], vs[2])?;
+        writeln!(
+            out,
+            "3 {} {} {}",
+            number[vs[0]], number[vs[1]], number[vs[2]]
+        )?;
     }
 
     out.flush()
-- 
2.43.0


From 13aaa027ffd3ff2e9c7fea5651cccd2f642ae49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:45 +0000
Subject: [PATCH 31/42] fix: share corners between facets when reading STL

Every facet got corners of its own, so a solid read from a file was a
heap of loose triangles.
---
 src/io/stl.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 4a5b6b5..bbe2038 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -21,6 +21,7 @@
 // SOFTWARE.
 
 use std::{
+    collections::HashMap,
     fs::File,
     io::{self, BufRead, BufReader, BufWriter, Write},
     path::Path,
@@ -136,6 +137,8 @@ where
 
     let mut mesh = Mesh::new();
     let mut vertices = Vec::new();
+    // STL repeats the corners of every facet; facets share them by position
+    let mut known = HashMap::new();
 
     for line in reader.lines() {
         let l = line?;
@@ -173,7 +176,11 @@ where
                     .parse()
                     .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "STL: bad vertex z"))?;
 
-                let vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
+                // adding zero makes -0.0 and 0.0 the same
+                let key = [x, y, z].map(|c| (c + 0.0).to_bits());
+                let vid = *known
+                    .entry(key)
+                    .or_insert_with(|| mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z])));
                 vertices.push(vid);
             }
             Some("endfacet") => {
-- 
2.43.0


From 0ec578d31954f78712f6f31e052ec2453be0cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:54 +0000
Subject: [PATCH 32/42] fix: report malformed OBJ and OFF files as errors

Missing or bad fields in OBJ files, vertex numbers out of range, faces cut
short and coordinates that are not finite ended in a panic.
---
 src/io/obj.rs | 33 +++++++++++++++++++++++++++------
 src/io/off.rs | 16 +++++++++++++++-
 src/io/stl.rs |  6 ++++++
 3 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 3dd7a55..c61ebbb 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -112,17 +112,29 @@ where
         match parts.next() {
             Some("v") => {
                 // parse three floats
-                let x: f64 = parts.next().unwrap().parse().unwrap();
-                let y: f64 = parts.next().unwrap().parse().unwrap();
-                let z: f64 = parts.next().unwrap().parse().unwrap();
+                let x: f64 = field(parts.next(), "vertex x")?;
+                let y: f64 = field(parts.next(), "vertex y")?;
+                let z: f64 = field(parts.next(), "vertex z")?;
+                if ![x, y, z].iter().all(|c| c.is_finite()) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "OBJ: coordinate out of range",
+                    ));
+                }
                 let vid = mesh.add_vertex(Point3::<T>::from_vals([x, y, z]));
                 vertex_map.push(vid);
             }
             Some("f") => {
                 // parse three vertex indices (1-based OBJ)
-                let i: usize = parts.next().unwrap().parse().unwrap();
-                let j: usize = parts.next().unwrap().parse().unwrap();
-                let k: usize = parts.next().unwrap().parse().unwrap();
+                let i: usize = field(parts.next(), "index i")?;
+                let j: usize = field(parts.next(), "index j")?;
+                let k: usize = field(parts.next(), "index k")?;
+                if [i, j, k].iter().any(|&v| v == 0 || v > vertex_map.len()) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "OBJ: index out of range",
+                    ));
+                }
                 // subtract 1 for zero-based
                 mesh.add_triangle(i - 1, j - 1, k - 1);
             }
@@ -135,3 +147,12 @@ where
     // Rebuild twin connectivity & boundary loops
     Ok(mesh)
 }
+
+fn field<V: std::str::FromStr>(token: Option<&str>, what: &str) -> io::Result<V> {
+    token.and_then(|t| t.parse().ok()).ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("OBJ: missing or bad {}", what),
+        )
+    })
+}
diff --git a/src/io/off.rs b/src/io/off.rs
index b9be851..397ae57 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -201,6 +201,12 @@ where
             .parse()
             .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad vertex z"))?;
 
+        if ![x, y, z].iter().all(|c| c.is_finite()) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "OFF: coordinate out of range",
+            ));
+        }
         // Assuming Point3::<T>::from_vals accepts f64s as in your OBJ reader
         let _vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
         // We don't need to store a map because OFF face indices are zero-based
@@ -241,11 +247,19 @@ where
                 })?
                 .parse()
                 .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad index c"))?;
+            if [a, b, c].iter().any(|&v| v >= vcount) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "OFF: index out of range",
+                ));
+            }
             mesh.add_triangle(a, b, c);
         } else {
             // Skip non-triangle indices
             for _ in 0..poly_size {
-                let _ = it.next(); // discard
+                it.next().ok_or_else(|| {
+                    io::Error::new(io::ErrorKind::InvalidData, "OFF: incomplete face")
+                })?;
             }
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index bbe2038..d01abf1 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -176,6 +176,12 @@ where
                     .parse()
                     .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "STL: bad vertex z"))?;
 
+                if ![x, y, z].iter().all(|c| c.is_finite()) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "STL: coordinate out of range",
+                    ));
+                }
                 // adding zero makes -0.0 and 0.0 the same
                 let key = [x, y, z].map(|c| (c + 0.0).to_bits());
                 let vid = *known
-- 
2.43.0


From 691c3739e34f8c8defa1bd1150d9aa046db7683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:56:14 +0000
Subject: [PATCH 33/42] fix: refuse triangles that repeat a corner

They left half-edges from a vertex to itself in the mesh.
---
 src/mesh/triangle.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mesh/triangle.rs b/src/mesh/triangle.rs
index d41fd44..ce90dea 100644
--- a/src/mesh/triangle.rs
+++ b/src/mesh/triangle.rs
@@ -670,6 +670,11 @@ impl_mesh! {
             }
         }
 
+        // A face needs three different corners
+        if v0 == v1 || v1 == v2 || v2 == v0 {
+            return usize::MAX;
+        }
+
         // ---------- choose feasible orientation (auto-flip if needed) ----------
         let ccw_ok = dir_is_free::<T, N>(self, v0, v1)
             && dir_is_free::<T, N>(self, v1, v2)
@@ -831,6 +836,11 @@ impl_mesh! {
         new_borders: &mut Vec<usize>,
         affected_vertices: &mut Vec<usize>
     ) -> usize {
+        // A face needs three different corners
+        if v0 == v1 || v1 == v2 || v2 == v0 {
+            return usize::MAX;
+        }
+
         let ccw_ok = self.dir_is_free(v0, v1) && self.dir_is_free(v1, v2) && self.dir_is_free(v2, v0);
         let cw_ok = self.dir_is_free(v0, v2) && self.dir_is_free(v2, v1) && self.dir_is_free(v1, v0);
 
-- 
2.43.0


From 9af12234ef10590453d3d2a59a30dabbd0d43dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:12 +0000
Subject: [PATCH 34/42] fix: reject smoothing moves that fold a face

---
 src/mesh/core.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 3d35521..c9d9c20 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -1372,8 +1372,26 @@ impl_mesh! {
             }
         }
 
-        // Fast rejection using ball approximation for degeneracy check
-        // ...existing degeneracy check...
+        // Reject a move that folds a face or leaves it without area
+        for &(he, b_idx) in &valid_neighbors {
+            let c_idx = self.half_edges[self.half_edges[he].next].vertex;
+            let b = &self.vertices[b_idx].position;
+            let c = &self.vertices[c_idx].position;
+            // (p - b) x (c - b)
+            let normal = |p: &Point<T, N>| -> [T; 3] {
+                let (u, v) = (p - b, c - b);
+                [
+                    &(&u[1] * &v[2]) - &(&u[2] * &v[1]),
+                    &(&u[2] * &v[0]) - &(&u[0] * &v[2]),
+                    &(&u[0] * &v[1]) - &(&u[1] * &v[0]),
+                ]
+            };
+            let dot = |x: &[T; 3], y: &[T; 3]| &(&(&x[0] * &y[0]) + &(&x[1] * &y[1])) + &(&x[2] * &y[2]);
+            let (before, after) = (normal(a), normal(&new_pos));
+            if dot(&before, &before) > T::zero() && !(dot(&before, &after) > T::zero()) {
+                return false;
+            }
+        }
 
         // Commit new position
         self.vertices[v].position[0] = axp;
-- 
2.43.0


From 68c87c3ccf7eb3351fd3981d8ab9957a8637e7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:12 +0000
Subject: [PATCH 35/42] fix: do not flip edges of non-convex pairs when
 remeshing

---
 src/mesh_processing/remesh.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/mesh_processing/remesh.rs b/src/mesh_processing/remesh.rs
index f09f11b..156a810 100644
--- a/src/mesh_processing/remesh.rs
+++ b/src/mesh_processing/remesh.rs
@@ -219,34 +219,32 @@ impl_mesh! {
         if v2 == v3 { return false; } // would collapse
 
         // Old triangles: (v0,v1,v2) and (v1,v0,v3)
-        let old1 = self.tri_min_angle_cos_f64(v0,v1,v2).unwrap();
-        let old2 = self.tri_min_angle_cos_f64(v1,v0,v3).unwrap();
+        let Some(old1) = self.tri_min_angle_cos_f64(v0,v1,v2) else { return false; };
+        let Some(old2) = self.tri_min_angle_cos_f64(v1,v0,v3) else { return false; };
         let old_min = old1.max(old2); // since each returns cos(minAngle of tri), worst small angle
 
         // New triangles after flip: (v0,v2,v3) and (v1,v3,v2)
-        let new1 = self.tri_min_angle_cos_f64(v0,v2,v3).unwrap();
-        let new2 = self.tri_min_angle_cos_f64(v1,v3,v2).unwrap();
+        let Some(new1) = self.tri_min_angle_cos_f64(v0,v2,v3) else { return false; };
+        let Some(new2) = self.tri_min_angle_cos_f64(v1,v3,v2) else { return false; };
         let new_min = new1.max(new2);
 
         // Require a strict improvement with a small epsilon
         if new_min + 1e-12 >= old_min { return false; }
 
-        // Degeneracy guard: ensure cross products non-zero (area)
+        // Degeneracy guard: all four triangles have area, and the new ones (v0,v3,v2) and
+        // (v1,v2,v3) face the same side as the old pair (not so if the pair is not convex)
         let pa = &self.vertices[v0].position;
         let pb = &self.vertices[v1].position;
         let pc = &self.vertices[v2].position;
         let pd = &self.vertices[v3].position;
-        let area_safe = |p0: &Point::<T, N>, p1: &Point::<T, N>, p2: &Point::<T, N>| {
-            let e0 = (p1 - p0).as_vector();
-            let e1 = (p2 - p0).as_vector();
-            let n  = e0.cross(&e1);
-            let z  = n.norm2();
-            z > T::zero()
+        let normal = |p0: &Point::<T, N>, p1: &Point::<T, N>, p2: &Point::<T, N>| {
+            (p1 - p0).as_vector().cross(&(p2 - p0).as_vector())
         };
-        area_safe(&pa,&pb,&pc) &&
-        area_safe(&pb,&pa,&pd) &&
-        area_safe(&pa,&pc,&pd) &&
-        area_safe(&pb,&pd,&pc)
+        let n_old1 = normal(pa, pb, pc);
+        let n_old2 = normal(pb, pa, pd);
+        if !(n_old1.norm2() > T::zero()) || !(n_old2.norm2() > T::zero()) { return false; }
+        let side = &n_old1 + &n_old2;
+        normal(pa, pd, pc).dot(&side) > T::zero() && normal(pb, pc, pd).dot(&side) > T::zero()
     }
 
     /// Flip edges using quality-based predicate plus lightweight valence improvement.
-- 
2.43.0


From de63f313c27facce71d6d655fe178460abb9d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:12 +0000
Subject: [PATCH 36/42] fix: collapse short edges in a reproducible order

---
 src/mesh_processing/remesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh_processing/remesh.rs b/src/mesh_processing/remesh.rs
index 156a810..5525a56 100644
--- a/src/mesh_processing/remesh.rs
+++ b/src/mesh_processing/remesh.rs
@@ -366,8 +366,8 @@ impl_mesh! {
         for<'a> &'a T: std::ops::Mul<&'a T, Output = T>
     {
         let thresh2 = collapse_len * collapse_len;
-        use ahash::AHashSet;
-        let mut set: AHashSet<(usize,usize)> = AHashSet::with_capacity(self.half_edges.len()/8);
+        use std::collections::BTreeSet; // ordered, so that the result is reproducible
+        let mut set: BTreeSet<(usize,usize)> = BTreeSet::new();
 
         for h in 0..self.half_edges.len() {
             let he = &self.half_edges[h];
-- 
2.43.0


From 587f8bcd9aeb8779330652c73788bedc6f819f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:02:39 +0000
Subject: [PATCH 37/42] fix: classify every piece of a surface inside the other
 solid

The flood fill started from a single face, so when the part of one
surface inside the other had several pieces all but one were treated
as outside and the result was left open.
---
 src/mesh_processing/boolean.rs | 37 +++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index e16a2c6..c461f86 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -169,8 +169,9 @@ where
                 }
             }
 
-            // 3) pick a seed face that lies inside B
-            let seed_result = Self::get_seed_face_3(
+            // 3) pick the seed faces that lie inside B: the part of A inside B may be
+            //    made of several pieces
+            let seed_faces = Self::get_seed_faces_3(
                 &self,
                 &other,
                 &tree_b,
@@ -179,7 +180,7 @@ where
                 include_on_surface,
             );
 
-            if seed_result.is_none() {
+            if seed_faces.is_empty() {
                 for (f, face) in self.faces.iter().enumerate() {
                     if face.removed {
                         continue;
@@ -194,8 +195,6 @@ where
                 return inside;
             }
 
-            let (_seed_intersection_idx, selected_face) = seed_result.unwrap();
-
             let mut face_pairs: AHashMap<usize, Vec<usize>> = AHashMap::new();
             for seg_idx in 0..intersection_segments.len() {
                 let seg = &intersection_segments[seg_idx];
@@ -225,11 +224,16 @@ where
             // 4) iterative flood‐fill without crossing the boundary_map
             let mut queue = VecDeque::new();
 
-            // seed found as before
-            visited[selected_face] = true;
-            inside[selected_face] = true;
-            queue.push_back(selected_face);
-            let mut num_visited = 1;
+            // seeds found as before
+            let mut num_visited = 0;
+            for seed in seed_faces {
+                if !visited[seed] {
+                    visited[seed] = true;
+                    inside[seed] = true;
+                    queue.push_back(seed);
+                    num_visited += 1;
+                }
+            }
 
             while let Some(curr) = queue.pop_front() {
                 for nbr in self.adjacent_faces(curr) {
@@ -1119,15 +1123,16 @@ where
         triangles_per_group
     }
 
-    fn get_seed_face_3(
+    fn get_seed_faces_3(
         a: &Mesh<T, N>,
         b: &Mesh<T, N>,
         tree_b: &AabbTree<T, N, Point<T, N>, usize>,
         intersection_segments: &Vec<IntersectionSegment<T, N>>,
         boundary_faces: &AHashSet<usize>,
         include_on_surface: bool,
-    ) -> Option<(usize, usize)> {
-        for (seg_idx, seg) in intersection_segments.iter().enumerate() {
+    ) -> Vec<usize> {
+        let mut seeds = Vec::new();
+        for seg in intersection_segments {
             let v0 = seg.a.resulting_vertex.unwrap();
             let v1 = seg.b.resulting_vertex.unwrap();
 
@@ -1140,9 +1145,9 @@ where
                         if boundary_faces.contains(&f) {
                             let centroid = a.face_centroid_fast(f);
                             match b.point_in_mesh_3(tree_b, &centroid) {
-                                PointInMeshResult::Inside => return Some((seg_idx, f)),
+                                PointInMeshResult::Inside => seeds.push(f),
                                 PointInMeshResult::OnSurface if include_on_surface => {
-                                    return Some((seg_idx, f));
+                                    seeds.push(f);
                                 }
                                 _ => {}
                             }
@@ -1151,7 +1156,7 @@ where
                 }
             }
         }
-        None
+        seeds
     }
 
     fn get_seed_face_2(
-- 
2.43.0


From 7673db3a7a52d04c78bb3ba02c9d4c3abec3572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:32 +0000
Subject: [PATCH 38/42] fix: split a border edge given from its open side

split_edge took the face of the half-edge it was given and panicked when
that half-edge lies on the border. Remeshing hands over such half-edges
after a face has been removed.
---
 src/mesh/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index c9d9c20..aff77aa 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -740,7 +740,8 @@ impl_mesh! {
         update_tree: bool,
     ) -> Result<SplitResult, &'static str>
     {
-        let he_ca = he;
+        // A border half-edge has no face to split; its twin has
+        let he_ca = if self.half_edges[he].face.is_some() { he } else { self.half_edges[he].twin };
         let he_ab = self.half_edges[he_ca].next;
         let he_bc = self.half_edges[he_ab].next;
         let he_ac = self.half_edges[he_ca].twin;
-- 
2.43.0


From e935380d0cce0284c6d357225e12471bfd7e5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:21:54 +0000
Subject: [PATCH 39/42] fix: let faces be removed together after an edge
 collapse

The debug self-check looked up the twin of half-edges that a collapse
had already detached, and panicked.
---
 src/mesh/triangle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/triangle.rs b/src/mesh/triangle.rs
index ce90dea..72cea02 100644
--- a/src/mesh/triangle.rs
+++ b/src/mesh/triangle.rs
@@ -238,7 +238,8 @@ impl_mesh! {
         #[cfg(debug_assertions)]
         {
             for h in 0..self.half_edges.len() {
-                if self.half_edges[h].removed {
+                // an edge taken out by a collapse has no twin any more
+                if self.half_edges[h].removed && self.half_edges[h].twin != usize::MAX {
                     let (u,v) = key_pair(self, h);
                     if let Some(&owner) = self.edge_map.get(&(u,v)) {
                         debug_assert_ne!(owner, h, "removed spoke {} still owns edge_map ({},{})", h, u, v);
-- 
2.43.0


From 0c2c28ea8c224b4c0ac8d153ddd344e1f81f2d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:21:54 +0000
Subject: [PATCH 40/42] fix: leave removed faces out of face trees and boolean
 operations

Removed faces were still put in the face tree and intersected with the
other mesh, so operands with a removed face failed.
---
 src/mesh/core.rs               | 3 +++
 src/mesh_processing/boolean.rs | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index aff77aa..d802363 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -446,6 +446,9 @@ impl_mesh! {
         let mut face_aabbs = Vec::with_capacity(self.faces.len());
 
         for (face_idx, face) in self.faces.iter().enumerate() {
+            if face.removed {
+                continue;
+            }
             let he0 = face.half_edge;
 
             let he1 = self.half_edges[he0].next;
diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index c461f86..fcc0ecf 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -122,6 +122,7 @@ where
         // build adjacency & boundary‐map
         let tree_b = AabbTree::<T, N, _, _>::build(
             (0..other.faces.len())
+                .filter(|&i| !other.faces[i].removed)
                 .map(|i| {
                     let aabb_n = other.face_aabb(i);
                     let min = aabb_n.min();
@@ -397,6 +398,9 @@ where
         let mut ends_vec = Vec::with_capacity(64);
 
         for fa in 0..self.faces.len() {
+            if self.faces[fa].removed {
+                continue;
+            }
             candidates.clear();
             tree_b.query(&self.face_aabb(fa), &mut candidates);
 
@@ -519,6 +523,9 @@ where
         let one = T::one();
 
         for fa in 0..self.faces.len() {
+            if self.faces[fa].removed {
+                continue;
+            }
             candidates.clear();
             tree_b.query(&self.face_aabb(fa), &mut candidates);
 
-- 
2.43.0


From d46cfb7c7d0f7738837f3457f6973acb585c1a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:02 +0000
Subject: [PATCH 41/42] fix: list border vertices of a mesh with bare vertices

A vertex without edges made the listing panic.
---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 3198ef5..2b6f7b6 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -434,7 +434,7 @@ impl_mesh! {
     // /// Returns all vertex indices that lie on at least one boundary loop.
     pub fn boundary_vertices(&self) -> Vec<usize> {
         (0..self.vertices.len())
-            .filter(|&v| self.is_boundary_vertex(v))
+            .filter(|&v| self.vertices[v].half_edge.is_some() && self.is_boundary_vertex(v))
             .collect()
     }
 
-- 
2.43.0


From cbd98232f8c8351ec3cdf1ae55b5b579289f238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:02 +0000
Subject: [PATCH 42/42] fix: report no neighbours for a removed face

The half-edges of a removed face can belong to a border, which was then
walked as if it were the face.
---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 2b6f7b6..ef603f7 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1780,7 +1780,7 @@ impl_mesh! {
         }
 
         let face = &self.faces[face_idx];
-        if face.half_edge == usize::MAX || self.half_edges[face.half_edge].removed {
+        if face.removed || face.half_edge == usize::MAX || self.half_edges[face.half_edge].removed {
             return None;
         }
 
-- 
2.43.0

