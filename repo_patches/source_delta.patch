From ddfa80ca2d71105596d55c426d085cdcf17405bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:37 +0000
Subject: [PATCH 01/38] fix: compute the orientation determinant with the
 correct sign

The elimination returned zero whenever a pivot was zero and could flip the
sign when an early pivot was negative. Expand by cofactors instead.
---
 src/kernel/orientation.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/kernel/orientation.rs b/src/kernel/orientation.rs
index cdb4ffe..58d88e0 100755
--- a/src/kernel/orientation.rs
+++ b/src/kernel/orientation.rs
@@ -38,23 +38,30 @@ where
 {
     assert!(p.len() == N + 1, "need N+1 points");
     // 1. Build an NxN matrix of the difference vectors  (p[i+1] – p[0])
-    let mut m: [[T; N]; N] =
-        from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
+    let m: [[T; N]; N] = from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
 
-    // 2. Fraction-free Gaussian elimination → determinant in `det`
-    let mut det = T::one(); // running ±product of pivots
-    for k in 0..N {
-        // pivot = m[k][k];  if zero, determinant is zero
-        if m[k][k].abs() == T::zero() {
-            return T::zero();
-        }
-        for i in (k + 1)..N {
-            for j in (k + 1)..N {
-                //   m[i][j] = m[i][j] * pivot - m[i][k] * m[k][j];
-                m[i][j] = &(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j]);
-            }
-        }
-        det = det * m[k][k].clone();
+    // 2. Determinant by cofactor expansion (division-free and sign-exact)
+    let cols: Vec<usize> = (0..N).collect();
+    minor_det(&m, 0, &cols)
+}
+
+/// Determinant of the rows `row..N` of `m` restricted to the columns `cols`.
+fn minor_det<T, const N: usize>(m: &[[T; N]; N], row: usize, cols: &[usize]) -> T
+where
+    T: Scalar + Neg<Output = T>,
+    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T>,
+{
+    if cols.is_empty() {
+        return T::one();
+    }
+    if cols.len() == 1 {
+        return m[row][cols[0]].clone();
+    }
+    let mut det = T::zero();
+    for k in 0..cols.len() {
+        let rest: Vec<usize> = cols.iter().copied().filter(|&c| c != cols[k]).collect();
+        let term = &m[row][cols[k]] * &minor_det(m, row + 1, &rest);
+        det = if k % 2 == 0 { &det + &term } else { &det - &term };
     }
     det
 }
-- 
2.43.0


From bf32bc2e3f8b5db762ac6f281f012f5e1e5d0ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:37 +0000
Subject: [PATCH 02/38] fix: is_point_on_segment accepts the first end point

The collinearity test was anchored at the query point, so a query equal to
the segment's first end point was rejected.
---
 src/kernel/predicates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 84d6cf3..8c9fb48 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -134,8 +134,8 @@ where
         + Div<&'a T, Output = T>,
     T: PartialOrd, // needed for comparisons inside the loop
 {
-    // 1.  If P, A, B are not collinear, P cannot lie on AB
-    if !are_collinear(p, &seg.a, &seg.b) {
+    // 1.  If A, B, P are not collinear, P cannot lie on AB
+    if !are_collinear(&seg.a, &seg.b, p) {
         return false;
     }
 
-- 
2.43.0


From 3b742d042a4236a986300a5dba678a61f146d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:01 +0000
Subject: [PATCH 03/38] fix: classify points on an edge's extension as outside
 the triangle

The near-edge shortcut returned OnEdge whenever one edge function vanished,
even when the point lies beyond the edge's end points.
---
 src/kernel/predicates.rs | 32 +-------------------------------
 1 file changed, 1 insertion(+), 31 deletions(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 8c9fb48..a959ca0 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -27,8 +27,7 @@ use crate::geometry::util::EPS;
 use crate::geometry::vector::{Cross3, VectorOps};
 use crate::geometry::{Point2, Point3};
 use crate::geometry::{point::Point, vector::Vector};
-use crate::numeric::cgar_f64::CgarF64;
-use crate::numeric::scalar::{RefInto, Scalar};
+use crate::numeric::scalar::Scalar;
 use std::ops::{Add, Div, Mul, Sub};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -355,15 +354,6 @@ where
         + Mul<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    #[inline(always)]
-    fn near_edge_approx<TS: Scalar>(e0: &TS, e1: &TS, e2: &TS) -> bool {
-        let eps = RefInto::<CgarF64>::ref_into(&TS::query_tolerance()).0;
-        let e0f = RefInto::<CgarF64>::ref_into(e0).0;
-        let e1f = RefInto::<CgarF64>::ref_into(e1).0;
-        let e2f = RefInto::<CgarF64>::ref_into(e2).0;
-        e0f.abs() <= eps || e1f.abs() <= eps || e2f.abs() <= eps
-    }
-
     #[inline(always)]
     fn classify_from_edges<TS: Scalar + PartialOrd>(e0: &TS, e1: &TS, e2: &TS) -> TrianglePoint {
         let zero = TS::zero();
@@ -421,17 +411,6 @@ where
         let e1 = &(&bcx * &bpy) - &(&bcy * &bpx);
         let e2 = &(&cax * &cpy) - &(&cay * &cpx);
 
-        // near-edge fast path -> confirm exact boundary kind
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            // figure out vertex vs edge by zero-count
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else if N == 3 {
         // normal and degeneracy
@@ -453,15 +432,6 @@ where
         let e1 = bc.cross(&bp).dot(&n);
         let e2 = ca.cross(&cp).dot(&n);
 
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else {
         panic!("point_in_or_on_triangle only supports N = 2 or N = 3");
-- 
2.43.0


From 30df59432e48c21d47ebb48f847fb6d035ebf11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:27 +0000
Subject: [PATCH 04/38] fix: edge_edge_intersection_2 parameter sign and second
 edge range

The parameter along the first edge had the wrong sign, and hits beyond the
ends of the second edge were accepted.
---
 src/geometry/edge_edge_intersect.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geometry/edge_edge_intersect.rs b/src/geometry/edge_edge_intersect.rs
index ed0bdd2..42173c8 100644
--- a/src/geometry/edge_edge_intersect.rs
+++ b/src/geometry/edge_edge_intersect.rs
@@ -44,13 +44,16 @@ where
         return None; // Parallel lines
     }
 
-    let d2 = (p1[0].clone() - p3[0].clone()) * (p4[1].clone() - p3[1].clone())
-        - (p1[1].clone() - p3[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d2 = (p3[0].clone() - p1[0].clone()) * (p4[1].clone() - p3[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d3 = (p3[0].clone() - p1[0].clone()) * (p2[1].clone() - p1[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p2[0].clone() - p1[0].clone());
 
     let t = d2 / d1.clone();
+    let u = d3 / d1;
 
     // Check if intersection is within both line segments
-    if t >= T::zero() && t <= T::one() {
+    if t >= T::zero() && t <= T::one() && u >= T::zero() && u <= T::one() {
         let x = p1[0].clone() + t.clone() * (p2[0].clone() - p1[0].clone());
         let y = p1[1].clone() + t * (p2[1].clone() - p1[1].clone());
         Some(Point::<T, N>::from_vals(from_fn(|i| match i {
-- 
2.43.0


From 98330a9ec75f622cfb94a94ac229832a2eb321f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:41 +0000
Subject: [PATCH 05/38] fix: disjoint collinear segments do not intersect

Collinear segments without a common point were reported as overlapping in
the gap between them; touching ones now yield the common point.
---
 src/geometry/intersection.rs | 60 +++++++++++++++---------------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/src/geometry/intersection.rs b/src/geometry/intersection.rs
index 3344e35..aa70a01 100755
--- a/src/geometry/intersection.rs
+++ b/src/geometry/intersection.rs
@@ -64,6 +64,21 @@ where
     }
 }
 
+/// Common part of the collinear segments [a, b] and [c, d] as (first, last) point in
+/// lexicographic order, or `None` when they are disjoint.
+fn collinear_overlap<'p, T: Scalar, const N: usize>(
+    a: &'p Point<T, N>,
+    b: &'p Point<T, N>,
+    c: &'p Point<T, N>,
+    d: &'p Point<T, N>,
+) -> Option<(&'p Point<T, N>, &'p Point<T, N>)> {
+    let (lo1, hi1) = if b < a { (b, a) } else { (a, b) };
+    let (lo2, hi2) = if d < c { (d, c) } else { (c, d) };
+    let lo = if lo1 < lo2 { lo2 } else { lo1 };
+    let hi = if hi2 < hi1 { hi2 } else { hi1 };
+    if hi < lo { None } else { Some((lo, hi)) }
+}
+
 pub fn segment_segment_intersection_2<T>(
     seg1: &Segment2<T>,
     seg2: &Segment2<T>,
@@ -121,20 +136,11 @@ where
         // Collinear case
         if are_collinear(&a, &b, &c) {
             // Compute overlapping segment
-            let mut pts = [a, b, c, d];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
-
-            let s = Segment2::new(&pts[1], &pts[2]);
-            return SegmentIntersection2::Overlapping(s);
+            return match collinear_overlap(a, b, c, d) {
+                None => SegmentIntersection2::None,
+                Some((lo, hi)) if lo == hi => SegmentIntersection2::Point(lo.clone()),
+                Some((lo, hi)) => SegmentIntersection2::Overlapping(Segment2::new(lo, hi)),
+            };
         }
     }
 
@@ -219,27 +225,11 @@ where
     } else {
         // Segments are parallel — handle collinear case
         if are_collinear(p1, p2, q1) {
-            // Sort points by x (then y then z)
-            let mut pts = [p1, p2, q1, q2];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-                    .then(
-                        p1[2]
-                            .partial_cmp(&p2[2])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
-            return SegmentIntersection3::Overlapping(Segment3 {
-                a: pts[1].clone(),
-                b: pts[2].clone(),
-            });
+            return match collinear_overlap(p1, p2, q1, q2) {
+                None => SegmentIntersection3::None,
+                Some((lo, hi)) if lo == hi => SegmentIntersection3::Point(lo.clone()),
+                Some((lo, hi)) => SegmentIntersection3::Overlapping(Segment3::new(lo, hi)),
+            };
         }
 
         return SegmentIntersection3::None;
-- 
2.43.0


From cce8b9b0eeb355f885c4d1885cce14ec3f871f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:01 +0000
Subject: [PATCH 06/38] fix: round the error radius of ball arithmetic outwards

The radius was summed with round-to-nearest, so the ball could end up
smaller than the set of values it has to contain, for example
{0, 2^8} + {1, 2^-52} gave the radius 2^8.
---
 src/numeric/ball.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index 6593619..6507519 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -61,12 +61,19 @@ impl Ball {
         (up - x).abs()
     }
 
+    /// Upper bound for a radius that was itself computed with a few rounded
+    /// operations on non-negative doubles.
+    #[inline]
+    fn outward(r: f64) -> f64 {
+        r * (1.0 + 16.0 * f64::EPSILON) + f64::MIN_POSITIVE
+    }
+
     #[inline]
     pub fn add(self, o: Self) -> Self {
         let (s, e) = two_sum(self.m, o.m);
         Ball {
             m: s,
-            r: self.r + o.r + e.abs() + Self::widen_ulp(s),
+            r: Self::outward(self.r + o.r + e.abs() + Self::widen_ulp(s)),
         }
     }
     #[inline]
@@ -86,11 +93,13 @@ impl Ball {
         let (p, e) = two_prod(self.m, o.m);
         Ball {
             m: p,
-            r: self.m.abs() * o.r
-                + o.m.abs() * self.r
-                + self.r * o.r
-                + e.abs()
-                + Self::widen_ulp(p),
+            r: Self::outward(
+                self.m.abs() * o.r
+                    + o.m.abs() * self.r
+                    + self.r * o.r
+                    + e.abs()
+                    + Self::widen_ulp(p),
+            ),
         }
     }
 
@@ -99,10 +108,13 @@ impl Ball {
         if self.m.abs() <= self.r {
             return Ball::unknown();
         }
-        let denom = self.m.abs() * (self.m.abs() - self.r);
         let m = 1.0 / self.m;
-        let r = self.r / denom; // outward-bound
-        Ball { m, r }
+        // |1/x - 1/m| <= r / (|m| * (|m| - r)), plus the rounding of 1/m itself
+        let r = self.r / (self.m.abs() - self.r) / self.m.abs();
+        Ball {
+            m,
+            r: Self::outward(r + Self::widen_ulp(m)),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 7c4a97a0acfc2eeb5a0fba7761384721913f4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:03 +0000
Subject: [PATCH 07/38] fix: account for truncated rationals in the lazy number
 filter

A rational leaf that is no double was given a zero error radius, so the
sign of e.g. (1/3 - 0.333..)*2^60 - 1e-10 was decided wrongly.
---
 src/numeric/ball.rs       | 11 +++++++++++
 src/numeric/lazy_exact.rs |  6 +++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index 6507519..01dc0c9 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -46,6 +46,17 @@ impl Ball {
     pub fn from_f64(x: f64) -> Self {
         Ball { m: x, r: 0.0 }
     }
+    /// Ball for a value that was rounded or truncated to `x`.
+    #[inline]
+    pub fn from_rounded(x: f64) -> Self {
+        if !x.is_finite() {
+            return Ball::unknown();
+        }
+        Ball {
+            m: x,
+            r: Self::widen_ulp(x),
+        }
+    }
     #[inline]
     pub fn unknown() -> Self {
         Ball {
diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 82cafe5..f9fc68f 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -825,7 +825,11 @@ impl LazyExact {
         use Kind::*;
         match kind {
             LeafApprox(a) => Ball::from_f64(a.0),
-            LeafExact(e) => Ball::from_f64(e.to_f64().unwrap_or(0.0)),
+            LeafExact(e) => match e.to_f64() {
+                Some(v) if v.is_finite() && CgarRational::from(v) == **e => Ball::from_f64(v),
+                Some(v) => Ball::from_rounded(v),
+                None => Ball::unknown(),
+            },
             Add(a, b) => a.ball_ref().add(b.ball()),
             Sub(a, b) => a.ball_ref().sub(b.ball()),
             Mul(a, b) => a.ball_ref().mul(b.ball()),
-- 
2.43.0


From acc25f7848c54fd7a4ecf141db62b32e28708f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:04 +0000
Subject: [PATCH 08/38] fix: lazy numbers 0.0 and -0.0 compare equal

---
 src/numeric/lazy_exact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index f9fc68f..5d6ac48 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -159,7 +159,7 @@ impl Scalar for LazyExact {
 
         // 2) If both are exact doubles (or both reduced to machine floats)
         if let (Some(da), Some(db)) = (a.as_f64_if_exact(), b.as_f64_if_exact()) {
-            return da.total_cmp(&db);
+            return da.partial_cmp(&db).unwrap();
         }
 
         // 3) Exact comparator WITHOUT building (a-b) node.
-- 
2.43.0


From e6ea3c5f81f7752bf26d226560ec2151030048c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:25 +0000
Subject: [PATCH 09/38] fix: double intervals of exact numbers contain the
 value

The interval of a rational collapsed to its truncated double, and a lazy
number with an overflowed filter reported NaN bounds.
---
 src/numeric/cgar_rational.rs | 8 +++++++-
 src/numeric/lazy_exact.rs    | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/numeric/cgar_rational.rs b/src/numeric/cgar_rational.rs
index 6ddea2e..29b77c1 100644
--- a/src/numeric/cgar_rational.rs
+++ b/src/numeric/cgar_rational.rs
@@ -24,6 +24,7 @@ use num_traits::ToPrimitive;
 use rug::Rational;
 
 use crate::{
+    geometry::util::{f64_next_down, f64_next_up},
     numeric::{
         cgar_f64::CgarF64,
         lazy_exact::LazyExact,
@@ -117,7 +118,12 @@ impl Scalar for CgarRational {
     }
 
     fn double_interval(&self) -> Option<(f64, f64)> {
-        Some((self.0.to_f64(), self.0.to_f64()))
+        let v = self.0.to_f64();
+        if Rational::from_f64(v).is_some_and(|r| r == self.0) {
+            return Some((v, v));
+        }
+        // to_f64 truncates
+        Some((f64_next_down(v), f64_next_up(v)))
     }
 
     fn ball_center_f64(&self) -> f64 {
diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 5d6ac48..9350c1b 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -198,6 +198,9 @@ impl Scalar for LazyExact {
     #[inline(always)]
     fn double_interval(&self) -> Option<(f64, f64)> {
         let b = self.ball_ref();
+        if !b.m.is_finite() || !b.r.is_finite() {
+            return Some((f64::NEG_INFINITY, f64::INFINITY));
+        }
         // Ball is already outward-safe; just return center +/- radius.
         Some((f64_next_down(b.m - b.r), f64_next_up(b.m + b.r)))
     }
-- 
2.43.0


From 2dea8de77ee67f22d8bd63e7e33bbc883ccde315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:34 +0000
Subject: [PATCH 10/38] fix: face boxes contain the exact face corners

The box was built from rounded coordinates and could miss a corner whose
coordinate is no double.
---
 src/mesh/core.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 85eebc1..c711fd5 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -1404,22 +1404,22 @@ pub fn compute_triangle_aabb_fast<T: Scalar, const N: usize>(
 where
     T: From<f64>,
 {
-    // Single allocation for all coordinates
-    let mut coords = [[0.0; N]; 3];
-
-    // Batch extract all coordinates
+    // Enclosing intervals, so that the box contains the exact corners
+    let mut mins = [f64::INFINITY; N];
+    let mut maxs = [f64::NEG_INFINITY; N];
     for i in 0..N {
-        coords[0][i] = p0[i].as_f64_fast()?;
-        coords[1][i] = p1[i].as_f64_fast()?;
-        coords[2][i] = p2[i].as_f64_fast()?;
+        for p in [p0, p1, p2] {
+            let (lo, hi) = p[i].double_interval()?;
+            mins[i] = mins[i].min(lo);
+            maxs[i] = maxs[i].max(hi);
+        }
+        if !mins[i].is_finite() || !maxs[i].is_finite() {
+            return None;
+        }
     }
 
-    // Vectorized min/max computation
-    let min_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].min(coords[1][i]).min(coords[2][i])));
-
-    let max_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].max(coords[1][i]).max(coords[2][i])));
+    let min_coords = std::array::from_fn(|i| T::from(mins[i]));
+    let max_coords = std::array::from_fn(|i| T::from(maxs[i]));
 
     Some(Aabb::new(
         Point::<T, N>::from_vals(min_coords),
-- 
2.43.0


From edf5fc3cb3a42357bf254303c92c95ef2f83353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:25 +0000
Subject: [PATCH 11/38] fix: doubles exactly at the tolerance have a sign

EPS itself was neither zero nor positive nor negative.
---
 src/numeric/cgar_f64.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/numeric/cgar_f64.rs b/src/numeric/cgar_f64.rs
index 353983d..a8f8384 100644
--- a/src/numeric/cgar_f64.rs
+++ b/src/numeric/cgar_f64.rs
@@ -333,16 +333,16 @@ impl crate::operations::Zero for CgarF64 {
     }
 
     fn is_positive(&self) -> bool {
-        self.0 > EPS
+        self.0 >= EPS
     }
     fn is_negative(&self) -> bool {
-        self.0 < -EPS
+        self.0 <= -EPS
     }
     fn is_positive_or_zero(&self) -> bool {
-        self.0 >= -EPS
+        self.0 > -EPS
     }
     fn is_negative_or_zero(&self) -> bool {
-        self.0 <= EPS
+        self.0 < EPS
     }
 }
 
-- 
2.43.0


From fab0c15c290b5e35d97861152d60c5563ac35293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:42 +0000
Subject: [PATCH 12/38] fix: edge parameter sign of the geodesic ray inside a
 face

---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 7854153..181ecb4 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -953,7 +953,7 @@ impl_mesh! {
 
         let inv_det = T::one() / det;
         let t = &rhs.cross(&edge_vec).dot(&face_normal) * &inv_det;
-        let u = &geodesic_dir.cross(&rhs).dot(&face_normal) * &inv_det;
+        let u = &rhs.cross(&geodesic_dir).dot(&face_normal) * &inv_det;
 
         // Validate solution
         if t <= tol || u < T::zero() || u > T::one() {
-- 
2.43.0


From 1f479386abe6896f5499115903815f79f78027b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:01 +0000
Subject: [PATCH 13/38] fix: never drop an axis the plane normal is zero along

---
 src/geometry/tri_tri_intersect.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index 4456f51..eede5a4 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -621,6 +621,16 @@ where
     } else {
         (0, 1, 2)
     };
+    // The doubles only rank the axes: a component that is exactly zero must not be dropped.
+    if n[drop].is_zero() {
+        if !n[0].is_zero() {
+            return (1, 2, 0);
+        } else if !n[1].is_zero() {
+            return (0, 2, 1);
+        } else if !n[2].is_zero() {
+            return (0, 1, 2);
+        }
+    }
     (i0, i1, drop)
 }
 
-- 
2.43.0


From 257892dff986c5badc39ad1312e5777dfa69a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:04 +0000
Subject: [PATCH 14/38] fix: interpolate clipped triangle edges in 3D on tilted
 planes

---
 src/geometry/tri_tri_intersect.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index eede5a4..a3e0fcb 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -671,7 +671,7 @@ where
         + Add<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    let (i0, i1, drop) = coplanar_axes(n);
+    let (i0, i1, _drop) = coplanar_axes(n);
     let a = project_to_2d(a3, i0, i1);
     let b = project_to_2d(b3, i0, i1);
     let t = [
@@ -760,10 +760,8 @@ where
     }
 
     let lerp3 = |t: &T| {
-        let ox = &dx * t;
-        let oy = &dy * t;
-        let p2 = Point2::<T>::from_vals([&a[0] + &ox, &a[1] + &oy]);
-        back_project_to_3d::<T, N>(&p2, i0, i1, drop, a3) // drop axis from a3
+        // interpolate in 3D: the dropped axis varies along the segment on a tilted plane
+        a3.add_vector(&(b3 - a3).as_vector().scale(t))
     };
     let pa = lerp3(&t0);
     let pb = lerp3(&t1);
-- 
2.43.0


From 074cac64180ea637d01a2969d100475703433a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:06 +0000
Subject: [PATCH 15/38] fix: put coplanar triangle overlaps back on their
 tilted plane

---
 src/geometry/tri_tri_intersect.rs | 34 ++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index a3e0fcb..38dd3fe 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -181,12 +181,12 @@ where
     let mut pts: Vec<Point<T, N>> = Vec::new();
     for point in &t1 {
         if point_in_tri_2d(point, &t2) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, p[2]));
+            pts.push(lift_to_plane(point, i0, i1, drop, p[2], n));
         }
     }
     for point in &t2 {
         if point_in_tri_2d(point, &t1) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, q[2]));
+            pts.push(lift_to_plane(point, i0, i1, drop, q[2], n));
         }
     }
 
@@ -196,8 +196,7 @@ where
     for (a, b) in &edges1 {
         for (c, d) in &edges2 {
             if let Some(s) = segment_intersect_2d(a, b, c, d) {
-                // Here we use p0 as the reference for the dropped axis, but you could interpolate if desired
-                pts.push(back_project_to_3d(&s.a, i0, i1, drop, &p[2]));
+                pts.push(lift_to_plane(&s.a, i0, i1, drop, p[2], n));
             }
         }
     }
@@ -230,9 +229,7 @@ where
             for w in 0..hull_idx.len() {
                 let i = hull_idx[w];
                 let j = hull_idx[(w + 1) % hull_idx.len()];
-                let a3 = back_project_to_3d(&pts2d[i], i0, i1, drop, p[2]);
-                let b3 = back_project_to_3d(&pts2d[j], i0, i1, drop, p[2]);
-                segs.push(Segment::new(&a3, &b3));
+                segs.push(Segment::new(&uniq[i], &uniq[j]));
             }
             TriTriIntersectionResult::CoplanarPolygon(segs)
         }
@@ -657,6 +654,29 @@ where
     coords
 }
 
+/// Back-project a 2D point onto the plane through `reference` with normal `n` (n[drop] != 0).
+fn lift_to_plane<T: Scalar, const N: usize>(
+    p: &Point2<T>,
+    i0: usize,
+    i1: usize,
+    drop: usize,
+    reference: &Point<T, N>,
+    n: &Vector<T, N>,
+) -> Point<T, N>
+where
+    Point<T, N>: SpatialElement<T, N>,
+    for<'a> &'a T: Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Add<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    let mut coords = back_project_to_3d(p, i0, i1, drop, reference);
+    let d0 = &n[i0] * &(&p.coords[0] - &reference[i0]);
+    let d1 = &n[i1] * &(&p.coords[1] - &reference[i1]);
+    coords[drop] = &reference[drop] - &(&(&d0 + &d1) / &n[drop]);
+    coords
+}
+
 fn clip_segment_to_triangle_in_plane<T: Scalar, const N: usize>(
     a3: &Point<T, N>,
     b3: &Point<T, N>,
-- 
2.43.0


From 2b6e53da27479576f21e019813e48951fa43b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:08 +0000
Subject: [PATCH 16/38] fix: report coplanar triangles that touch in one point

---
 src/geometry/tri_tri_intersect.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index 38dd3fe..908ed1d 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -217,6 +217,7 @@ where
     }
 
     match uniq.len() {
+        1 => TriTriIntersectionResult::Coplanar(Segment::new(&uniq[0], &uniq[0])),
         2 => TriTriIntersectionResult::Coplanar(Segment::new(&uniq[0], &uniq[1])),
         m if m >= 3 => {
             // 1) project all uniq back to 2D
-- 
2.43.0


From 074001bc37220fbfc253a53f292ac37c84c18911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:57 +0000
Subject: [PATCH 17/38] fix: as_f64_if_exact panicked for rationals beyond the
 double range

---
 src/numeric/lazy_exact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 9350c1b..0ef4b8b 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -360,7 +360,7 @@ impl LazyExact {
             Kind::LeafExact(e) => {
                 if let Some(v) = e.to_f64() {
                     // accept only if round-trip is exact (dyadic)
-                    if CgarRational::from(v) == **e {
+                    if v.is_finite() && CgarRational::from(v) == **e {
                         Some(v)
                     } else {
                         None
-- 
2.43.0


From d9dc25ca9dc7492fac238a352da3ef7f56817813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:05 +0000
Subject: [PATCH 18/38] fix: keep both sides of a split border edge linked

Splitting an edge on the border left the outer half-edge spanning the whole
old edge, so the border no longer matched the faces next to it.
---
 src/mesh/core.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index c711fd5..9d613c6 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -761,6 +761,8 @@ impl_mesh! {
             // Open borders scenario
             let ex_he_ba = self.half_edges[he_ab].twin; // b->a
             let ex_he_cb = self.half_edges[he_bc].twin; // c->b
+            let prev_border = self.half_edges[he_ac].prev; // border edge ending at a
+            let next_border = self.half_edges[he_ac].next; // border edge leaving c
 
             // Mark old faces and half-edges removed
             self.faces[original_face_1].removed = true;
@@ -859,13 +861,19 @@ impl_mesh! {
 
             // Create two new null faces for border half-edges bhe_wc (w->c) and bhe_aw (a->w)
             self.half_edges[bhe_wc].face = None;
-            // self-loop
-            self.half_edges[bhe_wc].next = bhe_wc;
-            self.half_edges[bhe_wc].prev = bhe_wc;
-
             self.half_edges[bhe_aw].face = None;
-            self.half_edges[bhe_aw].next = bhe_aw;
-            self.half_edges[bhe_aw].prev = bhe_aw;
+
+            // They take the place of a->c in its border loop
+            self.half_edges[bhe_aw].next = bhe_wc;
+            self.half_edges[bhe_wc].prev = bhe_aw;
+            self.half_edges[bhe_aw].prev = prev_border;
+            self.half_edges[bhe_wc].next = next_border;
+            if prev_border < base_he_idx {
+                self.half_edges[prev_border].next = bhe_aw;
+            }
+            if next_border < base_he_idx {
+                self.half_edges[next_border].prev = bhe_wc;
+            }
 
             // Edge map updates
             self.edge_map.insert((c, w), he_cw);
@@ -876,10 +884,10 @@ impl_mesh! {
             self.edge_map.insert((a, w), bhe_aw);
 
             // Update representative half-edges at vertices
-            self.vertices[w].half_edge.get_or_insert(he_wb);
-            self.vertices[a].half_edge.get_or_insert(he_ab);
-            self.vertices[b].half_edge.get_or_insert(he_bc);
-            self.vertices[c].half_edge.get_or_insert(he_cw);
+            self.vertices[w].half_edge = Some(he_wb);
+            self.vertices[a].half_edge = Some(he_ab);
+            self.vertices[b].half_edge = Some(he_bc);
+            self.vertices[c].half_edge = Some(he_cw);
 
             if update_tree {
                 // AABB tree updates (invalidate old real face; null face not in tree originally)
-- 
2.43.0


From 44f4154e5fd3203cb1830f07fd804f5e4044b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:05 +0000
Subject: [PATCH 19/38] fix: walk border loops from the last border half-edge
 found

Around a vertex the walk restarted from the same half-edge on every turn and
could pair border half-edges of different loops.
---
 src/mesh/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 9d613c6..f01bc05 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -142,7 +142,7 @@ impl_mesh! {
                 }
 
                 // Keep rotating around the same vertex via the interior side of `cand`
-                t = self.half_edges[cand].twin;
+                t = cand;
                 if t >= m || self.half_edges[t].removed || !self.face_ok(t) {
                     // If we lose a valid interior, bail to self-loop
                     break b;
-- 
2.43.0


From 30ee62d984213ba810d86d908819ef40df32f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:54 +0000
Subject: [PATCH 20/38] fix: refuse edge collapses that pinch or fold the
 surface

An inner edge between two border vertices pinched the surface, and collapsing an
edge of a tetrahedron left two faces with the same corners.
---
 src/mesh/edge_collapse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 34a7c9d..5682733 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -166,8 +166,13 @@ impl_mesh! {
         if let Some(a) = pr.opposite_a { expected.insert(a); }
         if let Some(b) = pr.opposite_b { expected.insert(b); }
 
+        let (n0, n1) = (pr.ring0.neighbors_ccw.len(), pr.ring1.neighbors_ccw.len());
         match self.opposites_count(&pr) {
-            2 => common == expected,           // interior: must be {a,b}
+            // interior: must be {a,b}; two border ends would pinch the surface unless it is
+            // just these two faces, and the faces of a tetrahedron would fall onto each other
+            2 => common == expected
+                && (!(pr.ring0.is_border && pr.ring1.is_border) || (n0 == 3 && n1 == 3))
+                && !(n0 == 3 && n1 == 3 && !pr.ring0.is_border && !pr.ring1.is_border),
             1 => common == expected,           // border:   must be {a}
             _ => false,                        // 0 or >2 ⇒ invalid configuration
         }
-- 
2.43.0


From 1eb8d29c786e6069326fae8143983997756e5be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:54 +0000
Subject: [PATCH 21/38] fix: relink the border when a border edge is collapsed

---
 src/mesh/edge_collapse.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 5682733..6447fcd 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -432,8 +432,16 @@ impl_mesh! {
         let splice_r_from = if right_exists { self.half_edges[he_bv].prev } else { usize::MAX };
         let splice_r_to   = if right_exists { self.half_edges[he_ub].next } else { usize::MAX };
 
-        // Half-edges to remove (the two faces' 6 interior half-edges)
-        let remove_set = [he_uv, he_vu, he_va, he_au, he_ub, he_bv];
+        // Half-edges to remove (the two faces' 6 interior half-edges); on a border side
+        // only the collapsing one goes, its neighbours stay in the border loop
+        let remove_set = [
+            he_uv,
+            he_vu,
+            if left_exists { he_va } else { he_uv },
+            if left_exists { he_au } else { he_uv },
+            if right_exists { he_ub } else { he_vu },
+            if right_exists { he_bv } else { he_vu },
+        ];
 
         // ---------- 2b. Collect all half-edges incident to u or v (for retargeting) ----------
         let affected_u = self.collect_incident_half_edges(u);
@@ -465,10 +473,16 @@ impl_mesh! {
         if left_exists {
             self.half_edges[splice_l_from].next = splice_l_to;
             self.half_edges[splice_l_to].prev = splice_l_from;
+        } else {
+            self.half_edges[he_au].next = he_va;
+            self.half_edges[he_va].prev = he_au;
         }
         if right_exists {
             self.half_edges[splice_r_from].next = splice_r_to;
             self.half_edges[splice_r_to].prev = splice_r_from;
+        } else {
+            self.half_edges[he_bv].next = he_ub;
+            self.half_edges[he_ub].prev = he_bv;
         }
 
         // ---------- 7. Mark faces removed ----------
-- 
2.43.0


From 65146c38676095a5188b2de276b2bd5847d96944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:54 +0000
Subject: [PATCH 22/38] fix: drop edges that lose their last face in a collapse

---
 src/mesh/edge_collapse.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 6447fcd..94bdaac 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -599,6 +599,20 @@ impl_mesh! {
             }
         }
 
+        // An edge that lost its last face goes too
+        for &hid in &all_affected {
+            let twin = self.half_edges[hid].twin;
+            if self.half_edges[hid].removed || self.half_edges[hid].face.is_some() { continue; }
+            if twin == usize::MAX || self.half_edges[twin].face.is_some() { continue; }
+            let (src, dst) = (self.half_edges[twin].vertex, self.half_edges[hid].vertex);
+            self.edge_map.remove(&(src, dst));
+            self.edge_map.remove(&(dst, src));
+            self.half_edges[hid].removed = true;
+            self.half_edges[twin].removed = true;
+            self.vertices[src].half_edge = None;
+            self.vertices[dst].half_edge = None;
+        }
+
         let mut fixed_vertices = AHashSet::new();
         for &hid in &all_affected {
             let he = &self.half_edges[hid];
-- 
2.43.0


From c3c569d37356b12bbd914b02e2886d031bd4af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:06 +0000
Subject: [PATCH 23/38] fix: outward bounds for boxes in the box tree

Converting an exact coordinate to the nearest double can round inwards, and a
query could then miss a box that it touches.
---
 src/geometry/aabb_tree.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 8d0f4a5..2c9b145 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -587,11 +587,16 @@ fn approx_from_exact<T: Scalar, const N: usize, P: SpatialElement<T, N>>(
     let mut mn = [0.0; N];
     let mut mx = [0.0; N];
     for i in 0..N {
-        // outward-safe: step one ULP past the rounded extremes
-        let lo = as_f64(&a.min[i]);
-        let hi = as_f64(&a.max[i]);
-        mn[i] = f64_next_down(lo);
-        mx[i] = f64_next_up(hi);
+        // outward-safe: the guaranteed interval of the coordinate where there is one,
+        // else step one ULP past the rounded extremes
+        mn[i] = match a.min[i].double_interval() {
+            Some((lo, _)) => lo,
+            None => f64_next_down(as_f64(&a.min[i])),
+        };
+        mx[i] = match a.max[i].double_interval() {
+            Some((_, hi)) => hi,
+            None => f64_next_up(as_f64(&a.max[i])),
+        };
     }
     (mn, mx)
 }
-- 
2.43.0


From 127c1c10b94e0bab300e2d7f7b6ad1f097038993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:06 +0000
Subject: [PATCH 24/38] fix: no overflow when looking up vertices in the
 outermost cells

---
 src/mesh/core.rs         | 2 +-
 src/mesh/spatial_hash.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index f01bc05..3cea3ce 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -554,7 +554,7 @@ impl_mesh! {
 
         let (kx, ky, kz) = self.position_to_hash_key(pos);
         for (dx,dy,dz) in OFFS {
-            let key = Self::pack_key3(kx + dx, ky + dy, kz + dz);
+            let key = Self::pack_key3(kx.saturating_add(dx), ky.saturating_add(dy), kz.saturating_add(dz));
             if let Some(bucket) = self.vertex_spatial_hash.get(&key) {
                 for &vi in bucket {
                     if kernel::are_equal(&self.vertices[vi].position, pos) {
diff --git a/src/mesh/spatial_hash.rs b/src/mesh/spatial_hash.rs
index 51611b6..5dbe8b5 100644
--- a/src/mesh/spatial_hash.rs
+++ b/src/mesh/spatial_hash.rs
@@ -40,7 +40,7 @@ impl_mesh! {
     fn floor_sat_i64(x: f64) -> i64 {
         if !x.is_finite() { return if x.is_sign_positive() { i64::MAX } else { i64::MIN }; }
         let i = x as i64;
-        i - ((i as f64 > x) as i64)
+        i.saturating_sub((i as f64 > x) as i64)
     }
 
     #[inline(always)]
-- 
2.43.0


From 021605af6e5c2e9bcb0ee5d73763bd92f92cc752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:06 +0000
Subject: [PATCH 25/38] fix: compare points with the merge threshold after the
 quick test too

Two points closer than the threshold were called different or equal depending
on whether their coordinates had been evaluated before.
---
 src/kernel/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index a959ca0..4121d41 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -68,7 +68,7 @@ where
             }
         } else {
             // Fallback: use exact comparison only if approximation unavailable
-            if !diff.is_zero() {
+            if diff.abs() > T::point_merge_threshold() {
                 return false;
             }
         }
-- 
2.43.0


From dd5baacb0622c66862735d1c7343be3657573b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:06 +0000
Subject: [PATCH 26/38] fix: report malformed OBJ files as errors instead of
 panicking

---
 src/io/obj.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index cd6fe3e..cf21e0d 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -24,6 +24,7 @@ use std::{
     fs::File,
     io::{self, BufRead, BufReader, BufWriter, Write},
     path::Path,
+    str::FromStr,
 };
 
 use crate::{
@@ -93,6 +94,12 @@ where
     let file = File::open(path)?;
     let reader = BufReader::new(file);
 
+    fn number<F: FromStr>(token: Option<&str>) -> io::Result<F> {
+        token.and_then(|t| t.parse().ok()).ok_or_else(|| {
+            io::Error::new(io::ErrorKind::InvalidData, "OBJ: missing or bad number")
+        })
+    }
+
     let mut mesh = Mesh::new();
     let mut vertex_map = Vec::new();
 
@@ -102,17 +109,23 @@ where
         match parts.next() {
             Some("v") => {
                 // parse three floats
-                let x: f64 = parts.next().unwrap().parse().unwrap();
-                let y: f64 = parts.next().unwrap().parse().unwrap();
-                let z: f64 = parts.next().unwrap().parse().unwrap();
+                let x: f64 = number(parts.next())?;
+                let y: f64 = number(parts.next())?;
+                let z: f64 = number(parts.next())?;
                 let vid = mesh.add_vertex(Point3::<T>::from_vals([x, y, z]));
                 vertex_map.push(vid);
             }
             Some("f") => {
                 // parse three vertex indices (1-based OBJ)
-                let i: usize = parts.next().unwrap().parse().unwrap();
-                let j: usize = parts.next().unwrap().parse().unwrap();
-                let k: usize = parts.next().unwrap().parse().unwrap();
+                let i: usize = number(parts.next())?;
+                let j: usize = number(parts.next())?;
+                let k: usize = number(parts.next())?;
+                if [i, j, k].iter().any(|&v| v == 0 || v > vertex_map.len()) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "OBJ: face index out of range",
+                    ));
+                }
                 // subtract 1 for zero-based
                 mesh.add_triangle(i - 1, j - 1, k - 1);
             }
-- 
2.43.0


From f0bdf4cfaa96f584b6b0e764a6467c5e39018726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:06 +0000
Subject: [PATCH 27/38] fix: report OFF faces with missing vertices as errors
 instead of panicking

---
 src/io/off.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/off.rs b/src/io/off.rs
index 7509a44..38e0db5 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -230,6 +230,12 @@ where
                 })?
                 .parse()
                 .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad index c"))?;
+            if [a, b, c].iter().any(|&v| v >= vcount) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "OFF: face index out of range",
+                ));
+            }
             mesh.add_triangle(a, b, c);
         } else {
             // Skip non-triangle indices
-- 
2.43.0


From 89be69568aa10f3a5583684761e9b1dcd3dfb23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:55 +0000
Subject: [PATCH 28/38] fix: search faces along a ray with the exact ray box

Casting a ray converted the corners of the ray's bounding box to doubles.
Faces touching the box could be missed after rounding.
The box now keeps the coordinates of the ray.
---
 src/mesh/topology.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 181ecb4..cf376d0 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -644,13 +644,9 @@ impl_mesh! {
 
         let far_multiplier = T::from(10e6); // 10 km in mm units
         let far_point = Point::<T, N>::from_vals(std::array::from_fn(|i| {
-            let tmp = &p[i] + &(&dir[i] * &far_multiplier);
-            tmp.into()
+            &p[i] + &(&dir[i] * &far_multiplier)
         }));
-        let p_f = Point::<T, N>::from_vals(std::array::from_fn(|i| {
-            p[i].clone().into()
-        }));
-        let ray_aabb = Aabb::<T, N, Point<T, N>>::from_points(&p_f, &far_point);
+        let ray_aabb = Aabb::<T, N, Point<T, N>>::from_points(p, &far_point);
 
         let mut candidate_faces = Vec::new();
         tree.query_valid(&ray_aabb, &mut candidate_faces);
-- 
2.43.0


From 1d459d0e45122a383e4d9dbca142922e078f9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:55 +0000
Subject: [PATCH 29/38] fix: cross the right edges in the planar inside test

The planar inside test took the wrong two vertices for each border edge.
Rays through a border vertex were counted once per edge meeting there.
Edges now run from their source to their target, and an end on the ray
counts as below it.
---
 src/mesh/topology.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index cf376d0..60f4e2b 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -739,8 +739,8 @@ impl_mesh! {
             + Mul<&'a T, Output = T>
             + Div<&'a T, Output = T>
     {
-        let v1 = self.half_edges[he].vertex;
-        let v2 = self.half_edges[self.half_edges[he].next].vertex;
+        let v1 = self.half_edges[self.half_edges[he].prev].vertex;
+        let v2 = self.half_edges[he].vertex;
 
         let p1 = &self.vertices[v1].position;
         let p2 = &self.vertices[v2].position;
@@ -748,20 +748,12 @@ impl_mesh! {
         // Ray casting from point horizontally to the right
         // Check if edge crosses the horizontal ray
 
-        // Both points above or below the ray
-        if ((&p1[1] - &point[1]).is_positive() && (&p2[1] - &point[1]).is_positive()) ||
-        ((&p1[1] - &point[1]).is_negative() && (&p2[1] - &point[1]).is_negative()) {
+        // Both points above, or both at or below the ray; an end on the ray counts
+        // as below it, so that the two edges meeting there are not both crossed
+        if (&p1[1] - &point[1]).is_positive() == (&p2[1] - &point[1]).is_positive() {
             return false;
         }
 
-        // Edge is horizontal and at same y-level as point
-        if (&p1[1] - &p2[1]).is_zero() && (&p1[1] - &point[1]).is_zero() {
-            // Check if point is between edge endpoints
-            let min_x = if (&p1[0] - &p2[0]).is_negative() { &p1[0] } else { &p2[0] };
-            let max_x = if (&p1[0] - &p2[0]).is_positive() { &p1[0] } else { &p2[0] };
-            return !(&point[0] - min_x).is_negative() && !(&point[0] - max_x).is_positive();
-        }
-
         // Calculate intersection x-coordinate
         let dy = &p2[1] - &p1[1];
         if dy.is_zero() {
-- 
2.43.0


From 00a8be5b84d4a83c362fae83b8d218a89238e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:55 +0000
Subject: [PATCH 30/38] fix: count all crossings in the solid inside test

The inside test only asked whether a ray hits the mesh at all, so points
outside a solid but in front of it could be reported inside.
Each ray now votes with the parity of its crossings. Rays through an edge
or a vertex do not vote, and other directions are tried if none did.
---
 src/mesh/topology.rs | 81 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 66 insertions(+), 15 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 60f4e2b..423a73e 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -565,35 +565,86 @@ impl_mesh! {
             Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::zero(), T::from(-1.0)][i].clone())),
         ];
 
-        let total_rays = rays.len();
+        let mut votes = 0usize;
         let mut inside_count = 0usize;
-        let mut on_surface = false;
 
         for r in rays {
-            match self.cast_ray_3(p, &r, tree, &None) {
-                IntersectionResult::Hit(_hit, t) => {
-                    if t.is_zero() {
-                        on_surface = true; // optionally: return PointInMeshResult::OnSurface immediately
-                    } else {
-                        // odd parity for this direction
-                        inside_count += 1;
-                    }
+            match self.ray_crossings_3(p, &r, tree) {
+                Some((true, _)) => return PointInMeshResult::OnSurface,
+                Some((false, crossings)) => {
+                    votes += 1;
+                    inside_count += crossings % 2;
                 }
-                IntersectionResult::Miss => {
-                    // even parity for this direction (0), do nothing
+                None => {} // runs into an edge or a vertex: undecided
+            }
+        }
+
+        // Other directions, no three of them in one plane, until one avoids every edge
+        let mut k = 2;
+        while votes == 0 && k < 2 * self.half_edges.len() + 4 {
+            let kf = k as f64;
+            let r = Vector::<T, N>::from_vals(from_fn(|i| {
+                [T::one(), T::from(kf), T::from(kf * kf)][i].clone()
+            }));
+            match self.ray_crossings_3(p, &r, tree) {
+                Some((true, _)) => return PointInMeshResult::OnSurface,
+                Some((false, crossings)) => {
+                    votes += 1;
+                    inside_count += crossings % 2;
                 }
+                None => {}
             }
+            k += 1;
         }
 
-        if on_surface {
-            PointInMeshResult::OnSurface
-        } else if inside_count > total_rays / 2 {
+        if 2 * inside_count > votes {
             PointInMeshResult::Inside
         } else {
             PointInMeshResult::Outside
         }
     }
 
+    /// Whether the origin `p` of a ray is on a face, and the number of faces the ray crosses.
+    /// None if the ray runs into an edge or a vertex.
+    fn ray_crossings_3(
+        &self,
+        p: &Point<T, N>,
+        dir: &Vector<T, N>,
+        tree: &AabbTree<T, N, Point<T, N>, usize>,
+    ) -> Option<(bool, usize)>
+    where
+        Vector<T, N>: VectorOps<T, N>,
+    {
+        let far = T::from(10e6); // as in cast_ray_3
+        let far_point = Point::<T, N>::from_vals(from_fn(|i| &p[i] + &(&dir[i] * &far)));
+        let ray_aabb = Aabb::<T, N, Point<T, N>>::from_points(p, &far_point);
+        let mut candidate_faces = Vec::new();
+        tree.query_valid(&ray_aabb, &mut candidate_faces);
+
+        let tol = T::tolerance();
+        let mut crossings = 0usize;
+        let mut through_edge = false;
+        for &fi in &candidate_faces {
+            if self.faces[*fi].removed {
+                continue;
+            }
+            let vs = self.face_vertices(*fi);
+            let tri = from_fn(|i| &self.vertices[vs[i]].position);
+            if let Some((t, u, v)) = ray_triangle_intersection(p, dir, tri, &None) {
+                if t.is_zero() {
+                    return Some((true, 0));
+                }
+                let l0 = &T::one() - &(&u + &v);
+                if l0 <= tol || u <= tol || v <= tol {
+                    through_edge = true;
+                } else {
+                    crossings += 1;
+                }
+            }
+        }
+        if through_edge { None } else { Some((false, crossings)) }
+    }
+
     fn get_boundary_half_edges(&self) -> Vec<usize> {
         let mut boundary_edges = Vec::new();
 
-- 
2.43.0


From 32173474d2d9193ca7b0cdfc45df89ef8db1db2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:16:36 +0000
Subject: [PATCH 31/38] fix: keep the bounding triangle around the points at
 any position

The apex was scaled by the coordinates and the batch centre was doubled, so
the triangle did not contain points away from the origin.
---
 src/operations/triangulation/delaunay.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 5421113..2115fa4 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -139,8 +139,8 @@ where
             let dx = &max[0] - &min[0];
             let dy = &max[1] - &min[1];
             let delta = dx.max(dy);
-            let cx = (&min[0] + &max[0]) * T::from_num_den(2, 1);
-            let cy = (&min[1] + &max[1]) * T::from_num_den(2, 1);
+            let cx = (&min[0] + &max[0]) * T::from_num_den(1, 2);
+            let cy = (&min[1] + &max[1]) * T::from_num_den(1, 2);
             let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
 
             super_triangles.push(Some((cx, cy, r)));
@@ -165,7 +165,7 @@ where
             points.extend([
                 Point2::<T>::from_vals([
                     T::from(cx.clone()),
-                    T::from(&(cy + &T::from_num_den(2, 1)) * &r),
+                    cy + &(&T::from_num_den(2, 1) * r),
                 ]),
                 Point2::<T>::from_vals([T::from(cx - &(&sqrt_3 * &r)), T::from(cy - &r)]),
                 Point2::<T>::from_vals([T::from(cx + &(&sqrt_3 * &r)), T::from(cy - &r)]),
@@ -256,7 +256,7 @@ where
         let sqrt_3 = T::from(SQRT_3);
         let p_super0 = Point2::<T>::from_vals([
             T::from(cx.clone()),
-            T::from(&(&cy + &T::from_num_den(2, 1)) * &r),
+            &cy + &(&T::from_num_den(2, 1) * &r),
         ]);
         let p_super1 = Point2::<T>::from_vals([T::from(&cx - &(&sqrt_3 * &r)), T::from(&cy - &r)]);
         let p_super2 = Point2::<T>::from_vals([T::from(&cx + &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-- 
2.43.0


From b3ba1791283d31a1adf8c8dd503d95f2346633fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:16:36 +0000
Subject: [PATCH 32/38] fix: insert constraints by retriangulating the crossing
 triangles

Walking and flipping could leave a constraint out or leave overlapping
triangles. The crossed triangles are now replaced on both sides of it.
---
 src/operations/triangulation/delaunay.rs | 91 ++++++++++++++++++++++++
 1 file changed, 91 insertions(+)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 2115fa4..eac5dc0 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -495,6 +495,9 @@ where
         if self.edge_exists(Edge::new(a, b)) {
             return Ok(());
         }
+        if self.retriangulate_along(a, b, adj, constrained) {
+            return Ok(());
+        }
 
         // Choose a starting triangle that actually faces toward the segment (a,b).
         // Prefer a's incident triangles; if none useful, swap endpoints and try b.
@@ -620,6 +623,94 @@ where
         Ok(())
     }
 
+    /// Replace the triangles crossed by (a,b) by triangles on both sides of (a,b). Returns false
+    /// and changes nothing if (a,b) leaves the triangulation or crosses a vertex or constraint.
+    fn retriangulate_along(
+        &mut self,
+        a: usize,
+        b: usize,
+        adj: &mut Adj,
+        constrained: &AHashSet<Edge>,
+    ) -> bool {
+        let side = |w: usize| orient2d(&self.points[a], &self.points[b], &self.points[w]);
+
+        // The triangle at a that (a,b) enters, with the crossed edge: u left, v right
+        let start = adj.vert2tris[a].iter().find_map(|&ti| {
+            let t = self.triangles[ti];
+            let (u, v) = tri_edges(t).into_iter().find(|&(u, v)| u != a && v != a)?;
+            let ahead = orient2d(&self.points[u], &self.points[v], &self.points[b]);
+            let here = orient2d(&self.points[u], &self.points[v], &self.points[a]);
+            let across = (ahead.is_positive() && here.is_negative())
+                || (ahead.is_negative() && here.is_positive());
+            match (side(u), side(v)) {
+                (su, sv) if across && su.is_positive() && sv.is_negative() => Some((ti, u, v)),
+                (su, sv) if across && su.is_negative() && sv.is_positive() => Some((ti, v, u)),
+                _ => None,
+            }
+        });
+        let Some((mut ti, mut u, mut v)) = start else {
+            return false;
+        };
+
+        // Walk to b, collecting the vertices on each side
+        let (mut crossed, mut left, mut right) = (vec![ti], vec![u], vec![v]);
+        loop {
+            let e = Edge::new(u, v);
+            let next = adj.edge2tris.get(&e).and_then(|l| l.iter().find(|&&x| x != ti));
+            let Some(&next) = next.filter(|_| !constrained.contains(&e)) else {
+                return false;
+            };
+            ti = next;
+            if crossed.contains(&ti) {
+                return false;
+            }
+            crossed.push(ti);
+            let Some(w) = third_vertex(self.triangles[ti], u, v) else {
+                return false;
+            };
+            if w == b {
+                break;
+            }
+            let s = side(w);
+            if s.is_positive() {
+                left.push(w);
+                u = w;
+            } else if s.is_negative() {
+                right.push(w);
+                v = w;
+            } else {
+                return false;
+            }
+        }
+
+        right.reverse();
+        let mut fresh = Vec::with_capacity(crossed.len());
+        self.triangulate_chain(a, b, &left, &mut fresh);
+        self.triangulate_chain(b, a, &right, &mut fresh);
+        for (&ti, &t) in crossed.iter().zip(&fresh) {
+            adj.replace_tri(ti, self.triangles[ti], t);
+            self.triangles[ti] = t;
+        }
+        true
+    }
+
+    /// Triangulate between the edge (a,b) and a chain of vertices from a to b on its left.
+    fn triangulate_chain(&self, a: usize, b: usize, chain: &[usize], out: &mut Vec<Triangle>) {
+        if chain.is_empty() {
+            return;
+        }
+        let p = &self.points;
+        let mut k = 0;
+        for i in 1..chain.len() {
+            if incircle(&p[a], &p[b], &p[chain[k]], &p[chain[i]]).is_positive() {
+                k = i;
+            }
+        }
+        self.triangulate_chain(a, chain[k], &chain[..k], out);
+        self.triangulate_chain(chain[k], b, &chain[k + 1..], out);
+        out.push(Triangle(a, b, chain[k]));
+    }
+
     /// After (a,b) exists, if it has only one incident triangle, add the missing one.
     /// Prefer the recorded apexes from the walk; otherwise choose the best common neighbor on the opposite side.
     fn add_missing_triangle_for_edge(
-- 
2.43.0


From 5fdceaad485e75a95e8705c6b4893d35f8c16dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:16:36 +0000
Subject: [PATCH 33/38] fix: keep small jobs in their place in a batch of
 triangulations

Jobs with fewer than three points were put before all other results.
---
 src/operations/triangulation/delaunay.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index eac5dc0..d93f3b9 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -127,10 +127,6 @@ where
         let mut super_triangles = Vec::with_capacity(jobs.len());
         for job in jobs {
             if job.points_uv.len() < 3 {
-                results.push(Self {
-                    points: job.points_uv.clone(),
-                    triangles: Vec::new(),
-                });
                 super_triangles.push(None);
                 continue;
             }
@@ -149,6 +145,10 @@ where
         // Process each job with pre-computed super-triangle
         for (job_idx, job) in jobs.iter().enumerate() {
             if job.points_uv.len() < 3 {
+                results.push(Self {
+                    points: job.points_uv.clone(),
+                    triangles: Vec::new(),
+                });
                 continue;
             }
 
-- 
2.43.0


From 8b9e75b975987c2294dd9b5c837b9cc06ba3db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:16:36 +0000
Subject: [PATCH 34/38] fix: split a border edge from the side that has the
 face

Splitting the half-edge without a face broke the connectivity.
---
 src/mesh/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 3cea3ce..93c548d 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -736,7 +736,8 @@ impl_mesh! {
         update_tree: bool,
     ) -> Result<SplitResult, &'static str>
     {
-        let he_ca = he;
+        // A border edge is split from the side of its face
+        let he_ca = if self.half_edges[he].face.is_none() { self.half_edges[he].twin } else { he };
         let he_ab = self.half_edges[he_ca].next;
         let he_bc = self.half_edges[he_ab].next;
         let he_ac = self.half_edges[he_ca].twin;
-- 
2.43.0


From 57769fbf800c35831d1158dcd9c8f245f3e4014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:16:36 +0000
Subject: [PATCH 35/38] fix: do not panic on zero-length edges when flipping

Such an edge has no angle; it is now left alone.
---
 src/mesh_processing/remesh.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mesh_processing/remesh.rs b/src/mesh_processing/remesh.rs
index f09f11b..9a6137e 100644
--- a/src/mesh_processing/remesh.rs
+++ b/src/mesh_processing/remesh.rs
@@ -219,13 +219,17 @@ impl_mesh! {
         if v2 == v3 { return false; } // would collapse
 
         // Old triangles: (v0,v1,v2) and (v1,v0,v3)
-        let old1 = self.tri_min_angle_cos_f64(v0,v1,v2).unwrap();
-        let old2 = self.tri_min_angle_cos_f64(v1,v0,v3).unwrap();
+        let (Some(old1), Some(old2)) = (
+            self.tri_min_angle_cos_f64(v0,v1,v2),
+            self.tri_min_angle_cos_f64(v1,v0,v3),
+        ) else { return false; };
         let old_min = old1.max(old2); // since each returns cos(minAngle of tri), worst small angle
 
         // New triangles after flip: (v0,v2,v3) and (v1,v3,v2)
-        let new1 = self.tri_min_angle_cos_f64(v0,v2,v3).unwrap();
-        let new2 = self.tri_min_angle_cos_f64(v1,v3,v2).unwrap();
+        let (Some(new1), Some(new2)) = (
+            self.tri_min_angle_cos_f64(v0,v2,v3),
+            self.tri_min_angle_cos_f64(v1,v3,v2),
+        ) else { return false; };
         let new_min = new1.max(new2);
 
         // Require a strict improvement with a small epsilon
-- 
2.43.0


From 2bce04b272ccd275670c24c3c52c3199306cbe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:33:05 +0000
Subject: [PATCH 36/38] fix: classify every inside region of a boolean

The flood fill started from one seed, so with several separate regions
inside the other solid only one was found.
---
 src/mesh_processing/boolean.rs | 66 ++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index e16a2c6..b8dfb89 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -176,6 +176,7 @@ where
                 &tree_b,
                 intersection_segments,
                 &boundary_faces,
+                &visited,
                 include_on_surface,
             );
 
@@ -194,8 +195,6 @@ where
                 return inside;
             }
 
-            let (_seed_intersection_idx, selected_face) = seed_result.unwrap();
-
             let mut face_pairs: AHashMap<usize, Vec<usize>> = AHashMap::new();
             for seg_idx in 0..intersection_segments.len() {
                 let seg = &intersection_segments[seg_idx];
@@ -225,33 +224,47 @@ where
             // 4) iterative flood‐fill without crossing the boundary_map
             let mut queue = VecDeque::new();
 
-            // seed found as before
-            visited[selected_face] = true;
-            inside[selected_face] = true;
-            queue.push_back(selected_face);
-            let mut num_visited = 1;
-
-            while let Some(curr) = queue.pop_front() {
-                for nbr in self.adjacent_faces(curr) {
-                    if visited[nbr] {
-                        continue;
-                    }
-
-                    let paired = face_pairs.get(&curr);
-                    // skip exactly the neighbor that comes from the same segment split
-                    if let Some(pv) = paired {
-                        if pv.iter().any(|&pf| pf == nbr) {
-                            // this nbr is the other half of a segment splitting curr
+            // each region inside B has its own seed
+            let mut seed = seed_result;
+            let mut num_visited = 0;
+            while let Some((_seed_intersection_idx, selected_face)) = seed {
+                visited[selected_face] = true;
+                inside[selected_face] = true;
+                queue.push_back(selected_face);
+                num_visited += 1;
+
+                while let Some(curr) = queue.pop_front() {
+                    for nbr in self.adjacent_faces(curr) {
+                        if visited[nbr] {
                             continue;
                         }
-                    }
 
-                    // otherwise, it's a genuine inside‐region adjacency
-                    visited[nbr] = true;
-                    inside[nbr] = true;
-                    num_visited += 1;
-                    queue.push_back(nbr);
+                        let paired = face_pairs.get(&curr);
+                        // skip exactly the neighbor that comes from the same segment split
+                        if let Some(pv) = paired {
+                            if pv.iter().any(|&pf| pf == nbr) {
+                                // this nbr is the other half of a segment splitting curr
+                                continue;
+                            }
+                        }
+
+                        // otherwise, it's a genuine inside‐region adjacency
+                        visited[nbr] = true;
+                        inside[nbr] = true;
+                        num_visited += 1;
+                        queue.push_back(nbr);
+                    }
                 }
+
+                seed = Self::get_seed_face_3(
+                    &self,
+                    &other,
+                    &tree_b,
+                    intersection_segments,
+                    &boundary_faces,
+                    &visited,
+                    include_on_surface,
+                );
             }
 
             println!(
@@ -1125,6 +1138,7 @@ where
         tree_b: &AabbTree<T, N, Point<T, N>, usize>,
         intersection_segments: &Vec<IntersectionSegment<T, N>>,
         boundary_faces: &AHashSet<usize>,
+        visited: &[bool],
         include_on_surface: bool,
     ) -> Option<(usize, usize)> {
         for (seg_idx, seg) in intersection_segments.iter().enumerate() {
@@ -1137,7 +1151,7 @@ where
                     a.half_edges[a.half_edges[he].twin].face,
                 ] {
                     if let Some(f) = face_id {
-                        if boundary_faces.contains(&f) {
+                        if boundary_faces.contains(&f) && !visited[f] {
                             let centroid = a.face_centroid_fast(f);
                             match b.point_in_mesh_3(tree_b, &centroid) {
                                 PointInMeshResult::Inside => return Some((seg_idx, f)),
-- 
2.43.0


From f2abe47fb4a7db433fac84e9da51e8decd6e34f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:33:05 +0000
Subject: [PATCH 37/38] fix: put the bounding triangle far enough for flat hull
 sides

Nearly straight sides of the hull were cut off, which left holes in
faces split by booleans.
---
 src/operations/triangulation/delaunay.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index d93f3b9..0aaa0a2 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -137,7 +137,7 @@ where
             let delta = dx.max(dy);
             let cx = (&min[0] + &max[0]) * T::from_num_den(1, 2);
             let cy = (&min[1] + &max[1]) * T::from_num_den(1, 2);
-            let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
+            let r = &(&T::from_num_den(4096, 1) * &delta) + &T::from_num_den(1, 1);
 
             super_triangles.push(Some((cx, cy, r)));
         }
@@ -252,7 +252,7 @@ where
         let cx = &(&min[0] + &max[0]) * &T::from_num_den(1, 2);
         let cy = &(&min[1] + &max[1]) * &T::from_num_den(1, 2);
 
-        let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
+        let r = &(&T::from_num_den(4096, 1) * &delta) + &T::from_num_den(1, 1);
         let sqrt_3 = T::from(SQRT_3);
         let p_super0 = Point2::<T>::from_vals([
             T::from(cx.clone()),
-- 
2.43.0


From 289ce4577aaf01deed9c4f3bf26367a1b6809726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:33:05 +0000
Subject: [PATCH 38/38] fix: always replace the triangles that contain an
 inserted point

The circle test has a tolerance and could miss them, so the point was
left out or triangles overlapped.
---
 src/operations/triangulation/delaunay.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 0aaa0a2..8aea7e9 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -291,7 +291,9 @@ where
         // Find triangles whose circumcircle contains p
         let mut bad_triangles = Vec::new();
         for (i, &t) in triangles.iter().enumerate() {
-            if Self::point_in_circumcircle_fast(p, t, points) {
+            if Self::point_in_triangle(p, t, points)
+                || Self::point_in_circumcircle_fast(p, t, points)
+            {
                 bad_triangles.push(i);
             }
         }
@@ -336,6 +338,19 @@ where
         }
     }
 
+    /// Test if point is inside or on the border of a counter-clockwise triangle, but not a corner
+    fn point_in_triangle(p: &Point2<T>, t: Triangle, points: &[Point2<T>]) -> bool {
+        let mut zeros = 0;
+        for (u, v) in tri_edges(t) {
+            let o = orient2d(&points[u], &points[v], p);
+            if o.is_negative() {
+                return false;
+            }
+            zeros += o.is_zero() as usize;
+        }
+        zeros < 2
+    }
+
     /// Test if point is inside circumcircle of triangle
     fn point_in_circumcircle(p: &Point2<T>, t: Triangle, points: &[Point2<T>]) -> bool {
         let (a, b, c) = (t.0, t.1, t.2);
-- 
2.43.0

