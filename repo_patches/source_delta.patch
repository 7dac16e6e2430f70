From b82da087f35971886b5e32c8db2c5bc2e10806df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 01/55] fix: keep the homogeneous weights right when inserting
 a knot into a rational curve

---
 src/curve/nurbs_curve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0db13b7..3bd68f6 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1327,7 +1327,10 @@ where
                 &self.control_points[i0] - &self.control_points[i0 - 1]
             };
             let mut p = delta_control_point * (T::one() - a);
-            p[D::dim() - 1] = T::zero();
+            if i0 == 0 {
+                // there is no control point before the first one: keep its weight
+                p[D::dim() - 1] = T::zero();
+            }
             self.control_points[i0].coords -= p;
         }
 
-- 
2.43.0


From 0259ed90993ee8a9acd6d1bbaea7c12ed4c4679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 02/55] fix: remove the right knot, within the tolerance, in
 try_remove_knot

---
 src/curve/nurbs_curve.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 3bd68f6..a2c7bd4 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1371,8 +1371,8 @@ where
         let r = self
             .knots
             .iter()
-            .position(|k| *k == knot)
-            .ok_or(anyhow::anyhow!("Knot not found"))?; // index of the knot
+            .rposition(|k| *k == knot)
+            .ok_or(anyhow::anyhow!("Knot not found"))?; // index of the last occurrence of the knot
 
         let multiplicities = self.knots.multiplicity();
         let mult = multiplicities
@@ -1383,11 +1383,14 @@ where
         let p = self.degree();
         let ord = p + 1;
 
-        if r <= p {
+        if r < p + s {
             return Err(anyhow::anyhow!(
                 "Knot is too close to the start of the curve"
             ));
         }
+        if r > n {
+            return Err(anyhow::anyhow!("Knot is too close to the end of the curve"));
+        }
         let mut first = r - p;
 
         if r <= s {
@@ -1415,7 +1418,7 @@ where
             let mut ii = 1usize;
             let mut jj = idx_temp_right - 1;
 
-            while j >= i && (j - i) > t {
+            while j > i + t {
                 // compute new control points for one removal step
                 let alfi =
                     (knot - removed_knots[i]) / (removed_knots[i + ord + t] - removed_knots[i]);
@@ -1443,7 +1446,7 @@ where
             }
 
             // check if knot removable
-            let remove = if j >= i && (j - i) < t {
+            let remove = if j < i + t {
                 let left = &temp[ii - 1];
                 let right = &temp[jj + 1];
                 (left - right).norm() <= tolerance
@@ -1466,7 +1469,7 @@ where
 
             let mut i2 = first;
             let mut j2 = last;
-            while j2 >= i2 && (j2 - i2) > t {
+            while j2 > i2 + t {
                 removed_control_points[i2] = temp[i2 - off].clone();
                 removed_control_points[j2] = temp[j2 - off].clone();
 
-- 
2.43.0


From bbf6b596b29b1bc30cb8503508428d4bbe3fc577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 03/55] fix: degree elevation panicked or returned a malformed
 curve

---
 src/curve/nurbs_curve.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index a2c7bd4..48c1964 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1122,7 +1122,10 @@ where
             .to_usize()
             .unwrap();
 
-        let mut q_w = vec![OPoint::origin(); new_control_point_count];
+        // every knot span gains `degree_inc` control points
+        let span_count = n - new_degree + 1;
+        let mut q_w =
+            vec![OPoint::origin(); control_points.len() + degree_inc * span_count + degree_inc + 3];
         let mut u_h = vec![T::zero(); q_w.len() + target_degree + 1];
 
         bezalfs[0][0] = T::one();
@@ -1133,14 +1136,14 @@ where
         for i in 1..=ph2 {
             let inv = T::one() / binom.get(ph, i);
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = inv * binom.get(new_degree, j) * binom.get(degree_inc, i - j);
             }
         }
 
         for i in (ph2 + 1)..ph {
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = bezalfs[ph - i][new_degree - j];
             }
         }
@@ -1178,11 +1181,7 @@ where
                 1
             };
             let rbz = if r > 0 {
-                (T::from_usize(ph).unwrap()
-                    - T::from_isize(r + 1).unwrap() / T::from_f64(2.).unwrap())
-                .floor()
-                .to_usize()
-                .unwrap()
+                ph - (r as usize + 1) / 2
             } else {
                 ph
             };
@@ -1209,7 +1208,7 @@ where
             for i in lbz..=ph {
                 e_bpts[i] = OPoint::origin();
                 let mpi = new_degree.min(i);
-                for j in 0.max(i - degree_inc)..=mpi {
+                for j in i.saturating_sub(degree_inc)..=mpi {
                     e_bpts[i].coords = &e_bpts[i].coords + &bpts[j].coords * bezalfs[i][j];
                 }
             }
@@ -1233,9 +1232,9 @@ where
                             if (j as isize) - tr <= (kind as isize - ph as isize + oldr) {
                                 let gam = (ub - u_h[j - utr]) / den;
                                 e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - gam);
+                            } else {
+                                e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                             }
-                        } else {
-                            e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                         }
                         i += 1;
                         j -= 1;
@@ -1273,6 +1272,8 @@ where
                 }
             }
         }
+        q_w.truncate(cind);
+        u_h.truncate(kind + ph + 1);
 
         Ok(Self {
             degree: target_degree,
-- 
2.43.0


From db92f8f8275a25d0cf804686989809f57a0fe636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 04/55] fix: splitting at an existing knot produced curves and
 surfaces that evaluate to NaN at their end

---
 src/split/mod.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/split/mod.rs b/src/split/mod.rs
index 8fde919..1d8d102 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -3,6 +3,7 @@ use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, Dim
 
 use crate::{
     curve::NurbsCurve,
+    knot::KnotVector,
     misc::{transpose_control_points, FloatingPoint},
     surface::{NurbsSurface, UVDirection},
 };
@@ -16,6 +17,16 @@ where
     fn try_split(&self, option: Self::Option) -> anyhow::Result<(Self, Self)>;
 }
 
+/// The number of knots at `u` if it lies strictly inside the domain
+fn interior_multiplicity<T: FloatingPoint>(knots: &KnotVector<T>, degree: usize, u: T) -> usize {
+    let (start, end) = knots.domain(degree);
+    if start < u && u < end {
+        knots.iter().filter(|k| **k == u).count()
+    } else {
+        0
+    }
+}
+
 impl<T: FloatingPoint, D: DimName> Split for NurbsCurve<T, D>
 where
     DefaultAllocator: Allocator<D>,
@@ -42,12 +53,13 @@ where
     /// ```
     fn try_split(&self, u: T) -> anyhow::Result<(Self, Self)> {
         let u = self.knots().clamp(self.degree(), u);
-        let knots_to_insert = (0..=self.degree()).map(|_| u).collect_vec();
+        let multiplicity = interior_multiplicity(self.knots(), self.degree(), u);
+        let knots_to_insert = (multiplicity..=self.degree()).map(|_| u).collect_vec();
         let mut cloned = self.clone();
         cloned.try_refine_knot(knots_to_insert)?;
 
         let n = self.knots().len() - self.degree() - 2;
-        let s = self.knots().find_knot_span_index(n, self.degree(), u);
+        let s = self.knots().find_knot_span_index(n, self.degree(), u) - multiplicity;
         let knots0 = cloned.knots().as_slice()[0..=(s + self.degree() + 1)].to_vec();
         let knots1 = cloned.knots().as_slice()[s + 1..].to_vec();
         let cpts0 = cloned.control_points()[0..=s].to_vec();
@@ -98,10 +110,13 @@ where
             }
         };
 
-        let knots_to_insert = (0..=degree).map(|_| option.parameter).collect_vec();
+        let multiplicity = interior_multiplicity(knots, degree, option.parameter);
+        let knots_to_insert = (multiplicity..=degree)
+            .map(|_| option.parameter)
+            .collect_vec();
 
         let n = knots.len() - degree - 2;
-        let s = knots.find_knot_span_index(n, degree, option.parameter);
+        let s = knots.find_knot_span_index(n, degree, option.parameter) - multiplicity;
 
         let curves = points
             .iter()
-- 
2.43.0


From b25dede4155d1b80d13793d09ac42dd98ecc092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 05/55] fix: trimming a compound curve at a joint kept a
 neighbouring or an empty span

---
 src/trim/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/trim/mod.rs b/src/trim/mod.rs
index 797b2d0..c2e6872 100644
--- a/src/trim/mod.rs
+++ b/src/trim/mod.rs
@@ -55,9 +55,9 @@ where
                 let (d0, d1) = curve.knots_domain();
 
                 // use epsilon to avoid to trim at the terminal (start / end) of the curve
-                let curve_domain = (d0 + eps)..=(d1 - eps);
+                let is_inner = |t: T| d0 + eps < t && t < d1 - eps;
 
-                match (curve_domain.contains(&min), curve_domain.contains(&max)) {
+                match (is_inner(min), is_inner(max)) {
                     (true, true) => {
                         if inside {
                             curve.try_trim_range((min, max))
@@ -90,7 +90,9 @@ where
                         )
                     }
                     (false, false) => {
-                        let contains = range.contains(&d0);
+                        // the range covers the whole curve or only touches its terminals
+                        let mid = (d0 + d1) / T::from_f64(2.).unwrap();
+                        let contains = range.contains(&mid);
                         match (inside, contains) {
                             (true, true) => Ok(vec![curve.clone()]),
                             (true, false) => Ok(vec![]),
-- 
2.43.0


From 8688ee02e4a25f1d6cde530cf0ca1d80e41564b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 06/55] fix: arcs of an ellipse with different radii left the
 ellipse

---
 src/curve/nurbs_curve.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 48c1964..5e7871b 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -956,7 +956,10 @@ where
         let mut p0 = center
             + &x_axis * x_radius * start_angle.cos()
             + &y_axis * y_radius * start_angle.sin();
-        let mut t0 = &y_axis * start_angle.cos() - &x_axis * start_angle.sin();
+        let tangent = |angle: T| {
+            (&y_axis * y_radius * angle.cos() - &x_axis * x_radius * angle.sin()).normalize()
+        };
+        let mut t0 = tangent(start_angle);
 
         let n = 2 * arcs + 1;
         let degree = 2;
@@ -971,9 +974,9 @@ where
 
             let p2 = center + &x_axis * x_radius * angle.cos() + &y_axis * y_radius * angle.sin();
 
-            let t2 = &y_axis * angle.cos() - &x_axis * angle.sin();
-            let ray = Ray::new(p0.clone(), t0.normalize());
-            let other = Ray::new(p2.clone(), t2.normalize());
+            let t2 = tangent(angle);
+            let ray = Ray::new(p0.clone(), t0.clone());
+            let other = Ray::new(p2.clone(), t2.clone());
             let intersection = ray
                 .find_intersection(&other)
                 .ok_or(anyhow::anyhow!("No intersection"))?;
-- 
2.43.0


From 9b9b551d59585c1f4dd6cb6c07925a7b3a461c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 07/55] fix: is_closed was false for closed curves with large
 coordinates

---
 src/curve/nurbs_curve.rs     | 22 +++++++++++++++-------
 src/region/compound_curve.rs | 10 +++++++---
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 5e7871b..8c0b9d9 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1183,11 +1183,7 @@ where
             } else {
                 1
             };
-            let rbz = if r > 0 {
-                ph - (r as usize + 1) / 2
-            } else {
-                ph
-            };
+            let rbz = if r > 0 { ph - (r as usize + 1) / 2 } else { ph };
             if r > 0 {
                 let numer = ub - ua;
                 let mut alfs = vec![T::zero(); new_degree];
@@ -1568,10 +1564,10 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let eps = T::default_epsilon() * T::from_usize(10).unwrap();
+        let pts = self.dehomogenized_control_points();
+        let eps = coincidence_epsilon(pts.iter());
         match self.knots.is_clamped(self.degree) {
             true => {
-                let pts = self.dehomogenized_control_points();
                 let delta = &pts[0] - &pts[self.control_points.len() - 1];
                 delta.norm() < eps
             }
@@ -2017,6 +2013,18 @@ where
     }
 }
 
+/// The distance within which two points are the same up to rounding errors,
+/// which grow with the magnitude of the coordinates
+pub(crate) fn coincidence_epsilon<'a, T: FloatingPoint, D: DimName>(
+    points: impl Iterator<Item = &'a OPoint<T, D>>,
+) -> T
+where
+    DefaultAllocator: Allocator<D>,
+{
+    let eps = T::default_epsilon() * T::from_usize(10).unwrap();
+    points.fold(T::one(), |magnitude, p| magnitude.max(p.coords.amax())) * eps
+}
+
 pub fn try_interpolate_control_points<T: FloatingPoint>(
     points: &[DVector<T>],
     degree: usize,
diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 003e82b..f6abf18 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -7,7 +7,7 @@ use nalgebra::{
 };
 
 use crate::{
-    curve::NurbsCurve,
+    curve::{nurbs_curve::coincidence_epsilon, NurbsCurve},
     misc::{FloatingPoint, Invertible, Transformable},
 };
 
@@ -149,11 +149,15 @@ where
     {
         let start = self.spans.first().map(|s| s.point_at(s.knots_domain().0));
         let end = self.spans.last().map(|s| s.point_at(s.knots_domain().1));
-        let eps = T::default_epsilon() * T::from_usize(10).unwrap();
         match (start, end) {
             (Some(start), Some(end)) => {
+                let pts = self
+                    .spans
+                    .iter()
+                    .flat_map(|s| s.dehomogenized_control_points())
+                    .collect::<Vec<_>>();
                 let delta = start - end;
-                delta.norm() < eps
+                delta.norm() < coincidence_epsilon(pts.iter())
             }
             _ => false,
         }
-- 
2.43.0


From 0f38113264e039c2ad5315178c72b35fe3da9e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 08/55] fix: reversing a compound curve left its spans'
 parameters out of order

---
 src/region/compound_curve.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index f6abf18..516f034 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -74,16 +74,8 @@ where
             }
         }
 
-        // Align knot vectors
         // The first knot vector starts at 0, the rest are aligned to the previous knot vector
-        let mut knot_offset = T::zero();
-        connected.iter_mut().for_each(|curve| {
-            let start = curve.knots().first();
-            curve.knots_mut().iter_mut().for_each(|v| {
-                *v = *v - start + knot_offset;
-            });
-            knot_offset = curve.knots().last();
-        });
+        align_knots(&mut connected, T::zero());
 
         Self { spans: connected }
     }
@@ -236,6 +228,20 @@ where
     }
 }
 
+/// Align knot vectors: the first one starts at `knot_offset`, the others where the previous one ends
+fn align_knots<T: FloatingPoint, D: DimName>(spans: &mut [NurbsCurve<T, D>], mut knot_offset: T)
+where
+    DefaultAllocator: Allocator<D>,
+{
+    spans.iter_mut().for_each(|curve| {
+        let start = curve.knots().first();
+        curve.knots_mut().iter_mut().for_each(|v| {
+            *v = *v - start + knot_offset;
+        });
+        knot_offset = curve.knots().last();
+    });
+}
+
 impl<T: FloatingPoint, D: DimName> FromIterator<NurbsCurve<T, D>> for CompoundCurve<T, D>
 where
     DefaultAllocator: Allocator<D>,
@@ -273,8 +279,12 @@ where
     DefaultAllocator: Allocator<D>,
 {
     fn invert(&mut self) {
+        let start = self.spans.first().map(|span| span.knots().first());
         self.spans.iter_mut().for_each(|span| span.invert());
         self.spans.reverse();
+        if let Some(start) = start {
+            align_knots(&mut self.spans, start);
+        }
     }
 }
 
-- 
2.43.0


From 6214a2d175e447a7607f85f6f8302954d8095f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 09/55] fix: spans connected to the start of a compound curve
 were dropped

---
 src/region/compound_curve.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 516f034..21a2f3a 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -40,10 +40,18 @@ where
         let mut curves = spans.clone();
         let mut connected = vec![curves.remove(0)];
         while !curves.is_empty() {
-            let current = connected.len() - 1;
-            let last = &connected[current];
+            // a curve is connected to either the end or the start of the connected spans
+            let first = &connected[0];
+            let last = &connected[connected.len() - 1];
             let found = curves.iter().enumerate().find_map(|(i, c)| {
-                CurveDirection::new(last, c, epsilon).map(|direction| (i, direction))
+                let after = CurveDirection::new(last, c, epsilon)
+                    .filter(|d| matches!(d, CurveDirection::Forward | CurveDirection::Facing));
+                let before = || {
+                    CurveDirection::new(first, c, epsilon).filter(|d| {
+                        matches!(d, CurveDirection::Backward | CurveDirection::Opposite)
+                    })
+                };
+                after.or_else(before).map(|direction| (i, direction))
             });
             match found {
                 Some((index, direction)) => {
@@ -53,17 +61,13 @@ where
                             connected.push(next);
                         }
                         CurveDirection::Backward => {
-                            connected.insert(current, next);
+                            connected.insert(0, next);
                         }
                         CurveDirection::Facing => {
                             connected.push(next.inverse());
                         }
                         CurveDirection::Opposite => {
-                            if current == 0 {
-                                connected.insert(current, next.inverse());
-                            } else {
-                                println!("Cannot handle opposite direction");
-                            }
+                            connected.insert(0, next.inverse());
                         }
                     }
                 }
-- 
2.43.0


From b2172a3f3300784cae1b659f3178dd6e57826d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 10/55] fix: reversing a trimmed surface moved its trimmed
 region

---
 src/surface/trimmed_surface.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index 755dcde..8a07984 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -190,11 +190,20 @@ impl<'a, T: FloatingPoint> Transformable<&'a Matrix4<T>> for TrimmedSurface<T> {
 impl<T: FloatingPoint> Invertible for TrimmedSurface<T> {
     /// Reverse the direction of the surface
     fn invert(&mut self) {
+        // (u, v) of the surface becomes (su - u, sv - v)
+        let su = self.surface.u_knots().first() + self.surface.u_knots().last();
+        let sv = self.surface.v_knots().first() + self.surface.v_knots().last();
         self.surface.invert();
-        if let Some(curve) = self.exterior.as_mut() {
-            curve.invert();
-        }
-        self.interiors.iter_mut().for_each(|curve| curve.invert());
+        self.exterior
+            .iter_mut()
+            .chain(self.interiors.iter_mut())
+            .for_each(|curve| {
+                curve.control_points_iter_mut().for_each(|p| {
+                    p.x = su * p.z - p.x;
+                    p.y = sv * p.z - p.y;
+                });
+                curve.invert();
+            });
     }
 }
 
-- 
2.43.0


From 544270ebdb76f0d4a63745c30b8c040836dd0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 11/55] fix: length parameters and divisions of an unclamped
 curve left its domain, dividing by one failed

---
 src/curve/nurbs_curve.rs | 42 +++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 8c0b9d9..81489b6 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -450,23 +450,7 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let mult = self.knots.multiplicity();
-        let start = mult.first().unwrap().multiplicity();
-        let end = mult.last().unwrap().multiplicity();
-
-        let segments = self.try_decompose_bezier_segments()?;
-
-        // If the start/end parts of the knot vector are not duplicated,
-        // the Bezier segments will not be generated correctly,
-        // so reduce the number of segments by the amount that falls below the required duplication degree.
-        let required_multiplicity = self.degree + 1;
-        let i = required_multiplicity.saturating_sub(start);
-        let j = if end < required_multiplicity {
-            segments.len() - (required_multiplicity - end)
-        } else {
-            segments.len()
-        };
-        let segments = &segments[i..j];
+        let segments = self.try_decompose_domain_bezier_segments()?;
 
         let (_, u) = self.knots_domain();
         let gauss = GaussLegendre::new(16 + self.degree)?;
@@ -513,7 +497,7 @@ where
             return Ok(self.knots_domain().0);
         }
 
-        let segments = self.try_decompose_bezier_segments()?;
+        let segments = self.try_decompose_domain_bezier_segments()?;
         let gauss = GaussLegendre::new(16 + self.degree)?;
         let tolerance = tolerance.unwrap_or(T::from_f64(1e-4).unwrap());
 
@@ -571,21 +555,23 @@ where
     {
         anyhow::ensure!(length > T::zero(), "The length must be greater than zero");
 
-        let segments = self.try_decompose_bezier_segments()?;
+        let segments = self.try_decompose_domain_bezier_segments()?;
         let lengthes = segments
             .iter()
             .map(|s| s.try_length())
             .collect::<anyhow::Result<Vec<_>>>()?;
         let total = lengthes.iter().fold(T::zero(), |a, b| a + *b);
 
+        let eps = T::from_f64(1e-6).unwrap();
+
         anyhow::ensure!(
-            total > length,
+            total + eps > length,
             "The curve is too short to divide by the given length total:{}, given length:{}",
             total,
             length
         );
 
-        let mut samples = vec![CurveLengthParameter::new(self.knots.first(), T::zero())];
+        let mut samples = vec![CurveLengthParameter::new(self.knots_domain().0, T::zero())];
 
         let mut i = 0;
         let mut lc = length;
@@ -594,7 +580,6 @@ where
         let mut acc_prev = T::zero();
 
         let gauss = GaussLegendre::new(16 + self.degree)?;
-        let eps = T::from_f64(1e-6).unwrap();
         let tolerance = T::from_f64(1e-3 * 2.5).unwrap();
 
         while i < segments.len() {
@@ -1790,6 +1775,19 @@ where
         Ok(segments)
     }
 
+    /// Decompose the curve into the Bezier segments which lie in the domain of the curve
+    /// (an unclamped curve also has segments outside of its domain)
+    fn try_decompose_domain_bezier_segments(&self) -> anyhow::Result<Vec<Self>> {
+        let (start, end) = self.knots_domain();
+        let mut segments = self.try_decompose_bezier_segments()?;
+        segments.retain(|segment| {
+            let (k0, k1) = segment.knots_domain();
+            let middle = (k0 + k1) * T::from_f64(0.5).unwrap();
+            start < middle && middle < end
+        });
+        Ok(segments)
+    }
+
     /// Cast the curve to a curve with another floating point type
     pub fn cast<F: FloatingPoint + SupersetOf<T>>(&self) -> NurbsCurve<F, D>
     where
-- 
2.43.0


From d1affe4a60f90ab26ea57d9c24f5a0956ec7fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 12/55] fix: try_parameter_at_length did not end when the
 tolerance was below the rounding error

---
 src/curve/nurbs_curve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 81489b6..909959f 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1947,6 +1947,10 @@ where
     // binary search
     while (end.1 - start.1) > tolerance {
         let middle_parameter = (start.0 + end.0) * inv;
+        if middle_parameter <= start.0 || end.0 <= middle_parameter {
+            // the bracket can not be divided any further
+            break;
+        }
         let mid = (
             middle_parameter,
             compute_bezier_segment_length(s, middle_parameter, gauss),
-- 
2.43.0


From 5b81ba37136627be1864957d4364f88c27682b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 13/55] fix: the closest parameter of a closed curve could
 leave its domain

---
 src/closest_parameter/curve_closest_parameter_newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/closest_parameter/curve_closest_parameter_newton.rs b/src/closest_parameter/curve_closest_parameter_newton.rs
index 1b4b7de..cd03da7 100644
--- a/src/closest_parameter/curve_closest_parameter_newton.rs
+++ b/src/closest_parameter/curve_closest_parameter_newton.rs
@@ -70,7 +70,7 @@ where
         // Constrain the parameter to the domain
         let new_param = if new_param < self.knot_domain.0 {
             if self.closed {
-                self.knot_domain.1 - (new_param - self.knot_domain.0)
+                self.knot_domain.1 + (new_param - self.knot_domain.0)
             } else {
                 self.knot_domain.0
             }
-- 
2.43.0


From a1d60a2877822e77b49d0e8e9324fc18a717c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 14/55] fix: the closest point on a curve was often farther
 away than the initial guess

---
 src/curve/nurbs_curve.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 909959f..1ad42d7 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1672,6 +1672,14 @@ where
         let mut min = <T as RealField>::max_value().unwrap();
         let mut u = min_u;
 
+        // the closest one of the parameters where the curve has been evaluated
+        let mut closest = (min_u, <T as RealField>::max_value().unwrap());
+        let mut update_closest = |u: T, d: T| {
+            if d < closest.1 {
+                closest = (u, d);
+            }
+        };
+
         let closed = self.is_closed();
 
         for i in 0..pts.len() - 1 {
@@ -1681,6 +1689,9 @@ where
             let p0 = &pts[i].1;
             let p1 = &pts[i + 1].1;
 
+            update_closest(u0, (point - p0).norm());
+            update_closest(u1, (point - p1).norm());
+
             let (proj_u, proj_pt) = segment_closest_point(point, p0, p1, u0, u1);
             let d = (point - proj_pt).norm();
 
@@ -1694,16 +1705,18 @@ where
         let res = Executor::new(CurveClosestParameterProblem::new(point, self), solver)
             .configure(|state| state.param(u).max_iters(5))
             .run()?;
-        match res.state().get_best_param().cloned() {
-            Some(t) => {
-                if t.is_finite() {
-                    Ok(t)
-                } else {
-                    Err(anyhow::anyhow!("No best parameter found"))
-                }
-            }
-            _ => Err(anyhow::anyhow!("No best parameter found")),
+
+        // Newton's method may diverge, so that its result is not always closer than the initial guess
+        update_closest(u, (point - self.point_at(u)).norm());
+        if let Some(t) = res.state().get_best_param().filter(|t| t.is_finite()) {
+            update_closest(*t, (point - self.point_at(*t)).norm());
         }
+
+        anyhow::ensure!(
+            closest.1 < <T as RealField>::max_value().unwrap(),
+            "No best parameter found"
+        );
+        Ok(closest.0)
     }
 
     /// Try to clamp knots of the curve
-- 
2.43.0


From 5830e3f58cdb793a1ea668e73e21f1fd53b49c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 15/55] fix: an intersection at the end of an open compound
 curve was dropped

---
 src/intersects/curve_curve/intersection_compound_curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/intersects/curve_curve/intersection_compound_curve.rs b/src/intersects/curve_curve/intersection_compound_curve.rs
index 2a462b5..91dabf3 100644
--- a/src/intersects/curve_curve/intersection_compound_curve.rs
+++ b/src/intersects/curve_curve/intersection_compound_curve.rs
@@ -47,7 +47,9 @@ where
         let eps = T::from_f64(1e-2).unwrap();
 
         (0..res.len()).circular_tuple_windows().for_each(|(a, b)| {
-            if a != b {
+            // the last span of an open curve is not connected to the first one
+            let connected = a < b || self.is_closed();
+            if a != b && connected {
                 let ia = res[a].last();
                 let ib = res[b].first();
                 let cull = match (ia, ib) {
-- 
2.43.0


From b76e50864bd511676af0a43cc5174a1e4796d55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 16/55] fix: an intersection at the seam of a closed curve
 could be reported twice

---
 .../curve_curve/intersection_curve_curve.rs       | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index d40e762..4519362 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -171,7 +171,7 @@ where
 
         // group near parameter results & extract the closest one in each group
         let parameter_minimum_distance = T::from_f64(1e-3).unwrap();
-        let groups = sorted
+        let mut groups = sorted
             .into_iter()
             .map(|pt| vec![pt])
             .coalesce(|x, y| {
@@ -191,6 +191,19 @@ where
             .into_iter()
             .collect_vec();
 
+        // an intersection at the seam of a closed curve is found at both ends of its domain
+        if groups.len() > 1 && self.is_closed() {
+            let first = groups[0][0].a().1;
+            let last = groups[groups.len() - 1].last().map(|it| it.a().1);
+            if last.is_some_and(|last| {
+                (a_domain.1 - last) + (first - a_domain.0) < parameter_minimum_distance
+            }) {
+                if let Some(group) = groups.pop() {
+                    groups[0].extend(group);
+                }
+            }
+        }
+
         /*
         println!("groups: {:?}", groups.len());
         groups.iter().for_each(|group| {
-- 
2.43.0


From 3b65994e51f6460b1346345d6601a860d9f5d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 17/55] fix: intersections of axis-parallel curves were missed
 because of rounding in the bounding box traversal

---
 src/bounding_box/bounding_box_traversal.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bounding_box/bounding_box_traversal.rs b/src/bounding_box/bounding_box_traversal.rs
index 8fc7829..7b31fea 100644
--- a/src/bounding_box/bounding_box_traversal.rs
+++ b/src/bounding_box/bounding_box_traversal.rs
@@ -29,8 +29,12 @@ where
         let mut trees = vec![(ta, tb)];
         let mut pairs = vec![];
 
-        let tol = Some(T::zero());
-        // let tol = T::from_f64(-1e-4);
+        // Boxes of curves & surfaces which touch each other may be apart by the rounding errors of their divisions
+        let (ba, bb) = (trees[0].0.bounding_box(), trees[0].1.bounding_box());
+        let size = [ba.min(), ba.max(), bb.min(), bb.max()]
+            .into_iter()
+            .fold(T::zero(), |m, v| m.max(v.amax()));
+        let tol = Some(size * T::default_epsilon() * T::from_f64(8.).unwrap());
 
         while let Some((a, b)) = trees.pop() {
             if !a.bounding_box().intersects(&b.bounding_box(), tol) {
-- 
2.43.0


From 6fb02e5f02f24e4c67f946177069e3f18f305df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 18/55] fix: curve intersections at the ends of a curve were
 missed

---
 .../curve_curve/intersection_curve_curve.rs    | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index 4519362..2542d4c 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -95,7 +95,6 @@ where
         let traversed = BoundingBoxTraversal::try_traverse(ta, tb)?;
 
         let a_domain = self.knots_domain();
-        let b_domain = other.knots_domain();
 
         let intersections = traversed
             .into_pairs_iter()
@@ -135,16 +134,13 @@ where
                 match res {
                     Ok(r) => {
                         // println!("{}", r.state().get_termination_status());
-                        r.state().get_best_param().and_then(|param| {
-                            if (a_domain.0..=a_domain.1).contains(&param[0])
-                                && (b_domain.0..=b_domain.1).contains(&param[1])
-                            {
-                                let p0 = self.point_at(param[0]);
-                                let p1 = other.point_at(param[1]);
-                                Some(CurveCurveIntersection::new((p0, param[0]), (p1, param[1])))
-                            } else {
-                                None
-                            }
+                        r.state().get_best_param().map(|param| {
+                            // the solution for an intersection at the end of a curve may lie slightly out of its domain
+                            let ua = self.knots().clamp(self.degree(), param[0]);
+                            let ub = other.knots().clamp(other.degree(), param[1]);
+                            let p0 = self.point_at(ua);
+                            let p1 = other.point_at(ub);
+                            CurveCurveIntersection::new((p0, ua), (p1, ub))
                         })
                     }
                     Err(_e) => {
-- 
2.43.0


From 6445915c8178c05e384b274a6f02beb50d861e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 19/55] fix: the default cost tolerance stopped the
 intersection solver before the default minimum distance

---
 src/intersects/curve_curve/curve_intersection_solver_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intersects/curve_curve/curve_intersection_solver_options.rs b/src/intersects/curve_curve/curve_intersection_solver_options.rs
index 2c3649d..6cbb926 100644
--- a/src/intersects/curve_curve/curve_intersection_solver_options.rs
+++ b/src/intersects/curve_curve/curve_intersection_solver_options.rs
@@ -23,7 +23,7 @@ impl<T: FloatingPoint> Default for CurveIntersectionSolverOptions<T> {
             minimum_distance: T::from_f64(1e-5).unwrap(),
             knot_domain_division: 64,
             step_size_tolerance: T::from_f64(1e-8).unwrap(),
-            cost_tolerance: T::from_f64(1e-10).unwrap(),
+            cost_tolerance: T::from_f64(1e-12).unwrap(),
             max_iters: 200,
         }
     }
-- 
2.43.0


From 9f358fa6fb1c2cd2f7a08cb46962f0e27988edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 20/55] fix: point containment was wrong for points level with
 a vertex or near the boundary

---
 src/contains/contains_compound_curve.rs |  22 +++-
 src/contains/contains_curve.rs          | 156 +++++++++++++-----------
 2 files changed, 101 insertions(+), 77 deletions(-)

diff --git a/src/contains/contains_compound_curve.rs b/src/contains/contains_compound_curve.rs
index 1b43f01..b690bac 100644
--- a/src/contains/contains_compound_curve.rs
+++ b/src/contains/contains_compound_curve.rs
@@ -2,7 +2,7 @@ use argmin::core::ArgminFloat;
 use nalgebra::{Const, Point2};
 
 use crate::{
-    contains::contains_curve::x_ray_intersection,
+    contains::contains_curve::x_ray_intersection_between,
     misc::FloatingPoint,
     prelude::{BoundingBox, CurveIntersectionSolverOptions},
     region::CompoundCurve,
@@ -56,10 +56,24 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for CompoundCurve<T,
 
         let size = bb.size();
         let sx = size.x * T::from_f64(2.).unwrap();
-        let intersections: anyhow::Result<Vec<_>> = self
-            .spans()
+        let spans = self.spans();
+        let closed = self.is_closed();
+        let starts: Vec<_> = spans
             .iter()
-            .map(|span| x_ray_intersection(span, point, sx, option.clone()))
+            .map(|span| span.point_at(span.knots_domain().0))
+            .collect();
+        let intersections: anyhow::Result<Vec<_>> = spans
+            .iter()
+            .enumerate()
+            .map(|(i, span)| {
+                // share the point at the joint with the next span
+                let end = match starts.get(i + 1) {
+                    Some(next) => *next,
+                    None if closed => starts[0],
+                    None => span.point_at(span.knots_domain().1),
+                };
+                x_ray_intersection_between(span, (starts[i], end), point, sx, option.clone())
+            })
             .collect();
 
         let count = intersections?.iter().map(|its| its.len()).sum::<usize>();
diff --git a/src/contains/contains_curve.rs b/src/contains/contains_curve.rs
index fcdfc0f..e7de31a 100644
--- a/src/contains/contains_curve.rs
+++ b/src/contains/contains_curve.rs
@@ -2,15 +2,14 @@ use std::cmp::Ordering;
 
 use argmin::core::ArgminFloat;
 use itertools::Itertools;
-use nalgebra::{Const, Point2, Vector2, U3};
+use nalgebra::{Const, Point2, U3};
 use num_traits::Float;
 
 use crate::{
     curve::NurbsCurve,
     misc::FloatingPoint,
-    prelude::{
-        BoundingBox, BoundingBoxTraversal, CurveBoundingBoxTree, CurveIntersectionSolverOptions,
-    },
+    prelude::{BoundingBox, CurveIntersectionSolverOptions},
+    split::Split,
 };
 
 use super::Contains;
@@ -67,82 +66,93 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
     point: &Point2<T>,
     ray_length: T,
     option: Option<CurveIntersectionSolverOptions<T>>,
+) -> anyhow::Result<Vec<Point2<T>>> {
+    let (start, end) = curve.knots_domain();
+    let p_start = curve.point_at(start);
+    let p_end = if curve.is_closed() {
+        p_start
+    } else {
+        curve.point_at(end)
+    };
+    x_ray_intersection_between(curve, (p_start, p_end), point, ray_length, option)
+}
+
+/// Find the intersections between the ray and the curve whose end points are given by `ends`.
+/// Connected curves should have the same point at their joint so that a ray passing through the joint is counted consistently.
+pub(crate) fn x_ray_intersection_between<T: FloatingPoint + ArgminFloat>(
+    curve: &NurbsCurve<T, U3>,
+    ends: (Point2<T>, Point2<T>),
+    point: &Point2<T>,
+    ray_length: T,
+    option: Option<CurveIntersectionSolverOptions<T>>,
 ) -> anyhow::Result<Vec<Point2<T>>> {
     let option = option.unwrap_or_default();
-    let ray = NurbsCurve::polyline(&[*point, point + Vector2::x() * ray_length], true);
-    let ta = CurveBoundingBoxTree::new(
-        curve,
-        Some(curve.knots_domain_interval() / T::from_usize(option.knot_domain_division).unwrap()),
-    );
-    let tb = CurveBoundingBoxTree::new(
-        &ray,
-        Some(ray.knots_domain_interval() / T::from_usize(1).unwrap()),
-    );
-    let traversed = BoundingBoxTraversal::try_traverse(ta, tb)?;
-
-    let mut intersections = traversed
-        .pairs()
-        .iter()
-        .filter_map(|(item, _)| {
-            let curve = item.curve();
-            let (start, end) = curve.knots_domain();
-            let p_start = curve.point_at(start);
-            let p_end = curve.point_at(end);
-
-            if p_start.x < point.x && p_end.x < point.x {
-                return None;
+    let two = T::from_f64(2.).unwrap();
+    let minimum_interval = curve.knots_domain_interval() * T::from_f64(1e-12).unwrap();
+
+    let mut intersections = vec![];
+    let mut pieces = vec![(curve.clone(), ends)];
+    while let Some((piece, (p_start, p_end))) = pieces.pop() {
+        let bb: BoundingBox<T, Const<2>> = (&piece).into();
+        let (bmin, bmax) = (bb.min(), bb.max());
+        let tol = (bmin.amax() + bmax.amax()) * T::default_epsilon() * T::from_f64(8.).unwrap();
+        if bmax.x + tol < point.x
+            || point.x + ray_length < bmin.x - tol
+            || bmax.y + tol < point.y
+            || point.y < bmin.y - tol
+        {
+            continue;
+        }
+
+        let (start, end) = piece.knots_domain();
+        let divisible =
+            end - start > minimum_interval && bb.size().amax() > option.minimum_distance;
+        if bmin.x <= point.x && divisible {
+            // divide the curve until it is on either side of the origin of the ray
+            let (head, tail) = piece.try_split((start + end) / two)?;
+            let p_mid = head.point_at(head.knots_domain().1);
+            pieces.push((tail, (p_mid, p_end)));
+            pieces.push((head, (p_start, p_mid)));
+            continue;
+        }
+
+        // the curve crosses the ray an odd number of times only if its ends are on both sides of the ray
+        let y_forward = match (point.y < p_start.y, point.y < p_end.y) {
+            (true, true) | (false, false) => {
+                continue;
+            }
+            (false, true) => true,
+            (true, false) => false,
+        };
+
+        // binary search for the intersection
+        let mut min = start;
+        let mut max = end;
+        let mut t = (min + max) / two;
+        let mut p = piece.point_at(t);
+        for _i in 0..option.max_iters {
+            let dy = p.y - point.y;
+            if Float::abs(dy) < option.minimum_distance {
+                break;
             }
 
-            let y_forward = match (point.y < p_start.y, point.y < p_end.y) {
-                (true, true) | (false, false) => {
-                    return None;
-                }
-                (false, true) => true,
-                (true, false) => false,
-            };
-
-            // binary search for the intersection
-            let mut min = start;
-            let mut max = end;
-            for _i in 0..option.max_iters {
-                let t = (min + max) / T::from_f64(2.).unwrap();
-                let p = curve.point_at(t);
-                let dy = p.y - point.y;
-
-                if Float::abs(dy) < option.minimum_distance {
-                    return Some((p, t));
-                }
-
-                let over = dy > T::zero();
-                let over = if y_forward { over } else { !over };
-                if over {
-                    max = t;
-                } else {
-                    min = t;
-                }
+            let over = dy > T::zero();
+            let over = if y_forward { over } else { !over };
+            if over {
+                max = t;
+            } else {
+                min = t;
             }
+            t = (min + max) / two;
+            p = piece.point_at(t);
+        }
 
-            None
-        })
-        .filter(|(p, _)| point.x <= p.x)
-        .collect_vec();
+        if point.x <= p.x {
+            intersections.push((p, t));
+        }
+    }
 
     intersections.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(Ordering::Equal));
 
-    let eps = option.minimum_distance;
-    let filtered = intersections
-        .into_iter()
-        .coalesce(|x, y| {
-            // merge intersections that are close
-            let dt = x.0 - y.0;
-            if dt.norm() < eps {
-                Ok(x)
-            } else {
-                Err((x, y))
-            }
-        })
-        .map(|p| p.0)
-        .collect_vec();
-
-    Ok(filtered)
+    Ok(intersections.into_iter().map(|p| p.0).collect_vec())
 }
-- 
2.43.0


From 5c5f273570b8717122d0629dbb8bedc87e10cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 21/55] fix: the closest point on a curve skipped short knot
 spans and segments of polylines

---
 src/curve/nurbs_curve.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 1ad42d7..aee8e44 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1666,8 +1666,29 @@ where
         T: ArgminFloat,
     {
         let (min_u, max_u) = self.knots_domain();
-        let samples = self.control_points.len() * self.degree;
-        let pts = self.sample_regular_range_with_parameter(min_u, max_u, samples);
+
+        // sample each span of the knots so that no span is skipped
+        let samples = match self.degree {
+            1 => 1,
+            d => d * 2,
+        };
+        let mut pts = vec![(min_u, self.point_at(min_u))];
+        for w in self.knots.to_vec().windows(2) {
+            let (start, end) = (w[0], w[1]);
+            if start < min_u || end > max_u || start >= end {
+                continue;
+            }
+            for i in 1..=samples {
+                let u = if i == samples {
+                    end
+                } else {
+                    start
+                        + (end - start) * T::from_usize(i).unwrap()
+                            / T::from_usize(samples).unwrap()
+                };
+                pts.push((u, self.point_at(u)));
+            }
+        }
 
         let mut min = <T as RealField>::max_value().unwrap();
         let mut u = min_u;
-- 
2.43.0


From ab4224a16fcb4203943b4fafc86fee490d29eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 22/55] fix: an intersection at a joint of the other compound
 curve was reported twice

---
 .../intersection_compound_curve.rs            | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/intersects/curve_curve/intersection_compound_curve.rs b/src/intersects/curve_curve/intersection_compound_curve.rs
index 91dabf3..747e4fb 100644
--- a/src/intersects/curve_curve/intersection_compound_curve.rs
+++ b/src/intersects/curve_curve/intersection_compound_curve.rs
@@ -94,7 +94,34 @@ where
             .map(|span| self.find_intersections(span, options.clone()))
             .collect();
 
-        Ok(res?.into_iter().flatten().collect())
+        let mut res = res?;
+        let eps = T::from_f64(1e-2).unwrap();
+        let interval = match (self.spans().first(), self.spans().last()) {
+            (Some(first), Some(last)) => last.knots_domain().1 - first.knots_domain().0,
+            _ => T::zero(),
+        };
+        let closed = self.is_closed();
+
+        // an intersection at the joint of two spans of the other curve is found on both of them
+        (0..res.len()).circular_tuple_windows().for_each(|(a, b)| {
+            // the last span of an open curve is not connected to the first one
+            let connected = a < b || other.is_closed();
+            if a != b && connected {
+                let mut at_end = std::mem::take(&mut res[a]);
+                at_end.retain(|ia| {
+                    let is_end = Float::abs(ia.b().0.knots_domain().1 - ia.b().2) < eps;
+                    !is_end
+                        || !res[b].iter().any(|ib| {
+                            let is_start = Float::abs(ib.b().0.knots_domain().0 - ib.b().2) < eps;
+                            let d = Float::abs(ia.a().2 - ib.a().2);
+                            is_start && (d < eps || (closed && interval - d < eps))
+                        })
+                });
+                res[a] = at_end;
+            }
+        });
+
+        Ok(res.into_iter().flatten().collect())
     }
 }
 
-- 
2.43.0


From a80a32f3932be4a58c5642d038be2d9cab3e0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 23/55] fix: the gaps enclosed by a union of curves were
 returned as regions

---
 src/boolean/clip.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/boolean/clip.rs b/src/boolean/clip.rs
index fb04904..4778f0c 100644
--- a/src/boolean/clip.rs
+++ b/src/boolean/clip.rs
@@ -1,5 +1,6 @@
 use std::{cell::RefCell, cmp::Ordering, rc::Rc};
 
+use argmin::core::ArgminFloat;
 use itertools::Itertools;
 use nalgebra::{Point2, U2, U3};
 
@@ -10,7 +11,10 @@ use crate::{
     },
     curve::NurbsCurve2D,
     misc::{EndPoints, FloatingPoint},
-    prelude::{CompoundCurveIntersection, Contains, HasIntersection, HasIntersectionParameter},
+    prelude::{
+        CompoundCurveIntersection, Contains, CurveIntersectionSolverOptions, HasIntersection,
+        HasIntersectionParameter,
+    },
     region::{CompoundCurve, Region},
     trim::TrimRange,
 };
@@ -85,21 +89,22 @@ impl<T: FloatingPoint> Clip<T> {
 
 /// Boolean operation for two curves.
 /// Base algorithm reference: Efficient clipping of arbitrary polygons (https://www.inf.usi.ch/hormann/papers/Greiner.1998.ECO.pdf)
-pub fn clip<'a, T: FloatingPoint, S, C, O: Clone>(
+#[allow(clippy::type_complexity)]
+pub fn clip<'a, T: FloatingPoint + ArgminFloat, S, C>(
     subject: &'a S,
     clip: &'a C,
     operation: BooleanOperation,
-    option: O,
+    option: Option<CurveIntersectionSolverOptions<T>>,
     intersections: Vec<CompoundCurveIntersection<'a, T, U3>>,
 ) -> anyhow::Result<Clip<T>>
 where
     S: Clone
-        + Contains<T, U2, Option = O>
+        + Contains<T, U2, Option = Option<CurveIntersectionSolverOptions<T>>>
         + EndPoints<T, U2>
         + Into<CompoundCurve<T, U3>>
         + TrimRange<T, U3>,
     C: Clone
-        + Contains<T, U2, Option = O>
+        + Contains<T, U2, Option = Option<CurveIntersectionSolverOptions<T>>>
         + EndPoints<T, U2>
         + Into<CompoundCurve<T, U3>>
         + TrimRange<T, U3>,
@@ -395,5 +400,20 @@ where
         }
     }
 
+    // The union of overlapping curves is connected:
+    // one of its outlines is the exterior, the others are the gaps enclosed by the two curves.
+    if operation == BooleanOperation::Union && regions.len() > 1 {
+        let mut exterior = 0;
+        for i in 1..regions.len() {
+            let pt = regions[exterior].exterior().first_point();
+            if regions[i].exterior().contains(&pt, option.clone())? {
+                exterior = i;
+            }
+        }
+        let exterior = regions.swap_remove(exterior).into_exterior();
+        let gaps = regions.into_iter().map(|r| r.into_exterior()).collect();
+        regions = vec![Region::new(exterior, gaps)];
+    }
+
     Ok(Clip::new(regions, info))
 }
-- 
2.43.0


From 842d52f2661e66fa94bde1cb5304d49d83d63129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 24/55] fix: containment in a compound curve ignored the small
 gaps between its spans

---
 src/contains/contains_compound_curve.rs | 7 +------
 src/contains/contains_curve.rs          | 4 +++-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/contains/contains_compound_curve.rs b/src/contains/contains_compound_curve.rs
index b690bac..d55b8de 100644
--- a/src/contains/contains_compound_curve.rs
+++ b/src/contains/contains_compound_curve.rs
@@ -57,7 +57,6 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for CompoundCurve<T,
         let size = bb.size();
         let sx = size.x * T::from_f64(2.).unwrap();
         let spans = self.spans();
-        let closed = self.is_closed();
         let starts: Vec<_> = spans
             .iter()
             .map(|span| span.point_at(span.knots_domain().0))
@@ -67,11 +66,7 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for CompoundCurve<T,
             .enumerate()
             .map(|(i, span)| {
                 // share the point at the joint with the next span
-                let end = match starts.get(i + 1) {
-                    Some(next) => *next,
-                    None if closed => starts[0],
-                    None => span.point_at(span.knots_domain().1),
-                };
+                let end = starts[(i + 1) % starts.len()];
                 x_ray_intersection_between(span, (starts[i], end), point, sx, option.clone())
             })
             .collect();
diff --git a/src/contains/contains_curve.rs b/src/contains/contains_curve.rs
index e7de31a..678af0a 100644
--- a/src/contains/contains_curve.rs
+++ b/src/contains/contains_curve.rs
@@ -94,7 +94,9 @@ pub(crate) fn x_ray_intersection_between<T: FloatingPoint + ArgminFloat>(
     let mut pieces = vec![(curve.clone(), ends)];
     while let Some((piece, (p_start, p_end))) = pieces.pop() {
         let bb: BoundingBox<T, Const<2>> = (&piece).into();
-        let (bmin, bmax) = (bb.min(), bb.max());
+        // the shared ends may lie slightly off the curve
+        let bmin = bb.min().inf(&p_start.coords).inf(&p_end.coords);
+        let bmax = bb.max().sup(&p_start.coords).sup(&p_end.coords);
         let tol = (bmin.amax() + bmax.amax()) * T::default_epsilon() * T::from_f64(8.).unwrap();
         if bmax.x + tol < point.x
             || point.x + ray_length < bmin.x - tol
-- 
2.43.0


From 46db15848ca9008455980042764523614212f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 25/55] fix: boolean operations on regions lost regions,
 interiors and islands

---
 src/boolean/boolean_region.rs | 290 ++++++++++++++++++----------------
 1 file changed, 158 insertions(+), 132 deletions(-)

diff --git a/src/boolean/boolean_region.rs b/src/boolean/boolean_region.rs
index 89b24cb..df6c4cb 100644
--- a/src/boolean/boolean_region.rs
+++ b/src/boolean/boolean_region.rs
@@ -1,5 +1,4 @@
 use argmin::core::ArgminFloat;
-use itertools::Itertools;
 use nalgebra::Const;
 use nalgebra::U3;
 
@@ -40,109 +39,8 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
         other: &'a CompoundCurve<T, Const<3>>,
         option: Self::Option,
     ) -> Self::Output {
-        match operation {
-            BooleanOperation::Union => {
-                let exterior =
-                    self.exterior()
-                        .boolean(BooleanOperation::Union, other, option.clone())?;
-
-                let exterior = exterior
-                    .into_regions()
-                    .into_iter()
-                    .next()
-                    .map(|region| region.into_exterior())
-                    .ok_or(anyhow::anyhow!("No exterior region found"))?;
-
-                let interior_differences = self
-                    .interiors()
-                    .iter()
-                    .map(|interior| {
-                        interior.boolean(BooleanOperation::Difference, other, option.clone())
-                    })
-                    .collect::<anyhow::Result<Vec<_>>>()?;
-
-                let interiors = interior_differences
-                    .into_iter()
-                    .flat_map(|c| {
-                        c.into_regions()
-                            .into_iter()
-                            .map(|region| region.into_exterior())
-                    })
-                    .collect();
-
-                Ok(Clip::new(
-                    vec![Region::new(exterior, interiors)],
-                    Default::default(),
-                ))
-            }
-            BooleanOperation::Intersection => {
-                // difference other and interiors
-                let mut clip_regions: Vec<Region<T>> = vec![other.clone().into()];
-                for it in self.interiors().iter() {
-                    let mut next_clips = vec![];
-                    for clip in clip_regions.iter() {
-                        let c = clip.boolean(BooleanOperation::Difference, it, option.clone())?;
-                        let mut regions = c.into_regions();
-                        let mut interiors = clip.interiors().iter().cloned().collect_vec();
-                        distribute_interiors_to_regions(
-                            &mut regions,
-                            &mut interiors,
-                            option.clone(),
-                        )?;
-                        next_clips.extend(regions);
-                    }
-                    clip_regions = next_clips;
-                }
-
-                let regions = clip_regions
-                    .into_iter()
-                    .map(|clip_region| {
-                        let (ex, mut its) = clip_region.into_tuple();
-                        self.exterior()
-                            .boolean(BooleanOperation::Intersection, &ex, option.clone())
-                            .and_then(|clip| {
-                                let mut regions = clip.into_regions();
-                                distribute_interiors_to_regions(
-                                    &mut regions,
-                                    &mut its,
-                                    option.clone(),
-                                )?;
-                                Ok(regions)
-                            })
-                    })
-                    .collect::<anyhow::Result<Vec<_>>>()?
-                    .into_iter()
-                    .flatten()
-                    .collect();
-
-                Ok(Clip::new(regions, Default::default()))
-            }
-            BooleanOperation::Difference => {
-                // union other and interiors
-                let mut current_clip: CompoundCurve<T, U3> = other.clone();
-                let mut interiors = vec![];
-
-                for interior in self.interiors() {
-                    let union =
-                        current_clip.boolean(BooleanOperation::Union, interior, option.clone())?;
-                    let mut regions_iter = union.into_regions().into_iter();
-                    let head = regions_iter.next();
-                    if let Some(head) = head {
-                        current_clip = head.into_exterior();
-                    }
-                    regions_iter.for_each(|region| interiors.push(region.into_exterior()));
-                }
-
-                let clip = self.exterior().boolean(
-                    BooleanOperation::Difference,
-                    &current_clip,
-                    option.clone(),
-                )?;
-                let mut regions = clip.into_regions();
-                distribute_interiors_to_regions(&mut regions, &mut interiors, option.clone())?;
-                Ok(Clip::new(regions, Default::default()))
-            }
-        }
+        let region: Region<T> = other.clone().into();
+        self.boolean(operation, &region, option)
     }
 }
 
@@ -157,47 +55,175 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a Region<T>> for Region<T> {
         other: &'a Region<T>,
         option: Self::Option,
     ) -> Self::Output {
-        let clip = self.boolean(operation, other.exterior(), option.clone())?;
-        let mut regions = clip.into_regions();
-
-        for interior in other.interiors().iter() {
-            match operation {
-                BooleanOperation::Union | BooleanOperation::Intersection => {
-                    let clips = regions
-                        .iter()
-                        .map(|r| r.boolean(BooleanOperation::Difference, interior, option.clone()))
-                        .collect::<anyhow::Result<Vec<_>>>()?;
-                    regions = clips.into_iter().flat_map(|c| c.into_regions()).collect();
+        let regions = match operation {
+            BooleanOperation::Union => union(self, other, &option)?,
+            BooleanOperation::Intersection => intersection(self, other, &option)?,
+            BooleanOperation::Difference => {
+                // self - other = (self - exterior of other) + (self & interiors of other)
+                let mut regions = subtract(self.clone(), other.exterior(), &option)?;
+                for interior in other.interiors() {
+                    let interior: Region<T> = interior.clone().into();
+                    regions.extend(intersection(self, &interior, &option)?);
                 }
-                BooleanOperation::Difference => {}
-            };
+                regions
+            }
+        };
+        Ok(Clip::new(regions, Default::default()))
+    }
+}
+
+type Options<T> = Option<CurveIntersectionSolverOptions<T>>;
+type Outline<T> = CompoundCurve<T, U3>;
+
+fn outlines<T: FloatingPoint + ArgminFloat>(
+    a: &Outline<T>,
+    operation: BooleanOperation,
+    b: &Outline<T>,
+    option: &Options<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    Ok(a.boolean(operation, b, option.clone())?.into_regions())
+}
+
+/// The regions inside both regions
+fn intersection<T: FloatingPoint + ArgminFloat>(
+    a: &Region<T>,
+    b: &Region<T>,
+    option: &Options<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let mut regions = outlines(
+        a.exterior(),
+        BooleanOperation::Intersection,
+        b.exterior(),
+        option,
+    )?;
+    for interior in a.interiors().iter().chain(b.interiors()) {
+        regions = subtract_all(regions, interior, option)?;
+    }
+    Ok(regions)
+}
+
+fn subtract_all<T: FloatingPoint + ArgminFloat>(
+    regions: Vec<Region<T>>,
+    outline: &Outline<T>,
+    option: &Options<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let mut out = vec![];
+    for region in regions {
+        out.extend(subtract(region, outline, option)?);
+    }
+    Ok(out)
+}
+
+/// Cut an outline out of a region
+fn subtract<T: FloatingPoint + ArgminFloat>(
+    region: Region<T>,
+    outline: &Outline<T>,
+    option: &Options<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let (exterior, interiors) = region.into_tuple();
+
+    // merge the interiors overlapping the outline into it;
+    // the gaps they enclose remain as islands
+    let mut cut = outline.clone();
+    let mut islands: Vec<Region<T>> = vec![];
+    let mut apart = vec![];
+    for interior in interiors {
+        if outlines(outline, BooleanOperation::Union, &interior, option)?.len() > 1 {
+            apart.push(interior);
+            continue;
+        }
+        islands = subtract_all(islands, &interior, option)?;
+        let merged = outlines(&cut, BooleanOperation::Union, &interior, option)?;
+        for region in merged {
+            let (exterior, gaps) = region.into_tuple();
+            cut = exterior;
+            islands.extend(gaps.into_iter().map(|gap| gap.into()));
         }
+    }
 
-        Ok(Clip::new(regions, Default::default()))
+    let mut regions = outlines(&exterior, BooleanOperation::Difference, &cut, option)?;
+    for island in islands {
+        regions.extend(outlines(
+            &exterior,
+            BooleanOperation::Intersection,
+            island.exterior(),
+            option,
+        )?);
     }
+    distribute_interiors_to_regions(&mut regions, apart, option)?;
+    Ok(regions)
+}
+
+/// The regions inside any of the two regions
+fn union<T: FloatingPoint + ArgminFloat>(
+    a: &Region<T>,
+    b: &Region<T>,
+    option: &Options<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let mut regions = vec![];
+    let mut interiors = vec![];
+
+    for region in outlines(a.exterior(), BooleanOperation::Union, b.exterior(), option)? {
+        let (exterior, gaps) = region.into_tuple();
+        regions.push(exterior.into());
+        interiors.extend(gaps);
+    }
+
+    // the rest of the interiors that the other region does not cover;
+    // a region inside of an interior is an island
+    let mut rest = vec![];
+    for (region, other) in [(a, b), (b, a)] {
+        for interior in region.interiors() {
+            rest.extend(outlines(
+                interior,
+                BooleanOperation::Difference,
+                other.exterior(),
+                option,
+            )?);
+        }
+    }
+    for ia in a.interiors() {
+        for ib in b.interiors() {
+            rest.extend(outlines(ia, BooleanOperation::Intersection, ib, option)?);
+        }
+    }
+    for region in rest {
+        let (exterior, islands) = region.into_tuple();
+        interiors.push(exterior);
+        regions.extend(islands.into_iter().map(|island| island.into()));
+    }
+
+    distribute_interiors_to_regions(&mut regions, interiors, option)?;
+    Ok(regions)
 }
 
 /// distribute the interiors into the regions that contain them
 fn distribute_interiors_to_regions<T: FloatingPoint + ArgminFloat>(
     regions: &mut [Region<T>],
-    interiors: &mut Vec<CompoundCurve<T, U3>>,
-    option: Option<CurveIntersectionSolverOptions<T>>,
+    interiors: Vec<Outline<T>>,
+    option: &Options<T>,
 ) -> anyhow::Result<()> {
-    for region in regions.iter_mut() {
-        let n = interiors.len();
-        for i in (0..n).rev() {
-            let pt = interiors[i].first_point();
-            match region.exterior().contains(&pt, option.clone()) {
-                Ok(true) => {
-                    let it = interiors.remove(i);
-                    region.interiors_mut().push(it);
-                }
-                Ok(false) => {}
-                Err(e) => {
-                    return Err(e);
+    for interior in interiors {
+        let pt = interior.first_point();
+        let mut innermost: Option<usize> = None;
+        for (i, region) in regions.iter().enumerate() {
+            if !region.exterior().contains(&pt, option.clone())? {
+                continue;
+            }
+            let inner = match innermost {
+                Some(j) => {
+                    let first = region.exterior().first_point();
+                    regions[j].exterior().contains(&first, option.clone())?
                 }
+                None => true,
+            };
+            if inner {
+                innermost = Some(i);
             }
         }
+        if let Some(i) = innermost {
+            regions[i].interiors_mut().push(interior);
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 08dbab19b43659773a3339705f68340a10b7ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 26/55] fix: regular derivative samples of a surface were
 indexed out of bounds when its degrees differ

---
 src/surface/nurbs_surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 0b380f7..a833d92 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -330,7 +330,7 @@ where
         } else {
             self.v_degree
         };
-        let mut skl = vec![vec![OVector::<T, D>::zeros(); du + 1]; dv + 1];
+        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];
 
         for k in 0..=du {
             let mut temp = vec![];
-- 
2.43.0


From aa230625a04b4c7d3614ba20c0dfe19577201943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 27/55] fix: iso curves at interior knots of multiplicity two
 or more were off the surface

---
 src/surface/nurbs_surface.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index a833d92..cae7da5 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -789,7 +789,15 @@ where
                 UVDirection::V => refined.control_points[0].len() - 1,
             }
         } else {
-            knots.find_knot_span_index(knots.len() - degree - 2, degree, t)
+            // the control point ahead of the knots at `t` is on the iso curve
+            match direction {
+                UVDirection::U => &refined.u_knots,
+                UVDirection::V => &refined.v_knots,
+            }
+            .iter()
+            .position(|k| (t - *k).abs() < T::default_epsilon())
+            .and_then(|i| i.checked_sub(1))
+            .ok_or(anyhow::anyhow!("No knot at the parameter"))?
         };
 
         match direction {
-- 
2.43.0


From c662d4ee6445e691a62e8398b504723f9f8c3b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 28/55] fix: lofted surfaces did not pass through the curves
 between the first and the last

---
 src/curve/nurbs_curve.rs     | 25 ++++++++++++++++----
 src/surface/nurbs_surface.rs | 45 +++++++++++++++++++++++-------------
 2 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index aee8e44..8672087 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2066,11 +2066,13 @@ pub fn try_interpolate_control_points<T: FloatingPoint>(
     degree: usize,
     homogeneous: bool,
 ) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
-    let n = points.len();
-    if n < degree + 1 {
-        anyhow::bail!("Too few control points for curve");
-    }
+    let us = chord_length_parameters(points);
+    try_interpolate_control_points_at(points, &us, degree, homogeneous)
+}
 
+/// Parameters between zero and one proportional to the distances between the points
+pub(crate) fn chord_length_parameters<T: FloatingPoint>(points: &[DVector<T>]) -> Vec<T> {
+    let n = points.len();
     let mut us: Vec<T> = vec![T::zero()];
     for i in 1..n {
         let sub = &points[i] - &points[i - 1];
@@ -2085,6 +2087,21 @@ pub fn try_interpolate_control_points<T: FloatingPoint>(
         us[i] /= max;
     }
 
+    us
+}
+
+/// Interpolate the points at the given parameters
+pub(crate) fn try_interpolate_control_points_at<T: FloatingPoint>(
+    points: &[DVector<T>],
+    us: &[T],
+    degree: usize,
+    homogeneous: bool,
+) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
+    let n = points.len();
+    if n < degree + 1 {
+        anyhow::bail!("Too few control points for curve");
+    }
+
     let mut knots_start = vec![T::zero(); degree + 1];
 
     let start = 1;
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index cae7da5..d94b5c3 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -10,9 +10,9 @@ use nalgebra::{
 use simba::scalar::SupersetOf;
 
 use crate::{
-    curve::{
-        nurbs_curve::{dehomogenize, NurbsCurve, NurbsCurve3D},
-        try_interpolate_control_points,
+    curve::nurbs_curve::{
+        chord_length_parameters, dehomogenize, try_interpolate_control_points_at, NurbsCurve,
+        NurbsCurve3D,
     },
     misc::{
         binomial::Binomial, transformable::Transformable, transpose_control_points, FloatingPoint,
@@ -682,21 +682,34 @@ where
 
         let knots_u = unified_curves[0].knots().clone();
 
-        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
-        let v_curves: anyhow::Result<Vec<_>> = (0..unified_curves[0].control_points().len())
+        let columns = (0..unified_curves[0].control_points().len())
             .map(|i| {
-                let points = unified_curves
+                unified_curves
                     .iter()
-                    .map(|c| c.control_points()[i].clone())
-                    .collect_vec();
-                let (control_points, knots) = try_interpolate_control_points(
-                    &points
-                        .iter()
-                        .map(|p| DVector::from_vec(p.iter().copied().collect()))
-                        .collect_vec(),
-                    degree_v,
-                    false,
-                )?;
+                    .map(|c| DVector::from_vec(c.control_points()[i].iter().copied().collect()))
+                    .collect_vec()
+            })
+            .collect_vec();
+
+        // The columns share the parameters of the sections,
+        // the mean of the chord lengths of all columns but those of a single point
+        let parameters = columns
+            .iter()
+            .map(|points| chord_length_parameters(points))
+            .filter(|us| us.iter().all(|u| u.is_finite()))
+            .collect_vec();
+        anyhow::ensure!(!parameters.is_empty(), "All the curves coincide");
+        let count = T::from_usize(parameters.len()).unwrap();
+        let parameters = (0..unified_curves.len())
+            .map(|i| parameters.iter().fold(T::zero(), |a, us| a + us[i]) / count)
+            .collect_vec();
+
+        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
+        let v_curves: anyhow::Result<Vec<_>> = columns
+            .iter()
+            .map(|points| {
+                let (control_points, knots) =
+                    try_interpolate_control_points_at(points, &parameters, degree_v, false)?;
                 NurbsCurve::try_new(
                     degree_v,
                     control_points
-- 
2.43.0


From 2a0a924473beca25c3f9c77f61072af5eb2be703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 29/55] fix: lofting curves with rounded, different or
 unclamped knot vectors gave a malformed surface

---
 src/curve/nurbs_curve.rs     | 24 ++++++++++++++++++++++++
 src/surface/nurbs_surface.rs | 28 ++++++++++++++++++++++++++--
 2 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 8672087..2add5dc 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1769,6 +1769,30 @@ where
         Ok(())
     }
 
+    /// Clamp the curve at the ends of its domain
+    pub(crate) fn try_clamp_to_domain(&mut self) -> anyhow::Result<()> {
+        let degree = self.degree;
+        let (start, end) = self.knots_domain();
+        let count = |k: T| self.knots.iter().filter(|x| **x == k).count();
+        let knots_to_insert = (count(start)..=degree)
+            .map(|_| start)
+            .chain((count(end)..=degree).map(|_| end))
+            .collect_vec();
+        self.try_refine_knot(knots_to_insert)?;
+
+        let knots = self.knots.as_slice();
+        let first = knots.iter().position(|k| *k == start);
+        let last = knots.iter().rposition(|k| *k == end);
+        let (first, last) = first
+            .zip(last)
+            .ok_or(anyhow::anyhow!("No knots at the ends of the domain"))?;
+        let control_points = self.control_points[first..(last - degree)].to_vec();
+        let knots = knots[first..=last].to_vec();
+        *self = Self::try_new(degree, control_points, knots)?;
+
+        Ok(())
+    }
+
     /// Decompose the curve into Bezier segments
     pub fn try_decompose_bezier_segments(&self) -> anyhow::Result<Vec<Self>> {
         let mut cloned = self.clone();
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index d94b5c3..1729f52 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1346,6 +1346,17 @@ where
 {
     let max_degree = curves.iter().fold(0, |d, c| d.max(c.degree()));
 
+    // unclamped curves have nothing in common with other knot vectors but their domains
+    let mut curves = curves.to_vec();
+    let unified = curves
+        .windows(2)
+        .all(|w| w[0].degree() == w[1].degree() && w[0].knots() == w[1].knots());
+    if !unified {
+        for curve in curves.iter_mut().filter(|c| !c.is_clamped()) {
+            curve.try_clamp_to_domain()?;
+        }
+    }
+
     // elevate all curves to the same degree
     let mut curves = curves
         .iter()
@@ -1383,8 +1394,21 @@ where
 
     //scale all of the knot vectors to match
     curves.iter_mut().enumerate().for_each(|(i, c)| {
-        let scale = max_knot_span / knot_spans[i];
-        c.knots_mut().iter_mut().for_each(|x| *x *= scale);
+        c.knots_mut()
+            .iter_mut()
+            .for_each(|x| *x = *x / knot_spans[i] * max_knot_span);
+    });
+
+    //knots which differ by rounding only are the same
+    let tolerance = max_knot_span * T::default_epsilon() * T::from_f64(16.0).unwrap();
+    let mut shared: Vec<T> = vec![];
+    curves.iter_mut().for_each(|c| {
+        c.knots_mut().iter_mut().for_each(|x| {
+            match shared.iter().find(|k| (**k - *x).abs() < tolerance) {
+                Some(k) => *x = *k,
+                None => shared.push(*x),
+            }
+        });
     });
 
     //merge all of the knot vectors
-- 
2.43.0


From 69a5234ca6b55338aafd6797d984e174fdb48268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 30/55] fix: revolving about an axis of another length than
 one, or a point near the axis, failed or gave a wrong surface

---
 src/surface/nurbs_surface.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 1729f52..5d79dfe 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -11,8 +11,8 @@ use simba::scalar::SupersetOf;
 
 use crate::{
     curve::nurbs_curve::{
-        chord_length_parameters, dehomogenize, try_interpolate_control_points_at, NurbsCurve,
-        NurbsCurve3D,
+        chord_length_parameters, coincidence_epsilon, dehomogenize,
+        try_interpolate_control_points_at, NurbsCurve, NurbsCurve3D,
     },
     misc::{
         binomial::Binomial, transformable::Transformable, transpose_control_points, FloatingPoint,
@@ -1175,6 +1175,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
         axis: &Vector3<T>,
         theta: T,
     ) -> anyhow::Result<Self> {
+        let axis = &axis.normalize();
         let prof_points = profile.dehomogenized_control_points();
         let prof_weights = profile.weights();
 
@@ -1243,7 +1244,9 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
             // perpendicular vector to x & axis
             let mut y = axis.cross(&x);
 
-            if r > T::default_epsilon() {
+            // a point on the axis up to rounding has no direction from the axis
+            let epsilon = coincidence_epsilon([p, center].into_iter());
+            if r > epsilon {
                 x *= T::one() / r;
                 y *= T::one() / r;
             }
@@ -1258,7 +1261,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
             let mut t0 = y;
             let mut index = 0;
             for i in 1..=narcs {
-                let p2 = if r <= T::default_epsilon() {
+                let p2 = if r <= epsilon {
                     o
                 } else {
                     o + x * cosines[i] * r + y * sines[i] * r
@@ -1273,7 +1276,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
                 let t2 = y * cosines[i] - x * sines[i];
 
                 let l = index + 1;
-                if r <= T::default_epsilon() {
+                if r <= epsilon {
                     control_points[l][j].x = o.x;
                     control_points[l][j].y = o.y;
                     control_points[l][j].z = o.z;
-- 
2.43.0


From 234e4f0b8479f8e08153468c51560c919fb0c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 31/55] fix: closest point on a surface stopped early at seams,
 boundaries and non-convex places

The wrap around a seam left the domain, seams were recognised only when they
coincide bit for bit, and the iteration halted whenever the Newton step went
uphill.
---
 .../surface_closest_parameter_newton.rs       | 112 +++++++++---------
 src/surface/nurbs_surface.rs                  |   2 +-
 2 files changed, 54 insertions(+), 60 deletions(-)

diff --git a/src/closest_parameter/surface_closest_parameter_newton.rs b/src/closest_parameter/surface_closest_parameter_newton.rs
index 6e5468a..6918cc2 100644
--- a/src/closest_parameter/surface_closest_parameter_newton.rs
+++ b/src/closest_parameter/surface_closest_parameter_newton.rs
@@ -119,58 +119,60 @@ where
         let duu = s_u.dot(s_u) + s_uu.dot(&dif);
         let dvv = s_v.dot(s_v) + s_vv.dot(&dif);
 
+        let duv = s_u.dot(s_v) + s_uv.dot(&dif);
+
         // check if the second derivative is vanishing
         let u_d = duu < F::default_epsilon();
         let v_d = dvv < F::default_epsilon();
 
-        let new_param = match (u_d, v_d) {
-            (false, false) => {
-                let duv = s_u.dot(s_v) + s_uv.dot(&dif);
-                let hessian = Matrix2::new(duu, duv, duv, dvv);
-                let delta = hessian
-                    .lu()
-                    .solve(&-grad)
-                    .ok_or(anyhow::anyhow!("Failed to solve"))?;
-                *param + delta * self.gamma
-            }
-            (true, false) => {
-                let v_delta = -grad.y / dvv;
-                *param + Vector2::new(F::zero(), v_delta) * self.gamma
-            }
-            (false, true) => {
-                let u_delta = -grad.x / duu;
-                *param + Vector2::new(u_delta, F::zero()) * self.gamma
+        // the Newton step goes uphill where the cost is not convex; fall back on the Gauss-Newton
+        // step and on the steps in a single direction (e.g. along the boundary of the domain)
+        let step = |h00: F, h01: F, h11: F| {
+            Matrix2::new(h00, h01, h01, h11)
+                .lu()
+                .solve(&-grad)
+                .filter(|delta| delta.x.is_finite() && delta.y.is_finite())
+        };
+        let su2 = s_u.dot(s_u);
+        let sv2 = s_v.dot(s_v);
+        let u_step = if u_d { su2 } else { duu };
+        let v_step = if v_d { sv2 } else { dvv };
+        let steps = [
+            if u_d || v_d {
+                None
+            } else {
+                step(duu, duv, dvv)
+            },
+            step(su2, s_u.dot(s_v), sv2),
+            (v_step > F::zero()).then(|| Vector2::new(F::zero(), -grad.y / v_step)),
+            (u_step > F::zero()).then(|| Vector2::new(-grad.x / u_step, F::zero())),
+        ];
+
+        let cost = problem.cost(param)?;
+        let mut gamma = self.gamma;
+        for _ in 0..4 {
+            let mut best: Option<(F, Vector2<F>)> = None;
+            for delta in steps.iter().flatten() {
+                // Constrain the parameter to the domain
+                let new_param = *param + *delta * gamma;
+                let new_param = Vector2::new(
+                    constrain(new_param.x, self.knot_domain.0, self.closed.0),
+                    constrain(new_param.y, self.knot_domain.1, self.closed.1),
+                );
+                let new_cost = problem.cost(&new_param)?;
+                if new_cost < best.map_or(cost, |(c, _)| c) {
+                    best = Some((new_cost, new_param));
+                }
             }
-            _ => {
-                let p = *param;
-                return Ok((state.param(p), None));
+            if let Some((new_cost, new_param)) = best {
+                return Ok((state.cost(new_cost).param(new_param), None));
             }
-        };
-
-        /*
-        let inv = hessian
-            .try_inverse()
-            .ok_or(anyhow::anyhow!("Failed to compute inverse matrix"))?;
-        let delta = -inv * grad;
-        let new_param = *param + delta * self.gamma;
-        */
-
-        // Constrain the parameter to the domain
-        let new_param = Vector2::new(
-            constrain(new_param.x, self.knot_domain.0, self.closed.0),
-            constrain(new_param.y, self.knot_domain.1, self.closed.1),
-        );
-
-        let new_cost = problem.cost(&new_param)?;
-        // println!("prev: {}, next: {}", state.get_cost(), new_cost);
+            gamma *= float!(0.25);
+        }
 
         // halt if cost is not decreasing
-        if state.get_cost() < new_cost {
-            let p = *param;
-            Ok((state.param(p), None))
-        } else {
-            Ok((state.cost(new_cost).param(new_param), None))
-        }
+        let p = *param;
+        Ok((state.param(p), None))
     }
 
     fn terminate(
@@ -195,20 +197,12 @@ where
     }
 }
 
+/// Constrain the parameter to the domain, wrapping around in a closed direction
 fn constrain<T: FloatingPoint>(parameter: T, domain: (T, T), closed: bool) -> T {
-    if parameter < domain.0 {
-        if closed {
-            domain.1 - (parameter - domain.0)
-        } else {
-            domain.0 + T::default_epsilon()
-        }
-    } else if parameter > domain.1 {
-        if closed {
-            domain.0 + (parameter - domain.1)
-        } else {
-            domain.1 - T::default_epsilon()
-        }
-    } else {
-        parameter
-    }
+    let wrapped = match closed {
+        true if parameter < domain.0 => domain.1 + (parameter - domain.0),
+        true if parameter > domain.1 => domain.0 + (parameter - domain.1),
+        _ => parameter,
+    };
+    wrapped.clamp(domain.0, domain.1)
 }
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 5d79dfe..0c2200e 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -983,7 +983,7 @@ where
         let pts = self.dehomogenized_control_points();
         let u0 = pts.first().unwrap();
         let u1 = pts.last().unwrap();
-        let eps = T::default_epsilon() * T::from_f64(10.0).unwrap();
+        let eps = coincidence_epsilon(pts.iter().flatten());
         let u_closed = (0..pts[0].len()).all(|i| (&u0[i] - &u1[i]).norm() < eps);
         let v_closed = (0..pts.len()).all(|i| {
             let row = &pts[i];
-- 
2.43.0


From 73d29c59d26a7f007391839a59118406dfc9135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 32/55] fix: tessellation of a curve with a short domain lost
 its points

The recursion stopped at an absolute parameter width and then returned a
single point, of which the caller removed one.
---
 src/tessellation/tessellation_curve.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/tessellation/tessellation_curve.rs b/src/tessellation/tessellation_curve.rs
index 7a446a2..0805b45 100644
--- a/src/tessellation/tessellation_curve.rs
+++ b/src/tessellation/tessellation_curve.rs
@@ -28,17 +28,19 @@ where
         let mut rng = rand::rng();
         let tol = tolerance.unwrap_or(T::from_f64(1e-3).unwrap());
         let (start, end) = self.knots_domain();
-        tessellate_adaptive(self, start, end, tol, &mut rng)
+        let min_delta = (end - start) * T::from_f64(1e-8).unwrap();
+        tessellate_adaptive(self, start, end, tol, min_delta, &mut rng)
     }
 }
 
 /// Tessellate the curve using an adaptive algorithm recursively
-/// if the curve between [start ~ end] is flat enough, it will return the two end points
+/// if the curve between [start ~ end] is flat enough or not longer than `min_delta`, it will return the two end points
 fn tessellate_adaptive<T: FloatingPoint, D>(
     curve: &NurbsCurve<T, D>,
     start: T,
     end: T,
     tol: T,
+    min_delta: T,
     rng: &mut ThreadRng,
 ) -> Vec<OPoint<T, DimNameDiff<D, U1>>>
 where
@@ -47,13 +49,12 @@ where
     DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
 {
     let p1 = curve.point_at(start);
+    let p3 = curve.point_at(end);
     let delta = end - start;
-    if delta < T::from_f64(1e-8).unwrap() {
-        return vec![p1];
+    if delta < min_delta {
+        return vec![p1, p3];
     }
 
-    let p3 = curve.point_at(end);
-
     let t = 0.5_f64 + 0.2_f64 * rng.random::<f64>();
     let mid = start + delta * T::from_f64(t).unwrap();
     let p2 = curve.point_at(mid);
@@ -64,8 +65,8 @@ where
         || !three_points_are_flat(&p1, &p2, &p3, tol)
     {
         let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();
-        let mut left_pts = tessellate_adaptive(curve, start, exact_mid, tol, rng);
-        let right_pts = tessellate_adaptive(curve, exact_mid, end, tol, rng);
+        let mut left_pts = tessellate_adaptive(curve, start, exact_mid, tol, min_delta, rng);
+        let right_pts = tessellate_adaptive(curve, exact_mid, end, tol, min_delta, rng);
         left_pts.pop();
         [left_pts, right_pts].concat()
     } else {
-- 
2.43.0


From 96bc0bb7ca6fe95cf7e47512d5bd160e1cfc574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 33/55] fix: surface tessellation left cracks, NaN normals at
 poles and ignored constraints at the far sides

The western neighbour of the first row of nodes was missing, the last row and
column were not recognised as the boundary, normals at degenerate points were
normalised zero vectors, a minimum depth divided constrained sides, and
parameters equal up to rounding gave slivers.
---
 .../adaptive_tessellation_node.rs             | 56 +++++++++++++------
 src/tessellation/boundary_constraints.rs      | 10 +---
 src/tessellation/surface.rs                   | 34 +++++++----
 3 files changed, 65 insertions(+), 35 deletions(-)

diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index 359de12..1871278 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -198,8 +198,17 @@ where
         options: &AdaptiveTessellationOptions<T>,
         current_depth: usize,
     ) -> Option<DividableDirection> {
+        // the sides on a constrained boundary must not be divided
+        let v_dividable = self.corners.iter().all(|c| !c.is_u_constrained());
+        let u_dividable = self.corners.iter().all(|c| !c.is_v_constrained());
+
         if current_depth < options.min_depth {
-            return Some(DividableDirection::Both);
+            return match (u_dividable, v_dividable) {
+                (true, true) => Some(DividableDirection::Both),
+                (true, false) => Some(DividableDirection::U),
+                (false, true) => Some(DividableDirection::V),
+                (false, false) => None,
+            };
         }
 
         if current_depth >= options.max_depth {
@@ -218,13 +227,13 @@ where
             > options.norm_tolerance
             || (self.corners[2].normal() - self.corners[3].normal()).norm_squared()
                 > options.norm_tolerance;
-        let v_direction = v_direction && self.corners.iter().all(|c| !c.is_u_constrained());
+        let v_direction = v_direction && v_dividable;
 
         let u_direction = (self.corners[1].normal() - self.corners[2].normal()).norm_squared()
             > options.norm_tolerance
             || (self.corners[3].normal() - self.corners[0].normal()).norm_squared()
                 > options.norm_tolerance;
-        let u_direction = u_direction && self.corners.iter().all(|c| !c.is_v_constrained());
+        let u_direction = u_direction && u_dividable;
 
         match (u_direction, v_direction) {
             (true, true) => Some(DividableDirection::Both),
@@ -254,7 +263,7 @@ where
 }
 
 /// Evaluate the surface at a given uv coordinate
-fn evaluate_surface<T: FloatingPoint, D>(
+pub(crate) fn evaluate_surface<T: FloatingPoint, D>(
     surface: &NurbsSurface<T, D>,
     uv: Vector2<T>,
 ) -> SurfacePoint<T, DimNameDiff<D, U1>>
@@ -263,20 +272,35 @@ where
     DefaultAllocator: Allocator<D>,
     DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
 {
-    let derivs = surface.rational_derivatives(uv.x, uv.y, 1);
+    let derivs = surface.rational_derivatives(uv.x, uv.y, 2);
     let pt = derivs[0][0].clone();
-    let norm = derivs[1][0].cross(&derivs[0][1]);
-    let is_normal_degenerated = norm.magnitude_squared() < T::default_epsilon();
-    SurfacePoint::new(
-        uv,
-        pt.into(),
-        if !is_normal_degenerated {
-            norm.normalize()
+    let (su, sv) = (&derivs[1][0], &derivs[0][1]);
+    let scale = su.magnitude_squared().max(sv.magnitude_squared());
+    let threshold = T::default_epsilon() * scale * scale;
+    let norm = su.cross(sv);
+    if norm.magnitude_squared() > threshold {
+        return SurfacePoint::new(uv, pt.into(), norm.normalize(), false);
+    }
+
+    // the partial derivatives vanish or are parallel (e.g. at a pole);
+    // the normal there is its limit on the way into the domain
+    let inward = |t: T, (min, max): (T, T)| {
+        let length = max - min;
+        if t + t > min + max {
+            -length
         } else {
-            norm
-        },
-        is_normal_degenerated,
-    )
+            length
+        }
+    };
+    let (u_domain, v_domain) = surface.knots_domain();
+    let (du, dv) = (inward(uv.x, u_domain), inward(uv.y, v_domain));
+    let (suu, suv, svv) = (&derivs[2][0], &derivs[1][1], &derivs[0][2]);
+    let norm = (suu * du + suv * dv).cross(sv) + su.cross(&(suv * du + svv * dv));
+    if norm.magnitude_squared() > threshold {
+        SurfacePoint::new(uv, pt.into(), norm.normalize(), false)
+    } else {
+        SurfacePoint::new(uv, pt.into(), norm, true)
+    }
 }
 
 /// Enum to represent the direction in which a node can be divided
diff --git a/src/tessellation/boundary_constraints.rs b/src/tessellation/boundary_constraints.rs
index 9b03a3a..c705296 100644
--- a/src/tessellation/boundary_constraints.rs
+++ b/src/tessellation/boundary_constraints.rs
@@ -5,7 +5,7 @@ use nalgebra::{
 
 use crate::{misc::FloatingPoint, surface::NurbsSurface};
 
-use super::SurfacePoint;
+use super::{adaptive_tessellation_node::evaluate_surface, SurfacePoint};
 
 /// A struct representing constraints at the boundary of a surface tessellation
 #[derive(Clone, Debug)]
@@ -123,13 +123,7 @@ where
     pub fn new(surface: &NurbsSurface<T, D>, constraints: &BoundaryConstraints<T>) -> Self {
         let (u, v) = surface.knots_domain();
 
-        let evaluate = |uv: Vector2<T>| {
-            let deriv = surface.rational_derivatives(uv.x, uv.y, 1);
-            let pt = deriv[0][0].clone();
-            let norm = deriv[1][0].cross(&deriv[0][1]);
-            let is_normal_degenerated = norm.magnitude_squared() < T::default_epsilon();
-            SurfacePoint::new(uv, pt.into(), norm, is_normal_degenerated)
-        };
+        let evaluate = |uv: Vector2<T>| evaluate_surface(surface, uv);
 
         Self {
             u_points_at_v_min: constraints.u_parameters_at_v_min().map(|u_parameters| {
diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index c97cb57..400c11f 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -1,9 +1,10 @@
+use super::adaptive_tessellation_node::evaluate_surface;
 use super::adaptive_tessellation_option::AdaptiveTessellationOptions;
 use super::adaptive_tessellation_processor::AdaptiveTessellationProcessor;
 use super::boundary_constraints::BoundaryConstraints;
 use super::surface_tessellation::SurfaceTessellation;
+use super::ConstrainedTessellation;
 use super::{adaptive_tessellation_node::AdaptiveTessellationNode, Tessellation};
-use super::{ConstrainedTessellation, SurfacePoint};
 use itertools::Itertools;
 use nalgebra::{
     allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Vector2, U1,
@@ -82,8 +83,9 @@ where
         let divs_u = options.min_divs_u.max(min_u);
         let (umin, umax) = s.u_knots_domain();
         let du = (umax - umin) / T::from_usize(divs_u).unwrap();
-        (0..=divs_u)
+        (0..divs_u)
             .map(|i| umin + du * T::from_usize(i).unwrap())
+            .chain(std::iter::once(umax))
             .collect()
     };
 
@@ -99,8 +101,9 @@ where
         let divs_v = options.min_divs_v.max(min_v);
         let (vmin, vmax) = s.v_knots_domain();
         let dv = (vmax - vmin) / T::from_usize(divs_v).unwrap();
-        (0..=divs_v)
+        (0..divs_v)
             .map(|i| vmin + dv * T::from_usize(i).unwrap())
+            .chain(std::iter::once(vmax))
             .collect()
     };
 
@@ -140,16 +143,14 @@ where
         .enumerate()
         .map(|(iv, v)| {
             let u_min = iv == 0;
-            let u_max = iv == divs_v - 1;
+            let u_max = iv == divs_v;
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
-                let ds = s.rational_derivatives(*u, *v, 1);
-                let norm = ds[1][0].cross(&ds[0][1]).normalize();
                 let v_min = iu == 0;
-                let v_max = iu == divs_u - 1;
+                let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
-                SurfacePoint::new(Vector2::new(*u, *v), ds[0][0].clone().into(), norm, false)
+                evaluate_surface(s, Vector2::new(*u, *v))
                     .with_constraints(u_constraint, v_constraint)
                     .with_boundary(u_min, u_max, v_min, v_max)
             });
@@ -173,7 +174,7 @@ where
                 let s = south(index, iv, divs_u, divs_v);
                 let e = east(index, iu, divs_u);
                 let n = north(index, iv, divs_u);
-                let w = west(index, iv);
+                let w = west(index, iu);
                 AdaptiveTessellationNode::new(index, corners, [s, e, n, w])
             })
         })
@@ -221,8 +222,8 @@ fn east(index: usize, iu: usize, divs_u: usize) -> Option<usize> {
     }
 }
 
-fn west(index: usize, iv: usize) -> Option<usize> {
-    if iv == 0 {
+fn west(index: usize, iu: usize) -> Option<usize> {
+    if iu == 0 {
         None
     } else {
         Some(index - 1)
@@ -230,7 +231,18 @@ fn west(index: usize, iv: usize) -> Option<usize> {
 }
 
 /// Merge two sorted vectors
+/// Elements of `p0` that are the same as an element of `p1` up to rounding errors are dropped
 fn merge_sorted_parameters<T: FloatingPoint>(p0: Vec<T>, p1: Vec<T>) -> Vec<T> {
+    let range = match (p0.first(), p0.last()) {
+        (Some(first), Some(last)) => *last - *first,
+        _ => T::zero(),
+    };
+    let eps = range * T::default_epsilon() * T::from_usize(100).unwrap();
+    let p0: Vec<_> = p0
+        .into_iter()
+        .filter(|a| !p1.iter().any(|b| (*a - *b).abs() <= eps))
+        .collect();
+
     let mut c0 = 0;
     let mut c1 = 0;
     let mut res = vec![];
-- 
2.43.0


From 0c54b694485163a3f7dc78d297bf9427d47801f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 34/55] fix: closest point on a surface from all parameters of
 the nearest sample

At a pole all parameters of the collapsed edge share a point and the descent
from an arbitrary one of them may be stuck there.
---
 src/surface/nurbs_surface.rs | 69 ++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 35 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 0c2200e..2683c76 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1,4 +1,5 @@
 use std::borrow::Cow;
+use std::cmp::Ordering;
 
 use argmin::core::{ArgminFloat, Executor, State};
 use itertools::Itertools;
@@ -950,35 +951,18 @@ where
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
         T: ArgminFloat,
     {
-        let mut uv = Vector2::new(self.u_knots_domain().0, self.v_knots_domain().0);
-        let mut min_dist = T::infinity();
-
-        /*
-        let tess = self.regular_tessellate(10, 10);
-        tess.points().iter().enumerate().for_each(|(i, pt)| {
-            let d = point - pt;
-            let d = d.norm_squared();
-            if d < min_dist {
-                min_dist = d;
-                uv = tess.uvs()[i];
-            }
-        });
-        */
-
         let tess = self.tessellate(Some(AdaptiveTessellationOptions {
             min_divs_u: (self.control_points().len() - 1) * 2,
             min_divs_v: (self.control_points()[0].len() - 1) * 2,
             ..Default::default()
         }));
-        tess.points().iter().enumerate().for_each(|(i, pt)| {
-            let d = point - pt;
-            let d = d.norm_squared();
-            if d < min_dist {
-                min_dist = d;
-                uv = tess.uvs()[i];
-            }
-        });
-        // println!("Initial guess: {:?}", uv);
+        let nearest = tess
+            .points()
+            .iter()
+            .map(|pt| ((point - pt).norm_squared(), pt))
+            .min_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(Ordering::Equal))
+            .ok_or_else(|| anyhow::anyhow!("No initial guess found"))?
+            .1;
 
         let pts = self.dehomogenized_control_points();
         let u0 = pts.first().unwrap();
@@ -991,25 +975,40 @@ where
             let v1 = row.last().unwrap();
             (v0 - v1).norm() < eps
         });
-        // println!("u_closed: {}, v_closed: {}", u_closed, v_closed);
+
+        // The nearest point may have several parameters (e.g. at a pole or on a seam),
+        // and the descent from one of them alone may be stuck there.
+        let mut guesses: Vec<Vector2<T>> = vec![];
+        for (pt, uv) in tess.points().iter().zip(tess.uvs()) {
+            if (pt - nearest).norm() < eps && !guesses.contains(uv) {
+                guesses.push(*uv);
+            }
+        }
 
         let solver = SurfaceClosestParameterNewton::<T, D>::new(
             (self.u_knots_domain(), self.v_knots_domain()),
             (u_closed, v_closed),
         );
-        let res = Executor::new(SurfaceClosestParameterProblem::new(point, self), solver)
-            .configure(|state| state.param(uv).max_iters(100))
-            .run()?;
-        match res.state().get_best_param().cloned() {
-            Some(t) => {
-                if t.x.is_finite() && t.y.is_finite() {
-                    Ok((t.x, t.y))
-                } else {
-                    Err(anyhow::anyhow!("No best parameter found"))
+        let mut best: Option<(T, (T, T))> = None;
+        for uv in guesses {
+            let res = Executor::new(SurfaceClosestParameterProblem::new(point, self), solver)
+                .configure(|state| state.param(uv).max_iters(100))
+                .run()?;
+            let state = res.state();
+            let cost = state.get_best_cost();
+            match state.get_best_param() {
+                Some(t)
+                    if t.x.is_finite()
+                        && t.y.is_finite()
+                        && best.as_ref().map_or(true, |b| cost < b.0) =>
+                {
+                    best = Some((cost, (t.x, t.y)));
                 }
+                _ => {}
             }
-            _ => Err(anyhow::anyhow!("No best parameter found")),
         }
+        best.map(|(_, uv)| uv)
+            .ok_or_else(|| anyhow::anyhow!("No best parameter found"))
     }
 
     /// Cast the surface to a surface with another floating point type
-- 
2.43.0


From 1f66dbba26e93ad4b8326c869d64e7d5f5ab8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 35/55] fix: projection of trimming curves along a direction
 that is not a unit vector

The length of the rays depended on the length of the direction, and the extent
of boxes across the direction could cancel out.
---
 src/surface/trimmed_surface.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index 8a07984..d84a1aa 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -1,7 +1,7 @@
 use std::cmp::Ordering;
 
 use argmin::core::ArgminFloat;
-use nalgebra::{ComplexField, Matrix4, Point3, Vector3, U3};
+use nalgebra::{Matrix4, Point3, Vector3, U3};
 
 use crate::{
     curve::{NurbsCurve2D, NurbsCurve3D},
@@ -125,10 +125,11 @@ fn try_project_curve<T: FloatingPoint + ArgminFloat>(
 ) -> anyhow::Result<NurbsCurve2D<T>> {
     let b0: BoundingBox<T, U3> = surface.into();
     let b1: BoundingBox<T, U3> = curve.into();
-    let l0 = ComplexField::abs(b0.size().dot(direction));
-    let l1 = ComplexField::abs(b1.size().dot(direction));
-    let ray_length = (b0.center() - b1.center()).norm() + l0 + l1;
-    let offset = direction * T::one();
+    let direction = direction
+        .try_normalize(T::zero())
+        .ok_or_else(|| anyhow::anyhow!("The direction of the projection is zero"))?;
+    let ray_length = (b0.center() - b1.center()).norm() + b0.size().norm() + b1.size().norm();
+    let offset = direction;
     let weights = curve.weights();
     let pts = curve
         .dehomogenized_control_points()
-- 
2.43.0


From b0ec9f83c251886cecdcb288d77a9301903f828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 36/55] fix: tessellation of a trimmed surface lost spans,
 cracked at slivers and had normals of any length

The flatness of a trimming curve was measured with derivatives that were not
normalized (the second difference of a parabola is zero), triangles were kept
or dropped by the center of a sliver, and vertices of the surface divided the
edges of the given boundaries.
---
 src/tessellation/trimmed_surface.rs | 296 ++++++++++++++--------------
 1 file changed, 150 insertions(+), 146 deletions(-)

diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index 6acf354..57b18b3 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -1,5 +1,7 @@
-use std::collections::HashMap;
+use std::cmp::Ordering;
+use std::collections::{HashMap, HashSet};
 
+use super::adaptive_tessellation_node::evaluate_surface;
 use super::adaptive_tessellation_option::AdaptiveTessellationOptions;
 use super::surface_tessellation::SurfaceTessellation;
 use super::{ConstrainedTessellation, Tessellation};
@@ -26,8 +28,10 @@ impl<T: FloatingPoint> Vertex<T> {
         Self { point, normal, uv }
     }
 
-    pub fn point(&self) -> Point3<T> {
-        self.point
+    /// Evaluate the surface at the given parameters
+    pub fn evaluate(surface: &NurbsSurface3D<T>, uv: Point2<T>) -> Self {
+        let pt = evaluate_surface(surface, uv.coords);
+        Self::new(pt.point, pt.normal, pt.uv)
     }
 }
 
@@ -87,12 +91,7 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
             let exterior = s.exterior().map(|curve| match constraints.exterior() {
                 Some(constraint) => constraint
                     .iter()
-                    .map(|t| {
-                        let uv = curve.point_at(*t);
-                        let p = s.surface().point_at(uv.x, uv.y);
-                        let n = s.surface().normal_at(uv.x, uv.y);
-                        Vertex::new(p, n, uv.coords)
-                    })
+                    .map(|t| Vertex::evaluate(s.surface(), curve.point_at(*t)))
                     .collect_vec(),
                 None => tessellate_uv_curve_adaptive(curve, s.surface(), curve_tessellation_option),
             });
@@ -103,12 +102,7 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
                 .map(|(curve, constraint)| match constraint {
                     Some(constraint) => constraint
                         .iter()
-                        .map(|t| {
-                            let uv = curve.point_at(*t);
-                            let p = s.surface().point_at(uv.x, uv.y);
-                            let n = s.surface().normal_at(uv.x, uv.y);
-                            Vertex::new(p, n, uv.coords)
-                        })
+                        .map(|t| Vertex::evaluate(s.surface(), curve.point_at(*t)))
                         .collect_vec(),
                     None => {
                         tessellate_uv_curve_adaptive(curve, s.surface(), curve_tessellation_option)
@@ -141,66 +135,80 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
         ..
     } = tess;
 
-    let surface_division = points
-        .into_iter()
-        .zip(normals)
-        .zip(uvs)
-        .map(|((p, n), uv)| Vertex::new(p, n, uv))
-        .collect_vec();
+    // measure distances relative to the size of the surface domain
+    let (u_domain, v_domain) = s.surface().knots_domain();
+    let size = Vector2::new(u_domain.1 - u_domain.0, v_domain.1 - v_domain.0);
+    let epsilon = T::default_epsilon();
+    let near = ComplexField::sqrt(epsilon);
+
+    // closed loops without coincident vertices
+    let to_loop = |mut vertices: Vec<Vertex<T>>| {
+        let coincident = |a: &Vertex<T>, b: &Vertex<T>| {
+            (a.uv - b.uv).component_div(&size).norm() < epsilon * T::from_f64(64.).unwrap()
+        };
+        vertices.dedup_by(|b, a| coincident(a, b));
+        if vertices.len() > 1 && coincident(&vertices[0], &vertices[vertices.len() - 1]) {
+            vertices.pop();
+        }
+        vertices
+    };
+    let exterior = exterior.map(to_loop);
+    let interiors = interiors.into_iter().map(to_loop).collect_vec();
+
+    // the vertices of the surface on the trimming curves would divide their edges
+    let on_boundary = |uv: &Vector2<T>| {
+        exterior.iter().chain(interiors.iter()).any(|vertices| {
+            vertices.iter().circular_tuple_windows().any(|(a, b)| {
+                let edge = (b.uv - a.uv).component_div(&size);
+                let d = (uv - a.uv).component_div(&size);
+                let l = edge.norm_squared();
+                let t = if l > T::zero() {
+                    (edge.dot(&d) / l).clamp(T::zero(), T::one())
+                } else {
+                    T::zero()
+                };
+                (d - edge * t).norm() < near
+            })
+        })
+    };
 
     let mut t = Tri::default();
 
-    surface_division.iter().for_each(|v| {
-        let _ = t.insert(*v);
-    });
+    points
+        .into_iter()
+        .zip(normals)
+        .zip(uvs)
+        .filter(|(_, uv)| !on_boundary(uv))
+        .for_each(|((p, n), uv)| {
+            let _ = t.insert(Vertex::new(p, n, uv));
+        });
 
     let insert_constraint = |t: &mut Tri<T>, vertices: &[Vertex<T>]| {
-        let skip = if let (Some(first), Some(last)) = (vertices.first(), vertices.last()) {
-            // if the input vertices are closed, skip the first vertex to avoid adding a duplicate constraint
-            if first.point() == last.point() {
-                1
-            } else {
-                0
-            }
-        } else {
-            0
-        };
-
-        let handles = vertices
-            .iter()
-            .skip(skip)
-            .map(|v| t.insert(*v))
-            .collect_vec();
+        let handles = vertices.iter().map(|v| t.insert(*v)).collect_vec();
         handles
             .into_iter()
             .circular_tuple_windows()
-            .for_each(|(a, b)| {
-                if let (Ok(a), Ok(b)) = (a, b) {
-                    let can_add_constraint = t.can_add_constraint(a, b);
-                    if can_add_constraint {
-                        t.add_constraint(a, b);
-                    }
+            .all(|(a, b)| match (a, b) {
+                (Ok(a), Ok(b)) if a != b && t.can_add_constraint(a, b) => {
+                    t.add_constraint(a, b);
+                    true
                 }
-            });
+                _ => false,
+            })
     };
 
-    if let Some(exterior) = exterior.as_ref() {
-        insert_constraint(&mut t, exterior);
-    }
-    interiors.iter().for_each(|verts| {
-        insert_constraint(&mut t, verts);
-    });
-
-    let mut vertices = vec![];
+    let constrained = exterior
+        .iter()
+        .chain(interiors.iter())
+        .map(|vertices| insert_constraint(&mut t, vertices))
+        .collect_vec()
+        .into_iter()
+        .all(|added| added);
 
     let vmap: HashMap<_, _> = t
         .vertices()
         .enumerate()
-        .map(|(i, v)| {
-            let p = v.as_ref();
-            vertices.push(p.uv);
-            (v.fix(), i)
-        })
+        .map(|(i, v)| (v.fix(), i))
         .collect();
 
     let uv_exterior_boundary =
@@ -212,38 +220,54 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
 
     let inv_3 = T::from_f64(1. / 3.).unwrap();
 
-    let faces = t
-        .inner_faces()
-        .filter_map(|f| {
-            let vs = f.vertices();
+    let is_inside = |tri: &[Vector2<T>; 3]| {
+        let center: Point2<T> = ((tri[0] + tri[1] + tri[2]) * inv_3).into();
+        uv_exterior_boundary
+            .as_ref()
+            .map(|exterior| exterior.contains(&center, ()).unwrap_or(false))
+            .unwrap_or(true)
+            && !uv_interior_boundaries
+                .iter()
+                .any(|interior| interior.contains(&center, ()).unwrap_or(false))
+    };
 
-            let tri = vs.iter().map(|v| v.as_ref()).map(|p| p.uv).collect_vec();
+    let negligible = size.x * size.y * epsilon * T::from_f64(64.).unwrap();
 
-            let (a, b) = (tri[1] - tri[0], tri[2] - tri[1]);
-            let area = a.x * b.y - a.y * b.x;
-            if ComplexField::abs(area) < T::default_epsilon() {
-                return None;
-            }
-
-            let center: Point2<T> = ((tri[0] + tri[1] + tri[2]) * inv_3).into();
-            if uv_exterior_boundary
-                .as_ref()
-                .map(|exterior| exterior.contains(&center, ()).unwrap_or(false))
-                .unwrap_or(true)
-                && (uv_interior_boundaries.is_empty()
-                    || !uv_interior_boundaries
-                        .iter()
-                        .any(|interior| interior.contains(&center, ()).unwrap_or(false)))
-            {
-                let a = vmap[&vs[0].fix()];
-                let b = vmap[&vs[1].fix()];
-                let c = vmap[&vs[2].fix()];
-                Some([a, b, c])
-            } else {
-                None
+    // All triangles of a region enclosed by the trimming curves are on the same side of them,
+    // so the largest one decides: the side of a sliver can not be determined by its center.
+    let mut faces = vec![];
+    let mut visited = HashSet::new();
+    for seed in t.inner_faces() {
+        if !visited.insert(seed.fix()) {
+            continue;
+        }
+        let mut region = vec![];
+        let mut stack = vec![seed];
+        while let Some(face) = stack.pop() {
+            if constrained {
+                face.adjacent_edges()
+                    .into_iter()
+                    .filter(|e| !e.is_constraint_edge())
+                    .filter_map(|e| e.rev().face().as_inner())
+                    .for_each(|f| {
+                        if visited.insert(f.fix()) {
+                            stack.push(f);
+                        }
+                    });
             }
-        })
-        .collect_vec();
+            let vs = face.vertices();
+            let tri = vs.map(|v| v.as_ref().uv);
+            let (a, b) = (tri[1] - tri[0], tri[2] - tri[1]);
+            let area = ComplexField::abs(a.x * b.y - a.y * b.x);
+            region.push((vs.map(|v| vmap[&v.fix()]), tri, area));
+        }
+        let largest = region
+            .iter()
+            .max_by(|a, b| a.2.partial_cmp(&b.2).unwrap_or(Ordering::Equal));
+        if largest.is_some_and(|(_, tri, area)| *area > negligible && is_inside(tri)) {
+            faces.extend(region.into_iter().map(|(face, _, _)| face));
+        }
+    }
 
     let mut points = vec![];
     let mut normals = vec![];
@@ -269,48 +293,27 @@ fn tessellate_uv_curve_adaptive<T: FloatingPoint>(
     surface: &NurbsSurface3D<T>,
     tolerance: T,
 ) -> Vec<Vertex<T>> {
-    let degree = curve.degree();
-    match degree {
-        1 => {
-            // if the curve is a linear curve, should start tessellation from the knots
-            let knots = curve.knots();
-            let n = knots.len();
-
-            let pts = (1..n - 2).flat_map(|i| {
-                let evaluated = iterate_uv_curve_tessellation(
-                    curve,
-                    surface,
-                    knots[i],
-                    knots[i + 1],
-                    tolerance,
-                );
-                #[allow(clippy::iter_skip_zero)]
-                if i == 1 {
-                    evaluated.into_iter().skip(0)
-                } else {
-                    evaluated.into_iter().skip(1)
-                }
-            });
-
-            pts.map(|uv| {
-                let p = surface.point_at(uv.x, uv.y);
-                let n = surface.normal_at(uv.x, uv.y);
-                Vertex::new(p, n, uv.coords)
-            })
-            .collect_vec()
-        }
-        _ => {
-            let (start, end) = curve.knots_domain();
-            let pts = iterate_uv_curve_tessellation(curve, surface, start, end, tolerance);
-            pts.into_iter()
-                .map(|uv| {
-                    let p = surface.point_at(uv.x, uv.y);
-                    let n = surface.normal_at(uv.x, uv.y);
-                    Vertex::new(p, n, uv.coords)
-                })
-                .collect_vec()
-        }
-    }
+    // should start tessellation from the knots:
+    // a curve may turn back to the same direction between them
+    let (min, max) = curve.knots_domain();
+    let mut knots = curve
+        .knots()
+        .iter()
+        .copied()
+        .filter(|k| (min..=max).contains(k))
+        .collect_vec();
+    knots.dedup();
+
+    let mut pts = vec![];
+    knots.into_iter().tuple_windows().for_each(|(start, end)| {
+        pts.pop();
+        pts.extend(iterate_uv_curve_tessellation(
+            curve, surface, start, end, tolerance,
+        ));
+    });
+    pts.into_iter()
+        .map(|uv| Vertex::evaluate(surface, uv))
+        .collect_vec()
 }
 
 fn iterate_uv_curve_tessellation<T: FloatingPoint>(
@@ -320,32 +323,33 @@ fn iterate_uv_curve_tessellation<T: FloatingPoint>(
     end: T,
     normal_tolerance: T,
 ) -> Vec<Point2<T>> {
-    let (p1, n1) = curve.point_tangent_at(start);
-    let delta = end - start;
-    if delta < T::from_f64(1e-8).unwrap() {
-        return vec![p1];
+    let point_tangent = |t: T| {
+        let (p, d) = curve.point_tangent_at(t);
+        (p, d.try_normalize(T::zero()).unwrap_or_else(Vector2::zeros))
+    };
+    let (p1, n1) = point_tangent(start);
+    let (p3, n3) = point_tangent(end);
+
+    let (min, max) = curve.knots_domain();
+    if end - start < (max - min) * T::from_f64(1e-8).unwrap() {
+        return vec![p1, p3];
     }
 
     let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();
-    let (p2, n2) = curve.point_tangent_at(exact_mid);
-    let (p3, n3) = curve.point_tangent_at(end);
+    let (p2, n2) = point_tangent(exact_mid);
 
     let flag = {
         if curve.degree() == 1 {
             // if the curve is a linear curve, we don't need to tessellate it by normal
             false
         } else {
-            let diff = n2 - n1;
-            let diff2 = n3 - n2;
-            (diff - diff2).norm() > normal_tolerance
+            (n2 - n1).norm_squared() > normal_tolerance
+                || (n3 - n2).norm_squared() > normal_tolerance
         }
     } || {
-        let sn1 = surface.normal_at(p1.x, p1.y);
-        let sn2 = surface.normal_at(p2.x, p2.y);
-        let sn3 = surface.normal_at(p3.x, p3.y);
-        let diff = sn2 - sn1;
-        let diff2 = sn3 - sn2;
-        (diff - diff2).norm() > normal_tolerance
+        let [sn1, sn2, sn3] = [p1, p2, p3].map(|p| evaluate_surface(surface, p.coords).normal);
+        (sn2 - sn1).norm_squared() > normal_tolerance
+            || (sn3 - sn2).norm_squared() > normal_tolerance
     };
     if flag {
         let mut left_pts =
-- 
2.43.0


From a18776189572ff529bc8cd8cf3912f726fb107ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 37/55] fix: no frames for no parameters instead of a panic

---
 src/curve/nurbs_curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 2add5dc..96540b5 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1922,6 +1922,9 @@ impl<T: FloatingPoint> NurbsCurve3D<T> {
             .iter()
             .map(|u| self.tangent_at(*u).normalize())
             .collect();
+        if tangents.is_empty() {
+            return vec![];
+        }
         let mut normals = vec![Vector3::zeros()];
         let mut binormals = vec![Vector3::zeros()];
 
-- 
2.43.0


From 45c064b841b3a034e19c3ef7e8e9775d481643bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 38/55] fix: deserialization of a trimmed surface dropped a
 malformed exterior

---
 src/surface/trimmed_surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index d84a1aa..e9c758b 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -312,7 +312,7 @@ where
                             if exterior.is_some() {
                                 return Err(de::Error::duplicate_field("exterior"));
                             }
-                            exterior = map.next_value().ok();
+                            exterior = Some(map.next_value()?);
                         }
                         Field::Interiors => {
                             if interiors.is_some() {
@@ -325,7 +325,7 @@ where
 
                 Ok(Self::Value {
                     surface: surface.ok_or_else(|| de::Error::missing_field("surface"))?,
-                    exterior,
+                    exterior: exterior.unwrap_or_default(),
                     interiors: interiors.ok_or_else(|| de::Error::missing_field("interiors"))?,
                 })
             }
-- 
2.43.0


From b5950e203df3566a1cef41c6abb89ba7b74ae41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 39/55] fix: deserialization accepted curves and surfaces that
 can not be evaluated

Control points, degrees and knots which do not match, and compound curves
without spans, are refused like the constructors do.
---
 src/curve/nurbs_curve.rs     | 12 +++++-------
 src/region/compound_curve.rs |  6 +++++-
 src/surface/nurbs_surface.rs | 29 ++++++++++++++++++++++++-----
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 96540b5..d8fa1ae 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2415,16 +2415,14 @@ where
                         }
                     }
                 }
-                let control_points =
+                let control_points: Vec<OPoint<T, D>> =
                     control_points.ok_or_else(|| de::Error::missing_field("control_points"))?;
                 let degree = degree.ok_or_else(|| de::Error::missing_field("degree"))?;
-                let knots = knots.ok_or_else(|| de::Error::missing_field("knots"))?;
+                let knots: KnotVector<T> =
+                    knots.ok_or_else(|| de::Error::missing_field("knots"))?;
 
-                Ok(Self::Value {
-                    control_points,
-                    degree,
-                    knots,
-                })
+                NurbsCurve::try_new(degree, control_points, knots.to_vec())
+                    .map_err(de::Error::custom)
             }
         }
 
diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 21a2f3a..1c47fd3 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -393,7 +393,11 @@ where
                         }
                     }
                 }
-                let spans = spans.ok_or_else(|| de::Error::missing_field("spans"))?;
+                let spans: Vec<NurbsCurve<T, D>> =
+                    spans.ok_or_else(|| de::Error::missing_field("spans"))?;
+                if spans.is_empty() {
+                    return Err(de::Error::invalid_length(0, &"at least one span"));
+                }
 
                 Ok(Self::Value { spans })
             }
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 2683c76..f7f688d 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1688,12 +1688,31 @@ where
                         }
                     }
                 }
-                let control_points =
+                let control_points: Vec<Vec<OPoint<T, D>>> =
                     control_points.ok_or_else(|| de::Error::missing_field("control_points"))?;
-                let u_degree = u_degree.ok_or_else(|| de::Error::missing_field("u_degree"))?;
-                let v_degree = v_degree.ok_or_else(|| de::Error::missing_field("v_degree"))?;
-                let u_knots = u_knots.ok_or_else(|| de::Error::missing_field("u_knots"))?;
-                let v_knots = v_knots.ok_or_else(|| de::Error::missing_field("v_knots"))?;
+                let u_degree: usize =
+                    u_degree.ok_or_else(|| de::Error::missing_field("u_degree"))?;
+                let v_degree: usize =
+                    v_degree.ok_or_else(|| de::Error::missing_field("v_degree"))?;
+                let u_knots: KnotVector<T> =
+                    u_knots.ok_or_else(|| de::Error::missing_field("u_knots"))?;
+                let v_knots: KnotVector<T> =
+                    v_knots.ok_or_else(|| de::Error::missing_field("v_knots"))?;
+
+                let (nu, nv) = (
+                    control_points.len(),
+                    control_points.first().map_or(0, |row| row.len()),
+                );
+                if nu <= u_degree
+                    || nv <= v_degree
+                    || control_points.iter().any(|row| row.len() != nv)
+                    || u_knots.len() != nu + u_degree + 1
+                    || v_knots.len() != nv + v_degree + 1
+                {
+                    return Err(de::Error::custom(
+                        "The control points, degrees and knots of the surface do not match",
+                    ));
+                }
 
                 Ok(Self::Value {
                     control_points,
-- 
2.43.0


From d02d1263b978731b37be286807f04a795809580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 40/55] fix: divisions of long, short and single precision
 curves lost or misplaced points

---
 src/curve/nurbs_curve.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index d8fa1ae..22da022 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -503,6 +503,8 @@ where
 
         let mut acc_length = T::zero();
 
+        let eps = length_epsilon(length).max(T::default_epsilon());
+
         for segment in segments {
             let (_, end) = segment.knots_domain();
             let segment_length = compute_bezier_segment_length(&segment, end, &gauss);
@@ -510,7 +512,7 @@ where
             let l = length - acc_length;
             acc_length += segment_length;
 
-            if length <= acc_length + T::default_epsilon() {
+            if length <= acc_length + eps {
                 let p = compute_bezier_segment_parameter_at_length(
                     &segment,
                     l,
@@ -562,7 +564,7 @@ where
             .collect::<anyhow::Result<Vec<_>>>()?;
         let total = lengthes.iter().fold(T::zero(), |a, b| a + *b);
 
-        let eps = T::from_f64(1e-6).unwrap();
+        let eps = length_epsilon(total).min(length * T::from_f64(0.5).unwrap());
 
         anyhow::ensure!(
             total + eps > length,
@@ -580,7 +582,7 @@ where
         let mut acc_prev = T::zero();
 
         let gauss = GaussLegendre::new(16 + self.degree)?;
-        let tolerance = T::from_f64(1e-3 * 2.5).unwrap();
+        let tolerance = T::from_f64(1e-3 * 2.5).unwrap() * length.min(T::one());
 
         while i < segments.len() {
             let current_length = lengthes[i];
@@ -595,7 +597,7 @@ where
                     &gauss,
                 );
                 samples.push(CurveLengthParameter::new(u, lc));
-                lc += length;
+                lc = length * T::from_usize(samples.len()).unwrap();
             }
 
             acc_prev += current_length;
@@ -1979,6 +1981,12 @@ impl<T: FloatingPoint> NurbsCurve3D<T> {
     }
 }
 
+/// The difference between lengths which are the same up to numerical errors, which grow with them
+fn length_epsilon<T: FloatingPoint>(length: T) -> T {
+    let eps = T::default_epsilon() * T::from_f64(16.).unwrap();
+    length * eps.max(T::from_f64(1e-6).unwrap())
+}
+
 /// Find the curve parameter at arc length on a Bezier segment of a NURBS curve
 /// by binary search
 fn compute_bezier_segment_parameter_at_length<T: FloatingPoint, D>(
-- 
2.43.0


From 81643c6ee5f6babcf80238ed47c797d357274605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 41/55] fix: unsorted knots and knots outside of the knot
 vector broke the refined curve

---
 src/curve/nurbs_curve.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 22da022..91a2556 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1,3 +1,4 @@
+use std::cmp::Ordering;
 use std::f64::consts::{FRAC_PI_2, TAU};
 use std::vec;
 
@@ -1574,6 +1575,17 @@ where
             return Ok(());
         }
 
+        let (first, last) = (self.knots.first(), self.knots.last());
+        anyhow::ensure!(
+            knots_to_insert.iter().all(|k| first <= *k && *k <= last),
+            "The knots to insert must be between the first and the last knot: {} - {}",
+            first,
+            last
+        );
+
+        let mut knots_to_insert = knots_to_insert;
+        knots_to_insert.sort_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
+
         let degree = self.degree;
         let control_points = &self.control_points;
 
-- 
2.43.0


From dd1b79cf69d992d9e89add82dbaeda02a6575914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 42/55] fix: invalid input gave panics and curves without
 numbers instead of errors

---
 src/curve/nurbs_curve.rs     | 20 +++++++++++++++++---
 src/surface/nurbs_surface.rs |  8 ++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 91a2556..4e870dd 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -90,9 +90,13 @@ where
             knots.len(),
             control_points.len() + degree + 1
         );
+        anyhow::ensure!(
+            knots.iter().all(|k| k.is_finite()),
+            "The knots must be finite"
+        );
 
         let mut knots = knots.clone();
-        knots.sort_by(|a, b| a.partial_cmp(b).unwrap());
+        knots.sort_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
 
         Ok(Self {
             degree,
@@ -216,7 +220,7 @@ where
     {
         let mut points = vec![];
         let us = T::from_usize(samples).unwrap();
-        let step = (end - start) / (us - T::one());
+        let step = (end - start) / (us - T::one()).max(T::one());
         for i in 0..samples {
             let t = start + T::from_usize(i).unwrap() * step;
             points.push(self.point_at(t));
@@ -239,7 +243,7 @@ where
     {
         let mut points = vec![];
         let us = T::from_usize(samples).unwrap();
-        let step = (end - start) / (us - T::one());
+        let step = (end - start) / (us - T::one()).max(T::one());
         for i in 0..samples {
             let t = start + T::from_usize(i).unwrap() * step;
             points.push((t, self.point_at(t)));
@@ -924,6 +928,12 @@ where
     {
         let x_radius = x_axis.norm();
         let y_radius = y_axis.norm();
+        anyhow::ensure!(
+            [x_radius, y_radius]
+                .iter()
+                .all(|r| *r > T::zero() && r.is_finite()),
+            "The axes and radii must be finite and not zero"
+        );
 
         let x_axis = x_axis.normalize();
         let y_axis = y_axis.normalize();
@@ -936,6 +946,7 @@ where
         );
 
         let theta = end_angle - start_angle;
+        anyhow::ensure!(theta.is_finite(), "The angles must be finite");
 
         let arcs = (theta / T::from_f64(FRAC_PI_2).unwrap()).floor().to_usize();
         let arcs = arcs.unwrap_or(1).clamp(1, 4);
@@ -2145,6 +2156,7 @@ pub(crate) fn try_interpolate_control_points_at<T: FloatingPoint>(
     homogeneous: bool,
 ) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
     let n = points.len();
+    anyhow::ensure!(degree > 0, "The degree must be greater than zero");
     if n < degree + 1 {
         anyhow::bail!("Too few control points for curve");
     }
@@ -2198,6 +2210,7 @@ pub fn try_periodic_interpolate_control_points<T: FloatingPoint>(
     homogeneous: bool,
 ) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
     let n = points.len();
+    anyhow::ensure!(degree > 0, "The degree must be greater than zero");
     if n < degree + 1 {
         anyhow::bail!("Too few control points for curve");
     }
@@ -2293,6 +2306,7 @@ fn try_solve_interpolation<T: FloatingPoint>(
         let b = DVector::from_vec(b);
         // println!("b = {:?}", &b);
         let xs = lu.solve(&b).ok_or(anyhow::anyhow!("Solve failed"))?;
+        anyhow::ensure!(xs.iter().all(|x| x.is_finite()), "Solve failed");
         for j in 0..rows {
             m_x[(j, i)] = xs[j];
         }
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index f7f688d..dc9e2b0 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -676,6 +676,10 @@ where
         D: DimNameAdd<U1>,
         DefaultAllocator: Allocator<DimNameSum<D, U1>>,
     {
+        anyhow::ensure!(
+            curves.len() > 1,
+            "At least two curves are required for lofting"
+        );
         let unified_curves = try_unify_curve_knot_vectors(curves)?;
 
         let degree_u = unified_curves[0].degree();
@@ -1175,6 +1179,10 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
         theta: T,
     ) -> anyhow::Result<Self> {
         let axis = &axis.normalize();
+        anyhow::ensure!(
+            theta.is_finite() && axis.iter().all(|x| x.is_finite()),
+            "The axis must not be zero and the angle must be finite"
+        );
         let prof_points = profile.dehomogenized_control_points();
         let prof_weights = profile.weights();
 
-- 
2.43.0


From bcb46591241519d589af625fff1f20b6f1315db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 43/55] fix: the search for intersections went uphill and lost
 crossings

---
 src/intersects/curve_curve/curve_intersection_bfgs.rs    | 9 +++++++--
 .../surface_curve/surface_curve_intersection_bfgs.rs     | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/intersects/curve_curve/curve_intersection_bfgs.rs b/src/intersects/curve_curve/curve_intersection_bfgs.rs
index b4cac00..9ecb424 100644
--- a/src/intersects/curve_curve/curve_intersection_bfgs.rs
+++ b/src/intersects/curve_curve/curve_intersection_bfgs.rs
@@ -93,11 +93,16 @@ where
             None => problem.gradient(x0)?,
         };
 
-        let h0 = state.get_hessian().cloned().unwrap_or(Matrix2::identity());
+        let mut h0 = state.get_hessian().cloned().unwrap_or(Matrix2::identity());
         // println!("cost: {:?}, hessian: {:?}", &f0, &h0);
 
         // line search
-        let step = -h0 * g0;
+        let mut step = -h0 * g0;
+        if g0.dot(&step) >= F::zero() {
+            // the approximated hessian is not positive definite, restart from the steepest descent
+            h0 = Matrix2::identity();
+            step = -g0;
+        }
 
         let norm = step.norm();
         // println!("norm: {}", norm);
diff --git a/src/intersects/surface_curve/surface_curve_intersection_bfgs.rs b/src/intersects/surface_curve/surface_curve_intersection_bfgs.rs
index 77d1015..afb17de 100644
--- a/src/intersects/surface_curve/surface_curve_intersection_bfgs.rs
+++ b/src/intersects/surface_curve/surface_curve_intersection_bfgs.rs
@@ -97,10 +97,15 @@ where
             None => problem.gradient(x0)?,
         };
 
-        let h0 = state.get_hessian().cloned().unwrap_or(Matrix3::identity());
+        let mut h0 = state.get_hessian().cloned().unwrap_or(Matrix3::identity());
 
         // line search
-        let step = -h0 * g0;
+        let mut step = -h0 * g0;
+        if g0.dot(&step) >= F::zero() {
+            // the approximated hessian is not positive definite, restart from the steepest descent
+            h0 = Matrix3::identity();
+            step = -g0;
+        }
 
         let norm = step.norm();
         // println!("norm: {}", norm);
-- 
2.43.0


From 31df5340ea5a602996fd0e7bda13a950fa800d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 44/55] fix: crossings at the border of a surface and at the
 ends of a curve were dropped

---
 .../intersection_surface_curve.rs             | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/intersects/surface_curve/intersection_surface_curve.rs b/src/intersects/surface_curve/intersection_surface_curve.rs
index 2db60c2..f2da031 100644
--- a/src/intersects/surface_curve/intersection_surface_curve.rs
+++ b/src/intersects/surface_curve/intersection_surface_curve.rs
@@ -75,8 +75,6 @@ where
         let tb = CurveBoundingBoxTree::new(other, Some(other.knots_domain_interval() * div));
 
         let traversed = BoundingBoxTraversal::try_traverse(ta, tb)?;
-        let (surface_u_domain, surface_v_domain) = self.knots_domain();
-        let curve_domain = other.knots_domain();
 
         let intersections = traversed
             .into_pairs_iter()
@@ -116,20 +114,15 @@ where
                 match res {
                     Ok(r) => {
                         // println!("{}", r.state().get_termination_status());
-                        r.state().get_best_param().and_then(|param| {
-                            if (surface_u_domain.0..=surface_u_domain.1).contains(&param.y)
-                                && (surface_v_domain.0..=surface_v_domain.1).contains(&param.z)
-                                && (curve_domain.0..=curve_domain.1).contains(&param.x)
-                            {
-                                let p0 = self.point_at(param.y, param.z);
-                                let p1 = other.point_at(param.x);
-                                Some(SurfaceCurveIntersection::new(
-                                    (p0, (param.y, param.z)),
-                                    (p1, param.x),
-                                ))
-                            } else {
-                                None
-                            }
+                        r.state().get_best_param().map(|param| {
+                            // the solution for an intersection at the border of the surface or
+                            // at the end of the curve may lie slightly out of the domains
+                            let u = self.u_knots().clamp(self.u_degree(), param.y);
+                            let v = self.v_knots().clamp(self.v_degree(), param.z);
+                            let t = other.knots().clamp(other.degree(), param.x);
+                            let p0 = self.point_at(u, v);
+                            let p1 = other.point_at(t);
+                            SurfaceCurveIntersection::new((p0, (u, v)), (p1, t))
                         })
                     }
                     Err(_e) => {
-- 
2.43.0


From 69bb55d60c86180824d3f8bd276b55d5a4ef0da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 45/55] fix: an arc just short of a half turn failed or left
 its circle

---
 src/curve/nurbs_curve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 4e870dd..a1776a1 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -948,7 +948,11 @@ where
         let theta = end_angle - start_angle;
         anyhow::ensure!(theta.is_finite(), "The angles must be finite");
 
-        let arcs = (theta / T::from_f64(FRAC_PI_2).unwrap()).floor().to_usize();
+        // an arc just short of a half turn must not be a single segment,
+        // because the tangents at its ends meet far away or not at all
+        let arcs = (theta / T::from_f64(FRAC_PI_2).unwrap() + T::from_f64(0.1).unwrap())
+            .floor()
+            .to_usize();
         let arcs = arcs.unwrap_or(1).clamp(1, 4);
         let dtheta = theta / T::from_usize(arcs).unwrap();
         let w1 = (dtheta / T::from_f64(2.0).unwrap()).cos();
-- 
2.43.0


From ab2b230d39d96e48a95426124038fc4068d5586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:18 +0000
Subject: [PATCH 46/55] fix: elevating the degree of an unclamped curve
 panicked

---
 src/curve/nurbs_curve.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index a1776a1..e75989d 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1108,10 +1108,16 @@ where
             return Ok(self.clone());
         }
 
-        let n = self.knots.len() - self.degree - 2;
+        // the elevation below requires full multiplicities at both ends
+        let mut clamped = self.clone();
+        if !clamped.is_clamped() {
+            clamped.try_clamp_to_domain()?;
+        }
+
+        let n = clamped.knots.len() - self.degree - 2;
         let new_degree = self.degree;
-        let knots = &self.knots;
-        let control_points = &self.control_points;
+        let knots = &clamped.knots;
+        let control_points = &clamped.control_points;
         let degree_inc = target_degree - self.degree;
 
         //intermediate values
-- 
2.43.0


From d62c56d2481fd4b0875fb48cd83d7f42c9a9e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:18 +0000
Subject: [PATCH 47/55] fix: singular periodic interpolation gave curves that
 miss their points

---
 src/curve/nurbs_curve.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index e75989d..6295584 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2308,7 +2308,7 @@ fn try_solve_interpolation<T: FloatingPoint>(
     let n = points.len();
     let dim = points[0].len();
 
-    let lu = m_a.lu();
+    let lu = m_a.clone().lu();
     let mut m_x = DMatrix::<T>::identity(n, dim);
     let rows = m_x.nrows();
     for i in 0..dim {
@@ -2317,6 +2317,12 @@ fn try_solve_interpolation<T: FloatingPoint>(
         // println!("b = {:?}", &b);
         let xs = lu.solve(&b).ok_or(anyhow::anyhow!("Solve failed"))?;
         anyhow::ensure!(xs.iter().all(|x| x.is_finite()), "Solve failed");
+        // a singular problem has a solution only up to rounding errors, which misses the points
+        let magnitude = b.amax();
+        anyhow::ensure!(
+            (&m_a * &xs - &b).amax() <= magnitude * T::default_epsilon().sqrt(),
+            "Solve failed"
+        );
         for j in 0..rows {
             m_x[(j, i)] = xs[j];
         }
-- 
2.43.0


From 11c5020242f35f51c0d5cec01b6a43b5319a9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 48/55] fix: a knot repeated at an end of the domain of an
 unclamped curve gave points without numbers

---
 src/knot/knot_vector.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/knot/knot_vector.rs b/src/knot/knot_vector.rs
index e69dede..8f42c5b 100644
--- a/src/knot/knot_vector.rs
+++ b/src/knot/knot_vector.rs
@@ -143,6 +143,10 @@ impl<T: RealField + Copy> KnotVector<T> {
         while span < n && u >= self.0[span] {
             span += 1;
         }
+        // the last span may be empty if the knot at the end of the domain is repeated
+        while span > degree + 1 && self.0[span - 1] >= self.0[span] {
+            span -= 1;
+        }
         span - 1
     }
 
@@ -156,12 +160,21 @@ impl<T: RealField + Copy> KnotVector<T> {
     /// assert_eq!(idx, 4);
     /// ```
     pub fn find_knot_span_index(&self, n: usize, degree: usize, u: T) -> usize {
-        if u > self[n + 1] - T::default_epsilon() {
-            return n;
+        // skip empty spans if the knots at the ends of the domain are repeated
+        if u >= self[n + 1] - T::default_epsilon() {
+            let mut last = n;
+            while last > degree && self[last] >= self[last + 1] {
+                last -= 1;
+            }
+            return last;
         }
 
-        if u < self[degree] + T::default_epsilon() {
-            return degree;
+        if u <= self[degree] + T::default_epsilon() {
+            let mut first = degree;
+            while first < n && self[first] >= self[first + 1] {
+                first += 1;
+            }
+            return first;
         }
 
         // binary search
@@ -311,16 +324,17 @@ impl<T: RealField + Copy> KnotVector<T> {
         degree: usize,
         divs: usize,
     ) -> (Vec<usize>, Vec<Vec<T>>) {
-        let (start, _end, span, n) = self.regularly_spaced_span(degree, divs);
+        let (start, end, span, n) = self.regularly_spaced_span(degree, divs);
 
         let mut bases = vec![];
         let mut knot_spans = vec![];
         let mut u = start;
         let mut knot_index = self.find_knot_span_index(n, degree, u);
+        let last_index = self.find_knot_span_index(n, degree, end);
 
         // compute all of the basis functions
         for _i in 0..=divs {
-            while u >= self[knot_index + 1] && knot_index < n {
+            while u >= self[knot_index + 1] && knot_index < last_index {
                 knot_index += 1;
             }
             knot_spans.push(knot_index);
@@ -338,16 +352,17 @@ impl<T: RealField + Copy> KnotVector<T> {
         degree: usize,
         divs: usize,
     ) -> (Vec<usize>, Vec<Vec<Vec<T>>>) {
-        let (start, _end, span, n) = self.regularly_spaced_span(degree, divs);
+        let (start, end, span, n) = self.regularly_spaced_span(degree, divs);
 
         let mut bases = vec![];
         let mut knot_spans = vec![];
         let mut u = start;
         let mut knot_index = self.find_knot_span_index(n, degree, u);
+        let last_index = self.find_knot_span_index(n, degree, end);
 
         // compute all of the basis functions
         for _i in 0..=divs {
-            while u >= self[knot_index + 1] && knot_index < n {
+            while u >= self[knot_index + 1] && knot_index < last_index {
                 knot_index += 1;
             }
             knot_spans.push(knot_index);
-- 
2.43.0


From 973bbfd371bd1f1a4c57af06b466041c24d77660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 49/55] fix: intersections of a surface with a curve on a short
 domain were merged

---
 src/intersects/surface_curve/intersection_surface_curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/intersects/surface_curve/intersection_surface_curve.rs b/src/intersects/surface_curve/intersection_surface_curve.rs
index f2da031..c3831da 100644
--- a/src/intersects/surface_curve/intersection_surface_curve.rs
+++ b/src/intersects/surface_curve/intersection_surface_curve.rs
@@ -146,7 +146,9 @@ where
             .collect_vec();
 
         // group near parameter results & extract the closest one in each group
-        let parameter_minimum_distance = T::from_f64(1e-3).unwrap();
+        // (relative to the domain of a curve which is shorter than one)
+        let parameter_minimum_distance =
+            T::from_f64(1e-3).unwrap() * Float::min(other.knots_domain_interval(), T::one());
         let groups = sorted
             .into_iter()
             .map(|pt| vec![pt])
-- 
2.43.0


From 6bbea76de840d326b1e596231a2fcbb7633b9052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 50/55] fix: crossings of curves on short domains were taken
 for degenerate ones

---
 src/boolean/degeneracies.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/boolean/degeneracies.rs b/src/boolean/degeneracies.rs
index c1de22b..6041a5d 100644
--- a/src/boolean/degeneracies.rs
+++ b/src/boolean/degeneracies.rs
@@ -19,13 +19,17 @@ impl<T: FloatingPoint> Degeneracy<T> {
         a: &NurbsCurve<T, Const<3>>,
         b: &NurbsCurve<T, Const<3>>,
     ) -> Self {
-        let parameter_eps = T::from_f64(1e-4).unwrap();
+        // relative to the domain of a curve which is shorter than one
+        let parameter_eps = |curve: &NurbsCurve<T, Const<3>>| {
+            T::from_f64(1e-4).unwrap() * curve.knots_domain_interval().min(T::one())
+        };
+        let (a_eps, b_eps) = (parameter_eps(a), parameter_eps(b));
         let collinear_dot_threshold = T::from_f64(0.9975).unwrap();
-        let a0 = a.point_at(it.a_parameter() - parameter_eps);
-        let a1 = a.point_at(it.a_parameter() + parameter_eps);
+        let a0 = a.point_at(it.a_parameter() - a_eps);
+        let a1 = a.point_at(it.a_parameter() + a_eps);
         let la = Line::new(a0, a1);
-        let b0 = b.point_at(it.b_parameter() - parameter_eps);
-        let b1 = b.point_at(it.b_parameter() + parameter_eps);
+        let b0 = b.point_at(it.b_parameter() - b_eps);
+        let b1 = b.point_at(it.b_parameter() + b_eps);
         let lb = Line::new(b0, b1);
         let intersected = la.intersects(&lb);
         if !intersected {
-- 
2.43.0


From d66be8c3dce0fca1f82fda0e6d24146015155e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 51/55] fix: intersections of curves on short domains were
 merged

---
 .../intersection_compound_curve.rs            | 20 +++++++++++++------
 .../curve_curve/intersection_curve_curve.rs   | 15 +++++++++-----
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_compound_curve.rs b/src/intersects/curve_curve/intersection_compound_curve.rs
index 747e4fb..0e90e03 100644
--- a/src/intersects/curve_curve/intersection_compound_curve.rs
+++ b/src/intersects/curve_curve/intersection_compound_curve.rs
@@ -44,7 +44,11 @@ where
             .collect();
 
         let mut res = res?;
-        let eps = T::from_f64(1e-2).unwrap();
+
+        // relative to the domain of a span which is shorter than one
+        let eps = |span: &NurbsCurve<T, D>| {
+            T::from_f64(1e-2).unwrap() * Float::min(span.knots_domain_interval(), T::one())
+        };
 
         (0..res.len()).circular_tuple_windows().for_each(|(a, b)| {
             // the last span of an open curve is not connected to the first one
@@ -57,7 +61,7 @@ where
                         // cull the last point in res[a] if it is too close to the first point in res[b]
                         let da = Float::abs(ia.a().0.knots_domain().1 - ia.a().2);
                         let db = Float::abs(ib.a().0.knots_domain().0 - ib.a().2);
-                        da < eps && db < eps
+                        da < eps(&ia.a().0) && db < eps(&ib.a().0)
                     }
                     _ => false,
                 };
@@ -95,7 +99,8 @@ where
             .collect();
 
         let mut res = res?;
-        let eps = T::from_f64(1e-2).unwrap();
+        // relative to the domain of a curve which is shorter than one
+        let eps = |interval: T| T::from_f64(1e-2).unwrap() * Float::min(interval, T::one());
         let interval = match (self.spans().first(), self.spans().last()) {
             (Some(first), Some(last)) => last.knots_domain().1 - first.knots_domain().0,
             _ => T::zero(),
@@ -109,12 +114,15 @@ where
             if a != b && connected {
                 let mut at_end = std::mem::take(&mut res[a]);
                 at_end.retain(|ia| {
-                    let is_end = Float::abs(ia.b().0.knots_domain().1 - ia.b().2) < eps;
+                    let is_end = Float::abs(ia.b().0.knots_domain().1 - ia.b().2)
+                        < eps(ia.b().0.knots_domain_interval());
                     !is_end
                         || !res[b].iter().any(|ib| {
-                            let is_start = Float::abs(ib.b().0.knots_domain().0 - ib.b().2) < eps;
+                            let is_start = Float::abs(ib.b().0.knots_domain().0 - ib.b().2)
+                                < eps(ib.b().0.knots_domain_interval());
                             let d = Float::abs(ia.a().2 - ib.a().2);
-                            is_start && (d < eps || (closed && interval - d < eps))
+                            is_start
+                                && (d < eps(interval) || (closed && interval - d < eps(interval)))
                         })
                 });
                 res[a] = at_end;
diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index 2542d4c..76d2583 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -166,7 +166,12 @@ where
         // println!("sorted: {:?}", sorted.iter().map(|it| it.a()).collect_vec());
 
         // group near parameter results & extract the closest one in each group
-        let parameter_minimum_distance = T::from_f64(1e-3).unwrap();
+        // (relative to the domain of a curve which is shorter than one)
+        let parameter_minimum_distance = |curve: &NurbsCurve<T, D>| {
+            T::from_f64(1e-3).unwrap() * Float::min(curve.knots_domain_interval(), T::one())
+        };
+        let a_minimum_distance = parameter_minimum_distance(self);
+        let b_minimum_distance = parameter_minimum_distance(other);
         let mut groups = sorted
             .into_iter()
             .map(|pt| vec![pt])
@@ -175,7 +180,7 @@ where
                 let y0 = &y[y.len() - 1];
                 let da = Float::abs(x0.a().1 - y0.a().1);
                 let db = Float::abs(x0.b().1 - y0.b().1);
-                if da < parameter_minimum_distance || db < parameter_minimum_distance {
+                if da < a_minimum_distance || db < b_minimum_distance {
                     // merge near parameter results
                     let group = [x, y].concat();
                     Ok(group)
@@ -191,9 +196,9 @@ where
         if groups.len() > 1 && self.is_closed() {
             let first = groups[0][0].a().1;
             let last = groups[groups.len() - 1].last().map(|it| it.a().1);
-            if last.is_some_and(|last| {
-                (a_domain.1 - last) + (first - a_domain.0) < parameter_minimum_distance
-            }) {
+            if last
+                .is_some_and(|last| (a_domain.1 - last) + (first - a_domain.0) < a_minimum_distance)
+            {
                 if let Some(group) = groups.pop() {
                     groups[0].extend(group);
                 }
-- 
2.43.0


From cdbc4cea802c140037ae4ea76e188f29fdd1c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:30 +0000
Subject: [PATCH 52/55] fix: rounding errors reversed the order of the two
 halves of a closed curve

---
 src/region/curve_direction.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/region/curve_direction.rs b/src/region/curve_direction.rs
index a621562..eed44f7 100644
--- a/src/region/curve_direction.rs
+++ b/src/region/curve_direction.rs
@@ -35,9 +35,14 @@ impl CurveDirection {
             ((&a0 - &b0).norm(), Self::Opposite),
         ];
 
-        directions
+        let min = directions
             .iter()
-            .min_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(Ordering::Equal))
-            .and_then(|min| if min.0 < epsilon { Some(min.1) } else { None })
+            .map(|d| d.0)
+            .min_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal))
+            .filter(|min| *min < epsilon)?;
+
+        // two curves may join at both of their ends: rounding errors should not choose between them
+        let tolerance = min + epsilon * epsilon;
+        directions.iter().find(|d| d.0 <= tolerance).map(|d| d.1)
     }
 }
-- 
2.43.0


From efac6bd0922886dfc06a719acee85d608f30369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:14 +0000
Subject: [PATCH 53/55] fix: a revolution by a negative angle failed or had
 negative weights

---
 src/surface/nurbs_surface.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index dc9e2b0..47556d8 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1187,15 +1187,17 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
         let prof_weights = profile.weights();
 
         let two = T::from_f64(2.0).unwrap();
-        let (narcs, mut u_knots) = if theta <= T::pi() / two {
+        // a revolution by a negative angle needs as many arcs as the other way around
+        let angle = theta.abs();
+        let (narcs, mut u_knots) = if angle <= T::pi() / two {
             (1, vec![T::zero(); 6])
-        } else if theta <= T::pi() {
+        } else if angle <= T::pi() {
             let mut knots = vec![T::zero(); 6 + 2];
             let half = T::from_f64(0.5).unwrap();
             knots[3] = half;
             knots[4] = half;
             (2, knots)
-        } else if theta <= T::from_f64(3.0).unwrap() * T::pi() / two {
+        } else if angle <= T::from_f64(3.0).unwrap() * T::pi() / two {
             let mut knots = vec![T::zero(); 6 + 2 * 2];
             let frac_three = T::from_f64(1.0 / 3.0).unwrap();
             let two_frac_three = T::from_f64(2.0 / 3.0).unwrap();
-- 
2.43.0


From aca7170fe5ff547f08dd32adddc48f5fb3cb351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:42 +0000
Subject: [PATCH 54/55] fix: take the most transversal degenerate intersection
 as the missing crossing

---
 src/boolean/clip.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/boolean/clip.rs b/src/boolean/clip.rs
index 4778f0c..9a8e904 100644
--- a/src/boolean/clip.rs
+++ b/src/boolean/clip.rs
@@ -125,10 +125,13 @@ where
     let intersections = if regular.len() % 2 == 0 {
         regular
     } else {
+        // the most transversal one is a shallow crossing rather than a touch
         let max = deg.into_iter().max_by(|x, y| match (x.1, y.1) {
             (Degeneracy::Angle(x), Degeneracy::Angle(y)) => {
-                x.partial_cmp(&y).unwrap_or(Ordering::Equal)
+                y.partial_cmp(&x).unwrap_or(Ordering::Equal)
             }
+            (Degeneracy::Angle(_), _) => Ordering::Greater,
+            (_, Degeneracy::Angle(_)) => Ordering::Less,
             _ => Ordering::Equal,
         });
         match max {
-- 
2.43.0


From 85f7171aa7e5d75fdf40df1dd2d9354561006d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:33 +0000
Subject: [PATCH 55/55] fix: keep crossings at small angles in boolean
 operations

---
 src/boolean/clip.rs         | 21 ++++++++++++++++++++-
 src/boolean/degeneracies.rs | 32 +++++++++++++++++++++++++++++---
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/boolean/clip.rs b/src/boolean/clip.rs
index 9a8e904..ffa874a 100644
--- a/src/boolean/clip.rs
+++ b/src/boolean/clip.rs
@@ -121,7 +121,26 @@ where
         .into_iter()
         .partition(|(_, deg)| matches!(deg, Degeneracy::None));
 
-    let regular = regular.into_iter().map(|(it, _)| it).collect_vec();
+    // crossings at small angles, the most tangential one comes last
+    let (mut shallow, deg): (Vec<_>, Vec<_>) = deg
+        .into_iter()
+        .partition(|(_, deg)| matches!(deg, Degeneracy::ShallowAngle(_)));
+    shallow.sort_by(|x, y| match (x.1, y.1) {
+        (Degeneracy::ShallowAngle(x), Degeneracy::ShallowAngle(y)) => {
+            x.partial_cmp(&y).unwrap_or(Ordering::Equal)
+        }
+        _ => Ordering::Equal,
+    });
+    if (regular.len() + shallow.len()) % 2 == 1 {
+        // one of two crossings next to each other is missing
+        shallow.pop();
+    }
+
+    let regular = regular
+        .into_iter()
+        .chain(shallow)
+        .map(|(it, _)| it)
+        .collect_vec();
     let intersections = if regular.len() % 2 == 0 {
         regular
     } else {
diff --git a/src/boolean/degeneracies.rs b/src/boolean/degeneracies.rs
index 6041a5d..4f40ad1 100644
--- a/src/boolean/degeneracies.rs
+++ b/src/boolean/degeneracies.rs
@@ -1,4 +1,5 @@
-use nalgebra::{ComplexField, Const};
+use argmin::core::ArgminFloat;
+use nalgebra::{ComplexField, Const, RealField};
 
 use crate::{
     curve::NurbsCurve,
@@ -9,11 +10,13 @@ use crate::{
 #[derive(Debug, Clone, Copy, PartialEq)]
 pub enum Degeneracy<T: FloatingPoint> {
     Angle(T),
+    /// The curves cross each other at a small angle
+    ShallowAngle(T),
     LineIntersection,
     None,
 }
 
-impl<T: FloatingPoint> Degeneracy<T> {
+impl<T: FloatingPoint + ArgminFloat> Degeneracy<T> {
     pub fn new<I: HasIntersectionParameter<T, T>>(
         it: &I,
         a: &NurbsCurve<T, Const<3>>,
@@ -21,7 +24,7 @@ impl<T: FloatingPoint> Degeneracy<T> {
     ) -> Self {
         // relative to the domain of a curve which is shorter than one
         let parameter_eps = |curve: &NurbsCurve<T, Const<3>>| {
-            T::from_f64(1e-4).unwrap() * curve.knots_domain_interval().min(T::one())
+            T::from_f64(1e-4).unwrap() * RealField::min(curve.knots_domain_interval(), T::one())
         };
         let (a_eps, b_eps) = (parameter_eps(a), parameter_eps(b));
         let collinear_dot_threshold = T::from_f64(0.9975).unwrap();
@@ -42,6 +45,8 @@ impl<T: FloatingPoint> Degeneracy<T> {
             let dot = ComplexField::abs(ta.dot(&tb));
             if dot < collinear_dot_threshold {
                 Degeneracy::None
+            } else if crosses(it, a, b) {
+                Degeneracy::ShallowAngle(dot)
             } else {
                 Degeneracy::Angle(dot)
             }
@@ -49,6 +54,27 @@ impl<T: FloatingPoint> Degeneracy<T> {
     }
 }
 
+/// Returns true if the curve `a` passes from one side of the curve `b` to the other at the intersection.
+fn crosses<T: FloatingPoint + ArgminFloat, I: HasIntersectionParameter<T, T>>(
+    it: &I,
+    a: &NurbsCurve<T, Const<3>>,
+    b: &NurbsCurve<T, Const<3>>,
+) -> bool {
+    let eps = T::from_f64(1e-3).unwrap() * RealField::min(a.knots_domain_interval(), T::one());
+    let side = |t: T| {
+        let p = a.point_at(t);
+        b.find_closest_parameter(&p).map(|u| {
+            let tangent = b.tangent_at(u);
+            let delta = p - b.point_at(u);
+            tangent.x * delta.y - tangent.y * delta.x
+        })
+    };
+    match (side(it.a_parameter() - eps), side(it.a_parameter() + eps)) {
+        (Ok(before), Ok(after)) => before * after < T::zero(),
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::prelude::*;
-- 
2.43.0

