From 5e2201ab0b97395e2944ef65a4a131d891f3a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:16 +0000
Subject: [PATCH 01/38] fix: trunc of values which do not fit into int64_t

Truncating infinities, not-a-number or values of magnitude 2^63 and above was
undefined behaviour and returned garbage, e.g. floor(1e300) == -9.2e18.
---
 include/vecmath/scalar.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 06245e3..78e5c06 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -25,6 +25,7 @@
 #include <cassert>
 #include <cmath>
 #include <cstddef>
+#include <cstdint>
 #include <limits>
 #include <tuple>
 #include <type_traits>
@@ -364,6 +365,13 @@ template <typename T> constexpr T smoothstep(const T e0, const T e1, const T v)
  * @return the truncated value
  */
 template <typename T> constexpr T trunc(const T v) {
+  if constexpr (std::is_floating_point<T>::value) {
+    // values of at least this magnitude have no fractional part, and they might not fit into int64
+    constexpr auto limit = static_cast<T>(uint64_t(1) << (std::numeric_limits<T>::digits - 1));
+    if (!(v > -limit && v < limit)) {
+      return v;
+    }
+  }
   return static_cast<T>(static_cast<int64_t>(v));
 }
 
-- 
2.43.0


From 75f703fb9ce2004ce21ff34ea1a9b449ac9c2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:35 +0000
Subject: [PATCH 02/38] fix: round to the nearest integer value

round(v + 0.5) suffered from the rounding of the sum, e.g.
round(0.49999999999999994) == 1 and round(4503599627370497.0) == 4503599627370498.
---
 include/vecmath/scalar.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 78e5c06..514f32d 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -450,7 +450,9 @@ template <typename T> constexpr T fract(const T v) {
  */
 template <typename T> constexpr T round(const T v) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
-  return v > static_cast<T>(0.0) ? floor(v + static_cast<T>(0.5)) : ceil(v - static_cast<T>(0.5));
+  // adding 0.5 to v and truncating the result would incur a rounding error
+  const auto r = trunc(v);
+  return abs(v - r) < static_cast<T>(0.5) ? r : r + sign(v);
 }
 
 /**
-- 
2.43.0


From dba2d9156fe94a46b775d238e9846a706385f9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:55 +0000
Subject: [PATCH 03/38] fix: correct retains the given number of decimals

It used 2^decimals and compared the value with the scaled rounded value, so that
values were hardly ever corrected if decimals > 0: correct(1.26, 1, 0.1) == 1.26.
The shift was undefined for 32 decimals or more.
---
 include/vecmath/scalar.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 514f32d..442e1e0 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -542,10 +542,13 @@ template <typename T>
 constexpr T correct(
   const T v, const std::size_t decimals = 0u, const T epsilon = constants<T>::correct_epsilon()) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
-  const T m = static_cast<T>(1u << decimals);
-  const T r = round(v * m);
+  auto m = static_cast<T>(1.0);
+  for (std::size_t i = 0u; i < decimals; ++i) {
+    m *= static_cast<T>(10.0);
+  }
+  const T r = round(v * m) / m;
   if (abs(v - r) < epsilon) {
-    return r / m;
+    return r;
   } else {
     return v;
   }
-- 
2.43.0


From 15e7bdf54a4ed59b41f5e1dcd66ef55463784308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:12 +0000
Subject: [PATCH 04/38] fix: normalize angles to the documented interval

Due to rounding, mod may return a small negative value which was returned as the
normalized angle. Large negative angles made the loop run forever.
---
 include/vecmath/scalar.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 442e1e0..f8989e8 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -637,10 +637,11 @@ template <typename T> constexpr T normalize_radians(T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = constants<T>::two_pi();
-  while (angle < z) {
+  angle = mod(angle, o);
+  if (angle < z) {
     angle += o;
   }
-  return mod(angle, o);
+  return angle >= o ? z : angle;
 }
 
 /**
@@ -654,10 +655,11 @@ template <typename T> constexpr T normalize_degrees(T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = static_cast<T>(360.0);
-  while (angle < z) {
+  angle = mod(angle, o);
+  if (angle < z) {
     angle += o;
   }
-  return mod(angle, o);
+  return angle >= o ? z : angle;
 }
 
 /**
-- 
2.43.0


From c6b2c9128b0c8983e095c3255f24bc29479f6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:26 +0000
Subject: [PATCH 05/38] fix: solve_quartic must not lose the solutions of the
 second quadratic

The solutions of the second quadratic were copied depending on the number of
solutions of the first one.
---
 include/vecmath/scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index f8989e8..51b8cd4 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -952,10 +952,10 @@ std::tuple<size_t, T, T, T, T> solve_quartic(
       solutions[1] = std::get<2>(solutions2_1);
     }
 
-    if (num2_1 > 0u) {
+    if (num2_2 > 0u) {
       solutions[0 + num2_1] = std::get<1>(solutions2_2);
     }
-    if (num2_1 > 1u) {
+    if (num2_2 > 1u) {
       solutions[1 + num2_1] = std::get<2>(solutions2_2);
     }
   }
-- 
2.43.0


From 810ffd8c3ade88113835c2c90d4cbdc2777ac326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:11 +0000
Subject: [PATCH 06/38] fix: polygon_contains_point counts an edge vertex on
 the X axis once

Edges with a vertex on the X axis were counted twice, once for each adjacent edge,
so that e.g. a diamond did not contain its center. Assign a negative sign to 0 as
documented so that only one of the adjacent edges is counted.
---
 include/vecmath/intersection.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 54a70d1..70ce54a 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -61,11 +61,15 @@ constexpr int handle_polygon_edge_intersection(const vec<T, 3>& v0, const vec<T,
    * or zero.
    */
 
-  // Does Y segment covered by the given edge touch the X axis at all?
+  // Is the origin on an edge which coincides with the X axis?
   if (
-    (is_zero(v0.y(), constants<T>::almost_zero()) &&
-     is_zero(v1.y(), constants<T>::almost_zero())) ||
-    (v0.y() > T(0.0) && v1.y() > T(0.0)) || (v0.y() < T(0.0) && v1.y() < T(0.0))) {
+    is_zero(v0.y(), constants<T>::almost_zero()) && is_zero(v1.y(), constants<T>::almost_zero()) &&
+    (v0.x() > T(0.0)) != (v1.x() > T(0.0))) {
+    return -1;
+  }
+
+  // Does Y segment covered by the given edge cross the X axis at all?
+  if ((v0.y() > T(0.0)) == (v1.y() > T(0.0))) {
     return 0;
   }
 
-- 
2.43.0


From f02ef1c17eab7033edab905c7e4bf72e78237982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:14 +0000
Subject: [PATCH 07/38] fix: intersect_ray_bbox with an axis parallel ray
 originating in the box

If the origin of the ray was inside of the box and its direction had a component
that is 0, then the distance -1 assigned to the parallel planes was chosen and the
intersection was missed.
---
 include/vecmath/intersection.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 70ce54a..32d594b 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -383,7 +383,10 @@ constexpr T intersect_ray_bbox(const ray<T, S>& r, const bbox<T, S>& b) {
   if (allInside) {
     // find the closest plane that was hit
     for (size_t i = 1; i < S; ++i) {
-      if (distances[i] < distances[bestPlane]) {
+      // planes which are parallel to the ray are not hit
+      if (
+        r.direction[i] != static_cast<T>(0.0) &&
+        (r.direction[bestPlane] == static_cast<T>(0.0) || distances[i] < distances[bestPlane])) {
         bestPlane = i;
       }
     }
-- 
2.43.0


From c9bd7f2548b5d297e494ff28ccb5da1441e6139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:18 +0000
Subject: [PATCH 08/38] fix: from_points must apply the given transformation to
 the points

---
 include/vecmath/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index 0b96c53..fba2dfa 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -396,17 +396,17 @@ auto from_points(I cur, I end, const G& get = G())
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p1 = *cur;
+  const auto p1 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p2 = *cur;
+  const auto p2 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p3 = *cur;
+  const auto p3 = get(*cur);
 
   return from_points(p1, p2, p3);
 }
-- 
2.43.0


From 2b31feb819dcf6de8300a83d4348e4786aeb9591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:45 +0000
Subject: [PATCH 09/38] fix: minimal distance of a ray and a line on the ray's
 origin

If the closest point on the ray was clamped to its origin, the closest point on
the line was not recomputed and the returned distance was too large.
---
 include/vecmath/distance.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index a708a71..fd49352 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -439,7 +439,8 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& r, const line<T, S>
   }
 
   const auto sc = max((b * e - c * d) / D, static_cast<T>(0.0));
-  const auto tc = (a * e - b * d) / D;
+  // if the closest point is the ray's origin, then its closest point on the line is its projection
+  const auto tc = sc > static_cast<T>(0.0) ? (a * e - b * d) / D : e / c;
 
   const auto rp = r.origin + sc * r.direction; // point on ray
   const auto lp = l.point + tc * l.direction;  // point on line
-- 
2.43.0


From b6b93bc28ce756440b86c3eaa806eb9775861575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:51 +0000
Subject: [PATCH 10/38] fix: minimal distance of parallel rays with opposite
 directions

If the rays point away from each other, then their origins are the closest points.
Otherwise, the returned positions did not belong to a pair of closest points.
---
 include/vecmath/distance.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index fd49352..5492fdc 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -371,6 +371,15 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
     const T perpendicular_dist_squared =
       squared_distance(project_point(lhs, rhs.origin), rhs.origin);
 
+    if (b < static_cast<T>(0)) {
+      // the rays point in opposite directions
+      if (rhs_origin_on_lhs < static_cast<T>(0)) {
+        // they point away from each other
+        return line_distance<T>::Parallel(0, squared_distance(lhs.origin, rhs.origin), 0);
+      }
+      return line_distance<T>::Parallel(rhs_origin_on_lhs, perpendicular_dist_squared, 0);
+    }
+
     return line_distance<T>::Parallel(
       max(static_cast<T>(0), rhs_origin_on_lhs), perpendicular_dist_squared,
       max(static_cast<T>(0), lhs_origin_on_rhs));
-- 
2.43.0


From dc18dd5fb246cf2b3c15aec668f2596917b19ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:55 +0000
Subject: [PATCH 11/38] fix: minimal distance of rays if the closest point is
 the first ray's origin

If the closest point on the first ray was clamped to its origin, then the closest
point on the second ray was not recomputed. Likewise, the closest points were moved
to the origin if the numerators were small even if the positions were not, i.e., if
the rays met at a small angle.
---
 include/vecmath/distance.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 5492fdc..2d856b3 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -392,10 +392,15 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
     tN = e;
     tD = c;
   }
+  if (tN < static_cast<T>(0.0)) {
+    // the closest point on the first ray is its origin
+    tN = static_cast<T>(0.0);
+    sN = max(-d, static_cast<T>(0.0));
+    sD = a;
+  }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
+  const auto sc = sN / sD;
+  const auto tc = tN / tD;
 
   u = u * sc; // vector from the second ray's origin to the closest point on first ray
   v = v * tc; // vector from the first ray's origin to closest point on the first ray
-- 
2.43.0


From 842e1b54518744fa7913d202d4a909af4f35fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:00 +0000
Subject: [PATCH 12/38] fix: minimal distance of a ray and a segment if the
 closest point is the ray's origin

If the closest point on the ray was clamped to its origin, then the closest point
on the segment was not recomputed. Likewise, the closest points were moved to the
ray's origin and the segment's start if the numerators were small even if the
positions were not, i.e., if the ray and the segment met at a small angle.
---
 include/vecmath/distance.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 2d856b3..4f1980c 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -311,10 +311,15 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
     tN = e + b;
     tD = c;
   }
+  if (tN < static_cast<T>(0.0)) {
+    // the closest point on the ray is its origin
+    tN = static_cast<T>(0.0);
+    sN = min(max(-d, static_cast<T>(0.0)), a);
+    sD = a;
+  }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
+  const auto sc = sN / sD;
+  const auto tc = tN / tD;
 
   u = u * sc; // vector from p1 to the closest point on the segment
   v = v * tc; // vector from ray origin to closest point on the ray
-- 
2.43.0


From 1e305a4ca634b2e1e5dabadcba1001ef9a4af207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:06 +0000
Subject: [PATCH 13/38] fix: distance to a segment with identical end points

Such a segment has no direction, and the returned position and distance were NaN.
---
 include/vecmath/distance.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 4f1980c..a4b5eae 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -129,6 +129,10 @@ template <typename T, size_t S>
 point_distance<T> squared_distance(const segment<T, S>& s, const vec<T, S>& p) {
   const auto vector = s.end() - s.start();
   const auto len = length(vector);
+  if (len == T(0.0)) {
+    return point_distance<T>(T(0.0), squared_length(p - s.start()));
+  }
+
   const auto dir = vector / len;
   const T scale = dot(p - s.start(), dir);
 
@@ -292,7 +296,8 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
     } else {
       // segment straddles ray origin
       const T perpendicular_dist_squared = squared_distance(point_at_distance(r, p1_on_r), p1);
-      const T r_origin_on_s = distance_to_projected_point(s, r.origin);
+      const T r_origin_on_s =
+        a > static_cast<T>(0) ? distance_to_projected_point(s, r.origin) : static_cast<T>(0);
       return line_distance<T>::Parallel(0, perpendicular_dist_squared, r_origin_on_s);
     }
   }
-- 
2.43.0


From 14569911d658147336de2b68809694c2bb3b436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:51 +0000
Subject: [PATCH 14/38] fix: segment::contains checks the distance to the
 closest point of the segment

Points beyond the start point were measured by their distance to the line, points
just beyond the end point were rejected, and a segment with identical end points
did not even contain these.
---
 include/vecmath/segment.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index dcae42e..d7980d4 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -119,13 +119,14 @@ public:
    * @return true if the given point is contained in this segment and false otherwise
    */
   bool contains(const vec<T, S>& point, const T maxDistance) const {
-    const auto f = distance_to_projected_point(*this, point);
-    if (f < -maxDistance || f * f > squared_length() + maxDistance * maxDistance) {
-      return false;
-    } else {
-      const auto proj = point_at_distance(*this, f);
-      return squared_distance(proj, point) <= (maxDistance * maxDistance);
+    const auto len = length();
+    if (len == T(0.0)) {
+      return squared_distance(m_start, point) <= (maxDistance * maxDistance);
     }
+
+    const auto f = min(max(T(0.0), distance_to_projected_point(*this, point)), len);
+    const auto closest = point_at_distance(*this, f);
+    return squared_distance(closest, point) <= (maxDistance * maxDistance);
   }
 
   /**
-- 
2.43.0


From 3c39c626dbfacdcb5010722d477ff6408d6f78fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:55 +0000
Subject: [PATCH 15/38] fix: keep the end points of a converted segment sorted

The conversion to a smaller type can make components equal, and then other
components decide which end point is the smaller one.
---
 include/vecmath/segment.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index d7980d4..88fcf27 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -77,8 +77,7 @@ public:
    */
   template <typename U>
   explicit constexpr segment(const segment<U, S>& other)
-    : m_start(other.start())
-    , m_end(other.end()) {}
+    : segment(vec<T, S>(other.start()), vec<T, S>(other.end())) {}
 
   /**
    * Returns the origin of this segment.
-- 
2.43.0


From 5474e7dfb3959f282842fb748e454634d4dcc780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:59 +0000
Subject: [PATCH 16/38] fix: keep the smallest vertex of a converted polygon at
 the front

The conversion to a smaller type can make components equal, and then other
components decide which vertex is the smallest one.
---
 include/vecmath/polygon.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index f6d8158..74807f7 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -110,6 +110,7 @@ public:
     for (const auto& vertex : other.vertices()) {
       m_vertices.push_back(vec<T, S>(vertex));
     }
+    rotate_min_to_front();
   }
 
   /**
-- 
2.43.0


From 33bd3287a03baf5c5125a939e049d8a261b5b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:26 +0000
Subject: [PATCH 17/38] fix: compareUnoriented must not ignore the second
 vertices

If neither the second vertices nor the reversed vertices were identical, then the
remaining vertices were compared, and the polygons were considered identical if they
only differed in their second vertices.
---
 include/vecmath/polygon.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 74807f7..924ee26 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -423,10 +423,8 @@ int compareUnoriented(
         const auto j = count - i;
         const auto cmp = compare(lhsVerts[i], rhsVerts[j], epsilon);
         if (cmp != 0) {
-          // Backward compare failed, so make a forward compare
-          return compare(
-            std::next(std::begin(lhsVerts), 2), std::end(lhsVerts),
-            std::next(std::begin(rhsVerts), 2), std::end(rhsVerts), epsilon);
+          // Backward compare failed, so the second vertices decide the forward compare
+          return cmp1;
         }
         ++i;
       }
-- 
2.43.0


From 891b2b77bbe6b4b3481fdd1e1bddaca7f4a65f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:40 +0000
Subject: [PATCH 18/38] fix: an empty bbox builder returns an empty bbox at the
 origin

As documented. It returned an invalid bbox whose min is greater than its max.
---
 include/vecmath/bbox.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/vecmath/bbox.h b/include/vecmath/bbox.h
index f59db5f..3a8c9d7 100644
--- a/include/vecmath/bbox.h
+++ b/include/vecmath/bbox.h
@@ -45,15 +45,15 @@ public:
   class builder {
   private:
     bbox m_bounds;
+    bool m_initialized;
 
   public:
     /**
      * Creates a new unitialized instance.
      */
     constexpr builder()
-      : m_bounds(false) {
-      // put the bounds to an invalid state to signal that its unitialized
-    }
+      : m_bounds()
+      , m_initialized(false) {}
 
     /**
      * Returns the bounds. If the no point has been added, an empty bbox at the origin is returned.
@@ -63,7 +63,7 @@ public:
     /**
      * Returns whether anything has been added to this builder.
      */
-    constexpr bool initialized() const { return m_bounds.is_valid(); }
+    constexpr bool initialized() const { return m_initialized; }
 
     /**
      * Adds the given range of points.
@@ -87,6 +87,7 @@ public:
     constexpr void add(const vec<T, S>& point) {
       if (!initialized()) {
         m_bounds.min = m_bounds.max = point;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, point);
       }
@@ -98,6 +99,7 @@ public:
     constexpr void add(const bbox& box) {
       if (!initialized()) {
         m_bounds = box;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, box);
       }
@@ -181,16 +183,6 @@ public:
     assert(is_valid());
   }
 
-private:
-  /**
-   * This constructor is used by the builder to create an invalid bbox.
-   */
-  constexpr bbox(const bool)
-    : min(vec<T, S>::fill(T(1)))
-    , max(vec<T, S>::fill(T(0))) {
-    assert(!is_valid());
-  }
-
 public:
   /**
    * Creates the smallest bounding box that contains all points in the given range. Optionally
-- 
2.43.0


From 431b0773d41f7606f3d8df4f407bf4ded1c0837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:45 +0000
Subject: [PATCH 19/38] fix: parse must not read beyond the end of the given
 string view

A string view is not null terminated, but std::atof expects a null terminated string.
---
 include/vecmath/mat_io.h | 9 +++++++--
 include/vecmath/vec_io.h | 7 +++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/mat_io.h b/include/vecmath/mat_io.h
index 3adf1cf..746eeeb 100644
--- a/include/vecmath/mat_io.h
+++ b/include/vecmath/mat_io.h
@@ -22,8 +22,11 @@
 
 #include "mat.h"
 
+#include <cstdlib>
 #include <optional>
 #include <ostream>
+#include <string>
+#include <string_view>
 
 namespace vm {
 /**
@@ -53,8 +56,10 @@ std::optional<mat<T, R, C>> parse(const std::string_view str) {
       if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
         return std::nullopt;
       }
-      result[c][r] = static_cast<T>(std::atof(str.data() + pos));
-      if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
+      // std::atof expects a null terminated string, so it must not be called with str.data()
+      const auto end = str.find_first_of(blank, pos);
+      result[c][r] = static_cast<T>(std::atof(std::string(str.substr(pos, end - pos)).c_str()));
+      if ((pos = end) == std::string::npos) {
         if ((r * C) + c < R * C - 1u) {
           return std::nullopt;
         }
diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index 17ec21a..bbda791 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -22,6 +22,7 @@
 
 #include "vec.h"
 
+#include <cstdlib>
 #include <optional>
 #include <ostream>
 #include <string>
@@ -38,8 +39,10 @@ std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
     if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
       return std::nullopt;
     }
-    result[i] = static_cast<T>(std::atof(str.data() + pos));
-    if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
+    // std::atof expects a null terminated string, so it must not be called with str.data()
+    const auto end = str.find_first_of(blank, pos);
+    result[i] = static_cast<T>(std::atof(std::string(str.substr(pos, end - pos)).c_str()));
+    if ((pos = end) == std::string::npos) {
       if (i < S - 1) {
         return std::nullopt;
       }
-- 
2.43.0


From ad7a446e74ea2e7190b071518c21a23c338946dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:59 +0000
Subject: [PATCH 20/38] fix: multiply a vector with a non square matrix

The product of a vector with R components and a matrix with R rows and C columns has
C components. If C exceeded R, then elements beyond the end of the result were written.
---
 include/vecmath/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index c511ec8..0051a23 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -574,8 +574,8 @@ constexpr mat<T, R, C> operator/(const mat<T, R, C>& lhs, const T rhs) {
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, R> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
-  vec<T, R> result;
+constexpr vec<T, C> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
+  vec<T, C> result;
   for (size_t c = 0; c < C; c++) {
     result[c] = dot(lhs, rhs[c]);
   }
-- 
2.43.0


From 534cc8721facca7ee068a7965adae90a8d1e6642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:13 +0000
Subject: [PATCH 21/38] fix: multiply a non square matrix with a vector

The result has R components; it was accumulated in a vector with C components, which
did not compile if R and C are different.
---
 include/vecmath/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index 0051a23..8ebd2d7 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -594,7 +594,7 @@ constexpr vec<T, C> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr vec<T, R> operator*(const mat<T, R, C>& lhs, const vec<T, C>& rhs) {
-  vec<T, C> result;
+  vec<T, R> result;
   for (size_t r = 0; r < R; r++) {
     for (size_t c = 0; c < C; ++c) {
       result[r] += lhs[c][r] * rhs[c];
-- 
2.43.0


From 713fce03ebe8987a9a2a14798613f00db6320fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:27 +0000
Subject: [PATCH 22/38] fix: rotation_matrix_to_euler_angles close to a gimbal
 lock

The gimbal lock was only detected if the matrix entry is exactly +-1, otherwise roll
and yaw were computed from rounding errors. If the entry exceeded 1, then the result
was NaN.
---
 include/vecmath/mat_ext.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index 9c4bebc..5e3f973 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -324,15 +324,17 @@ template <typename T> vec<T, 3> rotation_matrix_to_euler_angles(const mat<T, 4,
 
   T theta, psi, phi;
 
-  if (abs(rotMat[0][2]) != T(1.0)) {
-    theta = -std::asin(rotMat[0][2]);
-    const auto cosTheta = std::cos(theta);
+  // Due to rounding, rotMat[0][2] need not be +-1 in case of a gimbal lock, but cosTheta is close
+  // to 0.
+  const auto cosTheta = sqrt(rotMat[0][0] * rotMat[0][0] + rotMat[0][1] * rotMat[0][1]);
+  if (cosTheta > sqrt(std::numeric_limits<T>::epsilon())) {
+    theta = std::atan2(-rotMat[0][2], cosTheta);
 
     psi = std::atan2(rotMat[1][2] / cosTheta, rotMat[2][2] / cosTheta);
     phi = std::atan2(rotMat[0][1] / cosTheta, rotMat[0][0] / cosTheta);
   } else {
     phi = 0.0;
-    if (rotMat[0][2] == T(-1.0)) {
+    if (rotMat[0][2] < T(0.0)) {
       theta = vm::constants<T>::half_pi();
       psi = std::atan2(rotMat[1][0], rotMat[2][0]);
     } else {
-- 
2.43.0


From 02adc05c94e3458dae24e75bc24edf22a05381da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:18 +0000
Subject: [PATCH 23/38] fix: convex hull of points whose first two points are
 identical

Every point is colinear with two identical points, so the hull was always empty.
---
 include/vecmath/convex_hull.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index 1a51e6b..5995a4c 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -88,6 +88,7 @@ public:
       return;
     }
 
+    find_second_point();
     const auto thirdPointIndex = find_linearly_independent_point();
     if (thirdPointIndex >= m_points.size()) {
       m_points.clear();
@@ -111,6 +112,22 @@ public:
   const std::vector<vec<T, 3>>& result() const { return m_points; }
 
 private:
+  void find_second_point() {
+    // choose the point with the maximum distance to the first point because every other point is
+    // colinear with two identical points
+    std::size_t index = 1;
+    for (std::size_t i = 2; i < m_points.size(); ++i) {
+      if (
+        squared_distance(m_points[0], m_points[i]) >
+        squared_distance(m_points[0], m_points[index])) {
+        index = i;
+      }
+    }
+
+    using std::swap;
+    swap(m_points[1], m_points[index]);
+  }
+
   std::size_t find_linearly_independent_point() const {
     std::size_t index = 2;
     while (index < m_points.size() && is_colinear(m_points[0], m_points[1], m_points[index])) {
-- 
2.43.0


From 252a173116c1e81bcedfb0d8b780720bda5f4c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:24 +0000
Subject: [PATCH 24/38] fix: transform the normal of a plane with the
 transposed inverse

If a transformation scales non uniformly or shears, then the transformed points of
a plane were not on the transformed plane.
---
 include/vecmath/plane.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index fba2dfa..329c138 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -179,7 +179,7 @@ public:
    * @return the transformed plane
    */
   plane<T, S> transform(const mat<T, S + 1, S + 1>& transform) const {
-    return plane<T, S>(transform * anchor(), normalize(strip_translation(transform) * normal));
+    return plane<T, S>(transform * anchor(), normalize(transform_normal(transform)));
   }
 
   /**
@@ -190,9 +190,22 @@ public:
    * @return the transformed plane
    */
   constexpr plane<T, S> transform_c(const mat<T, S + 1, S + 1>& transform) const {
-    return plane<T, S>(transform * anchor(), normalize_c(strip_translation(transform) * normal));
+    return plane<T, S>(transform * anchor(), normalize_c(transform_normal(transform)));
   }
 
+private:
+  /**
+   * The normal must be transformed with the transposed inverse. Otherwise, it is not orthogonal to
+   * the transformed plane if the given transformation scales non uniformly or shears.
+   */
+  constexpr vec<T, S> transform_normal(const mat<T, S + 1, S + 1>& transform) const {
+    const auto linearTransform = strip_translation(transform);
+    const auto inverse = invert(linearTransform);
+    return std::get<0>(inverse) ? normal * std::get<1>(inverse) : linearTransform * normal;
+  }
+
+public:
+
   /**
    * Projects the given point onto this plane along the plane normal.
    *
-- 
2.43.0


From 0ec6a9cfb4bfced5f65a36827549b97f8ae0d73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:10 +0000
Subject: [PATCH 25/38] fix: operator>= of approximate vectors did not compile

---
 include/vecmath/approx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/approx.h b/include/vecmath/approx.h
index 0f287c3..8aebfde 100644
--- a/include/vecmath/approx.h
+++ b/include/vecmath/approx.h
@@ -174,11 +174,11 @@ public:
   }
 
   friend constexpr bool operator>=(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs >= (rhs.m_value - rhs.m_epsilon);
+    return lhs >= (rhs.m_value - vec<T, S>::fill(rhs.m_epsilon));
   }
 
   friend constexpr bool operator>=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value >= (rhs - lhs.m_epsilon);
+    return lhs.m_value >= (rhs - vec<T, S>::fill(lhs.m_epsilon));
   }
 
   friend std::ostream& operator<<(std::ostream& str, const approx<vec<T, S>>& a) {
-- 
2.43.0


From afa93e5d33cb1fbd6a64627f432c4dbd236dad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:05 +0000
Subject: [PATCH 26/38] fix: normalize angles whose remainder exceeds a full
 turn due to rounding

---
 include/vecmath/scalar.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 51b8cd4..ecb2a05 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -637,7 +637,8 @@ template <typename T> constexpr T normalize_radians(T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = constants<T>::two_pi();
-  angle = mod(angle, o);
+  // the second call removes a full turn that is left over due to rounding
+  angle = mod(mod(angle, o), o);
   if (angle < z) {
     angle += o;
   }
@@ -655,7 +656,8 @@ template <typename T> constexpr T normalize_degrees(T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = static_cast<T>(360.0);
-  angle = mod(angle, o);
+  // the second call removes a full turn that is left over due to rounding
+  angle = mod(mod(angle, o), o);
   if (angle < z) {
     angle += o;
   }
-- 
2.43.0


From 3b9433cdc42c88d2984fcf5410143a1eb8ac604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:25 +0000
Subject: [PATCH 27/38] fix: multiply all components of a quaternion with a
 scalar

---
 include/vecmath/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/quat.h b/include/vecmath/quat.h
index f193588..6069f65 100644
--- a/include/vecmath/quat.h
+++ b/include/vecmath/quat.h
@@ -233,7 +233,7 @@ template <typename T> constexpr quat<T> operator-(const quat<T>& q) {
  * @return the multiplied quaternion
  */
 template <typename T> constexpr quat<T> operator*(const quat<T> lhs, const T rhs) {
-  return quat<T>(lhs.r * rhs, lhs.v);
+  return quat<T>(lhs.r * rhs, lhs.v * rhs);
 }
 
 /**
@@ -245,7 +245,7 @@ template <typename T> constexpr quat<T> operator*(const quat<T> lhs, const T rhs
  * @return the multiplied quaternion
  */
 template <typename T> constexpr quat<T> operator*(const T lhs, const quat<T>& rhs) {
-  return quat<T>(lhs * rhs.r, rhs.v);
+  return quat<T>(lhs * rhs.r, lhs * rhs.v);
 }
 
 /**
-- 
2.43.0


From 895ad5c397fe292753a120ffa3c02ea91f78dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:25 +0000
Subject: [PATCH 28/38] fix: rbegin and rend of a polygon iterate its vertices
 in reverse order

---
 include/vecmath/polygon.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 924ee26..b118319 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -150,18 +150,18 @@ public:
   auto end() const { return std::end(m_vertices); }
 
   /**
-   * Returns an iterator to the beginning of the vertices.
+   * Returns a reverse iterator to the last vertex.
    *
-   * @return an iterator to the beginning of the vertices
+   * @return a reverse iterator to the last vertex
    */
-  auto rbegin() const { return std::begin(m_vertices); }
+  auto rbegin() const { return std::rbegin(m_vertices); }
 
   /**
-   * Returns an iterator to the end of the vertices.
+   * Returns a reverse iterator to the end of the reversed vertices.
    *
-   * @return an iterator to the end of the vertices
+   * @return a reverse iterator to the end of the reversed vertices
    */
-  auto rend() const { return std::end(m_vertices); }
+  auto rend() const { return std::rend(m_vertices); }
 
   /**
    * Returns the vertices of this polygon.
-- 
2.43.0


From 7229cd2a3421b25882ac18e19591d33eb9ce0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:27 +0000
Subject: [PATCH 29/38] fix: transpose of a non square matrix

---
 include/vecmath/mat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index 8ebd2d7..05a2b2d 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -664,10 +664,10 @@ constexpr mat<T, R, C> set(mat<T, R, C> m, const std::size_t r, const std::size_
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
-  mat<T, C, R> result(m);
+  mat<T, C, R> result;
   for (std::size_t c = 0u; c < C; ++c) {
-    for (std::size_t r = c + 1u; r < R; ++r) {
-      detail::swap(result[c][r], result[r][c]);
+    for (std::size_t r = 0u; r < R; ++r) {
+      result[r][c] = m[c][r];
     }
   }
   return result;
-- 
2.43.0


From 028cb5dc0608329fc8d77e185101e55fa75e4fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:27 +0000
Subject: [PATCH 30/38] fix: slice of a matrix with more columns than rows

---
 include/vecmath/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index 05a2b2d..1cd1b86 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -688,7 +688,7 @@ constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
  */
 template <std::size_t RR, std::size_t RC, typename T, std::size_t R, std::size_t C>
 constexpr mat<T, RR, RC> slice(const mat<T, R, C>& m, const size_t r, const size_t c) {
-  static_assert(RR <= R && RC <= R, "slice must not exceed matrix");
+  static_assert(RR <= R && RC <= C, "slice must not exceed matrix");
   assert(r <= R - RR && c <= C - RC);
   mat<T, RR, RC> result;
   for (std::size_t row = 0u; row < RR; ++row) {
-- 
2.43.0


From 496006113434a65debca48c6709886278881a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:27 +0000
Subject: [PATCH 31/38] fix: multiply collections of vectors and points with a
 non square matrix

---
 include/vecmath/mat.h     |  4 ++--
 include/vecmath/mat_ext.h | 32 ++++++++++++++++----------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index 1cd1b86..b3fc250 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -614,7 +614,7 @@ constexpr vec<T, R> operator*(const mat<T, R, C>& lhs, const vec<T, C>& rhs) {
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, C - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>& rhs) {
+constexpr vec<T, R - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>& rhs) {
   return to_cartesian_coords(lhs * to_homogeneous_coords(rhs));
 }
 
@@ -629,7 +629,7 @@ constexpr vec<T, C - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>&
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, R - 1> operator*(const vec<T, R - 1>& lhs, const mat<T, R, C>& rhs) {
+constexpr vec<T, C - 1> operator*(const vec<T, R - 1>& lhs, const mat<T, R, C>& rhs) {
   return to_cartesian_coords(to_homogeneous_coords(lhs) * rhs);
 }
 
diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index 5e3f973..b7785cc 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -42,8 +42,8 @@ namespace vm {
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, C>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<T, C>>& rhs) {
-  std::vector<vec<T, C>> result;
+std::vector<vec<T, R>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<T, C>>& rhs) {
+  std::vector<vec<T, R>> result;
   result.reserve(rhs.size());
   for (const auto& v : rhs) {
     result.push_back(lhs * v);
@@ -63,9 +63,9 @@ std::vector<vec<T, C>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, C>, N> operator*(
+constexpr std::array<vec<T, R>, N> operator*(
   const mat<T, R, C>& lhs, const std::array<vec<T, C>, N>& rhs) {
-  std::array<vec<T, C>, N> result{};
+  std::array<vec<T, R>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs * rhs[i];
   }
@@ -83,9 +83,9 @@ constexpr std::array<vec<T, C>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, C - 1>> operator*(
+std::vector<vec<T, R - 1>> operator*(
   const mat<T, R, C>& lhs, const std::vector<vec<T, C - 1>>& rhs) {
-  std::vector<vec<T, C - 1>> result;
+  std::vector<vec<T, R - 1>> result;
   result.reserve(rhs.size());
   for (const auto& v : rhs) {
     result.push_back(lhs * v);
@@ -105,9 +105,9 @@ std::vector<vec<T, C - 1>> operator*(
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, C - 1>, N> operator*(
+constexpr std::array<vec<T, R - 1>, N> operator*(
   const mat<T, R, C>& lhs, const std::array<vec<T, C - 1>, N>& rhs) {
-  std::array<vec<T, C - 1>, N> result{};
+  std::array<vec<T, R - 1>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs * rhs[i];
   }
@@ -125,8 +125,8 @@ constexpr std::array<vec<T, C - 1>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, R>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T, R, C>& rhs) {
-  std::vector<vec<T, R>> result;
+std::vector<vec<T, C>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T, R, C>& rhs) {
+  std::vector<vec<T, C>> result;
   result.reserve(lhs.size());
   for (const auto& v : lhs) {
     result.push_back(v * rhs);
@@ -146,9 +146,9 @@ std::vector<vec<T, R>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T,
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, R>, N> operator*(
+constexpr std::array<vec<T, C>, N> operator*(
   const std::array<vec<T, R>, N>& lhs, const mat<T, R, C>& rhs) {
-  std::array<vec<T, R>, N> result{};
+  std::array<vec<T, C>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs[i] * rhs;
   }
@@ -166,9 +166,9 @@ constexpr std::array<vec<T, R>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, R - 1>> operator*(
+std::vector<vec<T, C - 1>> operator*(
   const std::vector<vec<T, R - 1>>& lhs, const mat<T, R, C>& rhs) {
-  std::vector<vec<T, R - 1>> result;
+  std::vector<vec<T, C - 1>> result;
   result.reserve(lhs.size());
   for (const auto& v : lhs) {
     result.push_back(v * rhs);
@@ -188,9 +188,9 @@ std::vector<vec<T, R - 1>> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, R - 1>, N> operator*(
+constexpr std::array<vec<T, C - 1>, N> operator*(
   const std::array<vec<T, R - 1>, N>& lhs, const mat<T, R, C>& rhs) {
-  std::array<vec<T, R - 1>, N> result{};
+  std::array<vec<T, C - 1>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs[i] * rhs;
   }
-- 
2.43.0


From de190b37fb7e39ae8b8c3d324a9007ecaf3e7e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:33 +0000
Subject: [PATCH 32/38] fix: distance of a ray and a long segment that is
 almost parallel to it

The parallelism threshold was applied to a determinant that grows with the
square of the segment's length, and with it its rounding error. A segment of
100 units parallel to a ray was treated as crossing it in single precision,
and the reported distance was off by the length of the segment. Both
parameters were computed independently from that determinant.
---
 include/vecmath/distance.h | 45 ++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index a4b5eae..abe1c46 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -29,6 +29,7 @@
 #include "vec.h"
 
 #include <cstddef>
+#include <limits>
 
 namespace vm {
 /**
@@ -269,7 +270,10 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
   const auto e = dot(v, w);
   const auto D = a * c - b * b;
 
-  if (is_zero(D, constants<T>::almost_zero())) {
+  // D grows with the length of the segment, and so does its rounding error
+  const auto epsilon =
+    max(constants<T>::almost_zero(), static_cast<T>(8) * std::numeric_limits<T>::epsilon() * a * c);
+  if (is_zero(D, epsilon)) {
     // parallel case
     const T p1_on_r = distance_to_projected_point(r, p1);
     const T p2_on_r = distance_to_projected_point(r, p2);
@@ -285,47 +289,36 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
       }
     } else if (p1_on_r > static_cast<T>(0) && p2_on_r > static_cast<T>(0)) {
       // segment completely in front of ray origin
-      const T perpendicular_dist_squared = squared_distance(point_at_distance(r, p1_on_r), p1);
       if (p1_on_r > p2_on_r) {
         // p2 closer to ray origin
+        const T perpendicular_dist_squared = squared_distance(point_at_distance(r, p2_on_r), p2);
         return line_distance<T>::Parallel(p2_on_r, perpendicular_dist_squared, p1_on_r - p2_on_r);
       } else {
         // p1 closer to ray origin
+        const T perpendicular_dist_squared = squared_distance(point_at_distance(r, p1_on_r), p1);
         return line_distance<T>::Parallel(p1_on_r, perpendicular_dist_squared, 0);
       }
     } else {
       // segment straddles ray origin
-      const T perpendicular_dist_squared = squared_distance(point_at_distance(r, p1_on_r), p1);
+      if (a == static_cast<T>(0)) {
+        return line_distance<T>::Parallel(0, squared_distance(r.origin, p1), 0);
+      }
       const T r_origin_on_s =
-        a > static_cast<T>(0) ? distance_to_projected_point(s, r.origin) : static_cast<T>(0);
-      return line_distance<T>::Parallel(0, perpendicular_dist_squared, r_origin_on_s);
+        min(max(distance_to_projected_point(s, r.origin), static_cast<T>(0)), s.length());
+      return line_distance<T>::Parallel(
+        0, squared_distance(r.origin, point_at_distance(s, r_origin_on_s)), r_origin_on_s);
     }
   }
 
-  T sN, sD = D;
-  T tN, tD = D;
-
-  sN = (b * e - c * d);
-  tN = (a * e - b * d);
-  if (sN < static_cast<T>(0.0)) {
-    sN = static_cast<T>(0.0);
-    tN = e;
-    tD = c;
-  } else if (sN > sD) {
-    sN = sD;
-    tN = e + b;
-    tD = c;
-  }
-  if (tN < static_cast<T>(0.0)) {
+  // the closest point on the segment, and the point on the ray that is closest to it
+  auto sc = min(max((b * e - c * d) / D, static_cast<T>(0.0)), static_cast<T>(1.0));
+  auto tc = (e + b * sc) / c;
+  if (tc < static_cast<T>(0.0)) {
     // the closest point on the ray is its origin
-    tN = static_cast<T>(0.0);
-    sN = min(max(-d, static_cast<T>(0.0)), a);
-    sD = a;
+    tc = static_cast<T>(0.0);
+    sc = min(max(-d / a, static_cast<T>(0.0)), static_cast<T>(1.0));
   }
 
-  const auto sc = sN / sD;
-  const auto tc = tN / tD;
-
   u = u * sc; // vector from p1 to the closest point on the segment
   v = v * tc; // vector from ray origin to closest point on the ray
   w = w + u;
-- 
2.43.0


From 5c0d71a9cb8a7246014f067997b6ea313ad02f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:33 +0000
Subject: [PATCH 33/38] fix: project a vector onto a plane far from the origin

The vector was added to the plane's anchor and subtracted from it again, so
it lost precision with the distance of the plane, and the intersection of two
such planes was inaccurate or missing.
---
 include/vecmath/plane.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index 329c138..1154967 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -240,7 +240,7 @@ public:
    * @return the projected vector
    */
   constexpr vec<T, S> project_vector(const vec<T, S>& vector) const {
-    return project_point(anchor() + vector) - anchor();
+    return vector - dot(vector, normal) * normal;
   }
 
   /**
@@ -252,7 +252,11 @@ public:
    * @return the projected vector
    */
   constexpr vec<T, S> project_vector(const vec<T, S>& vector, const vec<T, S>& direction) const {
-    return project_point(anchor() + vector, direction) - anchor();
+    const auto cos = dot(direction, normal);
+    if (is_zero(cos, constants<T>::almost_zero())) {
+      return vec<T, S>::nan();
+    }
+    return vector - direction * (dot(vector, normal) / cos);
   }
 };
 
-- 
2.43.0


From 753c017d34662540dd884cadfb91821072592b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 34/38] fix: intersect a ray with a small triangle

---
 include/vecmath/intersection.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 32d594b..65f8749 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -254,7 +254,9 @@ constexpr T intersect_ray_triangle(
   const auto e2 = p3 - p1;
   const auto p = cross(d, e2);
   const auto a = dot(p, e1);
-  if (is_zero(a, constants<T>::almost_zero())) {
+  // a shrinks with the size of the triangle
+  const auto size = abs(get_abs_max_component(e1) * get_abs_max_component(e2));
+  if (is_zero(a, constants<T>::almost_zero() * min(size, T(1.0)))) {
     return nan<T>();
   }
 
-- 
2.43.0


From 98bbb4f9c592861fae72a37534e6926deb5db5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:53 +0000
Subject: [PATCH 35/38] fix: write vertices to any output iterator

---
 include/vecmath/polygon.h | 2 +-
 include/vecmath/segment.h | 4 ++--
 include/vecmath/vec.h     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index b118319..a9d7c72 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -230,7 +230,7 @@ public:
     while (cur != end) {
       const auto& polygon = *cur;
       for (const auto& vertex : polygon) {
-        out++ = vertex;
+        *out++ = vertex;
       }
       ++cur;
     }
diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index 88fcf27..a0c43ba 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -190,9 +190,9 @@ public:
   template <typename I, typename O> static void get_vertices(I cur, I end, O out) {
     while (cur != end) {
       const auto& segment = *cur;
-      out = segment.start();
+      *out = segment.start();
       ++out;
-      out = segment.end();
+      *out = segment.end();
       ++out;
       ++cur;
     }
diff --git a/include/vecmath/vec.h b/include/vecmath/vec.h
index dac55a0..12c511b 100644
--- a/include/vecmath/vec.h
+++ b/include/vecmath/vec.h
@@ -376,7 +376,7 @@ public:
    */
   template <typename I, typename O> static constexpr void get_vertices(I cur, I end, O out) {
     while (cur != end) {
-      out++ = *cur++;
+      *out++ = *cur++;
     }
   }
 };
-- 
2.43.0


From dbe5e4d00218e7525f463a6f17f50af3eba3729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:00 +0000
Subject: [PATCH 36/38] fix: shear boxes of single precision

---
 include/vecmath/mat_ext.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index b7785cc..41eccd7 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -638,22 +638,22 @@ constexpr mat<T, 4, 4> shear_bbox_matrix(
   mat<T, 4, 4> shearMat;
   if (sideToShear == vec<T, 3>::pos_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(relativeDelta.y(), relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix<T>(relativeDelta.y(), relativeDelta.z(), 0., 0., 0., 0.);
   } else if (sideToShear == vec<T, 3>::neg_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(-relativeDelta.y(), -relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix<T>(-relativeDelta.y(), -relativeDelta.z(), 0., 0., 0., 0.);
   } else if (sideToShear == vec<T, 3>::pos_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., relativeDelta.x(), relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix<T>(0., 0., relativeDelta.x(), relativeDelta.z(), 0., 0.);
   } else if (sideToShear == vec<T, 3>::neg_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., -relativeDelta.x(), -relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix<T>(0., 0., -relativeDelta.x(), -relativeDelta.z(), 0., 0.);
   } else if (sideToShear == vec<T, 3>::pos_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., relativeDelta.x(), relativeDelta.y());
+    shearMat = shear_matrix<T>(0., 0., 0., 0., relativeDelta.x(), relativeDelta.y());
   } else if (sideToShear == vec<T, 3>::neg_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., -relativeDelta.x(), -relativeDelta.y());
+    shearMat = shear_matrix<T>(0., 0., 0., 0., -relativeDelta.x(), -relativeDelta.y());
   }
 
   // grab any vertex on side that is opposite the one being sheared.
-- 
2.43.0


From 23969e57fefde94eb1bbb5d6fba9de68c148e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 37/38] fix: hull of many points without deep recursion

---
 include/vecmath/convex_hull.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index 5995a4c..1464ee7 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -206,14 +206,14 @@ private:
   }
 
   void pop_stale_points(std::vector<vec<T, 3>>& stack, const vec<T, 3>& p) {
-    if (stack.size() > 1) {
+    while (stack.size() > 1) {
       const auto& t1 = stack[stack.size() - 2];
       const auto& t2 = stack[stack.size() - 1];
       const auto side = is_left(t1, t2, p);
-      if (side < 0) {
-        stack.pop_back();
-        pop_stale_points(stack, p);
+      if (side >= 0) {
+        break;
       }
+      stack.pop_back();
     }
   }
 };
-- 
2.43.0


From 0d6b30e798716b06a98b7c622c446e31c4b1a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:25 +0000
Subject: [PATCH 38/38] fix: angle of a quaternion whose real part exceeds one
 due to rounding

---
 include/vecmath/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/quat.h b/include/vecmath/quat.h
index 6069f65..7f3187f 100644
--- a/include/vecmath/quat.h
+++ b/include/vecmath/quat.h
@@ -126,7 +126,7 @@ public:
    *
    * @return the rotation angle in radians
    */
-  T angle() const { return T(2.0) * std::acos(r); }
+  T angle() const { return T(2.0) * std::acos(clamp(r, T(-1.0), T(1.0))); }
 
   /**
    * Returns the rotation axis of this quaternion.
-- 
2.43.0

