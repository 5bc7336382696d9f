From 23c1d1a051422ba4062fad6fec879b77d5949f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 1/8] fix: build spatially sorted indexes over items without
 extent along an axis

Hilbert::hilbert unwrapped a NaN when the joint box of the items had zero
(or non-representable) width or height, so Flatbush::new panicked for e.g.
points on one vertical line. Such an axis now maps to cell 0.
---
 src/flatbush/hilbert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/flatbush/hilbert.rs b/src/flatbush/hilbert.rs
index 9eea995..7f97c5b 100644
--- a/src/flatbush/hilbert.rs
+++ b/src/flatbush/hilbert.rs
@@ -64,7 +64,12 @@ where
     pub fn hilbert(&self, position: Position<C>) -> u32 {
         let x = self.x_scale * (position.x - self.x_min);
         let y = self.y_scale * (position.y - self.y_min);
-        Self::hilbert_normalized(x.floor().to_u32().unwrap(), y.floor().to_u32().unwrap())
+        // When the rectangle has no (or a non-representable) extent along an
+        // axis, its scale is not finite; that axis cannot order anything.
+        Self::hilbert_normalized(
+            x.floor().to_u32().unwrap_or(0),
+            y.floor().to_u32().unwrap_or(0),
+        )
     }
 
     /**
-- 
2.43.0


From d7c652206a51a7a072848d9bc3c6d657d7d986c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 2/8] fix: report segment intersections exactly at endpoints
 and for segments without length

intersect_segment reported a zero-length segment as meeting everything, and
two equal ones as overlapping in a segment. For a contact at an endpoint it
returned a rounded position that compared unequal to that endpoint, or missed
it, so valid LineStrings and Polygons were rejected depending on rounding and
direction. Shared endpoints and contacts at an endpoint are now returned as
that endpoint, overlaps end at endpoints, and segments without length are
treated as positions.
---
 src/planar/primitives/segment.rs | 57 +++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 7d565bf..faa93f5 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -89,6 +89,22 @@ impl<C: Coordinate> Segment<C> {
      * NB: This does not do an initial check with Envelopes; the caller should do that.
      */
     pub fn intersect_segment(&self, other: Segment<C>) -> SegmentIntersection<C> {
+        // A segment without length is a single position.
+        if self.start == self.end {
+            return if other.contains(self.start) {
+                SegmentIntersection::Position(self.start)
+            } else {
+                SegmentIntersection::None
+            };
+        }
+        if other.start == other.end {
+            return if self.contains(other.start) {
+                SegmentIntersection::Position(other.start)
+            } else {
+                SegmentIntersection::None
+            };
+        }
+
         // check intersection
         if self == &other {
             return SegmentIntersection::Segment(*self);
@@ -109,18 +125,25 @@ impl<C: Coordinate> Segment<C> {
             } else {
                 // If the offset is also parallel, check for overlap.
                 let da_2 = Position::dot(da, da);
-                // Offset, in units of da.
+                // self.start to other.start and other.end, in units of da.
                 let t0 = Position::dot(offset, da) / da_2;
-                // self.start to other.end, in units of da.
-                let t1 = t0 + Position::dot(da, db) / da_2;
-                let (t_min, t_max) = t0.min_max(t1);
+                let t1 = Position::dot(other.end - self.start, da) / da_2;
+                let ((t_min, min_end), (t_max, max_end)) = if t0 <= t1 {
+                    ((t0, other.start), (t1, other.end))
+                } else {
+                    ((t1, other.end), (t0, other.start))
+                };
                 if t_min > C::one() || t_max < C::zero() {
                     // if min(t0, t1) > 1 or max(t0, t1) < 0, they don't intersect.
                     return SegmentIntersection::None;
                 } else {
-                    // Else, the intersect
-                    let start = self.start + da * t_min.max(C::zero());
-                    let end = self.start + da * t_max.min(C::one());
+                    // Else, they intersect; the shared part ends at endpoints.
+                    let start = if t_min < C::zero() {
+                        self.start
+                    } else {
+                        min_end
+                    };
+                    let end = if t_max > C::one() { self.end } else { max_end };
                     if start == end {
                         return SegmentIntersection::Position(start);
                     } else {
@@ -130,12 +153,30 @@ impl<C: Coordinate> Segment<C> {
             }
         } else {
             // The segments are not parallel, so they are disjoint or intersect at a point
+            // If they share an endpoint, that is the point.
+            if self.start == other.start || self.start == other.end {
+                return SegmentIntersection::Position(self.start);
+            }
+            if self.end == other.start || self.end == other.end {
+                return SegmentIntersection::Position(self.end);
+            }
             // Calculate where the infinite lines would intersect; if these are on the segments
             // then the segments intersect.
             let ta = Position::cross(offset, db) / da_x_db;
             let tb = offset_x_da / da_x_db;
             if C::zero() <= ta && ta <= C::one() && C::zero() <= tb && tb <= C::one() {
-                return SegmentIntersection::Position(self.start + da * ta);
+                // Report endpoints exactly.
+                return SegmentIntersection::Position(if ta == C::zero() {
+                    self.start
+                } else if ta == C::one() {
+                    self.end
+                } else if tb == C::zero() {
+                    other.start
+                } else if tb == C::one() {
+                    other.end
+                } else {
+                    self.start + da * ta
+                });
             }
         }
         SegmentIntersection::None
-- 
2.43.0


From e0a896f66ba75db32c0f497cd2e6cc3bedba7782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 3/8] fix: reject a LineString whose last segment runs through
 its first position

The first and last segment were allowed to share any end point of the first
one, so an open line ending beyond (or touching) its start was called simple.
Consecutive segments may share only the position that joins them, and the
last and first only the position that closes the line.
---
 src/planar/validation/line_string.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/planar/validation/line_string.rs b/src/planar/validation/line_string.rs
index 1acfca7..3da1781 100644
--- a/src/planar/validation/line_string.rs
+++ b/src/planar/validation/line_string.rs
@@ -58,9 +58,14 @@ impl<C: Coordinate> LineString<C> {
                 SegmentIntersection::Position(p) => {
                     // Point intersections are fine at the shared point between
                     // adjacent segments.  In loops this includes the wraparound.
-                    if ((high_id == low_id + 1) || (low_id == 0 && high_id == num_segments - 1))
-                        && (p == first_segment.end || p == first_segment.start)
-                    {
+                    // Consecutive segments meet where one ends and the next starts;
+                    // the last one may also end where the first one starts.
+                    let consecutive = high_id == low_id + 1 && p == first_segment.end;
+                    let closing = low_id == 0
+                        && high_id == num_segments - 1
+                        && p == first_segment.start
+                        && p == second_segment.end;
+                    if consecutive || closing {
                         continue;
                     } else {
                         return intersection_err;
-- 
2.43.0


From a447ff3d74a259cdcf5074793aec995c386c54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 4/8] fix: tell the sides of loops that meet at several
 vertices

The relation of two loops was read off the vertices that are not on the other
loop. Stretches between two contacts were ignored: loops crossing through
shared vertices were called separate, a hole spanning a notch of the exterior
was called inside it, and a loop with all its vertices on the other one was
always called inside (or panicked with "Two loops found inside each other").
The midpoint of each such stretch is now classified as well.
---
 src/planar/algorithms/loop_relation.rs | 75 +++++++++++++++++++++++---
 1 file changed, 68 insertions(+), 7 deletions(-)

diff --git a/src/planar/algorithms/loop_relation.rs b/src/planar/algorithms/loop_relation.rs
index caa0071..898b695 100644
--- a/src/planar/algorithms/loop_relation.rs
+++ b/src/planar/algorithms/loop_relation.rs
@@ -1,4 +1,5 @@
 use crate::Coordinate;
+use std::cmp::Ordering;
 use std::collections::{HashMap, HashSet};
 
 use crate::flatbush::{Flatbush, FlatbushNode, FLATBUSH_DEFAULT_DEGREE};
@@ -59,6 +60,9 @@ pub fn find_loop_loop_relation<C: Coordinate>(
     let mut winding_numbers_1: HashMap<SafePosition<C>, i32> = HashMap::new();
     let mut winding_numbers_2: HashMap<SafePosition<C>, i32> = HashMap::new();
     let mut boundary_positions: HashSet<SafePosition<C>> = HashSet::new();
+    // The boundary positions on each segment, by segment index.
+    let mut touches_1: HashMap<usize, Vec<Position<C>>> = HashMap::new();
+    let mut touches_2: HashMap<usize, Vec<Position<C>>> = HashMap::new();
 
     while let Some((node1, node2)) = stack.pop() {
         if node1.level == 0 && node2.level == 0 {
@@ -75,6 +79,8 @@ pub fn find_loop_loop_relation<C: Coordinate>(
                     } else {
                         intersecting_position = Some(p);
                         boundary_positions.insert(p.to_hashable().unwrap());
+                        touches_1.entry(node1.sibling_index).or_default().push(p);
+                        touches_2.entry(node2.sibling_index).or_default().push(p);
                     }
                 }
                 SegmentIntersection::None => (),
@@ -105,6 +111,18 @@ pub fn find_loop_loop_relation<C: Coordinate>(
         }
     }
 
+    // A stretch between two touches has no vertex of its own to tell its side.
+    let midpoints_1 = _get_touching_midpoints(&segments_1, &touches_1);
+    for midpoint in midpoints_1 {
+        let wn = _get_winding_number(midpoint, &segments_2, &rtree_2);
+        winding_numbers_1.insert(midpoint.to_hashable().unwrap(), wn);
+    }
+    let midpoints_2 = _get_touching_midpoints(&segments_2, &touches_2);
+    for midpoint in midpoints_2 {
+        let wn = _get_winding_number(midpoint, &segments_1, &rtree_1);
+        winding_numbers_2.insert(midpoint.to_hashable().unwrap(), wn);
+    }
+
     let loop_1_relation = _get_loop_relation(&winding_numbers_1, &boundary_positions);
     if loop_1_relation == LoopRelation::Crosses {
         return LoopLoopRelation::Crosses;
@@ -118,13 +136,9 @@ pub fn find_loop_loop_relation<C: Coordinate>(
         (LoopRelation::Outside, LoopRelation::Outside) => LoopLoopRelation::Separate,
         (LoopRelation::Inside, LoopRelation::Outside) => LoopLoopRelation::Within,
         (LoopRelation::Outside, LoopRelation::Inside) => LoopLoopRelation::Contains,
-        (LoopRelation::Inside, LoopRelation::Inside) => {
-            panic!("BUG: Two loops found inside each other.")
-        }
-        (LoopRelation::Crosses, LoopRelation::Crosses) => LoopLoopRelation::Crosses,
-        (LoopRelation::Crosses, _) | (_, LoopRelation::Crosses) => {
-            panic!("BUG: One loop found Crossing but not the other")
-        }
+        // Only coordinates too extreme for the arithmetic seem to be inside each other.
+        (LoopRelation::Inside, LoopRelation::Inside) => LoopLoopRelation::Crosses,
+        (LoopRelation::Crosses, _) | (_, LoopRelation::Crosses) => LoopLoopRelation::Crosses,
     }
 }
 
@@ -154,6 +168,53 @@ fn _maybe_push_other_isxn<C: Coordinate>(
     }
 }
 
+/**
+ * The midpoints of all stretches of a segment between consecutive touches.
+ */
+fn _get_touching_midpoints<C: Coordinate>(
+    segments: &[Segment<C>],
+    touches: &HashMap<usize, Vec<Position<C>>>,
+) -> Vec<Position<C>> {
+    let two = C::one() + C::one();
+    let mut midpoints = Vec::new();
+    for (&index, positions) in touches {
+        let start = segments[index].start;
+        let direction = segments[index].end - start;
+        let mut along: Vec<(C, Position<C>)> = positions
+            .iter()
+            .map(|&p| (Position::dot(p - start, direction), p))
+            .collect();
+        along.sort_by(|(d1, _), (d2, _)| d1.partial_cmp(d2).unwrap_or(Ordering::Equal));
+        for pair in along.windows(2) {
+            let (p1, p2) = (pair[0].1, pair[1].1);
+            let midpoint = (p1 + p2) / two;
+            if p1 != p2 && midpoint.validate().is_ok() {
+                midpoints.push(midpoint);
+            }
+        }
+    }
+    midpoints
+}
+
+/**
+ * The winding number of a loop (given as segments) around a position not on it.
+ */
+fn _get_winding_number<C: Coordinate>(
+    position: Position<C>,
+    segments: &[Segment<C>],
+    rtree: &Flatbush<C>,
+) -> i32 {
+    let right = match rtree.envelope() {
+        Envelope::Empty => return 0,
+        Envelope::Bounds { max, .. } => Position::new(max.x, position.y),
+    };
+    rtree
+        .find_intersection_candidates(Envelope::new(position, right))
+        .into_iter()
+        .map(|index| Segment::find_winding_number(position, segments[index]))
+        .sum()
+}
+
 fn _get_loop_relation<C: Coordinate>(
     winding_numbers: &HashMap<SafePosition<C>, i32>,
     boundary_positions: &HashSet<SafePosition<C>>,
-- 
2.43.0


From 9d120eb35621fa946b6e9c88a28597eee9714fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 5/8] fix: keep the corners of a convex hull whose loop starts
 with collinear positions

---
 src/planar/algorithms/convex_hull.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/planar/algorithms/convex_hull.rs b/src/planar/algorithms/convex_hull.rs
index 9ca1bb0..b035224 100644
--- a/src/planar/algorithms/convex_hull.rs
+++ b/src/planar/algorithms/convex_hull.rs
@@ -26,8 +26,19 @@ pub(crate) fn find_convex_hull_of_simple_loop<C: Coordinate>(
 
     positions.next(); // Drop first point; it's also the last so we'll get to it.
     let a = positions.next().unwrap();
-    let b = positions.next().unwrap();
-    let c = positions.next().unwrap();
+    let mut b = positions.next().unwrap();
+    let mut c = positions.next().unwrap();
+    // Start from a proper triangle: in a simple loop, `b` is between `a` and `c` as long as
+    // they are collinear, so it is not on the hull.
+    while _triple_location(a, b, c) == PositionLocation::On {
+        match positions.next() {
+            Some(pos) => {
+                b = c;
+                c = pos;
+            }
+            None => break,
+        }
+    }
     deque.push_front(c);
     match _triple_location(a, b, c) {
         PositionLocation::Right => {
-- 
2.43.0


From 914d7bd5b6ce4ca7bdec42f57cccb84cd7c9c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 6/8] fix: answer WKT geometry collections with an error

---
 src/serde/wkt.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index b26e4a1..876fe09 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -5,11 +5,24 @@ use crate::planar::types::{
 use wkt;
 
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
+    // The wkt library descends into nested collections until the stack is used up, so
+    // refuse them (they are not supported) before reading.
+    if starts_with_collection(wkt_str) {
+        return Err("GEOMETRYCOLLECTION is not supported");
+    }
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
     let geoms = wkt_geoms.items.into_iter().map(from_wkt_geometry).collect();
     Ok(geoms)
 }
 
+fn starts_with_collection(wkt_str: &str) -> bool {
+    let keyword = "GEOMETRYCOLLECTION";
+    wkt_str
+        .trim_start()
+        .get(..keyword.len())
+        .map_or(false, |word| word.eq_ignore_ascii_case(keyword))
+}
+
 fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
     match geom {
         wkt::Geometry::Point(p) => match from_wkt_point(p) {
@@ -24,7 +37,7 @@ fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
         wkt::Geometry::MultiPoint(mp) => Geometry::from(from_wkt_multi_point(mp)),
         wkt::Geometry::MultiLineString(mls) => Geometry::from(from_wkt_multi_linestring(mls)),
         wkt::Geometry::MultiPolygon(mpoly) => Geometry::from(from_wkt_multi_polygon(mpoly)),
-        _ => unimplemented!(),
+        wkt::Geometry::GeometryCollection(_) => unreachable!("refused by parse_wkt"),
     }
 }
 
-- 
2.43.0


From 4cf1422350c46e7647f37483501064b94c5b8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 7/8] fix: answer text that starts with a malformed number with
 an error

---
 src/serde/wkt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index 876fe09..60b5c6b 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -11,6 +11,10 @@ pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
         return Err("GEOMETRYCOLLECTION is not supported");
     }
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
+    // The wkt library also reads text that starts with a malformed number as no geometry.
+    if wkt_geoms.items.is_empty() && !wkt_str.trim().is_empty() {
+        return Err("Invalid WKT format");
+    }
     let geoms = wkt_geoms.items.into_iter().map(from_wkt_geometry).collect();
     Ok(geoms)
 }
-- 
2.43.0


From c6bee38f22e8c3c36c454a13506b579e1193c333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 8/8] fix: tell crossings that round onto an endpoint from
 touches

---
 src/planar/algorithms/loop_relation.rs     |  3 +++
 src/planar/primitives/segment.rs           | 16 ++++++++++++++++
 src/planar/validation/multi_line_string.rs |  3 +++
 3 files changed, 22 insertions(+)

diff --git a/src/planar/algorithms/loop_relation.rs b/src/planar/algorithms/loop_relation.rs
index 898b695..281a583 100644
--- a/src/planar/algorithms/loop_relation.rs
+++ b/src/planar/algorithms/loop_relation.rs
@@ -73,6 +73,9 @@ pub fn find_loop_loop_relation<C: Coordinate>(
                 SegmentIntersection::Segment(_s) => {
                     return LoopLoopRelation::Crosses;
                 }
+                SegmentIntersection::Position(_) if seg1.crosses(seg2) => {
+                    return LoopLoopRelation::Crosses;
+                }
                 SegmentIntersection::Position(p) => {
                     if ![seg1.start, seg1.end, seg2.start, seg2.end].contains(&p) {
                         return LoopLoopRelation::Crosses;
diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index faa93f5..315d8b5 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -182,6 +182,22 @@ impl<C: Coordinate> Segment<C> {
         SegmentIntersection::None
     }
 
+    /**
+     * Whether each segment has an end strictly to either side of the other.
+     *
+     * The position where such segments intersect is rounded, perhaps onto an endpoint.
+     */
+    pub(crate) fn crosses(&self, other: Segment<C>) -> bool {
+        let separates = |seg: &Segment<C>, start, end| {
+            matches!(
+                (seg.position_location(start), seg.position_location(end)),
+                (PositionLocation::Left, PositionLocation::Right)
+                    | (PositionLocation::Right, PositionLocation::Left)
+            )
+        };
+        separates(self, other.start, other.end) && separates(&other, self.start, self.end)
+    }
+
     /**
      * The winding number is calculated as follows:
      * 1. pos.y must be between the top of the segment (exclusive) and the bottom
diff --git a/src/planar/validation/multi_line_string.rs b/src/planar/validation/multi_line_string.rs
index 5a48ba2..076d197 100644
--- a/src/planar/validation/multi_line_string.rs
+++ b/src/planar/validation/multi_line_string.rs
@@ -29,6 +29,9 @@ impl<C: Coordinate> MultiLineString<C> {
                     SegmentIntersection::Segment(_) => {
                         return intersection_err;
                     }
+                    SegmentIntersection::Position(_) if seg1.crosses(seg2) => {
+                        return intersection_err;
+                    }
                     SegmentIntersection::Position(pos) => {
                         // Allow linestrings to intersect at their endpoints.
                         if let (Geometry::MultiPoint(mp1), Geometry::MultiPoint(mp2)) =
-- 
2.43.0

