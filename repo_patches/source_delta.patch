From 700b209108aebd5eccf53d06103b5069a8276792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 01/24] fix: make map, visibility and instance iterators
 iterate

The iterator implementations were bound to token types that the
corresponding methods never produce, so none of the three could be
iterated at all.
---
 src/dataset/nuscenes.rs                      | 2 +-
 src/dataset/nuscenes/iter_impl/map.rs        | 4 ++--
 src/dataset/nuscenes/iter_impl/visibility.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 1761c2d..f1234ca 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -661,7 +661,7 @@ impl NuScenes {
 
     pub fn instance_iter(
         &self,
-    ) -> Iter<'_, Instance, HashMapKeys<'_, LongToken, InstanceInternal>> {
+    ) -> Iter<'_, InstanceInternal, HashMapKeys<'_, LongToken, InstanceInternal>> {
         self.refer_iter(self.instance_map.keys())
     }
 
diff --git a/src/dataset/nuscenes/iter_impl/map.rs b/src/dataset/nuscenes/iter_impl/map.rs
index 6354e05..5376d16 100644
--- a/src/dataset/nuscenes/iter_impl/map.rs
+++ b/src/dataset/nuscenes/iter_impl/map.rs
@@ -13,13 +13,13 @@ impl<'a> WithDataset<'a, Map> {
 
 impl<'a, It> Iterator for Iter<'a, Map, It>
 where
-    It: Iterator<Item = ShortToken>,
+    It: Iterator<Item = &'a ShortToken>,
 {
     type Item = WithDataset<'a, Map>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.map_map[&token]))
+            .map(|token| self.refer(&self.dataset.map_map[token]))
     }
 }
diff --git a/src/dataset/nuscenes/iter_impl/visibility.rs b/src/dataset/nuscenes/iter_impl/visibility.rs
index 524e54a..0f8f197 100644
--- a/src/dataset/nuscenes/iter_impl/visibility.rs
+++ b/src/dataset/nuscenes/iter_impl/visibility.rs
@@ -2,13 +2,13 @@ use super::super::{iter::Iter, schema::Visibility, WithDataset};
 
 impl<'a, It> Iterator for Iter<'a, Visibility, It>
 where
-    It: Iterator<Item = String>,
+    It: Iterator<Item = &'a String>,
 {
     type Item = WithDataset<'a, Visibility>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.visibility_map[&token]))
+            .map(|token| self.refer(&self.dataset.visibility_map[token]))
     }
 }
-- 
2.43.0


From 701867b84d7f1b08c017ba81eb32cae581e8472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 02/24] fix: rotate positions by the quaternion instead of its
 inverse

The row vector was multiplied by the rotation matrix from the left, which
is the inverse rotation; rotate and rotate_inv were swapped.
---
 src/utils/math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 303b72f..56410a1 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -149,7 +149,8 @@ pub fn translate_inv(xyz1: &[f64; 3], xyz2: &[f64; 3]) -> [f64; 3] {
 /// ```
 pub fn rotate(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
     let rot = quaternion2rotation(q);
-    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot;
+    // The position is a row vector, so the transposed matrix applies the rotation.
+    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot.transpose();
     let row = position.row(0);
     [row[0], row[1], row[2]]
 }
-- 
2.43.0


From 155e77dc3347ac4f8f1ce3eea29e5320da91e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 03/24] fix: rotate quaternions with the quaternion product

The components were multiplied one by one, which is not a rotation.
---
 src/utils/math.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 56410a1..c2dbf59 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -193,11 +193,13 @@ pub fn rotate_inv(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
 /// assert_eq!(ret, [1.0, 0.0, 0.0, 0.0]);
 /// ```
 pub fn rotate_q(q1: &[f64; 4], q2: &[f64; 4]) -> [f64; 4] {
-    let mut ret = q1.to_owned();
-    for i in 0..4 {
-        ret[i] *= q2[i];
-    }
-    ret
+    // Hamilton product q2 * q1
+    [
+        q2[0] * q1[0] - q2[1] * q1[1] - q2[2] * q1[2] - q2[3] * q1[3],
+        q2[0] * q1[1] + q2[1] * q1[0] + q2[2] * q1[3] - q2[3] * q1[2],
+        q2[0] * q1[2] - q2[1] * q1[3] + q2[2] * q1[0] + q2[3] * q1[1],
+        q2[0] * q1[3] + q2[1] * q1[2] - q2[2] * q1[1] + q2[3] * q1[0],
+    ]
 }
 
 /// Inverse rotate `q1` with input `q2`.
-- 
2.43.0


From 7e23c3dd5c9ad911ec070c6acf3b0f4ade61c136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 04/24] fix: keep the quadrant of euler angles and avoid NaN
 pitch

atan lost the quadrant of roll and yaw (headings beyond 90 degrees were
folded), and rounding at a pitch of 90 degrees gave NaN.
---
 src/utils/math.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index c2dbf59..2405a31 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -52,13 +52,10 @@ pub fn quaternion2rotation(q: &[f64; 4]) -> RotationMatrix<f64> {
 /// ```
 pub fn quaternion2euler(q: &[f64; 4]) -> [f64; 3] {
     let [q0, q1, q2, q3] = q;
-    let roll = (2.0 * (q0 * q1 + q2 * q3) / (1.0 - 2.0 * (q1.powi(2) + q2.powi(2)))).atan();
-    let pitch = -0.5 * PI
-        + 2.0
-            * ((1.0 + 2.0 * (q0 * q2 - q1 * q3)) / (1.0 - 2.0 * (q0 * q2 - q1 * q3)))
-                .sqrt()
-                .atan();
-    let yaw = (2.0 * (q0 * q3 + q1 * q2) / (1.0 - 2.0 * (q2.powi(2) + q3.powi(2)))).atan();
+    let roll = (2.0 * (q0 * q1 + q2 * q3)).atan2(1.0 - 2.0 * (q1.powi(2) + q2.powi(2)));
+    let sin_pitch = (2.0 * (q0 * q2 - q1 * q3)).max(-1.0).min(1.0);
+    let pitch = -0.5 * PI + 2.0 * (1.0 + sin_pitch).sqrt().atan2((1.0 - sin_pitch).sqrt());
+    let yaw = (2.0 * (q0 * q3 + q1 * q2)).atan2(1.0 - 2.0 * (q2.powi(2) + q3.powi(2)));
     [roll, pitch, yaw]
 }
 
-- 
2.43.0


From 59177dceca212e4f5d325fcd127435c2a82a5791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 05/24] fix: rotate footprints by the orientation instead of
 its inverse

---
 src/object/object3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/object3d.rs b/src/object/object3d.rs
index 1f76a00..498eb0a 100644
--- a/src/object/object3d.rs
+++ b/src/object/object3d.rs
@@ -436,7 +436,7 @@ impl DynamicObject {
         center2corners
             .row_iter()
             .map(|corner| {
-                let mat = corner * rot + position;
+                let mat = corner * rot.transpose() + position;
                 [mat[(0, 0)], mat[(0, 1)], mat[(0, 2)]]
             })
             .collect()
-- 
2.43.0


From 13160ec5274afd86f33323bccf910ba2287c8e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 06/24] fix: intersect heights for the 3D IoU

The span of both boxes was used as the height of their intersection.
---
 src/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index 5c2a90c..b51ffce 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -216,7 +216,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] - ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
@@ -226,7 +226,7 @@ fn get_intersection_height(
             ground_truth_object.position[2] + ground_truth_object.size[2] * 0.5,
         ]
         .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.partial_cmp(b).unwrap())
         .unwrap()
     };
 
-- 
2.43.0


From bd7b83cb0f6f86c17f6b4c49107b123c42409417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:06 +0000
Subject: [PATCH 07/24] fix: do not panic when intersecting footprints

The boolean operations of geo panic on many pairs of touching or nearly
coincident boxes. Footprints are convex, so they can be clipped directly.
---
 src/matching.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/matching.rs b/src/matching.rs
index b51ffce..ac3da4a 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -3,7 +3,7 @@ use std::cmp::Ordering;
 use crate::utils::point::{distance_points_bev, get_point_left_right};
 
 use super::object::object3d::DynamicObject;
-use geo::{polygon, Area, BooleanOps, Coord, Polygon};
+use geo::{polygon, Area, Coord, LineString, Polygon};
 use thiserror::Error as ThisError;
 
 pub type MatchingResult<T> = Result<T, MatchingError>;
@@ -203,7 +203,38 @@ fn get_intersection_area(
     let est_polygon = get_polygon(estimated_object);
     let gt_polygon = get_polygon(ground_truth_object);
 
-    est_polygon.intersection(&gt_polygon).unsigned_area()
+    intersect_convex(&est_polygon, &gt_polygon).unsigned_area()
+}
+
+/// Returns the intersection of two convex polygons (Sutherland-Hodgman algorithm).
+///
+/// * `subject` - Convex polygon.
+/// * `clip`    - Convex polygon.
+fn intersect_convex(subject: &Polygon<f64>, clip: &Polygon<f64>) -> Polygon<f64> {
+    let orientation = if clip.signed_area() < 0.0 { -1.0 } else { 1.0 };
+    let mut points: Vec<Coord<f64>> = subject.exterior().coords().skip(1).copied().collect();
+    for edge in clip.exterior().lines() {
+        // Positive on the inner side of the edge
+        let side = |p: &Coord<f64>| -> f64 {
+            orientation
+                * ((edge.end.x - edge.start.x) * (p.y - edge.start.y)
+                    - (edge.end.y - edge.start.y) * (p.x - edge.start.x))
+        };
+        let mut clipped = Vec::with_capacity(points.len() + 1);
+        for (i, current) in points.iter().enumerate() {
+            let next = &points[(i + 1) % points.len()];
+            let (side_current, side_next) = (side(current), side(next));
+            if 0.0 <= side_current {
+                clipped.push(*current);
+            }
+            if side_current * side_next < 0.0 {
+                let ratio = side_current / (side_current - side_next);
+                clipped.push(*current + (*next - *current) * ratio);
+            }
+        }
+        points = clipped;
+    }
+    Polygon::new(LineString::new(points), vec![])
 }
 
 fn get_intersection_height(
-- 
2.43.0


From 688018d5977841c40a466ec72de7f5739b32061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:59 +0000
Subject: [PATCH 08/24] fix: match each estimation and each ground truth at
 most once

Estimations were reported once per ground truth, ground truths were
shared between estimations, and unmatched estimations were dropped.
---
 src/result/object.rs | 78 +++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 44 deletions(-)

diff --git a/src/result/object.rs b/src/result/object.rs
index d679461..77fd8d6 100644
--- a/src/result/object.rs
+++ b/src/result/object.rs
@@ -249,57 +249,47 @@ pub fn get_perception_results(
     } else {
         let mut score_table: Vec<Vec<Option<f64>>> =
             get_score_table(estimated_objects, ground_truth_objects, matching_method);
-        let mut took_indices = Vec::new();
         let num_estimated_objects = estimated_objects.len();
-        for _ in 0..num_estimated_objects {
-            if score_table
-                .iter()
-                .all(|row| row.iter().all(|col| col.is_none()))
-            {
-                break;
-            }
-            for (est_idx, row_table) in score_table.iter_mut().enumerate() {
-                let (gt_idx, _) = row_table.iter().enumerate().fold(
-                    (usize::MAX, f64::MAX),
-                    |(a_idx, a), (b_idx, b)| match b {
-                        Some(b) => {
-                            if a < *b {
-                                (a_idx, a)
-                            } else {
-                                (b_idx, *b)
-                            }
-                        }
-                        None => (a_idx, a),
-                    },
-                );
-
-                if gt_idx == usize::MAX {
-                    continue;
-                }
-
-                results.push(PerceptionResult {
-                    estimated_object: estimated_objects[est_idx].to_owned(),
-                    ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
-                });
+        let mut is_matched = vec![false; num_estimated_objects];
+        // Repeatedly take the pair with the best score out of the table.
+        while let Some((est_idx, gt_idx)) = find_best_pair(&score_table) {
+            results.push(PerceptionResult {
+                estimated_object: estimated_objects[est_idx].to_owned(),
+                ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
+            });
 
-                row_table[gt_idx] = None;
-                took_indices.push(est_idx);
-            }
+            // Both of them must not be matched again.
+            score_table[est_idx].iter_mut().for_each(|col| *col = None);
+            score_table.iter_mut().for_each(|row| row[gt_idx] = None);
+            is_matched[est_idx] = true;
         }
 
-        if took_indices.len() < num_estimated_objects {
-            let index_list = (0..num_estimated_objects).collect::<Vec<usize>>();
-            let mut fp_estimated_objects = Vec::new();
-            index_list.iter().for_each(|idx| {
-                if took_indices.contains(idx) {
-                    fp_estimated_objects.push(estimated_objects[*idx].to_owned());
+        let fp_estimated_objects = estimated_objects
+            .iter()
+            .zip(is_matched.iter())
+            .filter(|(_, is_matched)| !**is_matched)
+            .map(|(obj, _)| obj.to_owned())
+            .collect::<Vec<DynamicObject>>();
+        results.append(&mut get_fp_perception_results(&fp_estimated_objects));
+        results
+    }
+}
+
+/// Returns indices of the estimated and ground truth object that have the smallest score in the table.
+///
+/// * `score_table` - NxM score table.
+fn find_best_pair(score_table: &[Vec<Option<f64>>]) -> Option<(usize, usize)> {
+    let mut best: Option<(usize, usize, f64)> = None;
+    for (est_idx, row) in score_table.iter().enumerate() {
+        for (gt_idx, col) in row.iter().enumerate() {
+            if let Some(score) = col {
+                if best.map_or(true, |(_, _, best_score)| *score < best_score) {
+                    best = Some((est_idx, gt_idx, *score));
                 }
-            });
-            let mut fp_results = get_fp_perception_results(&fp_estimated_objects);
-            results.append(&mut fp_results);
+            }
         }
-        results
     }
+    best.map(|(est_idx, gt_idx, _)| (est_idx, gt_idx))
 }
 
 /// Returns list of `PerceptionResult` that ground_truth_object of each result is None, it means FP.
-- 
2.43.0


From 60cae1f51bb0761b55d83c8c9d5a59386211b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 09/24] fix: score 0 instead of panicking when nothing is
 estimated

A label with ground truths but without any result panicked.
---
 src/metrics/detection.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index f6600db..7f1083f 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -130,7 +130,11 @@ impl<'a> Ap<'a> {
             self.interpolate_precision_recall(precision_list, recall_list);
 
         if max_precision_list.is_empty() {
-            f64::NAN
+            if *self.num_ground_truth == 0 {
+                f64::NAN
+            } else {
+                0.0
+            }
         } else {
             let mut ap = 0.0;
             for i in 0..max_precision_list.len() - 1 {
@@ -149,7 +153,7 @@ impl<'a> Ap<'a> {
         precision_list: Vec<f64>,
         recall_list: Vec<f64>,
     ) -> (Vec<f64>, Vec<f64>) {
-        if self.results.is_empty() && *self.num_ground_truth == 0 {
+        if self.results.is_empty() {
             (Vec::new(), Vec::new())
         } else {
             let mut max_precision_list = vec![*precision_list.last().unwrap()];
-- 
2.43.0


From 49987729ae62a85547d5d8b7dff3d8a43635a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 10/24] fix: interpolate the precision-recall curve backwards
 down to recall 0

The curve was walked forwards from its last point and never closed, so
even perfect estimations scored 0.
---
 src/metrics/detection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index 7f1083f..c580bf0 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -158,12 +158,15 @@ impl<'a> Ap<'a> {
         } else {
             let mut max_precision_list = vec![*precision_list.last().unwrap()];
             let mut max_recall_list = vec![*recall_list.last().unwrap()];
-            for i in 0..recall_list.len() - 1 {
+            for i in (0..recall_list.len() - 1).rev() {
                 if max_precision_list.last().unwrap() < &precision_list[i] {
                     max_precision_list.push(precision_list[i]);
                     max_recall_list.push(recall_list[i]);
                 }
             }
+            // Extend the last precision down to recall 0
+            max_precision_list.push(*max_precision_list.last().unwrap());
+            max_recall_list.push(0.0);
             (max_precision_list, max_recall_list)
         }
     }
-- 
2.43.0


From 2b1ff30a6b28f40f0b5622c7aa11e1f82c112a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:13 +0000
Subject: [PATCH 11/24] fix: rank results by confidence to calculate AP

The results were ranked in the order they were added.
---
 src/metrics/detection.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index c580bf0..6008c0a 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -218,7 +218,15 @@ impl<'a> Ap<'a> {
             let mut tp_list = vec![0.0; num_results];
             let mut fp_list = vec![0.0; num_results];
 
-            self.results.iter().enumerate().for_each(|(i, result)| {
+            // The curve is built from the most to the least confident result
+            let mut results = self.results.iter().collect::<Vec<_>>();
+            results.sort_by(|a, b| {
+                b.estimated_object
+                    .confidence
+                    .total_cmp(&a.estimated_object.confidence)
+            });
+
+            results.iter().enumerate().for_each(|(i, result)| {
                 if result.is_result_correct(matching_mode, threshold).unwrap() {
                     tp_list[i] = tp_metrics.get_value(result);
                 } else {
-- 
2.43.0


From 5cfe1ac964f9f7e303dbd54aa934dbef2874c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 12/24] fix: count ground truths once when a target label is
 listed twice

Two names of one label (e.g. pedestrian and walker) doubled the number of
ground truths and halved the recall.
---
 src/manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manager.rs b/src/manager.rs
index 96ea69b..8922a42 100644
--- a/src/manager.rs
+++ b/src/manager.rs
@@ -128,7 +128,7 @@ impl<'a> PerceptionEvaluationManager<'a> {
 
         self.frame_results.iter().for_each(|frame| {
             let mut result_map = hash_results(frame.results(), target_labels);
-            let num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
+            let mut num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
             target_labels.iter().for_each(|label| {
                 if let Some(results) = scene_results.get_mut(label) {
                     if let Some(result) = result_map.get_mut(label) {
@@ -136,7 +136,7 @@ impl<'a> PerceptionEvaluationManager<'a> {
                     }
                 };
                 if let Some(num_gts) = num_scene_gt.get_mut(label) {
-                    if let Some(num_gt) = num_gt_map.get(label) {
+                    if let Some(num_gt) = num_gt_map.remove(label) {
                         *num_gts += num_gt
                     }
                 };
-- 
2.43.0


From a4518202dbc34d89aceb521dba25c27e1f5e6b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 13/24] fix: load datasets with samples that have no annotation

---
 src/dataset/nuscenes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index f1234ca..589a060 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -535,9 +535,10 @@ impl NuScenes {
                 let sample_data_tokens = sample_to_sample_data_groups
                     .remove(&sample_token)
                     .ok_or(NuScenesError::InternalBug)?;
+                // A sample does not need to have any annotation
                 let annotation_tokens = sample_to_annotation_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let internal = SampleInternal::from(sample, annotation_tokens, sample_data_tokens);
                 Ok((sample_token, internal))
             })
-- 
2.43.0


From 21b540dde91477e1ae25e487b5d02cf589dbbadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 14/24] fix: skip missing logs of a map instead of panicking

Loading tolerates maps that refer to logs that do not exist, so iterating
over the logs of a map has to do so as well.
---
 src/dataset/nuscenes/iter_impl/log.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/log.rs b/src/dataset/nuscenes/iter_impl/log.rs
index 68479ca..fdf9b70 100644
--- a/src/dataset/nuscenes/iter_impl/log.rs
+++ b/src/dataset/nuscenes/iter_impl/log.rs
@@ -22,8 +22,10 @@ where
     type Item = WithDataset<'a, Log>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.tokens_iter
-            .next()
-            .map(|token| self.refer(&self.dataset.log_map[token]))
+        // Maps may refer to logs that do not exist
+        let log = self
+            .tokens_iter
+            .find_map(|token| self.dataset.log_map.get(token))?;
+        Some(self.refer(log))
     }
 }
-- 
2.43.0


From 83cc7e88759277da80b6148f4278b415514a8910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 15/24] fix: add annotations once when a sample has several
 lidar data

Every lidar at the time of the sample added all annotations again.
---
 src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dataset.rs b/src/dataset.rs
index d1ad518..6eb0153 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -113,6 +113,8 @@ fn sample_to_frame(
                 uuid: Some(nusc_box.instance.to_string()),
             });
         });
+        // Every sensor data of the sample has the same annotations
+        break;
     }
 
     let ret = FrameGroundTruth {
-- 
2.43.0


From 2731306546285d7be6da6da424e6a71a8a174807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:09 +0000
Subject: [PATCH 16/24] fix: write timestamps in the unit they are read in

---
 src/dataset/nuscenes/schema.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 61d43fa..9c258cd 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -579,8 +579,9 @@ mod timestamp_serde {
     where
         S: Serializer,
     {
-        let timestamp = value.timestamp_nanos_opt().unwrap() as f64 / 1_000_000_000.0;
-        serializer.serialize_f64(timestamp)
+        let timestamp_us = value.timestamp_micros() as f64
+            + (value.timestamp_subsec_nanos() % 1_000) as f64 / 1_000.0; // in us
+        serializer.serialize_f64(timestamp_us)
     }
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<NaiveDateTime, D::Error>
-- 
2.43.0


From 81540ba7e45b1eece4cc1201b4060aabf47fc8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 17/24] fix: keep the points of a point cloud file in its rows

---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index 7531258..a9c4a8e 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -6,8 +6,7 @@ use super::super::{
     {LoadedSampleData, PointCloudMatrix, WithDataset},
 };
 // use memmap::MmapOptions;
-use nalgebra::{Dyn, VecStorage, U5};
-use safe_transmute::guard::SingleManyGuard;
+use safe_transmute::guard::PedanticGuard;
 use std::{
     fs::File,
     io::{prelude::*, BufReader, Result as IoResult},
@@ -42,16 +41,14 @@ impl<'a> WithDataset<'a, SampleData> {
                 match dirname {
                     "lidar" => {
                         let bytes = self.load_raw()?;
-                        let values = safe_transmute::transmute_many::<f32, SingleManyGuard>(&bytes)
+                        let values = safe_transmute::transmute_many::<f32, PedanticGuard>(&bytes)
                             .map_err(|_| NuScenesError::CorruptedFile(path.clone()))?;
                         if values.len() % 5 != 0 {
                             return Err(NuScenesError::CorruptedFile(path));
                         }
-                        let n_rows = values.len() / 5;
 
                         // TODO: this step takes one copy of the buffer. try to use more efficient impl.
-                        let storage = VecStorage::new(Dyn(n_rows), U5, Vec::from(values));
-                        let matrix = PointCloudMatrix::from_data(storage);
+                        let matrix = PointCloudMatrix::from_row_slice(values);
                         LoadedSampleData::PointCloud(matrix)
                     }
                     _ => {
-- 
2.43.0


From 71f1f60b589a159f3cbdc37f457563e88dd79cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 18/24] fix: allow to configure the logger more than once

---
 src/utils/logger.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/utils/logger.rs b/src/utils/logger.rs
index 5ffa2df..bbcdfda 100644
--- a/src/utils/logger.rs
+++ b/src/utils/logger.rs
@@ -3,14 +3,20 @@ use log4rs::{
     append::file::FileAppender,
     config::{Appender, Config, Root},
     encode::pattern::PatternEncoder,
+    Handle,
 };
 use std::error::Error;
 use std::path::Path;
+use std::sync::{Mutex, PoisonError};
+
+/// Handle of the logger, once it has been configured.
+static HANDLE: Mutex<Option<Handle>> = Mutex::new(None);
 
 pub type LoggerResult<T> = std::result::Result<T, Box<dyn Error>>;
 
 /// Configure logger instance.
 /// The log output will be saved in `log_dir/output.log`.
+/// If the logger has already been configured, it is configured again.
 ///
 /// * `log_dir` - Directory path to save output log.
 /// * `level`   - Logging level.
@@ -44,7 +50,11 @@ pub fn configure_logger(log_dir: &Path, level: Level) -> LoggerResult<()> {
         .appender(Appender::builder().build("logfile", Box::new(logfile)))
         .build(Root::builder().appender("logfile").build(level_filter))?;
 
-    log4rs::init_config(config)?;
+    let mut handle = HANDLE.lock().unwrap_or_else(PoisonError::into_inner);
+    match handle.as_ref() {
+        Some(handle) => handle.set_config(config),
+        None => *handle = Some(log4rs::init_config(config)?),
+    }
 
     Ok(())
 }
-- 
2.43.0


From 8e2dee439677820af9a2afc2ad897a126a6afef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 19/24] fix: return an error if the log of a scenario cannot be
 written

---
 src/config.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 4e24f01..8fd91cb 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -8,7 +8,7 @@ use itertools::Itertools;
 use serde::de::DeserializeOwned;
 use std::{
     fs::File,
-    io::{BufReader, Error as IoError},
+    io::{BufReader, Error as IoError, ErrorKind},
     path::{Path, PathBuf},
     vec,
 };
@@ -108,7 +108,8 @@ impl PerceptionEvaluationConfig {
         let log_dir = result_dir.join("log");
         let viz_dir = result_dir.join("visualize");
 
-        configure_logger(&log_dir, log::Level::Debug).unwrap();
+        configure_logger(&log_dir, log::Level::Debug)
+            .map_err(|err| IoError::new(ErrorKind::Other, err.to_string()))?;
 
         let config = Self {
             version,
-- 
2.43.0


From ec35d059a67e09bfb4f0dfe49344d4e6c73e6f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 20/24] fix: return an error for an unknown task or frame in a
 scenario

---
 src/config/schema.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/config/schema.rs b/src/config/schema.rs
index 0a05de1..67624b9 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -89,7 +89,7 @@ mod evaluation_task_serde {
     use std::str::FromStr;
 
     use crate::evaluation_task::EvaluationTask;
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error, Deserialize, Deserializer, Serializer};
 
     pub fn serialize<S>(value: &EvaluationTask, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -104,15 +104,15 @@ mod evaluation_task_serde {
         D: Deserializer<'de>,
     {
         let task_str = String::deserialize(deserializer)?;
-        let task = EvaluationTask::from_str(&task_str).unwrap(); // TODO: update result type
-        Ok(task)
+        EvaluationTask::from_str(&task_str)
+            .map_err(|_| D::Error::custom(format!("unexpected evaluation task: {}", task_str)))
     }
 }
 
 mod frame_id_serde {
     use std::str::FromStr;
 
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error, Deserialize, Deserializer, Serializer};
 
     use crate::frame_id::FrameID;
 
@@ -129,7 +129,7 @@ mod frame_id_serde {
         D: Deserializer<'de>,
     {
         let frame_id_str = String::deserialize(deserializer)?;
-        let frame_id = FrameID::from_str(&frame_id_str).unwrap(); // TODO
-        Ok(frame_id)
+        FrameID::from_str(&frame_id_str)
+            .map_err(|_| D::Error::custom(format!("unexpected frame id: {}", frame_id_str)))
     }
 }
-- 
2.43.0


From 5745626b7b85ccb38916bdf33feb104f31ac0504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 21/24] fix: return an error for a scenario without datasets

---
 src/config.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 8fd91cb..7027041 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -74,13 +74,18 @@ impl PerceptionEvaluationConfig {
     /// }
     /// ```
     pub fn from(scenario: &str, result_dir: &str, load_raw_data: bool) -> ConfigResult<Self> {
-        let scenario: Scenario = load_yaml(scenario)?;
+        let scenario_path = scenario;
+        let scenario: Scenario = load_yaml(scenario_path)?;
         let datasets = scenario.evaluation.datasets;
+        let dataset = datasets.first().ok_or_else(|| {
+            let msg = format!("no dataset is listed in scenario file {}", scenario_path);
+            ConfigError::CorruptedFile(msg)
+        })?;
 
         // TODO
         let mut dataset_path = PathBuf::new();
         let mut version = String::new();
-        for (key, value) in &datasets[0] {
+        for (key, value) in dataset {
             dataset_path.set_file_name(key);
             version = value.version.clone();
         }
-- 
2.43.0


From da79079b6cbbb284829b2f5dca57a9b212c22c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 22/24] fix: read timestamps to the exact microsecond

---
 src/dataset/nuscenes/schema.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 9c258cd..0cf898f 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -589,9 +589,9 @@ mod timestamp_serde {
         D: Deserializer<'de>,
     {
         let timestamp_us = f64::deserialize(deserializer)?; // in us
-        let timestamp_ns = (timestamp_us * 1000.0) as u64; // in ns
-        let secs = timestamp_ns / 1_000_000_000;
-        let nsecs = timestamp_ns % 1_000_000_000;
+        let whole_us = timestamp_us as u64; // exact, unlike the time in ns
+        let secs = whole_us / 1_000_000;
+        let nsecs = whole_us % 1_000_000 * 1_000 + (timestamp_us.fract() * 1_000.0) as u64;
         let datetime = NaiveDateTime::from_timestamp_opt(secs as i64, nsecs as u32);
         match datetime {
             Some(value) => Ok(value),
-- 
2.43.0


From 8aa34b8c5afdb2ce1c4185c50a10e3c32581b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 23/24] fix: load point clouds of nuScenes and T4 datasets,
 whose directories are named LIDAR_...

---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index a9c4a8e..efd0a95 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -38,8 +38,9 @@ impl<'a> WithDataset<'a, SampleData> {
 
         let data = match self.inner.fileformat {
             FileFormat::Bin => {
-                match dirname {
-                    "lidar" => {
+                match dirname.to_lowercase() {
+                    // e.g. lidar, LIDAR_TOP or LIDAR_CONCAT
+                    name if name.starts_with("lidar") => {
                         let bytes = self.load_raw()?;
                         let values = safe_transmute::transmute_many::<f32, PedanticGuard>(&bytes)
                             .map_err(|_| NuScenesError::CorruptedFile(path.clone()))?;
-- 
2.43.0


From e1ae5040486b7e73211bd8d0eaab98d691296830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 24/24] fix: boxes without area share nothing

---
 src/matching.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matching.rs b/src/matching.rs
index ac3da4a..76a3ca5 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -173,6 +173,11 @@ fn get_intersection_area(
     estimated_object: &DynamicObject,
     ground_truth_object: &DynamicObject,
 ) -> f64 {
+    // A box without area shares nothing
+    if estimated_object.area() == 0.0 || ground_truth_object.area() == 0.0 {
+        return 0.0;
+    }
+
     let get_polygon = |object: &DynamicObject| -> Polygon<f64> {
         let footprint = object.footprint();
         let poly = polygon![
-- 
2.43.0

