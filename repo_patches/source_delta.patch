From 01ee3747c5a638914b91c68c4149d44ab787d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 01/54] fix: polygon intersection of boxes whose edges (nearly)
 coincide

The edge-chasing algorithm only stops when it meets its first intersection
point again bit for bit. With nearly coincident edges it does not, and the
area came out as 0 (IoU 0 for a box nested in another of the same width) or
several times too large (CHECK failure in ComputeIoU). Clip with half planes
instead, which has no such special cases.
---
 src/waymo_open_dataset/math/polygon2d.cc | 149 ++++-------------------
 1 file changed, 25 insertions(+), 124 deletions(-)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 31ed180..88f6858 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -363,136 +363,37 @@ std::vector<Vec2d> Polygon2d::ComputeIntersectionVertices(
     return {};
   }
 
-  // This algorithm is from the following paper:
-  //
-  // O'Rourke, Joseph, et al. "A new linear algorithm for intersecting convex
-  // polygons." Computer Graphics and Image Processing 19.4 (1982): 384-391.
-  //
-  // The algorithm can be viewed as a geometric generalization of merging two
-  // sorted lists. It performs a counter-clockwise traversal of the boundaries
-  // of the two polygons. The algorithm maintains a pair of edges, one from each
-  // polygon. From a consideration of the relative positions of these edges the
-  // algorithm advances one of them to the next edge in counterclockwise order
-  // around its polygon. Intuitively, this is done in such a way that these two
-  // edges effectively “chase” each other around the boundary of the
-  // intersection polygon.
-
-  // We use P and Q to represent this polygon and the other one.
-  const std::vector<Vec2d>& other_points = other.points();
-  bool p_inside = false, q_inside = false;
-  const int total_num_points = NumPoints() + other.NumPoints();
-  std::vector<Vec2d> convex_points;
-  convex_points.reserve(total_num_points);
-
-  // A lambda that is used to append a new convex point to the list. We ignore
-  // the point that is identical to either the first or the last convex point in
-  // the list to handle corner cases, in which two polygons may "intersect" with
-  // either a point or an edge.
-  const auto append_convex_point = [](Vec2d p, std::vector<Vec2d>* convex_pts) {
-    if (convex_pts->empty() ||
-        (p != convex_pts->front() && p != convex_pts->back())) {
-      convex_pts->push_back(p);
-    }
-  };
+  // A degenerate polygon has no interior to intersect with.
+  if (Area() == 0.0 || other.Area() == 0.0) {
+    return {};
+  }
 
-  int p_idx = 0, q_idx = 0;
-  int p_idx_next = 1, q_idx_next = 1;
-  Vec2d p0 = points_[p_idx];
-  Vec2d p1 = points_[p_idx_next];
-  Vec2d q0 = other_points[q_idx];
-  Vec2d q1 = other_points[q_idx_next];
-
-  for (int i = 0; i < total_num_points * 2; ++i) {
-    // If we found a intersection between <p0, p1> and <q0, q1>, put the
-    // intersection into the convex points list, and check that after the
-    // intersection whose points will be inside and hence recorded. If we reach
-    // the first intersection point, we are done.
-    Vec2d inter;
-    const double det = CrossMaybeExact(p0, p1, q1, q0);
-    if (ExactIntersection(p0, p1, q0, q1, det, &inter)) {
-      if (convex_points.size() > 2 && inter == convex_points[0]) {
-        return convex_points;
-      }
-      if (convex_points.empty()) {
-        // When we found the first intersection, we only need to iterate this
-        // loop at most total_num_points + 1 times to get back to this
-        // intersection.
-        i = total_num_points - 1;
-      }
-      append_convex_point(inter, &convex_points);
-      // If p1 is on the left of <q0, q1>, mark P as inside; otherwise mark Q as
-      // inside.
-      if (CrossMaybeExact(q1, q0, p1, q0) >= 0.0) {
-        p_inside = true;
-        q_inside = false;
-      } else {
-        p_inside = false;
-        q_inside = true;
+  // Clip this polygon by the half plane to the left of each edge of the other
+  // one (Sutherland-Hodgman). A rounding error in the side of a point that lies
+  // on (or nearly on) an edge moves the result by at most that error, so edges
+  // that coincide need no special treatment.
+  std::vector<Vec2d> convex_points = points_;
+  std::vector<Vec2d> input;
+  for (int i = 0; i < other.NumPoints() && !convex_points.empty(); ++i) {
+    const Vec2d q0 = other.points_[i];
+    const Vec2d q1 = other.points_[other.Next(i)];
+    input.swap(convex_points);
+    convex_points.clear();
+    Vec2d p0 = input.back();
+    double side0 = Cross(q0, q1, p0);
+    for (const Vec2d p1 : input) {
+      const double side1 = Cross(q0, q1, p1);
+      if ((side0 < 0.0) != (side1 < 0.0)) {
+        convex_points.push_back(p0 + (p1 - p0) * (side0 / (side0 - side1)));
       }
-    }
-
-    // Determine in which polygon we would like to advance according to the
-    // "advance rule" in the algorithm.
-    const bool advance_p = (det >= 0.0)
-                               ? CrossMaybeExact(q1, q0, p1, q0) < 0.0
-                               : CrossMaybeExact(p1, p0, q1, p0) >= 0.0;
-
-    if (advance_p) {
-      if (p_inside) {
-        append_convex_point(p1, &convex_points);
+      if (side1 >= 0.0) {
+        convex_points.push_back(p1);
       }
-      p_idx = p_idx_next;
       p0 = p1;
-      p_idx_next = Next(p_idx_next);
-      p1 = points_[p_idx_next];
-    } else {
-      if (q_inside) {
-        append_convex_point(q1, &convex_points);
-      }
-      q_idx = q_idx_next;
-      q0 = q1;
-      q_idx_next = other.Next(q_idx_next);
-      q1 = other_points[q_idx_next];
-    }
-  }
-
-  // Handle the case that those two polygons share one vertex or (part of) one
-  // edge, in which case the intersection is empty.
-  if (!convex_points.empty()) {
-    return {};
-  }
-
-  // Now we have three cases:
-  //   1. P is inside of Q.
-  //   2. Q is inside of P.
-  //   3. P and Q don't intersect.
-
-  // Check the case 1.
-  bool p_is_inside = true;
-  for (const auto& point : points_) {
-    if (!other.PointInside(point)) {
-      p_is_inside = false;
-      break;
+      side0 = side1;
     }
   }
-  if (p_is_inside) {
-    return points_;
-  }
-
-  // Check the case 2.
-  bool q_is_inside = true;
-  for (const auto& point : other_points) {
-    if (!PointInside(point)) {
-      q_is_inside = false;
-      break;
-    }
-  }
-  if (q_is_inside) {
-    return other.points_;
-  }
-
-  // P and Q don't intersect.
-  return {};
+  return convex_points;
 }
 
 double Polygon2d::ComputeIntersectionArea(const Polygon2d& other) const {
-- 
2.43.0


From d4e28208db58737579d74707f948a8f46e6c7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 02/54] fix: PositiveModulo returned its modulus for some exact
 multiples

---
 src/waymo_open_dataset/math/math_util.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/math/math_util.h b/src/waymo_open_dataset/math/math_util.h
index eca8525..74b45af 100644
--- a/src/waymo_open_dataset/math/math_util.h
+++ b/src/waymo_open_dataset/math/math_util.h
@@ -61,6 +61,9 @@ PositiveModulo(T x, T y) {
   const T truncated_result = std::trunc(x_div_y);
   const T modulo = x - truncated_result * y;
   const T modulo_shifted = y + modulo;
+  // x_div_y can round across an integer, which leaves modulo a full period off.
+  if (modulo >= y) return modulo - y;
+  if (modulo_shifted < 0) return 0;
   return modulo >= 0 ? modulo : (modulo_shifted >= y ? 0 : modulo_shifted);
 }
 
-- 
2.43.0


From 46a3fbb3d85564a166bc364c4c6b312d959cbbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 03/54] fix: center-aligned LET boxes kept their vertical
 localization error

---
 src/waymo_open_dataset/metrics/iou.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/waymo_open_dataset/metrics/iou.cc b/src/waymo_open_dataset/metrics/iou.cc
index 6ee60d5..449e480 100644
--- a/src/waymo_open_dataset/metrics/iou.cc
+++ b/src/waymo_open_dataset/metrics/iou.cc
@@ -305,6 +305,7 @@ Label::Box AlignedPredictionBox(
       // Moves the prediction box's center to be same as ground truth.
       aligned_prediction_box.set_center_x(ground_truth_box.center_x());
       aligned_prediction_box.set_center_y(ground_truth_box.center_y());
+      aligned_prediction_box.set_center_z(ground_truth_box.center_z());
       break;
     case Config::LongitudinalErrorTolerantConfig::
         TYPE_ANY_CLOSER_ONLY_RANGE_ALIGNED:
-- 
2.43.0


From 9b2762f6ea8b9addbf0ae29f9b763e20f8637343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 04/54] fix: ScoreFirstMatcher weighed pairs by their position
 in the subset

---
 src/waymo_open_dataset/metrics/matcher.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index d1c7a17..fa33a29 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -280,9 +280,8 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
       const int pd_idx = prediction_subset()[pd_subset_idx];
       const int gt_idx = ground_truth_subset()[gt_subset_idx];
       if (CanMatch(pd_idx, gt_idx)) {
-        if (MatchingWeight(pd_subset_idx, gt_subset_idx) >
-            best_gt_match_weight) {
-          best_gt_match_weight = MatchingWeight(pd_subset_idx, gt_subset_idx);
+        if (MatchingWeight(pd_idx, gt_idx) > best_gt_match_weight) {
+          best_gt_match_weight = MatchingWeight(pd_idx, gt_idx);
           best_gt_match = gt_subset_idx;
         }
       }
-- 
2.43.0


From 2736b305bb1879ac439c2a6299b22ca6f4ce94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 05/54] fix: ScoreFirstMatcher kept the previous contents of
 reused output vectors

---
 src/waymo_open_dataset/metrics/matcher.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index fa33a29..0586b21 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -256,8 +256,8 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
 
   const int prediction_subset_size = prediction_subset().size();
   const int ground_truth_subset_size = ground_truth_subset().size();
-  prediction_matches->resize(prediction_subset_size, -1);
-  ground_truth_matches->resize(ground_truth_subset_size, -1);
+  prediction_matches->assign(prediction_subset_size, -1);
+  ground_truth_matches->assign(ground_truth_subset_size, -1);
 
   std::vector<int> sorted_pred_subset_idx(prediction_subset_size);
   // Sort predictions by score in descending order.
-- 
2.43.0


From dc988d4f7d9625270f6ae1b9b13f2e3bb48c5dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:36 +0000
Subject: [PATCH 06/54] fix: tracking score cutoffs sized each frame's loop by
 another scene's frames

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 0df0db7..6bbf4d1 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -303,8 +303,8 @@ Config EstimateScoreCutoffs(
     for (int scene_idx = 0; scene_idx < num_scenes; ++scene_idx) {
       const int num_frames = pds[scene_idx].size();
       for (int frame_idx = 0; frame_idx < num_frames; ++frame_idx) {
-        for (int pd_idx = 0, num_pds = pds[frame_idx].size(); pd_idx < num_pds;
-             ++pd_idx) {
+        for (int pd_idx = 0, num_pds = pds[scene_idx][frame_idx].size();
+             pd_idx < num_pds; ++pd_idx) {
           pd_scores.push_back(pds[scene_idx][frame_idx][pd_idx].score());
         }
       }
-- 
2.43.0


From cc70099a8d1d25f6b9c531f79138a7ef5f9114a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 07/54] fix: prediction speeds were not estimated when a
 sequence starts without predictions

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 6bbf4d1..a068b67 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -202,9 +202,16 @@ std::vector<TrackingMeasurements> ComputeTrackingMeasurements(
   for (int i = 0; i < num_frames; ++i) {
     matchers.push_back(Matcher::Create(config));
   }
-  const bool need_to_estimate_speed =
-      internal::HasVelocityBreakdown(config) && !pds.empty() &&
-      !pds[0].empty() && !pds[0][0].object().metadata().has_speed_x();
+  // The first prediction of the sequence (the first frames can be empty) tells
+  // whether predictions have speed.
+  bool need_to_estimate_speed = false;
+  if (internal::HasVelocityBreakdown(config)) {
+    for (const std::vector<Object>& frame_pds : pds) {
+      if (frame_pds.empty()) continue;
+      need_to_estimate_speed = !frame_pds[0].object().metadata().has_speed_x();
+      break;
+    }
+  }
   std::vector<std::vector<Object>> pds_with_velocity;
   if (need_to_estimate_speed) {
     pds_with_velocity = internal::EstimateObjectSpeed(pds, gts);
-- 
2.43.0


From 624172729932e884282e451e33a5e016bf4646b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 08/54] fix: merged segmentation counts were truncated to 32
 bits

---
 src/waymo_open_dataset/metrics/segmentation_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/segmentation_metrics.cc b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
index fce6828..cfb83f2 100644
--- a/src/waymo_open_dataset/metrics/segmentation_metrics.cc
+++ b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
@@ -125,8 +125,8 @@ SegmentationMetrics SegmentationMetricsIOU::MergeResults(
   }
   std::vector<float> ious(num_classes_, 1.0);
   for (int i = 0; i < num_classes_; ++i) {
-    int num_intersection = num_intersections[i];
-    int num_union = num_unions[i];
+    const int64_t num_intersection = num_intersections[i];
+    const int64_t num_union = num_unions[i];
     if (num_union > 0) {
       ious[i] = 1.0f * num_intersection / num_union;
     }
-- 
2.43.0


From db9b55cf7a21a3f2d13d4d58e8bef74709445d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:52 +0000
Subject: [PATCH 09/54] fix: motion metrics keep scoring after an empty
 multimodal prediction

ComputeAllMetrics returned at the first MultimodalPrediction without
trajectories, which silently dropped every prediction that follows it.
---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index dc8bb37..8811394 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -751,7 +751,7 @@ Status ComputeAllMetrics(
     // joint prediction.
     if (multi_modal_prediction.joint_predictions().empty() ||
         multi_modal_prediction.joint_predictions(0).trajectories().empty()) {
-      return OkStatus();
+      continue;
     }
 
     // Find the object_type that best describes the prediction. If it is a joint
-- 
2.43.0


From 5e155834de0e04dfc2bb1325eb084b8d0bc2c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:40 +0000
Subject: [PATCH 10/54] fix: motion metrics reject a measurement step past the
 last prediction

Steps index predictions of length prediction_steps, so measuring at
prediction_steps reads past the end of every trajectory.
---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 8811394..5db7cbe 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -82,7 +82,7 @@ Status ValidateConfig(const MotionMetricsConfig& config) {
                                config.prediction_steps_per_second() /
                                config.track_steps_per_second();
   for (const auto& step_config : config.step_configurations()) {
-    if (step_config.measurement_step() > prediction_steps ||
+    if (step_config.measurement_step() >= prediction_steps ||
         step_config.measurement_step() < 0) {
       return InvalidArgumentError("Requested miss rate time is invalid");
     }
-- 
2.43.0


From 9f7ae864005ead0e712b7b52bea6a9583e3912d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:40 +0000
Subject: [PATCH 11/54] fix: motion metrics reject non-positive rates and
 negative histories

A zero prediction_steps_per_second divided by zero and a negative
track_history_samples indexed tracks before their first state.
---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 5db7cbe..e411a2a 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -66,6 +66,12 @@ const std::unordered_map<TrajectoryType, int>& GetTrajectoryTypePriority() {
 // Validate the metrics configuration.
 Status ValidateConfig(const MotionMetricsConfig& config) {
   // Validate the configuration.
+  if (config.prediction_steps_per_second() <= 0 ||
+      config.track_history_samples() < 0) {
+    return InvalidArgumentError(
+        "prediction_steps_per_second must be positive and "
+        "track_history_samples must not be negative");
+  }
   if (config.prediction_steps_per_second() > config.track_steps_per_second()) {
     return InvalidArgumentError(
         "prediction_steps_per_second cannot be greater than "
-- 
2.43.0


From 29f1f664ba206103a9f97ef83ffa944dae018175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:40 +0000
Subject: [PATCH 12/54] fix: motion metrics validate the length of every
 scenario track

Only the tracks to predict were checked, while the overlap rate indexes
the states of all tracks: a shorter one was read out of bounds.
---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index e411a2a..8abc7fc 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -201,13 +201,14 @@ Status ValidatePredictions(const MotionMetricsConfig& config,
   return ValidateRequiredIds(scenario, predicted_object_ids);
 }
 
-// Validate that all of the given tracks have the required length.
+// Validate that all of the scenario tracks have the required length. The
+// overlap rate reads the tracks of all objects, not only the predicted ones.
 Status ValidateTracks(const MotionMetricsConfig& config,
-                      absl::flat_hash_map<int, const Track*>& ids_to_tracks) {
+                      const Scenario& scenario) {
   const int track_size =
       config.track_history_samples() + config.track_future_samples() + 1;
-  for (const auto& [id, track] : ids_to_tracks) {
-    if (track->states_size() != track_size) {
+  for (const auto& track : scenario.tracks()) {
+    if (track.states_size() != track_size) {
       return InvalidArgumentError("Invalid Scenario track size.");
     }
   }
@@ -1042,7 +1043,7 @@ Status ComputeMetricsStats(const MotionMetricsConfig& config,
     ids_to_tracks[track.id()] = &scenario.tracks(track_index);
   }
 
-  status = ValidateTracks(config, ids_to_tracks);
+  status = ValidateTracks(config, scenario);
   if (!status.ok()) {
     return status;
   }
-- 
2.43.0


From 107f01acdb4b0f27aa442f8f4c08bedc5b5cdbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:40 +0000
Subject: [PATCH 13/54] fix: motion metrics reject joint predictions that start
 with an empty one

An empty first joint prediction was taken for no joint prediction yet, so
the objects of the next one were accepted although they differ.
---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 8abc7fc..2abe42e 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -103,7 +103,7 @@ Status ValidateMultiModalPrediction(
     const int expected_trajectory_size, std::set<int>* prediction_ids) {
   // Use this set to validate that all predicted trajectories in the
   // multi_modal_prediction proto are for the same object.
-  std::set<int> trajectory_ids;
+  absl::optional<std::set<int>> trajectory_ids;
   for (const auto& prediction : multi_modal_prediction.joint_predictions()) {
     // Validate the trajectory lengths.
     std::set<int> ids;
@@ -120,10 +120,10 @@ Status ValidateMultiModalPrediction(
     }
 
     // Verify that every joint prediction contains the same objects.
-    if (trajectory_ids.empty()) {
+    if (!trajectory_ids) {
       trajectory_ids = ids;
     }
-    if (ids != trajectory_ids) {
+    if (ids != *trajectory_ids) {
       return InvalidArgumentError(
           "Joint predictions do not contain the same predicted objects.");
     }
-- 
2.43.0


From db14277dd1069d324a532cbf34a636d10aa33f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:04 +0000
Subject: [PATCH 14/54] fix: traffic light lane ids were rounded to float
 precision

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 4fecf3f..7d1a008 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -960,7 +960,8 @@ absl::Status AddTrafficLightStateFeatures(
                       features);
       AddInt64Feature(
           absl::StrCat(state_and_time_frame_prefix, "id"),
-          lane_state == nullptr ? kInvalidFieldValue : lane_state->lane(),
+          lane_state == nullptr ? static_cast<int64_t>(kInvalidFieldValue)
+                                : lane_state->lane(),
           features);
       AddInt64Feature(absl::StrCat(state_and_time_frame_prefix, "valid"),
                       lane_state == nullptr ? 0 : 1, features);
-- 
2.43.0


From 4672ebf65dd52bdca56a6e0c26cf383f867d6494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:04 +0000
Subject: [PATCH 15/54] fix: converting a map feature with an empty polygon
 read out of bounds

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 7d1a008..0f7a80a 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -796,6 +796,9 @@ void AddPolygonSamples(
     absl::flat_hash_map<std::string, tensorflow::Feature>* features) {
   // Add the first N-1 segments of the polygon.
   const int feature_size = map_points.size();
+  if (feature_size == 0) {
+    return;
+  }
   std::vector<Vec3d> points;
   for (int i = 0; i < feature_size - 1; ++i) {
     const Vec3d left_point = ToVec3d(map_points[i]);
-- 
2.43.0


From d62411893ac2c8cfd5140e826ab821447767fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 16/54] fix: rolling shutter solver used a wrong Jacobian and
 missed its tolerance

---
 src/waymo_open_dataset/wdl_limited/camera/camera_model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
index 3e6a2fe..c6199f7 100644
--- a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
+++ b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
@@ -665,10 +665,10 @@ bool CameraModel::ComputeDepthResidualAndJacobian(
     const double jacobian_combined =
         rolling_shutter_state.readout_horizontal_direction
             ? rolling_shutter_state.readout_time_factor / cam_pos_f(0) *
-                  ((*normalized_coord)(0) * jacobian_landmark_to_index(0) -
+                  (-(*normalized_coord)(0) * jacobian_landmark_to_index(0) -
                    jacobian_landmark_to_index(1))
             : rolling_shutter_state.readout_time_factor / cam_pos_f(0) *
-                  ((*normalized_coord)(1) * jacobian_landmark_to_index(0) -
+                  (-(*normalized_coord)(1) * jacobian_landmark_to_index(0) -
                    jacobian_landmark_to_index(2));
     *jacobian = 1. - jacobian_combined;
   }
-- 
2.43.0


From 464f13bae77119c5166d73689d203959cce96289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 17/54] fix: delta encoder overwrote the caller's range image

---
 .../utils/compression/delta_encoder.py                | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/waymo_open_dataset/utils/compression/delta_encoder.py b/src/waymo_open_dataset/utils/compression/delta_encoder.py
index ab562c2..69cd1e2 100644
--- a/src/waymo_open_dataset/utils/compression/delta_encoder.py
+++ b/src/waymo_open_dataset/utils/compression/delta_encoder.py
@@ -60,12 +60,11 @@ def compress(
             " positive numbers"
         )
 
-  range_image_round = range_image
-  for i in range(num_channel):
-    range_image_round[..., i] = np.round(
-        range_image[..., i] / quant_precision[i]
-    )
-  range_image_round = range_image_round.astype(int)
+  # Divides into a new array: the caller's array keeps its values, and the
+  # quantized values do not have to fit its data type.
+  range_image_round = np.round(
+      range_image / np.asarray(quant_precision, dtype=np.float64)
+  ).astype(int)
   lidar_proto = compressed_lidar_pb2.DeltaEncodedData(
       residual=_compute_residual(range_image_round),
       mask=_compute_mask(range_image_round),
-- 
2.43.0


From 54ad9282178b7921f76c107fd7e4f3ef71fa5249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:39 +0000
Subject: [PATCH 18/54] fix: rater trajectories given as one array were added
 to their padding

---
 src/waymo_open_dataset/metrics/python/rater_feedback_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py b/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py
index 923abdf..95790c2 100644
--- a/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py
+++ b/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py
@@ -112,7 +112,7 @@ def process_rater_specified_trajectories(
       padding_labels = [current_labels_batch[-1]] * num_to_pad
 
       processed_batch_trajectories = (
-          current_trajectory_batch + padding_trajectories
+          list(current_trajectory_batch) + padding_trajectories
       )
       processed_batch_labels = current_labels_batch.tolist() + padding_labels
     else:
-- 
2.43.0


From c7cae3ed59fbffd2ab99a9f999b283b006d9d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:14 +0000
Subject: [PATCH 19/54] fix: map plots failed without any points or with an
 empty polygon

---
 src/waymo_open_dataset/utils/plot_maps.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index cd18fd6..34fb270 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -128,8 +128,6 @@ def plot_map_points(map_points: MapPoints) -> go._figure.Figure:
   # Plot connecting lines for each individual roadgraph feature.
   start_index = 0
   end_index = 0
-  point_type = map_points.types[0]
-  feature_id = map_points.ids[0]
 
   color_dict = {}
   for k in line_dict:
@@ -137,6 +135,8 @@ def plot_map_points(map_points: MapPoints) -> go._figure.Figure:
 
   num_points = len(map_points.x)
   while start_index < num_points:
+    point_type = map_points.types[start_index]
+    feature_id = map_points.ids[start_index]
     while end_index < num_points and map_points.ids[end_index] == feature_id:
       end_index += 1
 
@@ -177,9 +177,6 @@ def plot_map_points(map_points: MapPoints) -> go._figure.Figure:
       )
 
     start_index = end_index
-    if start_index < num_points:
-      point_type = map_points.types[start_index]
-      feature_id = map_points.ids[start_index]
 
   # Format the plot.
   axis_config = dict(
@@ -280,7 +277,7 @@ def plot_map_features(
     for point in points:
       map_points.append_point(point, feature_type, feature_id)
 
-    if is_polygon:
+    if is_polygon and points:
       map_points.append_point(points[0], feature_type, feature_id)
 
   # Create arrays of the map points to be plotted.
-- 
2.43.0


From 29ccaf66c3f1913480e2d6ffce3ee75ecd9e4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:21 +0000
Subject: [PATCH 20/54] fix: map plots left out solid double yellow road lines

---
 src/waymo_open_dataset/utils/plot_maps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index 34fb270..9c12e01 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -255,6 +255,9 @@ def plot_map_features(
       map_pb2.RoadLine.TYPE_SOLID_SINGLE_YELLOW: (
           FeatureType.SOLID_SINGLE_YELLOW_BOUNDARY
       ),
+      map_pb2.RoadLine.TYPE_SOLID_DOUBLE_YELLOW: (
+          FeatureType.SOLID_DOUBLE_YELLOW_BOUNDARY
+      ),
       map_pb2.RoadLine.TYPE_PASSING_DOUBLE_YELLOW: (
           FeatureType.PASSING_DOUBLE_YELLOW_BOUNDARY
       ),
-- 
2.43.0


From 746f2cea628c3a3d0c8ecb40161a4ccb90ffc7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 21/54] fix: nested v2 fields took values of outer fields with
 the same name

---
 src/waymo_open_dataset/v2/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/v2/component.py b/src/waymo_open_dataset/v2/component.py
index 40a4f57..7f7f02a 100644
--- a/src/waymo_open_dataset/v2/component.py
+++ b/src/waymo_open_dataset/v2/component.py
@@ -314,8 +314,12 @@ def flatten_arrow_types(
 
 
 def _remove_prefix(prefix: str, columns: dict[str, _T]) -> dict[str, _T]:
-  """Removes specified prefix from all keys in the input dictionary."""
-  return {k.removeprefix(prefix): v for k, v in columns.items()}
+  """Returns columns with the specified prefix, which is removed from keys."""
+  return {
+      k.removeprefix(prefix): v
+      for k, v in columns.items()
+      if k.startswith(prefix)
+  }
 
 
 def unflatten_dict(class_type: type[_T], columns: dict[str, Any]) -> _T:
-- 
2.43.0


From 497e72f864fc926007111a2553b9c0e5cdf22860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 22/54] fix: ExactFloat text truncated when one digit above
 five was dropped

---
 src/waymo_open_dataset/math/exactfloat.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/waymo_open_dataset/math/exactfloat.cc b/src/waymo_open_dataset/math/exactfloat.cc
index 2d2d684..75e8497 100644
--- a/src/waymo_open_dataset/math/exactfloat.cc
+++ b/src/waymo_open_dataset/math/exactfloat.cc
@@ -388,12 +388,13 @@ int ExactFloat::GetDecimalDigits(int max_digits, std::string* digits) const {
   } else {
     digits->assign(all_digits, max_digits);
     // Standard "printf" formatting rounds ties to an even number.  This means
-    // that we round up (away from zero) if highest discarded digit is '5' or
-    // more, unless all other discarded digits are zero in which case we round
-    // up only if the lowest kept digit is odd.
-    if (all_digits[max_digits] >= '5' &&
-        ((all_digits[max_digits - 1] & 1) == 1 ||
-         strpbrk(all_digits + max_digits + 1, "123456789") != nullptr)) {
+    // that we round up (away from zero) if highest discarded digit is more than
+    // '5', or if it is '5', unless all other discarded digits are zero in which
+    // case we round up only if the lowest kept digit is odd.
+    if (all_digits[max_digits] > '5' ||
+        (all_digits[max_digits] == '5' &&
+         ((all_digits[max_digits - 1] & 1) == 1 ||
+          strpbrk(all_digits + max_digits + 1, "123456789") != nullptr))) {
       // This can increase the number of digits by 1, but in that case at
       // least one trailing zero will be stripped off below.
       IncrementDecimalDigits(digits);
-- 
2.43.0


From 291159d70c6f4a777516885012cea95b83cdb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 23/54] fix: ExactFloat ldexp clamped large negative exponents
 wrongly

---
 src/waymo_open_dataset/math/exactfloat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/math/exactfloat.cc b/src/waymo_open_dataset/math/exactfloat.cc
index 75e8497..71ae4cf 100644
--- a/src/waymo_open_dataset/math/exactfloat.cc
+++ b/src/waymo_open_dataset/math/exactfloat.cc
@@ -714,7 +714,7 @@ ExactFloat ldexp(const ExactFloat& a, int exp) {
   // (kMinExp - 1) <= (a_exp + exp) <= (kMaxExp + 1).
   int a_exp = a.exp();
   exp = min(ExactFloat::kMaxExp + 1 - a_exp,
-            max(ExactFloat::kMinExp - 1 + a_exp, exp));
+            max(ExactFloat::kMinExp - 1 - a_exp, exp));
 
   // Now modify the exponent and check for overflow/underflow.
   ExactFloat r = a;
-- 
2.43.0


From 002c00fcecdd6ea8520a95b80ad00c3dfed23260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 24/54] fix: tracking metrics op ignored the ground truth
 difficulty

The op filled detection_difficulty_level only; the tracking metrics read
tracking_difficulty_level, so LEVEL_2 objects were scored as LEVEL_1.
---
 src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc b/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
index 0216be0..7854c59 100644
--- a/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
+++ b/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
@@ -204,7 +204,7 @@ class TrackingMetricsOp final : public OpKernel {
             /*score=*/absl::nullopt,
             /*overlap_nlz=*/absl::nullopt,
             /*detection_difficulty=*/*input.ground_truth_difficulty,
-            /*tracking_difficulty=*/absl::nullopt,
+            /*tracking_difficulty=*/*input.ground_truth_difficulty,
             /*object_speed=*/*input.ground_truth_speed);
 
     std::set<std::string> sequence_ids;
-- 
2.43.0


From c7114fb15f4f31d14640d5d7c44fc649fa41cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 25/54] fix: motion metrics op used an object id as a tensor
 index

objects_of_interest was read at position <object id> of the id tensor, an
out-of-bounds read for any id not below the number of agents.
---
 src/waymo_open_dataset/metrics/ops/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/ops/utils.cc b/src/waymo_open_dataset/metrics/ops/utils.cc
index 0a30180..858c273 100644
--- a/src/waymo_open_dataset/metrics/ops/utils.cc
+++ b/src/waymo_open_dataset/metrics/ops/utils.cc
@@ -377,7 +377,7 @@ ParseScenarioAndPredictonsFromTensors(
           required_track.set_difficulty(RequiredPrediction::LEVEL_1);
 
           scenario->add_objects_of_interest(
-              object_id.matrix<int64>()(i, scenario->tracks(track_index).id()));
+              scenario->tracks(track_index).id());
         }
       }
     }
-- 
2.43.0


From 4de62c5891d30409a629ca7fc9436cb7df9c8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 26/54] fix: ScoreFirstMatcher crashed when one of its outputs
 was not wanted

Matcher::Match documents that either output may be null, and the Match op
passes a null one, so the op crashed with the score-first matcher.
---
 src/waymo_open_dataset/metrics/matcher.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index 0586b21..3fc427e 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -251,8 +251,15 @@ void HungarianMatcher::Match(std::vector<int>* prediction_matches,
 
 void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
                               std::vector<int>* ground_truth_matches) {
-  CHECK(prediction_matches);
-  CHECK(ground_truth_matches);
+  // Both are needed below, even if the caller does not want one of them.
+  std::vector<int> unused_prediction_matches;
+  if (prediction_matches == nullptr) {
+    prediction_matches = &unused_prediction_matches;
+  }
+  std::vector<int> unused_ground_truth_matches;
+  if (ground_truth_matches == nullptr) {
+    ground_truth_matches = &unused_ground_truth_matches;
+  }
 
   const int prediction_subset_size = prediction_subset().size();
   const int ground_truth_subset_size = ground_truth_subset().size();
-- 
2.43.0


From 9b3b6e18cf10d25cc2389afdd112f5d521907137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 27/54] fix: create_submission dropped the last byte of
 messages ending in 0x0a

A serialized message may end with the byte of a newline; and back() was called
on the content of empty files (a valid message without objects).
---
 src/waymo_open_dataset/metrics/tools/create_submission.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tools/create_submission.cc b/src/waymo_open_dataset/metrics/tools/create_submission.cc
index d63d680..731df9f 100644
--- a/src/waymo_open_dataset/metrics/tools/create_submission.cc
+++ b/src/waymo_open_dataset/metrics/tools/create_submission.cc
@@ -148,10 +148,13 @@ void Run() {
   int i = 0;
   for (const auto& name : input_filenames) {
     std::string content = ReadFileToString(name);
-    if (content.back() == '\n') {
+    if (!objects_all[i].ParseFromString(content)) {
+      // Accept a newline after the message. It may also be the last byte of
+      // the message, so only drop it if the whole file does not parse.
+      CHECK(!content.empty() && content.back() == '\n');
       content.pop_back();
+      CHECK(objects_all[i].ParseFromString(content));
     }
-    CHECK(objects_all[i].ParseFromString(content));
     i++;
   }
 
-- 
2.43.0


From 6cb13b32624c6ebf390bb88ca6825ff2e3afaf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 28/54] fix: compare tool read some submissions as empty object
 lists

Whether the bytes of a Submission parse as Objects depends on the method name;
when they do, every object was lost and the comparison failed.
---
 .../compare_objects_file_to_submission_main.cc        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
index 4d95374..0a9705d 100644
--- a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
+++ b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
@@ -83,12 +83,17 @@ Objects ReadObjectsFromFile(const std::vector<std::string>& paths) {
     std::ifstream s(path);
     const std::string content((std::istreambuf_iterator<char>(s)),
                               std::istreambuf_iterator<char>());
-    if (!objs.ParseFromString(content)) {
-      Submission submission;
+    // The submission goes first: many submissions (depending on the method
+    // name) also parse as an Objects proto, one without any objects.
+    Submission submission;
+    if (submission.ParseFromString(content) &&
+        submission.has_inference_results()) {
+      objs = std::move(*submission.mutable_inference_results());
+    } else if (!objs.ParseFromString(content)) {
+      objs.Clear();
       if (!submission.ParseFromString(content)) {
         LOG(FATAL) << "Could not parse " << path << " as submission either.";
       }
-      objs = std::move(submission.inference_results());
     }
     for (const auto& o : objs.objects()) {
       *objects_merged.add_objects() = o;
-- 
2.43.0


From 72fa98382bd3c5cec13d61f76eadd653c69eea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 29/54] fix: compare tool used an uninitialized box type for
 empty result files

---
 .../latency/compare_objects_file_to_submission_main.cc          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
index 0a9705d..b89a377 100644
--- a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
+++ b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
@@ -129,7 +129,7 @@ int Compute(const std::string& latency_result_filename,
     return oss.str();
   };
 
-  bool is_2d;
+  bool is_2d = false;
   for (auto& o : *latency_result_objs.mutable_objects()) {
     is_2d = o.object().box().has_heading();
     if (o.score() >= minimum_score && o.object().type() > 0) {
-- 
2.43.0


From 189592911fc5c92d2efcd09d96bb1e9281c92521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 30/54] fix: segmentation tool used freed memory for damaged
 labels

After a failed decompression the buffer was read and deleted a second time.
---
 .../metrics/tools/compute_segmentation_metrics_main.cc           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
index d085b70..edaba1b 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
@@ -86,6 +86,7 @@ std::string Uncompress(std::string const& s) {
   if (result != Z_OK) {
     delete[] destination;
     std::cerr << "Uncompress error occured! Error code: " << result << "\n";
+    return "";
   }
   // Since we don't know the output size, we use the max len.
   std::string ret = std::string(destination, max_len);
-- 
2.43.0


From ed2e31ee5b210851522fd4fe8027ab8b54258596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 31/54] fix: segmentation tool failed on frames without
 prediction or second return

The missing prediction of the second return got the size of the first one.
---
 .../metrics/tools/compute_segmentation_metrics_main.cc          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
index edaba1b..062714a 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
@@ -212,7 +212,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
                          .segmentation_label_compressed()));
       pd_vector = Flatten(pd_matrix);
     } else {
-      pd_vector = CreateEmptyPrediction(num_points);
+      pd_vector = CreateEmptyPrediction(gt_matrix.data().size());
     }
     CHECK(miou.Update(pd_vector, Flatten(gt_matrix)).ok())
         << "Prediction and Groundtruth length do not match";
-- 
2.43.0


From f6f563e215e27026a67c22c9b32d9f6a4f0b4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 32/54] fix: range image building failed for points at azimuth
 -pi

---
 src/waymo_open_dataset/utils/range_image_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/utils/range_image_utils.py b/src/waymo_open_dataset/utils/range_image_utils.py
index 5edb7f4..2dd9a4a 100644
--- a/src/waymo_open_dataset/utils/range_image_utils.py
+++ b/src/waymo_open_dataset/utils/range_image_utils.py
@@ -557,6 +557,10 @@ def build_range_image_from_point_cloud(points_vehicle_frame,
                                                 np.pi) / (2.0 * np.pi) * width
     point_ri_col_indices = tf.cast(
         tf.round(point_ri_col_indices), dtype=tf.int32)
+    # A point at azimuth -pi is on the outer edge of the last column, at
+    # width - 0.5, which rounds up if the width is even.
+    point_ri_col_indices = tf.minimum(point_ri_col_indices,
+                                      tf.cast(width - 1, tf.int32))
 
     with tf.control_dependencies([
         tf.compat.v1.assert_non_negative(point_ri_col_indices),
-- 
2.43.0


From 60a87de28f24c1892e9d821321e46a71146f5b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 33/54] fix: red light violations looked up the nearest lane
 segment wrongly

---
 .../wdl_limited/sim_agents_metrics/traffic_light_features.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index 33fd187..aba563b 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -264,13 +264,13 @@ def _get_nearest_lane_segment_index(
   )
   clipped_rel_t = tf.clip_by_value(rel_t, 0.0, 1.0)
   distance_to_segment = tf.linalg.norm(
-      start_to_point + start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
+      start_to_point - start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
   )
 
   # Mask out invalid segments.
   # shape: (num_points, num_polylines, num_segments)
   distance_to_segment = tf.where(
-      lane_valid[:, :, :-1],
+      tf.logical_and(lane_valid[:, :, :-1], lane_valid[:, :, 1:]),
       distance_to_segment,
       EXTREMELY_LARGE_DISTANCE,
   )
-- 
2.43.0


From 5b226e77575c1879cc56bddeec9b1e55aa97f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 34/54] fix: time to collision ignored leaders across the
 heading seam

---
 .../wdl_limited/sim_agents_metrics/interaction_features.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
index ab44af8..8499fe6 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
@@ -305,7 +305,11 @@ def compute_time_to_collision_with_object_in_front(
 
   # Absolute yaw difference between each ego box and every other box.
   # `yaw_diff` shape: (num_steps, num_evaluated_objects, num_objects, 1)
-  yaw_diff = tf.math.abs(other_yaw[:, tf.newaxis] - ego_yaw[:, :, tf.newaxis])
+  yaw_diff = tf.math.abs(
+      (other_yaw[:, tf.newaxis] - ego_yaw[:, :, tf.newaxis] + math.pi)
+      % (2.0 * math.pi)
+      - math.pi
+  )
 
   yaw_diff_cos = tf.math.cos(yaw_diff)
   yaw_diff_sin = tf.math.sin(yaw_diff)
-- 
2.43.0


From 25ca697b959874caa6f05b1454f41629fdd4e6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 35/54] fix: side of road edge rings was wrong at their closing
 point

---
 .../sim_agents_metrics/map_metric_features.py | 108 +++++++++---------
 1 file changed, 51 insertions(+), 57 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
index 80b17e6..5d431f6 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
@@ -320,80 +320,74 @@ def _compute_signed_distance_to_polylines(
   #       sign of the distance depends on the convexity of the nearest and next
   #       segments.
 
-  # shape: (num_points, num_polylines, num_segments+2, 2)
-  start_to_end_padded = tf.concat(
-      [
-          start_to_end[:, :, -1:, :2],
-          start_to_end[..., :2],
-          start_to_end[:, :, :1, :2],
-      ],
-      axis=-2,
+  # Indices of the segments before and after each segment. If the polyline is
+  # cyclic, its first and last valid segments are adjacent (polylines are padded
+  # to the length of the longest one), else their missing neighbours are replaced
+  # by the segments themselves.
+  # shape: (num_polylines, 1)
+  last_segment_index = tf.maximum(
+      tf.reduce_sum(
+          tf.cast(is_segment_valid, tf.int32), axis=-1, keepdims=True
+      )
+      - 1,
+      0,
+  )
+  # shape: (1, num_segments)
+  segment_index = tf.range(num_segments, dtype=tf.int32)[tf.newaxis]
+  # shape: (num_polylines, num_segments)
+  prior_index = tf.where(
+      segment_index > 0,
+      segment_index - 1,
+      tf.where(is_polyline_cyclic[:, tf.newaxis], last_segment_index, 0),
+  )
+  next_index = tf.where(
+      segment_index < last_segment_index,
+      segment_index + 1,
+      tf.where(is_polyline_cyclic[:, tf.newaxis], 0, last_segment_index),
   )
-  # shape: (num_points, num_polylines, num_segments+1)
-  is_locally_convex = tf.greater(
+
+  # Whether each segment turns left from the prior one, and the next one turns
+  # left from it.
+  # shape: (1, num_polylines, num_segments)
+  is_convex_with_prior = tf.greater(
       geometry_utils.cross_product_2d(
-          start_to_end_padded[:, :, :-1], start_to_end_padded[:, :, 1:]
+          tf.gather(start_to_end[0, ..., :2], prior_index, batch_dims=1),
+          start_to_end[0, ..., :2],
       ),
       0.0,
-  )
+  )[tf.newaxis]
+  is_convex_with_next = tf.greater(
+      geometry_utils.cross_product_2d(
+          start_to_end[0, ..., :2],
+          tf.gather(start_to_end[0, ..., :2], next_index, batch_dims=1),
+      ),
+      0.0,
+  )[tf.newaxis]
 
-  # Get shifted versions of `n` and `is_segment_valid`. If the polyline is
-  # cyclic, the tensors are rolled, else they are padded with their edge value.
+  # `n` and `is_segment_valid` of the prior and next segments.
   # shape: (num_points, num_polylines, num_segments)
-  n_prior = tf.concat(
-      [
-          tf.where(
-              is_polyline_cyclic[tf.newaxis, :, tf.newaxis],
-              n[:, :, -1:],
-              n[:, :, :1],
-          ),
-          n[:, :, :-1],
-      ],
-      axis=-1,
+  n_prior = tf.gather(
+      n,
+      tf.broadcast_to(prior_index[tf.newaxis], n.shape),
+      batch_dims=2,
   )
-  n_next = tf.concat(
-      [
-          n[:, :, 1:],
-          tf.where(
-              is_polyline_cyclic[tf.newaxis, :, tf.newaxis],
-              n[:, :, :1],
-              n[:, :, -1:],
-          ),
-      ],
-      axis=-1,
+  n_next = tf.gather(
+      n, tf.broadcast_to(next_index[tf.newaxis], n.shape), batch_dims=2
   )
   # shape: (num_polylines, num_segments)
-  is_prior_segment_valid = tf.concat(
-      [
-          tf.where(
-              is_polyline_cyclic[:, tf.newaxis],
-              is_segment_valid[:, -1:],
-              is_segment_valid[:, :1],
-          ),
-          is_segment_valid[:, :-1],
-      ],
-      axis=-1,
-  )
-  is_next_segment_valid = tf.concat(
-      [
-          is_segment_valid[:, 1:],
-          tf.where(
-              is_polyline_cyclic[:, tf.newaxis],
-              is_segment_valid[:, :1],
-              is_segment_valid[:, -1:],
-          ),
-      ],
-      axis=-1,
+  is_prior_segment_valid = tf.gather(
+      is_segment_valid, prior_index, batch_dims=1
   )
+  is_next_segment_valid = tf.gather(is_segment_valid, next_index, batch_dims=1)
 
   # shape: (num_points, num_polylines, num_segments)
   sign_if_before = tf.where(
-      is_locally_convex[:, :, :-1],
+      is_convex_with_prior,
       tf.maximum(n, n_prior),
       tf.minimum(n, n_prior),
   )
   sign_if_after = tf.where(
-      is_locally_convex[:, :, 1:], tf.maximum(n, n_next), tf.minimum(n, n_next)
+      is_convex_with_next, tf.maximum(n, n_next), tf.minimum(n, n_next)
   )
 
   # shape: (num_points, num_polylines, num_segments)
-- 
2.43.0


From 68a4185741ae03484f3e8ecf8be7e9687ca2fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 36/54] fix: kernel density estimates could not be averaged
 into metrics

---
 .../wdl_limited/sim_agents_metrics/estimators.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/estimators.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/estimators.py
index 170427e..b3f9633 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/estimators.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/estimators.py
@@ -310,7 +310,8 @@ def kernel_density_estimate(
   # Dirac delta is used).
   max_score = 1 / (np.sqrt(2 * np.pi) * config.bandwidth)
   # Next we scale the scores by this `max_score` (subtraction in log space).
-  return scores - np.log(max_score)
+  # The scores are float64, unlike those of the other estimators.
+  return tf.cast(scores - np.log(max_score), tf.float32)
 
 
 def bernoulli_estimate(
-- 
2.43.0


From 4d2c2c379603c7f9c3ac9c4980ae2cc39e3b0d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 37/54] fix: label_box_from_box_proto swapped length and width

Box3d.size documents x as the length and y as the width.
---
 src/waymo_open_dataset/utils/keypoint_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/keypoint_data.py b/src/waymo_open_dataset/utils/keypoint_data.py
index e2aa765..8b58143 100644
--- a/src/waymo_open_dataset/utils/keypoint_data.py
+++ b/src/waymo_open_dataset/utils/keypoint_data.py
@@ -558,8 +558,8 @@ def label_box_from_box_proto(box: box_pb2.Box3d) -> label_pb2.Label.Box:
       center_x=box.center.x,
       center_y=box.center.y,
       center_z=box.center.z,
-      width=box.size.x,
-      length=box.size.y,
+      length=box.size.x,
+      width=box.size.y,
       height=box.size.z,
       heading=box.heading,
   )
-- 
2.43.0


From 3eeb8c39463c37357c258ec22be06b0c3df014af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 38/54] fix: a refused update left its predictions in
 WODDetectionEvaluator

The predictions were appended before the ground truth fields were checked.
---
 .../metrics/python/wod_detection_evaluator.py        | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
index b114f7e..85480e7 100644
--- a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
+++ b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
@@ -176,11 +176,17 @@ class WODDetectionEvaluator(object):
       ValueError: if the required prediction or groundtruth fields are not
         present in the incoming `predictions` or `groundtruths`.
     """
-    # Append predictions.
+    # Check all inputs before any state changes.
     for k in self._required_prediction_fields:
       if k not in predictions:
         raise ValueError(
             'Missing the required key `{}` in predictions!'.format(k))
+    for k in self._required_groundtruth_fields:
+      if k not in groundtruths:
+        raise ValueError(
+            'Missing the required key `{}` in groundtruths!'.format(k))
+
+    # Append predictions.
     for k, v in six.iteritems(predictions):
       if k not in self._predictions:
         self._predictions[k] = [v]
@@ -188,10 +194,6 @@ class WODDetectionEvaluator(object):
         self._predictions[k].append(v)
 
     # Append groundtruths.
-    for k in self._required_groundtruth_fields:
-      if k not in groundtruths:
-        raise ValueError(
-            'Missing the required key `{}` in groundtruths!'.format(k))
     for k, v in six.iteritems(groundtruths):
       if k not in self._groundtruths:
         self._groundtruths[k] = [v]
-- 
2.43.0


From fac67fae544de406cc3fdbe4e448de40d8f8c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 39/54] fix: get_motion_metric_ops refused scenes with more
 agents than one prediction

The number of agents in the ground truth (A) and in a joint prediction (N)
are different dimensions, e.g. N is 1 for independent predictions.
---
 .../metrics/python/motion_metrics.py          | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/motion_metrics.py b/src/waymo_open_dataset/metrics/python/motion_metrics.py
index 33c6afb..92280b9 100644
--- a/src/waymo_open_dataset/metrics/python/motion_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/motion_metrics.py
@@ -109,12 +109,11 @@ def get_motion_metric_ops(config,
   """
   (_, num_groups, top_k, num_agents, num_pred_steps,
    _) = prediction_trajectory.shape.as_list()
-  _, _, num_gt_steps, _ = ground_truth_trajectory.shape.as_list()
+  _, num_gt_agents, num_gt_steps, _ = ground_truth_trajectory.shape.as_list()
 
   assert prediction_trajectory.shape.as_list()[5] == 2
-  assert ground_truth_trajectory.shape.as_list()[1] == num_agents
   assert ground_truth_trajectory.shape.as_list()[3] == 7
-  assert ground_truth_is_valid.shape.as_list()[1] == num_agents
+  assert ground_truth_is_valid.shape.as_list()[1] == num_gt_agents
   assert ground_truth_is_valid.shape.as_list()[2] == num_gt_steps
   assert prediction_ground_truth_indices.shape.as_list()[1] == num_groups
   assert prediction_ground_truth_indices.shape.as_list()[2] == num_agents
@@ -122,14 +121,14 @@ def get_motion_metric_ops(config,
   assert prediction_ground_truth_indices_mask.shape.as_list()[2] == num_agents
   assert prediction_score.shape.as_list()[1] == num_groups
   assert prediction_score.shape.as_list()[2] == top_k
-  assert object_type.shape.as_list()[1] == num_agents
+  assert object_type.shape.as_list()[1] == num_gt_agents
 
   if object_id is None:
     batch_size = tf.shape(prediction_trajectory)[0]
     object_id = tf.tile(
-        tf.range(num_agents, dtype=tf.int64)[tf.newaxis], (batch_size, 1))
+        tf.range(num_gt_agents, dtype=tf.int64)[tf.newaxis], (batch_size, 1))
   else:
-    assert object_id.shape.as_list()[1] == num_agents
+    assert object_id.shape.as_list()[1] == num_gt_agents
 
   if scenario_id is None:
     batch_size = tf.shape(prediction_trajectory)[0]
@@ -137,10 +136,10 @@ def get_motion_metric_ops(config,
 
   eval_dict = {
       'ground_truth_trajectory':
-          (ground_truth_trajectory, [0, num_agents, num_gt_steps,
+          (ground_truth_trajectory, [0, num_gt_agents, num_gt_steps,
                                      7], tf.float32),
       'ground_truth_is_valid':
-          (ground_truth_is_valid, [0, num_agents, num_gt_steps], tf.bool),
+          (ground_truth_is_valid, [0, num_gt_agents, num_gt_steps], tf.bool),
       'prediction_trajectory':
           (prediction_trajectory,
            [0, num_groups, top_k, num_agents, num_pred_steps, 2], tf.float32),
@@ -152,8 +151,8 @@ def get_motion_metric_ops(config,
       'prediction_ground_truth_indices_mask':
           (prediction_ground_truth_indices_mask, [0, num_groups,
                                                   num_agents], tf.bool),
-      'object_type': (object_type, [0, num_agents], tf.int64),
-      'object_id': (object_id, [0, num_agents], tf.int64),
+      'object_type': (object_type, [0, num_gt_agents], tf.int64),
+      'object_id': (object_id, [0, num_gt_agents], tf.int64),
       'scenario_id': (scenario_id, [0], tf.string)
   }
 
-- 
2.43.0


From b024ebcc6268bfc2b9dda14fd5b5199cc3dde1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 40/54] fix: default scenario ids of get_motion_metric_ops
 repeated in each update

Scenarios of different updates were merged into one.
---
 src/waymo_open_dataset/metrics/python/motion_metrics.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/motion_metrics.py b/src/waymo_open_dataset/metrics/python/motion_metrics.py
index 92280b9..7968061 100644
--- a/src/waymo_open_dataset/metrics/python/motion_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/motion_metrics.py
@@ -130,10 +130,6 @@ def get_motion_metric_ops(config,
   else:
     assert object_id.shape.as_list()[1] == num_gt_agents
 
-  if scenario_id is None:
-    batch_size = tf.shape(prediction_trajectory)[0]
-    scenario_id = tf.strings.as_string(tf.range(batch_size))
-
   eval_dict = {
       'ground_truth_trajectory':
           (ground_truth_trajectory, [0, num_gt_agents, num_gt_steps,
@@ -153,8 +149,10 @@ def get_motion_metric_ops(config,
                                                   num_agents], tf.bool),
       'object_type': (object_type, [0, num_gt_agents], tf.int64),
       'object_id': (object_id, [0, num_gt_agents], tf.int64),
-      'scenario_id': (scenario_id, [0], tf.string)
   }
+  # Without scenario IDs the op numbers all accumulated scenarios.
+  if scenario_id is not None:
+    eval_dict['scenario_id'] = (scenario_id, [0], tf.string)
 
   variable_and_update_ops = {
       name: _update(name, update, init_shape, dtype)
-- 
2.43.0


From 278db4d5f235ac770de93ecc21370843809ade17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 41/54] fix: decode v2 camera segmentation labels without
 instance mapping

A CameraSegmentationLabelComponent always has a mapping object, so the
test for labels without a mapping did not see components whose mapping is
empty, and max() was taken of an empty set.
---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 1860337..d313072 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -156,14 +156,14 @@ def _remap_global_ids(
   # Read the set of global ids for each sequence.
   global_instance_ids = {}
   for label in segmentation_proto_list:
-    if not label.instance_id_to_global_id_mapping:
+    frame_global_instance_ids = [
+        mapping.global_instance_id for mapping in _iterate_over_mapping(label)
+    ]
+    if not frame_global_instance_ids:
       continue
     if label.sequence_id not in global_instance_ids:
       global_instance_ids[label.sequence_id] = set()
 
-    frame_global_instance_ids = [
-        mapping.global_instance_id for mapping in _iterate_over_mapping(label)
-    ]
     global_instance_ids[label.sequence_id].update(frame_global_instance_ids)
 
   if not global_instance_ids:
-- 
2.43.0


From 269cf5d3d7d267c46366c144843a70f270ba68db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 42/54] fix: keep remapped instance ids below the panoptic
 label divisor

The divisor has to be greater than the largest instance id, but it was
only raised to that id, and a requested divisor was compared with the ids
before the remapping. Remapped ids then spilled into the semantic class.
---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index d313072..bf5c0e3 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -296,7 +296,8 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
           [max([global_id for _, global_id in mapping.items()])
            for _, mapping in global_id_mapping.items()])
       if new_panoptic_label_divisor is None:
-        panoptic_label_divisor = max(panoptic_label_divisor, max_instance_id)
+        panoptic_label_divisor = max(
+            panoptic_label_divisor, max_instance_id + 1)
 
   panoptic_labels = []
   num_cameras_covered = []
@@ -325,7 +326,7 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
         instance_label_copy[instance_mask] = global_id_mapping[sequence][
             mapping.global_instance_id]
 
-    if np.amax(instance_label) >= panoptic_label_divisor:
+    if np.amax(instance_label_copy) >= panoptic_label_divisor:
       raise ValueError('A panoptic_label_divisor of '
                        f'{panoptic_label_divisor} is requested, but the '
                        'maximum instance id exceeds this.')
-- 
2.43.0


From 0c9ab07b4708e8a27818dfca20c676376273d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 43/54] fix: do not truncate global instance ids to 16 bits

The remapped ids were written into the uint16 array of the local ids, so
global ids above 65535 wrapped around and could collide.
---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index bf5c0e3..cdfe97f 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -311,7 +311,8 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
     camera_coverage = np.ones_like(instance_label, dtype=np.uint8)
     is_tracked_mask = np.zeros_like(instance_label, dtype=np.uint8)
 
-    instance_label_copy = np.copy(instance_label)
+    # Global ids do not need to fit into the uint16 of the encoded label.
+    instance_label_copy = instance_label.astype(np.uint32)
     if remap_to_global:
       if isinstance(label, v2.CameraSegmentationLabelComponent):
         mapping_iter = _iterate_over_mapping(label)
-- 
2.43.0


From d408905cbc7ec2a6a9658d35baf57a3c7d811ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 44/54] fix: do not return a frame of the next segmentation
 sequence

load_frames_with_labels_from_dataset() stopped at the first frame of
another sequence only after it had added that frame.
---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index cdfe97f..9a1ef54 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -529,12 +529,13 @@ def load_frames_with_labels_from_dataset(
     frame.ParseFromString(bytearray(data.numpy()))
 
     if frame.images[0].camera_segmentation_label.panoptic_label:
-      frames_with_seg.append(frame)
       if sequence_id is None:
         sequence_id = frame.images[0].camera_segmentation_label.sequence_id
+      if frame.images[0].camera_segmentation_label.sequence_id != sequence_id:
+        break
 
-      if (frame.images[0].camera_segmentation_label.sequence_id != sequence_id
-          or len(frames_with_seg) >= keep_first_k):
+      frames_with_seg.append(frame)
+      if len(frames_with_seg) >= keep_first_k:
         break
 
   return frames_with_seg, sequence_id
-- 
2.43.0


From ee7fbce969dd6190a5ee7aebcfa603bfc7052904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 45/54] fix: return negative distances for rays that miss the
 box

get_ray_box_intersects() documents negative intersections for a ray
without an intersection, but returned slab distances, which are often
positive, for rays passing beside the box.
---
 .../v2/perception/utils/object_asset_utils.py                  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py b/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
index f247ea3..7558418 100644
--- a/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
+++ b/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
@@ -93,6 +93,9 @@ def get_ray_box_intersects(
   tmax = np.minimum(tmax, tzmax)
 
   isect_flag[np.where(tmax <= 0)[0]] = False
+  # Both distances are negative if there is no intersection.
+  tmin = np.where(isect_flag, tmin, -np.abs(tmin))
+  tmax = np.where(isect_flag, tmax, -np.abs(tmax))
   return isect_flag, tmin, tmax
 
 
-- 
2.43.0


From 17127dbfe287f85b247c3d406363f454d9bb76c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 46/54] fix: read top lidars without explicit beam inclinations

delta_encoder.decompress() returns a numpy array, which has no dims.
---
 src/waymo_open_dataset/utils/womd_lidar_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/womd_lidar_utils.py b/src/waymo_open_dataset/utils/womd_lidar_utils.py
index 399d890..c376273 100644
--- a/src/waymo_open_dataset/utils/womd_lidar_utils.py
+++ b/src/waymo_open_dataset/utils/womd_lidar_utils.py
@@ -114,7 +114,7 @@ def extract_top_lidar_points(
       beam_inclinations = _get_beam_inclinations(
           c.beam_inclination_min,
           c.beam_inclination_max,
-          range_image.dims[0],
+          range_image.shape[0],
       )
     else:
       beam_inclinations = np.array(c.beam_inclinations)
-- 
2.43.0


From ef886cbf5c2820ade7d260b50ad9ba6ec2cd268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 47/54] fix: examples_equal ignored values compared with an
 empty float list

---
 src/waymo_open_dataset/utils/example_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waymo_open_dataset/utils/example_utils.py b/src/waymo_open_dataset/utils/example_utils.py
index 558cd2e..710ff28 100644
--- a/src/waymo_open_dataset/utils/example_utils.py
+++ b/src/waymo_open_dataset/utils/example_utils.py
@@ -37,6 +37,8 @@ def examples_equal(
     if key not in example_b.features.feature:
       return False
     feature_b = example_b.features.feature[key]
+    if feature.WhichOneof('kind') != feature_b.WhichOneof('kind'):
+      return False
     if feature_b.HasField('float_list'):
       num_elements = len(feature_b.float_list.value)
       if len(feature.float_list.value) != num_elements:
-- 
2.43.0


From 270bce5d5af2b4c29a1d6d9b443a89f00d12678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 48/54] fix: LET matchers kept references to a configuration
 that may be gone

---
 src/waymo_open_dataset/metrics/iou.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/iou.cc b/src/waymo_open_dataset/metrics/iou.cc
index 449e480..f3e7e4b 100644
--- a/src/waymo_open_dataset/metrics/iou.cc
+++ b/src/waymo_open_dataset/metrics/iou.cc
@@ -285,8 +285,8 @@ double ComputeLongitudinalAffinity(
 ComputeLongitudinalAffinityFunc GetComputeLongitudinalAffinityFunc(
     const Config::LongitudinalErrorTolerantConfig& let_metric_config) {
   ComputeLongitudinalAffinityFunc let_compute_longitudinal_affinity_func =
-      [&let_metric_config](const Label::Box& prediction_box,
-                           const Label::Box& ground_truth_box) {
+      [let_metric_config](const Label::Box& prediction_box,
+                          const Label::Box& ground_truth_box) {
         return ComputeLongitudinalAffinity(prediction_box, ground_truth_box,
                                            let_metric_config);
       };
@@ -387,7 +387,7 @@ ComputeIoUFunc GetComputeLetIoUFunc(
     Config::LongitudinalErrorTolerantConfig::AlignType align_type,
     Label::Box::Type box_type) {
   ComputeIoUFunc compute_let_iou_func =
-      [&sensor_location, align_type, box_type](
+      [sensor_location, align_type, box_type](
           const Label::Box& prediction_box,
           const Label::Box& ground_truth_box) {
         return ComputeLetIoU(prediction_box, ground_truth_box, sensor_location,
-- 
2.43.0


From dccbb28836ccd63525d53fe21cbc57077bed036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 49/54] fix: overlap rate took the least confident prediction
 for negative confidences

---
 .../metrics/motion_metrics.cc                 | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 2abe42e..5c88fc7 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -565,14 +565,17 @@ Status ComputeOverlapRate(
     }
   }
 
-  // Find the highest probability trajectory prediction.
-  std::vector<float> confidences = GetNormalizedConfidences(prediction);
-
-  // Only include the desired K predictions.
-  confidences.resize(config.max_predictions());
-  const int max_index =
-      std::distance(confidences.begin(),
-                    std::max_element(confidences.begin(), confidences.end()));
+  // Find the most confident of the desired K predictions. The confidences are
+  // not normalized for this: they may be negative (e.g. log likelihoods).
+  const int num_predictions =
+      std::min(prediction.joint_predictions_size(), config.max_predictions());
+  int max_index = 0;
+  for (int i = 1; i < num_predictions; ++i) {
+    if (prediction.joint_predictions(i).confidence() >
+        prediction.joint_predictions(max_index).confidence()) {
+      max_index = i;
+    }
+  }
 
   // Check for overlaps up to the given step.
   const JointTrajectories& joint_prediction =
-- 
2.43.0


From 9ab10291c0f8918152bfc0e28a3781f4114c1d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 50/54] fix: camera breakdown crashed on objects of cameras it
 does not cover

---
 src/waymo_open_dataset/metrics/breakdown_generator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/breakdown_generator.cc b/src/waymo_open_dataset/metrics/breakdown_generator.cc
index ea1e39e..09e29b3 100644
--- a/src/waymo_open_dataset/metrics/breakdown_generator.cc
+++ b/src/waymo_open_dataset/metrics/breakdown_generator.cc
@@ -341,7 +341,8 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       return std::vector<int>();
     }
     if (Is2DCamera(object)) {
-      return std::vector<int>({Shard(object)});
+      const int shard = Shard(object);
+      return shard < 0 ? std::vector<int>() : std::vector<int>({shard});
     }
     // For 3D detections, we estimate the camera breakdowns by FOV.
     const int shard_offset = kNumCameras * (object.object().type() - 1);
@@ -404,7 +405,7 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       case CameraName::SIDE_RIGHT:
         return 4;
       default:
-        LOG(FATAL) << "Code should not reach here.";
+        return -1;
     }
   }
 
-- 
2.43.0


From 6ba6f589ca2672bf300c927303b842e9a5388fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 51/54] fix: grouping by categorical keys made up rows

---
 src/waymo_open_dataset/v2/dataframe_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/v2/dataframe_utils.py b/src/waymo_open_dataset/v2/dataframe_utils.py
index 00b0bf7..fd8ec08 100644
--- a/src/waymo_open_dataset/v2/dataframe_utils.py
+++ b/src/waymo_open_dataset/v2/dataframe_utils.py
@@ -46,7 +46,7 @@ def _cast_keys(src, dst, keys):
 
 
 def _group_by(src, keys):
-  dst = src.groupby(list(keys)).agg(list).reset_index()
+  dst = src.groupby(list(keys), observed=True).agg(list).reset_index()
   # Fix key types automatically created from the MultiIndex
   _cast_keys(src, dst, keys)
   return dst
-- 
2.43.0


From 9fbe1e7568710d8212e8a3adf8c1e8eec2cb1d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 52/54] fix: objects of different types matched when the IoU
 threshold is 0

---
 src/waymo_open_dataset/metrics/matcher.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index 3fc427e..f522e1b 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -171,6 +171,10 @@ bool Matcher::CanMatch(int prediction_index, int ground_truth_index) const {
   // If custom CanMatch function is set, return the custom result.
   if (custom_can_match_func_ != nullptr)
     return custom_can_match_func_(*this, prediction_index, ground_truth_index);
+  // Objects of different types cannot be matched, even with a threshold of 0.
+  if (object_type != ground_truths()[ground_truth_index].object().type()) {
+    return false;
+  }
   const float iou = IoU(prediction_index, ground_truth_index);
   if (iou < iou_thresholds_[object_type]) {
     return false;
-- 
2.43.0


From 1d3a0fe1b984859faa771326f9e6f047da2c6f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 53/54] fix: tracking metrics changed from run to run when
 matches tie

---
 src/waymo_open_dataset/metrics/mot.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/mot.cc b/src/waymo_open_dataset/metrics/mot.cc
index ebe0dea..8162137 100644
--- a/src/waymo_open_dataset/metrics/mot.cc
+++ b/src/waymo_open_dataset/metrics/mot.cc
@@ -15,6 +15,7 @@ limitations under the License.
 
 #include "waymo_open_dataset/metrics/mot.h"
 
+#include <algorithm>
 #include <memory>
 #include <utility>
 #include <vector>
@@ -230,10 +231,14 @@ MOT::MatchResult MOT::Match(const absl::flat_hash_map<std::string, int>& pd_map,
   for (const auto& kv : pd_map) {
     pds_unmatched.push_back(matcher->prediction_subset()[kv.second]);
   }
+  // The order of a hash map changes from run to run; which of several equally
+  // good matches is taken must not.
+  std::sort(pds_unmatched.begin(), pds_unmatched.end());
   matcher->SetPredictionSubset(pds_unmatched);
   for (const auto& kv : gt_map) {
     gts_unmatched.push_back(matcher->ground_truth_subset()[kv.second]);
   }
+  std::sort(gts_unmatched.begin(), gts_unmatched.end());
   matcher->SetGroundTruthSubset(gts_unmatched);
 
   MatchResult result;
-- 
2.43.0


From 10750358daeb55577df5dc2ec02988f862ecd06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 54/54] fix: tracking details were lost when several scenes
 were evaluated

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index a068b67..ff76991 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -104,6 +104,9 @@ TrackingMeasurement MergeTrackingMeasurement(const TrackingMeasurement& m1,
   ADD_FIELD(num_matches);
   ADD_FIELD(num_objects_gt);
 #undef ADD_FIELD
+  // One element per frame, if details were asked for.
+  *m.mutable_details() = m1.details();
+  m.mutable_details()->MergeFrom(m2.details());
   m.set_score_cutoff(m1.score_cutoff());
   return m;
 }
-- 
2.43.0

