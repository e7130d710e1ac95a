#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = 'src/waymo_open_dataset/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(),
         technique='property-based testing (Hypothesis) against a reference model',
         note='', na=None, state=()):
  P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text,
                why=why, files=[W + f for f in files],
                mech=[dict(name=a, where=W + b) for a, b in mech],
                observe=list(observe), technique=technique, note=note, na=na,
                state=[dict(name=a, meaning=b, where=W + c) for a, b, c in state]))


PBT = 'property-based testing: Hypothesis-generated cases, '

prop('C01', 'Box IoU is the exact intersection over union',
     'For any two boxes of positive, ordinary size the IoU reported for 3D, 2D '
     '(bird\'s-eye) and axis-aligned box types, one at a time or in a batch, equals the exact area/volume of the '
     'intersection divided by that of the union of the two boxes (heading respected '
     'for 3D and 2D, ignored for axis-aligned; z and height only for 3D). It is in [0, 1], '
     'symmetric, 1 for a box with itself, 0 for disjoint boxes and for boxes with a degenerate or absurd (a million metres) dimension, '
     'and unchanged by moving or rotating both boxes together or turning a heading by a full turn.',
     ['inputs'], 'all pairs of boxes (any centre, extent, heading; touching, nested, '
     'identical, crossing, sharing edges or corners) and all box types',
     'iou_test and polygon2d_test compare a few dozen fixed boxes; intersection of rotated '
     'rectangles has many combinatorial cases (vertex order, shared edges, nesting) that '
     'only generated pairs reach.',
     ['metrics/iou.cc', 'math/polygon2d.cc', 'math/aabox2d.h', 'math/box2d.cc'],
     [('ComputeIoU/BatchComputeIoU', 'metrics/iou.cc'),
      ('Polygon2d::ComputeIntersectionArea', 'math/polygon2d.cc')],
     ['ComputeIoU', 'BatchComputeIoU'], PBT + 'exact rational clipping oracle and metamorphic relations')

prop('C02', 'Planar geometry primitives agree with exact geometry',
     'Boxes, convex polygons, segments, axis-aligned boxes and 2D/3D vectors report what Euclidean geometry says: corners, '
     'areas, bounding boxes, point containment, distances, segment intersection points, overlap queries (direct or through the box tree), and intersection areas. '
     'Moving, rotating or resizing an object changes exactly what the named operation says, so '
     'queries after any sequence of such operations equal the queries on an object built directly in the final pose; angle '
     'normalisation returns the equivalent angle in [-pi, pi), and headings after a turn are so normalised.',
     ['inputs', 'histories'], 'all objects and all sequences of geometric operations on them',
     'Existing tests use a handful of hand-picked shapes; cached headings/lengths and special positions '
     'depend on the sequence of operations applied.',
     ['math/polygon2d.cc', 'math/box2d.cc', 'math/segment2d.cc', 'math/aabox2d.h', 'math/vec2d.h', 'math/vec3d.h', 'math/math_util.h'],
     [('Polygon2d', 'math/polygon2d.cc'), ('Segment2d cached values', 'math/segment2d.h'), ('AABox2dTree', 'math/aabox2d.h')],
     ['Polygon2d', 'Box2d', 'Segment2d', 'AABox2d', 'Vec2d', 'NormalizeAngle'],
     PBT + 'reference geometry model, stateful operation sequences')

prop('C03', 'Longitudinal-error-tolerant affinity, alignment and IoU',
     'For any prediction, ground truth and sensor position, the longitudinal affinity is 1 minus the '
     'longitudinal (line-of-sight) localisation error divided by the tolerance (a percentage of the ground-truth range, at least the configured minimum), clamped to [0, 1]; '
     'the aligned prediction box differs from the prediction only by the documented shift for the chosen alignment type '
     '(none, range kept equal to ground truth\'s, any-angle/centre projection...), and the LET-IoU equals the ordinary IoU of the ground truth with that aligned box, all expressed relative to the sensor.',
     ['inputs', 'configurations'], 'all box pairs, sensor locations, tolerances, minimum tolerances and alignment types',
     'iou_test covers a few boxes on an axis; the claim is over all geometries and configurations.',
     ['metrics/iou.cc'], [('ComputeLongitudinalAffinity', 'metrics/iou.cc'), ('AlignedPredictionBox', 'metrics/iou.cc'), ('ComputeLetIoU', 'metrics/iou.cc')],
     ['ComputeLongitudinalAffinity', 'AlignedPredictionBox', 'ComputeLetIoU'])

prop('C04', 'Matchers return a valid, optimal one-to-one matching',
     'For any predictions, ground truths and subsets, a matcher pairs each subset prediction with at most one subset ground truth and the two returned lists are mutually inverse (either may be left out); '
     'every pair is allowed to match (the same object type, and an IoU of at least that type\'s threshold, which may be 0). '
     'The Hungarian matcher\'s pairs have the largest possible total weight, and the score-first matcher gives each prediction, in descending score order, the heaviest still-free ground truth it can match.',
     ['inputs', 'histories'], 'all object sets, all subsets and orders of them, all thresholds and box types, and repeated use of one matcher',
     'matcher_test and hungarian_test use fixed matrices; optimality and subset indexing are claims over all weight matrices and subsets.',
     ['metrics/matcher.cc', 'metrics/matcher.h', 'metrics/hungarian.cc'],
     [('HungarianMatcher::Match', 'metrics/matcher.cc'), ('ScoreFirstMatcher::Match', 'metrics/matcher.cc'), ('Hungarian', 'metrics/hungarian.cc')],
     ['Matcher::Match', 'Hungarian'], PBT + 'brute-force/assignment oracle and validity predicate')

prop('C05', 'Detection accounting: each object is counted exactly once',
     'For any frame and configuration, in every breakdown shard and at every score cutoff and difficulty level, the reported true positives, false positives and false negatives are those implied by '
     'the configured matching of the predictions at or above the cutoff in that shard: a matched pair is one true positive, an unmatched prediction outside no-label zones is one false positive, '
     'and an unmatched ground truth at or below the difficulty level is one false negative (a matched pair whose heading accuracy does not exceed the configured minimum is none of these; for velocity and camera breakdowns the matched or overlapped ground truth decides the shard). '
     'The heading-weighted and longitudinal-affinity-weighted counts sum the per-pair heading accuracy and affinity of the true positives.',
     ['inputs', 'configurations'], 'all frames (predictions, ground truths, no-label-zone flags, difficulties, scores) and all valid configurations',
     'detection_metrics_test checks a few scenes with one or two breakdowns; the accounting holds for every combination of scores, shards, difficulty and NLZ.',
     ['metrics/detection_metrics.cc', 'metrics/metrics_utils.cc', 'metrics/breakdown_generator.cc'],
     [('ComputeDetectionMeasurementsPerBreakdownShard', 'metrics/detection_metrics.cc'), ('BuildSubsets, IsTP/IsFP/IsDetectionFN', 'metrics/metrics_utils.cc')],
     ['ComputeDetectionMeasurements'])

prop('C06', 'Detection metrics: PR curve and average precision',
     'For any measurements, detection metrics report for each breakdown and difficulty a precision and recall per score cutoff derived from the summed true positives, false positives and false negatives over all frames, '
     'and mean average precision (plain, heading-weighted, LET) equal to the area under the monotone (max-interpolated) precision-recall curve, with recall gaps filled as documented. '
     'The result is in [0, 1], is 1 for a perfect detector, and does not depend on the order of frames, nor on whether frames are given one by one or the measurements are merged first.',
     ['inputs', 'histories', 'configurations'], 'all sets of frames, all cutoffs and all merge orders',
     'Tests fix one or two frames; merging and integration must hold for every history of frames.',
     ['metrics/detection_metrics.cc', 'metrics/metrics_utils.cc'],
     [('MergeDetectionMeasurements/ToDetectionMetrics', 'metrics/detection_metrics.cc'), ('ComputeMeanAveragePrecision', 'metrics/metrics_utils.cc')],
     ['ComputeDetectionMetrics'])

prop('C07', 'Breakdowns partition objects and their names match results',
     'For any configuration, every object belongs to at most one shard of each breakdown generator, determined by its documented property (type, range from the sensor, size, velocity/speed, camera, overlap, type plus range and so on) with half-open boundaries, so shards of a breakdown partition the objects it applies to. '
     'The list of breakdown names has one distinct name per reported result in the same order as the metrics themselves, '
     'for detection, tracking and motion configurations alike, and the Python and C++ helpers produce identical lists.',
     ['inputs', 'configurations'], 'all objects and all combinations of breakdown generators and difficulty levels',
     'Tests check a few objects and one configuration; agreement between three independent name enumerations must hold for all configurations.',
     ['metrics/breakdown_generator.cc', 'metrics/config_util.cc', 'metrics/python/config_util_py.py', 'metrics/metrics_utils.cc'],
     [('BreakdownGenerator::Shard', 'metrics/breakdown_generator.cc'), ('GetBreakdownNamesFromConfig', 'metrics/config_util.cc'), ('get_breakdown_names_from_config', 'metrics/python/config_util_py.py')],
     ['BreakdownGenerator', 'GetBreakdownNamesFromConfig', 'config_util_py'])

prop('C08', 'Score cutoff selection and difficulty levels',
     'When score cutoffs are estimated from predictions (detection or tracking), the chosen cutoffs are increasing, lie among the observed scores or their documented bounds, number at most what the configuration asks, and split the '
     'pooled scores of all scenes and frames into equally populated groups, regardless of the order of the predictions, frames or scenes. '
     'Explicit cutoffs are used as given.',
     ['inputs', 'configurations'], 'all score multisets and requested cutoff counts, any number of scenes and frames',
     'Tests use one scene and few scores.',
     ['metrics/metrics_utils.cc', 'metrics/tracking_metrics.cc', 'metrics/detection_metrics.cc'],
     [('DecideScoreCutoffs', 'metrics/metrics_utils.cc'), ('EstimateScoreCutoffs', 'metrics/tracking_metrics.cc')],
     ['EstimateScoreCutoffs', 'DecideScoreCutoffs'])

prop('C09', 'Tracking accounting over a sequence (CLEAR-MOT)',
     'For any sequence of frames, the tracking measurements of every shard, cutoff and difficulty equal those of the CLEAR-MOT mapping procedure: correspondences of the previous frame are kept while still valid, the rest are matched anew, '
     'every prediction ends as matched or false positive (unless in a no-label zone), every ground truth as matched or miss (if within the difficulty level), and an identity switch is counted when a ground truth changes its predicted track or a predicted track is taken over from a ground truth no longer in the frame. '
     'Counts accumulate over frames, and matching cost is the summed localisation error (1 - IoU) of the matched pairs. '
     'Evaluating the same sequence again gives the same measurements, also when several matchings are equally good.',
     ['histories', 'inputs'], 'all sequences of frames with objects appearing, disappearing, swapping identities',
     'mot_test walks a few short histories; identity handling depends on arbitrary histories.',
     ['metrics/mot.cc', 'metrics/tracking_metrics.cc'],
     [('MOT::Eval', 'metrics/mot.cc')], ['ComputeTrackingMeasurements', 'MOT'], PBT + 'stateful history against a reference CLEAR-MOT model')

prop('C10', 'Tracking metrics: MOTA, MOTP and merging of scenes',
     'For any set of sequences the tracking metrics of each breakdown and difficulty are computed from the sums over all sequences: MOTA = 1 - (misses + false positives + mismatches)/objects, '
     'MOTP = matching cost / matches, and the miss, false-positive and mismatch ratios over the objects, reported at the score cutoff with the best positive MOTA (the lowest such cutoff; all zero when there is none). '
     'The result does not depend on the order of sequences, equals that computed from per-sequence measurements, and keeps the matching details of every frame when these are asked for.',
     ['histories', 'inputs', 'configurations'], 'all sets of sequences, cutoffs and merge orders',
     'Tests use one scene; merging and best-cutoff selection must hold for every history.',
     ['metrics/tracking_metrics.cc'],
     [('MergeTrackingMeasurements/ToTrackingMetrics', 'metrics/tracking_metrics.cc')], ['ComputeTrackingMetrics'])

prop('C11', 'Segmentation mIoU is order-free and mergeable',
     'For any sequence of point-label updates, the per-class IoU is the number of points with both labels of that class divided by those with either, over all updates, counting only points whose ground-truth type is configured (a prediction of any other type is then a miss); the mean is over the configured classes and '
     'a class that never occurs counts 1. Results do not depend on how points are split into updates or on their order, merging per-frame measurements of any size equals computing on all points at once, a rejected update changes nothing, and reset forgets everything.',
     ['histories', 'inputs', 'configurations'], 'all sequences of update/merge/reset operations, all class lists and label vectors, counts beyond 32 bits when merging',
     'Tests use two short updates; accumulation and merging hold over every history and size.',
     ['metrics/segmentation_metrics.cc'],
     [('SegmentationMetricsIOU', 'metrics/segmentation_metrics.cc')], ['SegmentationMetricsIOU', 'ComputeIOU'], PBT + 'stateful update/merge/reset history against an exact integer model',
     state=[('confusion_matrix_', 'accumulated counts', 'metrics/segmentation_metrics.h')])

prop('C12', 'Motion metrics: displacement errors and miss rate',
     'For any scenario, configuration and prediction set, minADE is the smallest over the considered trajectories of the mean distance to ground truth over the valid steps up to each measured horizon, minFDE the smallest distance at the horizon step, and a miss is counted when no considered trajectory (the first K, joint over all '
     'agents of the prediction) is within the speed-scaled lateral and longitudinal thresholds in the ground-truth heading frame. '
     'Steps whose ground truth is invalid contribute nothing, and all results are unchanged when the whole scene is moved or rotated.',
     ['inputs', 'configurations'], 'all scenarios, multi-agent joint predictions, validity patterns, horizons, K and thresholds',
     'motion_metrics_test uses straight-line agents; validity masks, headings and K selection vary over all inputs.',
     ['metrics/motion_metrics.cc', 'metrics/motion_metrics_utils.cc'],
     [('ComputeMinAverageDisplacement, ComputeMissRate', 'metrics/motion_metrics.cc')], ['ComputeMotionMetrics', 'ComputeMetricsStats'])

prop('C13', 'Motion metrics: overlap rate',
     'For any scenario the overlap of a prediction is 1 when the box of one of its agents along the most confident of the first K trajectories (at predicted position and heading, ground-truth dimensions) intersects, at some step up to the measured one where both are valid, the box of another object present at the current time, and 0 otherwise. '
     'It depends on neither the order of tracks nor of agents in a prediction and, for predictions that move, is unchanged when the whole scene is moved or rotated.',
     ['inputs', 'configurations'], 'all scenarios, multi-agent predictions and horizons',
     'Only a couple of hand-made overlaps are tested.',
     ['metrics/motion_metrics.cc', 'metrics/motion_metrics_utils.cc'],
     [('ComputeOverlapRate', 'metrics/motion_metrics.cc'), ('PredictionToPolygon', 'metrics/motion_metrics_utils.cc')], ['ComputeMotionMetrics'])

prop('C14', 'Motion metrics: mean average precision and soft mAP',
     'For any set of predictions, mAP per object type and horizon is the mean over the trajectory-shape buckets with ground truth of the max-interpolated area under the precision-recall curve over confidence-sorted trajectories, in which at most one trajectory per ground truth (the most confident matching one) is a true positive; '
     'the remaining trajectories count as false positives for mAP, while soft mAP ignores the additional matching ones. '
     'Each value is in [0, 1], 1 for a single confident matching trajectory per ground truth and 0 when nothing matches.',
     ['inputs', 'histories'], 'all sets of scenarios and predictions, confidences, buckets and accumulation orders',
     'Tests use one or two predictions; curve integration and bucketing hold over all collections.',
     ['metrics/motion_metrics.cc', 'metrics/motion_metrics_utils.cc'],
     [('ComputeMapMetric', 'metrics/motion_metrics.cc'), ('ClassifyTrack', 'metrics/motion_metrics_utils.cc')], ['ComputeMotionMetrics', 'ComputeMetricsStats'])

prop('C15', 'Motion metrics: aggregation over scenarios and breakdowns',
     'The metrics bundle has, for each object type and each measured horizon, the average of minADE, minFDE, miss rate and overlap rate over the predictions of that type (a joint prediction has the type of its rarest agent: cyclist before pedestrian before vehicle) with valid ground truth at that horizon. '
     'Accumulating scenarios in any order or grouping, in one or several buckets, gives the same bundle, equal to direct computation on all scenarios; this also holds under the default (challenge) configuration: 1 s of history and 8 s of future at 10 Hz, six predictions at 2 Hz, measured at 3, 5 and 8 s with miss thresholds of 1/2, 1.8/3.6 and 3/6 m (lateral/longitudinal).',
     ['histories', 'inputs', 'configurations'], 'all sets of scenarios, all groupings and orders, all horizon configurations',
     'Tests accumulate one or two scenarios.',
     ['metrics/motion_metrics.cc'],
     [('BucketedMetricsStats::Accumulate', 'metrics/motion_metrics.cc'), ('ComputeMotionMetrics', 'metrics/motion_metrics.cc')], ['ComputeMotionMetrics', 'BucketedMetricsStats'])

prop('C16', 'Motion submissions: invalid input is rejected, never misread',
     'Every malformed motion-metrics configuration, scenario or prediction set (non-divisible rates, measurement steps out of the predicted range, wrong or unequal trajectory lengths, wrong track lengths, unknown object ids, joint predictions over different objects, missing predictions for required agents, mismatched scenario ids or the wrong number of objects in a challenge prediction) is reported as an error status and never crashes or silently changes the metrics; '
     'every well-formed one is accepted. Conversion of challenge submissions to the internal form keeps every object, trajectory point and confidence of the required agents.',
     ['inputs', 'configurations'], 'all single and combined malformations of a well-formed input',
     'Tests try a few malformations; rejection must hold for every one and the boundary must be exact.',
     ['metrics/motion_metrics.cc', 'metrics/motion_metrics_utils.cc'],
     [('ValidateConfig, ValidatePredictions, ValidateChallengePredictions', 'metrics/motion_metrics.cc')], ['ComputeMotionMetrics', 'ValidateChallengePredictions'],
     PBT + 'mutation of well-formed inputs with an acceptance model')

prop('C17', 'Scenario to tf.Example: agent and traffic-light features',
     'For any valid scenario and configuration, the tf.Example holds past, current and future features of each modelled agent and then the nearest context agents, padded with -1 (validity 0) to the configured count: '
     'every entry of every state feature equals the field of that agent\'s track at that step, invalid states are padding, ids, types, is_sdc and tracks_to_predict match the tracks, and traffic-light lane ids, states and positions are copied exactly per step. Scenarios that do not fit the configuration (step counts, sizes) are refused with an error. '
     'Two examples compare equal, in either order, exactly when they have the same features of the same kinds with equal values (floats within the tolerance).',
     ['inputs', 'configurations'], 'all scenarios (tracks, validity, lights, ids up to 64 bits) and conversion configurations',
     'scenario_conversion_test converts one stored scenario.',
     ['data_conversion/scenario_conversion.cc', 'utils/example_utils.py'],
     [('ScenarioToExample', 'data_conversion/scenario_conversion.cc'), ('examples_equal', 'utils/example_utils.py')], ['ScenarioToExample', 'examples_equal'])

prop('C18', 'Scenario to tf.Example: road graph samples',
     'For any map, the road-graph samples follow the source polylines/polygons at the configured spacing in order (linearly in the first and last segment, by Catmull-Rom interpolation between inner points, along straight sides for polygons), start at the first point and end at the last, carry the id and type of their feature and a unit direction to the next sample of the same feature (zero at the last), '
     'are closed for polygons, and never mix features; the arrays have exactly the configured maximum length, with features beyond it truncated and the rest padded with -1 and validity 0. An empty or single-point feature never crashes the conversion.',
     ['inputs', 'configurations'], 'all maps and sampling configurations',
     'One stored scenario is converted in tests; geometry and truncation vary over all maps.',
     ['data_conversion/scenario_conversion.cc'],
     [('AddPolylineSamples/AddPolygonSamples', 'data_conversion/scenario_conversion.cc')], ['ScenarioToExample'])

prop('C19', 'Camera model: projection and back-projection are inverse',
     'For any calibration and camera image metadata with a global shutter, projecting a point in front of the camera equals the pinhole plus radial/tangential distortion model applied in the camera frame at the image\'s vehicle pose, back-projecting the resulting pixel at the returned depth gives the point back, and '
     'points behind the camera, outside the valid distortion radius or projecting outside the image are flagged as not visible.',
     ['inputs', 'configurations'], 'all calibrations, poses, points and pixels',
     'camera_model_test uses one stored calibration and a few points.',
     ['wdl_limited/camera/camera_model.cc'],
     [('CameraModel::WorldToImage/ImageToWorld', 'wdl_limited/camera/camera_model.cc')], ['CameraModel'], PBT + 'independent projection model and round trip')

prop('C20', 'Camera model: rolling shutter consistency',
     'With a rolling shutter in any readout direction, the pixel reported for a (possibly moving) point is consistent with the camera pose, obtained from the constant vehicle velocity and turn rate, at the very time the pixel\'s row or column is read out: projecting the point at that time with that pose gives that pixel to within the solver\'s tolerance (for points where the projection is well conditioned; the turn is linear in time over the image). '
     'Back-projecting a pixel uses that same time, so both directions are mutual inverses for static points, and with zero motion rolling and global shutter agree.',
     ['inputs', 'configurations'], 'all shutter directions, trigger/readout times, velocities, turn rates and points',
     'One stored calibration is tested in one direction.',
     ['wdl_limited/camera/camera_model.cc'],
     [('RollingShutterState / IterateUpdateTimeAndComputeResidual', 'wdl_limited/camera/camera_model.cc')], ['CameraModel'], PBT + 'self-consistency oracle at the solved time')

prop('C21', 'TensorFlow ops compute what the C++ libraries compute',
     'For any valid tensors the metrics ops (detection, tracking, motion, matching) and the camera ops return exactly the values the corresponding C++ library gives for the same objects, frames and configuration, with batching, frame grouping, object ids, scores, difficulty, types and padding honoured; rows may come in any order (every predicted agent has a valid ground-truth state, and scenario ids in a batch differ). '
     'An unparsable configuration is rejected with an error.',
     ['inputs', 'configurations'], 'all tensor contents and shapes the ops document, any row order',
     'The op tests need the TensorFlow runtime and check a few fixed tensors.',
     ['metrics/ops/utils.cc', 'metrics/ops/detection_metrics_ops.cc', 'metrics/ops/tracking_metrics_ops.cc', 'metrics/ops/motion_metrics_ops.cc', 'metrics/ops/matcher_ops.cc', 'wdl_limited/camera/ops/camera_model_ops.cc'],
     [('op kernels', 'metrics/ops/')], ['Detection', 'Tracking', 'Motion', 'Match', 'WorldToImage', 'ImageToWorld'], PBT + 'differential: op kernel against library')

prop('C22', 'Command line tools report what the library computes',
     'Each command-line tool (detection, LET detection, tracking and segmentation evaluation, submission creation, latency comparison), run on any files of valid serialized objects, reports the metrics the library computes for those objects grouped by scene and frame (objects of one camera and scene and timestamp form one frame; a missing difficulty is derived from the number of lidar points; the LET tool uses the camera-synced boxes of the five cameras of the dataset); a file that is missing, damaged or not a valid message gives no metrics and never a memory error. '
     'Submission files written from object files together contain every object with score at least 0.03 and without NaN, unchanged except that too small sizes are raised to a tiny positive value, and every file carries the given metadata. '
     'The latency comparison accepts exactly when, for every frame of the latency file, at most 5 % of the detections differ (no box of the same type overlapping nearly fully, a score differing by more than 0.05, or extra detections in the full results), ignoring objects below the minimum score or of unknown type.',
     ['inputs'], 'all object files: any number and order of objects, frames and scenes, any bytes of a valid serialized message, damaged files',
     'The tools have no tests.',
     ['metrics/tools/compute_detection_metrics_main.cc', 'metrics/tools/compute_tracking_metrics_main.cc', 'metrics/tools/compute_segmentation_metrics_main.cc', 'metrics/tools/create_submission.cc', 'latency/compare_objects_file_to_submission_main.cc'],
     [('main', 'metrics/tools/')], ['stdout and output files of the tools'], PBT + 'differential: tool against library')

prop('C23', 'Range image delta encoding is lossless up to its precision',
     'For any range image and quantisation precisions, decompressing the compressed bytes gives an image of the same shape in which every value is within half a quantisation step of the original (lossless for values on the grid) and empty pixels stay empty, in single- and multi-channel images of any size and content. '
     'Compression does not change its input and is deterministic; the bytes are the published format (zlib over run-length mask and channel-major deltas); damaged or truncated data never decodes silently to a differently shaped image, and non-positive precisions, precision lists of the wrong length and dimensions beyond 65535 are refused.',
     ['inputs'], 'all arrays (shapes, masks, magnitudes, long runs) and precisions',
     'delta_encoder_test uses a few small arrays; varint/zig-zag/run-length boundaries are hit only by generated values.',
     ['utils/compression/delta_encoder.py'],
     [('compress/decompress', 'utils/compression/delta_encoder.py')], ['compress', 'decompress'], PBT + 'round trip and metamorphic relations')

prop('C24', 'Rater feedback score follows the published rule',
     'For any batch of predicted trajectories and rater trajectories, each prediction gets, at each checked time (3 s and 5 s), the best label over the rater trajectories, decayed exponentially with how far (in units of the speed-scaled lateral and longitudinal trust-region sizes along that rater trajectory\'s direction of travel) it lies outside that trajectory\'s region; the times are averaged, a prediction that is inside no trajectory\'s region at both times scores at least the floor, and predictions are combined by their probabilities. '
     'Batches are independent; scores are invariant to the order of rater or predicted trajectories and to rotations of the scene about the vehicle, do not decrease on approaching a single rater trajectory, and padding or truncating rater trajectories to the expected number and length does not matter however they are given (lists or one array). Inconsistent numbers of batches, labels or time steps are refused.',
     ['inputs', 'configurations'], 'all batches, numbers of raters, trajectories, labels, speeds and probabilities',
     'The tests use a handful of straight lines.',
     ['metrics/python/rater_feedback_utils.py'],
     [('get_rater_feedback_score', 'metrics/python/rater_feedback_utils.py')], ['get_rater_feedback_score'])

prop('C25', 'Map plotting shows every feature where it is',
     'For any list of map features, plotting draws one line trace per feature that has points, in order, containing exactly that feature\'s points in order (polygons closed) in the colour and dash of its type, plus an overview of all points coloured by type; features without points draw nothing and never fail, and the features are not changed.',
     ['inputs'], 'all lists of map features of any types and sizes, including empty ones',
     'plot_maps_test draws a few features of fixed kind.',
     ['utils/plot_maps.py'], [('plot_map_features', 'utils/plot_maps.py')], ['plot_map_features'])

prop('C26', 'V2 components round-trip through their columnar form',
     'Any component instance written to its flat column dictionary and read back gives an equal component, with column names prefixed by the component tag, key columns present and unprefixed, absent optional fields absent, nested and repeated fields preserved, whatever other columns stand in the same row; the schema lists exactly those columns, and merging '
     'component tables joins rows exactly by their common key columns (outer/inner as asked) without losing, duplicating or mis-pairing rows.',
     ['inputs', 'configurations'], 'all component classes, all field values, all key combinations and merge options',
     'Tests use toy components.',
     ['v2/component.py', 'v2/column_types.py', 'v2/dataframe_utils.py', 'v2/typing_utils.py'],
     [('Component.to_flatten_dict/from_dict/schema', 'v2/component.py'), ('merge', 'v2/dataframe_utils.py')], ['Component', 'merge'])


prop('C27', 'V1 frames convert to v2 components without loss',
     'For any v1 Frame, label, camera image or calibration proto, the extractors yield one v2 component exactly when its source data is present, keyed by segment, timestamp, sensor and object id of that source, with every box, velocity, acceleration, difficulty, point count, association, keypoint, pose, calibration and statistics field equal to the proto field it comes from '
     '(an absent vertical speed is 0, absent optional parts stay absent). Incomplete keypoints are refused with the extraction error, and the declared component type and schema are those of what is yielded. Enumerations of both formats agree.',
     ['inputs'], 'all field values and all patterns of present and absent fields',
     'The tests that exist need packages that are absent here and extract one hand-written proto each.',
     ['v2/perception/compat_v1/box.py', 'v2/perception/compat_v1/camera_image.py', 'v2/perception/compat_v1/context.py', 'v2/perception/compat_v1/keypoints.py', 'v2/perception/compat_v1/pose.py', 'v2/perception/compat_v1/interfaces.py'],
     [('component extractors', 'v2/perception/compat_v1/')], ['*Extractor.__call__', 'component', 'schema'],
     note='Exploration over generated protos; pyarrow is replaced by a stand-in that records declared types (verif/shim).')


prop('C28', 'Exact floating-point arithmetic is exact',
     'ExactFloat sums, differences, products, negations, comparisons, scalings by powers of two, splits into mantissa and exponent, and the fmax/fmin/fdim/copysign family equal exact rational arithmetic for all finite operands, with IEEE 754 results for zeros, infinities and NaN and overflow or underflow only beyond the stated exponent range. '
     'Rounding to a number of bits or to an integer obeys each rounding mode; conversion to double and to integers rounds to nearest and clamps; decimal text shows the requested number of significant digits, correctly rounded with ties to even.',
     ['inputs'], 'all operand pairs (integers, doubles, sums of widely separated powers of two, exponents up to the limits), precisions, rounding modes and digit counts',
     'exactfloat_test checks tables of chosen values.',
     ['math/exactfloat.cc', 'math/exactfloat.h'], [('ExactFloat', 'math/exactfloat.cc')], ['ExactFloat'])


SHIM = 'Exploration over generated inputs; TensorFlow is replaced by a numpy stand-in (verif/shim) validated with the repository\'s own TensorFlow tests. '

prop('C29', 'Range images, point clouds and depth images agree with the sensor model',
     'For any valid range image, inclinations, extrinsic, pixel pose and frame pose, the extracted point of a pixel is its range along that pixel\'s beam (azimuth from the column and the extrinsic yaw, inclination from the row, top row highest), carried to the vehicle frame through extrinsic and poses; pixels of range zero or in a no label zone give no point, and points of all lidars and returns come in calibration order with matching camera projections and segmentation labels. '
     'Building a range image from points puts each point in the row of nearest inclination and column of nearest azimuth, the nearest range winning, and extraction inverts it to within half a pixel. '
     'Encoded lidar features decode to within one step, in order, and out of range values are refused. Scatter with an aggregate equals combining the values per pixel; cropping, uniform inclinations, rotation matrices, poses and their inverse, and camera depth images equal their definitions. '
     'Frame dictionaries hold exactly the images, calibrations and poses of the frame they come from.',
     ['inputs'], 'all image sizes, ranges, calibrations, poses, masks and patterns of returns, including points on the seam at -pi',
     'The tests need TensorFlow, absent here, and use one random cloud or one sample frame.',
     ['utils/range_image_utils.py', 'utils/transform_utils.py', 'utils/frame_utils.py'],
     [('extract_point_cloud_from_range_image/build_range_image_from_point_cloud', 'utils/range_image_utils.py'), ('convert_range_image_to_point_cloud', 'utils/frame_utils.py')],
     ['extract_point_cloud_from_range_image', 'build_range_image_from_point_cloud', 'convert_frame_to_dict'], note=SHIM)

prop('C30', 'Box, convex polygon and trajectory helpers are geometrically exact',
     'A point is inside an upright box exactly when its coordinates in the box frame are within half the extents; corner order, frame changes of boxes and points, and velocities are as documented and invert each other. Minkowski sums of convex polygons and signed distances to them equal the exact geometry (negative inside, distance to the nearest edge). '
     'Object trajectories made from a scenario hold the recorded state of each track and step, validity included, and slicing and gathering by object id select exactly the named steps and objects, refusing ids that are absent.',
     ['inputs'], 'all boxes, headings, polygons, scenarios, time ranges and id lists',
     'The tests need TensorFlow, absent here, and check a handful of fixed boxes and shapes.',
     ['utils/box_utils.py', 'utils/geometry_utils.py', 'utils/trajectory_utils.py'],
     [('is_within_box_3d/transform_box', 'utils/box_utils.py'), ('minkowski_sum_of_box_and_box_points', 'utils/geometry_utils.py'), ('ObjectTrajectories', 'utils/trajectory_utils.py')],
     ['is_within_box_3d', 'signed_distance_from_point_to_convex_polygon', 'ObjectTrajectories'], note=SHIM)

prop('C31', 'Sim agents submissions are validated and converted exactly',
     'For any scenario the agents to simulate are those valid at the current step, and those to evaluate are the self-driving car and the tracks to predict (all simulated agents when generating scenarios). Joint scenes and scenario rollouts are accepted exactly when they name every agent to simulate, none else, with full-length complete trajectories, the right number of scenes and the scenario id; each violation of those rules is refused. '
     'Converting a scene to trajectories keeps each value, id and type in the order of the simulated objects, with (sim agents) the logged history before the simulated future and the box size at the current step. A logged scenario converts to the joint scene of its own future, and one of the wrong length is refused.',
     ['inputs'], 'all scenarios, object orders, missing steps and kinds of flaw',
     'The tests need TensorFlow, absent here, and use one scenario with a few flaws.',
     ['utils/sim_agents/submission_specs.py', 'utils/sim_agents/converters.py'],
     [('validate_joint_scene/validate_scenario_rollouts', 'utils/sim_agents/submission_specs.py'), ('simulated_scenarios_to_trajectories', 'utils/sim_agents/converters.py')],
     ['validate_joint_scene', 'validate_scenario_rollouts', 'joint_scene_to_trajectories'], note=SHIM)


prop('C32', 'Sim agents metric features are exact kinematics, distances and violations',
     'Speeds, accelerations and their validity are central differences (angles across the seam taken the short way); displacement is the 3D distance. The distance to the nearest object is the signed distance between the rounded boxes, over valid other objects. The time to collision is that to the nearest object ahead in the path with aligned heading (whatever multiple of a turn headings differ by), at constant speeds, capped at 5 s. '
     'The distance to the road edge is the signed planar distance of the most off-road bottom corner to the nearest edge at its level, left side negative, around corners and across the closing point of rings, whatever other lines are in the scene. A red light violation is the crossing of a stop point of the lane nearest to the object while its signal says stop. '
     'Features of whole scenes hold these values for the evaluated objects and simulated steps, for log and simulations, with the matching collision and off-road flags and average displacement errors.',
     ['inputs'], 'all trajectories, headings, sizes, masks, road edges, lanes and signals (comparisons within rounding of a threshold aside)',
     'The tests need TensorFlow, absent here, and check a few hand-made layouts and one sample scenario.',
     ['wdl_limited/sim_agents_metrics/trajectory_features.py', 'wdl_limited/sim_agents_metrics/interaction_features.py', 'wdl_limited/sim_agents_metrics/map_metric_features.py', 'wdl_limited/sim_agents_metrics/traffic_light_features.py', 'wdl_limited/sim_agents_metrics/metric_features.py'],
     [('compute_distance_to_nearest_object/compute_time_to_collision_with_object_in_front', 'wdl_limited/sim_agents_metrics/interaction_features.py'), ('compute_distance_to_road_edge', 'wdl_limited/sim_agents_metrics/map_metric_features.py')],
     ['compute_kinematic_features', 'compute_distance_to_road_edge', 'compute_red_light_violation', 'compute_scenario_rollouts_features'], note=SHIM)

prop('C33', 'Sim agents likelihoods and their aggregation follow their definition',
     'The log-likelihood of each logged value is that of its bin (smoothed histogram or Bernoulli) or kernel density under the simulated samples of the same object, or of all objects when aggregated, at the same step, or all steps when independent. Scenario metrics are the exponentials of the averages over valid steps (both neighbours valid for speeds, vehicles only for time to collision and traffic lights), event likelihoods compare whether anything happened at a valid step, '
     'the meta metric is the weighted sum of the likelihoods, and rates and displacement errors are plain averages (least over simulations). Aggregation over scenarios is the mean of every reported field, and buckets are weighted means, a bucket without weight refused; shapes that do not match are refused.',
     ['inputs'], 'all sample shapes, values, validity masks, estimators and weights',
     'The tests need TensorFlow, absent here, and use one scenario with golden values.',
     ['wdl_limited/sim_agents_metrics/estimators.py', 'wdl_limited/sim_agents_metrics/metrics.py'],
     [('log_likelihood_estimate_timeseries', 'wdl_limited/sim_agents_metrics/estimators.py'), ('compute_scenario_metrics_for_features_bundle/aggregate_*', 'wdl_limited/sim_agents_metrics/metrics.py')],
     ['log_likelihood_estimate_timeseries', 'compute_scenario_metrics_for_features_bundle', 'aggregate_scenario_metrics', 'aggregate_metrics_to_buckets'], note=SHIM)

prop('C34', 'Occupancy and flow grids show every agent where it is',
     'Occupancy grids mark exactly the cells that points sampled uniformly in the boxes of valid agents of each type fall in, in a frame centred on (and, if asked, turned with) the autonomous vehicle at the current step; future steps split into agents seen at some past or current step and the rest. Flow is the mean displacement, over the points in a cell, back to one waypoint earlier, where both steps are valid. '
     'Waypoints take the last step of their interval, or its union and the mean of its nonzero flow when cumulative; flow origins are one waypoint earlier; intervals that do not divide the future or reach beyond the history are refused. Road points and fading trails use the same frame. Overlap, end point error and the means over waypoints with ground truth follow their definitions, and pictures composite the layers in order. Motion examples of the documented layout are read back value by value; missing, short or mistyped features are refused.',
     ['inputs'], 'all scenes, configurations, grids and agent types, points too close to a cell boundary excepted',
     'The tests need TensorFlow, absent here, and use one scene with golden sums.',
     ['utils/occupancy_flow_renderer.py', 'utils/occupancy_flow_grids.py', 'utils/occupancy_flow_metrics.py', 'utils/occupancy_flow_data.py', 'utils/occupancy_flow_vis.py'],
     [('render_occupancy_from_inputs/render_flow_from_inputs', 'utils/occupancy_flow_renderer.py'), ('create_ground_truth_*', 'utils/occupancy_flow_grids.py'), ('compute_occupancy_flow_metrics', 'utils/occupancy_flow_metrics.py')],
     ['render_occupancy_from_inputs', 'render_flow_from_inputs', 'create_ground_truth_waypoint_grids', 'create_ground_truth_vis_grids', 'compute_occupancy_flow_metrics', 'occupancy_rgb_image'], note=SHIM)


prop('C35', 'Keypoint metrics and matching follow their definitions',
     'Object keypoint similarity, precision at similarity thresholds, mean joint position error, the pose estimation metric (mismatched points cost the penalty, true negatives do not count), visibility precision and recall, and the percentage of correct keypoints equal their definitions over any history of batches, weights, missing points and resets; combined metrics report the same per subset under the documented names and refuse types without a scale. '
     'Displacements and keypoint distances are the shortest moves into the box. Keypoint and box tensors carry every proto value in the requested order with missing/occluded/visible flags, and laser objects are joined to their associated camera labels. The mean error matcher first gives hidden objects the predictions that put most points inside them, then assigns the rest with the smallest total error; reordering yields each match, miss and false alarm exactly once.',
     ['inputs'], 'all keypoints, boxes, weights, batch histories and frames of up to 4 x 4 objects, values too close to a threshold excepted',
     'The tests need TensorFlow, absent here, and use a few hand-written objects.',
     ['metrics/python/keypoint_metrics.py', 'utils/keypoint_data.py'],
     [('KeypointsMetric subclasses', 'metrics/python/keypoint_metrics.py'), ('MeanErrorMatcher.matching_ids', 'metrics/python/keypoint_metrics.py'), ('BaseMatcher.reorder', 'metrics/python/keypoint_metrics.py'), ('create_pose_estimation_tensors', 'utils/keypoint_data.py')],
     ['object_keypoint_similarity', 'KeypointsMetric.result', 'create_combined_metric', 'MeanErrorMatcher.matching_ids', 'BaseMatcher.reorder', 'group_object_labels', 'create_pose_estimation_tensors'], note=SHIM)


prop('C36', 'Python wrappers hand the metric ops everything accumulated and name every result',
     'Over any sequence of updates, evaluations and resets the detection evaluator runs the op once on the concatenation of the accepted updates in order, keeps its state when evaluating, drops it when a result is taken, and refuses incomplete updates without changing its state. The metric-op dictionaries of detection, tracking and motion accumulate every batch exactly once and attribute each output to the breakdown and quantity it belongs to (recall at a precision being the best recall above it). '
     'Missing optional inputs default to zero speed, no overlap, consecutive object ids and scenario ids that stay distinct across updates; the matcher passes the requested box type, threshold, algorithm and tolerance and returns the columns of the op.',
     ['inputs', 'histories'], 'all update sequences, batch sizes (also empty), breakdown configurations and optional inputs',
     'The tests need TensorFlow, absent here, and use one or two updates.',
     ['metrics/python/wod_detection_evaluator.py', 'metrics/python/detection_metrics.py', 'metrics/python/tracking_metrics.py', 'metrics/python/motion_metrics.py', 'metrics/python/matcher.py', 'metrics/ops/py_metrics_ops.py'],
     [('WODDetectionEvaluator.update_state/result', 'metrics/python/wod_detection_evaluator.py'), ('get_*_metric_ops', 'metrics/python/motion_metrics.py'), ('match', 'metrics/python/matcher.py')],
     ['WODDetectionEvaluator.result', 'get_detection_metric_ops', 'get_tracking_metric_ops', 'get_motion_metric_ops', 'matcher.match', 'py_metrics_ops'], note=SHIM)


prop('C37', 'Camera panoptic labels: codec, consistent instances, colours, evaluation input',
     'Panoptic labels encode and decode (semantic class, instance) without loss for any divisor above the instance ids, which the returned divisor always is; labels that cannot be represented are refused, never folded into another class. Decoding several frames gives every pixel its class, gives instances the same id exactly when they have the same global id in the same sequence, sequential ids 1..n on request, the tracked mask and camera coverage of the label, and the same result for v1 protos and v2 components. '
     'Saving a prediction and decoding it restores classes and instances. Colours are those of the class, with instances told apart in the green channel. Frames are loaded from one sequence up to the requested number. The evaluation sees every frame once, with untracked instances as crowd and pixels weighted by the inverse of the camera coverage, refuses inconsistent lengths, and aggregates all sequences without changing them.',
     ['inputs'], 'all label images, divisors, id mappings and sequences of up to 5 frames; DeepLab2 itself is replaced by a recorder',
     'The tests need TensorFlow and DeepLab2, absent here, and use two hand-written frames.',
     ['utils/camera_segmentation_utils.py', 'wdl_limited/camera_segmentation/camera_segmentation_metrics.py', 'v2/perception/compat_v1/segmentation.py', 'v2/perception/segmentation.py'],
     [('decode_multi_frame_panoptic_labels_from_segmentation_labels', 'utils/camera_segmentation_utils.py'), ('save_panoptic_label_to_proto', 'utils/camera_segmentation_utils.py'), ('get_metric_object_by_sequence', 'wdl_limited/camera_segmentation/camera_segmentation_metrics.py')],
     ['decode_multi_frame_panoptic_labels_from_segmentation_labels', 'save_panoptic_label_to_proto', 'panoptic_label_to_rgb', 'load_frames_with_labels_from_dataset', 'get_metric_object_by_sequence', 'aggregate_metrics'], note=SHIM)


prop('C38', 'Object assets: ray codec, box geometry and images are exact up to their stated loss',
     'Tiling a grid and combining the tiles is the identity, the padding mirrors the data, and tiles of another size are refused. The PCA is the normalised linear map of its parameters, reconstructs what its components span and survives JSON; the codec stores values within half a quantization step (saturating at int32), keeps shape and reference, and its round trip loses no more than the quantization and the dropped components. '
     'Camera ray components keep their key and shapes through compression. Ray-box intersections report exactly the rays that hit, with the exact entry and exit distances, negative ones for a start inside (entry) or a miss (both). Point and direction transforms between vehicle, frame and box coordinates are the exact rigid motions and invert each other. Decoded image and mask properties return every pixel in its type.',
     ['inputs'], 'all grids up to 12 x 12 cells (large enough to mirror), PCA parameters, quantizations, rays, boxes and poses',
     'The tests need TensorFlow and scikit-learn, absent here, and use one hand-written ray or box each.',
     ['utils/compression/tiling.py', 'utils/compression/pca_codec.py', 'v2/perception/utils/object_asset_codec.py', 'v2/perception/utils/object_asset_utils.py', 'v2/perception/object_asset.py', 'v2/column_types.py'],
     [('Codec.encode/decode', 'utils/compression/pca_codec.py'), ('extract_tiles/combine_tiles', 'utils/compression/tiling.py'), ('get_ray_box_intersects', 'v2/perception/utils/object_asset_utils.py')],
     ['pca_codec.Codec', 'pca_codec.Pca', 'tiling.extract_tiles', 'ObjectAssetRayCodec', 'get_ray_box_intersects', 'transform_points_to_box_coord'], note=SHIM)


prop('C39', 'LiDAR points are the same in the v1, v2 and motion dataset formats',
     'Range images, camera projections, pixel poses and segmentation labels of every laser and return come out of a frame as v2 components with all values, shape and key, and absent data gives no component. v2 range images convert to the points of the sensor model (extrinsic, inclinations given or spread over their range, first row on top, pixel poses into the vehicle frame of the frame pose), equal to what the v1 code computes, with range, intensity and elongation in front on request; clouds and projections are the pixels with positive range in row order. '
     'Delta-compressed lasers of motion scenarios give the same points and features for top and side lidars, both returns. Augmenting a scenario appends the lidar or camera data and changes nothing else; camera tokens map to their codebook rows and tokens outside the codebook are refused.',
     ['inputs'], 'all frames of 1-5 lasers up to 5 x 7 pixels, calibrations, poses and returns',
     'The tests need TensorFlow, absent here, and check shapes on one recorded frame.',
     ['v2/perception/utils/lidar_utils.py', 'v2/perception/compat_v1/lidar.py', 'v2/perception/lidar.py', 'utils/womd_lidar_utils.py', 'utils/womd_camera_utils.py'],
     [('convert_range_image_to_cartesian', 'v2/perception/utils/lidar_utils.py'), ('extract_top_lidar_points', 'utils/womd_lidar_utils.py'), ('LiDAR*ComponentExtractor', 'v2/perception/compat_v1/lidar.py')],
     ['convert_range_image_to_point_cloud', 'extract_pointwise_camera_projection', 'parse_range_image', 'extract_top_lidar_points', 'extract_side_lidar_points', 'get_camera_embedding_from_codebook'], note=SHIM)


prop('C40', 'The real-time pipeline times every frame and keeps its detections',
     'Running a submitted model over a data directory initialises it once before any frame, calls it once per frame with exactly the requested arrays of that frame, records the duration of each call alone (not of loading, saving or initialising), one per frame, and saves boxes, scores, classes and the list of inputs under the frame; model outputs with missing, additional or mismatched arrays stop the run. '
     'Collecting results gives, for every frame directory, one object per detection in order with context, timestamp, score, type and all box fields (seven for 3D, four for 2D with the camera of the single image input), except those with scores under 0.03 or sizes under 0.01. Mismatched counts, unknown types and 2D results that did not come from exactly one camera image are refused; other files in the directories are ignored.',
     ['inputs', 'histories'], 'all data directories, requested fields, model outputs of up to 6 detections per frame in the usual number types',
     'No test of the repository covers the latency scripts.',
     ['latency/wod_latency_evaluator.py', 'latency/make_objects_file_from_latency_results.py'],
     [('process_example', 'latency/wod_latency_evaluator.py'), ('make_object_list_from_subdir', 'latency/make_objects_file_from_latency_results.py')],
     ['wod_latency_evaluator.py', 'make_objects_file_from_latency_results.py'])


prop('C41', 'Visualizations draw the labels where they are',
     'The wireframe of camera or laser keypoints has one dot per keypoint at its location, named after it (with ? and a border if occluded) in the configured colour and size, and for every configured edge whose keypoints are all present lines between them (averaged for edges between groups), each half in the colour of its end; edges with a missing keypoint are left out, the default skeleton is mirror-symmetric and joins all keypoints, and drawing adds exactly these lines and dots. '
     'Cropping an image to a (margin-extended) box yields the part of the image inside the box, to a pixel, with copies of the keypoints shifted so that each still marks the same pixel. '
     'The animation of simulated agents shows in every frame, whichever order frames are drawn in, exactly the boxes of that step as rectangles with the corners, heading and colour of the object, over the road lines and road edges of the map.',
     ['inputs'], 'all sets of keypoints, custom or default edges, images and boxes, up to 4 agents over 4 steps drawn in any order',
     'The tests of the repository draw one set of keypoints and one crop; the animation has no test.',
     ['utils/keypoint_draw.py', 'utils/sim_agents/visualizations.py'],
     [('_build_wireframe', 'utils/keypoint_draw.py'), ('crop_camera_keypoints', 'utils/keypoint_draw.py'), ('get_bbox_patch', 'utils/sim_agents/visualizations.py')],
     ['keypoint_draw.py', 'visualizations.py'], note=SHIM)


# Headers and small files that carry part of the mechanism.
MORE = {
    'C01': ['metrics/iou.h', 'math/box2d.h', 'math/polygon2d.h'],
    'C02': ['math/box2d.h', 'math/polygon2d.h', 'math/segment2d.h'],
    'C03': ['metrics/iou.h'], 'C04': ['metrics/hungarian.h'],
    'C05': ['metrics/metrics_utils.h', 'metrics/detection_metrics.h'], 'C06': ['metrics/detection_metrics.h'],
    'C07': ['metrics/breakdown_generator.h', 'metrics/config_util.h'], 'C08': ['metrics/metrics_utils.h'],
    'C09': ['metrics/mot.h'], 'C10': ['metrics/tracking_metrics.h'], 'C11': ['metrics/segmentation_metrics.h'],
    'C12': ['metrics/motion_metrics.h'], 'C15': ['metrics/motion_metrics.h'],
    'C16': ['metrics/motion_metrics_utils.h', 'common/status.h', 'common/status.cc'],
    'C17': ['data_conversion/scenario_conversion.h'], 'C18': ['data_conversion/scenario_conversion.h'],
    'C19': ['wdl_limited/camera/camera_model.h'], 'C20': ['wdl_limited/camera/camera_model.h'],
    'C21': ['metrics/ops/metrics_ops.cc', 'metrics/ops/utils.h'],
    'C22': ['metrics/tools/compute_detection_let_metrics_main.cc'],
    'C26': ['v2/perception/%s.py' % m for m in ('base', 'box', 'camera_image', 'context', 'keypoints', 'pose')],
}
for p in P:
  p['files'] += [W + f for f in MORE.get(p['pid'], []) if W + f not in p['files']]


def level_note(p):
  return p['note'] or (
      'Exploration: no counterexample among the generated cases (counts and '
      'samples in the evidence file). Trusts the reference model in /verif/checks '
      'and the toolchain; floating-point comparisons carry stated tolerances.')


def main():
  with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in P:
      f.write(json.dumps(dict(
          id=p['pid'], title=p['title'], statement=p['statement'],
          quantifier=dict(over=p['over'], text=p['text']),
          why_tests_cant=p['why'],
          anchors=dict(files=p['files'], state=p['state'], mechanism=p['mech'],
                       observe_at=p['observe'], hook_needed=None))) + '\n')
  checks, na = [], []
  for p in P:
    built = os.path.exists('%s/checks/%s.py' % (ROOT, p['pid']))
    if built:
      checks.append(dict(
          property=p['pid'], quick_cmd='./run ' + p['pid'],
          thorough_cmd='VERIF_TIER=thorough ./run ' + p['pid'],
          technique=p['technique'], level='exploration',
          level_note=level_note(p)))
    else:
      na.append(dict(property=p['pid'], reason=p['na'] or 'not built yet'))
  m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
           notes='tools/props.py writes this file and properties.jsonl; known '
           'findings and repaired defects are in known_findings.json.')
  with open(ROOT + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()
