#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Rotations and translations form a consistent rigid-motion algebra",
  "Rotating a point by a unit quaternion [w, x, y, z] applies exactly the active rotation that the quaternion denotes (the same one its rotation matrix applies to column vectors), preserves lengths, and the inverse rotation and inverse translation undo the forward ones. "
  "Rotating an orientation by another one yields the composed orientation (the second applied after the first), so moving a point by the composition equals moving it in two steps and applying the inverse returns the original orientation. "
  "Dataset boxes move by the same rules: translation changes only the position, rotation acts on both position and orientation.",
  ["inputs"], "all points, translations and pairs of unit quaternions, including negated and axis-aligned ones",
  "Every existing doc-test uses the identity quaternion, for which a transposed matrix and an element-wise product are indistinguishable from the right answer.",
  ["src/utils/math.rs", "src/dataset/nuscenes/box.rs"],
  [("quaternion2rotation", "src/utils/math.rs"), ("rotate/rotate_inv/rotate_q/rotate_q_inv/inverse_quaternion", "src/utils/math.rs"), ("NuScenesBox::rotate", "src/dataset/nuscenes/box.rs")],
  ["perception_eval::utils::math::*", "NuScenesBox methods"])
p("C02", "Euler angles and heading describe the object's orientation over the full turn",
  "The roll, pitch and yaw of any orientation are finite and, away from gimbal lock, applying roll, then pitch, then yaw (about the fixed x, y and z axes) rebuilds the orientation's rotation matrix. "
  "The heading lies in [-pi, pi], equals (away from gimbal lock) the direction of the object's rotated x axis in the ground plane over the full circle, and is the same for a quaternion and its negation.",
  ["inputs"], "all unit quaternions, including those facing backwards, near gimbal lock and with negative scalar part",
  "The tests only use the identity orientation (all angles zero).",
  ["src/utils/math.rs", "src/object/object3d.rs"],
  [("quaternion2euler", "src/utils/math.rs"), ("DynamicObject::heading", "src/object/object3d.rs")],
  ["quaternion2euler", "DynamicObject::euler", "DynamicObject::heading", "DynamicObject::rotation_matrix"])
p("C03", "A box's footprint, area, volume and distances agree with its pose and size",
  "The footprint of an object is the four corners of its box at the height of its center: half of size[1] along the object's own x axis and half of size[0] along its own y axis, in order around the box, rotated by its orientation and centred on its position. "
  "Area is size[0]*size[1], volume is area times height, and the distances (3D and bird's-eye view, from the origin or from a point) are Euclidean, symmetric and never smaller in 3D than in bird's-eye view. "
  "The left/right helper returns the two input points, the counter-clockwise one (as seen from the origin) first.",
  ["inputs"], "all positions, sizes and unit orientations",
  "Tests only check unrotated square boxes and unit distances.",
  ["src/object/object3d.rs", "src/utils/point.rs"],
  [("DynamicObject::footprint", "src/object/object3d.rs"), ("distance_points/distance_points_bev/get_point_left_right", "src/utils/point.rs")],
  ["DynamicObject::{footprint,area,volume,distance,distance_bev,distance_from,distance_bev_from}", "utils::point::*"])
p("C04", "Center-distance matching accepts exactly pairs closer than the threshold",
  "In center-distance mode a pair is correct exactly when the 3D Euclidean distance between the two centers is strictly below the threshold, whatever the sizes, orientations, labels or confidences. "
  "The decision is symmetric in estimate and ground truth, invariant under moving both objects by the same translation, and a result without ground truth is never correct in any mode.",
  ["inputs"], "all pairs of objects and all thresholds",
  "One test compares an object with a copy of itself at threshold 1.",
  ["src/matching.rs", "src/result/object.rs"],
  [("CenterDistanceMatching", "src/matching.rs"), ("PerceptionResult::is_result_correct", "src/result/object.rs")],
  ["PerceptionResult::is_result_correct"])
p("C05", "Plane-distance matching compares the nearest sides of both boxes",
  "In plane-distance mode the score is the root mean square of the bird's-eye-view distances between the two boxes' left corners and between their right corners, where each box contributes the two footprint corners nearest to the origin, ordered left/right as seen from the origin; a pair is correct exactly when that score is strictly below the threshold. "
  "The score is zero for an object and itself, symmetric, and unchanged when both objects are rotated about the origin's vertical axis.",
  ["inputs"], "all pairs of boxes and thresholds",
  "One test compares an unrotated object with a copy of itself; corner choice, left/right order and rotation are never exercised.",
  ["src/matching.rs", "src/utils/point.rs", "src/object/object3d.rs"],
  [("PlaneDistanceMatching", "src/matching.rs"), ("get_point_left_right", "src/utils/point.rs")],
  ["PerceptionResult::is_result_correct"])
p("C06", "2D IoU equals intersection over union of the two footprints",
  "For upright boxes the 2D IoU score is the area of the intersection of the two footprints divided by the area of their union, so it lies in [0, 1], is 1 for identical boxes, 0 for disjoint ones, symmetric, and unchanged by a common planar rigid motion and by a common scale. "
  "A box without area shares nothing with any other: the score is 0. "
  "A pair is correct exactly when the score is strictly above the threshold, and no pair of finite boxes makes the decision panic.",
  ["inputs"], "all pairs of yaw-rotated boxes with positive or zero sizes: disjoint, nested, crossing, touching, near-identical",
  "One test compares a box with itself.",
  ["src/matching.rs", "src/object/object3d.rs"],
  [("Iou2dMatching", "src/matching.rs"), ("get_intersection_area", "src/matching.rs")],
  ["PerceptionResult::is_result_correct"])
p("C07", "3D IoU equals intersection volume over union volume",
  "For upright boxes the 3D IoU score is the volume shared by both boxes (footprint intersection times vertical overlap) divided by the volume of their union, so it lies in [0, 1], is 1 for identical boxes, 0 when they are separated vertically or horizontally, never exceeds the ratio of the smaller to the larger volume, and does not depend on the scale. "
  "A box without volume shares nothing with any other: the score is 0. "
  "A pair is correct exactly when the score is strictly above the threshold.",
  ["inputs"], "all pairs of yaw-rotated boxes with arbitrary vertical offset",
  "One test compares a box with itself, where union and intersection height coincide.",
  ["src/matching.rs"],
  [("Iou3dMatching", "src/matching.rs"), ("get_intersection_height", "src/matching.rs"), ("get_intersection_volume", "src/matching.rs")],
  ["PerceptionResult::is_result_correct"])
p("C08", "Correctness decisions are monotone and consistent over thresholds and modes",
  "For a fixed pair and any matching mode, loosening the threshold (larger for distances, smaller for IoU) never turns a correct pair into an incorrect one. "
  "An object paired with itself is correct for every positive distance threshold and, if it stands upright, for every IoU threshold below one, and the decision never depends on confidence, uuid, point count, velocity or timestamp. "
  "A pair is reported to have the right label exactly when both objects carry the same label.",
  ["inputs"], "all pairs, modes and threshold pairs",
  "Tests probe one threshold per mode.",
  ["src/matching.rs", "src/result/object.rs"],
  [("MatchingMethod::is_better_than", "src/matching.rs"), ("PerceptionResult::{is_result_correct,is_label_correct}", "src/result/object.rs")],
  ["PerceptionResult::is_result_correct", "PerceptionResult::is_label_correct"])
p("C09", "Matching assigns each estimate once and each ground truth at most once, by label",
  "Pairing a frame's estimates with its ground truths yields exactly one result per estimate, uses every ground truth at most once, only pairs objects of the same label, and leaves an estimate without ground truth only if no ground truth of its label is left over. "
  "Closest pairs win: there is no estimate and ground truth of the same label that are both strictly closer (center distance) to each other than to what they were assigned. "
  "Nothing is invented or altered: every object in the results is one of the inputs.",
  ["inputs"], "all lists of estimates and ground truths of any sizes, labels and positions, including empty, crowded and tied ones",
  "The only test calls the matcher with one estimate and one ground truth and does not look at the outcome.",
  ["src/result/object.rs", "src/matching.rs"],
  [("get_perception_results", "src/result/object.rs"), ("get_score_table", "src/result/object.rs")],
  ["get_perception_results"])
p("C10", "A frame's results split exactly into TP, FP and missed ground truths",
  "Every result whose estimate has a target label appears exactly once, as a true positive if it is correct under that label's own threshold and otherwise as a false positive; results of other labels appear in neither list, and order is kept. "
  "The missed (false negative) objects are exactly the frame's ground truths that no true positive was matched to, so for results produced by matching true positives plus misses equals the number of ground truths. "
  "The frame keeps the results and ground truth it was given unchanged.",
  ["inputs", "configurations"], "all result lists, ground truth lists, label subsets in any order, per-label thresholds and matching modes",
  "No existing test constructs a frame result.",
  ["src/result/frame.rs", "src/threshold.rs", "src/result/object.rs"],
  [("separate_tp_fp_results", "src/result/frame.rs"), ("extract_fn_objects/is_fn_object", "src/result/frame.rs"), ("get_label_threshold", "src/threshold.rs")],
  ["PerceptionFrameResult::{new,results,tp_results,fp_results,fn_objects,frame_ground_truth}"])
p("C11", "Filtering keeps exactly the objects that satisfy every configured criterion",
  "Filtering keeps, unaltered and in order, exactly the objects whose label is a target and whose absolute x and y are strictly below the configured maxima; for ground truths it additionally requires at least the minimum number of points (when both the limit and the count are known) and, when target uuids are configured, a uuid among them. "
  "Point and uuid limits never remove estimates, filtering twice changes nothing, and it never panics.",
  ["inputs", "configurations"], "all object lists and filter settings, including boundary values, empty label lists, unknown labels and objects without uuid or point count",
  "One doc-test and one unit test check a single object each.",
  ["src/filter.rs", "src/config.rs", "src/threshold.rs"],
  [("filter_objects/is_target_object", "src/filter.rs"), ("FilterParams::new", "src/config.rs")],
  ["filter_objects"])
p("C12", "Per-label settings are looked up by the label's own position",
  "Looking up a label's setting returns the value at the position of that label in the target list (the first one if it is listed twice) and nothing if the label is not a target. "
  "Both lookup interfaces agree for every value type.",
  ["inputs"], "all label lists (with repetitions) and value lists of the same length",
  "The doc-tests look up the first element of one list.",
  ["src/threshold.rs"],
  [("get_label_threshold", "src/threshold.rs"), ("LabelThreshold::get_threshold", "src/threshold.rs")],
  ["get_label_threshold", "LabelThreshold::get_threshold"])
p("C13", "Reported AP and APH equal the interpolated average precision of the history",
  "For every target label and for both the center-distance and the plane-distance criterion, the reported AP is the area under the interpolated precision-recall curve of all results of that label in all added frames, ranked by decreasing confidence, with recall relative to that label's filtered ground truths; APH is the same with each true positive weighted by one minus its heading error over pi. "
  "A label with ground truths but no estimates scores 0, a label with estimates but no ground truths scores 0, a label with neither is not a number, and the reported means are the averages over the labels.",
  ["histories", "inputs", "configurations"], "all histories of added frames and all label and threshold configurations",
  "The test-suite has no test of average precision at all; the example runs one frame and only prints.",
  ["src/metrics/detection.rs", "src/metrics/score.rs", "src/metrics/tp_metrics.rs", "src/manager.rs", "src/filter.rs"],
  [("Ap::calculate_ap", "src/metrics/detection.rs"), ("TPMetricsAPH", "src/metrics/tp_metrics.rs"), ("PerceptionEvaluationManager::get_metrics_score", "src/manager.rs"), ("hash_results/hash_num_objects", "src/filter.rs")],
  ["Display (and Debug) of MetricsScore"])
p("C14", "Scores obey the laws of a detection metric over any history",
  "Every defined score lies in [0, 1] and APH never exceeds AP; repeating the evaluation gives the same scores and does not change the history; the order in which frames were added does not matter when confidences are distinct; objects of one label never influence the score of another. "
  "Reporting the ground truths themselves scores 1, reporting nothing scores 0, naming a label twice (or by an alias) in the target list does not change its score, and an extra false positive ranked last never raises a score. "
  "Renaming the labels consistently, turning or lifting the whole scene about the vehicle, another order of the objects within a frame, frames without objects, and the times, speeds, uuids and point counts of the estimates change no score.",
  ["histories", "inputs", "configurations"], "all histories of frames and metamorphic changes to them",
  "Metamorphic relations compare whole evaluations; existing tests evaluate none.",
  ["src/metrics/detection.rs", "src/manager.rs", "src/metrics/tp_metrics.rs"],
  [("Ap", "src/metrics/detection.rs"), ("PerceptionEvaluationManager::get_metrics_score", "src/manager.rs")],
  ["Display (and Debug) of MetricsScore"])
p("C15", "The manager accumulates one faithful frame result per added frame",
  "Each added frame appends exactly one frame result, built from the estimates and ground truths that pass the configured filters, matched with each other and judged by the plane-distance threshold of each label; the timestamp is the frame's own, and earlier frame results and the loaded ground truths never change. "
  "Asking for the score of a detection evaluation always succeeds, also before any frame was added, depends only on the frames added so far (not on earlier questions or lookups), and for tasks without metrics it returns the not-implemented error instead of a score.",
  ["histories", "configurations"], "all sequences of add-frame, score and lookup calls under all configurations",
  "The doc-test only constructs the manager.",
  ["src/manager.rs", "src/result/frame.rs", "src/filter.rs"],
  [("PerceptionEvaluationManager::add_frame_result", "src/manager.rs"), ("filter_frame_ground_truth", "src/manager.rs")],
  ["PerceptionEvaluationManager::{add_frame_result,get_metrics_score,frame_results,frame_ground_truths}"],
  state=[("frame_results", "history of evaluated frames", "src/manager.rs")])
p("C16", "The ground truth frame nearest in time is found, within 75 ms",
  "Looking up the ground truth for a timestamp returns a frame of the list, unaltered, that no other frame is 2 ms or more closer in time (times are compared in whole milliseconds), provided that its distance is below 75 ms. "
  "If every frame is 75 ms or more away (or there is no frame), nothing is returned; the order of the frames does not matter.",
  ["inputs"], "all frame lists (unsorted, duplicate and empty ones) and query timestamps",
  "Only the example queries the exact timestamp of a one-frame dataset.",
  ["src/dataset.rs", "src/manager.rs"],
  [("get_current_frame", "src/dataset.rs"), ("PerceptionEvaluationManager::get_frame_ground_truth", "src/manager.rs")],
  ["get_current_frame", "PerceptionEvaluationManager::get_frame_ground_truth"])
p("C17", "Loading a consistent dataset exposes every record and relation exactly once",
  "Every consistent dataset loads, including samples without annotations, and every record of every table is enumerated exactly once with the field values of its file (fields the format does not know are ignored); samples, sample data, ego poses and scenes come in time order. "
  "Following relations (scene to its samples in chain order, sample to its annotations and sensor data, annotation to instance, sample and attributes, instance to its annotation chain and category, sensor data to pose, calibration and sensor, previous and next links, maps to the logs that exist) yields exactly the records the files link.",
  ["inputs"], "all consistent nuScenes datasets (any number of scenes, samples, sensors, instances; any order of records in the files)",
  "The repository has one dataset with one sample, one annotation and one instance.",
  ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/internal.rs", "src/dataset/nuscenes/iter_impl.rs", "src/dataset/nuscenes/iter_impl/", "src/dataset/nuscenes/schema.rs"],
  [("NuScenes::load", "src/dataset/nuscenes.rs"), ("InstanceInternal/SceneInternal/SampleInternal::from", "src/dataset/nuscenes/internal.rs"), ("WithDataset accessors", "src/dataset/nuscenes/iter_impl/")],
  ["NuScenes::load", "NuScenes::*_iter", "WithDataset::*"])
p("C18", "Inconsistent or malformed datasets are rejected with an error, never a panic",
  "Loading fails with an error whenever a table is missing or is not valid JSON of its format, or a scene, sample, annotation, instance, sensor data or calibration record refers to a record that does not exist, or the previous/next chain, last element or element count of a scene or instance is inconsistent. "
  "No dataset content whatsoever makes loading, walking the loaded records, or extracting the ground truth panic or loop forever; a map's reference to a missing log is tolerated.",
  ["inputs", "fault_sequences"], "all single and multiple corruptions of otherwise consistent datasets",
  "No existing test loads a corrupted dataset.",
  ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/internal.rs", "src/dataset/nuscenes/schema.rs", "src/dataset/nuscenes/error.rs"],
  [("integrity checks in NuScenes::load", "src/dataset/nuscenes.rs"), ("load_json", "src/dataset/nuscenes.rs")],
  ["NuScenes::load", "load_dataset"])
p("C19", "Ground truth frames mirror the dataset's samples in the vehicle frame",
  "Loading ground truth yields one frame per sample in time order, stamped with the sample's time, and when the sample has lidar data taken at that time each of its annotations appears exactly once as an object. "
  "Each object carries the annotation's size, lidar point count, its instance as uuid, the label its category converts to, the requested frame, full confidence, no velocity (the dataset holds none), and its pose moved from the map into the vehicle frame by the ego pose of that lidar data.",
  ["inputs"], "all consistent datasets and ego poses",
  "The example checks that a lookup returns the frame it was asked for; no test looks at an object's pose, label or uuid.",
  ["src/dataset.rs", "src/dataset/nuscenes.rs", "src/utils/math.rs", "src/label.rs"],
  [("load_dataset/sample_to_frame", "src/dataset.rs"), ("NuScenes::get_sample_data", "src/dataset/nuscenes.rs")],
  ["load_dataset", "PerceptionEvaluationManager::from"])
p("C20", "Boxes of sensor data are expressed in the requested coordinate frame",
  "For any sensor data record, the returned boxes are those of its sample's annotations (category name, instance, size, point count unchanged) with their poses in the map frame, in the vehicle frame given by its ego pose, or additionally in the sensor frame given by its calibration, as requested; moving them back gives the annotated pose. "
  "The returned path is the record's file below the dataset directory, and an unknown token gives an error.",
  ["inputs"], "all consistent datasets, sensor data tokens and both frame choices",
  "No existing test calls these functions.",
  ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/box.rs", "src/utils/math.rs"],
  [("NuScenes::{get_sample_data,get_boxes,get_box,get_sample_data_path}", "src/dataset/nuscenes.rs")],
  ["NuScenes::{get_sample_data,get_boxes,get_box,get_sample_data_path}"])
p("C21", "Dataset records survive being written and read back",
  "Serialising any dataset record to JSON and reading it back gives the same record: tokens, links, enumerations, optional strings and log files, camera intrinsics, numbers and (to the microsecond) timestamps; absent links, visibility and log files are empty strings in the file. "
  "Tokens print as the lower-case hexadecimal text they were read from, and text that is not 16 hexadecimal bytes is rejected.",
  ["inputs"], "all record values and all token texts",
  "The tests only read the sample dataset and write nothing.",
  ["src/dataset/nuscenes/schema.rs"],
  [("serde modules", "src/dataset/nuscenes/schema.rs"), ("LongToken/ShortToken TryFrom and Display", "src/dataset/nuscenes/schema.rs")],
  ["serde_json round trip of schema types", "LongToken/ShortToken"])
p("C22", "Sensor data files load as the data they contain",
  "Raw loading returns exactly the file's bytes; a lidar file (below a directory lidar, LIDAR_TOP or the like) of N five-value points loads as an N-by-5 matrix whose row i is point i; a JPEG or PNG file loads as the image it encodes. "
  "A point cloud file that is empty or not a whole number of points is rejected as corrupted, and a missing file is an error, never a panic.",
  ["inputs"], "all point clouds, images and truncated files",
  "No existing test loads sensor data.",
  ["src/dataset/nuscenes/iter_impl/sample_data.rs"],
  [("WithDataset<SampleData>::{open,load_raw,load}", "src/dataset/nuscenes/iter_impl/sample_data.rs")],
  ["WithDataset<SampleData>::load", "WithDataset<SampleData>::load_raw", "WithDataset<SampleData>::open"])
p("C23", "A scenario file configures exactly what it says",
  "Loading a valid scenario gives a configuration with the dataset path and version, task, frame, directories (log and visualize below the result directory) and raw-data flag it was given, and with filter and metric parameters that act on exactly the listed labels with the listed limits and thresholds. "
  "Keys the format does not know are ignored. Any number of scenarios can be loaded in one process.",
  ["inputs", "configurations", "histories"], "all valid scenario contents and sequences of loads",
  "One scenario file is loaded once per test process and only checked to succeed.",
  ["src/config.rs", "src/config/schema.rs", "src/utils/logger.rs"],
  [("PerceptionEvaluationConfig::from", "src/config.rs"), ("FilterParams::new/MetricsParams::new", "src/config.rs")],
  ["PerceptionEvaluationConfig fields", "filter_objects with the loaded parameters", "PerceptionEvaluationManager"])
p("C24", "Bad scenario files are reported as errors, never as panics",
  "Loading a scenario that is missing, is not YAML, lacks a field, has a field of the wrong type, names an unknown task or frame, or lists no dataset, and a result directory that cannot be written, give an error value. "
  "No file content makes loading panic.",
  ["inputs", "fault_sequences"], "all file contents, including arbitrary bytes and mutations of valid scenarios",
  "No existing test loads an invalid scenario.",
  ["src/config.rs", "src/config/schema.rs", "src/evaluation_task.rs", "src/frame_id.rs"],
  [("load_yaml", "src/config.rs"), ("evaluation_task_serde/frame_id_serde", "src/config/schema.rs")],
  ["PerceptionEvaluationConfig::from"])
p("C25", "Label names convert case-insensitively to their documented class",
  "Converting a label name yields its class whatever its letter case, every class's own name converts to itself, each known dataset category name converts to the class it belongs to, and any other text converts to Unknown; converting a list converts each element in order. "
  "An unknown converter prefix is an error.",
  ["inputs"], "all strings and all lists of strings",
  "The doc-tests convert four names.",
  ["src/label.rs"],
  [("LabelConverter::{new,convert}", "src/label.rs"), ("convert_labels", "src/label.rs")],
  ["LabelConverter", "convert_labels"])
p("C26", "Task and frame names parse to their value and nothing else parses",
  "Every evaluation task and frame name parses from its CamelCase and snake_case spelling to that value, printing a value gives a text that parses back to it, and any other text gives an error. "
  "All currently supported tasks are 3D and not 2D.",
  ["inputs"], "all strings", "The doc-tests parse one task name and no frame name.",
  ["src/evaluation_task.rs", "src/frame_id.rs"],
  [("FromStr/Display for EvaluationTask", "src/evaluation_task.rs"), ("FromStr/Display for FrameID", "src/frame_id.rs"), ("set_task", "src/evaluation_task.rs")],
  ["EvaluationTask::from_str", "FrameID::from_str", "set_task"])
p("C27", "The configured log file receives exactly the messages at or above its level",
  "After logging is configured for a directory and level, each later message at or above that level (error, warn, info, debug), whatever module it comes from and however many lines it has, is written once, in order, as its level and text, to output.log in that directory, and messages below it are not. "
  "Logging can be configured again for another directory or level; from then on messages go only there, and earlier files keep their content; a configuration that fails changes nothing.",
  ["histories", "configurations"], "all sequences of configure and log calls",
  "One doc-test configures the logger once and logs nothing.",
  ["src/utils/logger.rs"],
  [("configure_logger", "src/utils/logger.rs")],
  ["<log_dir>/output.log"])
p("C28", "Evaluating a dataset's own ground truth end to end is perfect",
  "Loading a scenario and its dataset, and reporting the ground truth objects that the scenario evaluates as the estimates for the frame found by its timestamp, gives AP and APH of 1 for every target label that has such ground truths, and no missed objects in any frame. "
  "Leaving objects out, or reporting them far away with less confidence, lowers AP and APH to the share reported in place: reporting none gives 0.",
  ["histories", "inputs"], "all consistent datasets with distinct frame times and scenario settings",
  "The example does this on one dataset and prints the score, which nobody checks.",
  ["src/manager.rs", "src/config.rs", "src/dataset.rs", "src/metrics/detection.rs", "src/result/object.rs"],
  [("PerceptionEvaluationManager", "src/manager.rs")],
  ["MetricsScore Display", "PerceptionFrameResult::fn_objects"])
p("C29", "What is printed about scores, objects and frames is what they are",
  "The printed score has one section per criterion, centre distance and plane distance, each naming every target label in the order of the configuration with the criterion's threshold, the label's AP and APH to three decimals, and their averages over the labels. "
  "A printed object shows its frame, position, orientation, size, velocity, confidence, label and uuid, its state the first four of position, orientation, size and velocity, and a printed ground truth frame its time and number of objects; a label is printed as its name.",
  ["inputs", "histories", "configurations"], "all evaluations (histories, target lists, thresholds), objects and ground truth frames",
  "The printed score is the only public form of the result; no test reads it.",
  ["src/metrics/score.rs", "src/metrics/detection.rs", "src/object/object3d.rs", "src/dataset.rs"],
  [("Display for MetricsScore and MetricsScoreValue", "src/metrics/score.rs"), ("Display for DynamicObject", "src/object/object3d.rs")],
  ["Display of MetricsScore, DynamicObject, ObjectState, FrameGroundTruth and Label"])
p("C30", "Objects, their states and frames are equal exactly when their identity is",
  "Two objects are equal exactly when their timestamp, frame, position, orientation and label are equal, whatever their size, velocity, confidence, number of points and uuid; numbers are compared by value, so 0 equals -0. "
  "Their states are equal exactly when position, orientation, size and velocity are, and two ground truth frames exactly when their times and their objects, in order, are. The relations are reflexive and symmetric, and a copy equals its original.",
  ["inputs"], "all pairs of objects that agree in any subset of their fields, also up to the least difference of a number",
  "Equality decides which ground truths count as found; tests compare a few whole objects only.",
  ["src/object/object3d.rs", "src/dataset.rs", "src/label.rs"],
  [("PartialEq for DynamicObject", "src/object/object3d.rs"), ("DynamicObject::state", "src/object/object3d.rs")],
  ["== on DynamicObject, ObjectState, FrameGroundTruth and Label"])
p("C31", "Evaluating leaves the dataset, the scenario and everything else untouched",
  "Loading a scenario, a dataset and its sensor data, adding frames, scoring and printing never alter, remove or create a file in the dataset or next to the scenario, also when the dataset is damaged; new files and directories appear only in the result directory.",
  ["histories", "inputs", "configurations"], "all sessions over valid and damaged datasets and scenarios",
  "Tests load one dataset and never look at its files afterwards.",
  ["src/config.rs", "src/manager.rs", "src/dataset/nuscenes/lib.rs", "src/utils/logger.rs"],
  [("PerceptionEvaluationConfig::from", "src/config.rs"), ("NuScenes::load", "src/dataset/nuscenes/lib.rs")],
  ["the files below the dataset, scenario, result and working directories"])
p("C32", "Evaluations are independent of each other",
  "An evaluation's frame results and scores are the same whether it runs alone, takes turns with others of other configurations, continues from a copy, or runs next to others on other threads. "
  "Loading a dataset again, after others, or at the same time as others gives the same ground truths, and loading one whose files have changed gives what they hold now.",
  ["schedules", "histories"], "all sets of evaluations and datasets, all turn orders, and concurrent runs",
  "Every test runs one evaluation; shared or cached state only shows with several.",
  ["src/manager.rs", "src/metrics/detection.rs", "src/dataset/nuscenes/lib.rs", "src/dataset.rs"],
  [("PerceptionEvaluationManager", "src/manager.rs"), ("load_dataset", "src/dataset.rs")],
  ["PerceptionFrameResult", "MetricsScore Display", "load_dataset"])
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
with open("properties.jsonl", "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
        f.write(json.dumps(e) + "\n")
print(len(P))
