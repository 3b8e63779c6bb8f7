use crate::fw::Sub;
pub mod config;
pub mod dataset;
pub mod files;
pub mod geom;
pub mod frames;
pub mod matching;
pub mod metrics;
pub mod whole;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: fn() -> Vec<Sub>,
}

pub fn all() -> Vec<Check> {
    vec![
        Check { id: "C01", rule: "points, translations and pairs of unit quaternions; non-trivial: a rotation other than the identity acting on a non-zero point or orientation", subs: geom::c01 },
        Check { id: "C02", rule: "unit quaternions of both signs with extra weight near gimbal lock; non-trivial: not the identity and not within 2e-3 of gimbal lock", subs: geom::c02 },
        Check { id: "C03", rule: "objects and points; non-trivial: rotated non-square boxes, and points that differ from the object in height", subs: geom::c03 },
        Check { id: "C04", rule: "object pairs (identical, nudged, shifted, independent) and thresholds; non-trivial: distinct positions", subs: matching::c04s },
        Check { id: "C05", rule: "object pairs and thresholds; non-trivial: positive score with a unique nearest side", subs: matching::c05s },
        Check { id: "C06", rule: "upright box pairs and thresholds; non-trivial: partial overlap (0 < IoU < 1)", subs: matching::c06s },
        Check { id: "C07", rule: "upright box pairs with vertical offsets; non-trivial: partial overlap (0 < IoU < 1)", subs: matching::c07s },
        Check { id: "C08", rule: "pairs, modes and two thresholds; non-trivial: the decision changes between the thresholds", subs: matching::c08s },
        Check { id: "C09", rule: "frames of estimates and ground truths, estimates clustered around ground truths; non-trivial: a label with several estimates and several ground truths", subs: frames::c09s },
        Check { id: "C10", rule: "matched or arbitrarily paired results, label lists, per-label thresholds and modes; non-trivial: TP, FP and missed objects all present", subs: frames::c10s },
        Check { id: "C11", rule: "object lists and filter settings; non-trivial: some but not all objects are kept", subs: frames::c11s },
        Check { id: "C12", rule: "labels, target lists (with repetitions) and values of four types; non-trivial: found behind the first position", subs: frames::c12s },
        Check { id: "C13", rule: "histories of frames and settings with distinct confidences; non-trivial: a label with true and false positives among more than two results", subs: metrics::c13s },
        Check { id: "C14", rule: "histories and metamorphic variants of them; non-trivial: an AP strictly between 0.01 and 0.99, or perfect estimates to score", subs: metrics::c14s },
        Check { id: "C15", rule: "sequences of add, lookup and score operations; non-trivial: at least two frames added, with objects passing the filter", subs: metrics::c15s },
        Check { id: "C16", rule: "frame times around the looked up time, with weight at the limit of 75 ms; non-trivial: several frames, the nearest within 80 ms", subs: frames::c16s },
        Check { id: "C17", rule: "consistent datasets of up to 6 scenes, records in any file order; non-trivial: several samples and annotations", subs: dataset::c17s },
        Check { id: "C18", rule: "datasets with up to two edits of records, or damaged files; non-trivial: the edit changed the dataset and the reference validator has a verdict", subs: dataset::c18s },
        Check { id: "C19", rule: "consistent datasets, tasks and frames; non-trivial: a sample with lidar data at its time and several annotations", subs: dataset::c19s },
        Check { id: "C20", rule: "every sensor data record of generated datasets, and sequences of moves of a box; non-trivial: the sample has annotations, or more than two moves", subs: dataset::c20s },
        Check { id: "C21", rule: "records of all tables with canonical and alternative spellings, and token texts; non-trivial: records with optional or numeric parts, texts near the length of a token", subs: files::c21s },
        Check { id: "C22", rule: "sensor data files of every kind, also damaged and missing; non-trivial: several points, or an image with several rows and columns", subs: files::c22s },
        Check { id: "C23", rule: "one to three valid scenarios loaded in turn; non-trivial: several target labels", subs: config::c23s },
        Check { id: "C24", rule: "scenarios with an edit, a damaged text, arbitrary bytes, or a path that cannot be read or written; non-trivial: derived from a valid scenario", subs: config::c24s },
        Check { id: "C25", rule: "label names in random letter case, near misses and arbitrary text; non-trivial: a known name that is not all lower case", subs: frames::c25s },
        Check { id: "C26", rule: "task and frame names, near misses and arbitrary text; non-trivial: the other text is not empty", subs: frames::c26s },
        Check { id: "C27", rule: "sequences of configurations and messages of four levels, also from several threads; non-trivial: configured more than once, messages at and below the level", subs: config::c27s },
        Check { id: "C28", rule: "datasets and scenarios, reporting the ground truths or parts of them; non-trivial: a label with several objects", subs: config::c28s },
        Check { id: "C29", rule: "histories with settings, and objects, compared with their printed text; non-trivial: an AP other than 0 and 1 is printed, or an object with velocity and uuid", subs: whole::c29s },
        Check { id: "C30", rule: "pairs of objects that differ in chosen fields, down to the last bit; non-trivial: at least one field is replaced", subs: whole::c30s },
        Check { id: "C31", rule: "datasets (some damaged) and scenarios, evaluated in a directory that is compared before and after; non-trivial: several frames evaluated", subs: whole::c31s },
        Check { id: "C32", rule: "several histories or datasets, alone, taking turns, and in parallel threads; non-trivial: at least two of them with several frames or with objects", subs: whole::c32s },
    ]
}
