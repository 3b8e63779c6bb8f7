//! A model of a dataset: generated, written as its JSON tables, and resolved for comparison.
use crate::gen::{angle, length, pos};
use crate::props::frames::{table_name, TABLE_LEN};
use crate::refm::{self, V3};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

pub const TABLES: [&str; 13] = [
    "attribute", "calibrated_sensor", "category", "ego_pose", "instance", "log", "map", "sample", "sample_annotation", "sample_data", "scene",
    "sensor", "visibility",
];

pub const MODALITIES: [&str; 3] = ["camera", "lidar", "radar"];
pub const CHANNELS: [&str; 15] = [
    "CAM_BACK", "CAM_BACK_LEFT", "CAM_BACK_RIGHT", "CAM_FRONT", "CAM_FRONT_LEFT", "CAM_FRONT_RIGHT", "CAM_FRONT_ZOOMED", "LIDAR_TOP",
    "RADAR_BACK_LEFT", "RADAR_BACK_RIGHT", "RADAR_FRONT", "RADAR_FRONT_LEFT", "RADAR_FRONT_RIGHT", "CAM_TRAFFIC_LIGHT_NEAR", "CAM_TRAFFIC_LIGHT_FAR",
];
pub const FORMATS: [&str; 3] = ["bin", "jpeg", "png"];
pub const LEVELS: [&str; 4] = ["v0-40", "v40-60", "v60-80", "v80-100"];

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct LogD {
    pub date: Option<(i32, u32, u32)>,
    pub location: String,
    pub vehicle: String,
    pub file: Option<String>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct PoseD {
    pub t: V3,
    pub rpy: V3,
}
impl PoseD {
    pub fn q(&self) -> refm::Q {
        refm::from_rpy(&self.rpy)
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct CalibD {
    pub sensor: u8,
    pub pose: PoseD,
    pub intrinsic: Option<V3>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SdD {
    pub calib: u8,
    /// microseconds after the sample's time
    pub off: i64,
    pub pose: PoseD,
    /// use the pose record of the sample's first sensor data
    pub shared: bool,
    pub key: bool,
    pub fmt: u8,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SampleD {
    pub dt: i64,
    pub sds: Vec<SdD>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SceneD {
    pub log: u8,
    pub start: i64,
    pub samples: Vec<SampleD>,
    pub text: String,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct AnnD {
    pub sample: u16,
    pub pose: PoseD,
    pub size: V3,
    pub lidar: usize,
    pub radar: usize,
    pub attrs: Vec<u8>,
    pub vis: Option<u8>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct InstD {
    pub cat: u8,
    pub anns: Vec<AnnD>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Ds {
    pub salt: u64,
    pub logs: Vec<LogD>,
    /// per map: logs it refers to; None for one that does not exist
    pub maps: Vec<Vec<Option<u8>>>,
    pub cats: Vec<u8>,
    pub attrs: u8,
    pub vis: Vec<u8>,
    pub sensors: Vec<(u8, u8)>,
    pub calibs: Vec<CalibD>,
    pub scenes: Vec<SceneD>,
    pub instances: Vec<InstD>,
}

// ------------------------------------------------------------------ resolved form

pub struct SampleR {
    pub scene: usize,
    pub time: i64,
    pub prev: Option<usize>,
    pub next: Option<usize>,
    pub anns: Vec<usize>,
    pub sds: Vec<usize>,
}
pub struct SdR {
    pub sample: usize,
    pub calib: usize,
    pub pose: usize,
    pub time: i64,
    pub key: bool,
    pub fmt: usize,
    pub filename: String,
    pub prev: Option<usize>,
    pub next: Option<usize>,
}
pub struct AnnR {
    pub instance: usize,
    pub sample: usize,
    pub d: AnnD,
    pub attrs: Vec<usize>,
    pub vis: Option<usize>,
    pub prev: Option<usize>,
    pub next: Option<usize>,
}
pub struct PoseR {
    pub d: PoseD,
    pub time: i64,
}
/// All records of the dataset with their links as indices.
pub struct Resolved {
    pub samples: Vec<SampleR>,
    pub sds: Vec<SdR>,
    pub anns: Vec<AnnR>,
    pub poses: Vec<PoseR>,
    /// per scene
    pub scene_samples: Vec<Vec<usize>>,
    /// per instance
    pub inst_anns: Vec<Vec<usize>>,
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 30;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

impl Ds {
    pub fn token(&self, table: &str, i: usize) -> String {
        let k = TABLES.iter().position(|t| *t == table).unwrap_or(99) as u64;
        match self.style() {
            // few low digits, from the all-zero token on
            4 => format!("{:032x}", ((i as u64) << 4) | k),
            // records of different tables share their tokens
            5 => format!("{i:032x}"),
            // only the last, only the first digits differ
            6 => format!("ffffffffffffffffffffffff{k:02x}{i:06x}"),
            7 => format!("{i:06x}{k:02x}000000000000000000000000"),
            _ => {
                let a = mix(mix(self.salt, k + 1), i as u64 + 1);
                let b = mix(a, 0x5bd1e995);
                format!("{a:016x}{b:016x}")
            }
        }
    }
    /// How tokens, names and numbers are written.
    pub fn style(&self) -> u64 {
        (self.salt >> 1) % 8
    }
    /// One of several spellings, by record.
    fn spell<T: Copy>(&self, i: usize, of: &[T]) -> T {
        of[(mix(self.salt, i as u64 + 501) % of.len() as u64) as usize]
    }
    pub fn vis_token(&self, i: usize) -> String {
        match self.style() {
            0..=2 | 5 => format!("{}", i + 1),
            3 => format!("vis \u{e9}{i}"),
            _ => format!("ABcd{i:028x}"),
        }
    }
    pub fn map_file(&self, i: usize) -> String {
        format!("{}{i}.png", self.spell(i, &["maps/", "", "a b/\u{5730}\u{56f3}/", "maps/36092f0b03a857c6a3403e25b4b7aab3"]))
    }
    /// The token of no record.
    pub fn stray(&self, i: usize) -> String {
        let a = mix(mix(self.salt, 77), i as u64);
        format!("{a:016x}{:016x}", mix(a, 3))
    }
    pub fn cat_name(&self, i: usize) -> String {
        let c = self.cats[i] as usize;
        if c < TABLE_LEN {
            table_name(c).0.to_string()
        } else {
            format!("other.thing-{c}")
        }
    }
    /// Index into gen::LABELS.
    pub fn cat_label(&self, i: usize) -> usize {
        let c = self.cats[i] as usize;
        if c < TABLE_LEN {
            table_name(c).1 as usize
        } else {
            7
        }
    }
    pub fn is_lidar(&self, sd: &SdR) -> bool {
        self.sensors[self.calibs[sd.calib].sensor as usize % self.sensors.len()].0 % 3 == 1
    }
    pub fn sensor_of(&self, calib: usize) -> usize {
        self.calibs[calib].sensor as usize % self.sensors.len()
    }

    pub fn resolve(&self) -> Resolved {
        let mut r = Resolved { samples: vec![], sds: vec![], anns: vec![], poses: vec![], scene_samples: vec![], inst_anns: vec![] };
        for (si, sc) in self.scenes.iter().enumerate() {
            let mut list = Vec::new();
            let mut time = sc.start;
            let n = sc.samples.len();
            for (k, s) in sc.samples.iter().enumerate() {
                if k > 0 {
                    time += s.dt;
                }
                let idx = r.samples.len();
                let mut sds = Vec::new();
                let first_pose = r.poses.len();
                for (j, d) in s.sds.iter().enumerate() {
                    let pose = if d.shared && j > 0 {
                        first_pose
                    } else {
                        r.poses.push(PoseR { d: d.pose.clone(), time: time + d.off });
                        r.poses.len() - 1
                    };
                    let calib = d.calib as usize % self.calibs.len();
                    let fmt = d.fmt as usize % 3;
                    let id = r.sds.len();
                    let ext = ["pcd.bin", "jpg", "png"][fmt];
                    let place = self.spell(id, &["data/", "", "sweeps/LIDAR TOP/", "a/b/c/d/\u{e9}/", "data/"]);
                    // point clouds of Lyft, nuScenes and T4 datasets
                    let lidar = self.spell(id + 7000, &["lidar", "LIDAR_TOP", "LIDAR_CONCAT", "lidar", "lidar_top"]);
                    let filename = format!("{place}{}/{id}.{ext}", if fmt == 0 { lidar } else { "cam" });
                    r.sds.push(SdR { sample: idx, calib, pose, time: time + d.off, key: d.key, fmt, filename, prev: None, next: None });
                    sds.push(id);
                }
                r.samples.push(SampleR {
                    scene: si,
                    time,
                    prev: (k > 0).then(|| idx - 1),
                    next: (k + 1 < n).then_some(idx + 1),
                    anns: vec![],
                    sds,
                });
                list.push(idx);
            }
            r.scene_samples.push(list);
        }
        // Sensor data of one calibrated sensor are linked in file order.
        for c in 0..self.calibs.len() {
            let ids: Vec<usize> = (0..r.sds.len()).filter(|i| r.sds[*i].calib == c).collect();
            for w in ids.windows(2) {
                r.sds[w[0]].next = Some(w[1]);
                r.sds[w[1]].prev = Some(w[0]);
            }
        }
        for (ii, inst) in self.instances.iter().enumerate() {
            let mut list = Vec::new();
            if !r.samples.is_empty() {
                let n = inst.anns.len();
                for (k, a) in inst.anns.iter().enumerate() {
                    let id = r.anns.len();
                    let sample = a.sample as usize % r.samples.len();
                    let attrs = if self.attrs == 0 { vec![] } else { a.attrs.iter().map(|x| (*x % self.attrs) as usize).collect() };
                    let vis = a.vis.filter(|_| !self.vis.is_empty()).map(|v| v as usize % self.vis.len());
                    r.anns.push(AnnR { instance: ii, sample, d: a.clone(), attrs, vis, prev: (k > 0).then(|| id - 1), next: (k + 1 < n).then_some(id + 1) });
                    r.samples[sample].anns.push(id);
                    list.push(id);
                }
            }
            r.inst_anns.push(list);
        }
        r
    }

    /// The tables as JSON arrays, in the order of TABLES.
    pub fn tables(&self, r: &Resolved) -> Vec<Value> {
        let opt = |table: &str, i: Option<usize>| i.map(|i| self.token(table, i)).unwrap_or_default();
        let time = |t: i64| if self.salt & 1 == 0 { json!(t) } else { json!(t as f64) };
        let mut out = Vec::new();
        for table in TABLES {
            let mut recs: Vec<Value> = match table {
                "attribute" => (0..self.attrs as usize).map(|i| json!({"token": self.token(table, i), "name": format!("attr.{i}"), "description": format!("Attribute {i} \u{e9}")})).collect(),
                "calibrated_sensor" => self
                    .calibs
                    .iter()
                    .enumerate()
                    .map(|(i, c)| {
                        let intr = match &c.intrinsic {
                            None => json!([]),
                            Some(v) => json!([[v[0], 0.0, v[1]], [0.0, v[0] + 0.5, v[2]], [0.0, 0.25, 1.0]]),
                        };
                        json!({"token": self.token(table, i), "sensor_token": self.token("sensor", self.sensor_of(i)), "rotation": c.pose.q(), "translation": c.pose.t, "camera_intrinsic": intr})
                    })
                    .collect(),
                "category" => (0..self.cats.len()).map(|i| json!({"token": self.token(table, i), "name": self.cat_name(i), "description": format!("category {i}")})).collect(),
                "ego_pose" => r.poses.iter().enumerate().map(|(i, p)| json!({"token": self.token(table, i), "timestamp": time(p.time), "rotation": p.d.q(), "translation": p.d.t})).collect(),
                "instance" => r
                    .inst_anns
                    .iter()
                    .enumerate()
                    .filter(|(_, l)| !l.is_empty())
                    .map(|(i, l)| {
                        json!({"token": self.token(table, i), "category_token": self.token("category", self.instances[i].cat as usize % self.cats.len()), "nbr_annotations": l.len(),
                            "first_annotation_token": self.token("sample_annotation", l[0]), "last_annotation_token": self.token("sample_annotation", l[l.len() - 1]), "instance_name": "extra"})
                    })
                    .collect(),
                "log" => self
                    .logs
                    .iter()
                    .enumerate()
                    .map(|(i, l)| {
                        json!({"token": self.token(table, i), "date_captured": l.date.map(|(y, m, d)| format!("{y:04}-{m:02}-{d:02}")), "location": l.location, "vehicle": l.vehicle, "logfile": l.file.clone().unwrap_or_default()})
                    })
                    .collect(),
                "map" => self
                    .maps
                    .iter()
                    .enumerate()
                    .map(|(i, m)| {
                        let logs: Vec<String> = m.iter().enumerate().map(|(k, l)| match l { Some(l) => self.token("log", *l as usize % self.logs.len()), None => self.stray(i * 100 + k) }).collect();
                        json!({"token": self.token(table, i), "log_tokens": logs, "filename": self.map_file(i), "category": format!("semantic_prior_{i}")})
                    })
                    .collect(),
                "sample" => r
                    .samples
                    .iter()
                    .enumerate()
                    .map(|(i, s)| json!({"token": self.token(table, i), "timestamp": time(s.time), "scene_token": self.token("scene", s.scene), "prev": opt(table, s.prev), "next": opt(table, s.next)}))
                    .collect(),
                "sample_annotation" => r
                    .anns
                    .iter()
                    .enumerate()
                    .map(|(i, a)| {
                        json!({"token": self.token(table, i), "sample_token": self.token("sample", a.sample), "instance_token": self.token("instance", a.instance),
                            "attribute_tokens": a.attrs.iter().map(|k| self.token("attribute", *k)).collect::<Vec<_>>(), "visibility_token": a.vis.map(|v| self.vis_token(v)).unwrap_or_default(),
                            "translation": a.d.pose.t, "rotation": a.d.pose.q(), "size": a.d.size, "num_lidar_pts": a.d.lidar, "num_radar_pts": a.d.radar,
                            "prev": opt(table, a.prev), "next": opt(table, a.next)})
                    })
                    .collect(),
                "sample_data" => r
                    .sds
                    .iter()
                    .enumerate()
                    .map(|(i, s)| {
                        json!({"token": self.token(table, i), "sample_token": self.token("sample", s.sample), "ego_pose_token": self.token("ego_pose", s.pose),
                            "calibrated_sensor_token": self.token("calibrated_sensor", s.calib), "filename": s.filename, "fileformat": ([["pcd", "bin"], ["jpg", "jpeg"], ["png", "png"]][s.fmt][i % 2]), "width": self.spell(i, &[0, 1920]), "height": self.spell(i, &[0, 1080]),
                            "timestamp": time(s.time), "is_key_frame": s.key, "next": opt(table, s.next), "prev": opt(table, s.prev), "is_valid": true})
                    })
                    .collect(),
                "scene" => r
                    .scene_samples
                    .iter()
                    .enumerate()
                    .map(|(i, l)| {
                        let s = &self.scenes[i];
                        json!({"token": self.token(table, i), "name": s.text, "description": format!("{} (scene {i})", s.text), "log_token": self.token("log", s.log as usize % self.logs.len()),
                            "nbr_samples": l.len(), "first_sample_token": self.token("sample", l[0]), "last_sample_token": self.token("sample", l[l.len() - 1])})
                    })
                    .collect(),
                "sensor" => self
                    .sensors
                    .iter()
                    .enumerate()
                    .map(|(i, (m, c))| json!({"token": self.token(table, i), "modality": MODALITIES[*m as usize % 3], "channel": if *c as usize % 15 == 7 { self.spell(i, &["LIDAR_TOP", "LIDAR_CONCAT"]) } else { CHANNELS[*c as usize % 15] }}))
                    .collect(),
                _ => self.vis.iter().enumerate().map(|(i, l)| json!({"token": self.vis_token(i), "level": self.spell(i, &[LEVELS, ["none", "partial", "most", "full"]])[*l as usize % 4], "description": format!("visibility {i}")})).collect(),
            };
            // Records come in any order.
            recs.sort_by_key(|v| mix(self.salt, crate::ds::text_hash(v["token"].as_str().unwrap_or(""))));
            let mut list = Value::Array(recs);
            if self.style() % 3 == 1 {
                whole(&mut list);
            }
            out.push(list);
        }
        out
    }
}

/// Whole numbers are written without a fraction.
pub fn whole(v: &mut Value) {
    match v {
        Value::Array(l) => l.iter_mut().for_each(whole),
        Value::Object(o) => o.values_mut().for_each(whole),
        Value::Number(n) if n.is_f64() => {
            let x = n.as_f64().unwrap_or(0.5);
            if x.fract() == 0.0 && x.abs() < 4e15 {
                *v = json!(x as i64);
            }
        }
        _ => {}
    }
}

pub fn text_hash(s: &str) -> u64 {
    s.bytes().fold(7u64, |h, b| mix(h, b as u64))
}

pub const VERSION: &str = "annotation";

pub fn write_tables(dir: &Path, tables: &[Value]) {
    let meta = dir.join(VERSION);
    std::fs::create_dir_all(&meta).expect("scratch directory");
    for (name, t) in TABLES.iter().zip(tables) {
        let mut text = serde_json::to_string(t).expect("json");
        if let (4, Value::Array(l)) = (text.len() % 5, t) {
            // records may have further fields
            let more = l.iter().map(|r| {
                let mut r = r.clone();
                if let Value::Object(o) = &mut r {
                    o.insert("further".into(), json!({"note": ["x", null, 1.5], "token": ""}));
                    o.insert("0".into(), Value::Null);
                }
                r
            });
            text = serde_json::to_string(&more.collect::<Vec<_>>()).expect("json");
        }
        if text.len() % 3 == 0 {
            text = serde_json::from_str::<Value>(&text).and_then(|v| serde_json::to_string_pretty(&v)).expect("json");
        }
        std::fs::write(meta.join(format!("{name}.json")), text).expect("write table");
    }
}

// ------------------------------------------------------------------ scratch directories

pub fn scratch_root() -> PathBuf {
    std::env::temp_dir().join(format!("pv-scratch-{}", std::process::id()))
}
/// A directory of this thread, emptied.
pub fn fresh_dir(name: &str) -> PathBuf {
    let id = format!("{:?}", std::thread::current().id());
    let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
    let d = scratch_root().join(format!("t{id}-{name}"));
    if d.exists() {
        std::fs::remove_dir_all(&d).expect("empty the scratch directory");
    }
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
/// Like `fresh_dir`, keeping what is there (for tables that are all overwritten).
pub fn thread_dir(name: &str) -> PathBuf {
    let id = format!("{:?}", std::thread::current().id());
    let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
    let d = scratch_root().join(format!("t{id}-{name}"));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
pub fn remove_scratch() {
    remove_scratch_of(std::process::id());
}

pub fn remove_scratch_of(pid: u32) {
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("pv-scratch-{pid}")));
}

// ------------------------------------------------------------------ generation

#[derive(Clone, Copy)]
pub struct DsOpts {
    pub scenes: usize,
    pub samples: usize,
    pub instances: usize,
    pub anns: usize,
    /// distinct sample times
    pub distinct: bool,
    /// every scene has a sample and there is at least one scene
    pub some: bool,
    /// most sensor data per sample, sensors and calibrations
    pub sds: usize,
    /// unusual magnitudes
    pub wide: bool,
}

fn pose(r: f64, wide: bool) -> BoxedStrategy<PoseD> {
    let far = if wide { 1 } else { 0 };
    (
        prop_oneof![3 => pos(r, 5.0), 1 => pos(r * 20.0, 50.0), far => pos(1e5, 1e4), far => pos(3e6, 1e6), far => pos(1e-3, 1e-3), far => Just([0.0; 3])],
        prop_oneof![
            2 => angle().prop_map(|y| [0.0, 0.0, y]),
            1 => (-0.2..0.2f64, -0.2..0.2f64, angle()).prop_map(|(a, b, c)| [a, b, c]),
            1 => (angle(), angle(), angle()).prop_map(|(a, b, c)| [a, b, c]),
        ],
    )
        .prop_map(|(t, rpy)| PoseD { t, rpy })
        .boxed()
}

pub fn ds(o: DsOpts) -> BoxedStrategy<Ds> {
    let text = || prop_oneof![Just("".to_string()), "[a-z ]{1,8}", "\\PC{0,5}"];
    let log = (proptest::option::of((1971i32..2100, 1u32..13, 1u32..29)), text(), text(), proptest::option::of("(d/)?[a-z]{2,5}"))
        .prop_map(|(date, location, vehicle, file)| LogD { date, location, vehicle, file });
    let w = o.wide;
    let rare = if w { 1 } else { 0 };
    let back = if w && !o.distinct { 1 } else { 0 };
    let sd = move || {
        (
            (0u8..16, prop_oneof![4 => Just(0i64), 1 => 1i64..90_000, 1 => -40_000i64..0, 1 => Just(1), 1 => Just(-1)], pose(100.0, w), proptest::bool::weighted(0.3)),
            (any::<bool>(), 0u8..3),
        )
            .prop_map(|((calib, off, pose, shared), (key, fmt))| SdD { calib, off, pose, shared, key, fmt })
    };
    let sample = move || {
        (prop_oneof![8 => if o.distinct { 1i64..600_000 } else { 0i64..600_000 }, back => -300_000i64..0, 2 * rare => 1i64..4, 2 * rare => 1_000_000i64..100_000_000_000], proptest::collection::vec(sd(), 1..=o.sds)).prop_map(|(dt, sds)| SampleD { dt, sds })
    };
    let scene = move || {
        (0u8..4, prop_oneof![Just(1_600_000_000_000_000i64), 1_600_000_000_000_000i64..1_600_000_001_500_000, 1_500_000_000_000_000i64..1_700_000_000_000_000], proptest::collection::vec(sample(), 1..=o.samples), text())
            .prop_map(|(log, start, samples, text)| SceneD { log, start, samples, text })
    };
    let ann = || {
        (
            (
                any::<u16>(),
                pose(60.0, w),
                prop_oneof![
                    6 => (length(0.1, 5.0), length(0.1, 9.0), length(0.1, 4.0)).prop_map(|(a, b, c)| [a, b, c]),
                    rare => (length(1e-4, 900.0), length(1e-4, 900.0), length(1e-4, 900.0)).prop_map(|(a, b, c)| [a, b, c]),
                    rare => Just([0.0; 3]),
                ],
            ),
            (
                prop_oneof![6 => 0usize..500, 1 => Just(0), rare => 0usize..10_000_000, rare => Just(usize::MAX)],
                prop_oneof![6 => 0usize..50, 1 => Just(0), rare => 0usize..10_000_000],
                proptest::collection::vec(0u8..4, 0..3 + 4 * rare as usize),
                proptest::option::of(0u8..4),
            ),
        )
            .prop_map(|((sample, pose, size), (lidar, radar, attrs, vis))| AnnD { sample, pose, size, lidar, radar, attrs, vis })
    };
    let inst = move || (0u8..24, proptest::collection::vec(ann(), 1..=o.anns)).prop_map(|(cat, anns)| InstD { cat, anns });
    (
        (any::<u64>(), proptest::collection::vec(log, 1..4), proptest::collection::vec(proptest::collection::vec(proptest::option::weighted(0.8, 0u8..4), 0..4), 0..3)),
        (proptest::collection::vec(prop_oneof![4 => 0u8..TABLE_LEN as u8, 1 => 60u8..70], 1..5 + 15 * rare as usize), 0u8..4, proptest::collection::vec(0u8..4, 0..4)),
        (
            proptest::collection::vec((prop_oneof![3 => Just(1u8), 2 => 0u8..3], 0u8..15), 1..=o.sds),
            proptest::collection::vec(
                (0u8..12, pose(3.0, w), proptest::option::of(pos(500.0, 500.0))).prop_map(|(sensor, pose, intrinsic)| CalibD { sensor, pose, intrinsic }),
                1..=o.sds,
            ),
        ),
        proptest::collection::vec(scene(), (o.some as usize)..=o.scenes),
        proptest::collection::vec(inst(), 0..=o.instances),
    )
        .prop_map(move |((salt, logs, maps), (cats, attrs, vis), (sensors, calibs), mut scenes, instances)| {
            if o.distinct {
                // scenes do not overlap: the second starts after the first ends
                let mut last = None;
                for s in scenes.iter_mut() {
                    if let Some(l) = last {
                        s.start = l + 1_000_000;
                    }
                    last = Some(s.start + s.samples.iter().skip(1).map(|x| x.dt).sum::<i64>());
                }
            }
            Ds { salt, logs, maps, cats, attrs, vis, sensors, calibs, scenes, instances }
        })
        .boxed()
}
