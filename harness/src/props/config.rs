//! C23, C24, C27, C28: scenario files, logging, and evaluation end to end.
use crate::ds::{self, *};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::props::dataset::into_frame;
use crate::props::frames::{kept, spelled, FRAMES, TASKS};
use crate::props::metrics::{correct, list_after, score};
use log::Level;
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::dataset::FrameGroundTruth;
use perception_eval::filter::filter_objects;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::utils::logger::configure_logger;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- scenarios

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Scn {
    /// dataset paths and versions; the first is evaluated
    pub datasets: Vec<(String, String)>,
    pub texts: Vec<String>,
    pub usecase: u8,
    pub task: u8,
    pub frame: u8,
    pub snake: (bool, bool),
    pub targets: Vec<u8>,
    pub casing: u8,
    pub max: (f64, f64),
    pub min_pts: Option<usize>,
    pub uuids: Option<Vec<u8>>,
    /// leave optional settings out instead of writing null
    pub omit: bool,
    /// centre, plane, 2D and 3D IoU
    pub thresholds: [f64; 4],
    pub pass_rate: f64,
    pub raw: bool,
    /// block YAML, JSON or a mixture
    pub style: u8,
    pub rev: bool,
    /// bits: CRLF line ends, whole numbers without fraction, comments and empty lines, further keys
    #[serde(default)]
    pub dress: u8,
}

impl Scn {
    fn task_name(&self) -> &'static str {
        let t = TASKS[self.task as usize % 3];
        if self.snake.0 {
            t.1
        } else {
            t.0
        }
    }
    fn frame_name(&self) -> &'static str {
        let f = FRAMES[self.frame as usize % 10];
        if self.snake.1 {
            f.1
        } else {
            f.0
        }
    }
    fn value(&self) -> Value {
        let t = |i: usize| self.texts[i % self.texts.len()].clone();
        let mut params = json!({
            "evaluation_task": self.task_name(),
            "frame_id": self.frame_name(),
            "target_labels": self.targets.iter().map(|l| spelled(*l, self.casing)).collect::<Vec<_>>(),
            "max_x_position": self.max.0,
            "max_y_position": self.max.1,
            "center_distance_threshold": self.thresholds[0],
            "plane_distance_threshold": self.thresholds[1],
            "iou_2d_threshold": self.thresholds[2],
            "iou_3d_threshold": self.thresholds[3],
        });
        if self.min_pts.is_some() || !self.omit {
            params["min_point_number"] = json!(self.min_pts);
        }
        if self.uuids.is_some() || !self.omit {
            params["target_uuids"] = json!(self.uuids.as_ref().map(|u| u.iter().map(|x| uuid_str(*x)).collect::<Vec<_>>()));
        }
        let datasets: Vec<Value> = self
            .datasets
            .iter()
            .enumerate()
            .map(|(i, (path, version))| {
                let mut m = Map::new();
                m.insert(path.clone(), json!({"Version": version, "VehicleId": t(i), "LaunchSensing": i % 2 == 0, "LocalMapPath": t(i + 1)}));
                Value::Object(m)
            })
            .collect();
        let usecase = ["perception", "perception_2d", "traffic_light"][self.usecase as usize % 3];
        json!({
            "ScenarioFormatVersion": "3.0.0",
            "ScenarioName": t(0),
            "ScenarioDescription": t(1),
            "SensorModel": t(2),
            "VehicleModel": t(3),
            "Evaluation": {
                "UseCaseName": usecase,
                "UseCaseFormatVersion": "0.4.0",
                "Datasets": datasets,
                "Conditions": {"PassRate": self.pass_rate},
                "PerceptionEvaluationConfig": {"evaluation_config_dict": params},
            },
        })
    }
    pub fn text(&self) -> String {
        let mut v = self.value();
        if self.dress >> 1 & 1 == 1 {
            crate::ds::whole(&mut v);
        }
        if self.dress >> 3 & 1 == 1 {
            further_keys(&mut v);
        }
        let mut text = write_yaml(&v, self.style, self.rev);
        if self.dress >> 2 & 1 == 1 && self.style % 4 != 3 {
            // values may hold any character but a line end, so comments stand on lines of their own
            text = text.lines().map(|l| format!("{l}\n\n  # {}: '\n", l.len())).collect();
        }
        if self.dress & 1 == 1 {
            text = text.replace('\n', "\r\n");
        }
        text
    }
}

/// Adds keys that the program does not know.
fn further_keys(v: &mut Value) {
    match v {
        // the keys of the datasets are their paths
        Value::Object(o) if o.values().all(|x| x.get("VehicleId").is_some()) => o.values_mut().for_each(further_keys),
        Value::Object(o) => {
            o.values_mut().for_each(further_keys);
            o.insert("Further".into(), json!(["x", 1, null]));
            o.insert("criteria_method".into(), json!("num_gt_tp"));
        }
        Value::Array(l) => l.iter_mut().for_each(further_keys),
        _ => {}
    }
}

/// A text that YAML reads as this string without quotes.
fn plain(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphabetic()
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'/' || *c == b'-')
        && !["y", "n", "yes", "no", "on", "off", "true", "false", "null", "inf", "nan"].contains(&s.to_ascii_lowercase().as_str())
}
fn scalar(v: &Value, style: u8) -> String {
    match v {
        Value::String(s) if style == 0 && plain(s) => s.clone(),
        Value::String(s) if style == 2 => format!("'{}'", s.replace('\'', "''")),
        Value::Null if style == 0 => "~".into(),
        _ => v.to_string(),
    }
}
pub fn write_yaml(v: &Value, style: u8, rev: bool) -> String {
    if style % 4 == 3 {
        return serde_json::to_string_pretty(v).unwrap_or_default();
    }
    let mut out = String::from(if style == 1 { "# a scenario\n---\n" } else { "" });
    block(v, 0, style % 4, rev, &mut out);
    out
}
fn block(v: &Value, depth: usize, style: u8, rev: bool, out: &mut String) {
    let pad = " ".repeat(depth);
    match v {
        Value::Object(m) if !m.is_empty() => {
            let mut items: Vec<_> = m.iter().collect();
            if rev {
                items.reverse();
            }
            for (k, x) in items {
                let k = scalar(&json!(k), style);
                match x {
                    Value::Object(o) if !o.is_empty() => {
                        *out += &format!("{pad}{k}:\n");
                        block(x, depth + 2, style, rev, out);
                    }
                    Value::Array(a) if !a.is_empty() && a.iter().any(|e| e.is_object()) || style == 2 && x.as_array().is_some_and(|a| !a.is_empty()) => {
                        *out += &format!("{pad}{k}:\n");
                        block(x, depth + 2, style, rev, out);
                    }
                    Value::Array(a) => *out += &format!("{pad}{k}: [{}]\n", a.iter().map(|e| if e.is_array() || e.is_object() { e.to_string() } else { scalar(e, 1) }).collect::<Vec<_>>().join(", ")),
                    _ => *out += &format!("{pad}{k}: {}\n", scalar(x, style)),
                }
            }
        }
        Value::Array(a) if !a.is_empty() => {
            for e in a {
                if e.as_object().is_some_and(|o| !o.is_empty()) {
                    *out += &format!("{pad}-\n");
                    block(e, depth + 2, style, rev, out);
                } else {
                    *out += &format!("{pad}- {}\n", scalar(e, style));
                }
            }
        }
        _ => *out += &format!("{pad}{}\n", scalar(v, style)),
    }
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => "[a-z_]{1,10}",
        2 => "[ -~]{0,12}",
        1 => "[é漢 :#a-z'\"\\-]{0,8}",
        1 => prop_oneof![Just("true"), Just("null"), Just("1.0"), Just("0x10"), Just("~"), Just("")].prop_map(|s| s.to_string()),
    ]
    .boxed()
}
pub fn scn() -> BoxedStrategy<Scn> {
    let num = || prop_oneof![4 => 0.05..3.0f64, 1 => Just(1.0), 1 => Just(2.0), 2 => (1u8..9).prop_map(|k| k as f64), 1 => 1e-4..0.05f64, 1 => 3.0..500.0f64, 1 => -3.0..0.0f64, 1 => 500.0..1e6f64];
    let limit = || prop_oneof![6 => 0.5..120.0f64, 2 => Just(100.0), 3 => (1u16..200).prop_map(|k| k as f64), 1 => 100.0..1e5f64, 1 => Just(0.0), 1 => -200.0..0.0f64, 1 => 1e5..1e12f64];
    let share = || prop_oneof![1 => 1.0..200.0f64, 1 => -1.0..0.0f64, 6 => 0.0..1.0f64, 1 => Just(0.0), 1 => Just(1.0), 1 => Just(0.5)];
    (
        (
            // paths are compared as they are written: no trailing slash
            proptest::collection::vec((prop_oneof![3 => "/?[a-z_]{1,6}(/[a-z0-9_. ]{0,5}[a-z0-9_])?", 1 => "[!-~é漢]{1,4}(/[!-.0-~é漢 ]{0,5}[!--0-~é漢])?", 1 => "(\\.{1,2}/|~/|C:\\\\|\\$HOME/)?[A-Za-z_\\\\%+@]{1,6}"], prop_oneof![3 => Just("annotation".to_string()), 1 => "[a-z0-9. :#-]{0,9}"]), 1..4),
            proptest::collection::vec(text(), 4..6),
            (0u8..3, 0u8..3, 0u8..10, any::<(bool, bool)>()),
        ),
        (
            (proptest::sample::subsequence((0..8).collect::<Vec<u8>>(), 0..=8).prop_shuffle(), proptest::option::weighted(0.2, (any::<prop::sample::Index>(), any::<prop::sample::Index>())), proptest::option::weighted(0.1, 1usize..70)).prop_map(|(mut l, twice, often)| {
                // the first named again and again
                if let (Some(x), Some(n)) = (l.first().copied(), often) {
                    l.splice(0..0, std::iter::repeat_n(x, n));
                }
                // one of them named twice
                if let (Some((i, j)), false) = (twice, l.is_empty()) {
                    let x = l[i.index(l.len())];
                    l.insert(j.index(l.len() + 1), x);
                }
                l
            }),
            0u8..4,
        ),
        (limit(), limit()),
        (
            proptest::option::of(prop_oneof![5 => 0usize..7, 5 => 0usize..2000, 1 => 60_000usize..70_000, 1 => (1usize << 32)..(1 << 32) + 50]),
            proptest::option::weighted(0.4, proptest::collection::vec(0u8..6, 0..5)),
            any::<bool>(),
        ),
        (num(), num(), share(), share()).prop_map(|(a, b, c, d)| [a, b, c, d]),
        (prop_oneof![Just(99.0), 0.0..100.0f64], any::<bool>(), 0u8..4, any::<bool>(), prop_oneof![Just(0u8), 0u8..16]),
    )
        .prop_map(|((datasets, texts, (usecase, task, frame, snake)), (targets, casing), max, (min_pts, uuids, omit), thresholds, (pass_rate, raw, style, rev, dress))| Scn {
            datasets,
            texts,
            usecase,
            task,
            frame,
            snake,
            targets,
            casing,
            max,
            min_pts,
            uuids,
            omit,
            thresholds,
            pass_rate,
            raw,
            style,
            rev,
            dress,
        })
        .boxed()
}

pub fn path_str(p: &Path) -> Result<&str, String> {
    p.to_str().ok_or_else(|| format!("{HARNESS}scratch path"))
}
pub fn write_scenario(dir: &Path, text: impl AsRef<[u8]>) -> Result<PathBuf, String> {
    let p = dir.join("scenario.yaml");
    std::fs::write(&p, text).map_err(|e| format!("{HARNESS}{e}"))?;
    Ok(p)
}

// ---------------------------------------------------------------- C23

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Loads {
    pub scns: Vec<Scn>,
    pub objs: Vec<Obj>,
    /// per threshold: distance of the pair as a multiple of it
    pub at: (f64, f64),
    pub pick: u8,
}

fn c23_one(s: &Scn, c: &Loads, dir: &Path, result: &Path, ctx: &mut Ctx) -> Result<PerceptionEvaluationConfig, String> {
    let text = s.text();
    let file = write_scenario(dir, &text)?;
    let cfg = PerceptionEvaluationConfig::from(path_str(&file)?, path_str(result)?, s.raw).map_err(|e| format!("loading a valid scenario failed: {e}\n{text}"))?;
    ensure!(cfg.dataset_path == Path::new(&s.datasets[0].0), "dataset path {:?} instead of {:?}\n{text}", cfg.dataset_path, s.datasets[0].0);
    ensure!(cfg.version == s.datasets[0].1, "version {:?} instead of {:?}\n{text}", cfg.version, s.datasets[0].1);
    ensure!(format!("{:?}", cfg.evaluation_task) == TASKS[s.task as usize % 3].0, "task {:?} instead of {}", cfg.evaluation_task, s.task_name());
    ensure!(format!("{:?}", cfg.frame_id) == FRAMES[s.frame as usize % 10].0, "frame {:?} instead of {}", cfg.frame_id, s.frame_name());
    ensure!(
        cfg.result_dir == result && cfg.log_dir == result.join("log") && cfg.viz_dir == result.join("visualize"),
        "directories {:?} {:?} {:?} for {result:?}",
        cfg.result_dir,
        cfg.log_dir,
        cfg.viz_dir
    );
    ensure!(cfg.load_raw_data == s.raw, "load_raw_data {} instead of {}", cfg.load_raw_data, s.raw);
    // filter
    let objs: Vec<DynamicObject> = c.objs.iter().map(|o| o.build()).collect();
    for is_gt in [true, false] {
        let got = filter_objects(&objs, is_gt, &cfg.filter_params);
        let want: Vec<&DynamicObject> =
            c.objs.iter().zip(&objs).filter(|(o, _)| kept(o, is_gt, &s.targets, s.max.0, s.max.1, s.min_pts, &s.uuids)).map(|(_, d)| d).collect();
        ensure!(
            got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| same_object(a, b)),
            "the loaded filter keeps {:?} instead of {:?} (ground truth: {is_gt})\n{text}",
            got.iter().map(|o| (&o.label, o.position, o.pointcloud_num, &o.uuid)).collect::<Vec<_>>(),
            want.iter().map(|o| (&o.label, o.position, o.pointcloud_num, &o.uuid)).collect::<Vec<_>>()
        );
        ctx.class_if(!got.is_empty() && got.len() < objs.len(), "the filter keeps some objects");
    }
    // thresholds: a single pair at a distance near each
    if !s.targets.is_empty() && s.task % 3 == 0 && c.objs.len() > 1 {
        for (k, m) in [(0, c.at.0), (1, c.at.1)] {
            let mut g = c.objs[0].clone();
            g.label = s.targets[c.pick as usize % s.targets.len()];
            g.pos = [g.pos[0] * s.max.0 / 14.0, g.pos[1] * s.max.1 / 14.0, 0.0];
            g.pts = None;
            g.uuid = s.uuids.as_ref().and_then(|u| u.first()).copied();
            if s.uuids.as_ref().is_some_and(|u| u.is_empty()) {
                continue;
            }
            let mut e = g.clone();
            let d = s.thresholds[k] * m;
            if k == 0 {
                e.pos[2] += d;
            } else {
                let a = c.objs[1].rpy[2];
                e.pos = [e.pos[0] + d * a.cos(), e.pos[1] + d * a.sin(), 0.0];
            }
            if !kept(&e, false, &s.targets, s.max.0, s.max.1, None, &None) || !kept(&g, true, &s.targets, s.max.0, s.max.1, s.min_pts, &s.uuids) {
                continue;
            }
            let (e, g) = (e.build(), g.build());
            let mut m = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: vec![], frame_results: vec![] };
            m.add_frame_result(&[e.clone()], &FrameGroundTruth { timestamp: g.timestamp, objects: vec![g.clone()] }).map_err(|e| format!("add_frame_result fails: {e}"))?;
            let sc = score(&m)?;
            for mode in 0..2 {
                let names: Vec<String> = s.targets.iter().map(|l| LABEL_PRINT[*l as usize].to_string()).collect();
                ensure!(sc.modes[mode].labels == names, "scores of {:?} instead of {names:?}\n{text}", sc.modes[mode].labels);
                let at = c.pick as usize % s.targets.len();
                if let Some(tp) = correct(&e, &g, mode, s.thresholds[mode]) {
                    ctx.class(["one pair scored 0", "one pair scored 1"][tp as usize]);
                    let got = sc.modes[mode].ap[at];
                    let mode = ["center", "plane"][mode];
                    ensure!((got - tp as u8 as f64).abs() < 1e-9, "AP {got} by {mode} distance with {:?} for a pair at {:?} and {:?}\n{text}", s.thresholds, e.position, g.position);
                }
            }
        }
    }
    // The IoU thresholds are only visible in the debug form.
    let dbg = format!("{:?}", cfg.metrics_params);
    for (key, want) in [("iou2d_thresholds:", s.thresholds[2]), ("iou3d_thresholds:", s.thresholds[3])] {
        if let Some(got) = list_after(&dbg, key) {
            ensure!(got.len() == s.targets.len() && got.iter().all(|x| *x == want), "{key} {got:?} instead of {want}\n{text}");
        }
    }
    ctx.nontrivial(s.targets.len() > 1);
    Ok(cfg)
}
/// Result directories of several forms, all below the scratch directory.
fn result_dir(dir: &Path, i: usize, pick: u8) -> Result<PathBuf, String> {
    Ok(match pick / 4 % 5 {
        0 => dir.join(format!("a/b/c/result{i}")),
        1 => dir.join(format!("r\u{e9}sultat {i}")),
        2 => {
            // relative to the working directory
            let cwd = std::env::current_dir().map_err(|e| format!("{HARNESS}{e}"))?;
            let mut p = PathBuf::new();
            cwd.components().skip(1).for_each(|_| p.push(".."));
            p.join(dir.strip_prefix("/").map_err(|e| format!("{HARNESS}{e}"))?).join(format!("relative{i}"))
        }
        // the same one for all
        3 => dir.join("result.d"),
        _ => dir.join(format!("result{i}")),
    })
}
fn c23(c: &Loads, ctx: &mut Ctx) -> R {
    let dir = thread_dir("c23");
    let mut before: Vec<(String, PerceptionEvaluationConfig)> = vec![];
    for (i, s) in c.scns.iter().enumerate() {
        let cfg = c23_one(s, c, &dir, &result_dir(&dir, i, c.pick)?, ctx)?;
        // configurations loaded before stay as they were
        for (text, old) in &before {
            ensure!(*text == format!("{old:?}"), "loading a scenario changed {text} to {old:?}");
        }
        before.push((format!("{cfg:?}"), cfg));
    }
    ctx.class_if(c.scns.len() > 1, "several scenarios");
    Ok(())
}
pub fn c23s() -> Vec<Sub> {
    let at = || prop_oneof![Just(0.999), Just(1.001), 0.0..2.0f64];
    vec![sub(
        "load",
        12_000,
        20,
        8,
        move || {
            (
                proptest::collection::vec(scn(), 1..4),
                proptest::collection::vec(obj(ObjOpts { range: 12.0, tilt: false, labels: 8 }), 2..8),
                prop_oneof![Just(1.0), 1.0..20.0f64],
                (at(), at()),
                any::<u8>(),
            )
                .prop_map(|(scns, mut objs, wide, at, pick)| {
                    for o in objs.iter_mut() {
                        o.pos = [o.pos[0] * wide, o.pos[1] * wide, o.pos[2]];
                    }
                    objs[0].pos = [objs[0].pos[0] / wide, objs[0].pos[1] / wide, 0.0];
                    Loads { scns, objs, at, pick }
                })
        },
        c23,
    )]
}

// ---------------------------------------------------------------- C24

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct BadScn {
    pub scn: Scn,
    pub kind: u8,
    pub at: u32,
    pub text: String,
    pub bytes: Vec<u8>,
}

/// Paths to every member of the scenario.
fn members(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                out.push(at.clone());
                members(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                members(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn member<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    path.iter().try_fold(v, |v, k| if v.is_array() { v.get_mut(k.parse::<usize>().ok()?) } else { v.get_mut(k) })
}

fn c24(c: &BadScn, ctx: &mut Ctx) -> R {
    let dir = thread_dir("c24");
    let result = dir.join("result");
    let mut v = c.scn.value();
    let mut paths = vec![];
    members(&v, &mut vec![], &mut paths);
    // the keys below Datasets are paths, all other keys are fixed
    let is_dataset = |p: &Vec<String>| p.len() == 4 && p[1] == "Datasets";
    let optional = |p: &Vec<String>| matches!(p.last().map(|s| s.as_str()), Some("min_point_number" | "target_uuids"));
    let pick = |f: &dyn Fn(&Vec<String>) -> bool| {
        let l: Vec<&Vec<String>> = paths.iter().filter(|p| f(p)).collect();
        l[c.at as usize % l.len()].clone()
    };
    let mut bytes = None;
    let (mut file, mut out) = (dir.join("scenario.yaml"), result.clone());
    // Some(true): it must be refused
    let (what, refuse) = match c.kind % 12 {
        0 => {
            let p = pick(&|p| !optional(p) && !is_dataset(p));
            if let Some(m) = member(&mut v, &p[..p.len() - 1]).and_then(|m| m.as_object_mut()) {
                m.remove(&p[p.len() - 1]);
            }
            (format!("without {}", p.join(".")), true)
        }
        1 => {
            let p = pick(&|_| true);
            if let Some(x) = member(&mut v, &p) {
                *x = match x {
                    Value::Object(_) => [json!("text"), json!([1]), json!(3)][c.at as usize / 64 % 3].clone(),
                    Value::Array(_) => [json!("text"), json!({"a": 1}), json!(3)][c.at as usize / 64 % 3].clone(),
                    Value::Number(n) => [json!("text"), json!([1]), json!({"a": 1}), json!(n.to_string()), json!("1"), json!(true), Value::Null, json!([n])][c.at as usize / 64 % 8].clone(),
                    Value::Bool(b) => [json!("text"), json!([true]), json!(3), json!(b.to_string()), json!("yes"), json!(0), json!(1), Value::Null][c.at as usize / 64 % 8].clone(),
                    // (YAML numbers are accepted as texts)
                    Value::String(_) => [json!(["text"]), json!({"a": "b"}), json!([])][c.at as usize / 64 % 3].clone(),
                    Value::Null => json!({"a": 1}),
                };
                if x.is_null() && optional(&p) {
                    *x = json!("text");
                }
            }
            (format!("with another type of {}", p.join(".")), true)
        }
        2 | 3 => {
            let key = ["evaluation_task", "frame_id"][(c.kind % 12) as usize - 2];
            let known = |t: &str| TASKS.iter().any(|x| x.0 == t || x.1 == t) && c.kind % 12 == 2 || FRAMES.iter().any(|x| x.0 == t || x.1 == t) && c.kind % 12 == 3;
            v["Evaluation"]["PerceptionEvaluationConfig"]["evaluation_config_dict"][key] = json!(c.text);
            (format!("with {key} {:?}", c.text), !known(&c.text))
        }
        4 => {
            v["Evaluation"]["Datasets"] = [json!([]), Value::Null, json!({})][c.at as usize % 3].clone();
            ("without any dataset".to_string(), true)
        }
        5 => {
            file = dir.join(["no_such_file.yaml", "no/such/dir.yaml", "", "nul\0.yaml"][c.at as usize % 4]);
            if c.at % 4 == 2 {
                file = dir.clone();
            }
            ("which is no file".to_string(), true)
        }
        6 => {
            // a result directory that cannot be made
            let block = dir.join("regular");
            std::fs::write(&block, "x").map_err(|e| format!("{HARNESS}{e}"))?;
            let taken = dir.join("taken");
            let _ = std::fs::remove_dir_all(&taken);
            out = match c.at % 6 {
                4 | 5 => {
                    // its log is already something else
                    std::fs::create_dir_all(if c.at % 6 == 4 { taken.clone() } else { taken.join("log/output.log") }).map_err(|e| format!("{HARNESS}{e}"))?;
                    if c.at % 6 == 4 {
                        std::fs::write(taken.join("log"), "x").map_err(|e| format!("{HARNESS}{e}"))?;
                    }
                    taken
                }
                0 => block,
                1 => block.join("below"),
                2 => dir.join("nul\0"),
                _ => dir.join("x".repeat(300)),
            };
            ("with a result directory that cannot be written".to_string(), true)
        }
        7 => {
            // damaged text
            let mut b = write_yaml(&v, c.scn.style, c.scn.rev).into_bytes();
            for (i, x) in c.bytes.iter().enumerate() {
                if b.is_empty() {
                    break;
                }
                let k = (c.at as usize).wrapping_mul(i * 7919 + 1).wrapping_add(i * *x as usize) % b.len();
                match x % 4 {
                    0 => b[k] = c.bytes[c.bytes.len() - 1 - i],
                    1 => {
                        b.remove(k);
                    }
                    2 => b.insert(k, b": -[]{}#&*!|>'\"%@\n\t\x00"[*x as usize / 4 % 20]),
                    _ => b.truncate(k),
                }
            }
            bytes = Some(b);
            ("damaged".to_string(), false)
        }
        8 => {
            bytes = Some(c.bytes.clone());
            ("of arbitrary bytes".to_string(), false)
        }
        9 => {
            bytes = Some(c.text.clone().into_bytes());
            ("of arbitrary text".to_string(), false)
        }
        10 => {
            // other values of the right type, or null
            let p = pick(&|_| true);
            if let Some(x) = member(&mut v, &p) {
                *x = match x {
                    Value::Number(_) => [json!(-1.0), json!(1e300), json!(0), json!(-5), json!(u64::MAX), json!(1.5)][c.at as usize / 64 % 6].clone(),
                    Value::String(_) => json!(c.text),
                    Value::Array(_) => [json!([]), json!([c.text]), json!([[]]), json!([null])][c.at as usize / 64 % 4].clone(),
                    Value::Object(_) => [json!({}), json!({c.text.clone(): {}}), Value::Null][c.at as usize / 64 % 3].clone(),
                    _ => Value::Null,
                };
            }
            (format!("with another value of {}", p.join(".")), false)
        }
        _ => {
            // a first list entry that names no dataset, or several
            v["Evaluation"]["Datasets"][0] = if c.at % 2 == 0 { json!({}) } else { json!({"a": v["Evaluation"]["Datasets"][0].as_object().and_then(|m| m.values().next()).cloned(), "b": 1}) };
            ("with an odd dataset entry".to_string(), c.at % 2 == 1)
        }
    };
    let text = bytes.unwrap_or_else(|| write_yaml(&v, c.scn.style, c.scn.rev).into_bytes());
    std::fs::write(dir.join("scenario.yaml"), &text).map_err(|e| format!("{HARNESS}{e}"))?;
    let show = String::from_utf8_lossy(&text).into_owned();
    ctx.class(what.split(' ').next().unwrap_or(""));
    // paths with NUL are texts all the same
    let r = guard(&format!("loading a scenario {what}"), || PerceptionEvaluationConfig::from(path_str(&file).unwrap_or(""), path_str(&out).unwrap_or(""), false))
        .map_err(|e| format!("{e}\n{show}"))?;
    ctx.class(if r.is_ok() { "accepted" } else { "refused" });
    if let Err(e) = &r {
        let _ = (e.to_string(), format!("{e:?}"));
    }
    ensure!(!refuse || r.is_err(), "loading a scenario {what} gives no error\n{show}");
    ctx.nontrivial(c.kind % 12 != 8 && c.kind % 12 != 9);
    Ok(())
}
pub fn c24s() -> Vec<Sub> {
    let text = || {
        prop_oneof![
            2 => "[a-zA-Z_]{0,12}",
            1 => "\\PC{0,10}",
            1 => ("\\PC{1,2}", 1usize..150).prop_map(|(s, n)| s.repeat(n)),
            2 => proptest::sample::select(vec![
                "Detection ", "DETECTION", "detectio", "tracking2", "fp_validation", "classification", "sensing", "base link", "baselink", "BASE_LINK", "map ", "cam_fronts",
                "odom", "", "null", "detection", "base_link", "map",
            ]).prop_map(|s| s.to_string()),
            1 => "([a-z]: ?|- |\\[|\\]|\\{|\\}|&a |\\*a |!!str |\\||>|'|\"|\n| ){0,12}",
        ]
    };
    vec![sub(
        "load",
        40_000,
        20,
        8,
        move || {
            (scn(), 0u8..12, any::<u32>(), text(), proptest::collection::vec(any::<u8>(), 1..12))
                .prop_map(|(scn, kind, at, text, bytes)| BadScn { scn, kind, at, text, bytes })
        },
        c24,
    )]
}

// ---------------------------------------------------------------- C27

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum LogOp {
    /// directory, level
    Configure(u8, u8),
    /// load a scenario with this result directory: messages down to debug go to its log
    Load(u8),
    /// below a regular file
    Fail(u8),
    Log(u8, String),
    /// from several threads at once: level, messages each
    Burst(u8, u8),
    /// in the name of another module
    Named(u8, u8, String),
    /// several lines in one message
    Lines(u8, String, String),
    Trace(u8, String),
    /// the last message, again and again
    Again(u8),
    /// the directory is removed with what it holds; a log that went with it is configured again
    Delete(u8),
    /// a log of this many lines is there already
    Before(u8, u32),
}
const TARGETS: [&str; 6] = ["pv", "perception_eval", "perception_eval::dataset", "log4rs", "", "my app::\u{e9}"];
const PLACES: [&str; 4] = ["d0/log", "d1/deep er/\u{e9}/log", "d2/log", "d2"];
const LEVELS: [Level; 4] = [Level::Error, Level::Warn, Level::Info, Level::Debug];

fn c27(ops: &Vec<LogOp>, ctx: &mut Ctx) -> R {
    let dir = fresh_dir("c27");
    let place = |d: u8| dir.join(PLACES[d as usize % 4]);
    let scenario = dir.join("scenario.yaml");
    std::fs::write(&scenario, SCENARIO).map_err(|e| format!("{HARNESS}{e}"))?;
    let block = dir.join("regular");
    std::fs::write(&block, "x").map_err(|e| format!("{HARNESS}{e}"))?;
    let mut now: Option<(PathBuf, Level)> = None;
    // per file: lines (level, message); thread and index for those of a burst
    let mut want: BTreeMap<PathBuf, Vec<(Option<Level>, String)>> = BTreeMap::new();
    // per file: what it held at first
    let mut old: BTreeMap<PathBuf, String> = BTreeMap::new();
    let mut n = 0u32;
    let mut said: Option<(Level, Option<&str>, String)> = None;
    let (mut below, mut configured) = (false, 0);
    for op in ops {
        match op {
            LogOp::Configure(d, l) => {
                let l = LEVELS[*l as usize % 4];
                let d = place(*d);
                configure_logger(&d, l).map_err(|e| format!("configuring the log in {d:?} at {l} failed: {e}"))?;
                now = Some((d.join("output.log"), l));
                configured += 1;
            }
            LogOp::Load(d) => {
                let d = place(*d % 3);
                let root = d.parent().ok_or_else(|| format!("{HARNESS}parent"))?;
                PerceptionEvaluationConfig::from(path_str(&scenario)?, path_str(root)?, false).map_err(|e| format!("loading a valid scenario failed: {e}"))?;
                now = Some((d.join("output.log"), Level::Debug));
                configured += 1;
            }
            LogOp::Delete(d) => {
                let d = place(*d);
                if !d.exists() {
                    continue;
                }
                std::fs::remove_dir_all(&d).map_err(|e| format!("{HARNESS}{e}"))?;
                want.retain(|f, _| !f.starts_with(&d));
                old.retain(|f, _| !f.starts_with(&d));
                if let Some((f, l)) = now.as_ref().filter(|(f, _)| f.starts_with(&d)) {
                    let at = f.parent().ok_or_else(|| format!("{HARNESS}parent"))?;
                    configure_logger(at, *l).map_err(|e| format!("configuring the log in {at:?} again, after it was removed, failed: {e}"))?;
                    ctx.class("a log that was removed, configured again");
                }
            }
            LogOp::Before(d, k) => {
                let f = place(*d).join("output.log");
                if !f.exists() {
                    let text: String = (0..*k).map(|i| format!("INFO - before {i}\n")).collect();
                    std::fs::create_dir_all(place(*d)).and_then(|_| std::fs::write(&f, &text)).map_err(|e| format!("{HARNESS}{e}"))?;
                    ctx.class_if(text.len() > 100_000, "a log of more than 100 kB before");
                    ctx.class("a log before");
                    old.insert(f, text);
                }
            }
            LogOp::Fail(l) => {
                let r = configure_logger(&block.join("log"), LEVELS[*l as usize % 4]);
                ensure!(r.is_err(), "configuring the log below a regular file gives no error");
                let taken = dir.join("taken");
                std::fs::create_dir_all(taken.join("output.log")).map_err(|e| format!("{HARNESS}{e}"))?;
                let r = configure_logger(&taken, LEVELS[*l as usize % 4]);
                ensure!(r.is_err(), "configuring the log where its file is a directory gives no error");
            }
            LogOp::Log(l, text) => {
                let l = LEVELS[*l as usize % 4];
                n += 1;
                // ends in a mark, so that lines are recognised whole
                let msg = format!("msg-{n}-{text}-end");
                log::log!(l, "{msg}");
                said = Some((l, None, msg.clone()));
                if let Some((f, at)) = &now {
                    if l <= *at {
                        want.entry(f.clone()).or_default().push((Some(l), msg));
                    } else {
                        below = true;
                    }
                }
            }
            LogOp::Again(k) => {
                let Some((l, target, msg)) = &said else { continue };
                for _ in 0..*k {
                    match target {
                        Some(t) => log::log!(target: t, *l, "{msg}"),
                        None => log::log!(*l, "{msg}"),
                    }
                    if let Some((f, _)) = now.as_ref().filter(|(_, at)| l <= at) {
                        want.entry(f.clone()).or_default().push((Some(*l), msg.clone()));
                        ctx.class("the same message again");
                    }
                }
            }
            LogOp::Named(l, t, text) => {
                let l = LEVELS[*l as usize % 4];
                n += 1;
                let msg = format!("msg-{n}-{text}-end");
                log::log!(target: TARGETS[*t as usize % TARGETS.len()], l, "{msg}");
                said = Some((l, Some(TARGETS[*t as usize % TARGETS.len()]), msg.clone()));
                if let Some((f, _)) = now.as_ref().filter(|(_, at)| l <= *at) {
                    want.entry(f.clone()).or_default().push((Some(l), msg));
                    ctx.class("message of another module");
                }
            }
            LogOp::Lines(l, a, b) => {
                let l = LEVELS[*l as usize % 4];
                n += 1;
                let (a, b) = (format!("msg-{n}-{a}-end"), format!("msg-{n}-more-{b}-end"));
                log::log!(l, "{a}\n{b}");
                if let Some((f, _)) = now.as_ref().filter(|(_, at)| l <= *at) {
                    want.entry(f.clone()).or_default().extend([(Some(l), a), (None, b)]);
                    ctx.class("message of two lines");
                }
            }
            LogOp::Trace(t, text) => {
                n += 1;
                log::trace!(target: TARGETS[*t as usize % TARGETS.len()], "msg-{n}-{text}-end");
                log::trace!("msg-{n}-{text}-end");
                below = true;
            }
            LogOp::Burst(l, k) => {
                let l = LEVELS[*l as usize % 4];
                n += 1;
                std::thread::scope(|s| {
                    for t in 0..4 {
                        s.spawn(move || (0..*k).for_each(|i| log::log!(l, "msg-{n}-burst-{t}-{i}-end")));
                    }
                });
                if let Some((f, at)) = &now {
                    if l <= *at {
                        let w = want.entry(f.clone()).or_default();
                        (0..4).for_each(|t| (0..*k).for_each(|i| w.push((Some(l), format!("msg-{n}-burst-{t}-{i}-end")))));
                    }
                }
            }
        }
        // all files, after every step
        if matches!(op, LogOp::Configure(..) | LogOp::Log(..)) && ops.len() > 12 {
            continue;
        }
        check_logs(&dir, &want, &old, ops)?;
    }
    check_logs(&dir, &want, &old, ops)?;
    ctx.class_if(below, "message below the level");
    ctx.class_if(configured > 1, "configured several times");
    ctx.nontrivial(configured > 1 && below && !want.is_empty() || configured > 0 && !old.is_empty());
    Ok(())
}
fn check_logs(dir: &Path, want: &BTreeMap<PathBuf, Vec<(Option<Level>, String)>>, old: &BTreeMap<PathBuf, String>, ops: &[LogOp]) -> R {
    for d in PLACES {
        let f = dir.join(d).join("output.log");
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        if let Some(old) = old.get(&f) {
            ensure!(text.starts_with(old), "{f:?} lost what it held before ({} bytes) after {ops:?}", old.len());
        }
        // other messages (of the library itself) are not judged
        let mut got: Vec<&str> = text.lines().filter(|l| l.contains("msg-")).collect();
        let none = vec![];
        let w = want.get(&f).unwrap_or(&none);
        ensure!(got.len() == w.len(), "{f:?} holds the messages {got:?} instead of {w:?} after {ops:?}");
        // lines of a burst may be in any order between threads
        let key = |l: &str| {
            let m = &l[l.find("msg-").unwrap_or(0)..];
            if m.contains("-burst-") {
                let mut p = m.split('-').skip(3);
                let t: u32 = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                Some((m.split('-').nth(1).map(|x| x.to_string()), t))
            } else {
                None
            }
        };
        let mut i = 0;
        while i < got.len() {
            let mut j = i;
            while j < got.len() && key(got[j]).is_some() && key(got[j]).map(|k| k.0) == key(got[i]).map(|k| k.0) {
                j += 1;
            }
            if j > i {
                got[i..j].sort_by_key(|l| key(l));
            }
            i = j.max(i + 1);
        }
        for (l, (level, msg)) in got.iter().zip(w) {
            ensure!(*l == level.map_or(msg.clone(), |x| format!("{x} - {msg}")), "{f:?} holds {l:?} instead of {level:?} {msg:?} after {ops:?}");
        }
    }
    Ok(())
}
const SCENARIO: &str = "ScenarioFormatVersion: 3.0.0
ScenarioName: a
ScenarioDescription: a
SensorModel: a
VehicleModel: a
Evaluation:
  UseCaseName: perception
  UseCaseFormatVersion: 0.4.0
  Datasets:
    - some/where:
        Version: annotation
        VehicleId: default
        LaunchSensing: false
        LocalMapPath: map
  Conditions:
    PassRate: 99.0
  PerceptionEvaluationConfig:
    evaluation_config_dict:
      evaluation_task: detection
      frame_id: base_link
      target_labels: [car]
      max_x_position: 100.0
      max_y_position: 100.0
      center_distance_threshold: 1.0
      plane_distance_threshold: 2.0
      iou_2d_threshold: 0.5
      iou_3d_threshold: 0.5
";
pub fn c27s() -> Vec<Sub> {
    // a few words; at times a page or more
    let text = || prop_oneof![20 => "[ -~é]{0,12}", 1 => ("[ -~é]{1,12}", 1usize..4_000).prop_map(|(t, k)| t.repeat(k))];
    let op = move || {
        prop_oneof![
            2 => (0u8..4, 0u8..4).prop_map(|(d, l)| LogOp::Configure(d, l)),
            2 => (0u8..4, 0u8..6, text()).prop_map(|(l, k, t)| LogOp::Named(l, k, t.replace("msg-", ""))),
            1 => (0u8..4, text(), text()).prop_map(|(l, a, b)| LogOp::Lines(l, a.replace("msg-", ""), b.replace("msg-", ""))),
            1 => (0u8..6, "[ -~]{0,12}").prop_map(|(k, t)| LogOp::Trace(k, t.replace("msg-", ""))),
            1 => (0u8..3).prop_map(LogOp::Load),
            1 => (0u8..4).prop_map(LogOp::Fail),
            1 => (1u8..5).prop_map(LogOp::Again),
            1 => (0u8..4).prop_map(LogOp::Delete),
            1 => (0u8..4, 0u32..40).prop_map(|(d, k)| LogOp::Before(d, k)),
            8 => (0u8..4, text()).prop_map(|(l, t)| LogOp::Log(l, t.replace("msg-", ""))),
            1 => (0u8..4, 0u8..6).prop_map(|(l, k)| LogOp::Burst(l, k)),
        ]
    };
    let first = (0u8..4, 0u8..4).prop_map(|(d, l)| LogOp::Configure(d, l));
    // logs and messages of up to megabytes
    let large = move || {
        let size = || (0u32..18).prop_flat_map(|b| (1u32 << b)..=(1 << b) * 2);
        (
            proptest::collection::vec((0u8..4, size()).prop_map(|(d, k)| LogOp::Before(d, k)), 1..4),
            proptest::collection::vec(
                prop_oneof![
                    2 => (0u8..4, 0u8..4).prop_map(|(d, l)| LogOp::Configure(d, l)),
                    2 => (0u8..4, "[ -~]{1,9}", size()).prop_map(|(l, t, k)| LogOp::Log(l, t.replace("msg-", "").repeat(k as usize))),
                    1 => (1u8..9).prop_map(LogOp::Again),
                    1 => (0u8..3).prop_map(LogOp::Load),
                ],
                2..7,
            ),
        )
            .prop_map(|(mut l, more)| {
                l.extend(more);
                l
            })
    };
    // one shard: the log is global
    vec![sub(
        "session",
        2_500,
        20,
        1,
        move || {
            (first.clone(), proptest::collection::vec(op(), 0..30)).prop_map(|(f, mut l)| {
                l.insert(0, f);
                l
            })
        },
        c27,
    ), sub("large", 15, 20, 1, large, c27)]
}

// ---------------------------------------------------------------- C28

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct EndToEnd {
    pub ds: Ds,
    pub scn: Scn,
    /// per object: 0 reported, 1 dropped, 2 reported elsewhere
    pub fate: Vec<u8>,
    /// order of reporting, also of frames
    pub perm: Vec<u16>,
    pub wide: bool,
    pub off: i64,
}

fn c28(c: &EndToEnd, ctx: &mut Ctx) -> R {
    let mut ds = c.ds.clone();
    // every sample has exactly one lidar record at its time; frames are apart
    ds.sensors[0].0 = 1;
    ds.calibs[0].sensor = 0;
    for s in ds.scenes.iter_mut() {
        for (k, x) in s.samples.iter_mut().enumerate() {
            x.dt = x.dt.max(4_000);
            for (j, d) in x.sds.iter_mut().enumerate() {
                if j == 0 {
                    (d.calib, d.off, d.shared) = (0, 0, false);
                } else if d.off == 0 {
                    d.off = 1 + k as i64;
                }
            }
        }
        // no two objects in one place
        s.text.clear();
    }
    let mut last = None;
    for s in ds.scenes.iter_mut() {
        if let Some(l) = last {
            s.start = l + 1_000_000;
        }
        last = Some(s.start + s.samples.iter().skip(1).map(|x| x.dt).sum::<i64>());
    }
    let mut k = 0.0;
    for i in ds.instances.iter_mut() {
        for a in i.anns.iter_mut() {
            k += 1.0;
            a.pose.t[2] = k * 7.0;
        }
    }
    let r = ds.resolve();
    let dir = thread_dir("c28");
    write_tables(&dir, &ds.tables(&r));
    let mut s = c.scn.clone();
    s.task = 0;
    s.frame = 0;
    s.datasets = vec![(path_str(&dir)?.to_string(), VERSION.to_string())];
    s.uuids = None;
    // what is reported in place is near enough, what is reported elsewhere is not
    s.thresholds[..2].iter_mut().for_each(|t| *t = t.abs().clamp(1e-4, 500.0));
    if c.wide {
        s.max = (1e6, 1e6);
    }
    let file = write_scenario(&dir, s.text())?;
    let cfg =
        PerceptionEvaluationConfig::from(path_str(&file)?, path_str(&dir.join("result"))?, s.raw).map_err(|e| format!("loading a valid scenario failed: {e}\n{}", s.text()))?;
    let mut m = PerceptionEvaluationManager::from(&cfg).map_err(|e| format!("loading the dataset failed: {e}"))?;
    ensure!(m.frame_ground_truths.len() == r.samples.len(), "{} frames for {} samples", m.frame_ground_truths.len(), r.samples.len());
    // What is to be evaluated, from the model.
    let mut open = false;
    let mut expected: BTreeMap<u8, usize> = BTreeMap::new();
    for sample in &r.samples {
        let lidar = &r.sds[sample.sds[0]];
        let pose = &r.poses[lidar.pose].d;
        for a in &sample.anns {
            let an = &r.anns[*a];
            let (p, _) = into_frame(&an.d.pose.t, &an.d.pose.q(), &pose.t, &pose.q());
            open |= (p[0].abs() - s.max.0).abs() < 1e-6 || (p[1].abs() - s.max.1).abs() < 1e-6;
            let label = ds.cat_label(ds.instances[an.instance].cat as usize % ds.cats.len()) as u8;
            if s.targets.contains(&label) && p[0].abs() < s.max.0 && p[1].abs() < s.max.1 && s.min_pts.map_or(true, |n| an.d.lidar >= n) {
                *expected.entry(label).or_insert(0) += 1;
            }
        }
    }
    if open {
        ctx.class("at the limit, not judged");
        return Ok(());
    }
    // Report.
    let mut order: Vec<usize> = (0..m.frame_ground_truths.len()).collect();
    order.sort_by_key(|i| (c.perm[i % c.perm.len()], *i));
    let frames = m.frame_ground_truths.clone();
    let mut counts: BTreeMap<u8, [usize; 3]> = BTreeMap::new();
    let mut k = 0usize;
    for i in order {
        let f = &frames[i];
        let near = f.timestamp + chrono::Duration::microseconds(c.off);
        let found = m.get_frame_ground_truth(&near).ok_or_else(|| format!("no frame for {near}, though there is one at {}", f.timestamp))?;
        ensure!(found.timestamp == f.timestamp && found.objects.len() == f.objects.len(), "the frame found for {near} is that of {}", found.timestamp);
        let mut est: Vec<DynamicObject> = vec![];
        let (mut missing, mut moved) = (0, 0);
        // those that the scenario evaluates
        for o in filter_objects(&found.objects, true, &cfg.filter_params) {
            let mut fate = c.fate[k % c.fate.len()] % 3;
            k += 1;
            let l = LABELS.iter().position(|l| *l == o.label).unwrap_or(99) as u8;
            if fate == 2 && !c.wide {
                fate = 1;
            }
            counts.entry(l).or_default()[fate as usize] += 1;
            let mut e = o.clone();
            match fate {
                0 => e.confidence = 0.6 + 0.3 / (k as f64 + 1.0),
                1 => {
                    missing += 1;
                    continue;
                }
                _ => {
                    moved += 1;
                    e.confidence = 0.2 + 0.3 / (k as f64 + 1.0);
                    e.position[0] += 2e5;
                }
            }
            e.uuid = None;
            est.push(e);
        }
        let n = est.len().max(1);
        if c.perm[0] % 2 == 1 {
            est.rotate_left(c.perm[0] as usize % n);
        }
        m.add_frame_result(&est, &found).map_err(|e| format!("add_frame_result fails: {e}"))?;
        let last = m.frame_results.last().ok_or("no frame result is kept")?;
        ensure!(
            last.fn_objects().len() >= missing && last.fn_objects().len() <= missing + moved && last.results().len() == est.len(),
            "{} objects are missed in a frame where {missing} were not reported and {moved} elsewhere; {} results for {} estimates",
            last.fn_objects().len(),
            last.results().len(),
            est.len()
        );
        ctx.class_if(missing + moved == 0 && !est.is_empty(), "perfect frame");
    }
    for (l, n) in &expected {
        let got: usize = counts.get(l).map(|x| x.iter().sum()).unwrap_or(0);
        ensure!(got == *n, "{got} objects of {} are evaluated instead of {n}\n{}", LABEL_PRINT[*l as usize], s.text());
    }
    ensure!(counts.keys().all(|l| expected.contains_key(l)), "objects of {counts:?} are evaluated instead of {expected:?}");
    let sc = score(&m)?;
    for (mode, name) in [(0, "center"), (1, "plane")] {
        for (i, l) in s.targets.iter().enumerate() {
            let Some([ok, miss, moved]) = counts.get(l) else { continue };
            let want = *ok as f64 / (ok + miss + moved) as f64;
            let (ap, aph) = (sc.modes[mode].ap[i], sc.modes[mode].aph[i]);
            ensure!(
                (ap - want).abs() <= sc.tol && (aph - want).abs() <= sc.tol.max(1e-7),
                "AP {ap} and APH {aph} by {name} distance of {} instead of {want}: {ok} reported, {miss} not, {moved} elsewhere",
                LABEL_PRINT[*l as usize]
            );
            ctx.class(if *ok == 0 { "scored 0" } else if miss + moved == 0 { "scored 1" } else { "scored between" });
            ctx.nontrivial(ok + miss + moved > 1);
        }
    }
    Ok(())
}
pub fn c28s() -> Vec<Sub> {
    let o = DsOpts { scenes: 2, samples: 4, instances: 6, anns: 5, distinct: true, some: true, sds: 3, wide: false };
    vec![sub(
        "evaluate",
        5_000,
        20,
        8,
        move || {
            (
                ds::ds(o),
                (scn(), proptest::sample::subsequence((0..8).collect::<Vec<u8>>(), 2..=8).prop_shuffle()),
                prop_oneof![2 => Just(vec![0u8]), 1 => Just(vec![1u8]), 4 => proptest::collection::vec(0u8..3, 5..30)],
                proptest::collection::vec(any::<u16>(), 8),
                any::<bool>(),
                prop_oneof![3 => Just(0i64), 1 => -400i64..400],
            )
                .prop_map(|(ds, (mut scn, targets), fate, perm, wide, off)| {
                    scn.targets = targets;
                    EndToEnd { ds, scn, fate, perm, wide, off }
                })
        },
        c28,
    )]
}
