//! C17-C20: loading datasets, rejecting bad ones, ground truth frames, boxes of sensor data.
use crate::ds::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::{micros, LABELS};
use crate::refm::{self, add, close, close3, conj, minus, qmul, qrot, same_q, Q, V3};
use chrono::{NaiveDate, NaiveDateTime};
use perception_eval::config::{FilterParams, MetricsParams, PerceptionEvaluationConfig};
use perception_eval::dataset::{load_dataset, FrameGroundTruth};
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::dataset::nuscenes::schema::{Channel, FileFormat, LongToken, Modality, VisibilityLevel};
use perception_eval::dataset::nuscenes::{r#box::NuScenesBox, NuScenes};
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Read;
use std::path::{Path, PathBuf};

fn num(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs()).max(1e-290)
}
fn nums(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| num(*x, *y))
}
/// The time is exactly the one written: whole microseconds are exact in the file's numbers.
pub fn same_time(t: &NaiveDateTime, us: i64) -> bool {
    *t == micros(us)
}

/// Token text to index, for the records of a table.
struct Index(HashMap<String, usize>);
impl Index {
    fn new(ds: &Ds, table: &str, n: usize) -> Self {
        Index((0..n).map(|i| (ds.token(table, i), i)).collect())
    }
    fn of(&self, t: impl ToString, what: &str) -> Result<usize, String> {
        let t = t.to_string();
        self.0.get(&t).copied().ok_or_else(|| format!("{what}: token {t} is not in the files"))
    }
}

/// Checks that `seen` is each of 0..n (or of the given set) exactly once.
fn once(what: &str, mut seen: Vec<usize>, mut want: Vec<usize>) -> R {
    seen.sort();
    want.sort();
    same_list(what, &seen, &want)
}
fn same_list(what: &str, seen: &[usize], want: &[usize]) -> R {
    if seen.len().max(want.len()) > 200 {
        let at = seen.iter().zip(want).position(|(a, b)| a != b).unwrap_or(seen.len().min(want.len()));
        ensure!(seen == want, "{what}: {} records instead of {}, different from position {at} on", seen.len(), want.len());
    }
    ensure!(seen == want, "{what}: records {seen:?} instead of {want:?}");
    Ok(())
}
fn seq(what: &str, seen: &[usize], want: &[usize]) -> R {
    same_list(what, seen, want)
}

fn fail<E: std::fmt::Display>(what: &str) -> impl Fn(E) -> String + '_ {
    move |e| format!("{what} failed: {e}")
}

fn modality(m: &Modality) -> &'static str {
    match m {
        Modality::Camera => "camera",
        Modality::Lidar => "lidar",
        Modality::Radar => "radar",
    }
}
pub fn channel(c: &Channel) -> usize {
    match c {
        Channel::CamBack => 0,
        Channel::CamBackLeft => 1,
        Channel::CamBackRight => 2,
        Channel::CamFront => 3,
        Channel::CamFrontLeft => 4,
        Channel::CamFrontRight => 5,
        Channel::CamFrontZoomed => 6,
        Channel::LidarTop => 7,
        Channel::RadarBackLeft => 8,
        Channel::RadarBackRight => 9,
        Channel::RadarFront => 10,
        Channel::RadarFrontLeft => 11,
        Channel::RadarFrontRight => 12,
        Channel::CamTrafficLightNear => 13,
        Channel::CamTrafficLightFar => 14,
    }
}
pub fn level(l: &VisibilityLevel) -> usize {
    match l {
        VisibilityLevel::None => 0,
        VisibilityLevel::Partial => 1,
        VisibilityLevel::Most => 2,
        VisibilityLevel::Full => 3,
    }
}
fn format_of(f: &FileFormat) -> usize {
    match f {
        FileFormat::Bin => 0,
        FileFormat::Jpeg => 1,
        FileFormat::Png => 2,
    }
}

// ---------------------------------------------------------------- C17

/// The harness is built so if it only compiles without these iterators.
#[cfg(not(feature = "iters"))]
pub fn c17_load(_: &Ds, _: &mut Ctx) -> R {
    Err("the instances, maps or visibilities cannot be iterated: the harness compiles only without it".into())
}
#[cfg(feature = "iters")]
pub fn c17_load(ds: &Ds, ctx: &mut Ctx) -> R {
    let r = ds.resolve();
    let dir = thread_dir("c17");
    write_tables(&dir, &ds.tables(&r));
    let there = |f: &str| text_hash(f) % 2 == 0;
    std::fs::create_dir_all(dir.join("d")).map_err(|e| format!("{HARNESS}{e}"))?;
    for f in ds.logs.iter().filter_map(|l| l.file.as_ref()).filter(|f| there(f)) {
        std::fs::write(dir.join(f), f).map_err(|e| format!("{HARNESS}{e}"))?;
    }
    let nu = NuScenes::load(VERSION, &dir).map_err(fail("loading a consistent dataset"))?;
    ensure!(nu.version() == VERSION && nu.dir() == dir.as_path(), "version {:?} dir {:?}", nu.version(), nu.dir());

    let idx = |t: &str, n: usize| Index::new(ds, t, n);
    let (i_attr, i_cal, i_cat, i_pose) = (idx("attribute", ds.attrs as usize), idx("calibrated_sensor", ds.calibs.len()), idx("category", ds.cats.len()), idx("ego_pose", r.poses.len()));
    let (i_inst, i_log, i_map, i_sample) = (idx("instance", ds.instances.len()), idx("log", ds.logs.len()), idx("map", ds.maps.len()), idx("sample", r.samples.len()));
    let (i_ann, i_sd, i_scene, i_sensor) = (idx("sample_annotation", r.anns.len()), idx("sample_data", r.sds.len()), idx("scene", ds.scenes.len()), idx("sensor", ds.sensors.len()));
    let range = |n: usize| (0..n).collect::<Vec<_>>();

    let mut seen = vec![];
    for a in nu.attribute_iter() {
        let i = i_attr.of(&a.token, "attribute")?;
        ensure!(a.name == format!("attr.{i}") && a.description == format!("Attribute {i} \u{e9}"), "attribute {i}: {:?}", *a);
        seen.push(i);
    }
    once("attributes", seen, range(ds.attrs as usize))?;

    let mut seen = vec![];
    for c in nu.calibrated_sensor_iter() {
        let i = i_cal.of(&c.token, "calibrated sensor")?;
        let d = &ds.calibs[i];
        ensure!(nums(&c.rotation, &d.pose.q()) && nums(&c.translation, &d.pose.t), "calibrated sensor {i}: {:?} is not {:?}", *c, d);
        let same = match (&c.camera_intrinsic, &d.intrinsic) {
            (None, None) => true,
            (Some(m), Some(v)) => nums(&m[0], &[v[0], 0.0, v[1]]) && nums(&m[1], &[0.0, v[0] + 0.5, v[2]]) && nums(&m[2], &[0.0, 0.25, 1.0]),
            _ => false,
        };
        ensure!(same, "calibrated sensor {i}: intrinsic {:?} is not {:?}", c.camera_intrinsic, d.intrinsic);
        let s = i_sensor.of(&c.sensor().token, "sensor of a calibrated sensor")?;
        ensure!(s == ds.sensor_of(i) && c.sensor_token == c.sensor().token, "calibrated sensor {i} refers to sensor {s}");
        seen.push(i);
    }
    once("calibrated sensors", seen, range(ds.calibs.len()))?;

    let mut seen = vec![];
    for c in nu.category_iter() {
        let i = i_cat.of(&c.token, "category")?;
        ensure!(c.name == ds.cat_name(i) && c.description == format!("category {i}"), "category {i}: {:?}", *c);
        seen.push(i);
    }
    once("categories", seen, range(ds.cats.len()))?;

    let mut seen = vec![];
    for p in nu.ego_pose_iter() {
        let i = i_pose.of(&p.token, "ego pose")?;
        let d = &r.poses[i];
        ensure!(nums(&p.rotation, &d.d.q()) && nums(&p.translation, &d.d.t) && same_time(&p.timestamp, d.time), "ego pose {i}: {:?} is not {:?} at {}", *p, d.d, d.time);
        seen.push(i);
    }
    ensure!(seen.windows(2).all(|w| r.poses[w[0]].time <= r.poses[w[1]].time), "ego poses are not in time order: {seen:?}");
    once("ego poses", seen, range(r.poses.len()))?;

    let mut seen = vec![];
    for x in nu.instance_iter() {
        let i = i_inst.of(&x.token, "instance")?;
        let cat = i_cat.of(&x.category().token, "category of an instance")?;
        ensure!(cat == ds.instances[i].cat as usize % ds.cats.len() && x.category_token == x.category().token, "instance {i} has category {cat}");
        let mut chain = vec![];
        for a in x.sample_annotation_iter() {
            chain.push(i_ann.of(&a.token, "annotation of an instance")?);
        }
        seq(&format!("annotations of instance {i}"), &chain, &r.inst_anns[i])?;
        seen.push(i);
    }
    once("instances", seen, (0..ds.instances.len()).filter(|i| !r.inst_anns[*i].is_empty()).collect())?;

    let check_log = |l: &perception_eval::dataset::nuscenes::schema::Log| -> Result<usize, String> {
        let i = i_log.of(&l.token, "log")?;
        let d = &ds.logs[i];
        let date = d.date.and_then(|(y, m, d)| NaiveDate::from_ymd_opt(y, m, d));
        ensure!(
            l.date_captured == date && l.location == d.location && l.vehicle == d.vehicle && l.logfile == d.file.as_ref().map(PathBuf::from),
            "log {i}: {l:?} is not {d:?}"
        );
        Ok(i)
    };
    let mut seen = vec![];
    for l in nu.log_iter() {
        let i = check_log(&l)?;
        match (&ds.logs[i].file, l.open()) {
            (None, Ok(None)) => {}
            (Some(f), Err(_)) if !there(f) => {}
            (Some(f), Ok(Some(h))) if there(f) && read_all(&h) == *f => {}
            (f, o) => return Err(format!("opening log {i} with file {f:?} gives {o:?}")),
        }
        seen.push(i);
    }
    once("logs", seen, range(ds.logs.len()))?;

    let mut seen = vec![];
    for m in nu.map_iter() {
        let i = i_map.of(&m.token, "map")?;
        ensure!(m.filename == Path::new(&ds.map_file(i)) && m.category == format!("semantic_prior_{i}"), "map {i}: {:?}", *m);
        ensure!(m.log_tokens.len() == ds.maps[i].len(), "map {i} has {} log tokens", m.log_tokens.len());
        let mut logs = vec![];
        for l in m.log_iter() {
            logs.push(check_log(&l)?);
        }
        let want: Vec<usize> = ds.maps[i].iter().flatten().map(|l| *l as usize % ds.logs.len()).collect();
        ctx.class_if(want.len() < ds.maps[i].len(), "map with missing log");
        seq(&format!("logs of map {i}"), &logs, &want)?;
        seen.push(i);
    }
    once("maps", seen, range(ds.maps.len()))?;

    let mut seen = vec![];
    for s in nu.sample_iter() {
        let i = i_sample.of(&s.token, "sample")?;
        let d = &r.samples[i];
        ensure!(same_time(&s.timestamp, d.time), "sample {i} is at {} instead of {} us", s.timestamp, d.time);
        let scene = i_scene.of(&s.scene().token, "scene of a sample")?;
        ensure!(scene == d.scene && s.scene_token == s.scene().token, "sample {i} has scene {scene}");
        let of = |t: Option<String>| t.map(|t| i_sample.of(t, "linked sample")).transpose();
        let (prev, next) = (of(s.prev().map(|x| x.token.to_string()))?, of(s.next().map(|x| x.token.to_string()))?);
        ensure!(prev == d.prev && next == d.next, "sample {i} is linked to {prev:?} and {next:?} instead of {:?} and {:?}", d.prev, d.next);
        let mut anns = vec![];
        for a in s.sample_annotation_iter() {
            anns.push(i_ann.of(&a.token, "annotation of a sample")?);
        }
        once(&format!("annotations of sample {i}"), anns, d.anns.clone())?;
        let mut sds = vec![];
        for a in s.sample_data_iter() {
            sds.push(i_sd.of(&a.token, "sensor data of a sample")?);
        }
        once(&format!("sensor data of sample {i}"), sds, d.sds.clone())?;
        seen.push(i);
    }
    ensure!(seen.windows(2).all(|w| r.samples[w[0]].time <= r.samples[w[1]].time), "samples are not in time order: {seen:?}");
    once("samples", seen, range(r.samples.len()))?;

    let mut seen = vec![];
    for a in nu.sample_annotation_iter() {
        let i = i_ann.of(&a.token, "annotation")?;
        let d = &r.anns[i];
        ensure!(
            a.num_lidar_pts == d.d.lidar && a.num_radar_pts == d.d.radar && nums(&a.size, &d.d.size) && nums(&a.rotation, &d.d.pose.q()) && nums(&a.translation, &d.d.pose.t),
            "annotation {i}: {:?} is not {:?}",
            *a,
            d.d
        );
        ensure!(a.visibility_token == d.vis.map(|v| ds.vis_token(v)), "annotation {i}: visibility {:?} instead of {:?}", a.visibility_token, d.vis);
        let (s, x) = (i_sample.of(&a.sample().token, "sample of an annotation")?, i_inst.of(&a.instance().token, "instance of an annotation")?);
        ensure!(s == d.sample && x == d.instance && a.sample_token == a.sample().token && a.instance_token == a.instance().token, "annotation {i} has sample {s}, instance {x}");
        let mut attrs = vec![];
        for t in a.attribute_iter() {
            attrs.push(i_attr.of(&t.token, "attribute of an annotation")?);
        }
        seq(&format!("attributes of annotation {i}"), &attrs, &d.attrs)?;
        let of = |t: Option<String>| t.map(|t| i_ann.of(t, "linked annotation")).transpose();
        let (prev, next) = (of(a.prev().map(|x| x.token.to_string()))?, of(a.next().map(|x| x.token.to_string()))?);
        ensure!(prev == d.prev && next == d.next, "annotation {i} is linked to {prev:?} and {next:?} instead of {:?} and {:?}", d.prev, d.next);
        seen.push(i);
    }
    once("annotations", seen, range(r.anns.len()))?;

    let mut seen = vec![];
    for a in nu.sample_data_iter() {
        let i = i_sd.of(&a.token, "sensor data")?;
        let d = &r.sds[i];
        ensure!(
            format_of(&a.fileformat) == d.fmt && a.is_key_frame == d.key && a.filename == Path::new(&d.filename) && same_time(&a.timestamp, d.time),
            "sensor data {i}: {:?} is not format {} key {} file {} time {}",
            *a,
            d.fmt,
            d.key,
            d.filename,
            d.time
        );
        let s = i_sample.of(&a.sample().token, "sample of sensor data")?;
        let p = i_pose.of(&a.ego_pose().token, "ego pose of sensor data")?;
        let c = i_cal.of(&a.calibrated_sensor().token, "calibration of sensor data")?;
        ensure!(s == d.sample && p == d.pose && c == d.calib, "sensor data {i} has sample {s}, pose {p}, calibration {c} instead of {} {} {}", d.sample, d.pose, d.calib);
        ensure!(
            a.sample_token == a.sample().token && a.ego_pose_token == a.ego_pose().token && a.calibrated_sensor_token == a.calibrated_sensor().token,
            "sensor data {i}: tokens differ from the records they lead to"
        );
        let of = |t: Option<String>| t.map(|t| i_sd.of(t, "linked sensor data")).transpose();
        let (prev, next) = (of(a.prev().map(|x| x.token.to_string()))?, of(a.next().map(|x| x.token.to_string()))?);
        ensure!(prev == d.prev && next == d.next, "sensor data {i} is linked to {prev:?} and {next:?} instead of {:?} and {:?}", d.prev, d.next);
        seen.push(i);
    }
    ensure!(seen.windows(2).all(|w| r.sds[w[0]].time <= r.sds[w[1]].time), "sensor data are not in time order: {seen:?}");
    once("sensor data", seen, range(r.sds.len()))?;

    let mut seen = vec![];
    for s in nu.scene_iter() {
        let i = i_scene.of(&s.token, "scene")?;
        let d = &ds.scenes[i];
        ensure!(s.name == d.text && s.description == format!("{} (scene {i})", d.text), "scene {i}: {:?}", *s);
        let l = check_log(&s.log())?;
        ensure!(l == d.log as usize % ds.logs.len() && s.log_token == s.log().token, "scene {i} has log {l}");
        let mut chain = vec![];
        for x in s.sample_iter() {
            chain.push(i_sample.of(&x.token, "sample of a scene")?);
        }
        seq(&format!("samples of scene {i}"), &chain, &r.scene_samples[i])?;
        seen.push(i);
    }
    // (of scenes whose samples are not in time order it is not said which of them counts)
    if ds.scenes.iter().all(|s| s.samples.iter().skip(1).all(|x| x.dt >= 0)) {
        ensure!(seen.windows(2).all(|w| ds.scenes[w[0]].start <= ds.scenes[w[1]].start), "scenes are not in time order: {seen:?}");
    } else {
        ctx.class("samples that lead back in time");
    }
    once("scenes", seen, range(ds.scenes.len()))?;

    let mut seen = vec![];
    for s in nu.sensor_iter() {
        let i = i_sensor.of(&s.token, "sensor")?;
        let (m, c) = ds.sensors[i];
        ensure!(modality(&s.modality) == MODALITIES[m as usize % 3] && channel(&s.channel) == c as usize % 15, "sensor {i}: {:?}", *s);
        seen.push(i);
    }
    once("sensors", seen, range(ds.sensors.len()))?;

    let mut seen = vec![];
    for v in nu.visibility_iter() {
        let i = (0..ds.vis.len()).find(|i| ds.vis_token(*i) == v.token).ok_or_else(|| format!("visibility token {:?}", v.token))?;
        ensure!(level(&v.level) == ds.vis[i] as usize % 4 && v.description == format!("visibility {i}"), "visibility {i}: {:?}", *v);
        seen.push(i);
    }
    once("visibilities", seen, range(ds.vis.len()))?;

    let bare = r.samples.iter().any(|s| s.anns.is_empty());
    ctx.class_if(bare, "sample without annotations");
    ctx.class_if(ds.scenes.len() > 1, "several scenes");
    ctx.class_if(r.inst_anns.iter().any(|l| l.len() > 2), "instance chain longer than 2");
    ctx.class_if(ds.scenes.is_empty(), "no scenes");
    ctx.nontrivial(r.samples.len() > 1 && r.anns.len() > 1);
    Ok(())
}

/// One instance with very many annotations, one scene with very many samples.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Deep {
    pub ds: Ds,
    pub anns: usize,
    pub samples: usize,
}
fn c17_deep(d: &Deep, ctx: &mut Ctx) -> R {
    let mut ds = d.ds.clone();
    let some = |what: &str| format!("{HARNESS}no {what}");
    let sc = ds.scenes.first_mut().ok_or_else(|| some("scenes"))?;
    let like = sc.samples.clone();
    sc.samples = (0..d.samples.max(1)).map(|i| like[i % like.len()].clone()).collect();
    let inst = ds.instances.first_mut().ok_or_else(|| some("instances"))?;
    let like = inst.anns.clone();
    inst.anns = (0..d.anns.max(1)).map(|i| AnnD { sample: (i % 60_013) as u16, ..like[i % like.len()].clone() }).collect();
    ctx.class_if(d.anns > 10_000, "instance of more than 10000 annotations");
    ctx.class_if(d.samples > 5_000, "scene of more than 5000 samples");
    // on the stack that a thread has by default
    std::thread::scope(|s| match std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || c17_load(&ds, ctx)) {
        Ok(h) => h.join().unwrap_or_else(|e| std::panic::resume_unwind(e)),
        Err(e) => Err(format!("{HARNESS}{e}")),
    })
}

pub fn c17s() -> Vec<Sub> {
    let o = DsOpts { scenes: 3, samples: 4, instances: 4, anns: 4, distinct: false, some: false, sds: 3, wide: false };
    let big = DsOpts { scenes: 6, samples: 12, instances: 12, anns: 10, distinct: false, some: true, sds: 3, wide: false };
    let wide = DsOpts { scenes: 3, samples: 4, instances: 6, anns: 5, distinct: false, some: false, sds: 8, wide: true };
    let huge = DsOpts { scenes: 4, samples: 60, instances: 80, anns: 60, distinct: false, some: true, sds: 6, wide: true };
    vec![
        sub("load", 4_000, 12, 8, move || ds(o), c17_load), sub("large", 240, 12, 8, move || ds(big), c17_load),
        sub("wide", 2_000, 12, 8, move || ds(wide), c17_load),
        sub("huge", 16, 12, 8, move || ds(huge), c17_load),
        few("deep", 3, 4, 3, move || (ds(DsOpts { instances: 2, some: true, samples: 2, ..o }).prop_filter("an instance", |d| !d.instances.is_empty()), 20_000usize..40_000, 5_000usize..15_000)
            .prop_map(|(ds, anns, samples)| Deep { ds, anns, samples }).no_shrink(), c17_deep),
    ]
}

// ---------------------------------------------------------------- C18

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Mut {
    pub table: u8,
    pub rec: u16,
    pub field: u8,
    pub kind: u8,
    pub val: u32,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Bad {
    pub ds: Ds,
    pub muts: Vec<Mut>,
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Verdict {
    Accept,
    Reject,
    Unjudged,
}

fn apply(tables: &mut [Value], m: &Mut, ds: &Ds) {
    let all: Vec<Vec<String>> = tables
        .iter()
        .map(|t| t.as_array().map(|a| a.iter().filter_map(|r| r["token"].as_str().map(str::to_string)).collect()).unwrap_or_default())
        .collect();
    let t = m.table as usize % TABLES.len();
    // weight towards the structural tables
    let Some(list) = tables[t].as_array_mut() else { return };
    if list.is_empty() {
        return;
    }
    let k = m.rec as usize % list.len();
    match m.kind {
        0 => {
            list.remove(k);
            return;
        }
        1 => {
            let r = list[k].clone();
            list.push(r);
            return;
        }
        7 => {
            // one more record, that no chain reaches, with at most one bad link
            let mut r = list[k].clone();
            if let Some(o) = r.as_object_mut() {
                o.insert("token".into(), json!(ds.stray(900_000 + m.val as usize % 1000)));
                let keys: Vec<String> = o.keys().filter(|k| k.ends_with("_token") || *k == "prev" || *k == "next").cloned().collect();
                if m.val / 1000 % 2 == 0 {
                    for f in ["prev", "next"] {
                        if o.contains_key(f) {
                            o.insert(f.into(), json!(""));
                        }
                    }
                }
                if m.val / 2000 % 8 != 0 && !keys.is_empty() {
                    o.insert(keys[m.field as usize % keys.len()].clone(), json!(ds.stray(m.val as usize)));
                }
            }
            let at = m.val as usize / 16_000 % (list.len() + 1);
            list.insert(at, r);
            // sensor data of a further sample
            if TABLES[t] == "sample" {
                if let Some(l) = TABLES.iter().position(|n| *n == "sample_data").and_then(|i| tables[i].as_array_mut()) {
                    if let Some(mut d) = l.last().cloned().filter(Value::is_object) {
                        d["token"] = json!(ds.stray(910_000 + m.val as usize % 1000));
                        d["sample_token"] = json!(ds.stray(900_000 + m.val as usize % 1000));
                        d["prev"] = json!("");
                        d["next"] = json!("");
                        l.push(d);
                    }
                }
            }
            return;
        }
        2 => {
            tables[t] = match m.val % 6 {
                0 => json!({}),
                1 => json!(null),
                2 => json!("x"),
                3 => json!([1, 2]),
                4 => json!([{}]),
                _ => json!([]),
            };
            return;
        }
        _ => {}
    }
    let Some(o) = list[k].as_object_mut() else { return };
    let keys: Vec<String> = o.keys().cloned().collect();
    if keys.is_empty() {
        return;
    }
    let links: Vec<String> = keys.iter().filter(|k| k.contains("token") || *k == "prev" || *k == "next").cloned().collect();
    match m.kind {
        3 => {
            o.remove(&keys[m.field as usize % keys.len()]);
        }
        4 => {
            let f = &keys[m.field as usize % keys.len()];
            let v = match m.val % 16 {
                0 => json!(null),
                1 => json!(-1),
                2 => json!(1e300),
                3 => json!("zz"),
                4 => json!([]),
                5 => json!({}),
                6 => json!(true),
                7 => json!([1.0, 2.0, 3.0]),
                8 => json!([1.0, 2.0, 3.0, 4.0]),
                9 => json!([[1.0, 2.0, 3.0], [1.0, 2.0, 3.0]]),
                10 => json!(0),
                11 => json!(""),
                12 => json!(1.5),
                13 => json!([[1.0, 2.0, 3.0], [1.0, 2.0, 3.0], [0.0, 0.0, 1.0]]),
                14 => json!(u64::MAX),
                _ => json!(-1e300),
            };
            o.insert(f.clone(), v);
        }
        5 => {
            // counts
            for f in ["nbr_samples", "nbr_annotations"] {
                if let Some(n) = o.get(f).and_then(Value::as_u64) {
                    o.insert(f.into(), json!([n + 1, n.saturating_sub(1), 0, n + 7][m.val as usize % 4]));
                }
            }
        }
        _ => {
            // a link: to no record, to another record of some table, to nothing
            if links.is_empty() {
                return;
            }
            let f = links[m.field as usize % links.len()].clone();
            let target = match f.as_str() {
                "prev" | "next" | "token" => t,
                "first_annotation_token" | "last_annotation_token" => 8,
                "first_sample_token" | "last_sample_token" => 7,
                "attribute_tokens" => 0,
                "log_tokens" => 5,
                x => TABLES.iter().position(|n| format!("{n}_token") == x).unwrap_or(t),
            };
            let pick = |tab: usize| {
                let l = &all[tab];
                if l.is_empty() {
                    ds.stray(m.val as usize)
                } else {
                    l[(m.val / 8) as usize % l.len()].clone()
                }
            };
            let v = match m.val % 8 {
                0 | 1 => ds.stray(m.val as usize),
                2 => String::new(),
                3 => pick(t),
                4 => "0123456789abcdef".into(),
                _ => pick(target),
            };
            if f.ends_with("_tokens") {
                let mut l = o[&f].as_array().cloned().unwrap_or_default();
                l.push(json!(v));
                o.insert(f, Value::Array(l));
            } else {
                o.insert(f, json!(v));
            }
        }
    }
}

fn is_token(v: &Value) -> bool {
    v.as_str().is_some_and(|s| s.len() == 32 && s.bytes().all(|b| b.is_ascii_hexdigit()))
}
fn tok(v: &Value) -> String {
    v.as_str().unwrap_or("").to_ascii_lowercase()
}

/// Whether a record is of its table's format.
fn well_formed(table: &str, v: &Value) -> Verdict {
    use Verdict::*;
    let Some(o) = v.as_object() else {
        // An array with all fields in order is read as well; that is not judged.
        return if v.as_array().is_some_and(|a| a.len() > 2) { Unjudged } else { Reject };
    };
    let get = |f: &str| o.get(f).unwrap_or(&Value::Null);
    let s = |f: &str| get(f).is_string();
    let token = |f: &str| is_token(get(f));
    let opt = |f: &str| get(f) == "" || token(f);
    let count = |f: &str| get(f).is_u64();
    let vec = |f: &str, n: usize| get(f).as_array().is_some_and(|a| a.len() == n && a.iter().all(Value::is_number));
    let list = |f: &str| get(f).as_array().is_some_and(|a| a.iter().all(is_token));
    let time = |f: &str| get(f).is_number();
    let one = |f: &str, l: &[&str]| get(f).as_str().is_some_and(|x| l.contains(&x));
    let mut odd = false;
    let ok = match table {
        "attribute" | "category" => token("token") && s("name") && s("description"),
        "calibrated_sensor" => {
            let intr = get("camera_intrinsic").as_array().is_some_and(|a| a.is_empty() || (a.len() == 3 && a.iter().all(|r| r.as_array().is_some_and(|r| r.len() == 3 && r.iter().all(Value::is_number)))));
            token("token") && token("sensor_token") && vec("rotation", 4) && vec("translation", 3) && intr
        }
        "ego_pose" => token("token") && time("timestamp") && vec("rotation", 4) && vec("translation", 3),
        "instance" => token("token") && count("nbr_annotations") && token("category_token") && token("first_annotation_token") && token("last_annotation_token"),
        "log" => {
            let date = match get("date_captured") {
                Value::Null => true,
                Value::String(d) => {
                    let ok = d.parse::<NaiveDate>().is_ok();
                    odd |= !ok && !d.chars().all(|c| c.is_ascii_alphabetic());
                    ok || odd
                }
                _ => false,
            };
            date && token("token") && s("location") && s("vehicle") && s("logfile")
        }
        "map" => token("token") && list("log_tokens") && s("filename") && s("category"),
        "sample" => token("token") && opt("prev") && opt("next") && token("scene_token") && time("timestamp"),
        "sample_annotation" => {
            token("token")
                && count("num_lidar_pts")
                && count("num_radar_pts")
                && vec("size", 3)
                && vec("rotation", 4)
                && vec("translation", 3)
                && token("sample_token")
                && token("instance_token")
                && list("attribute_tokens")
                && s("visibility_token")
                && opt("prev")
                && opt("next")
        }
        "sample_data" => {
            token("token")
                && one("fileformat", &["bin", "pcd", "jpeg", "jpg", "png"])
                && get("is_key_frame").is_boolean()
                && s("filename")
                && time("timestamp")
                && token("sample_token")
                && token("ego_pose_token")
                && token("calibrated_sensor_token")
                && opt("prev")
                && opt("next")
        }
        "scene" => token("token") && s("name") && s("description") && token("log_token") && count("nbr_samples") && token("first_sample_token") && token("last_sample_token"),
        "sensor" => token("token") && one("modality", &MODALITIES) && (one("channel", &CHANNELS) || get("channel") == "LIDAR_CONCAT"),
        _ => s("token") && s("description") && one("level", &["v0-40", "none", "v40-60", "partial", "v60-80", "most", "v80-100", "full"]),
    };
    if !ok {
        return Reject;
    }
    // Times that cannot be represented may be rejected or not.
    if o.get("timestamp").is_some_and(|t| t.as_f64().is_none_or(|x| !(0.0..4e15).contains(&x))) {
        odd = true;
    }
    if odd {
        Unjudged
    } else {
        Accept
    }
}

fn verdict(tables: &[Value]) -> (Verdict, &'static str) {
    use Verdict::*;
    let mut maps: Vec<HashMap<String, &Value>> = Vec::new();
    let (mut unjudged, mut why) = (false, "");
    let mut dup = false;
    for (name, t) in TABLES.iter().zip(tables) {
        let Some(l) = t.as_array() else { return (Reject, "table is not a list") };
        let mut m = HashMap::new();
        for r in l {
            match well_formed(name, r) {
                Reject => return (Reject, "ill-formed record"),
                Unjudged => unjudged = true,
                Accept => {}
            }
            let key = if *name == "visibility" { r["token"].as_str().unwrap_or("").to_string() } else { tok(&r["token"]) };
            dup |= m.insert(key, r).is_some();
        }
        maps.push(m);
    }
    if dup {
        return (Unjudged, "two records with one token");
    }
    if unjudged {
        return (Unjudged, "unusual field");
    }
    let of = |t: &str| &maps[TABLES.iter().position(|n| *n == t).unwrap_or(0)];
    let has = |t: &str, v: &Value| of(t).contains_key(&tok(v));
    let opt = |t: &str, v: &Value| v == "" || has(t, v);
    for c in of("calibrated_sensor").values() {
        if !has("sensor", &c["sensor_token"]) {
            return (Reject, "calibration without sensor");
        }
    }
    for s in of("sample").values() {
        if !has("scene", &s["scene_token"]) || !opt("sample", &s["prev"]) || !opt("sample", &s["next"]) {
            return (Reject, "dangling link of a sample");
        }
    }
    for a in of("sample_annotation").values() {
        let vis = a["visibility_token"].as_str().unwrap_or("");
        if !has("sample", &a["sample_token"])
            || !has("instance", &a["instance_token"])
            || !opt("sample_annotation", &a["prev"])
            || !opt("sample_annotation", &a["next"])
            || !(vis.is_empty() || of("visibility").contains_key(vis))
            || !a["attribute_tokens"].as_array().is_some_and(|l| l.iter().all(|t| has("attribute", t)))
        {
            return (Reject, "dangling link of an annotation");
        }
    }
    for d in of("sample_data").values() {
        if !has("sample", &d["sample_token"])
            || !has("ego_pose", &d["ego_pose_token"])
            || !has("calibrated_sensor", &d["calibrated_sensor_token"])
            || !opt("sample_data", &d["prev"])
            || !opt("sample_data", &d["next"])
        {
            return (Reject, "dangling link of sensor data");
        }
    }
    // chains; None: inconsistent
    let chain = |table: &str, owner: &Value, first: &str, last: &str, count: &str| -> Option<Vec<String>> {
        let m = of(table);
        let mut out: Vec<String> = Vec::new();
        let mut cur = tok(&owner[first]);
        let mut prev = String::new();
        loop {
            let r = m.get(&cur)?;
            if tok(&r["prev"]) != prev || out.len() > m.len() {
                return None;
            }
            out.push(cur.clone());
            prev = cur;
            cur = tok(&r["next"]);
            if cur.is_empty() {
                break;
            }
        }
        (Some(&tok(&owner[last])) == out.last() && owner[count].as_u64() == Some(out.len() as u64)).then_some(out)
    };
    let mut covered = (0, 0);
    for (t, i) in of("instance") {
        if !has("category", &i["category_token"]) {
            return (Reject, "instance without category");
        }
        match chain("sample_annotation", i, "first_annotation_token", "last_annotation_token", "nbr_annotations") {
            None => return (Reject, "inconsistent instance chain"),
            Some(l) => {
                covered.0 += l.len();
                if l.iter().any(|a| tok(&of("sample_annotation")[a]["instance_token"]) != *t) {
                    (unjudged, why) = (true, "annotation chained to another instance");
                }
            }
        }
    }
    for (t, s) in of("scene") {
        if !has("log", &s["log_token"]) {
            return (Reject, "scene without log");
        }
        match chain("sample", s, "first_sample_token", "last_sample_token", "nbr_samples") {
            None => return (Reject, "inconsistent scene chain"),
            Some(l) => {
                covered.1 += l.len();
                if l.iter().any(|a| tok(&of("sample")[a]["scene_token"]) != *t) {
                    (unjudged, why) = (true, "sample chained to another scene");
                }
            }
        }
    }
    if covered != (of("sample_annotation").len(), of("sample").len()) {
        (unjudged, why) = (true, "records outside every chain");
    }
    for s in of("sample").keys() {
        if !of("sample_data").values().any(|d| tok(&d["sample_token"]) == *s) {
            (unjudged, why) = (true, "sample without sensor data");
        }
    }
    for (t, d) in of("sample_data") {
        let (p, n) = (tok(&d["prev"]), tok(&d["next"]));
        let m = of("sample_data");
        if (!p.is_empty() && tok(&m[&p]["next"]) != *t) || (!n.is_empty() && tok(&m[&n]["prev"]) != *t) {
            (unjudged, why) = (true, "sensor data links do not agree");
        }
    }
    if unjudged {
        (Unjudged, why)
    } else {
        (Accept, "consistent")
    }
}

/// Follows every relation and reads every derived value of whatever was loaded; only panics matter.
pub fn walk(nu: &NuScenes) {
    for a in nu.sample_annotation_iter() {
        let _ = (a.sample().token.clone(), a.instance().category().name.len(), a.attribute_iter().count(), a.prev().is_some(), a.next().is_some());
        let _ = nu.get_box(&a.token);
    }
    #[cfg(feature = "iters")]
    for i in nu.instance_iter() {
        let _ = (i.category().name.len(), i.sample_annotation_iter().count());
    }
    for s in nu.sample_iter() {
        let _ = (s.scene().name.len(), s.prev().is_some(), s.next().is_some(), s.sample_annotation_iter().count(), s.sample_data_iter().count());
    }
    for s in nu.scene_iter() {
        let _ = (s.log().location.len(), s.sample_iter().count());
    }
    for d in nu.sample_data_iter() {
        let _ = (d.sample().token.clone(), d.ego_pose().timestamp, d.calibrated_sensor().sensor().token.clone(), d.prev().is_some(), d.next().is_some());
        let _ = (nu.get_sample_data(&d.token, &true).is_ok(), nu.get_sample_data(&d.token, &false).is_ok());
    }
    #[cfg(feature = "iters")]
    for m in nu.map_iter() {
        let _ = m.log_iter().count();
    }
    #[cfg(feature = "iters")]
    let _ = nu.visibility_iter().count();
    let _ = (nu.attribute_iter().count(), nu.log_iter().count(), nu.ego_pose_iter().count());
}

fn judge(dir: &Path, want: (Verdict, &str), ctx: &mut Ctx) -> R {
    let got = guard("loading the dataset", || NuScenes::load(VERSION, dir))?;
    let path = dir.to_path_buf();
    match (&got, want.0) {
        (Ok(_), Verdict::Reject) => return Err(format!("a bad dataset ({}) is loaded", want.1)),
        (Err(e), Verdict::Accept) => return Err(format!("a consistent dataset is rejected: {e}")),
        _ => {}
    }
    let frames = guard("loading ground truth", || load_dataset(VERSION, &path, &EvaluationTask::Detection, &FrameID::BaseLink).map_err(|e| e.to_string()))?;
    match (&got, &frames) {
        (Err(_), Ok(_)) => return Err("ground truth is loaded from a dataset that is rejected".into()),
        (Ok(_), Err(e)) if want.0 == Verdict::Accept => return Err(format!("ground truth of a consistent dataset is rejected: {e}")),
        _ => {}
    }
    let config = plain_config(dir, &EvaluationTask::Detection, &FrameID::BaseLink)?;
    let manager = guard("starting an evaluation", || PerceptionEvaluationManager::from(&config).map(|m| m.frame_ground_truths).map_err(|e| e.to_string()))?;
    match (&frames, &manager) {
        (Ok(a), Ok(b)) => ensure!(sizes(a) == sizes(b), "the evaluation has other ground truths than the dataset"),
        (Err(_), Err(_)) => {}
        _ => return Err(format!("loading ground truth gives {:?}, starting an evaluation {:?}", frames.map(|f| f.len()), manager.map(|f| f.len()))),
    }
    if let Ok(nu) = &got {
        guard("walking over the loaded dataset", || walk(nu))?;
    }
    ctx.class(&format!("{:?}: {}", want.0, want.1));
    Ok(())
}

fn c18_records(b: &Bad, ctx: &mut Ctx) -> R {
    let r = b.ds.resolve();
    let mut tables = b.ds.tables(&r);
    let before = tables.clone();
    for m in &b.muts {
        apply(&mut tables, m, &b.ds);
    }
    let dir = thread_dir("c18");
    write_tables(&dir, &tables);
    let want = verdict(&tables);
    ctx.nontrivial(tables != before && want.0 != Verdict::Unjudged);
    judge(&dir, want, ctx)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Damage {
    pub ds: Ds,
    pub table: u8,
    /// 0 remove, 1 truncate, 2 empty, 3 directory, 4.. edits of bytes
    pub kind: u8,
    pub edits: Vec<(u32, u8, u8)>,
}

fn c18_bytes(d: &Damage, ctx: &mut Ctx) -> R {
    let r = d.ds.resolve();
    let tables = d.ds.tables(&r);
    let dir = fresh_dir("c18b");
    write_tables(&dir, &tables);
    let t = d.table as usize % TABLES.len();
    let path = dir.join(VERSION).join(format!("{}.json", TABLES[t]));
    let mut bytes = std::fs::read(&path).map_err(|e| format!("{HARNESS}{e}"))?;
    let put = |b: &[u8]| std::fs::write(&path, b).map_err(|e| format!("{HARNESS}{e}"));
    let want = match d.kind {
        0 => {
            std::fs::remove_file(&path).map_err(|e| format!("{HARNESS}{e}"))?;
            (Verdict::Reject, "table missing")
        }
        1 => {
            let n = d.edits.first().map(|e| e.0 as usize).unwrap_or(0) % bytes.len();
            put(&bytes[..n])?;
            (Verdict::Reject, "table truncated")
        }
        2 => {
            put(b"")?;
            (Verdict::Reject, "table empty")
        }
        3 => {
            std::fs::remove_file(&path).map_err(|e| format!("{HARNESS}{e}"))?;
            std::fs::create_dir(&path).map_err(|e| format!("{HARNESS}{e}"))?;
            (Verdict::Reject, "table is a directory")
        }
        _ => {
            for (at, op, b) in &d.edits {
                if bytes.is_empty() {
                    break;
                }
                let i = *at as usize % bytes.len();
                const INTERESTING: &[u8] = b"[]{}\",:0-9e.\\u\x00\xffnt1 ";
                match op % 4 {
                    0 => bytes[i] = *b,
                    1 => bytes[i] = INTERESTING[*b as usize % INTERESTING.len()],
                    2 => {
                        bytes.remove(i);
                    }
                    _ => bytes.insert(i, INTERESTING[*b as usize % INTERESTING.len()]),
                }
            }
            put(&bytes)?;
            if serde_json::from_slice::<serde::de::IgnoredAny>(&bytes).is_err() {
                (Verdict::Reject, "not JSON")
            } else {
                match serde_json::from_slice::<Value>(&bytes) {
                    Err(_) => (Verdict::Unjudged, "JSON with an unusual value"),
                    Ok(v) => {
                        let mut all = tables.clone();
                        all[t] = v;
                        verdict(&all)
                    }
                }
            }
        }
    };
    ctx.nontrivial(want.0 != Verdict::Unjudged);
    judge(&dir, want, ctx)
}

pub fn c18s() -> Vec<Sub> {
    let o = DsOpts { scenes: 2, samples: 3, instances: 3, anns: 3, distinct: false, some: true, sds: 3, wide: false };
    let table = || prop_oneof![1 => 0u8..13, 3 => prop_oneof![Just(1u8), Just(4), Just(7), Just(8), Just(9), Just(10)]];
    let m = move || {
        (table(), any::<u16>(), any::<u8>(), prop_oneof![1 => Just(0u8), 1 => Just(1), 1 => Just(2), 2 => Just(3), 3 => Just(4), 3 => Just(5), 8 => Just(6), 4 => Just(7)], any::<u32>())
            .prop_map(|(table, rec, field, kind, val)| Mut { table, rec, field, kind, val })
    };
    vec![
        sub("records", 12_000, 12, 8, move || (ds(o), prop_oneof![1 => proptest::collection::vec(m(), 0..1), 4 => proptest::collection::vec(m(), 1..2), 2 => proptest::collection::vec(m(), 2..4)]).prop_map(|(ds, muts)| Bad { ds, muts }), c18_records),
        sub(
            "bytes",
            4_000,
            12,
            8,
            move || {
                (ds(o), 0u8..13, prop_oneof![1 => 0u8..4, 2 => Just(1u8), 5 => Just(4)], proptest::collection::vec((any::<u32>(), any::<u8>(), any::<u8>()), 1..4))
                    .prop_map(|(ds, table, kind, edits)| Damage { ds, table, kind, edits })
            },
            c18_bytes,
        ),
    ]
}

/// A configuration that evaluates cars of the dataset.
pub fn plain_config(dir: &Path, task: &EvaluationTask, frame: &FrameID) -> Result<PerceptionEvaluationConfig, String> {
    let err = |e: perception_eval::label::LabelError| format!("{HARNESS}{e}");
    Ok(PerceptionEvaluationConfig {
        version: VERSION.into(),
        dataset_path: dir.to_path_buf(),
        evaluation_task: task.clone(),
        frame_id: frame.clone(),
        result_dir: dir.join("result"),
        log_dir: dir.join("result/log"),
        viz_dir: dir.join("result/visualize"),
        filter_params: FilterParams::new(&vec!["car"], 100.0, 100.0, None, None).map_err(err)?,
        metrics_params: MetricsParams::new(&vec!["car"], 1.0, 2.0, 0.5, 0.5).map_err(err)?,
        load_raw_data: false,
    })
}
pub fn sizes(frames: &[FrameGroundTruth]) -> Vec<(NaiveDateTime, usize)> {
    let mut all: Vec<_> = frames.iter().map(|f| (f.timestamp, f.objects.len())).collect();
    all.sort();
    all
}
/// The frames in a comparable form, whatever the order of the objects in a frame.
pub fn listed(frames: &[FrameGroundTruth]) -> Vec<(NaiveDateTime, Vec<String>)> {
    let mut all: Vec<(NaiveDateTime, Vec<String>)> = frames
        .iter()
        .map(|f| {
            let mut l: Vec<String> = f.objects.iter().map(|o| format!("{o:?}")).collect();
            l.sort();
            (f.timestamp, l)
        })
        .collect();
    // frames of one time come in any order
    all.sort();
    all
}

// ---------------------------------------------------------------- C19

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Frames {
    pub ds: Ds,
    pub task: u8,
    pub frame: u8,
}

/// The annotated pose seen from a frame with the given pose.
pub fn into_frame(p: &V3, q: &Q, t: &V3, r: &Q) -> (V3, Q) {
    (qrot(&minus(p, t), &conj(r)), qmul(&conj(r), q))
}
fn tol(p: &V3, t: &V3) -> f64 {
    1e-9 * (100.0 + refm::norm(p) + refm::norm(t))
}

fn c19_frames(c: &Frames, ctx: &mut Ctx) -> R {
    let ds = &c.ds;
    let r = ds.resolve();
    let dir = thread_dir("c19");
    write_tables(&dir, &ds.tables(&r));
    let task = [EvaluationTask::Detection, EvaluationTask::Tracking, EvaluationTask::Prediction][c.task as usize % 3].clone();
    let frame = if c.frame < 10 { FrameID::BaseLink } else { crate::gen::OBJ_FRAMES[c.frame as usize % 10].clone() };
    let frames = load_dataset(VERSION, &dir, &task, &frame).map_err(|e| format!("loading ground truth failed: {e}"))?;
    let config = plain_config(&dir, &task, &frame)?;
    let manager = PerceptionEvaluationManager::from(&config).map_err(|e| format!("starting an evaluation failed: {e}"))?;
    // With several lidar records at one time any of their poses may be taken.
    let sure = r.samples.iter().all(|s| s.sds.iter().filter(|d| ds.is_lidar(&r.sds[**d]) && r.sds[**d].time == s.time).map(|d| r.sds[*d].pose).collect::<std::collections::HashSet<_>>().len() < 2);
    ctx.class_if(sure, "comparable with a second loading");
    ensure!(sizes(&frames) == sizes(&manager.frame_ground_truths), "the evaluation has other frames than loaded");
    ensure!(!sure || listed(&frames) == listed(&manager.frame_ground_truths), "the evaluation has other ground truths {:?} than loaded {frames:?}", manager.frame_ground_truths);
    let mut order: Vec<usize> = (0..r.samples.len()).collect();
    order.sort_by_key(|i| r.samples[*i].time);
    ensure!(frames.len() == order.len(), "{} frames for {} samples", frames.len(), order.len());
    let inst: HashMap<String, usize> = (0..ds.instances.len()).map(|i| (ds.token("instance", i), i)).collect();
    let fits = |f: &FrameGroundTruth, s: usize, ctx: &mut Ctx| -> R {
        let sample = &r.samples[s];
        ensure!(same_time(&f.timestamp, sample.time), "frame at {} instead of {} us", f.timestamp, sample.time);
        let lidars: Vec<usize> = sample.sds.iter().copied().filter(|d| ds.is_lidar(&r.sds[*d]) && r.sds[*d].time == sample.time).collect();
        ctx.class(match lidars.len() {
            0 => "no lidar at the sample's time",
            1 => "one lidar at the sample's time",
            _ => "several lidars at the sample's time",
        });
        if lidars.is_empty() {
            ensure!(f.objects.len() <= sample.anns.len(), "{} objects for {} annotations", f.objects.len(), sample.anns.len());
            return Ok(());
        }
        ensure!(f.objects.len() == sample.anns.len(), "{} objects for {} annotations of sample {s}", f.objects.len(), sample.anns.len());
        // An instance may have several annotations in a sample: match objects by all their values, once per lidar.
        let mut why = String::new();
        let ok = lidars.iter().any(|d| {
            let pose = &r.poses[r.sds[*d].pose].d;
            let mut left: Vec<usize> = sample.anns.clone();
            for o in &f.objects {
                let hit = left.iter().position(|a| {
                    let an = &r.anns[*a];
                    let (p, q) = into_frame(&an.d.pose.t, &an.d.pose.q(), &pose.t, &pose.q());
                    let label = &LABELS[ds.cat_label(ds.instances[an.instance].cat as usize % ds.cats.len())];
                    o.uuid.as_ref().and_then(|u| inst.get(u)) == Some(&an.instance)
                        && nums(&o.size, &an.d.size)
                        && o.pointcloud_num == Some(an.d.lidar)
                        && o.label == *label
                        && o.confidence == 1.0
                        && o.velocity.is_none()
                        && o.frame_id == frame
                        && o.timestamp == f.timestamp
                        && (frame != FrameID::BaseLink || (close3(&o.position, &p, tol(&an.d.pose.t, &pose.t)) && same_q(&o.orientation, &q, 1e-9)))
                });
                match hit {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => {
                        why = format!(
                            "object {o:?} of sample {s} is none of its annotations {:?} seen from {pose:?} (frame {frame:?})",
                            sample.anns.iter().map(|a| (&r.anns[*a].d, ds.token("instance", r.anns[*a].instance), ds.cat_name(ds.instances[r.anns[*a].instance].cat as usize % ds.cats.len()))).collect::<Vec<_>>()
                        );
                        return false;
                    }
                }
            }
            true
        });
        ensure!(ok, "{why}");
        ctx.nontrivial(sample.anns.len() > 1);
        Ok(())
    };
    let mut k = 0;
    while k < order.len() {
        let n = order[k..].iter().take_while(|s| r.samples[**s].time == r.samples[order[k]].time).count();
        if n == 1 {
            fits(&frames[k], order[k], ctx)?;
        } else {
            // samples of one time: their frames come in any order
            ctx.class("samples at one time");
            let mut why = String::new();
            let ok: Vec<Vec<bool>> = (k..k + n)
                .map(|i| order[k..k + n].iter().map(|s| fits(&frames[i], *s, ctx).map_err(|e| why = e).is_ok()).collect())
                .collect();
            ensure!(assignable(&ok, 0, &mut vec![false; n]), "the {n} frames at {} are not those of the samples {:?}: {why}", frames[k].timestamp, &order[k..k + n]);
        }
        k += n;
    }
    Ok(())
}
/// Whether every row from `i` on can have a column of its own.
fn assignable(ok: &[Vec<bool>], i: usize, used: &mut Vec<bool>) -> bool {
    i == ok.len()
        || (0..used.len()).any(|k| {
            ok[i][k] && !used[k] && {
                used[k] = true;
                let r = assignable(ok, i + 1, used);
                used[k] = false;
                r
            }
        })
}


pub fn c19s() -> Vec<Sub> {
    let o = DsOpts { scenes: 2, samples: 4, instances: 5, anns: 4, distinct: true, some: false, sds: 3, wide: false };
    let wide = DsOpts { scenes: 3, samples: 6, instances: 8, anns: 6, distinct: true, some: true, sds: 8, wide: true };
    let drive = DsOpts { scenes: 3, samples: 60, instances: 50, anns: 60, distinct: true, some: true, sds: 6, wide: false };
    let of = |o: DsOpts| (ds(o), 0u8..3, 0u8..20).prop_map(|(ds, task, frame)| Frames { ds, task, frame });
    vec![
        sub("frames", 6_000, 12, 8, move || of(o), c19_frames),
        sub("times", 3_000, 12, 8, move || (of(DsOpts { scenes: 3, samples: 3, distinct: false, ..o }), proptest::collection::vec(0u8..3, 3)).prop_map(|(mut f, at)| {
            // scenes that start at one time, samples that follow at once
            for (s, k) in f.ds.scenes.iter_mut().zip(&at) {
                if *k > 0 {
                    s.start = 1_600_000_000_000_000;
                }
                for x in s.samples.iter_mut() {
                    x.dt = if *k == 2 { x.dt % 2 } else { x.dt / 100_000 * 100_000 };
                }
            }
            f
        }), c19_frames),
        sub("wide", 1_600, 12, 8, move || of(wide), c19_frames),
        sub("drive", 32, 12, 8, move || of(drive), c19_frames),
    ]
}

// ---------------------------------------------------------------- C20

fn c20_boxes(ds: &Ds, ctx: &mut Ctx) -> R {
    let r = ds.resolve();
    let dir = thread_dir("c20").join("data");
    write_tables(&dir, &ds.tables(&r));
    let nu = NuScenes::load(VERSION, &dir).map_err(fail("loading a consistent dataset"))?;
    let token = |t: &str, i: usize| LongToken::try_from(ds.token(t, i).as_str()).map_err(|e| format!("{HARNESS}{e}"));
    let plain = |b: &NuScenesBox, a: usize| -> R {
        let an = &r.anns[a];
        let name = ds.cat_name(ds.instances[an.instance].cat as usize % ds.cats.len());
        ensure!(
            b.name == name && b.instance.to_string() == ds.token("instance", an.instance) && nums(&b.size, &an.d.size) && b.num_lidar_pts == an.d.lidar && b.token.to_string() == ds.token("sample_annotation", a),
            "box {b:?} of annotation {a} is not {:?} {name}",
            an.d
        );
        Ok(())
    };
    // moved: poses of the frames to go through, outermost first
    let all = |what: &str, boxes: &[NuScenesBox], sd: usize, through: &[&PoseD]| -> R {
        let want = &r.samples[r.sds[sd].sample].anns;
        let mut seen = vec![];
        for b in boxes {
            let a = want
                .iter()
                .copied()
                .find(|a| ds.token("sample_annotation", *a) == b.token.to_string())
                .ok_or_else(|| format!("{what} of sensor data {sd}: box of annotation {} which is not of its sample", b.token))?;
            plain(b, a)?;
            let d = &r.anns[a].d.pose;
            let (mut p, mut q) = (d.t, d.q());
            let mut t = tol(&p, &p);
            for f in through {
                t += tol(&p, &f.t);
                (p, q) = into_frame(&p, &q, &f.t, &f.q());
            }
            ensure!(
                close3(&b.position, &p, t) && same_q(&b.orientation, &q, 1e-9),
                "{what} of sensor data {sd}: annotation {a} at {:?} {:?} instead of {p:?} {q:?} (annotated {d:?}, through {through:?})",
                b.position,
                b.orientation
            );
            // and back, with the reference's own transforms
            let (mut p, mut q) = (b.position, b.orientation);
            for f in through.iter().rev() {
                p = add(&qrot(&p, &f.q()), &f.t);
                q = qmul(&f.q(), &q);
            }
            ensure!(close3(&p, &d.t, 2.0 * t) && same_q(&q, &d.q(), 1e-8), "{what}: moving annotation {a} back gives {p:?} {q:?} instead of {d:?}");
            seen.push(a);
        }
        once(&format!("{what} of sensor data {sd}"), seen, want.clone())
    };
    for a in 0..r.anns.len() {
        let b = nu.get_box(&token("sample_annotation", a)?).map_err(fail("get_box"))?;
        plain(&b, a)?;
        let d = &r.anns[a].d.pose;
        ensure!(nums(&b.position, &d.t) && nums(&b.orientation, &d.q()), "box of annotation {a}: {:?} {:?} instead of {d:?}", b.position, b.orientation);
    }
    for i in 0..r.sds.len() {
        let sd = &r.sds[i];
        let t = token("sample_data", i)?;
        let (ego, cal) = (&r.poses[sd.pose].d, &ds.calibs[sd.calib].pose);
        let file = dir.join(&sd.filename);
        let path = nu.get_sample_data_path(&t).map_err(fail("get_sample_data_path"))?;
        ensure!(path == file, "path {path:?} instead of {file:?}");
        all("the boxes in the map frame", &nu.get_boxes(&t).map_err(fail("get_boxes"))?, i, &[])?;
        let (path, boxes) = nu.get_sample_data(&t, &false).map_err(fail("get_sample_data"))?;
        ensure!(path == file, "path {path:?} instead of {file:?}");
        all("the boxes in the vehicle frame", &boxes, i, &[ego])?;
        let (path, boxes) = nu.get_sample_data(&t, &true).map_err(fail("get_sample_data"))?;
        ensure!(path == file, "path {path:?} instead of {file:?}");
        all("the boxes in the sensor frame", &boxes, i, &[ego, cal])?;
        ctx.class_if(!sd.key, "not a key frame");
        ctx.class_if(!sd.key && r.samples[sd.sample].prev.is_some(), "not a key frame, with a previous sample");
        ctx.nontrivial(!boxes.is_empty());
    }
    for i in 0..2 {
        let t = LongToken::try_from(ds.stray(i).as_str()).map_err(|e| format!("{HARNESS}{e}"))?;
        ensure!(
            nu.get_sample_data_path(&t).is_err() && nu.get_sample_data(&t, &(i == 0)).is_err() && nu.get_boxes(&t).is_err() && nu.get_box(&t).is_err(),
            "a token of no record gives no error"
        );
    }
    if let Some(a) = (0..r.anns.len()).next().filter(|_| ds.style() != 5) {
        let t = token("sample_annotation", a)?;
        ensure!(nu.get_sample_data(&t, &false).is_err() && nu.get_boxes(&t).is_err(), "an annotation's token gives sensor data");
    }
    Ok(())
}

/// Operations on one box in sequence: each acts on the pose as stated, and its inverse undoes it.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Moves {
    pub t: V3,
    pub rpy: V3,
    pub ops: Vec<(u8, V3, V3)>,
}
fn c20_moves(m: &Moves, ctx: &mut Ctx) -> R {
    let tokn = LongToken::try_from("00112233445566778899aabbccddeeff").map_err(|e| format!("{HARNESS}{e}"))?;
    let q0 = refm::from_rpy(&m.rpy);
    let mut b = NuScenesBox { position: m.t, orientation: q0, size: [1.0, 2.0, 3.0], name: "car".into(), instance: tokn.clone(), num_lidar_pts: 3, token: tokn };
    let (mut p, mut q) = (m.t, q0);
    let mut scale = 1.0 + refm::norm(&p);
    for (k, t, rpy) in &m.ops {
        let r = refm::from_rpy(rpy);
        match k % 4 {
            0 => {
                p = add(&p, t);
                let g = b.get_translate(t);
                ensure!(close3(&g, &p, 1e-9 * scale.max(1000.0)), "get_translate gives {g:?} instead of {p:?}");
                b.translate(t);
            }
            1 => {
                p = minus(&p, t);
                let g = b.get_translate_inv(t);
                ensure!(close3(&g, &p, 1e-9 * scale.max(1000.0)), "get_translate_inv gives {g:?} instead of {p:?}");
                b.translate_inv(t);
            }
            2 => {
                (p, q) = (qrot(&p, &r), qmul(&r, &q));
                b.rotate(&r);
            }
            _ => {
                (p, q) = (qrot(&p, &conj(&r)), qmul(&conj(&r), &q));
                b.rotate_inv(&r);
            }
        }
        scale = scale.max(1.0 + refm::norm(&p));
        ensure!(close3(&b.position, &p, 1e-9 * scale) && same_q(&b.orientation, &q, 1e-9), "after {} the box is at {:?} {:?} instead of {p:?} {q:?}", k % 4, b.position, b.orientation);
    }
    ensure!(close(b.size[0], 1.0, 0.0) && close(b.size[1], 2.0, 0.0) && close(b.size[2], 3.0, 0.0) && b.num_lidar_pts == 3 && b.name == "car", "moving a box alters it: {b:?}");
    ctx.nontrivial(m.ops.len() > 2);
    Ok(())
}

pub fn c20s() -> Vec<Sub> {
    let wide = DsOpts { scenes: 3, samples: 4, instances: 6, anns: 5, distinct: false, some: true, sds: 8, wide: true };
    let drive = DsOpts { scenes: 2, samples: 30, instances: 25, anns: 30, distinct: false, some: true, sds: 6, wide: false };
    let o = DsOpts { scenes: 2, samples: 3, instances: 4, anns: 3, distinct: false, some: true, sds: 3, wide: false };
    vec![
        sub("boxes", 5_000, 12, 8, move || ds(o), c20_boxes),
        sub("wide", 1_000, 12, 8, move || ds(wide), c20_boxes),
        sub("drive", 16, 12, 8, move || ds(drive), c20_boxes),
        sub(
            "moves",
            20_000,
            12,
            8,
            || {
                (crate::gen::pos(100.0, 10.0), crate::gen::rpy_full(), proptest::collection::vec((0u8..4, crate::gen::pos(100.0, 10.0), crate::gen::rpy_full()), 0..6))
                    .prop_map(|(t, rpy, ops)| Moves { t, rpy, ops })
            },
            c20_moves,
        ),
    ]
}

fn read_all(mut f: &std::fs::File) -> String {
    let mut s = String::new();
    let _ = f.read_to_string(&mut s);
    s
}
