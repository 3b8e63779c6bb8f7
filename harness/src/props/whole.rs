//! C29-C32: printed forms, equality, side effects, and evaluations next to each other.
use crate::ds::{self, *};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::props::config::{path_str, scn, write_scenario, Scn};
use crate::props::dataset::{listed, walk};
use crate::props::frames::Scenes;
use crate::props::metrics::*;
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::dataset::nuscenes::NuScenes;
use perception_eval::dataset::{load_dataset, FrameGroundTruth};
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::object::object3d::DynamicObject;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

// ---------------------------------------------------------------- C29

fn c29_scores(c: &Hist, ctx: &mut Ctx) -> R {
    let cfg = c.conf.build()?;
    let m = run(&cfg, &c.frames)?;
    let text = m.get_metrics_score().map_err(|e| format!("get_metrics_score fails: {e}"))?.to_string();
    // only what is printed
    let s = read_scores(&text, "")?;
    let names: Vec<String> = c.conf.targets.iter().map(|l| LABEL_PRINT[*l as usize].to_string()).collect();
    for (k, sec) in SECTIONS.iter().enumerate() {
        let ms = &s.modes[k];
        ensure!(ms.labels == names && ms.ap.len() == names.len() && ms.aph.len() == names.len(), "{sec}: printed for {:?} instead of {names:?}: {text}", ms.labels);
        let t = [c.conf.cd, c.conf.pd][k];
        ensure!(ms.thresholds.len() == names.len() && ms.thresholds.iter().all(|x| (x - t).abs() <= 5.1e-4 + 1e-12 * t), "{sec}: printed thresholds {:?} instead of {t}: {text}", ms.thresholds);
        let mut all = Some((vec![], vec![]));
        for (i, l) in c.conf.targets.iter().enumerate() {
            let d = detections(c, &m, *l, k);
            if d.open {
                all = None;
                continue;
            }
            let (ap, aph) = (areas(&d.ap, d.num_gt).0, areas(&d.aph, d.num_gt).0);
            let same = |a: f64, b: f64| (a.is_nan() && b.is_nan()) || (a - b).abs() <= 5.1e-4;
            ensure!(same(ms.ap[i], ap) && same(ms.aph[i], aph), "{sec}: AP and APH of {} are printed as {} and {} instead of {ap} and {aph}: {text}", names[i], ms.ap[i], ms.aph[i]);
            ctx.nontrivial(ap > 1e-3 && ap < 0.999);
            if let Some(a) = all.as_mut() {
                a.0.push(ap);
                a.1.push(aph);
            }
        }
        if let Some((ap, aph)) = all {
            if ap.iter().all(|x| x.is_finite()) {
                let mean = |v: &[f64]| v.iter().sum::<f64>() / v.len() as f64;
                ensure!((ms.map - mean(&ap)).abs() <= 5.1e-4 && (ms.maph - mean(&aph)).abs() <= 5.1e-4, "{sec}: means {} and {} instead of {} and {}: {text}", ms.map, ms.maph, mean(&ap), mean(&aph));
                ctx.class("means compared");
            }
        }
    }
    Ok(())
}
/// Every named vector of the text is the object's; a vector the object does not have is not printed.
fn printed_vectors(d: &DynamicObject, text: &str) -> R {
    let velocity = d.velocity.map(|v| format!("{v:?}"));
    for (name, value) in [("position", Some(format!("{:?}", d.position))), ("orientation", Some(format!("{:?}", d.orientation))), ("size", Some(format!("{:?}", d.size))), ("velocity", velocity)] {
        let Some(at) = text.find(name) else { continue };
        let line = text[at + name.len()..].lines().next().unwrap_or("");
        match value {
            Some(v) => ensure!(line.find('[').is_none_or(|i| line[i..].starts_with(&v)), "the {name} {v} is printed as {line}"),
            None => ensure!(!line.contains('['), "a missing {name} is printed as {line}"),
        }
    }
    Ok(())
}
fn c29_objects(objs: &Vec<Obj>, ctx: &mut Ctx) -> R {
    for o in objs {
        let d = o.build();
        let text = d.to_string();
        let mut parts = vec![format!("{:?}", d.position), format!("{:?}", d.orientation), format!("{:?}", d.size), LABEL_PRINT[o.label as usize].to_string(), format!("{}", d.confidence), format!("{:?}", d.frame_id)];
        parts.extend(d.velocity.map(|v| format!("{v:?}")));
        parts.extend(d.uuid.clone());
        for p in &parts {
            ensure!(text.contains(p.as_str()), "the printed object lacks {p}: {text}");
        }
        printed_vectors(&d, &text)?;
        ensure!(d.label_name() == LABEL_PRINT[o.label as usize] && d.label.to_string() == d.label_name(), "the label {:?} is named {} and printed {}", d.label, d.label_name(), d.label);
        let state = d.state().to_string();
        for p in [format!("{:?}", d.position), format!("{:?}", d.orientation), format!("{:?}", d.size), d.velocity.map(|v| format!("{v:?}")).unwrap_or_default()] {
            ensure!(state.contains(&p), "the printed state lacks {p}: {state}");
        }
        printed_vectors(&d, &state)?;
        ctx.nontrivial(d.velocity.is_some() && d.uuid.is_some());
    }
    let f = FrameGroundTruth { timestamp: micros(objs.first().map_or(0, |o| o.ts)), objects: objs.iter().map(|o| o.build()).collect() };
    let text = f.to_string();
    let n = text.rsplit(|c: char| !c.is_ascii_digit()).find(|w| !w.is_empty()).unwrap_or("");
    ensure!(text.contains(&format!("{:?}", f.timestamp)) && n == objs.len().to_string(), "a frame of {} objects at {:?} is printed as {text}", objs.len(), f.timestamp);
    Ok(())
}
pub fn c29s() -> Vec<Sub> {
    let o = || obj(ObjOpts { range: 100.0, tilt: true, labels: 8 });
    vec![
        sub("scores", 8_000, 20, 8, || hist(4, 7, 3, false), c29_scores),
        sub("all_labels", 400, 20, 8, || hist(6, 25, 8, false), c29_scores),
        sub("wide", 2_000, 20, 8, || hist_wide(4, 7, 2), c29_scores),
        sub("listed_twice", 2_000, 20, 8, || hist_twice(4, 7, 3), c29_scores),
        sub("objects", 8_000, 20, 8, move || proptest::collection::vec(o(), 0..6), c29_objects),
    ]
}

// ---------------------------------------------------------------- C30

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Twins {
    pub a: Obj,
    pub other: Obj,
    /// per field: take it from the other object
    pub mask: u16,
    /// instead of taking it, change it as little as possible
    pub least: bool,
    pub axis: u8,
}
fn c30(c: &Twins, ctx: &mut Ctx) -> R {
    let (a, o) = (c.a.build(), c.other.build());
    let mut b = a.clone();
    let on = |k: u16| c.mask >> k & 1 == 1;
    let next = |x: f64| f64::from_bits(x.to_bits() + 1);
    let i = c.axis as usize;
    if on(0) {
        b.timestamp = if c.least { b.timestamp + chrono::Duration::nanoseconds(1 + c.axis as i64) } else { o.timestamp };
    }
    if on(1) {
        b.frame_id = if c.least { FrameID::Map } else { o.frame_id.clone() };
    }
    if on(2) {
        if c.least {
            b.position[i % 3] = next(b.position[i % 3]);
        } else {
            b.position = o.position;
        }
    }
    if on(3) {
        if c.least {
            b.orientation[i % 4] = next(b.orientation[i % 4]);
        } else {
            b.orientation = o.orientation;
        }
    }
    if on(4) {
        b.label = o.label.clone();
    }
    if on(5) {
        b.size = o.size;
    }
    if on(6) {
        b.velocity = if c.least { b.velocity.map(|v| [v[0], v[1], next(v[2])]) } else { o.velocity };
    }
    if on(7) {
        b.confidence = o.confidence;
    }
    if on(8) {
        b.pointcloud_num = o.pointcloud_num;
    }
    if on(9) {
        b.uuid = o.uuid.clone();
    }
    if c.least && c.axis % 3 == 2 {
        // zero is zero, whatever its sign
        for x in b.position.iter_mut().chain(b.orientation.iter_mut()).chain(b.size.iter_mut()).chain(b.velocity.iter_mut().flatten()) {
            if *x == 0.0 {
                *x = -*x;
            }
        }
    }
    let equal = a.timestamp == b.timestamp && a.frame_id == b.frame_id && a.position == b.position && a.orientation == b.orientation && a.label == b.label;
    ensure!((a == b) == equal && (b == a) == equal, "{a:?} and {b:?} compare {} and {} instead of {equal}", a == b, b == a);
    ensure!((a != b) != equal, "== and != agree for {a:?} and {b:?}");
    ensure!(a == a.clone() && b == b.clone(), "an object differs from its copy");
    let same = a.position == b.position && a.orientation == b.orientation && a.size == b.size && a.velocity == b.velocity;
    ensure!((a.state() == b.state()) == same && (b.state() == a.state()) == same, "the states of {a:?} and {b:?} compare {} instead of {same}", a.state() == b.state());
    // a ground truth frame is its time and its objects in order
    let f = |t: i64, l: &[&DynamicObject]| FrameGroundTruth { timestamp: micros(t), objects: l.iter().map(|o| (*o).clone()).collect() };
    ensure!((f(5, &[&a, &b]) == f(5, &[&b, &a])) == equal, "frames with their objects swapped compare wrongly: {a:?} {b:?}");
    ensure!(f(5, &[&a, &b]) == f(5, &[&a, &b]) && f(5, &[&a]) != f(6, &[&a]) && f(5, &[&a]) != f(5, &[&a, &a]) && f(5, &[]) == f(5, &[]), "frames compare wrongly");
    ensure!((f(5, &[&a, &a, &b]) == f(5, &[&a, &b, &b])) == equal && (f(5, &[&a, &a, &b]) == f(5, &[&a, &b, &a])) == equal, "frames with the same objects in another order or number compare wrongly: {a:?} {b:?}");
    // labels
    ensure!((a.label == o.label) == (c.a.label == c.other.label), "labels {:?} and {:?} compare wrongly", a.label, o.label);
    ctx.class(if equal { "equal" } else { "different" });
    ctx.class_if(equal && !same_object(&a, &b), "equal, with other attributes");
    ctx.nontrivial(c.mask & 0x3ff != 0);
    Ok(())
}
pub fn c30s() -> Vec<Sub> {
    let o = || (obj(ObjOpts { range: 50.0, tilt: true, labels: 8 }), 0u8..10).prop_map(|(mut o, f)| { o.frame = f; o });
    vec![sub(
        "objects",
        40_000,
        20,
        8,
        move || {
            (o(), o(), prop_oneof![2 => (0u16..10).prop_map(|k| 1 << k), 2 => (5u16..10).prop_map(|k| 0x3e0 & !(1 << k)), 1 => 0u16..1024], any::<bool>(), 0u8..12)
                .prop_map(|(a, other, mask, least, axis)| Twins { a, other, mask, least, axis })
        },
        c30,
    )]
}

// ---------------------------------------------------------------- C31

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Session {
    pub ds: Ds,
    pub scn: Scn,
    /// what else is done
    pub also: u8,
    /// how the dataset is damaged, if it is
    #[serde(default)]
    pub damage: u8,
}

/// Every entry below the directory with its content; directories have none.
fn tree(dir: &Path, base: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) -> R {
    let err = |e: std::io::Error| format!("{HARNESS}{e}");
    for e in std::fs::read_dir(dir).map_err(err)? {
        let p = e.map_err(err)?.path();
        let rel = p.strip_prefix(base).map_err(|e| format!("{HARNESS}{e}"))?.to_path_buf();
        if p.is_dir() {
            out.insert(rel, None);
            tree(&p, base, out)?;
        } else {
            let b = std::fs::read(&p).map_err(err)?;
            out.insert(rel, Some(b));
        }
    }
    Ok(())
}
fn snapshot(dir: &Path) -> Result<BTreeMap<PathBuf, Option<Vec<u8>>>, String> {
    let mut m = BTreeMap::new();
    tree(dir, dir, &mut m)?;
    Ok(m)
}
/// A working directory of the check's own, in which nothing is expected to appear.
fn own_working_dir() -> Result<&'static PathBuf, String> {
    static DIR: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    DIR.get_or_init(|| {
        let d = ds::scratch_root().join("cwd");
        std::fs::create_dir_all(&d).and_then(|_| std::env::set_current_dir(&d)).map_err(|e| format!("{HARNESS}{e}"))?;
        Ok(d)
    })
    .as_ref()
    .map_err(|e| e.clone())
}
/// A file as another program may leave it: cut off, in another encoding, with other line ends.
fn redressed(b: &[u8], k: usize) -> Vec<u8> {
    let text = String::from_utf8_lossy(b).into_owned();
    match k % 9 {
        0 => b"[{".to_vec(),
        1 => [b"\xef\xbb\xbf", b].concat(),
        2 => b[..b.len() / 2].to_vec(),
        3 => text.replace(['\n', ','], ",\r\n").into_bytes(),
        4 => [&[0xff, 0xfe][..], &text.encode_utf16().flat_map(|u| u.to_le_bytes()).collect::<Vec<_>>()].concat(),
        5 => [b, b"\n\n\0\0"].concat(),
        6 => text.replace(':', " : ").into_bytes(),
        7 => [b, b]. concat(),
        _ => b.iter().map(|c| if *c == b'"' { b'\'' } else { *c }).collect(),
    }
}
fn c31(c: &Session, ctx: &mut Ctx) -> R {
    let cwd = own_working_dir()?;
    let dir = fresh_dir("c31");
    let r = c.ds.resolve();
    let data = dir.join("data");
    write_tables(&data, &c.ds.tables(&r));
    for (i, sd) in r.sds.iter().enumerate() {
        let p = data.join(&sd.filename);
        std::fs::create_dir_all(p.parent().unwrap_or(&data)).and_then(|_| std::fs::write(&p, vec![i as u8; 20 * (i % 3)])).map_err(|e| format!("{HARNESS}{e}"))?;
    }
    let mut s = c.scn.clone();
    s.datasets = vec![(path_str(&data)?.to_string(), VERSION.to_string())];
    let file = write_scenario(&dir, s.text())?;
    std::fs::write(dir.join("bystander"), "x").map_err(|e| format!("{HARNESS}{e}"))?;
    if c.also & 8 == 8 {
        // a damaged dataset is not repaired either
        let k = c.damage as usize;
        let table = data.join(VERSION).join(format!("{}.json", TABLES[k / 4 % TABLES.len()]));
        let old = std::fs::read(&table).map_err(|e| format!("{HARNESS}{e}"))?;
        match k % 4 {
            0 => std::fs::write(&table, redressed(&old, c.also as usize + k / 64)),
            1 => std::fs::write(&table, ""),
            2 => std::fs::remove_file(&table),
            _ if k % 8 == 3 => std::fs::remove_dir_all(data.join(VERSION)),
            _ => std::fs::remove_dir_all(&data),
        }
        .map_err(|e| format!("{HARNESS}{e}"))?;
    }
    if c.also & 16 == 16 {
        // nor is a damaged scenario
        let old = std::fs::read(&file).map_err(|e| format!("{HARNESS}{e}"))?;
        std::fs::write(&file, redressed(&old, c.damage as usize)).map_err(|e| format!("{HARNESS}{e}"))?;
    }
    let before = snapshot(&dir)?;
    let out = dir.join(["out", "res/u lt"][c.also as usize % 2]);
    let cfg = PerceptionEvaluationConfig::from(path_str(&file)?, path_str(&out)?, s.raw);
    match &cfg {
        Err(e) if c.also & 16 == 0 => return Err(format!("loading a valid scenario failed: {e}")),
        Err(_) => ctx.class("damaged scenario"),
        Ok(_) => {}
    }
    if let Ok(mut m) = cfg.as_ref().map_err(|_| ()).and_then(|cfg| PerceptionEvaluationManager::from(cfg).map_err(|_| ())) {
        for f in m.frame_ground_truths.clone() {
            let found = m.get_frame_ground_truth(&f.timestamp);
            let est = f.objects.clone();
            m.add_frame_result(&est, found.as_ref().unwrap_or(&f)).map_err(|e| format!("add_frame_result fails: {e}"))?;
        }
        let _ = m.get_metrics_score().map(|s| s.to_string());
        ctx.nontrivial(m.frame_results.len() > 1);
    } else if cfg.is_ok() {
        ctx.class("damaged dataset");
    }
    if c.also & 2 == 2 {
        if let Ok(nu) = NuScenes::load(VERSION, &data) {
            walk(&nu);
            for sd in nu.sample_data_iter() {
                let _ = (sd.load_raw().is_ok(), sd.load().is_ok(), sd.open().is_ok());
            }
            for l in nu.log_iter() {
                let _ = l.open().is_ok();
            }
            ctx.class("dataset walked");
        }
    }
    if c.also & 4 == 4 {
        log::warn!("a message");
    }
    let mut after = snapshot(&dir)?;
    // below the result directory anything may have been written
    let inside = out.strip_prefix(&dir).map_err(|e| format!("{HARNESS}{e}"))?.to_path_buf();
    after.retain(|p, _| !p.starts_with(&inside) && !(inside.starts_with(p) && !before.contains_key(p)));
    for (p, b) in &before {
        ensure!(after.get(p) == Some(b), "{p:?} was {}", if after.contains_key(p) { "altered" } else { "removed" });
    }
    let new: Vec<_> = after.keys().filter(|p| !before.contains_key(*p)).collect();
    ensure!(new.is_empty(), "{new:?} appeared outside the result directory");
    let stray: Vec<_> = std::fs::read_dir(cwd).map_err(|e| format!("{HARNESS}{e}"))?.flatten().map(|e| e.path()).collect();
    ensure!(stray.is_empty(), "{stray:?} appeared in the working directory");
    Ok(())
}
pub fn c31s() -> Vec<Sub> {
    let o = DsOpts { scenes: 2, samples: 3, instances: 4, anns: 3, distinct: false, some: false, sds: 3, wide: false };
    vec![sub("session", 4_000, 20, 8, move || (ds::ds(o), scn(), 0u8..32, any::<u8>()).prop_map(|(ds, scn, also, damage)| Session { ds, scn, also, damage }), c31)]
}

// ---------------------------------------------------------------- C32

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Many {
    pub hists: Vec<Hist>,
    pub turns: Vec<u8>,
}
fn add(m: &mut PerceptionEvaluationManager, i: usize, f: &Scenes) -> R {
    let est: Vec<DynamicObject> = f.est.iter().map(|o| o.build()).collect();
    m.add_frame_result(&est, &gt_frame(i, f)).map_err(|e| format!("add_frame_result fails: {e}"))
}
fn c32_managers(c: &Many, ctx: &mut Ctx) -> R {
    let cfgs: Vec<PerceptionEvaluationConfig> = c.hists.iter().map(|h| h.conf.build()).collect::<Result<_, _>>()?;
    let mut alone = Vec::new();
    for (h, cfg) in c.hists.iter().zip(&cfgs) {
        let m = run(cfg, &h.frames)?;
        alone.push((history(&m), score(&m)?));
    }
    let judge = |how: &str, i: usize, m: &PerceptionEvaluationManager| -> R {
        ensure!(history(m) == alone[i].0, "{how}, evaluation {i} has other frame results");
        let s = score(m)?;
        ensure!(same_scores(&s, &alone[i].1), "{how}, evaluation {i} is scored {s:?} instead of {:?}", alone[i].1);
        Ok(())
    };
    // taking turns
    let mut ms: Vec<PerceptionEvaluationManager> = cfgs.iter().map(|cfg| PerceptionEvaluationManager { config: cfg, frame_ground_truths: vec![], frame_results: vec![] }).collect();
    let mut turns = c.turns.iter().copied().chain(0..=255).cycle();
    while c.hists.iter().zip(&ms).any(|(h, m)| m.frame_results.len() < h.frames.len()) {
        let i = turns.next().unwrap_or(0) as usize % ms.len();
        let k = ms[i].frame_results.len();
        if let Some(f) = c.hists[i].frames.get(k) {
            add(&mut ms[i], k, f)?;
            if k % 2 == 1 {
                score(&ms[(i + 1) % c.hists.len()])?;
            }
        }
    }
    for (i, m) in ms.iter().enumerate() {
        judge("taking turns", i, m)?;
    }
    // a copy goes its own way
    let mut copy = ms[0].clone();
    if let Some(f) = c.hists[0].frames.first() {
        add(&mut copy, 0, f)?;
        judge("with a copy that went on", 0, &ms[0])?;
        ensure!(copy.frame_results.len() == ms[0].frame_results.len() + 1, "a copy does not go on");
    }
    // at the same time
    let results: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..c.hists.len())
            .map(|i| {
                let (h, cfg, judge) = (&c.hists[i], &cfgs[i], &judge);
                s.spawn(move || guard("an evaluation", || run(cfg, &h.frames).and_then(|m| judge("at the same time", i, &m))).and_then(|r| r))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("{HARNESS}thread")))).collect()
    });
    results.into_iter().collect::<R>()?;
    ctx.nontrivial(c.hists.iter().filter(|h| h.frames.len() > 1).count() > 1);
    Ok(())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Sets {
    pub sets: Vec<Ds>,
    pub frame: u8,
}
/// One lidar record at a sample's time at most, so that its pose is the one that counts.
fn one_pose_per_sample(set: &mut Ds) {
    for s in set.scenes.iter_mut().flat_map(|s| s.samples.iter_mut()) {
        for (j, d) in s.sds.iter_mut().enumerate() {
            if j > 0 && d.off == 0 {
                d.off = 1 + j as i64;
            }
        }
    }
}
fn c32_datasets(c: &Sets, ctx: &mut Ctx) -> R {
    let frame = [FrameID::BaseLink, FrameID::Map][c.frame as usize % 2].clone();
    let mut dirs = Vec::new();
    for (i, set) in c.sets.iter().enumerate() {
        let mut set = set.clone();
        one_pose_per_sample(&mut set);
        // the directories have one name
        let dir = thread_dir(&format!("c32-{i}")).join("dataset");
        write_tables(&dir, &set.tables(&set.resolve()));
        dirs.push(dir);
    }
    let load = |dir: &PathBuf| load_dataset(VERSION, dir, &EvaluationTask::Detection, &frame).map(|f| listed(&f)).map_err(|e| format!("loading ground truth failed: {e}"));
    let first: Vec<_> = dirs.iter().map(load).collect::<Result<_, _>>()?;
    // again, the other way round
    for (i, d) in dirs.iter().enumerate().rev() {
        ensure!(load(d)? == first[i], "loading dataset {i} again gives other ground truths");
    }
    // at the same time, each twice
    let got: Vec<Result<_, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2 * dirs.len()).map(|k| { let (d, load) = (&dirs[k / 2], &load); s.spawn(move || guard("loading a dataset", || load(d)).and_then(|r| r)) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("{HARNESS}thread")))).collect()
    });
    for (k, g) in got.into_iter().enumerate() {
        ensure!(g? == first[k / 2], "loading dataset {} next to others gives other ground truths", k / 2);
    }
    ctx.nontrivial(first.iter().filter(|f| f.iter().any(|(_, l)| !l.is_empty())).count() > 1);
    Ok(())
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Changes {
    pub set: Ds,
    /// what changes before the next load, and the frame in which it is loaded
    pub steps: Vec<(u8, u8, u16)>,
}
/// A dataset whose files change between the loads: every load gives what the files hold then, as a
/// first load of the same files elsewhere does.
fn c32_changes(c: &Changes, ctx: &mut Ctx) -> R {
    let mut set = c.set.clone();
    one_pose_per_sample(&mut set);
    let dir = fresh_dir("c32-changing");
    let mut written: Vec<serde_json::Value> = Vec::new();
    let (mut last, mut seen) = (Vec::new(), Vec::new());
    let load = |dir: &PathBuf, frame: &FrameID| load_dataset(VERSION, dir, &EvaluationTask::Detection, frame).map(|f| listed(&f)).map_err(|e| format!("loading ground truth failed: {e}"));
    for (n, (kind, frame, by)) in c.steps.iter().enumerate() {
        let by = *by;
        if n > 0 {
            match kind % 8 {
                0 => set.cats.iter_mut().for_each(|k| *k = k.wrapping_add(1 + (by % 7) as u8)),
                1 => set.instances.iter_mut().flat_map(|i| i.anns.iter_mut()).for_each(|a| a.lidar += 1 + by as usize),
                2 => set.instances.iter_mut().flat_map(|i| i.anns.iter_mut()).for_each(|a| a.pose.t[by as usize % 3] += 1.5),
                3 => set.instances.iter_mut().flat_map(|i| i.anns.iter_mut()).for_each(|a| a.size[by as usize % 3] += 0.25),
                // in as many bytes
                6 => set.cats.rotate_left(1),
                7 => set.instances.iter_mut().flat_map(|i| i.anns.iter_mut()).for_each(|a| a.lidar ^= 1),
                4 => set.scenes.iter_mut().flat_map(|s| s.samples.iter_mut()).flat_map(|s| s.sds.iter_mut()).for_each(|d| d.pose.t[by as usize % 3] += 2.0),
                _ => {}
            }
        }
        let tables = set.tables(&set.resolve());
        if written.is_empty() {
            write_tables(&dir, &tables);
        } else {
            // only what differs is written
            let fresh = thread_dir("c32-next");
            write_tables(&fresh, &tables);
            for (k, name) in TABLES.iter().enumerate().filter(|(k, _)| tables[*k] != written[*k]) {
                let file = format!("{name}.json");
                let to = dir.join(VERSION).join(&file);
                let at = std::fs::metadata(&to).and_then(|m| m.modified());
                std::fs::copy(fresh.join(VERSION).join(&file), &to).map_err(|e| format!("{HARNESS}{k} {e}"))?;
                // at times with the times of the former files
                if by % 2 == 0 {
                    at.and_then(|at| std::fs::File::options().write(true).open(&to).and_then(|f| f.set_modified(at))).map_err(|e| format!("{HARNESS}{k} {e}"))?;
                }
            }
        }
        written = tables.clone();
        let frame = [FrameID::BaseLink, FrameID::Map][*frame as usize % 2].clone();
        seen.push((*kind, frame.clone(), tables, load(&dir, &frame)?));
    }
    // nothing else is loaded until here
    for (n, (kind, frame, tables, got)) in seen.into_iter().enumerate() {
        let elsewhere = fresh_dir(&format!("c32-elsewhere-{n}"));
        write_tables(&elsewhere, &tables);
        let want = load(&elsewhere, &frame)?;
        ensure!(got == want, "loaded for the {}. time after its files changed ({}), the dataset gives other ground truths than the same files elsewhere: {got:?} instead of {want:?}", n + 1, kind % 8);
        ctx.nontrivial(n > 0 && got != last && got.iter().any(|(_, l)| !l.is_empty()));
        last = got;
    }
    Ok(())
}
/// The same frames under settings that differ in one respect or in all.
fn alike() -> BoxedStrategy<Many> {
    (proptest::collection::vec(hist(4, 6, 3, false), 2..5), 0u8..8, any::<bool>(), proptest::option::of(any::<u8>()))
        .prop_map(|(mut hists, kind, permute, details)| {
            let first = hists[0].clone();
            for h in hists.iter_mut().skip(1) {
                h.frames = first.frames.clone();
                let own = std::mem::replace(&mut h.conf, first.conf.clone());
                match kind {
                    0 => h.conf.min_pts = own.min_pts.or(Some(3)),
                    1 => h.conf.uuids = own.uuids.or(Some(vec![1, 2])),
                    2 => (h.conf.max_x, h.conf.max_y) = (own.max_x.min(8.0), own.max_y),
                    3 => h.conf.targets = own.targets,
                    4 => (h.conf.cd, h.conf.pd) = (own.cd, own.pd),
                    5 => h.conf.min_pts = None,
                    _ => h.conf = own,
                }
                if let Some(d) = details {
                    // equal objects that differ otherwise
                    for (k, o) in h.frames.iter_mut().flat_map(|f| f.est.iter_mut().chain(f.gt.iter_mut())).enumerate() {
                        match (d as usize).wrapping_add(k * (d as usize / 16)) % 8 {
                            0 | 1 => o.conf *= 0.7,
                            2 => o.size[k % 3] += 0.5,
                            3 => o.vel = Some([1.0, 2.0, 3.0]),
                            4 => o.uuid = o.uuid.map(|u| (u + 1) % 6),
                            5 => o.pts = Some(3),
                            _ => {}
                        }
                    }
                }
                if permute && h.frames.len() > 1 {
                    h.frames.rotate_left(1);
                }
            }
            Many { hists, turns: vec![] }
        })
        .boxed()
}
pub fn c32s() -> Vec<Sub> {
    let o = DsOpts { scenes: 2, samples: 4, instances: 4, anns: 3, distinct: true, some: true, sds: 3, wide: false };
    vec![
        sub("managers", 3_000, 20, 8, || (proptest::collection::vec(hist(5, 6, 3, false), 2..5), proptest::collection::vec(any::<u8>(), 0..20)).prop_map(|(hists, turns)| Many { hists, turns }), c32_managers),
        sub("managers_alike", 2_000, 20, 8, alike, c32_managers),
        sub("managers_ties", 800, 20, 8, || (proptest::collection::vec(hist_ties(4, 6, 2), 2..4), proptest::collection::vec(any::<u8>(), 0..20)).prop_map(|(hists, turns)| Many { hists, turns }), c32_managers),
        sub("datasets_changed", 120, 20, 1, move || (ds::ds(o), proptest::collection::vec((0u8..8, 0u8..2, any::<u16>()), 2..5)).prop_map(|(set, steps)| Changes { set, steps }), c32_changes),
        sub("datasets", 600, 20, 8, move || (proptest::collection::vec(ds::ds(o), 2..4), 0u8..2).prop_map(|(sets, frame)| Sets { sets, frame }), c32_datasets),
    ]
}
