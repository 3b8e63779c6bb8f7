//! C13-C15: metrics over histories, and the manager.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::props::frames::{check_assignment, filter_params, frame_objs, kept, spelled, Scenes};
use crate::refm::*;
use perception_eval::config::{MetricsParams, PerceptionEvaluationConfig};
use perception_eval::dataset::FrameGroundTruth;
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::matching::MatchingMode;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::result::frame::PerceptionFrameResult;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Conf {
    pub targets: Vec<u8>,
    pub casing: u8,
    pub max_x: f64,
    pub max_y: f64,
    pub min_pts: Option<usize>,
    pub uuids: Option<Vec<u8>>,
    pub cd: f64,
    pub pd: f64,
    pub task: u8,
}
impl Conf {
    pub fn build(&self) -> Result<PerceptionEvaluationConfig, String> {
        let names: Vec<String> = self.targets.iter().map(|l| spelled(*l, self.casing)).collect();
        let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        self.build_named(&refs)
    }
    fn build_named(&self, names: &Vec<&str>) -> Result<PerceptionEvaluationConfig, String> {
        let filter_params = perception_eval::config::FilterParams::new(
            names,
            self.max_x,
            self.max_y,
            self.min_pts,
            self.uuids.as_ref().map(|u| u.iter().map(|x| uuid_str(*x)).collect()),
        )
        .map_err(|e| format!("FilterParams::new fails: {e}"))?;
        let metrics_params = MetricsParams::new(names, self.cd, self.pd, 0.5, 0.5).map_err(|e| format!("MetricsParams::new fails: {e}"))?;
        Ok(PerceptionEvaluationConfig {
            version: "annotation".into(),
            dataset_path: "none".into(),
            evaluation_task: [EvaluationTask::Detection, EvaluationTask::Tracking, EvaluationTask::Prediction][self.task as usize % 3].clone(),
            frame_id: FrameID::BaseLink,
            result_dir: "none".into(),
            log_dir: "none/log".into(),
            viz_dir: "none/visualize".into(),
            filter_params,
            metrics_params,
            load_raw_data: false,
        })
    }
    fn keep(&self, o: &Obj, is_gt: bool) -> bool {
        kept(o, is_gt, &self.targets, self.max_x, self.max_y, self.min_pts, &self.uuids)
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Hist {
    pub conf: Conf,
    pub frames: Vec<Scenes>,
    /// frame order of the permuted history; also a seed for other choices
    pub perm: Vec<u16>,
    /// how the confidences are spread (in the same order): as they are, beyond [0, 1], tiny, close together
    #[serde(default)]
    pub spread: u8,
}
impl Hist {
    fn spread(&self, frames: &mut [Scenes]) {
        for e in frames.iter_mut().flat_map(|f| f.est.iter_mut()) {
            e.conf = match self.spread {
                1 => e.conf * 100.0 - 20.0,
                2 => e.conf * 1e-6,
                3 => 0.9 + e.conf * 1e-9,
                4 => -e.conf,
                _ => e.conf,
            };
        }
    }
}

/// Confidences become distinct over the whole history, keeping their order.
fn distinct_conf(frames: &mut [Scenes]) {
    let mut keys: Vec<(f64, usize, usize)> = Vec::new();
    for (i, f) in frames.iter().enumerate() {
        for (j, e) in f.est.iter().enumerate() {
            keys.push((e.conf, i, j));
        }
    }
    // ties are broken by position, alternating direction
    keys.sort_by(|a, b| a.0.total_cmp(&b.0).then((a.1 * 31 + a.2 * 7).rem_euclid(13).cmp(&((b.1 * 31 + b.2 * 7).rem_euclid(13)))));
    let n = keys.len() as f64;
    for (k, (_, i, j)) in keys.into_iter().enumerate() {
        frames[i].est[j].conf = (k as f64 + 1.0) / (n + 1.0);
    }
}
/// Ground truths of one frame differ in pose or label.
fn distinct_gt(f: &mut Scenes) {
    let mut out: Vec<Obj> = Vec::new();
    for g in f.gt.drain(..) {
        if !out.iter().any(|o| o.pos == g.pos && o.label == g.label) {
            out.push(g);
        }
    }
    f.gt = out;
}

fn conf_strat(labels: u8, any_task: bool) -> BoxedStrategy<Conf> {
    (
        proptest::sample::subsequence((0..labels).collect::<Vec<u8>>(), 1..=labels as usize).prop_shuffle(),
        0u8..4,
        prop_oneof![1 => 0.5..13.0f64, 3 => Just(100.0)],
        prop_oneof![1 => 0.5..13.0f64, 3 => Just(100.0)],
        proptest::option::weighted(0.3, prop_oneof![0usize..7, 0usize..1000]),
        proptest::option::weighted(0.15, proptest::collection::vec(0u8..6, 1..5)),
        prop_oneof![0.05..3.0f64, Just(1.0)],
        prop_oneof![0.05..3.0f64, Just(2.0)],
        if any_task { prop_oneof![3 => Just(0u8), 1 => 1u8..3].boxed() } else { Just(0u8).boxed() },
    )
        .prop_map(|(targets, casing, max_x, max_y, min_pts, uuids, cd, pd, task)| Conf { targets, casing, max_x, max_y, min_pts, uuids, cd, pd, task })
        .boxed()
}
pub fn hist(max_frames: usize, max_objs: usize, labels: u8, any_task: bool) -> BoxedStrategy<Hist> {
    (
        conf_strat(labels, any_task),
        proptest::collection::vec(frame_objs(max_objs, max_objs, labels, false), 0..=max_frames),
        proptest::collection::vec(any::<u16>(), max_frames),
    )
        .prop_map(|(conf, mut frames, perm)| {
            frames.iter_mut().for_each(distinct_gt);
            distinct_conf(&mut frames);
            let spread = 0;
            Hist { conf, frames, perm, spread }
        })
        .boxed()
}
/// Labels that are listed several times.
pub fn hist_twice(max_frames: usize, max_objs: usize, labels: u8) -> BoxedStrategy<Hist> {
    (hist(max_frames, max_objs, labels, false), proptest::collection::vec((any::<prop::sample::Index>(), any::<prop::sample::Index>()), 1..4), proptest::option::weighted(0.1, 1usize..40))
        .prop_map(|(mut h, again, often)| {
            let l = &mut h.conf.targets;
            if let Some(n) = often {
                l.splice(0..0, vec![l[0]; n]);
            }
            for (i, j) in again {
                let x = l[i.index(l.len())];
                l.insert(j.index(l.len() + 1), x);
            }
            h
        })
        .boxed()
}
/// Histories with other spreads of confidence, and with frames that are added again.
pub fn hist_spread(max_frames: usize, max_objs: usize, labels: u8) -> BoxedStrategy<Hist> {
    (hist(max_frames, max_objs, labels, false), 0u8..5, proptest::collection::vec(any::<u16>(), 0..3))
        .prop_map(|(mut h, spread, again)| {
            for k in again {
                if !h.frames.is_empty() {
                    let i = k as usize % h.frames.len();
                    h.frames.push(h.frames[i].clone());
                }
            }
            distinct_conf(&mut h.frames);
            h.spread = spread;
            let mut frames = std::mem::take(&mut h.frames);
            h.spread(&mut frames);
            h.frames = frames;
            h
        })
        .boxed()
}
/// Histories of tilted objects.
pub fn hist_tilted(max_frames: usize, max_objs: usize, labels: u8) -> BoxedStrategy<Hist> {
    (
        hist(max_frames, 1, labels, false),
        proptest::collection::vec(frame_objs(max_objs, max_objs, labels, true), 0..=max_frames),
    )
        .prop_map(|(mut h, mut frames)| {
            frames.iter_mut().for_each(distinct_gt);
            distinct_conf(&mut frames);
            h.frames = frames;
            h
        })
        .boxed()
}
/// Histories in another place (as in a map frame) and of another scale.
pub fn hist_wide(max_frames: usize, max_objs: usize, labels: u8) -> BoxedStrategy<Hist> {
    (
        hist(max_frames, max_objs, labels, false),
        magnitude(-2, 3),
        prop_oneof![Just([0.0; 3]), Just([89_000.0, 42_000.0, 6.0]), pos(5_000.0, 50.0)],
        0u8..4,
    )
        .prop_map(|(mut h, k, at, frame)| {
            for o in h.frames.iter_mut().flat_map(|f| f.est.iter_mut().chain(f.gt.iter_mut())) {
                for i in 0..3 {
                    o.pos[i] = o.pos[i] * k + at[i];
                    o.size[i] *= k;
                }
                o.frame = frame;
            }
            // the limits are about the origin
            h.conf.max_x = h.conf.max_x * k + at[0].abs();
            h.conf.max_y = h.conf.max_y * k + at[1].abs();
            h.conf.cd *= k;
            h.conf.pd *= k;
            h
        })
        .boxed()
}
/// Frames at the same time, out of order, a microsecond or days apart, or at the beginning of time.
pub fn hist_times(max_frames: usize, max_objs: usize, labels: u8) -> BoxedStrategy<Hist> {
    let at = || prop_oneof![3 => 0i64..3, 1 => (0i64..3).prop_map(|k| k * 1_000_000), 1 => (0i64..9).prop_map(|k| k * 86_400_000_000), 1 => Just(-1_600_000_000_000_000i64)];
    (hist(max_frames, max_objs, labels, false), proptest::collection::vec(at(), max_frames), proptest::option::weighted(0.3, any::<u16>()))
        .prop_map(|(mut h, at, again)| {
            for (f, t) in h.frames.iter_mut().zip(at) {
                f.at = Some(1_600_000_000_000_000 + t);
            }
            if let Some(k) = again.map(|k| k as usize).filter(|_| !h.frames.is_empty()) {
                // a frame comes again at once, with other confidences and sizes
                let i = k % h.frames.len();
                let mut f = h.frames[i].clone();
                f.at = f.at.or(Some(1_600_000_000_000_000));
                h.frames[i].at = f.at;
                f.est.iter_mut().enumerate().for_each(|(j, e)| if k / 16 % 4 == j % 2 { e.size[0] += 0.5 } else { e.conf = (e.conf * 7.0) % 1.0 });
                h.frames.insert(i + 1, f);
                distinct_conf(&mut h.frames);
            }
            h
        })
        .boxed()
}
/// Confidences of a few values only.
pub fn hist_ties(max_frames: usize, max_objs: usize, labels: u8) -> BoxedStrategy<Hist> {
    (hist(max_frames, max_objs, labels, false), 1u8..6)
        .prop_map(|(mut h, steps)| {
            for e in h.frames.iter_mut().flat_map(|f| f.est.iter_mut()) {
                e.conf = (e.conf * steps as f64).floor() / steps as f64;
            }
            h
        })
        .boxed()
}

/// Many frames whose errors become ever more frequent as the confidence falls: precision-recall curves of
/// hundreds of steps.
pub fn hist_steady(max_frames: usize) -> BoxedStrategy<Hist> {
    (conf_strat(2, false), obj(ObjOpts { range: 12.0, tilt: false, labels: 2 }), 20..max_frames, 1usize..400, 0usize..4, 0.0..0.4f64, any::<bool>())
        .prop_map(|(mut conf, o, n, pace, first, dx, backwards)| {
            conf.targets = vec![o.label, 1 - o.label];
            (conf.max_x, conf.max_y, conf.min_pts, conf.uuids) = (500.0, 500.0, None, None);
            (conf.cd, conf.pd) = (1.0, 2.0);
            let mut k = 0.0;
            let mut frames: Vec<Scenes> = (0..n)
                .map(|i| {
                    let mut est = o.clone();
                    est.pos[i % 2] += dx;
                    est.rpy[2] += (i % 17) as f64 * 0.1;
                    let mut f = Scenes { est: vec![est], gt: vec![o.clone()], at: None };
                    for w in 0..first + i / pace.max(1 + n / 6) {
                        let mut e = o.clone();
                        e.pos = [40.0 + 3.0 * w as f64, o.pos[1], o.pos[2]];
                        f.est.push(e);
                    }
                    for e in f.est.iter_mut() {
                        k += 1.0;
                        e.conf = 1.0 - k * 1e-5;
                    }
                    f
                })
                .collect();
            if backwards {
                frames.reverse();
            }
            Hist { conf, frames, perm: vec![], spread: 0 }
        })
        .boxed()
}
/// Objects annotated several times, with exactly the same pose, label and time.
pub fn hist_dups(max_frames: usize, max_objs: usize, labels: u8) -> BoxedStrategy<Hist> {
    (hist(max_frames, max_objs, labels, false), proptest::collection::vec((any::<u16>(), any::<u16>()), 1..5))
        .prop_map(|(mut h, again)| {
            let n = h.frames.len().max(1);
            for (f, g) in again {
                if let Some(f) = h.frames.get_mut(f as usize % n).filter(|f| !f.gt.is_empty()) {
                    let o = f.gt[g as usize % f.gt.len()].clone();
                    f.gt.push(o);
                }
            }
            h
        })
        .boxed()
}

fn ts(i: usize) -> i64 {
    1_600_000_000_000_000 + i as i64 * 100_000
}
fn time_of(i: usize, s: &Scenes) -> chrono::NaiveDateTime {
    micros(s.at.unwrap_or(ts(i)))
}
pub fn gt_frame(i: usize, s: &Scenes) -> FrameGroundTruth {
    let objects = s
        .gt
        .iter()
        .enumerate()
        .map(|(_, o)| {
            let mut d = o.build();
            d.timestamp = time_of(i, s);
            d
        })
        .collect();
    FrameGroundTruth { timestamp: time_of(i, s), objects }
}

pub fn run<'a>(cfg: &'a PerceptionEvaluationConfig, frames: &[Scenes]) -> Result<PerceptionEvaluationManager<'a>, String> {
    let mut m = PerceptionEvaluationManager { config: cfg, frame_ground_truths: vec![], frame_results: vec![] };
    for (i, f) in frames.iter().enumerate() {
        let est: Vec<DynamicObject> = f.est.iter().map(|o| o.build()).collect();
        m.add_frame_result(&est, &gt_frame(i, f)).map_err(|e| format!("add_frame_result fails: {e}"))?;
    }
    Ok(m)
}

// ---------------------------------------------------------------- reading scores

#[derive(Debug, Clone, PartialEq)]
pub struct ModeScores {
    pub labels: Vec<String>,
    pub thresholds: Vec<f64>,
    pub ap: Vec<f64>,
    pub aph: Vec<f64>,
    pub map: f64,
    pub maph: f64,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Scores {
    pub modes: [ModeScores; 2],
    /// precision of the values
    pub tol: f64,
}

pub const SECTIONS: [&str; 2] = ["CenterDistance", "PlaneDistance"];

fn number_after(text: &str, key: &str) -> Option<f64> {
    let at = text.find(key)? + key.len();
    text[at..].split_whitespace().next()?.parse().ok()
}
pub fn list_after(text: &str, key: &str) -> Option<Vec<f64>> {
    let at = text.find(key)? + key.len();
    let rest = text[at..].trim_start();
    let rest = rest.strip_prefix('[')?;
    let inner = &rest[..rest.find(']')?];
    if inner.trim().is_empty() {
        return Some(vec![]);
    }
    inner.split(',').map(|s| s.trim()).filter(|s| !s.is_empty()).map(|s| s.parse().ok()).collect()
}
/// Reads the printed scores; full precision is taken from the debug form if it has the known shape.
pub fn read_scores(display: &str, debug: &str) -> Result<Scores, String> {
    let mut modes = Vec::new();
    for (k, sec) in SECTIONS.iter().enumerate() {
        let head = format!("[{sec}]");
        let at = display.find(&head).ok_or_else(|| format!("the printed score has no section {sec}: {display}"))?;
        let mut body = &display[at + head.len()..];
        if let Some(next) = SECTIONS.iter().enumerate().filter(|(j, _)| *j != k).filter_map(|(_, s)| body.find(&format!("[{s}]"))).min() {
            body = &body[..next];
        }
        let row = |name: &str| -> Option<Vec<String>> {
            body.lines()
                .map(|l| l.split('|').map(|c| c.trim().to_string()).filter(|c| !c.is_empty()).collect::<Vec<_>>())
                .find(|cells| cells.first().is_some_and(|c| c == name))
                .map(|cells| cells[1..].to_vec())
        };
        let nums = |name: &str| -> Option<Vec<f64>> { row(name)?.iter().map(|c| c.parse().ok()).collect() };
        let bad = || format!("cannot read the printed score: {display}");
        let thresholds: Vec<f64> = row("Label").ok_or_else(bad)?.iter().filter_map(|c| c.split('(').nth(1)?.trim().trim_end_matches(')').trim().parse().ok()).collect();
        modes.push(ModeScores {
            thresholds,
            labels: row("Label").ok_or_else(bad)?.iter().map(|c| c.split('(').next().unwrap_or("").trim().to_string()).collect(),
            ap: nums("AP").ok_or_else(bad)?,
            aph: nums("APH").ok_or_else(bad)?,
            map: number_after(body, "mAP:").ok_or_else(bad)?,
            maph: number_after(body, "mAPH:").ok_or_else(bad)?,
        });
    }
    let mut tol = 5.1e-4;
    let full: Option<Vec<(Vec<f64>, Vec<f64>)>> = SECTIONS
        .iter()
        .map(|sec| {
            let at = debug.find(&format!("matching_mode: {sec}"))?;
            let rest = &debug[at..];
            let rest = &rest[..rest[1..].find("matching_mode:").map(|e| e + 1).unwrap_or(rest.len())];
            Some((list_after(rest, "\"AP\":")?, list_after(rest, "\"APH\":")?))
        })
        .collect();
    if let Some(full) = full {
        let agree = full.iter().zip(&modes).all(|((ap, aph), m)| close_list(ap, &m.ap, 6e-4) && close_list(aph, &m.aph, 6e-4));
        if agree {
            for ((ap, aph), m) in full.into_iter().zip(modes.iter_mut()) {
                m.ap = ap;
                m.aph = aph;
            }
            tol = 1e-9;
        }
    }
    let [a, b]: [ModeScores; 2] = modes.try_into().map_err(|_| format!("{HARNESS}modes"))?;
    Ok(Scores { modes: [a, b], tol })
}
fn same_num(a: f64, b: f64, tol: f64) -> bool {
    (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol
}
fn close_list(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_num(*x, *y, tol))
}
pub fn score(m: &PerceptionEvaluationManager) -> Result<Scores, String> {
    let s = m.get_metrics_score().map_err(|e| format!("get_metrics_score fails: {e}"))?;
    read_scores(&s.to_string(), &format!("{s:?}"))
}
pub fn same_scores(a: &Scores, b: &Scores) -> bool {
    let tol = if a.tol.max(b.tol) > 1e-6 { 1.1e-3 } else { 1e-9 };
    (0..2).all(|k| {
        let (x, y) = (&a.modes[k], &b.modes[k]);
        x.labels == y.labels && close_list(&x.ap, &y.ap, tol) && close_list(&x.aph, &y.aph, tol) && same_num(x.map, y.map, 1.1e-3) && same_num(x.maph, y.maph, 1.1e-3)
    })
}

// ---------------------------------------------------------------- C13

fn heading_of(o: &DynamicObject) -> f64 {
    let x = qrot(&[1.0, 0.0, 0.0], &o.orientation);
    x[1].atan2(x[0])
}
fn bref(o: &DynamicObject) -> BoxRef {
    BoxRef { pos: o.position, q: o.orientation, size: o.size }
}
/// Whether the pair is correct; None if rounding or tied corners leave it open.
pub fn correct(e: &DynamicObject, g: &DynamicObject, mode: usize, t: f64) -> Option<bool> {
    if mode == 0 {
        let d = dist3(&e.position, &g.position);
        ((d - t).abs() > 1e-9 + 1e-13 * norm(&g.position)).then_some(d < t)
    } else {
        let c = plane_distances(&bref(e), &bref(g));
        if c.iter().any(|d| (d - t).abs() < 1e-7 + 1e-11 * norm(&g.position)) {
            return None;
        }
        let r: Vec<bool> = c.iter().map(|d| *d < t).collect();
        r.iter().all(|x| *x == r[0]).then_some(r[0])
    }
}
/// The least and the greatest area that the order of equally confident detections can give: moving a
/// greater weight forward raises recall and precision there and changes neither elsewhere.
pub fn areas(dets: &[(f64, f64)], num_gt: usize) -> (f64, f64) {
    let with = |sign: f64| {
        let mut d = dets.to_vec();
        d.sort_by(|a, b| b.0.total_cmp(&a.0).then((sign * a.1).total_cmp(&(sign * b.1))));
        area(d, num_gt)
    };
    (with(1.0), with(-1.0))
}
/// Area under the interpolated curve of `(confidence, weight)` detections, each weight 0 for a false positive.
fn area(mut dets: Vec<(f64, f64)>, num_gt: usize) -> f64 {
    if dets.is_empty() && num_gt == 0 {
        return f64::NAN;
    }
    if dets.is_empty() || num_gt == 0 {
        return 0.0;
    }
    dets.sort_by(|a, b| b.0.total_cmp(&a.0));
    let mut cum = 0.0;
    let mut pts: Vec<(f64, f64)> = Vec::new(); // recall, precision
    for (k, (_, w)) in dets.iter().enumerate() {
        cum += w;
        pts.push((cum / num_gt as f64, cum / (k as f64 + 1.0)));
    }
    let mut out = 0.0;
    let mut prev = 0.0;
    for k in 0..pts.len() {
        let best = pts[k..].iter().map(|p| p.1).fold(0.0, f64::max);
        out += (pts[k].0 - prev) * best;
        prev = pts[k].0;
    }
    out
}

/// What a label's score is made of: `(confidence, weight)` of each result.
pub struct Detections {
    /// a decision is too close to call
    pub open: bool,
    pub num_gt: usize,
    pub ap: Vec<(f64, f64)>,
    pub aph: Vec<(f64, f64)>,
}
pub fn detections(c: &Hist, m: &PerceptionEvaluationManager, l: u8, k: usize) -> Detections {
    let t = [c.conf.cd, c.conf.pd][k];
    let label = LABELS[l as usize].clone();
    let mut open = false;
    let num_gt: usize = c.frames.iter().map(|f| f.gt.iter().filter(|g| g.label == l && c.conf.keep(g, true)).count()).sum();
    let (mut ap, mut aph) = (Vec::new(), Vec::new());
    for fr in &m.frame_results {
        for r in fr.results().iter().filter(|r| r.estimated_object.label == label) {
            let e = &r.estimated_object;
            let mut w = (0.0, 0.0);
            if let Some(g) = &r.ground_truth_object {
                match correct(e, g, k, t) {
                    None => open = true,
                    Some(false) => {}
                    Some(true) => {
                        // the heading is not defined there
                        let near_lock = |o: &DynamicObject| {
                            let x = qrot(&[1.0, 0.0, 0.0], &o.orientation);
                            x[0].hypot(x[1]) < 2e-3
                        };
                        open |= near_lock(e) || near_lock(g);
                        let d = wrap(heading_of(e) - heading_of(g)).abs();
                        w = (1.0, 1.0 - d / PI);
                    }
                }
            }
            ap.push((e.confidence, w.0));
            aph.push((e.confidence, w.1));
        }
    }
    Detections { open, num_gt, ap, aph }
}

/// The recorded results are about the reported objects that pass the filters, as they were reported.
fn faithful(c: &Hist, m: &PerceptionEvaluationManager) -> R {
    ensure!(m.frame_results.len() == c.frames.len(), "{} frames were added, {} are recorded", c.frames.len(), m.frame_results.len());
    for (i, (fr, f)) in m.frame_results.iter().zip(&c.frames).enumerate() {
        let mut est: Vec<DynamicObject> = f.est.iter().filter(|o| c.conf.keep(o, false)).map(|o| o.build()).collect();
        ensure!(fr.results().len() == est.len(), "frame {i} has {} results of {} estimates", fr.results().len(), est.len());
        let gt = gt_frame(i, f).objects;
        for r in fr.results() {
            let k = est.iter().position(|e| same_object(e, &r.estimated_object)).ok_or_else(|| format!("frame {i} has a result for an estimate that was not reported: {:?}", r.estimated_object))?;
            est.swap_remove(k);
            if let Some(g) = &r.ground_truth_object {
                ensure!(gt.iter().any(|x| same_object(x, g)), "frame {i} has a result for a ground truth it does not have: {g:?}");
            }
        }
    }
    Ok(())
}

fn c13(c: &Hist, ctx: &mut Ctx) -> R {
    let cfg = c.conf.build()?;
    let m = run(&cfg, &c.frames)?;
    faithful(c, &m)?;
    let s = score(&m)?;
    let mut weights = Vec::new();
    let mut interesting = false;
    for k in 0..2 {
        let ms = &s.modes[k];
        let names: Vec<String> = c.conf.targets.iter().map(|l| LABEL_PRINT[*l as usize].to_string()).collect();
        ensure!(ms.labels == names, "{}: scores for {:?} instead of {names:?}", SECTIONS[k], ms.labels);
        ensure!(ms.ap.len() == names.len() && ms.aph.len() == names.len(), "{}: {} scores for {} labels", SECTIONS[k], ms.ap.len(), names.len());
        let (mut aps, mut aphs) = (Vec::new(), Vec::new());
        let mut any_open = false;
        for (li, l) in c.conf.targets.iter().enumerate() {
            let label = LABELS[*l as usize].clone();
            let Detections { open, num_gt, ap, aph } = detections(c, &m, *l, k);
            if open {
                ctx.class("open decision (tie or threshold)");
                any_open = true;
                continue;
            }
            interesting |= ap.iter().any(|d| d.1 > 0.0) && ap.iter().any(|d| d.1 == 0.0) && ap.len() > 2;
            ctx.class_if(ap.is_empty() && num_gt > 0, "label without estimates");
            ctx.class_if(!ap.is_empty() && num_gt == 0, "label without ground truths");
            ctx.class_if(ap.is_empty() && num_gt == 0, "label with nothing");
            weights.push(aph.len());
            let (wa, wh) = (areas(&ap, num_gt), areas(&aph, num_gt));
            let tol = s.tol;
            let within = |x: f64, w: (f64, f64)| same_num(x, w.0, tol) || same_num(x, w.1, tol) || (w.0 < x && x < w.1);
            ctx.class_if(wa.0 != wa.1 && !wa.0.is_nan(), "ties matter");
            ensure!(within(ms.ap[li], wa), "{} AP of {label:?} is {} instead of {wa:?} ({} ground truths, detections {ap:?})", SECTIONS[k], ms.ap[li], num_gt);
            ensure!(within(ms.aph[li], wh), "{} APH of {label:?} is {} instead of {wh:?} ({} ground truths, detections {aph:?})", SECTIONS[k], ms.aph[li], num_gt);
            // with ties, what was reported
            aps.push(if wa.0 == wa.1 { wa.0 } else { ms.ap[li] });
            aphs.push(if wh.0 == wh.1 { wh.0 } else { ms.aph[li] });
        }
        if !any_open && aps.iter().chain(&aphs).all(|x| x.is_finite()) {
            let n = aps.len() as f64;
            let (ma, mh) = (aps.iter().sum::<f64>() / n, aphs.iter().sum::<f64>() / n);
            ensure!((ms.map - ma).abs() <= 5.1e-4, "{} mAP is {} instead of {ma}", SECTIONS[k], ms.map);
            ensure!((ms.maph - mh).abs() <= 5.1e-4, "{} mAPH is {} instead of {mh}", SECTIONS[k], ms.maph);
            ctx.class("means compared");
        }
    }
    ctx.nontrivial(interesting);
    Ok(())
}
/// A history of up to hundreds of thousands of objects, all of which are reported in place or missed.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Huge {
    frames: u32,
    /// ground truths and estimates per frame
    gts: u32,
    est: u32,
    label: u8,
}
fn c13_huge(c: &Huge, ctx: &mut Ctx) -> R {
    let conf = Conf { targets: vec![c.label], casing: 0, max_x: 1e9, max_y: 1e9, min_pts: None, uuids: None, cd: 1.0, pd: 2.0, task: 0 };
    let cfg = conf.build()?;
    let mut m = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: vec![], frame_results: vec![] };
    let one = |i: u32| {
        Obj { pos: [i as f64 * 5.0, 2.0, 0.0], rpy: [0.0; 3], neg: false, size: [1.0; 3], conf: 0.5, label: c.label, pts: None, uuid: None, vel: None, ts: ts(0), frame: 0 }.build()
    };
    let objects: Vec<DynamicObject> = (0..c.gts).map(one).collect();
    let est = &objects[..c.est.min(c.gts) as usize];
    for i in 0..c.frames {
        m.add_frame_result(est, &FrameGroundTruth { timestamp: micros(ts(i as usize)), objects: objects.clone() }).map_err(|e| format!("add_frame_result fails: {e}"))?;
    }
    let s = score(&m)?;
    // without false positives the curve is flat at 1 up to the recall
    let want = if c.gts == 0 || c.frames == 0 { f64::NAN } else { est.len() as f64 / c.gts as f64 };
    for (k, ms) in s.modes.iter().enumerate() {
        ensure!(
            close_list(&ms.ap, &[want], s.tol) && close_list(&ms.aph, &[want], s.tol),
            "{}: AP {:?} and APH {:?} instead of {want}, as {} of {} ground truths in each of {} frames were reported",
            SECTIONS[k], ms.ap, ms.aph, est.len(), c.gts, c.frames
        );
    }
    ctx.class_if(c.frames * c.gts > 65_536, "more than 65536 ground truths");
    ctx.class_if(c.frames * c.est.min(c.gts) > 65_536, "more than 65536 results");
    ctx.nontrivial(c.frames * c.gts > 1_000);
    Ok(())
}
fn huge() -> BoxedStrategy<Huge> {
    let up = |b: u32| (0..b).prop_flat_map(|b| (1u32 << b)..=(1 << b) * 2);
    prop_oneof![
        // few large frames
        2 => (20u32..120, 700u32..1_500, 0u32..8),
        1 => (1u32..4, 20_000u32..70_000, 0u32..3),
        // many small ones
        1 => (20_000u32..70_000, 1u32..4, 1u32..4),
        1 => (up(9), up(7), up(4)),
    ]
    .prop_flat_map(|(frames, gts, est)| (0u8..8).prop_map(move |label| Huge { frames, gts, est, label }))
    .boxed()
}
pub fn c13s() -> Vec<Sub> {
    vec![
        sub("huge", 8, 10, 8, huge, c13_huge),
        sub("one_label", 24_000, 40, 8, || hist(4, 6, 1, false), c13),
        sub("labels", 24_000, 40, 8, || hist(5, 8, 3, false), c13),
        sub("long", 1_200, 40, 8, || hist(30, 12, 4, false), c13),
        sub("spread", 12_000, 40, 8, || hist_spread(4, 7, 2), c13),
        sub("tilted", 12_000, 40, 8, || hist_tilted(4, 7, 2), c13),
        sub("ties", 12_000, 40, 8, || hist_ties(4, 7, 2), c13),
        sub("dense", 40, 40, 8, || hist(10, 80, 1, false), c13),
        sub("wide", 12_000, 40, 8, || hist_wide(4, 7, 2), c13),
        sub("all_labels", 2_000, 40, 8, || hist(5, 20, 8, false), c13),
        sub("drive", 40, 40, 8, || hist(400, 3, 2, false), c13),
        sub("thousands", 1, 40, 1, || hist(5_000, 1, 2, false), c13),
        sub("steady", 12, 40, 8, || hist_steady(1_500), c13),
        sub("duplicates", 8_000, 40, 8, || hist_dups(3, 6, 2), c13),
        sub("times", 8_000, 40, 8, || hist_times(5, 6, 2), c13),
        sub("listed_twice", 4_000, 40, 8, || hist_twice(4, 7, 3), c13),
    ]
}

// ---------------------------------------------------------------- C14

pub fn history(m: &PerceptionEvaluationManager) -> String {
    format!("{:?}", m.frame_results)
}

fn c14(c: &Hist, ctx: &mut Ctx) -> R {
    let cfg = c.conf.build()?;
    let m = run(&cfg, &c.frames)?;
    let before = history(&m);
    let s = score(&m)?;
    let tol = if s.tol > 1e-6 { 1.1e-3 } else { 1e-9 };
    let mut mixed = false;
    for (k, ms) in s.modes.iter().enumerate() {
        for i in 0..ms.ap.len() {
            let (a, h) = (ms.ap[i], ms.aph[i]);
            ensure!(a.is_nan() == h.is_nan(), "{}: AP {a} but APH {h}", SECTIONS[k]);
            if a.is_nan() {
                continue;
            }
            mixed |= a > 0.01 && a < 0.99;
            ensure!((0.0..=1.0 + tol).contains(&a) && (0.0..=1.0 + tol).contains(&h), "{}: AP {a}, APH {h} out of range", SECTIONS[k]);
            ensure!(h <= a + tol, "{}: APH {h} exceeds AP {a}", SECTIONS[k]);
        }
    }
    ctx.nontrivial(mixed);
    // Asking again.
    ensure!(same_scores(&s, &score(&m)?), "asking again gives another score");
    ensure!(before == history(&m), "asking for the score changes the history");
    // Another order of the frames.
    let mut order: Vec<usize> = (0..c.frames.len()).collect();
    order.sort_by_key(|i| (c.perm.get(*i).copied().unwrap_or(0), *i));
    let permuted: Vec<Scenes> = order.iter().map(|i| c.frames[*i].clone()).collect();
    let s2 = score(&run(&cfg, &permuted)?)?;
    ensure!(same_scores(&s, &s2), "frame order {order:?} changes the score: {s:?} and {s2:?}");
    // Only the ranking of confidences matters.
    let mut scaled = c.frames.clone();
    for e in scaled.iter_mut().flat_map(|f| f.est.iter_mut()) {
        e.conf = match c.perm.last().copied().unwrap_or(0) % 4 {
            0 => e.conf * e.conf * 0.5,
            1 => e.conf * 100.0 - 20.0,
            2 => e.conf - 2.0,
            _ => e.conf * 1e-7,
        };
    }
    ensure!(same_scores(&s, &score(&run(&cfg, &scaled)?)?), "an order-preserving change of the confidences changes the score");
    // Labels do not influence each other.
    let pick = c.perm.first().copied().unwrap_or(0) as usize % c.conf.targets.len();
    let l = c.conf.targets[pick];
    let mut only = c.frames.clone();
    for f in only.iter_mut() {
        f.est.retain(|o| o.label == l);
        f.gt.retain(|o| o.label == l);
    }
    let s3 = score(&run(&cfg, &only)?)?;
    for k in 0..2 {
        ensure!(
            same_num(s.modes[k].ap[pick], s3.modes[k].ap[pick], tol) && same_num(s.modes[k].aph[pick], s3.modes[k].aph[pick], tol),
            "{}: the score of {} changes when objects of other labels are removed",
            SECTIONS[k],
            LABEL_PRINT[l as usize]
        );
    }
    // Naming labels twice, also by an alias.
    let alias = ["vehicle.car", "vehicle.truck", "vehicle.bus", "vehicle.bicycle", "vehicle.motorcycle", "pedestrian.adult", "ANIMAL", "Unknown"];
    let mut names: Vec<&str> = c.conf.targets.iter().map(|l| LABEL_NAMES[*l as usize]).collect();
    let at = c.perm.last().copied().unwrap_or(0) as usize % (names.len() + 1);
    names.insert(at, alias[l as usize]);
    let cfg2 = c.conf.build_named(&names)?;
    let s4 = score(&run(&cfg2, &c.frames)?)?;
    for k in 0..2 {
        ensure!(s4.modes[k].ap.len() == names.len(), "{} scores for {} labels", s4.modes[k].ap.len(), names.len());
        for i in 0..names.len() {
            let orig = if i == at {
                pick
            } else if i > at {
                i - 1
            } else {
                i
            };
            ensure!(
                same_num(s4.modes[k].ap[i], s.modes[k].ap[orig], tol) && same_num(s4.modes[k].aph[i], s.modes[k].aph[orig], tol),
                "{}: with targets {names:?} the score of {} is {} instead of {}",
                SECTIONS[k],
                names[i],
                s4.modes[k].ap[i],
                s.modes[k].ap[orig]
            );
        }
    }
    // An extra false positive, ranked last.
    let mut more = c.frames.clone();
    let mut fp = c.frames.iter().flat_map(|f| f.est.iter()).find(|o| o.label == l).cloned();
    if let Some(fp) = fp.as_mut() {
        fp.conf = 1e-9;
        fp.pos = [0.0, 0.0, 0.0];
        more.push(Scenes { est: vec![fp.clone()], gt: vec![], at: more.last().and_then(|f| f.at) });
        let s5 = score(&run(&cfg, &more)?)?;
        for k in 0..2 {
            let (a, b) = (&s.modes[k], &s5.modes[k]);
            for i in 0..a.ap.len() {
                if i == pick {
                    ensure!(a.ap[i].is_nan() || b.ap[i] <= a.ap[i] + tol, "{}: a false positive raises AP from {} to {}", SECTIONS[k], a.ap[i], b.ap[i]);
                    ensure!(a.aph[i].is_nan() || b.aph[i] <= a.aph[i] + tol, "{}: a false positive raises APH from {} to {}", SECTIONS[k], a.aph[i], b.aph[i]);
                } else {
                    ensure!(same_num(a.ap[i], b.ap[i], tol), "{}: a false positive of another label changes AP", SECTIONS[k]);
                }
            }
        }
    }
    Ok(())
}

/// Ground truth reported as is, and nothing reported.
fn c14_extremes(c: &Hist, ctx: &mut Ctx) -> R {
    let cfg = c.conf.build()?;
    let mut perfect = c.frames.clone();
    for f in perfect.iter_mut() {
        f.est = f.gt.clone();
    }
    distinct_conf(&mut perfect);
    let m = run(&cfg, &perfect)?;
    let s = score(&m)?;
    let mut nothing = c.frames.clone();
    nothing.iter_mut().for_each(|f| f.est.clear());
    let s0 = score(&run(&cfg, &nothing)?)?;
    let mut any = false;
    for (i, l) in c.conf.targets.iter().enumerate() {
        let counts: Vec<(usize, usize)> = c
            .frames
            .iter()
            .map(|f| {
                (
                    f.gt.iter().filter(|g| g.label == *l && c.conf.keep(g, true)).count(),
                    f.gt.iter().filter(|g| g.label == *l && c.conf.keep(g, false)).count(),
                )
            })
            .collect();
        let n: usize = counts.iter().map(|c| c.0).sum();
        // ground truths dropped only as ground truths (points, uuid) leave false positives behind
        let clean = counts.iter().all(|c| c.0 == c.1);
        for k in 0..2 {
            if n > 0 && clean {
                any = true;
                ensure!(same_num(s.modes[k].ap[i], 1.0, s.tol), "{}: AP of perfect estimates of {} is {}", SECTIONS[k], LABEL_PRINT[*l as usize], s.modes[k].ap[i]);
                ensure!(same_num(s.modes[k].aph[i], 1.0, s.tol.max(1e-7)), "{}: APH of perfect estimates of {} is {}", SECTIONS[k], LABEL_PRINT[*l as usize], s.modes[k].aph[i]);
            }
            let want = if n > 0 { 0.0 } else { f64::NAN };
            ensure!(same_num(s0.modes[k].ap[i], want, s0.tol) && same_num(s0.modes[k].aph[i], want, s0.tol), "{}: AP without any estimate is {} instead of {want} ({n} ground truths)", SECTIONS[k], s0.modes[k].ap[i]);
        }
    }
    ctx.nontrivial(any);
    Ok(())
}
/// No decision of matching or judging is near a tie.
fn settled(c: &Hist) -> bool {
    c.frames.iter().all(|f| {
        c.conf.targets.iter().all(|l| {
            let mut all: Vec<f64> = Vec::new();
            for e in f.est.iter().filter(|o| o.label == *l && c.conf.keep(o, false)) {
                for g in f.gt.iter().filter(|o| o.label == *l && c.conf.keep(o, true)) {
                    let (e, g) = (e.build(), g.build());
                    if correct(&e, &g, 0, c.conf.cd).is_none() || correct(&e, &g, 1, c.conf.pd).is_none() {
                        return false;
                    }
                    all.push(dist3(&e.position, &g.position));
                }
            }
            all.sort_by(f64::total_cmp);
            all.windows(2).all(|w| w[1] - w[0] > 1e-7)
        })
    })
}
/// Changes of a history that change no score.
fn c14_alike(c: &Hist, ctx: &mut Ctx) -> R {
    let mut c = c.clone();
    (c.conf.max_x, c.conf.max_y) = (1e3, 1e3);
    if !settled(&c) {
        ctx.class("tied, not judged");
        return Ok(());
    }
    let s = score(&run(&c.conf.build()?, &c.frames)?)?;
    let judge = |what: &str, d: &Hist| -> R {
        let s2 = score(&run(&d.conf.build()?, &d.frames)?)?;
        for k in 0..2 {
            let (x, y) = (&s.modes[k], &s2.modes[k]);
            let tol = if s.tol.max(s2.tol) > 1e-6 { 1.1e-3 } else { 1e-7 };
            ensure!(close_list(&x.ap, &y.ap, tol) && close_list(&x.aph, &y.aph, tol), "{}: {what} changes the score from {x:?} to {y:?}", SECTIONS[k]);
        }
        Ok(())
    };
    let r = |i: usize| c.perm.get(i % c.perm.len().max(1)).copied().unwrap_or(0);
    // other labels
    let mut d = c.clone();
    let k = (r(0) % 8) as u8;
    d.conf.targets.iter_mut().for_each(|l| *l = (*l + k) % 8);
    d.frames.iter_mut().flat_map(|f| f.est.iter_mut().chain(f.gt.iter_mut())).for_each(|o| o.label = (o.label + k) % 8);
    judge("renaming the labels", &d)?;
    // the vehicle looks elsewhere
    let a = r(1) as f64 / 65536.0 * 2.0 * PI;
    let mut d = c.clone();
    for o in d.frames.iter_mut().flat_map(|f| f.est.iter_mut().chain(f.gt.iter_mut())) {
        o.pos = [a.cos() * o.pos[0] - a.sin() * o.pos[1], a.sin() * o.pos[0] + a.cos() * o.pos[1], o.pos[2]];
        o.rpy[2] += a;
    }
    judge("turning everything about the vehicle", &d)?;
    // lifted
    let mut d = c.clone();
    d.frames.iter_mut().flat_map(|f| f.est.iter_mut().chain(f.gt.iter_mut())).for_each(|o| o.pos[2] += r(2) as f64 / 256.0);
    judge("lifting everything", &d)?;
    // what is not looked at
    let mut d = c.clone();
    for (i, e) in d.frames.iter_mut().flat_map(|f| f.est.iter_mut()).enumerate() {
        let x = r(i);
        e.neg ^= x & 1 == 1;
        e.vel = (x & 2 == 2).then_some([x as f64, -1.0, 0.5]);
        e.uuid = (x & 4 == 4).then_some((x >> 3) as u8 % 9);
        e.pts = (x & 8 == 8).then_some(x as usize);
        e.ts += x as i64 * 10;
        e.size[2] *= 1.0 + x as f64 / 65536.0;
    }
    judge("the estimates' times, speeds, uuids, point counts, heights and quaternion signs", &d)?;
    // order within the frames
    let mut d = c.clone();
    for f in d.frames.iter_mut() {
        let (n, m) = (f.est.len().max(1), f.gt.len().max(1));
        f.est.rotate_left(r(3) as usize % n);
        f.gt.rotate_left(r(4) as usize % m);
        if r(5) % 2 == 1 {
            f.est.reverse();
        }
        if r(6) % 2 == 1 {
            f.gt.reverse();
        }
    }
    judge("the order within the frames", &d)?;
    // frames without objects
    let mut d = c.clone();
    let at = r(7) as usize % (d.frames.len() + 1);
    d.frames.insert(at, Scenes { est: vec![], gt: vec![], at: None });
    judge("an empty frame", &d)?;
    let n = s.modes.iter().flat_map(|m| m.ap.iter()).filter(|x| **x > 0.01 && **x < 0.99).count();
    ctx.nontrivial(n > 0);
    Ok(())
}
pub fn c14s() -> Vec<Sub> {
    vec![
        sub("alike", 12_000, 40, 8, || hist(4, 6, 3, false), c14_alike),
        sub("alike_many", 400, 40, 8, || hist(12, 20, 5, false), c14_alike),
        sub("laws", 16_000, 40, 8, || hist(4, 6, 3, false), c14),
        sub("extremes", 16_000, 40, 8, || hist(4, 6, 4, false), c14_extremes),
        sub("all_labels", 1_600, 40, 8, || hist(6, 20, 8, false), c14),
        sub("wide", 4_000, 40, 8, || hist_wide(4, 6, 3), c14),
        sub("wide_extremes", 4_000, 40, 8, || hist_wide(4, 6, 4), c14_extremes),
        sub("drive", 20, 40, 8, || hist(300, 3, 2, false), c14),
        sub("times", 4_000, 40, 8, || hist_times(5, 6, 3), c14),
        sub("duplicates", 2_000, 40, 8, || hist_dups(3, 6, 2), c14),
        sub("duplicates_extremes", 2_000, 40, 8, || hist_dups(3, 6, 2), c14_extremes),
        sub("times_alike", 2_000, 40, 8, || hist_times(4, 6, 3), c14_alike),
    ]
}

// ---------------------------------------------------------------- C15

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    /// add these estimates for the ground truth frame with this index
    Add(u8),
    /// look up a frame near the time of the frame with this index and add estimates for it
    Lookup(u8, i32),
    Score,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Session {
    hist: Hist,
    ops: Vec<Op>,
}

fn check_frame(fr: &PerceptionFrameResult, f: &Scenes, i: usize, conf: &Conf) -> R {
    let gt_all = gt_frame(i, f).objects;
    let gt: Vec<DynamicObject> = gt_all.iter().zip(&f.gt).filter(|(_, o)| conf.keep(o, true)).map(|(d, _)| d.clone()).collect();
    let est: Vec<DynamicObject> = f.est.iter().filter(|o| conf.keep(o, false)).map(|o| o.build()).collect();
    ensure!(fr.frame_ground_truth().timestamp == time_of(i, f), "the frame result has time {} instead of {}", fr.frame_ground_truth().timestamp, time_of(i, f));
    let kept = &fr.frame_ground_truth().objects;
    ensure!(
        kept.len() == gt.len() && kept.iter().zip(&gt).all(|(a, b)| same_object(a, b)),
        "the frame holds {} ground truths instead of the {} that pass the filter",
        kept.len(),
        gt.len()
    );
    check_assignment(fr.results(), &est, &gt)?;
    // Judged by plane distance.
    let mut tp = 0;
    let mut fp = 0;
    let mut tps = fr.tp_results().iter();
    let mut fps = fr.fp_results().iter();
    for r in fr.results() {
        let ok = r.is_result_correct(&MatchingMode::PlaneDistance, &conf.pd).map_err(|e| format!("{e}"))?;
        let list = if ok {
            tp += 1;
            tps.next()
        } else {
            fp += 1;
            fps.next()
        };
        ensure!(
            list.is_some_and(|x| same_object(&x.estimated_object, &r.estimated_object)),
            "a result that is {} at the plane distance threshold {} is not listed as such",
            if ok { "correct" } else { "incorrect" },
            conf.pd
        );
    }
    ensure!(fr.tp_results().len() == tp && fr.fp_results().len() == fp, "{} TP and {} FP instead of {tp} and {fp}", fr.tp_results().len(), fr.fp_results().len());
    ensure!(fr.fn_objects().len() + tp == gt.len(), "{} missed objects with {tp} TP and {} ground truths", fr.fn_objects().len(), gt.len());
    Ok(())
}

fn c15(c: &Session, ctx: &mut Ctx) -> R {
    let conf = &c.hist.conf;
    let frames = &c.hist.frames;
    let cfg = conf.build()?;
    let loaded: Vec<FrameGroundTruth> = frames.iter().enumerate().map(|(i, f)| gt_frame(i, f)).collect();
    let loaded_text = format!("{loaded:?}");
    let mut m = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: loaded.clone(), frame_results: vec![] };
    let mut model: Vec<(usize, String)> = Vec::new();
    let mut adds = 0;
    let mut scored = 0;
    for op in &c.ops {
        let target = match op {
            Op::Add(k) if !frames.is_empty() => Some((*k as usize % frames.len(), loaded[*k as usize % frames.len()].clone())),
            Op::Lookup(k, off) if !frames.is_empty() => {
                let i = *k as usize % frames.len();
                let t = micros(ts(i) + *off as i64);
                let f = m.get_frame_ground_truth(&t);
                if off.abs() < 49_000 {
                    let f = f.ok_or_else(|| format!("no ground truth {off} us away from frame {i}"))?;
                    ensure!(f.timestamp == micros(ts(i)), "looking up a time {off} us away from frame {i} gives the frame of {}", f.timestamp);
                    ensure!(f.objects.len() == loaded[i].objects.len() && f.objects.iter().zip(&loaded[i].objects).all(|(a, b)| same_object(a, b)), "the frame looked up is altered");
                    ctx.class("lookup");
                    Some((i, f))
                } else {
                    None
                }
            }
            _ => None,
        };
        let target_none = target.is_none();
        if let Some((i, gt)) = target {
            let est: Vec<DynamicObject> = frames[i].est.iter().map(|o| o.build()).collect();
            let n = m.frame_results.len();
            m.add_frame_result(&est, &gt).map_err(|e| format!("add_frame_result fails: {e}"))?;
            ensure!(m.frame_results.len() == n + 1, "adding a frame makes {n} frame results {}", m.frame_results.len());
            check_frame(&m.frame_results[n], &frames[i], i, conf)?;
            model.push((i, format!("{:?}", m.frame_results[n])));
            adds += 1;
        } else {
            let r = m.get_metrics_score();
            ctx.class_if(adds == 0, "score before any frame");
            match (conf.task, r) {
                (0, Ok(_)) => {
                    // the same frames, with nothing asked in between
                    let mut fresh = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: vec![], frame_results: vec![] };
                    for (i, _) in &model {
                        let est: Vec<DynamicObject> = frames[*i].est.iter().map(|o| o.build()).collect();
                        fresh.add_frame_result(&est, &loaded[*i]).map_err(|e| format!("add_frame_result fails: {e}"))?;
                    }
                    let (a, b) = (score(&m)?, score(&fresh)?);
                    ensure!(same_scores(&a, &b), "the score is {a:?}, but {b:?} for the same {adds} frames added to a new manager");
                    scored += 1;
                    ctx.class_if(scored > 1 && adds > 1, "scored several times");
                }
                (0, Err(e)) => return Err(format!("the score of a detection evaluation fails: {e}")),
                (_, Ok(_)) => return Err("a task without metrics has a score".into()),
                (_, Err(e)) => {
                    ctx.class("task without metrics");
                    let text = format!("{e} {e:?}").to_lowercase().replace(' ', "");
                    ensure!(text.contains("notimplemented"), "a task without metrics gives the error {e}");
                }
            }
        }
        // all frame results; in long sessions all only now and then
        let every = model.len() < 70 || target_none || adds % 500 == 0;
        for (k, (_, text)) in model.iter().enumerate() {
            if !every && k + 3 < model.len() && k * 7919 % 1009 != adds * 31 % 1009 {
                continue;
            }
            ensure!(format!("{:?}", m.frame_results[k]) == *text, "frame result {k} changed afterwards");
        }
        ensure!(m.frame_results.len() == model.len(), "{} frame results after {} frames", m.frame_results.len(), model.len());
        ensure!(format!("{:?}", m.frame_ground_truths) == loaded_text, "the loaded ground truths changed");
    }
    ctx.nontrivial(adds >= 2 && frames.iter().any(|f| f.est.iter().any(|o| conf.keep(o, false)) && f.gt.iter().any(|o| conf.keep(o, true))));
    Ok(())
}
pub fn c15s() -> Vec<Sub> {
    let strat = || {
        (
            hist(4, 6, 4, true),
            proptest::collection::vec(prop_oneof![3 => (0u8..8).prop_map(Op::Add), 2 => (0u8..8, -60_000i32..60_000).prop_map(|(k, o)| Op::Lookup(k, o)), 2 => Just(Op::Score)], 0..8),
        )
            .prop_map(|(hist, ops)| Session { hist, ops })
    };
    let long = || {
        (hist(12, 8, 3, true), proptest::collection::vec(prop_oneof![6 => (0u8..12).prop_map(Op::Add), 2 => (0u8..12, -60_000i32..60_000).prop_map(|(k, o)| Op::Lookup(k, o)), 1 => Just(Op::Score)], 10..60))
            .prop_map(|(hist, ops)| Session { hist, ops })
    };
    // many more frames than a drive of a few minutes
    let thousands = || {
        (hist(3, 2, 2, false), proptest::collection::vec(prop_oneof![400 => (0u8..3).prop_map(Op::Add), 1 => Just(Op::Score)], 1_000..6_000))
            .prop_map(|(hist, mut ops)| {
                ops.push(Op::Score);
                Session { hist, ops }
            })
    };
    // frames at one time: added, not looked up
    let times = || {
        (hist_times(5, 5, 3), proptest::collection::vec(prop_oneof![4 => (0u8..8).prop_map(Op::Add), 1 => Just(Op::Score)], 1..10))
            .prop_map(|(hist, ops)| Session { hist, ops })
    };
    vec![sub("sessions", 20_000, 40, 8, strat, c15), sub("long", 400, 40, 8, long, c15), sub("thousands", 1, 40, 1, thousands, c15), sub("times", 6_000, 40, 8, times, c15)]
}

#[allow(unused)]
fn unused() {
    let _ = filter_params;
}
