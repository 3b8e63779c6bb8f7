//! C09-C12, C16: matching within a frame, splitting, filtering, per-label lookup, frame lookup.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::props::matching::MODES;
use crate::refm::*;
use perception_eval::config::FilterParams;
use perception_eval::dataset::{get_current_frame, FrameGroundTruth};
use perception_eval::filter::filter_objects;
use perception_eval::frame_id::FrameID;
use perception_eval::label::Label;
use perception_eval::matching::MatchingMode;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::result::frame::PerceptionFrameResult;
use perception_eval::result::object::{get_perception_results, PerceptionResult};
use perception_eval::threshold::{get_label_threshold, LabelThreshold};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C09

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Scenes {
    pub est: Vec<Obj>,
    pub gt: Vec<Obj>,
    /// time of the frame, if not by its place
    #[serde(default)]
    pub at: Option<i64>,
}

/// Ground truths spread or clustered, estimates near ground truths (several may share one) or anywhere.
pub fn frame_objs(max_est: usize, max_gt: usize, labels: u8, tilt: bool) -> BoxedStrategy<Scenes> {
    let o = move |r: f64| obj(ObjOpts { range: r, tilt, labels });
    (
        proptest::collection::vec(o(12.0), 0..=max_gt),
        proptest::collection::vec((o(12.0), any::<u16>(), pos(1.5, 0.5), 0u8..6), 0..=max_est),
        any::<bool>(),
    )
        .prop_map(|(mut gt, est, tight)| {
            if tight {
                for g in gt.iter_mut() {
                    for i in 0..3 {
                        g.pos[i] *= 0.2;
                    }
                }
            }
            let est = est
                .into_iter()
                .map(|(mut e, k, d, kind)| {
                    if !gt.is_empty() && kind < 5 {
                        let g = &gt[k as usize % gt.len()];
                        let s = [1.0, 0.3, 0.0, 1.0, 2.5][kind as usize];
                        e.pos = add(&g.pos, &[d[0] * s, d[1] * s, d[2] * s]);
                        if kind < 3 {
                            e.size = g.size;
                            e.rpy = add(&g.rpy, &[0.0, 0.0, d[2] * s]);
                        }
                        if kind < 4 {
                            e.label = g.label;
                        }
                    }
                    e
                })
                .collect();
            Scenes { est, gt, at: None }
        })
        .boxed()
}

fn built(objs: &[Obj]) -> Vec<DynamicObject> {
    objs.iter().map(|o| o.build()).collect()
}

/// Which of `all` this is; of several equal ones, the first that is not used yet.
fn index_of(o: &DynamicObject, all: &[DynamicObject], used: &dyn Fn(usize) -> bool, what: &str) -> Result<usize, String> {
    let equal: Vec<usize> = (0..all.len()).filter(|i| same_object(o, &all[*i])).collect();
    ensure!(!equal.is_empty(), "{what} of a result is none of the inputs: {o:?}");
    match equal.iter().find(|i| !used(**i)) {
        Some(i) => Ok(*i),
        None => Err(format!("{what} is used by more results than it was given: {o:?}")),
    }
}

/// Checks the assignment laws for the results of `est` against `gt` (objects indexed as above).
pub fn check_assignment(
    results: &[PerceptionResult],
    est: &[DynamicObject],
    gt: &[DynamicObject],
) -> R {
    ensure!(results.len() == est.len(), "{} results for {} estimates", results.len(), est.len());
    let mut est_to: Vec<Option<Option<usize>>> = vec![None; est.len()];
    let mut gt_to: Vec<Option<usize>> = vec![None; gt.len()];
    for r in results {
        let e = index_of(&r.estimated_object, est, &|i| est_to[i].is_some(), "the estimate")?;
        let g = match &r.ground_truth_object {
            None => None,
            Some(g) => {
                let g = index_of(g, gt, &|i| gt_to[i].is_some(), "the ground truth")?;
                ensure!(est[e].label == gt[g].label, "estimate {e} ({:?}) is paired with ground truth {g} ({:?})", est[e].label, gt[g].label);
                gt_to[g] = Some(e);
                Some(g)
            }
        };
        est_to[e] = Some(g);
    }
    let d = |e: usize, g: usize| dist3(&est[e].position, &gt[g].position);
    for e in 0..est.len() {
        for g in 0..gt.len() {
            if est[e].label != gt[g].label {
                continue;
            }
            let de = est_to[e].flatten().map(|x| d(e, x)).unwrap_or(f64::INFINITY);
            let dg = gt_to[g].map(|x| d(x, g)).unwrap_or(f64::INFINITY);
            ensure!(
                !(de.is_infinite() && dg.is_infinite()),
                "estimate {e} is left alone although ground truth {g} of the same label is free"
            );
            let x = d(e, g) + 1e-9 * (1.0 + norm(&gt[g].position));
            ensure!(
                !(x < de && x < dg),
                "estimate {e} and ground truth {g} are at distance {}, but were assigned at {de} and {dg}",
                d(e, g)
            );
        }
    }
    Ok(())
}

fn c09(c: &Scenes, ctx: &mut Ctx) -> R {
    let est = built(&c.est);
    let gt = built(&c.gt);
    let results = get_perception_results(&est, &gt);
    let contested = est.iter().any(|e| gt.iter().filter(|g| g.label == e.label).count() >= 2)
        && gt.iter().any(|g| est.iter().filter(|e| g.label == e.label).count() >= 2);
    ctx.nontrivial(contested);
    ctx.class_if(contested, "contested label");
    ctx.class_if(est.is_empty(), "no estimates");
    ctx.class_if(gt.is_empty(), "no ground truths");
    check_assignment(&results, &est, &gt)
}

/// Some objects are reported or annotated several times.
fn with_repeats(s: BoxedStrategy<Scenes>) -> BoxedStrategy<Scenes> {
    (s, proptest::collection::vec((any::<bool>(), any::<u16>(), any::<u16>()), 1..6))
        .prop_map(|(mut s, again)| {
            for (of_est, which, at) in again {
                let list = if of_est { &mut s.est } else { &mut s.gt };
                if !list.is_empty() {
                    let o = list[which as usize % list.len()].clone();
                    list.insert(at as usize % (list.len() + 1), o);
                }
            }
            s
        })
        .boxed()
}

/// The same frame in another place and of another scale.
pub fn frame_wide(s: BoxedStrategy<Scenes>) -> BoxedStrategy<Scenes> {
    (s, magnitude(-3, 4), prop_oneof![Just([0.0; 3]), Just([89_000.0, 42_000.0, 6.0]), pos(5_000.0, 5_000.0)], 0u8..10)
        .prop_map(|(mut s, k, at, frame)| {
            for o in s.est.iter_mut().chain(s.gt.iter_mut()) {
                for i in 0..3 {
                    o.pos[i] = o.pos[i] * k + at[i];
                }
                o.frame = frame;
            }
            s
        })
        .boxed()
}

pub fn c09s() -> Vec<Sub> {
    vec![
        sub("wide", 20_000, 40, 8, || frame_wide(frame_objs(8, 8, 2, true)), c09),
        sub("lopsided", 100, 40, 8, || prop_oneof![frame_objs(400, 5, 3, true), frame_objs(5, 400, 3, true)], c09),
        sub("repeats", 20_000, 40, 8, || with_repeats(frame_objs(7, 7, 3, true)), c09),
        sub("crowded", 300, 40, 8, || with_repeats(frame_objs(70, 70, 4, true)), c09),
        sub("very_crowded", 4, 40, 4, || frame_objs(400, 400, 3, true), c09),
        sub("one_label", 40_000, 40, 8, || frame_objs(8, 8, 1, true), c09),
        sub("labels", 40_000, 40, 8, || frame_objs(12, 12, 3, true), c09),
        sub("all_labels", 10_000, 40, 8, || frame_objs(25, 25, 8, true), c09),
    ]
}

// ---------------------------------------------------------------- C10

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct FrameCase {
    s: Scenes,
    /// variations of the first ground truth: which field differs
    twins: Vec<u8>,
    targets: Vec<u8>,
    thresholds: Vec<f64>,
    mode: u8,
    ts: i64,
    /// None: results as matched; Some: ground truth index per estimate (none if out of range)
    pairing: Option<Vec<u8>>,
    /// results that are given again, at which place
    again: Vec<(u8, u8)>,
    /// all objects carry the time of the frame
    same_ts: bool,
}

fn twin(base: &Obj, kind: u8) -> Obj {
    let mut t = base.clone();
    match kind {
        0 => t.pos[0] += 0.25,
        1 => t.pos[1] += 0.25,
        2 => t.pos[2] += 0.25,
        3 => t.rpy[2] += 0.25,
        5 => t.ts += 1_000_000,
        6 => t.frame += 1,
        7 => t.rpy[0] += 0.25,
        _ => t.label = (t.label + 1) % 8,
    }
    t
}

fn distinct_gt(gt: &mut Vec<Obj>) {
    let mut out: Vec<Obj> = Vec::new();
    for g in gt.drain(..) {
        if !out.iter().any(|o| o.pos == g.pos && o.q() == g.q() && o.label == g.label && o.ts == g.ts && o.frame == g.frame) {
            out.push(g);
        }
    }
    *gt = out;
}

fn c10(c: &FrameCase, ctx: &mut Ctx) -> R {
    let mut gts = c.s.gt.clone();
    if let Some(b) = gts.first().cloned() {
        for k in &c.twins {
            gts.push(twin(&b, *k));
        }
    }
    if c.same_ts {
        // the twins of another time are a second off
        let base = gts.first().map(|g| g.ts).unwrap_or(0);
        let n = gts.len() - c.twins.len().min(gts.len());
        for (i, g) in gts.iter_mut().enumerate() {
            g.ts = if i < n { c.ts } else { c.ts + g.ts - base };
        }
    }
    distinct_gt(&mut gts);
    let est = built(&c.s.est);
    let gt = built(&gts);
    let mut results: Vec<PerceptionResult> = match &c.pairing {
        None => get_perception_results(&est, &gt),
        Some(p) => {
            let mut used = vec![false; gt.len()];
            est.iter()
                .zip(p.iter().chain(std::iter::repeat(&255)))
                .map(|(e, g)| {
                    // first free ground truth, starting at g: of the same label, or from 100 on of any
                    let pick = (0..gt.len())
                        .map(|i| (i + *g as usize) % gt.len().max(1))
                        .find(|i| *g < 250 && !used[*i] && (*g >= 100 || gt[*i].label == e.label));
                    if let Some(i) = pick {
                        used[i] = true;
                    }
                    PerceptionResult::new(e.clone(), pick.map(|i| gt[i].clone()))
                })
                .collect()
        }
    };
    for (which, at) in &c.again {
        if !results.is_empty() {
            let r = results[*which as usize % results.len()].clone();
            results.insert(*at as usize % (results.len() + 1), r);
        }
    }
    let targets: Vec<Label> = c.targets.iter().map(|l| LABELS[*l as usize].clone()).collect();
    let mode = &MODES[c.mode as usize];
    let fgt = FrameGroundTruth { timestamp: micros(c.ts), objects: gt.clone() };
    let th = &c.thresholds[..];
    ensure!(th.len() >= targets.len(), "{HARNESS}too few thresholds");
    let fr = PerceptionFrameResult::new(results.clone(), fgt, &targets, mode.clone(), th)
        .map_err(|e| format!("PerceptionFrameResult::new fails: {e}"))?;

    let same_result = |a: &PerceptionResult, b: &PerceptionResult| {
        same_object(&a.estimated_object, &b.estimated_object)
            && match (&a.ground_truth_object, &b.ground_truth_object) {
                (None, None) => true,
                (Some(x), Some(y)) => same_object(x, y),
                _ => false,
            }
    };
    let same_results = |a: &[PerceptionResult], b: &[PerceptionResult]| {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_result(x, y))
    };
    ensure!(same_results(fr.results(), &results), "results() differs from the given results");
    ensure!(fr.frame_ground_truth().timestamp == micros(c.ts), "the frame's timestamp changed");
    ensure!(
        fr.frame_ground_truth().objects.len() == gt.len()
            && fr.frame_ground_truth().objects.iter().zip(&gt).all(|(a, b)| same_object(a, b)),
        "the frame's ground truth changed"
    );
    let (mut tp, mut fp) = (Vec::new(), Vec::new());
    let mut skipped = 0;
    for r in &results {
        match targets.iter().position(|l| *l == r.estimated_object.label) {
            None => skipped += 1,
            Some(i) => {
                let ok = r.is_result_correct(mode, &th[i]).map_err(|e| format!("{e}"))?;
                if ok {
                    tp.push(r.clone())
                } else {
                    fp.push(r.clone())
                }
            }
        }
    }
    let missed: Vec<&DynamicObject> = gt
        .iter()
        .filter(|g| {
            !tp.iter().any(|r| {
                r.ground_truth_object.as_ref().is_some_and(|x| same_object(x, g))
            })
        })
        .collect();
    ctx.nontrivial(!tp.is_empty() && !fp.is_empty() && !missed.is_empty());
    ctx.class(&format!("{mode:?}"));
    ctx.class_if(!tp.is_empty(), "has TP");
    ctx.class_if(!fp.is_empty(), "has FP");
    ctx.class_if(skipped > 0, "has results of other labels");
    ctx.class_if(results.iter().any(|r| r.ground_truth_object.as_ref().is_some_and(|g| g.label != r.estimated_object.label)), "paired across labels");
    ensure!(same_results(fr.tp_results(), &tp), "true positives: {} instead of {} ({mode:?}, {th:?})", fr.tp_results().len(), tp.len());
    ensure!(same_results(fr.fp_results(), &fp), "false positives: {} instead of {} ({mode:?}, {th:?})", fr.fp_results().len(), fp.len());
    ensure!(
        fr.fn_objects().len() == missed.len() && fr.fn_objects().iter().zip(&missed).all(|(a, b)| same_object(a, b)),
        "missed objects: {:?} instead of {:?}",
        fr.fn_objects(),
        missed
    );
    ctx.class_if(!c.again.is_empty(), "a result is repeated");
    ensure!(!c.again.is_empty() || fr.tp_results().len() + fr.fn_objects().len() == gt.len(), "TP + FN is not the number of ground truths");
    Ok(())
}

/// Hundreds of objects, most of which are found.
fn crowds() -> BoxedStrategy<FrameCase> {
    (
        prop_oneof![1 => 50usize..150, 1 => 150usize..330, 1 => 330usize..600],
        obj(ObjOpts { range: 20.0, tilt: false, labels: 3 }),
        proptest::collection::vec((any::<u8>(), 0u8..3, -0.3..0.3f64), 20),
        (0u8..4, 0u8..60),
        0i64..2_000_000_000_000_000,
    )
        .prop_map(|(n, o, kinds, (mode, fps), ts)| {
            let mut s = Scenes { est: vec![], gt: vec![], at: None };
            for i in 0..n {
                let (kind, label, off) = kinds[(i + i / 20) % 20];
                let mut g = o.clone();
                g.pos = [o.pos[0] + 7.0 * (i % 25) as f64, o.pos[1] + 7.0 * (i / 25) as f64, o.pos[2]];
                g.label = label;
                let mut e = g.clone();
                if kind < fps {
                    e.pos[2] += 50.0;
                    e.pos[0] += 50.0;
                } else {
                    e.pos[0] += off;
                }
                s.gt.push(g);
                s.est.push(e);
            }
            let t = if mode < 2 { 0.4 } else { 0.01 };
            FrameCase { s, twins: vec![], targets: vec![0, 1, 2], thresholds: vec![t, t * 0.5, t, t, t, t], mode, ts, pairing: Some(vec![0; n]), again: vec![], same_ts: true }
        })
        .boxed()
}
pub fn c10s() -> Vec<Sub> {
    let strat = |frame: fn() -> BoxedStrategy<Scenes>, th: fn() -> BoxedStrategy<f64>| {
        (
            frame(),
            proptest::collection::vec(0u8..8, 0..5),
            proptest::collection::vec(0u8..5, 0..6),
            proptest::collection::vec(th(), 6),
            0u8..4,
            0i64..2_000_000_000_000_000,
            proptest::option::of(proptest::collection::vec(prop_oneof![4 => 0u8..10, 1 => 100u8..110, 1 => Just(255u8)], 0..8)),
            prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec((any::<u8>(), any::<u8>()), 1..3)],
            any::<bool>(),
        )
            .prop_map(|(s, twins, targets, thresholds, mode, ts, pairing, again, same_ts)| FrameCase { s, twins, targets, thresholds, mode, ts, pairing, again, same_ts })
    };
    let th: fn() -> BoxedStrategy<f64> = || prop_oneof![0.0..3.0f64, 0.0..1.0f64, Just(0.5)].boxed();
    let wide_th: fn() -> BoxedStrategy<f64> =
        || prop_oneof![4 => 0.0..3.0f64, 2 => 0.0..1e4f64, 1 => Just(0.0), 1 => Just(-1.0), 1 => Just(1.0), 1 => Just(1e300), 1 => Just(-1e300)].boxed();
    vec![
        sub("split", 60_000, 40, 8, move || strat(|| frame_objs(8, 6, 3, false), th), c10),
        sub("wide", 20_000, 40, 8, move || strat(|| frame_wide(frame_objs(8, 6, 3, true)), wide_th), c10),
        sub("crowded", 300, 40, 8, move || strat(|| frame_objs(60, 60, 5, false), th), c10),
        sub("crowds", 12, 40, 8, crowds, c10),
    ]
}

// ---------------------------------------------------------------- C11

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct FilterCase {
    pub objs: Vec<Obj>,
    pub targets: Vec<u8>,
    pub casing: u8,
    pub max_x: f64,
    pub max_y: f64,
    pub min_pts: Option<usize>,
    pub uuids: Option<Vec<u8>>,
}
pub fn spelled(l: u8, casing: u8) -> String {
    let n = LABEL_NAMES[l as usize];
    match casing % 4 {
        0 => n.to_string(),
        1 => n.to_uppercase(),
        2 => LABEL_PRINT[l as usize].to_string(),
        _ => ["vehicle.police", "trailer", "vehicle.bus.bendy", "vehicle.bicycle", "vehicle.motorcycle", "pedestrian.stroller", "Animal", "movable_object.barrier"][l as usize]
            .to_string(),
    }
}
pub fn filter_params(targets: &[u8], casing: u8, max_x: f64, max_y: f64, min_pts: Option<usize>, uuids: &Option<Vec<u8>>) -> Result<FilterParams, String> {
    let names: Vec<String> = targets.iter().map(|l| spelled(*l, casing)).collect();
    let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    FilterParams::new(&refs, max_x, max_y, min_pts, uuids.as_ref().map(|u| u.iter().map(|x| uuid_str(*x)).collect()))
        .map_err(|e| format!("FilterParams::new fails: {e}"))
}
/// The specification of filtering.
pub fn kept(o: &Obj, is_gt: bool, targets: &[u8], max_x: f64, max_y: f64, min_pts: Option<usize>, uuids: &Option<Vec<u8>>) -> bool {
    if !targets.contains(&o.label) || !(o.pos[0].abs() < max_x) || !(o.pos[1].abs() < max_y) {
        return false;
    }
    if !is_gt {
        return true;
    }
    if let (Some(m), Some(p)) = (min_pts, o.pts) {
        if p < m {
            return false;
        }
    }
    match uuids {
        None => true,
        Some(us) => o.uuid.is_some_and(|u| us.contains(&u)),
    }
}
fn c11(c: &FilterCase, ctx: &mut Ctx) -> R {
    let params = filter_params(&c.targets, c.casing, c.max_x, c.max_y, c.min_pts, &c.uuids)?;
    let objs: Vec<DynamicObject> = c.objs.iter().map(|o| o.build()).collect();
    let mut partial = false;
    for is_gt in [false, true] {
        let got = filter_objects(&objs, is_gt, &params);
        let want: Vec<usize> = (0..objs.len())
            .filter(|i| kept(&c.objs[*i], is_gt, &c.targets, c.max_x, c.max_y, c.min_pts, &c.uuids))
            .collect();
        partial |= !want.is_empty() && want.len() < objs.len();
        ensure!(
            got.len() == want.len() && got.iter().zip(&want).all(|(a, i)| same_object(a, &objs[*i])),
            "{}: kept {:?} instead of the objects at {want:?}",
            if is_gt { "ground truths" } else { "estimates" },
            got.iter().map(|o| (o.position, o.label.clone(), o.pointcloud_num, o.uuid.clone())).collect::<Vec<_>>()
        );
        let again = filter_objects(&got, is_gt, &params);
        ensure!(again.len() == got.len() && again.iter().zip(&got).all(|(a, b)| same_object(a, b)), "filtering again changes the list");
        ctx.class_if(is_gt && c.uuids.is_some(), "uuid filter");
        ctx.class_if(is_gt && c.min_pts.is_some(), "point filter");
    }
    ctx.nontrivial(partial);
    Ok(())
}
pub fn c11s() -> Vec<Sub> {
    let strat = || {
        (
            proptest::collection::vec(obj(ObjOpts { range: 12.0, tilt: true, labels: 8 }), 0..12),
            proptest::collection::vec(0u8..8, 0..8),
            0u8..4,
            prop_oneof![0.0..13.0f64, (0i32..26).prop_map(|i| i as f64 * 0.5), Just(100.0)],
            prop_oneof![0.0..13.0f64, (0i32..26).prop_map(|i| i as f64 * 0.5), Just(100.0)],
            proptest::option::of(prop_oneof![0usize..7, 0usize..2000]),
            proptest::option::of(proptest::collection::vec(0u8..9, 0..4)),
        )
            .prop_map(|(objs, targets, casing, max_x, max_y, min_pts, uuids)| FilterCase { objs, targets, casing, max_x, max_y, min_pts, uuids })
    };
    let wide = || {
        let max = || prop_oneof![2 => -1.0..1.0f64, 2 => 0.0..2e4f64, 1 => Just(1e300), 1 => Just(0.0), 1 => Just(-1e300)];
        let big = || prop_oneof![2 => 0usize..300, 1 => Just(usize::MAX), 1 => Just(1usize << 32), 1 => Just((1usize << 32) + 3), 1 => Just(1usize << 31), 1 => Just(65_536usize)];
        (
            (prop_oneof![100 => Just(8usize), 20 => Just(300), 1 => Just(5_000)], magnitude(-4, 4)).prop_flat_map(|(n, k)| {
                (proptest::collection::vec(obj(ObjOpts { range: 12.0, tilt: true, labels: 8 }), 0..n), Just(k))
            }),
            proptest::collection::vec(proptest::option::of(big()), 8),
            proptest::collection::vec(0u8..8, 0..20),
            (max(), max()),
            proptest::option::of(big()),
            proptest::option::of(proptest::collection::vec(0u8..12, 0..30)),
        )
            .prop_map(|((mut objs, k), pts, targets, (max_x, max_y), min_pts, uuids)| {
                for (i, o) in objs.iter_mut().enumerate() {
                    o.pos = o.pos.map(|x| x * k);
                    o.pts = pts[i % pts.len()];
                    o.frame = (i % 10) as u8;
                }
                FilterCase { objs, targets, casing: 0, max_x, max_y, min_pts, uuids }
            })
    };
    vec![sub("filter", 80_000, 40, 8, strat, c11), sub("wide", 12_000, 60, 8, wide, c11)]
}

// ---------------------------------------------------------------- C12

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ThCase {
    label: u8,
    targets: Vec<u8>,
    values: Vec<f64>,
}
fn c12(c: &ThCase, ctx: &mut Ctx) -> R {
    let targets: Vec<Label> = c.targets.iter().map(|l| LABELS[*l as usize].clone()).collect();
    let label = LABELS[c.label as usize].clone();
    let want = c.targets.iter().position(|l| *l == c.label);
    ctx.class_if(want.is_none(), "not a target");
    ctx.class_if(c.targets.iter().filter(|l| **l == c.label).count() > 1, "listed twice");
    ctx.nontrivial(want.is_some_and(|i| i > 0));
    let lt = LabelThreshold::new(&label, &targets);
    let f = &c.values;
    let u: Vec<usize> = (0..f.len()).collect();
    let s: Vec<String> = u.iter().map(|i| format!("v{i}")).collect();
    let s: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
    let t: Vec<(i16, bool)> = u.iter().map(|i| (*i as i16, i % 2 == 0)).collect();
    macro_rules! both {
        ($v:expr) => {
            let w = want.map(|i| $v[i]);
            let a = get_label_threshold(&label, &targets, $v);
            let b = lt.get_threshold($v);
            ensure!(a == w, "get_label_threshold gives {a:?} instead of {w:?}");
            ensure!(b == w, "LabelThreshold gives {b:?} instead of {w:?}");
        };
    }
    both!(f);
    both!(&u);
    both!(&s);
    both!(&t);
    Ok(())
}
pub fn c12s() -> Vec<Sub> {
    let strat = || {
        (0u8..8, prop_oneof![6 => proptest::collection::vec(0u8..8, 0..10), 1 => proptest::collection::vec(0u8..8, 0..40), 1 => proptest::collection::vec(0u8..3, 0..300)], proptest::collection::vec(-10.0..10.0f64, 10..14), 0usize..3)
            .prop_map(|(label, targets, mut values, more)| {
                // as many values as labels, or some more
                while values.len() < targets.len() + more {
                    let next = values[values.len() % 10] + values.len() as f64;
                    values.push(next);
                }
                if more == 0 && targets.len() > 0 {
                    values.truncate(targets.len());
                }
                ThCase { label, targets, values }
            })
    };
    vec![sub("lookup", 60_000, 40, 8, strat, c12)]
}

// ---------------------------------------------------------------- C16

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct TimeCase {
    base: i64,
    /// offsets of the frames from the looked up time, in microseconds
    offs: Vec<i64>,
    whole_ms: bool,
    rot: u8,
}
fn c16(c: &TimeCase, ctx: &mut Ctx) -> R {
    let unit = if c.whole_ms { 1000 } else { 1 };
    let base = c.base / unit * unit;
    let times: Vec<i64> = c.offs.iter().map(|o| base + o / unit * unit).collect();
    let frame = |i: usize, t: i64| {
        let mut o = Obj {
            pos: [i as f64, 2.0, 3.0],
            rpy: [0.0, 0.0, 0.1],
            neg: false,
            size: [1.0, 2.0, 3.0],
            conf: 1.0,
            label: (i % 8) as u8,
            pts: Some(i),
            uuid: Some(i as u8),
            vel: None,
            frame: 0,
            ts: t,
        };
        let a = o.build();
        o.pos[1] = 7.0;
        FrameGroundTruth { timestamp: micros(t), objects: vec![a, o.build()] }
    };
    let frames: Vec<FrameGroundTruth> = times.iter().enumerate().map(|(i, t)| frame(i, *t)).collect();
    let got = get_current_frame(&frames, &micros(base));
    let dist: Vec<i64> = times.iter().map(|t| (t - base).abs()).collect();
    let min = dist.iter().copied().min();
    ctx.class_if(got.is_some(), "found");
    ctx.class_if(got.is_none(), "nothing");
    ctx.class_if(min.is_some_and(|m| (70_000..80_000).contains(&m)), "near the limit");
    ctx.nontrivial(frames.len() > 1 && min.is_some_and(|m| m < 80_000));
    // Times are compared in milliseconds, each cut off separately: a distance is off by less than
    // 1 ms in either direction. Whole milliseconds are exact.
    let (slack, between) = if c.whole_ms { (0, 0) } else { (999, 1999) };
    match (&got, min) {
        (None, None) => {}
        (None, Some(m)) => ensure!(m + slack >= 75_000, "nothing is returned although a frame is {m} us away"),
        (Some(_), None) => return Err("a frame is returned from an empty list".into()),
        (Some(f), Some(m)) => {
            let i = f.objects.first().and_then(|o| o.pointcloud_num).filter(|i| *i < frames.len());
            let i = i.ok_or_else(|| "the returned frame is none of the list".to_string())?;
            ensure!(
                f.timestamp == frames[i].timestamp
                    && f.objects.len() == frames[i].objects.len()
                    && f.objects.iter().zip(&frames[i].objects).all(|(a, b)| same_object(a, b)),
                "the returned frame is altered"
            );
            ensure!(dist[i] < 75_000, "the returned frame is {} us away", dist[i]);
            ensure!(dist[i] <= m + between, "the returned frame is {} us away, another only {m} us", dist[i]);
        }
    }
    // Order does not matter.
    if !frames.is_empty() {
        let mut turned = frames.clone();
        turned.rotate_left(c.rot as usize % frames.len());
        if c.rot % 2 == 0 {
            turned.reverse();
        }
        let other = get_current_frame(&turned, &micros(base));
        ensure!(other.is_some() == got.is_some(), "the order of the frames decides whether a frame is found");
        if let (Some(a), Some(b)) = (&got, &other) {
            let mut sorted = dist.clone();
            sorted.sort();
            if sorted.len() < 2 || sorted[1] > sorted[0] + between {
                ensure!(a.timestamp == b.timestamp, "the order of the frames changes the frame found");
            }
        }
    }
    Ok(())
}
pub fn c16s() -> Vec<Sub> {
    let off = || {
        prop_oneof![
            3 => -200_000i64..200_000,
            2 => -80_000i64..80_000,
            2 => (-90i64..90).prop_map(|m| m * 1000),
            2 => prop_oneof![Just(75_000i64), Just(-75_000), Just(74_000), Just(-74_000), Just(76_000), Just(-76_000), Just(74_999), Just(-74_999)],
            1 => Just(0i64),
            1 => -10_000_000_000i64..10_000_000_000,
            1 => prop_oneof![Just(2_147_483_648_000i64), Just(4_294_967_296_000), -1_000_000_000_000_000i64..1_000_000_000_000_000].prop_map(|x| x + 1000),
        ]
    };
    let strat = move || {
        (prop_oneof![2 => 100_000_000_000i64..2_000_000_000_000_000, 2 => Just(1_600_000_000_000_000i64), 1 => -200_000i64..200_000, 1 => -2_000_000_000_000_000i64..0], proptest::collection::vec(off(), 0..10), any::<bool>(), any::<u8>())
            .prop_map(|(base, offs, whole_ms, rot)| TimeCase { base, offs, whole_ms, rot })
    };
    let many = |frames: std::ops::Range<usize>| {
        (
            1_000_000_000_000i64..2_000_000_000_000_000,
            prop_oneof![Just(50_000i64), Just(100_000), Just(33_333), 1_000i64..200_000],
            frames,
            (any::<prop::sample::Index>(), -60_000i64..60_000),
            any::<bool>(),
            any::<u8>(),
        )
            .prop_map(|(base, step, n, (at, off), whole_ms, rot)| {
                // a drive at an even rate; the time looked up is near one of its frames
                let k = at.index(n) as i64;
                TimeCase { base, offs: (0..n as i64).map(|i| (i - k) * step + off).collect(), whole_ms, rot }
            })
    };
    vec![sub("nearest", 80_000, 40, 8, strat, c16), sub("drive", 1_000, 40, 8, move || many(20..400), c16), sub("long_drive", 10, 40, 5, move || many(2_000..20_000), c16)]
}

// ---------------------------------------------------------------- C25, C26

const TABLE: [(&str, usize); 39] = [
    ("car", 0), ("vehicle.car", 0), ("vehicle.construction", 0), ("vehicle.emergency (ambulance & police)", 0), ("vehicle.police", 0),
    ("vehicle.fire", 0), ("vehicle.ambulance", 0),
    ("truck", 1), ("vehicle.truck", 1), ("trailer", 1), ("vehicle.trailer", 1),
    ("bus", 2), ("vehicle.bus", 2), ("vehicle.bus (bendy & rigid)", 2), ("vehicle.bus.rigid", 2), ("vehicle.bus.bendy", 2),
    ("bicycle", 3), ("vehicle.bicycle", 3),
    ("motorbike", 4), ("vehicle.motorcycle", 4),
    ("pedestrian", 5), ("pedestrian.adult", 5), ("pedestrian.child", 5), ("pedestrian.construction_worker", 5), ("pedestrian.personal_mobility", 5),
    ("pedestrian.police_officer", 5), ("pedestrian.stroller", 5), ("pedestrian.wheelchair", 5), ("human.pedestrian.adult", 5), ("human.pedestrian.child", 5),
    ("human.pedestrian.construction_worker", 5), ("human.pedestrian.personal_mobility", 5), ("human.pedestrian.police_officer", 5), ("human.pedestrian.stroller", 5),
    ("human.pedestrian.wheelchair", 5),
    ("animal", 6),
    ("unknown", 7), ("movable_object.barrier", 7), ("static_object.bicycle_rack", 7),
];

pub fn table_name(i: usize) -> (&'static str, u8) {
    let (n, l) = TABLE[i % TABLE.len()];
    (n, l as u8)
}
pub const TABLE_LEN: usize = TABLE.len();

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct NameCase {
    /// table index, letter-case mask
    known: Vec<(u8, u64)>,
    other: Vec<String>,
    prefix: String,
}
fn recase(s: &str, mask: u64) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| if mask >> (i % 64) & 1 == 1 { c.to_ascii_uppercase() } else { c })
        .collect()
}
fn c25(c: &NameCase, ctx: &mut Ctx) -> R {
    use perception_eval::label::{convert_labels, LabelConverter};
    let conv = LabelConverter::new("autoware").map_err(|e| format!("the autoware converter is an error: {e}"))?;
    let mut names: Vec<String> = Vec::new();
    let mut want: Vec<Label> = Vec::new();
    for (i, mask) in &c.known {
        let (n, l) = table_name(*i as usize);
        let n = recase(n, *mask);
        ctx.nontrivial(n.to_lowercase() != n);
        names.push(n);
        want.push(LABELS[l as usize].clone());
    }
    for o in &c.other {
        let low = o.to_lowercase();
        if TABLE.iter().any(|(n, _)| *n == low) {
            continue;
        }
        // the category names that belong to Unknown are in no need of exclusion
        names.push(o.clone());
        want.push(Label::Unknown);
    }
    for (n, w) in names.iter().zip(&want) {
        let g = conv.convert(n);
        ensure!(g == *w, "{n:?} converts to {g:?} instead of {w:?}");
    }
    let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let list = convert_labels(&refs, &conv).map_err(|e| format!("convert_labels fails: {e}"))?;
    ensure!(list == want, "convert_labels gives {list:?} instead of {want:?}");
    for (i, l) in LABELS.iter().enumerate() {
        let printed = l.to_string();
        ensure!(printed == LABEL_PRINT[i], "{l:?} prints as {printed:?}");
        ensure!(conv.convert(&printed) == *l, "the name of {l:?} converts to {:?}", conv.convert(&printed));
    }
    if !c.prefix.eq_ignore_ascii_case("autoware") {
        ensure!(LabelConverter::new(&c.prefix).is_err(), "prefix {:?} is accepted", c.prefix);
        ctx.class("unknown prefix");
    }
    Ok(())
}
/// Every table entry in every simple letter case, once per case.
fn c25_table(c: &(u8, u64), ctx: &mut Ctx) -> R {
    c25(&NameCase { known: vec![*c], other: vec![], prefix: "tier4".into() }, ctx)
}
pub fn near(names: &'static [&'static str]) -> BoxedStrategy<String> {
    let extra = prop_oneof![3 => (0x20u8..0x7f).prop_map(|b| b as char), 1 => any::<char>(), 1 => proptest::sample::select(vec!['\t', '\n', '\r', '\u{a0}', '\u{feff}', '\u{200b}'])];
    (0..names.len(), any::<prop::sample::Index>(), 0u8..23, extra)
        .prop_map(move |(i, k, kind, extra)| {
            let mut v: Vec<char> = names[i].chars().collect();
            // all of one separator replaced, in capitals at times
            let sep = |to: &str| names[i].chars().map(|c| if c == '_' || c == '.' { to.to_string() } else { c.to_string() }).collect::<String>();
            match kind {
                8 => return sep("-"),
                9 => return sep(" "),
                10 => return sep("."),
                11 => return sep("_"),
                12 => return sep("__"),
                13 => return sep(""),
                14 => return format!("\t{}\n", names[i]),
                15 => return format!("{:?}", names[i]),
                16 => return names[i].replace('_', "-"),
                17 => return names[i].replace('.', "_"),
                18 => return names[i].replace('_', " "),
                19 => return names[i].rsplit('.').next().unwrap_or_default().to_string() + "_",
                _ => {}
            }
            let k = if v.is_empty() { 0 } else { k.index(v.len()) };
            match kind {
                0 => v.push(' '),
                1 => v.insert(0, ' '),
                2 => {
                    v.remove(k);
                }
                3 => v.insert(k, '_'),
                4 => v[k] = 'x',
                5 => v.push('s'),
                20 => v.push(extra),
                21 => v.insert(0, extra),
                22 => v.insert(k, extra),
                6 => v = v.iter().flat_map(|c| c.to_uppercase()).collect(),
                _ => v.push('\u{0}'),
            }
            v.into_iter().collect()
        })
        .boxed()
}
static TABLE_NAMES: [&str; TABLE_LEN] = {
    let mut out = [""; TABLE_LEN];
    let mut i = 0;
    while i < TABLE_LEN {
        out[i] = TABLE[i].0;
        i += 1;
    }
    out
};
const SHORT: [&str; 14] = [
    "car", "truck", "bus", "bicycle", "motorbike", "pedestrian", "animal", "unknown", "vehicle.car", "autoware", "vehicle.bus.bendy",
    "human.pedestrian.adult", "pedestrian.police_officer", "vehicle.motorcycle",
];
/// Texts of up to some kilobytes, of characters of any width.
fn long() -> BoxedStrategy<String> {
    ("[a-z._]{0,3}", prop_oneof![2 => "\\PC{1,3}", 2 => "[\u{e9}\u{430}\u{5730}\u{1f697}]", 1 => near(&TABLE_NAMES)], 1usize..200, "\\PC{0,2}")
        .prop_map(|(a, b, n, c)| format!("{a}{}{c}", b.repeat(n)))
        .boxed()
}
pub fn c25s() -> Vec<Sub> {
    vec![
        sub(
            "names",
            20_000,
            40,
            8,
            || {
                (
                    proptest::collection::vec((0u8..TABLE_LEN as u8, any::<u64>()), 0..8),
                    proptest::collection::vec(prop_oneof![2 => near(&SHORT), 3 => near(&TABLE_NAMES), 1 => "[a-z._ ]{0,12}", 1 => "\\PC{0,8}", 1 => Just("".to_string()), 1 => long()], 0..5),
                    prop_oneof![near(&["autoware"]), "[a-z]{0,10}", Just("nuscenes".to_string()), Just("".to_string())],
                )
                    .prop_map(|(known, other, prefix)| NameCase { known, other, prefix })
            },
            c25,
        ),
        sub("table", 8_000, 10, 8, || (0u8..TABLE_LEN as u8, prop_oneof![Just(0u64), Just(u64::MAX), Just(1), any::<u64>()]), c25_table),
    ]
}

pub const TASKS: [(&str, &str, usize); 3] = [("Detection", "detection", 0), ("Tracking", "tracking", 1), ("Prediction", "prediction", 2)];
pub const FRAMES: [(&str, &str); 10] = [
    ("BaseLink", "base_link"),
    ("Map", "map"),
    ("CamBack", "cam_back"),
    ("CamBackLeft", "cam_back_left"),
    ("CamBackRight", "cam_back_right"),
    ("CamFront", "cam_front"),
    ("CamFrontLeft", "cam_front_left"),
    ("CamFrontRight", "cam_front_right"),
    ("CamTrafficLightNear", "cam_traffic_light_near"),
    ("CamTrafficLightFar", "cam_traffic_light_far"),
];
const ALL_NAMES: [&str; 26] = [
    "Detection", "detection", "Tracking", "tracking", "Prediction", "prediction", "BaseLink", "base_link", "Map", "map", "CamBack", "cam_back",
    "CamBackLeft", "cam_back_left", "CamBackRight", "cam_back_right", "CamFront", "cam_front", "CamFrontLeft", "cam_front_left", "CamFrontRight",
    "cam_front_right", "CamTrafficLightNear", "cam_traffic_light_near", "CamTrafficLightFar", "cam_traffic_light_far",
];
fn frame_values() -> [FrameID; 10] {
    [
        FrameID::BaseLink,
        FrameID::Map,
        FrameID::CamBack,
        FrameID::CamBackLeft,
        FrameID::CamBackRight,
        FrameID::CamFront,
        FrameID::CamFrontLeft,
        FrameID::CamFrontRight,
        FrameID::CamTrafficLightNear,
        FrameID::CamTrafficLightFar,
    ]
}
fn c26(c: &(u8, bool, String), ctx: &mut Ctx) -> R {
    use perception_eval::evaluation_task::{set_task, EvaluationTask};
    use std::str::FromStr;
    let tasks = [EvaluationTask::Detection, EvaluationTask::Tracking, EvaluationTask::Prediction];
    let (camel, snake, i) = TASKS[c.0 as usize % 3];
    let name = if c.1 { camel } else { snake };
    for (how, got) in [("from_str", EvaluationTask::from_str(name)), ("set_task", set_task(name))] {
        let got = got.map_err(|e| format!("{how}({name:?}) fails: {e}"))?;
        ensure!(got == tasks[i], "{how}({name:?}) gives {got:?}");
        let again = set_task(&got.to_string()).map_err(|e| format!("printed task {:?} does not parse: {e}", got.to_string()))?;
        ensure!(again == got, "printing and parsing {got:?} gives {again:?}");
        ensure!(got.is_3d() && !got.is_2d(), "{got:?} is not a 3D task");
    }
    let (camel, snake) = FRAMES[c.0 as usize % 10];
    let want = &frame_values()[c.0 as usize % 10];
    let name = if c.1 { camel } else { snake };
    let got = FrameID::from_str(name).map_err(|e| format!("frame {name:?} fails: {e}"))?;
    ensure!(got == *want, "frame {name:?} gives {got:?}");
    let again = FrameID::from_str(&got.to_string()).map_err(|e| format!("printed frame {:?} does not parse: {e}", got.to_string()))?;
    ensure!(again == got, "printing and parsing {got:?} gives {again:?}");
    let t = c.2.as_str();
    if !TASKS.iter().any(|(a, b, _)| *a == t || *b == t) {
        ensure!(EvaluationTask::from_str(t).is_err() && set_task(t).is_err(), "{t:?} parses as a task");
        ctx.class("other text");
    }
    if !FRAMES.iter().any(|(a, b)| *a == t || *b == t) {
        ensure!(FrameID::from_str(t).is_err(), "{t:?} parses as a frame");
    }
    ctx.nontrivial(!t.is_empty());
    Ok(())
}
pub fn c26s() -> Vec<Sub> {
    vec![sub(
        "names",
        40_000,
        40,
        8,
        || {
            (
                0u8..30,
                any::<bool>(),
                prop_oneof![
                    5 => near(&ALL_NAMES),
                    2 => (0..ALL_NAMES.len()).prop_map(|i| ALL_NAMES[i].to_lowercase()),
                    2 => (0..ALL_NAMES.len(), any::<u64>()).prop_map(|(i, m)| recase(ALL_NAMES[i], m)),
                    1 => "[A-Za-z_]{0,12}",
                    1 => "\\PC{0,8}",
                    1 => long(),
                ],
            )
        },
        c26,
    )]
}

#[allow(unused)]
pub fn mode_name(m: &MatchingMode) -> String {
    format!("{m:?}")
}
