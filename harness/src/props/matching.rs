//! C04-C08: pair decisions.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use perception_eval::matching::MatchingMode;
use perception_eval::result::object::PerceptionResult;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const MODES: [MatchingMode; 4] =
    [MatchingMode::CenterDistance, MatchingMode::PlaneDistance, MatchingMode::Iou2d, MatchingMode::Iou3d];

fn decide(a: &Obj, b: &Obj, mode: &MatchingMode, t: f64) -> Result<bool, String> {
    PerceptionResult::new(a.build(), Some(b.build()))
        .is_result_correct(mode, &t)
        .map_err(|e| format!("is_result_correct({mode:?}, {t}) fails: {e}"))
}

/// A distance-like score is `want` if the decision flips around it.
fn probe_distance(a: &Obj, b: &Obj, mode: &MatchingMode, want: f64, tol: f64) -> Result<bool, String> {
    Ok(decide(a, b, mode, want + tol)? && !decide(a, b, mode, want - tol)?)
}
fn probe_iou(a: &Obj, b: &Obj, mode: &MatchingMode, want: f64, tol: f64) -> Result<bool, String> {
    Ok(decide(a, b, mode, want - tol)? && !decide(a, b, mode, want + tol)?)
}
/// The score behind the decision, by bisection (only used in messages).
fn measured(a: &Obj, b: &Obj, mode: &MatchingMode) -> String {
    let dist = matches!(mode, MatchingMode::CenterDistance | MatchingMode::PlaneDistance);
    let (mut lo, mut hi) = (-10.0f64, 1e6f64);
    for _ in 0..200 {
        let m = (lo + hi) / 2.0;
        match decide(a, b, mode, m) {
            Ok(c) => {
                if c == dist {
                    hi = m
                } else {
                    lo = m
                }
            }
            Err(e) => return e,
        }
    }
    format!("about {hi}")
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct PairT {
    p: Pair,
    t: f64,
    shift: V3,
    turn: f64,
}
fn pair_t(range: f64, tilt: bool) -> BoxedStrategy<PairT> {
    (
        pair(range, tilt, 8),
        prop_oneof![0.0..4.0f64, 0.0..1.0f64, (0u8..12).prop_map(|i| i as f64 * 0.5), -1.0..0.0f64],
        pos(30.0, 5.0),
        angle(),
    )
        .prop_map(|(p, t, shift, turn)| PairT { p, t, shift, turn })
        .boxed()
}

/// Other scales and places; also thresholds near the score.
fn pair_wide(tilt: bool) -> BoxedStrategy<PairT> {
    (wide(pair(6.0, tilt, 8)), prop_oneof![3 => 0.0..1.0f64, 1 => 0.0..4.0f64, 1 => 0.0..1e5f64, 1 => Just(1e300), 1 => Just(-1e300), 1 => Just(0.0)], pos(300.0, 5.0), angle())
        .prop_map(|(p, t, shift, turn)| PairT { p, t, shift, turn })
        .boxed()
}

fn moved(o: &Obj, shift: &V3, turn: f64) -> Obj {
    let mut m = o.clone();
    m.pos = add(&qrot(&o.pos, &from_rpy(&[0.0, 0.0, turn])), shift);
    // Yaw is applied last, so turning about z adds to it.
    m.rpy[2] += turn;
    m
}

fn c04(c: &PairT, ctx: &mut Ctx) -> R {
    let (a, b) = (&c.p.a, &c.p.b);
    let mode = MatchingMode::CenterDistance;
    let d = dist3(&a.pos, &b.pos);
    let tol = 1e-10 * (1.0 + norm(&a.pos) + norm(&b.pos));
    ctx.nontrivial(d > 0.0);
    ctx.class_if(d == 0.0, "same position");
    ensure!(probe_distance(a, b, &mode, d, tol)?, "center distance is {d} but the decision flips at {}", measured(a, b, &mode));
    let got = decide(a, b, &mode, c.t)?;
    if (d - c.t).abs() > tol {
        ensure!(got == (d < c.t), "distance {d}, threshold {}: {got}", c.t);
    }
    ensure!(got == decide(b, a, &mode, c.t)?, "not symmetric at threshold {}", c.t);
    let (a2, b2) = (moved(a, &c.shift, 0.0), moved(b, &c.shift, 0.0));
    if (d - c.t).abs() > 1e-9 * (1.0 + norm(&a.pos) + norm(&b.pos)) {
        ensure!(got == decide(&a2, &b2, &mode, c.t)?, "changes under translation");
    }
    for m in MODES {
        let none = PerceptionResult::new(a.build(), None);
        let r = none.is_result_correct(&m, &c.t).map_err(|e| format!("{e}"))?;
        ensure!(!r, "a result without ground truth is correct in mode {m:?} at {}", c.t);
        ensure!(!none.is_label_correct(), "a result without ground truth has a correct label");
    }
    Ok(())
}

/// Offsets with exactly representable length: strictness.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Exact {
    o: Obj,
    base: [i32; 3],
    k: i32,
    shape: u8,
}
const EXACT: [([i32; 3], i32); 6] =
    [([1, 0, 0], 1), ([0, 1, 0], 1), ([0, 0, 1], 1), ([3, 4, 0], 5), ([2, 3, 6], 7), ([1, 2, 2], 3)];
fn c04_strict(c: &Exact, ctx: &mut Ctx) -> R {
    let (dir, len) = EXACT[c.shape as usize];
    let mut a = c.o.clone();
    a.pos = c.base.map(|x| x as f64);
    let d = (len * c.k.abs()) as f64;
    ctx.nontrivial(c.k != 0);
    let at = |k: i32, off: f64| {
        let mut b = a.clone();
        for i in 0..3 {
            b.pos[i] += (dir[i] * k) as f64;
        }
        decide(&a, &b, &MatchingMode::CenterDistance, (len * k.abs()) as f64 + off)
    };
    ensure!(!at(c.k, -1e-6)?, "distance {d} is accepted at threshold {d} - 1e-6");
    ensure!(at(c.k, 1e-6)?, "distance {d} is rejected at threshold {d} + 1e-6");
    // The distance may be rounded, but not always downwards.
    let mut all = true;
    for k in STEPS {
        all &= at(if c.k < 0 { -k } else { k }, 0.0)?;
    }
    ensure!(!all, "distances of exactly the threshold are accepted: {STEPS:?} times {dir:?}");
    Ok(())
}
const STEPS: [i32; 10] = [1, 3, 5, 7, 9, 11, 13, 15, 17, 19];

pub fn c04s() -> Vec<Sub> {
    vec![
        sub("pairs", 160_000, 40, 8, || pair_t(100.0, true), c04),
        sub("wide", 40_000, 40, 8, || pair_wide(true), c04),
        sub(
            "strict",
            40_000,
            20,
            8,
            || {
                (obj(ObjOpts { range: 10.0, tilt: true, labels: 8 }), -50i32..50, -50i32..50, -5i32..5, -20i32..20, 0u8..6)
                    .prop_map(|(o, x, y, z, k, shape)| Exact { o, base: [x, y, z], k, shape })
            },
            c04_strict,
        ),
    ]
}

fn c05(c: &PairT, ctx: &mut Ctx) -> R {
    let (a, b) = (&c.p.a, &c.p.b);
    let mode = MatchingMode::PlaneDistance;
    let cand = plane_distances(&a.bx(), &b.bx());
    let scale = 1.0 + norm(&a.pos) + norm(&b.pos) + norm(&a.size) + norm(&b.size);
    let tol = 1e-8 * scale;
    ctx.class_if(cand.len() > 1, "tied corners");
    ctx.nontrivial(cand.len() == 1 && cand[0] > tol);
    let mut ok = false;
    for d in &cand {
        ok |= probe_distance(a, b, &mode, *d, tol)?;
    }
    ensure!(ok, "plane distance should be {cand:?}, the decision flips at {}", measured(a, b, &mode));
    if cand.len() == 1 {
        let d = cand[0];
        let got = decide(a, b, &mode, c.t)?;
        if (d - c.t).abs() > tol {
            ensure!(got == (d < c.t), "plane distance {d}, threshold {}: {got}", c.t);
            ensure!(got == decide(b, a, &mode, c.t)?, "not symmetric");
            let (a2, b2) = (moved(a, &[0.0; 3], c.turn), moved(b, &[0.0; 3], c.turn));
            ensure!(got == decide(&a2, &b2, &mode, c.t)?, "changes when both objects turn around the origin by {}", c.turn);
        }
    }
    // An object and itself.
    ensure!(!decide(a, a, &mode, 0.0)?, "self distance is below 0");
    ensure!(decide(a, a, &mode, 1e-9)?, "self distance is not 0 but {}", measured(a, a, &mode));
    Ok(())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Shifted {
    o: Obj,
    x: i32,
    y: i32,
    k: i32,
    along_y: bool,
}
/// Axis-aligned, dyadic boxes shifted along one axis: the score is exactly the shift.
fn c05_strict(c: &Shifted, ctx: &mut Ctx) -> R {
    let mut a = c.o.clone();
    a.rpy = [0.0; 3];
    a.neg = false;
    a.size = [2.0, 4.0, 1.5];
    a.pos = [c.x as f64, c.y as f64, 0.0];
    let mode = MatchingMode::PlaneDistance;
    let at = |k: i32, off: f64| -> Result<Option<bool>, String> {
        let mut b = a.clone();
        b.pos[if c.along_y { 1 } else { 0 }] += k as f64;
        let d = k.abs() as f64;
        let cand = plane_distances(&a.bx(), &b.bx());
        // otherwise other sides, or ties
        Ok(if cand.len() != 1 || (cand[0] - d).abs() > 1e-9 { None } else { Some(decide(&a, &b, &mode, d + off)?) })
    };
    let d = c.k.abs() as f64;
    ensure!(at(c.k, -1e-6)? != Some(true), "plane distance {d} is accepted at threshold {d} - 1e-6");
    ensure!(at(c.k, 1e-6)? != Some(false), "plane distance {d} is rejected at threshold {d} + 1e-6");
    // The distance may be rounded, but not always downwards.
    let mut exactly = Vec::new();
    for k in STEPS {
        exactly.extend(at(if c.k < 0 { -k } else { k }, 0.0)?);
    }
    ctx.class_if(exactly.len() < 8, "different sides or ties");
    ctx.nontrivial(exactly.len() >= 8);
    ensure!(exactly.len() < 8 || exactly.contains(&false), "plane distances of exactly the threshold are accepted: shifts by {STEPS:?}");
    Ok(())
}

pub fn c05s() -> Vec<Sub> {
    vec![
        sub("pairs", 120_000, 40, 8, || pair_t(40.0, true), c05),
        sub("upright", 80_000, 40, 8, || pair_t(12.0, false), c05),
        sub("wide", 40_000, 40, 8, || pair_wide(true), c05),
        sub(
            "strict",
            40_000,
            10,
            8,
            || {
                (obj(ObjOpts { range: 10.0, tilt: false, labels: 8 }), -30i32..30, -30i32..30, -6i32..6, any::<bool>())
                    .prop_map(|(o, x, y, k, along_y)| Shifted { o, x, y, k, along_y })
            },
            c05_strict,
        ),
    ]
}

fn iou_tol(a: &Obj, b: &Obj) -> f64 {
    // Intersections are computed in absolute coordinates: allow rounding relative to the smaller area.
    let scale = 1.0 + norm(&a.pos) + norm(&b.pos) + norm(&a.size) + norm(&b.size);
    let small = (a.size[0] * a.size[1]).min(b.size[0] * b.size[1]).min(1.0);
    (1e-13 * scale * scale / small).max(1e-11)
}

fn c06(c: &PairT, ctx: &mut Ctx) -> R {
    let (a, b) = (&c.p.a, &c.p.b);
    let mode = MatchingMode::Iou2d;
    let iou = iou2d(&a.bx(), &b.bx());
    let tol = iou_tol(a, b);
    ctx.class_if(iou == 0.0, "disjoint");
    ctx.class_if(iou > 1.0 - 1e-9, "identical");
    ctx.nontrivial(iou > 1e-6 && iou < 1.0 - 1e-6);
    ensure!(probe_iou(a, b, &mode, iou, tol)?, "2D IoU is {iou}, the decision flips at {}", measured(a, b, &mode));
    if dist2(&a.pos, &b.pos) > norm(&a.size) + norm(&b.size) {
        ensure!(!decide(a, b, &mode, 0.0)?, "disjoint boxes have a positive IoU");
    }
    ensure!(!decide(a, b, &mode, 1.0 + tol)?, "IoU above 1");
    let got = decide(a, b, &mode, c.t)?;
    if (iou - c.t).abs() > tol {
        ensure!(got == (c.t < iou), "2D IoU {iou}, threshold {}: {got}", c.t);
        ensure!(got == decide(b, a, &mode, c.t)?, "not symmetric");
    }
    let (a2, b2) = (moved(a, &c.shift, c.turn), moved(b, &c.shift, c.turn));
    let tol2 = tol + iou_tol(&a2, &b2);
    if (iou - c.t).abs() > tol2 {
        ensure!(got == decide(&a2, &b2, &mode, c.t)?, "changes under a rigid motion");
    }
    Ok(())
}

fn c07(c: &PairT, ctx: &mut Ctx) -> R {
    let (a, b) = (&c.p.a, &c.p.b);
    let mode = MatchingMode::Iou3d;
    let iou = iou3d(&a.bx(), &b.bx());
    let tol = iou_tol(a, b) * 4.0 / a.size[2].min(b.size[2]).min(1.0);
    let gap = (a.pos[2] - b.pos[2]).abs() - (a.size[2] + b.size[2]) / 2.0;
    ctx.class_if(gap > 0.0, "vertically separated");
    ctx.class_if(iou > 1.0 - 1e-9, "identical");
    ctx.nontrivial(iou > 1e-6 && iou < 1.0 - 1e-6);
    ensure!(probe_iou(a, b, &mode, iou, tol)?, "3D IoU is {iou}, the decision flips at {}", measured(a, b, &mode));
    if gap > 1e-6 {
        ensure!(!decide(a, b, &mode, 0.0)?, "vertically separated boxes have a positive 3D IoU");
    }
    let v = |o: &Obj| o.size[0] * o.size[1] * o.size[2];
    let ratio = v(a).min(v(b)) / v(a).max(v(b));
    ensure!(!decide(a, b, &mode, ratio + tol)?, "3D IoU above the volume ratio {ratio}");
    ensure!(!decide(a, b, &mode, 1.0 + tol)?, "3D IoU above 1");
    let got = decide(a, b, &mode, c.t)?;
    if (iou - c.t).abs() > tol {
        ensure!(got == (c.t < iou), "3D IoU {iou}, threshold {}: {got}", c.t);
        ensure!(got == decide(b, a, &mode, c.t)?, "not symmetric");
    }
    Ok(())
}

/// The scores are ratios: a pair twice or half as large, twice or half as far, scores the same.
fn scaled(c: &(PairT, i32), volume: bool, ctx: &mut Ctx) -> R {
    let (a, b, k) = (&c.0.p.a, &c.0.p.b, 2f64.powi(c.1));
    let (mode, iou) = if volume { (MatchingMode::Iou3d, iou3d(&a.bx(), &b.bx())) } else { (MatchingMode::Iou2d, iou2d(&a.bx(), &b.bx())) };
    let tol = iou_tol(a, b) * if volume { 4.0 / a.size[2].min(b.size[2]).min(1.0) } else { 1.0 };
    let times = |o: &Obj| Obj { pos: o.pos.map(|x| x * k), size: o.size.map(|x| x * k), ..o.clone() };
    let (a2, b2) = (times(a), times(b));
    ctx.nontrivial(iou > 1e-6 && iou < 1.0 - 1e-6);
    ctx.class_if(c.1 < -9, "of millimetres and less");
    ensure!(probe_iou(&a2, &b2, &mode, iou, tol)?, "the IoU is {iou} by any scale, at {k} times the size the decision flips at {}", measured(&a2, &b2, &mode));
    Ok(())
}
fn c06_scaled(c: &(PairT, i32), ctx: &mut Ctx) -> R {
    scaled(c, false, ctx)
}
fn c07_scaled(c: &(PairT, i32), ctx: &mut Ctx) -> R {
    scaled(c, true, ctx)
}

/// Boxes of no length, width or height: nothing is shared, the score is 0.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Flat {
    p: Pair,
    /// sizes that are zero, per object
    zero: (u8, u8),
    t: f64,
}
fn flat(c: &Flat, volume: bool, ctx: &mut Ctx) -> R {
    let (mut a, mut b) = (c.p.a.clone(), c.p.b.clone());
    for i in 0..3 {
        if c.zero.0 >> i & 1 == 1 {
            a.size[i] = 0.0;
        }
        if c.zero.1 >> i & 1 == 1 {
            b.size[i] = 0.0;
        }
    }
    let mode = if volume { MatchingMode::Iou3d } else { MatchingMode::Iou2d };
    let n = if volume { 3 } else { 2 };
    let empty = |o: &Obj| o.size[..n].iter().any(|x| *x == 0.0);
    ctx.nontrivial(empty(&a) && empty(&b));
    if !empty(&a) && !empty(&b) {
        return Ok(());
    }
    let tol = 1e-6;
    for (x, y) in [(&a, &b), (&b, &a)] {
        ensure!(decide(x, y, &mode, -tol)?, "{mode:?}: the score of boxes that share nothing is below 0 or not a number");
        ensure!(!decide(x, y, &mode, tol)?, "{mode:?}: the score of boxes that share nothing is above 0");
        if c.t.abs() > tol {
            ensure!(decide(x, y, &mode, c.t)? == (c.t < 0.0), "{mode:?}: boxes that share nothing, threshold {}", c.t);
        }
    }
    Ok(())
}
fn flats() -> BoxedStrategy<Flat> {
    (prop_oneof![4 => pair(5.0, false, 8), 1 => pair(150.0, false, 8)], (0u8..8, 0u8..8), -1.5..1.5f64).prop_map(|(p, zero, t)| Flat { p, zero, t }).boxed()
}
fn c06_flat(c: &Flat, ctx: &mut Ctx) -> R {
    flat(c, false, ctx)
}
fn c07_flat(c: &Flat, ctx: &mut Ctx) -> R {
    flat(c, true, ctx)
}

pub fn c06s() -> Vec<Sub> {
    vec![
        sub("near", 60_000, 40, 8, || pair_t(5.0, false), c06),
        sub("far", 30_000, 40, 8, || pair_t(150.0, false), c06),
        sub("wide", 20_000, 40, 8, || pair_wide(false), c06),
        sub("flat", 20_000, 40, 8, flats, c06_flat),
        sub("scaled", 15_000, 40, 8, || (pair_t(5.0, false), -40i32..30), c06_scaled),
    ]
}
pub fn c07s() -> Vec<Sub> {
    vec![
        sub("near", 60_000, 40, 8, || pair_t(5.0, false), c07),
        sub("far", 30_000, 40, 8, || pair_t(150.0, false), c07),
        sub("wide", 20_000, 40, 8, || pair_wide(false), c07),
        sub("flat", 20_000, 40, 8, flats, c07_flat),
        sub("scaled", 15_000, 40, 8, || (pair_t(5.0, false), -40i32..30), c07_scaled),
    ]
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Mono {
    p: Pair,
    mode: u8,
    t1: f64,
    t2: f64,
    attr: Obj,
}
fn c08(c: &Mono, ctx: &mut Ctx) -> R {
    let (a, b) = (&c.p.a, &c.p.b);
    let mode = &MODES[c.mode as usize];
    let dist = c.mode < 2;
    let (lo, hi) = (c.t1.min(c.t2), c.t1.max(c.t2));
    let (rlo, rhi) = (decide(a, b, mode, lo)?, decide(a, b, mode, hi)?);
    ctx.class(&format!("{mode:?}"));
    ctx.class_if(rlo != rhi, "decision changes between the thresholds");
    ctx.nontrivial(rlo != rhi);
    if dist {
        ensure!(!rlo || rhi, "{mode:?}: correct at {lo} but not at the looser {hi}");
    } else {
        ensure!(!rhi || rlo, "{mode:?}: correct at {hi} but not at the looser {lo}");
    }
    // Attributes other than geometry do not matter.
    let mut a2 = a.clone();
    a2.conf = c.attr.conf;
    a2.pts = c.attr.pts;
    a2.uuid = c.attr.uuid;
    a2.vel = c.attr.vel;
    a2.ts = c.attr.ts;
    let r2 = decide(&a2, b, mode, c.t1)?;
    ensure!(r2 == decide(a, b, mode, c.t1)?, "{mode:?}: the decision depends on attributes of the estimate");
    let mut b2 = b.clone();
    b2.conf = c.attr.conf;
    b2.pts = c.attr.pts;
    b2.uuid = c.attr.uuid;
    b2.vel = c.attr.vel;
    b2.ts = c.attr.ts;
    let r3 = decide(a, &b2, mode, c.t1)?;
    ensure!(r3 == decide(a, b, mode, c.t1)?, "{mode:?}: the decision depends on attributes of the ground truth");
    // Self pairs.
    let t = if dist { c.t1.abs().max(1e-6) } else { (c.t2.abs() / (1.0 + c.t2.abs())).min(1.0 - 1e-3) };
    let t = if dist { t } else { t.min(1.0 - 4.0 * iou_tol(a, a)) };
    let upright = a.rpy[0] == 0.0 && a.rpy[1] == 0.0;
    ensure!(!dist && !upright || decide(a, a, mode, t)?, "{mode:?}: an object is not matched with itself at threshold {t}");
    // Labels.
    let r = PerceptionResult::new(a.build(), Some(b.build()));
    ensure!(r.is_label_correct() == (a.label == b.label), "is_label_correct is {} for {:?} and {:?}", r.is_label_correct(), a.label(), b.label());
    Ok(())
}
pub fn c08s() -> Vec<Sub> {
    let th = || prop_oneof![3 => 0.0..1.0f64, 2 => 0.0..6.0f64, 1 => -1.0..0.0f64, 1 => (0u8..8).prop_map(|i| i as f64 * 0.5)];
    let attr = || obj(ObjOpts { range: 5.0, tilt: false, labels: 8 });
    vec![
        sub(
            "laws",
            120_000,
            40,
            8,
            move || (pair(6.0, false, 8), 0u8..4, th(), th(), attr()).prop_map(|(p, mode, t1, t2, attr)| Mono { p, mode, t1, t2, attr }),
            c08,
        ),
        sub(
            "wide",
            30_000,
            40,
            8,
            move || {
                let t = || prop_oneof![3 => 0.0..1.0f64, 1 => 0.0..1e5f64, 1 => Just(1e300), 1 => Just(-1e300), 1 => Just(0.0)];
                (wide(pair(6.0, true, 8)), 0u8..4, t(), t(), attr()).prop_map(|(p, mode, t1, t2, attr)| Mono { p, mode, t1, t2, attr })
            },
            c08,
        ),
    ]
}
