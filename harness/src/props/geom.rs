//! C01-C03: rotations, euler angles, box geometry.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use perception_eval::dataset::nuscenes::{r#box::NuScenesBox, schema::LongToken};
use perception_eval::utils::math::*;
use perception_eval::utils::point::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Motion {
    v: V3,
    t: V3,
    r1: V3,
    r2: V3,
    neg1: bool,
    neg2: bool,
}
fn signed(q: Q, neg: bool) -> Q {
    if neg {
        [-q[0], -q[1], -q[2], -q[3]]
    } else {
        q
    }
}
/// From micrometres to the size of the earth.
fn motion_wide() -> BoxedStrategy<Motion> {
    (motion(), magnitude(-9, 5), magnitude(-9, 5))
        .prop_map(|(mut m, a, b)| {
            m.v = m.v.map(|x| x * a);
            m.t = m.t.map(|x| x * b);
            m
        })
        .boxed()
}
fn motion() -> BoxedStrategy<Motion> {
    (pos(500.0, 50.0), pos(500.0, 50.0), rpy_full(), rpy_full(), any::<bool>(), any::<bool>())
        .prop_map(|(v, t, r1, r2, neg1, neg2)| Motion { v, t, r1, r2, neg1, neg2 })
        .boxed()
}

fn c01_points(m: &Motion, ctx: &mut Ctx) -> R {
    let q = signed(from_rpy(&m.r1), m.neg1);
    let tol = 1e-11 * (norm(&m.v) + norm(&m.t));
    ctx.nontrivial(m.r1 != [0.0; 3] && m.v != [0.0; 3]);
    ctx.class_if(m.r1[0] == 0.0 && m.r1[1] == 0.0, "yaw only");
    let want = qrot(&m.v, &q);
    let got = rotate(&m.v, &q);
    ensure!(close3(&got, &want, tol), "rotate({:?}, {q:?}) = {got:?}, the quaternion's rotation gives {want:?}", m.v);
    let rm = quaternion2rotation(&q);
    for i in 0..3 {
        let row = rm[(i, 0)] * m.v[0] + rm[(i, 1)] * m.v[1] + rm[(i, 2)] * m.v[2];
        ensure!(close(row, want[i], tol), "quaternion2rotation({q:?}) maps {:?} to component {i} = {row}, expected {}", m.v, want[i]);
    }
    ensure!(close(norm(&got), norm(&m.v), tol), "rotate changes the length");
    let back = rotate_inv(&got, &q);
    ensure!(close3(&back, &m.v, tol), "rotate_inv does not undo rotate: {back:?} instead of {:?}", m.v);
    let inv = rotate_inv(&m.v, &q);
    ensure!(close3(&inv, &qrot(&m.v, &conj(&q)), tol), "rotate_inv is not the inverse rotation: {inv:?}");
    let tr = translate(&m.v, &m.t);
    ensure!(close3(&tr, &add(&m.v, &m.t), tol), "translate({:?}, {:?}) = {tr:?}", m.v, m.t);
    let ti = translate_inv(&m.v, &m.t);
    ensure!(close3(&ti, &minus(&m.v, &m.t), tol), "translate_inv({:?}, {:?}) = {ti:?}", m.v, m.t);
    ensure!(close3(&translate_inv(&tr, &m.t), &m.v, tol), "translate_inv does not undo translate");
    Ok(())
}

fn c01_orient(m: &Motion, ctx: &mut Ctx) -> R {
    let q1 = signed(from_rpy(&m.r1), m.neg1);
    let q2 = signed(from_rpy(&m.r2), m.neg2);
    let tol = 1e-10;
    ctx.nontrivial(m.r1 != [0.0; 3] && m.r2 != [0.0; 3]);
    let comp = rotate_q(&q1, &q2);
    let want = qmul(&q2, &q1);
    ensure!(same_q(&comp, &want, tol), "rotate_q({q1:?}, {q2:?}) = {comp:?}, composition is {want:?}");
    let two = rotate(&rotate(&m.v, &q1), &q2);
    let one = rotate(&m.v, &comp);
    ensure!(close3(&two, &one, 1e-9 * (1.0 + norm(&m.v))), "rotating by the composition gives {one:?}, in two steps {two:?}");
    let back = rotate_q_inv(&comp, &q2);
    ensure!(same_q(&back, &q1, tol), "rotate_q_inv(rotate_q(q1, q2), q2) = {back:?} instead of {q1:?}");
    let inv = rotate_q_inv(&q1, &q2);
    ensure!(same_q(&inv, &qmul(&conj(&q2), &q1), tol), "rotate_q_inv({q1:?}, {q2:?}) = {inv:?}");
    let ident = qmul(&q1, &inverse_quaternion(&q1));
    ensure!(same_q(&ident, &[1.0, 0.0, 0.0, 0.0], tol), "q * inverse(q) = {ident:?}");
    Ok(())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Scaled {
    r: V3,
    s: f64,
}
fn c01_inverse(c: &Scaled, ctx: &mut Ctx) -> R {
    let q = from_rpy(&c.r).map(|e| e * c.s);
    ctx.nontrivial(c.s != 1.0 && c.r != [0.0; 3]);
    let inv = inverse_quaternion(&q);
    let ident = qmul(&q, &inv);
    ensure!(
        (0..4).all(|i| close(ident[i], [1.0, 0.0, 0.0, 0.0][i], 1e-10)),
        "q * inverse(q) = {ident:?} for q = {q:?}"
    );
    Ok(())
}

fn token(n: u8) -> LongToken {
    LongToken::try_from(format!("{n:032x}").as_str()).expect("token")
}

fn c01_box(m: &Motion, ctx: &mut Ctx) -> R {
    let q1 = signed(from_rpy(&m.r1), m.neg1);
    let q2 = signed(from_rpy(&m.r2), m.neg2);
    let mk = || NuScenesBox {
        position: m.v,
        orientation: q1,
        size: [1.0, 2.0, 3.0],
        name: "car".into(),
        instance: token(1),
        num_lidar_pts: 7,
        token: token(2),
    };
    let tol = 1e-11 * (norm(&m.v) + norm(&m.t));
    ctx.nontrivial(m.r2 != [0.0; 3] && m.r1 != [0.0; 3] && m.v != [0.0; 3]);
    let unchanged = |b: &NuScenesBox| {
        b.size == [1.0, 2.0, 3.0] && b.name == "car" && b.instance == token(1) && b.token == token(2) && b.num_lidar_pts == 7
    };
    let mut b = mk();
    b.translate(&m.t);
    ensure!(close3(&b.position, &add(&m.v, &m.t), tol) && b.orientation == q1 && unchanged(&b), "translate gives {b:?}");
    ensure!(close3(&mk().get_translate(&m.t), &b.position, tol), "get_translate differs from translate");
    let mut b = mk();
    b.translate_inv(&m.t);
    ensure!(close3(&b.position, &minus(&m.v, &m.t), tol) && b.orientation == q1 && unchanged(&b), "translate_inv gives {b:?}");
    ensure!(close3(&mk().get_translate_inv(&m.t), &b.position, tol), "get_translate_inv differs from translate_inv");
    let mut b = mk();
    b.rotate(&q2);
    ensure!(close3(&b.position, &qrot(&m.v, &q2), tol), "rotate moves the box to {:?}", b.position);
    ensure!(same_q(&b.orientation, &qmul(&q2, &q1), 1e-10) && unchanged(&b), "rotate turns the box to {:?}", b.orientation);
    b.rotate_inv(&q2);
    ensure!(close3(&b.position, &m.v, tol) && same_q(&b.orientation, &q1, 1e-10), "rotate_inv does not undo rotate: {b:?}");
    let mut b = mk();
    b.rotate_inv(&q2);
    ensure!(close3(&b.position, &qrot(&m.v, &conj(&q2)), tol), "rotate_inv moves the box to {:?}", b.position);
    ensure!(same_q(&b.orientation, &qmul(&conj(&q2), &q1), 1e-10) && unchanged(&b), "rotate_inv turns the box to {:?}", b.orientation);
    Ok(())
}

pub fn c01() -> Vec<Sub> {
    vec![
        sub("points", 160_000, 40, 8, motion, c01_points),
        sub("orientations", 160_000, 40, 8, motion, c01_orient),
        sub(
            "inverse",
            40_000,
            40,
            8,
            || (rpy_full(), prop_oneof![Just(1.0), 0.05..20.0f64]).prop_map(|(r, s)| Scaled { r, s }),
            c01_inverse,
        ),
        sub("boxes", 80_000, 40, 8, motion, c01_box),
        sub("wide", 40_000, 40, 8, motion_wide, |m: &Motion, ctx: &mut Ctx| {
            c01_points(m, ctx)?;
            c01_box(m, ctx)
        }),
    ]
}

/// Orientations with extra weight near the poles.
fn orientation() -> BoxedStrategy<(V3, bool)> {
    (
        prop_oneof![
            4 => rpy_full(),
            1 => (angle(), -1e-3..1e-3f64, any::<bool>(), angle())
                .prop_map(|(r, e, s, y)| [r, if s { PI / 2.0 + e } else { -PI / 2.0 + e }, y]),
            1 => (angle(), any::<bool>(), angle())
                .prop_map(|(r, s, y)| [r, if s { PI / 2.0 } else { -PI / 2.0 }, y]),
        ],
        any::<bool>(),
    )
        .boxed()
}

/// Any object in this orientation: only the orientation counts.
fn c02_euler(c: &(V3, bool, Obj), ctx: &mut Ctx) -> R {
    let mut o = Obj { rpy: c.0, neg: c.1, ..c.2.clone() };
    let q = o.q();
    let obj = o.build();
    let e = quaternion2euler(&q);
    ensure!(e.iter().all(|x| x.is_finite()), "euler({q:?}) = {e:?} is not finite");
    ensure!(obj.euler() == e, "DynamicObject::euler differs from quaternion2euler");
    let h = obj.heading();
    ensure!((-PI..=PI).contains(&h), "heading {h} outside [-pi, pi] for {q:?}");
    let rm = obj.rotation_matrix();
    for (j, axis) in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]].iter().enumerate() {
        let col = qrot(axis, &q);
        for i in 0..3 {
            ensure!(close(rm[(i, j)], col[i], 1e-10), "rotation_matrix of {q:?} is {rm:?}");
        }
    }
    let x = qrot(&[1.0, 0.0, 0.0], &q);
    let flat = x[0].hypot(x[1]);
    ctx.class_if(flat < 1e-3, "near gimbal lock");
    ctx.class_if(x[0] < 0.0, "facing backwards");
    if flat < 2e-3 {
        return Ok(());
    }
    ctx.nontrivial(c.0 != [0.0; 3]);
    // Rounding is amplified by 1/cos(pitch).
    let tol = 1e-11 / flat / flat + 1e-9;
    let rebuilt = from_rpy(&e);
    for axis in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]] {
        let (a, b) = (qrot(&axis, &rebuilt), qrot(&axis, &q));
        ensure!(close3(&a, &b, tol), "euler({q:?}) = {e:?} rebuilds {axis:?} -> {a:?}, the orientation gives {b:?}");
    }
    let want = x[1].atan2(x[0]);
    ensure!(wrap(h - want).abs() <= tol, "heading({q:?}) = {h}, the object faces {want}");
    o.neg = !o.neg;
    let h2 = o.build().heading();
    ensure!(wrap(h - h2).abs() <= tol, "heading differs for q and -q: {h} and {h2}");
    Ok(())
}

pub fn c02() -> Vec<Sub> {
    vec![sub("euler", 150_000, 40, 8, || (orientation(), obj(ObjOpts { range: 50.0, tilt: false, labels: 8 }), 0u8..10).prop_map(|((rpy, neg), o, frame)| (rpy, neg, Obj { frame, ..o })), c02_euler)]
}

fn c03_box(o: &Obj, ctx: &mut Ctx) -> R {
    let obj = o.build();
    let q = o.q();
    let scale = norm(&o.pos) + norm(&o.size);
    let tol = 1e-11 * scale;
    let dims = norm(&o.size);
    ctx.nontrivial(o.rpy != [0.0; 3] && o.size[0] != o.size[1]);
    ctx.class_if(o.rpy[0] != 0.0 || o.rpy[1] != 0.0, "tilted");
    let want = corners(&o.pos, &q, &o.size);
    let got = obj.footprint();
    ensure!(got.len() == 4, "footprint has {} corners", got.len());
    let cyc = |dir: i32, s: i32| (0..4).all(|i| close3(&got[(s + dir * i).rem_euclid(4) as usize], &want[i as usize], tol));
    ensure!((0..4).any(|s| cyc(1, s) || cyc(-1, s)), "footprint is {got:?}, the box's corners are {want:?}");
    ensure!(close(obj.area(), o.size[0] * o.size[1], 1e-11 * dims * dims), "area {}", obj.area());
    ensure!(
        close(obj.volume(), o.size[0] * o.size[1] * o.size[2], 1e-11 * dims * dims * dims),
        "volume {}",
        obj.volume()
    );
    if o.rpy[0] == 0.0 && o.rpy[1] == 0.0 {
        let p: Vec<[f64; 2]> = got.iter().map(|c| [c[0] - o.pos[0], c[1] - o.pos[1]]).collect();
        ensure!(close(shoelace(&p).abs(), obj.area(), 1e-11 * scale * dims), "footprint area {} but area {}", shoelace(&p), obj.area());
    }
    ensure!(obj.label_name() == LABEL_PRINT[o.label as usize], "label name {}", obj.label_name());
    Ok(())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Points {
    o: Obj,
    a: V3,
    b: V3,
}
fn c03_dist(c: &Points, ctx: &mut Ctx) -> R {
    let obj = c.o.build();
    let p = &c.o.pos;
    let zero = [0.0; 3];
    let tol = 1e-11 * (norm(p) + norm(&c.a) + norm(&c.b));
    ctx.nontrivial(c.a != *p && c.a[2] != p[2]);
    let chk = |name: &str, got: f64, want: f64| -> R {
        ensure!(close(got, want, tol), "{name} = {got}, expected {want}");
        Ok(())
    };
    chk("distance", obj.distance(), dist3(p, &zero))?;
    chk("distance_bev", obj.distance_bev(), dist2(p, &zero))?;
    chk("distance_from", obj.distance_from(&c.a), dist3(p, &c.a))?;
    chk("distance_bev_from", obj.distance_bev_from(&c.a), dist2(p, &c.a))?;
    chk("distance_points", distance_points(&c.a, &c.b), dist3(&c.a, &c.b))?;
    chk("distance_points_bev", distance_points_bev(&c.a, &c.b), dist2(&c.a, &c.b))?;
    ensure!(distance_points(&c.a, &c.b) == distance_points(&c.b, &c.a), "3D distance is not symmetric");
    ensure!(distance_points_bev(&c.a, &c.b) == distance_points_bev(&c.b, &c.a), "BEV distance is not symmetric");
    ensure!(distance_points(&c.a, &c.b) + tol >= distance_points_bev(&c.a, &c.b), "3D distance below BEV distance");
    ensure!(distance_points(&c.a, &c.a) == 0.0, "distance to itself");
    // left/right
    let (l, r) = get_point_left_right(&c.a, &c.b);
    ensure!((l == &c.a && r == &c.b) || (l == &c.b && r == &c.a), "left/right returned other points: {l:?} {r:?}");
    let cross = c.a[0] * c.b[1] - c.a[1] * c.b[0];
    if cross.abs() > 1e-12 * norm(&c.a) * norm(&c.b) {
        ctx.class("left/right decided");
        let cr = r[0] * l[1] - r[1] * l[0];
        ensure!(cr > 0.0, "left point {l:?} is not counter-clockwise of right point {r:?}");
    }
    Ok(())
}

pub fn c03() -> Vec<Sub> {
    vec![
        sub("box", 160_000, 40, 8, || obj(ObjOpts { range: 200.0, tilt: true, labels: 8 }), c03_box),
        sub(
            "wide",
            80_000,
            40,
            8,
            || {
                (obj(ObjOpts { range: 200.0, tilt: true, labels: 8 }), magnitude(-6, 3), [magnitude(-4, 3), magnitude(-4, 3), magnitude(-4, 3)], 0u8..10).prop_map(|(mut o, k, s, frame)| {
                    o.pos = o.pos.map(|x| x * k);
                    (0..3).for_each(|i| o.size[i] *= s[i]);
                    o.frame = frame;
                    o
                })
            },
            c03_box,
        ),
        sub(
            "wide_distances",
            80_000,
            40,
            8,
            || {
                (obj(ObjOpts { range: 200.0, tilt: true, labels: 8 }), pos(200.0, 20.0), pos(200.0, 20.0), [magnitude(-6, 5), magnitude(-6, 5), magnitude(-6, 5)])
                    .prop_map(|(mut o, a, b, k)| {
                        o.pos = o.pos.map(|x| x * k[0]);
                        Points { o, a: a.map(|x| x * k[1]), b: b.map(|x| x * k[2]) }
                    })
            },
            c03_dist,
        ),
        sub(
            "distances",
            160_000,
            40,
            8,
            || {
                (obj(ObjOpts { range: 200.0, tilt: true, labels: 8 }), pos(200.0, 20.0), pos(200.0, 20.0))
                    .prop_map(|(o, a, b)| Points { o, a, b })
            },
            c03_dist,
        ),
    ]
}
