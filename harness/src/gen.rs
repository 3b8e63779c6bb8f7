//! Shared generators.
use crate::refm::{self, BoxRef, Q, V3};
use chrono::{DateTime, NaiveDateTime};
use perception_eval::{frame_id::FrameID, label::Label, object::object3d::DynamicObject};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

pub const LABELS: [Label; 8] = [
    Label::Car,
    Label::Truck,
    Label::Bus,
    Label::Bicycle,
    Label::Motorbike,
    Label::Pedestrian,
    Label::Animal,
    Label::Unknown,
];
pub const LABEL_NAMES: [&str; 8] = [
    "car", "truck", "bus", "bicycle", "motorbike", "pedestrian", "animal", "unknown",
];
pub const LABEL_PRINT: [&str; 8] = [
    "Car", "Truck", "Bus", "Bicycle", "Motorbike", "Pedestrian", "Animal", "Unknown",
];

pub fn micros(us: i64) -> NaiveDateTime {
    DateTime::from_timestamp_micros(us).expect("timestamp").naive_utc()
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Obj {
    pub pos: V3,
    /// roll, pitch, yaw
    pub rpy: V3,
    /// use the negated quaternion
    pub neg: bool,
    pub size: V3,
    pub conf: f64,
    pub label: u8,
    pub pts: Option<usize>,
    pub uuid: Option<u8>,
    pub vel: Option<V3>,
    pub ts: i64,
    #[serde(default)]
    pub frame: u8,
}

/// Coordinate frames in which objects are given.
pub const OBJ_FRAMES: [FrameID; 10] = [
    FrameID::BaseLink,
    FrameID::Map,
    FrameID::CamBack,
    FrameID::CamFront,
    FrameID::CamBackLeft,
    FrameID::CamBackRight,
    FrameID::CamFrontLeft,
    FrameID::CamFrontRight,
    FrameID::CamTrafficLightNear,
    FrameID::CamTrafficLightFar,
];

impl Obj {
    pub fn q(&self) -> Q {
        let q = refm::from_rpy(&self.rpy);
        if self.neg {
            [-q[0], -q[1], -q[2], -q[3]]
        } else {
            q
        }
    }
    pub fn bx(&self) -> BoxRef {
        BoxRef { pos: self.pos, q: self.q(), size: self.size }
    }
    pub fn label(&self) -> Label {
        LABELS[self.label as usize].clone()
    }
    pub fn uuid_str(&self) -> Option<String> {
        self.uuid.map(uuid_str)
    }
    pub fn build(&self) -> DynamicObject {
        DynamicObject {
            timestamp: micros(self.ts),
            frame_id: OBJ_FRAMES[self.frame as usize % 10].clone(),
            position: self.pos,
            orientation: self.q(),
            size: self.size,
            velocity: self.vel,
            confidence: self.conf,
            label: self.label(),
            pointcloud_num: self.pts,
            uuid: self.uuid_str(),
        }
    }
}

/// Texts that are easily taken for one another: prefixes, letter cases, spaces, nothing.
pub fn uuid_str(u: u8) -> String {
    match u {
        0 => "a1".into(),
        1 => "a12".into(),
        2 => "A1".into(),
        3 => String::new(),
        4 => "a1 ".into(),
        5 => "a".into(),
        6 => "歩行者-ä".into(),
        7 => "a1".repeat(150),
        8 => "null".into(),
        _ => format!("uuid-{u}"),
    }
}

/// Every field of two objects is the same (the crate's own equality ignores some).
pub fn same_object(a: &DynamicObject, b: &DynamicObject) -> bool {
    a.timestamp == b.timestamp
        && a.frame_id == b.frame_id
        && a.position == b.position
        && a.orientation == b.orientation
        && a.size == b.size
        && a.velocity == b.velocity
        && a.confidence == b.confidence
        && a.label == b.label
        && a.pointcloud_num == b.pointcloud_num
        && a.uuid == b.uuid
}

/// A coordinate within [-r, r]: continuous, on a half-metre grid, or zero.
pub fn coord(r: f64) -> BoxedStrategy<f64> {
    let k = (r * 2.0) as i32;
    prop_oneof![
        4 => -r..r,
        2 => (-k..=k).prop_map(|i| i as f64 * 0.5),
        1 => prop_oneof![4 => Just(0.0), 1 => Just(-0.0)],
    ]
    .boxed()
}
pub fn length(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    let k = (hi * 2.0) as i32;
    prop_oneof![4 => lo..hi, 2 => (1..=k).prop_map(|i| i as f64 * 0.5)].boxed()
}
pub fn angle() -> BoxedStrategy<f64> {
    prop_oneof![
        5 => -PI..PI,
        2 => (-4i32..=4).prop_map(|k| k as f64 * PI / 4.0),
        1 => ((-4i32..=4), -1e-6..1e-6f64).prop_map(|(k, e)| k as f64 * PI / 4.0 + e),
        2 => Just(0.0),
    ]
    .boxed()
}
pub fn pos(r: f64, rz: f64) -> BoxedStrategy<V3> {
    (coord(r), coord(r), coord(rz)).prop_map(|(x, y, z)| [x, y, z]).boxed()
}
pub fn size() -> BoxedStrategy<V3> {
    prop_oneof![
        3 => (length(0.1, 6.0), length(0.1, 15.0), length(0.1, 5.0)).prop_map(|(a, b, c)| [a, b, c]),
        1 => length(0.1, 5.0).prop_map(|a| [a, a, a]),
        // from tiny to implausibly large
        1 => [0.01..60.0f64, 0.01..60.0f64, 0.01..60.0f64],
    ]
    .boxed()
}
pub fn rpy_yaw() -> BoxedStrategy<V3> {
    angle().prop_map(|y| [0.0, 0.0, y]).boxed()
}
pub fn rpy_full() -> BoxedStrategy<V3> {
    prop_oneof![
        2 => angle().prop_map(|y| [0.0, 0.0, y]),
        2 => (-0.3..0.3f64, -0.3..0.3f64, angle()).prop_map(|(r, p, y)| [r, p, y]),
        3 => (angle(), angle(), angle()).prop_map(|(r, p, y)| [r, p, y]),
    ]
    .boxed()
}
pub fn conf() -> BoxedStrategy<f64> {
    prop_oneof![
        8 => 0.0..1.0f64,
        2 => Just(1.0),
        2 => Just(0.5),
        1 => Just(0.0),
        1 => (-3i32..4).prop_map(|k| 0.5 + k as f64 * 1e-10),
        1 => -20.0..120.0f64,
    ]
    .boxed()
}

pub struct ObjOpts {
    pub range: f64,
    pub tilt: bool,
    pub labels: u8,
}

pub fn obj(o: ObjOpts) -> BoxedStrategy<Obj> {
    (
        (pos(o.range, 4.0), if o.tilt { rpy_full() } else { rpy_yaw() }, any::<bool>(), size()),
        (
            conf(),
            0..o.labels,
            proptest::option::weighted(0.8, prop_oneof![4 => 0usize..6, 4 => 0usize..2000, 1 => 60_000usize..70_000, 1 => (1usize << 32)..(1 << 32) + 50]),
            proptest::option::weighted(0.8, prop_oneof![6 => 0u8..6, 1 => 6u8..9]),
            proptest::option::weighted(0.3, prop_oneof![4 => pos(20.0, 2.0), 1 => pos(200.0, 200.0)]),
            prop_oneof![3 => Just(1_600_000_000_000_000i64), 3 => 0i64..2_000_000_000_000_000, 1 => -2_000_000_000_000_000i64..0],
            prop_oneof![6 => Just(0u8), 1 => 0u8..10],
        ),
    )
        .prop_map(|((pos, rpy, neg, size), (conf, label, pts, uuid, vel, ts, frame))| Obj {
            pos,
            rpy,
            neg,
            size,
            conf,
            label,
            pts,
            uuid,
            vel,
            ts,
            frame,
        })
        .boxed()
}

/// A second object placed relative to the first: identical, nudged, shifted, rotated or independent.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Pair {
    pub a: Obj,
    pub b: Obj,
}
pub fn pair(range: f64, tilt: bool, labels: u8) -> BoxedStrategy<Pair> {
    (
        obj(ObjOpts { range, tilt, labels }),
        obj(ObjOpts { range, tilt, labels }),
        pos(3.0, 2.0),
        0u8..8,
        any::<bool>(),
    )
        .prop_map(|(a, other, d, kind, keep)| {
            let mut b = other.clone();
            match kind {
                0 => {
                    // same geometry, other attributes
                    b.pos = a.pos;
                    b.rpy = a.rpy;
                    b.size = a.size;
                    b.neg = a.neg;
                }
                1 => {
                    b.pos = refm::add(&a.pos, &d);
                    b.rpy = a.rpy;
                    b.size = a.size;
                }
                2 => {
                    b.pos = a.pos;
                    b.size = a.size;
                }
                3 => {
                    b.pos = a.pos;
                    b.rpy = a.rpy;
                }
                4 | 5 => b.pos = refm::add(&a.pos, &d),
                6 => {
                    b.pos = refm::add(&a.pos, &[d[0] * 1e-4, d[1] * 1e-4, d[2] * 1e-4]);
                    b.rpy = a.rpy;
                    b.size = a.size;
                }
                _ => {}
            }
            if keep {
                b.label = a.label;
            }
            Pair { a, b }
        })
        .boxed()
}

/// A power of ten, mostly one.
pub fn magnitude(lo: i32, hi: i32) -> BoxedStrategy<f64> {
    (lo..=hi).prop_map(|k| 10f64.powi(k)).boxed()
}
/// The same pair in another place and of another size: far away (as in a map frame), tiny or huge.
pub fn wide(p: BoxedStrategy<Pair>) -> BoxedStrategy<Pair> {
    (p, magnitude(-2, 2), prop_oneof![2 => Just(0.0), 2 => 100.0..5_000.0f64, 1 => 5_000.0..100_000.0f64], angle(), (0u8..10, 0u8..10))
        .prop_map(|(mut p, k, r, dir, frames)| {
            for (o, f) in [(&mut p.a, frames.0), (&mut p.b, frames.1)] {
                for i in 0..3 {
                    o.pos[i] *= k;
                    o.size[i] *= k;
                }
                o.pos[0] += r * dir.cos();
                o.pos[1] += r * dir.sin();
                o.frame = f;
            }
            p
        })
        .boxed()
}
