//! Reference geometry, written independently of the code under test.
pub type V3 = [f64; 3];
pub type Q = [f64; 4];

pub fn qmul(a: &Q, b: &Q) -> Q {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
pub fn conj(q: &Q) -> Q {
    [q[0], -q[1], -q[2], -q[3]]
}
/// v rotated by the unit quaternion q, as q v q*.
pub fn qrot(v: &V3, q: &Q) -> V3 {
    let r = qmul(&qmul(q, &[0.0, v[0], v[1], v[2]]), &conj(q));
    [r[1], r[2], r[3]]
}
pub fn from_rpy(rpy: &V3) -> Q {
    let qx = [(rpy[0] / 2.0).cos(), (rpy[0] / 2.0).sin(), 0.0, 0.0];
    let qy = [(rpy[1] / 2.0).cos(), 0.0, (rpy[1] / 2.0).sin(), 0.0];
    let qz = [(rpy[2] / 2.0).cos(), 0.0, 0.0, (rpy[2] / 2.0).sin()];
    qmul(&qz, &qmul(&qy, &qx))
}
pub fn add(a: &V3, b: &V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn minus(a: &V3, b: &V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn norm(a: &V3) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
pub fn close3(a: &V3, b: &V3, tol: f64) -> bool {
    (0..3).all(|i| close(a[i], b[i], tol))
}
/// Same orientation: equal up to sign.
pub fn same_q(a: &Q, b: &Q, tol: f64) -> bool {
    (0..4).all(|i| close(a[i], b[i], tol)) || (0..4).all(|i| close(a[i], -b[i], tol))
}
pub fn dist3(a: &V3, b: &V3) -> f64 {
    norm(&minus(a, b))
}
pub fn dist2(a: &V3, b: &V3) -> f64 {
    (a[0] - b[0]).hypot(a[1] - b[1])
}
/// Corners around the box: size is [width, length, height]; the length lies along the box's x axis.
pub fn corners(pos: &V3, q: &Q, size: &V3) -> [V3; 4] {
    let (l, w) = (size[1] / 2.0, size[0] / 2.0);
    let c = |x: f64, y: f64| add(pos, &qrot(&[x, y, 0.0], q));
    [c(l, w), c(-l, w), c(-l, -w), c(l, -w)]
}
pub fn shoelace(p: &[[f64; 2]]) -> f64 {
    let n = p.len();
    let mut s = 0.0;
    for i in 0..n {
        let j = (i + 1) % n;
        s += p[i][0] * p[j][1] - p[j][0] * p[i][1];
    }
    s / 2.0
}
/// Area of the intersection of two convex polygons (Sutherland-Hodgman), computed around a local origin.
pub fn clip_area(a: &[V3; 4], b: &[V3; 4]) -> f64 {
    let o = a[0];
    let loc = |p: &V3| [p[0] - o[0], p[1] - o[1]];
    let mut subj: Vec<[f64; 2]> = a.iter().map(loc).collect();
    let mut clip: Vec<[f64; 2]> = b.iter().map(loc).collect();
    if shoelace(&subj) < 0.0 {
        subj.reverse();
    }
    if shoelace(&clip) < 0.0 {
        clip.reverse();
    }
    for i in 0..clip.len() {
        let p = clip[i];
        let q = clip[(i + 1) % clip.len()];
        let side = |x: &[f64; 2]| (q[0] - p[0]) * (x[1] - p[1]) - (q[1] - p[1]) * (x[0] - p[0]);
        let mut out = Vec::new();
        for k in 0..subj.len() {
            let c = subj[k];
            let d = subj[(k + 1) % subj.len()];
            let (sc, sd) = (side(&c), side(&d));
            if sc >= 0.0 {
                out.push(c);
            }
            if (sc > 0.0 && sd < 0.0) || (sc < 0.0 && sd > 0.0) {
                let t = sc / (sc - sd);
                out.push([c[0] + t * (d[0] - c[0]), c[1] + t * (d[1] - c[1])]);
            }
        }
        subj = out;
        if subj.len() < 3 {
            return 0.0;
        }
    }
    shoelace(&subj).max(0.0)
}

pub struct BoxRef {
    pub pos: V3,
    pub q: Q,
    pub size: V3,
}
impl BoxRef {
    pub fn corners(&self) -> [V3; 4] {
        corners(&self.pos, &self.q, &self.size)
    }
}
pub fn iou2d(a: &BoxRef, b: &BoxRef) -> f64 {
    let i = clip_area(&a.corners(), &b.corners());
    let u = a.size[0] * a.size[1] + b.size[0] * b.size[1] - i;
    if u <= 0.0 {
        0.0
    } else {
        i / u
    }
}
pub fn iou3d(a: &BoxRef, b: &BoxRef) -> f64 {
    let lo = (a.pos[2] - a.size[2] / 2.0).max(b.pos[2] - b.size[2] / 2.0);
    let hi = (a.pos[2] + a.size[2] / 2.0).min(b.pos[2] + b.size[2] / 2.0);
    let i = clip_area(&a.corners(), &b.corners()) * (hi - lo).max(0.0);
    let v = |x: &BoxRef| x.size[0] * x.size[1] * x.size[2];
    let u = v(a) + v(b) - i;
    if u <= 0.0 {
        0.0
    } else {
        i / u
    }
}

/// All left/right corner pairs that may be called the nearest side, with distance ties resolved either way.
pub fn nearest_sides(b: &BoxRef) -> Vec<(V3, V3)> {
    let cs = b.corners();
    let d: Vec<f64> = cs.iter().map(|c| c[0].hypot(c[1])).collect();
    let scale = 1.0 + d.iter().cloned().fold(0.0, f64::max);
    let eps = 1e-9 * scale;
    let mut out = Vec::new();
    for i in 0..4 {
        for j in (i + 1)..4 {
            let rest = (0..4).filter(|k| *k != i && *k != j).map(|k| d[k]).fold(f64::MAX, f64::min);
            if d[i].max(d[j]) <= rest + eps {
                let (p, q) = (cs[i], cs[j]);
                // left = counter-clockwise one as seen from the origin
                let cross = p[0] * q[1] - p[1] * q[0];
                if cross.abs() <= 1e-9 * scale * scale {
                    out.push((p, q));
                    out.push((q, p));
                } else if cross < 0.0 {
                    out.push((p, q));
                } else {
                    out.push((q, p));
                }
            }
        }
    }
    out
}
/// All values the plane distance may take (one unless there are ties).
pub fn plane_distances(a: &BoxRef, b: &BoxRef) -> Vec<f64> {
    let mut out: Vec<f64> = Vec::new();
    for (la, ra) in nearest_sides(a) {
        for (lb, rb) in nearest_sides(b) {
            let (l, r) = (dist2(&la, &lb), dist2(&ra, &rb));
            out.push(((l * l + r * r) / 2.0).sqrt());
        }
    }
    out.sort_by(f64::total_cmp);
    out.dedup_by(|x, y| (*x - *y).abs() < 1e-9);
    out
}
pub fn wrap(a: f64) -> f64 {
    a.sin().atan2(a.cos())
}
