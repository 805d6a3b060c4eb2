//! Reference model of the documented geometry. Never calls cam-geom.
use crate::num::*;

/// Rigid motion p -> R p + t, with camera center c = -R^T t.
#[derive(Clone, Copy, Debug)]
pub struct Pose {
    pub r: [V3; 3],
    pub t: V3,
    pub c: V3,
}

/// Rotation matrix of a (nearly unit) quaternion w,i,j,k.
pub fn quat_rot(q: &[E; 4]) -> [V3; 3] {
    let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
    let [w, x, y, z] = [q[0] / n, q[1] / n, q[2] / n, q[3] / n];
    let two = E::x(2.0);
    let one = E::x(1.0);
    [
        [
            one - two * (y * y + z * z),
            two * (x * y - w * z),
            two * (x * z + w * y),
        ],
        [
            two * (x * y + w * z),
            one - two * (x * x + z * z),
            two * (y * z - w * x),
        ],
        [
            two * (x * z - w * y),
            two * (y * z + w * x),
            one - two * (x * x + y * y),
        ],
    ]
}
pub fn mul3(m: &[V3; 3], p: V3) -> V3 {
    [dot3(m[0], p), dot3(m[1], p), dot3(m[2], p)]
}
pub fn tr3(m: &[V3; 3]) -> [V3; 3] {
    [
        [m[0][0], m[1][0], m[2][0]],
        [m[0][1], m[1][1], m[2][1]],
        [m[0][2], m[1][2], m[2][2]],
    ]
}
pub fn matmul3(a: &[V3; 3], b: &[V3; 3]) -> [V3; 3] {
    let bt = tr3(b);
    let row = |i: usize| [dot3(a[i], bt[0]), dot3(a[i], bt[1]), dot3(a[i], bt[2])];
    [row(0), row(1), row(2)]
}
pub fn det3(m: &[V3; 3]) -> E {
    dot3(m[0], cross3(m[1], m[2]))
}

impl Pose {
    pub fn from_quat_center(q: &[E; 4], c: V3) -> Pose {
        let r = quat_rot(q);
        let t = neg3(mul3(&r, c));
        Pose { r, t, c }
    }
    /// From rotation quaternion and translation.
    pub fn from_quat_trans(q: &[E; 4], t: V3) -> Pose {
        let r = quat_rot(q);
        let c = neg3(mul3(&tr3(&r), t));
        Pose { r, t, c }
    }
    pub fn apply(&self, p: V3) -> V3 {
        add3(mul3(&self.r, p), self.t)
    }
    pub fn apply_vec(&self, p: V3) -> V3 {
        mul3(&self.r, p)
    }
    /// The inverse motion. In a chain R^T(p - t) all terms have magnitude |p| and |t|.
    pub fn inverse(&self) -> Pose {
        let rt = tr3(&self.r);
        let t = self.c;
        let k = neg3(mul3(&rt, self.t));
        let e = |i: usize| t[i].widen(k[i].e);
        Pose {
            r: rt,
            t: [e(0), e(1), e(2)],
            c: self.t,
        }
    }
    /// self after other
    pub fn compose(&self, o: &Pose) -> Pose {
        let r = matmul3(&self.r, &o.r);
        let t = self.apply(o.t);
        let c = neg3(mul3(&tr3(&r), t));
        Pose { r, t, c }
    }
}

/// fx, fy, skew, cx, cy
pub type Kp = [f64; 5];

pub fn project_persp(k: &Kp, p: V3) -> [E; 2] {
    let (fx, fy, s, cx, cy) = (E::x(k[0]), E::x(k[1]), E::x(k[2]), E::x(k[3]), E::x(k[4]));
    let u = (fx * p[0] + s * p[1] + cx * p[2]) / p[2];
    let v = (fy * p[1] + cy * p[2]) / p[2];
    [u, v]
}
/// Camera-frame direction with z = 1.
pub fn backproject_persp(k: &Kp, uv: [E; 2]) -> V3 {
    let (fx, fy, s, cx, cy) = (E::x(k[0]), E::x(k[1]), E::x(k[2]), E::x(k[3]), E::x(k[4]));
    let y = (uv[1] - cy) / fy;
    let x = (uv[0] - s * y - cx) / fx;
    [x, y, E::x(1.0)]
}
/// sx, sy, cx, cy
pub type Ko = [f64; 4];
pub fn project_ortho(k: &Ko, p: V3) -> [E; 2] {
    [
        p[0] * E::x(k[0]) + E::x(k[2]),
        p[1] * E::x(k[1]) + E::x(k[3]),
    ]
}
pub fn backproject_ortho(k: &Ko, uv: [E; 2]) -> V3 {
    [
        (uv[0] - E::x(k[2])) / E::x(k[0]),
        (uv[1] - E::x(k[3])) / E::x(k[1]),
        E::x(0.0),
    ]
}
/// K [R|t] as a 3x4 matrix.
pub fn pmat(k: &Kp, pose: &Pose) -> [[E; 4]; 3] {
    let km = [
        [E::x(k[0]), E::x(k[2]), E::x(k[3])],
        [E::x(0.0), E::x(k[1]), E::x(k[4])],
        [E::x(0.0), E::x(0.0), E::x(1.0)],
    ];
    let a = matmul3(&km, &pose.r);
    let b = mul3(&km, pose.t);
    let row = |i: usize| [a[i][0], a[i][1], a[i][2], b[i]];
    [row(0), row(1), row(2)]
}
