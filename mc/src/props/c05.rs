//! C05: pose constructors and accessors, along every word of rebuild routes.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;
use nalgebra::{Isometry3, Matrix3, Rotation3, Translation3, UnitQuaternion, Vector3};

/// Quaternion of a (nearly) rotation matrix.
fn qfrom<S: Sc>(m: &Rotation3<S>) -> UnitQuaternion<S> {
    UnitQuaternion::new_normalize(UnitQuaternion::from_rotation_matrix(m).into_inner())
}


/// A pose known up to `ang` (orientation) and `cen` (position).
#[derive(Clone, Copy)]
pub struct Known {
    pub pose: Pose,
    pub ang: f64,
    pub cen: f64,
}
impl Known {
    pub fn new(pose: Pose) -> Known {
        Known { pose, ang: 0.0, cen: 0.0 }
    }
    fn r(&self, i: usize, j: usize) -> E {
        self.pose.r[i][j].widen(self.ang)
    }
    fn t(&self, i: usize) -> E {
        let lc = len3(&self.pose.c);
        self.pose.t[i].widen(self.ang * lc + self.cen + 4.0 * unit() * lc)
    }
}
/// Every accessor of the pose against the model.
pub fn check_pose<S: Sc>(e: &ExtrinsicParameters<S>, k: &Known, t: &mut Trace) -> Res {
    let lc = len3(&k.pose.c);
    t.calls("matrix/rotation/translation/camcenter/pose/forward/up/right", 8);
    let m = e.matrix();
    let rot = e.rotation();
    let tr = e.translation();
    let iso = e.pose();
    let rq = iso.rotation.to_rotation_matrix();
    for i in 0..3 {
        for j in 0..3 {
            t.near("matrix()", m[(i, j)], k.r(i, j))?;
            t.near("rotation()", rot[(i, j)], k.r(i, j))?;
            t.near("pose().rotation", rq[(i, j)], k.r(i, j))?;
        }
        t.near("matrix() last column", m[(i, 3)], k.t(i))?;
        t.near("translation()", tr[i], k.t(i))?;
        t.near("pose().translation", iso.translation.vector[i], k.t(i))?;
        t.near("camcenter()", e.camcenter()[i], k.pose.c[i].widen(k.cen))?;
    }
    // forward/up/right: world directions of +Z, -Y, +X. They are differences of world points,
    // hence the |c| term.
    let w = k.ang + 16.0 * unit() * (1.0 + lc);
    let (f, u, r) = (e.forward(), e.up(), e.right());
    for j in 0..3 {
        t.near("forward()", f[j], k.r(2, j).widen(w))?;
        t.near("up()", u[j], (-k.r(1, j)).widen(w))?;
        t.near("right()", r[j], k.r(0, j).widen(w))?;
    }
    for (n, v) in [("forward()", &f), ("up()", &u), ("right()", &r)] {
        let l = norm3(ex3(&vec3(v)));
        t.near_f(n, l.f(), E::x(1.0).widen(8.0 * unit()))?;
    }
    Ok(())
}
pub const ROUTES: usize = 7;
pub fn rebuild<S: Sc>(e: &ExtrinsicParameters<S>, route: usize, k: &mut Known, t: &mut Trace) -> ExtrinsicParameters<S> {
    let lc = len3(&k.pose.c);
    k.ang += 16.0 * unit();
    match route {
        0 => {
            t.call("from_pose(pose())");
            k.cen += k.ang * lc + 16.0 * unit() * lc;
            ExtrinsicParameters::from_pose(e.pose())
        }
        1 => {
            t.call("from_rotation_and_camcenter(rotation(), camcenter())");
            let q = qfrom(e.rotation());
            k.ang += 64.0 * unit();
            ExtrinsicParameters::from_rotation_and_camcenter(q, *e.camcenter())
        }
        2 => {
            t.call("from_rotation_and_camcenter(pose().rotation, camcenter())");
            ExtrinsicParameters::from_rotation_and_camcenter(e.pose().rotation, *e.camcenter())
        }
        3 => {
            t.call("from_pose(matrix())");
            let m = e.matrix();
            let q = qfrom(&Rotation3::from_matrix_unchecked(m.fixed_view::<3, 3>(0, 0).into_owned()));
            k.ang += 64.0 * unit();
            k.cen += k.ang * lc + 16.0 * unit() * lc;
            ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::new(m[(0, 3)], m[(1, 3)], m[(2, 3)]), q))
        }
        4 => {
            t.call("from_pose(rotation(), translation())");
            let q = qfrom(e.rotation());
            let tr = e.translation();
            k.ang += 64.0 * unit();
            k.cen += k.ang * lc + 16.0 * unit() * lc;
            ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::new(tr[0], tr[1], tr[2]), q))
        }
        5 => {
            t.call("from_view(camcenter(), camcenter()+forward(), up())");
            let c = e.camcenter().coords;
            // a viewing distance of the order of the position keeps the sum well conditioned
            let d = S::f((1.0 + lc).log2().round().exp2());
            let l: Vector3<S> = c + e.forward().into_inner() * d;
            k.ang += 256.0 * unit() + 32.0 * unit() * (1.0 + lc);
            ExtrinsicParameters::from_view(&c, &l, &e.up())
        }
        _ => {
            t.call("from rows right, -up, forward and camcenter()");
            let (f, u, r) = (e.forward(), e.up(), e.right());
            let m = Matrix3::new(r[0], r[1], r[2], -u[0], -u[1], -u[2], f[0], f[1], f[2]);
            let q = qfrom(&Rotation3::from_matrix_unchecked(m));
            k.ang += 64.0 * unit() + 32.0 * unit() * (1.0 + lc);
            ExtrinsicParameters::from_rotation_and_camcenter(q, *e.camcenter())
        }
    }
}
struct Words(Vec<Vec<usize>>);
impl Body for Words {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e0, mut k) = if d[1] == 0 {
            let (e, p) = ext::<S>(x[0], x[1]);
            t.call("from_rotation_and_camcenter");
            (e, Known::new(p))
        } else {
            let (i, p) = iso::<S>(x[0], x[1]);
            t.call("from_pose");
            let inv = p.inverse();
            let w = inv.t[0].e.max(inv.t[1].e).max(inv.t[2].e) + 16.0 * unit() * len3(&p.c);
            (ExtrinsicParameters::from_pose(&i), Known { pose: p, ang: 0.0, cen: w })
        };
        t.state("pose", &[k.pose.r[0][0], k.pose.r[0][1], k.pose.r[1][2], k.pose.r[2][2], k.pose.c[0], k.pose.c[1], k.pose.c[2]]);
        check_pose(&e0, &k, t)?;
        let mut e = e0.clone();
        for (n, r) in self.0[d[0]].iter().enumerate() {
            e = rebuild(&e, *r, &mut k, t);
            t.state_u("word", &[d[0] as u64, n as u64]);
            check_pose(&e, &k, t).map_err(|f| suffix(f, &format!("after routes {:?}", &self.0[d[0]][..=n])))?;
        }
        Ok(())
    }
}
pub fn plan(thorough: bool) -> Plan {
    let w = words(ROUTES, 0, if thorough { 4 } else { 2 });
    let one = words(ROUTES, 0, 1);
    Plan {
        sections: vec![
            Section::new("rebuild-once", Words(one.clone()))
                .group("rotation wijk", rots_all())
                .group("center or translation", centers())
                .disc("word", one.len())
                .disc("first constructor", 2),
            Section::new("rebuild-words", Words(w.clone()))
                .group("rotation wijk", rots_all())
                .group("center or translation", if thorough { centers() } else { centers_few() })
                .disc("word", w.len())
                .disc("first constructor", 2)
                .no_closure(),
        ],
        rule: "a case is non-trivial if its pose (rotation and center) or its word of rebuild routes differs from all seen before",
        assumptions: vec!["Rotation matrices are turned into quaternions by nalgebra in the rebuild routes."],
    }
}
