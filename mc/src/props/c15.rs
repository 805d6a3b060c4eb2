//! C15: the linearised camera.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;

/// Partial derivatives of the pixel with respect to the world point.
fn jac(pm: &[[E; 4]; 3], p: V3) -> ([V3; 2], E) {
    let row = |i: usize| pm[i][0] * p[0] + pm[i][1] * p[1] + pm[i][2] * p[2] + pm[i][3];
    let d = row(2);
    let out = std::array::from_fn(|i| {
        let f = row(i);
        std::array::from_fn(|j| pm[i][j] / d - pm[2][j] * f / (d * d))
    });
    (out, d)
}
fn check<S: Sc>(c: &JacobianPerspectiveCache<S>, pm: &[[E; 4]; 3], p: [S; 3], t: &mut Trace) -> Res {
    let (want, d) = jac(pm, ex3(&p));
    if !(d.mag() > 8.0 * d.e) {
        return skip();
    }
    t.call("linearize_at");
    let got = c.linearize_at(&wpt(&p));
    t.state("jacobian", &[want[0][0], want[0][1], want[0][2], want[1][0], want[1][1], want[1][2]]);
    for i in 0..2 {
        for j in 0..3 {
            let w = want[i][j];
            let a = &format!("d{}/d{}", ["u", "v"][i], ["x", "y", "z"][j]);
            t.near(a, got[(i, j)], w.widen(w.e))?;
        }
    }
    Ok(())
}
struct One;
impl Body for One {
    fn run<S: Sc>(&self, x: &[&[f64]], _d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let (i, k) = persp::<S>(x[2]);
        let p: [S; 3] = world_of(&pose, x[3]);
        let cam = Camera::new(i, e);
        t.call("JacobianPerspectiveCache::new");
        check(&JacobianPerspectiveCache::new(&cam), &pmat(&k, &pose), p, t)
    }
}
/// Center given in camera axes, so that the world origin lies on or near the principal plane.
struct Plane;
impl Body for Plane {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (_, p0) = ext::<S>(x[0], &[0.0, 0.0, 0.0]);
        let c = mul3(&tr3(&p0.r), v3(x[1]));
        let c: Vec<f64> = c.iter().map(|v| S::f(v.f()).g()).collect();
        One.run::<S>(&[x[0], &c, x[2], x[3]], d, t)
    }
}
/// One cache, a word of points.
struct Seq(Vec<Vec<usize>>);
impl Body for Seq {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let (i, k) = persp::<S>(x[2]);
        let cam = Camera::new(i, e);
        t.call("JacobianPerspectiveCache::new");
        let c = JacobianPerspectiveCache::new(&cam);
        let pm = pmat(&k, &pose);
        let pts = campts();
        for a in &self.0[d[0]] {
            check(&c, &pm, world_of(&pose, &pts[*a]), t)?;
        }
        Ok(())
    }
}
pub fn plan(thorough: bool) -> Plan {
    let rots = if thorough { rots_all() } else { rots_mid() };
    let cs = if thorough { centers() } else { centers_few() };
    let cz: &[f64] = &[0.0, 1e-3, -1e-3, 1.0, -5.0, 1e-8, -1e-12, 700.0];
    let cx: &[f64] = &[0.0, 1.0, -30.0];
    let wd = words(if thorough { 18 } else { 8 }, 2, 3);
    Plan {
        sections: vec![
            Section::new("jacobian", One)
                .group("rotation wijk", rots.clone())
                .group("center", cs)
                .group("fx fy skew cx cy", kpersp())
                .group("camera-frame point", campts()),
            Section::new("origin-in-principal-plane", Plane)
                .group("rotation wijk", rots)
                .group("center in camera axes", product(&[cx, cx, cz]))
                .group("fx fy skew cx cy", kpersp_few())
                .group("camera-frame point", if thorough { campts() } else { campts_few() }),
            Section::new("many-points-per-cache", Seq(wd.clone()))
                .group("rotation wijk", rots_few()[4..7].to_vec())
                .group("center", centers_few())
                .group("fx fy skew cx cy", kpersp_few())
                .disc("sequence of points", wd.len())
                .no_closure(),
        ],
        rule: "a case is non-trivial if the reference Jacobian (to 53 bits) differs from all seen before",
        assumptions: vec![],
    }
}
