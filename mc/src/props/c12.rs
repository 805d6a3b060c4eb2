//! C12: the 3x4 camera matrix.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;

/// Image of a homogeneous point under the given 3x4 matrix.
pub fn image(m: &[[E; 4]; 3], h: &[E; 4]) -> ([E; 2], E) {
    let r: [E; 3] = std::array::from_fn(|i| m[i][0] * h[0] + m[i][1] * h[1] + m[i][2] * h[2] + m[i][3] * h[3]);
    ([r[0] / r[2], r[1] / r[2]], r[2])
}
/// Matrix entries as computed by the library, exact.
pub fn exact_mat<S: Sc>(m: &nalgebra::SMatrix<S, 3, 4>) -> [[E; 4]; 3] {
    std::array::from_fn(|i| std::array::from_fn(|j| E::x(m[(i, j)].g())))
}
struct Matrix;
const W: [f64; 4] = [1.0, 0.0, -2.0, 0.25];
impl Body for Matrix {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let (i, k) = persp::<S>(x[2]);
        let w = S::f(W[d[0]]).g();
        let p: [S; 3] = if w == 0.0 {
            // a direction
            let dd = mul3(&tr3(&pose.r), v3(x[3]));
            std::array::from_fn(|j| S::f(dd[j].f()))
        } else {
            world_of(&pose, x[3])
        };
        let cam = Camera::new(i, e);
        t.call("Camera::as_camera_matrix");
        let m = cam.as_camera_matrix();
        t.yes(m.iter().all(|v| v.g().is_finite()), || format!("matrix {m:?}"))?;
        let pm = pmat(&k, &pose);
        // one more rounding for the normalisation
        let pmr: [[E; 4]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| pm[i][j] / E::x(1.0)));
        let h: [E; 4] = if w == 0.0 {
            let q = ex3(&p);
            [q[0], q[1], q[2], E::x(0.0)]
        } else {
            let q = ex3(&p);
            let s = E::x(w);
            // the library never sees h: its products are exact here
            [q[0] * s, q[1] * s, q[2] * s, s]
        };
        let (want, dz) = image(&pmr, &h);
        if !(dz.mag() > 4.0 * dz.e) {
            return skip();
        }
        let (got, _) = image(&exact_mat(&m), &h);
        t.state("pixel", &want);
        for j in 0..2 {
            t.near_f(["u", "v"][j], got[j].f(), want[j])?;
        }
        if w != 0.0 {
            t.call("Camera::world_to_pixel");
            let px = cam.world_to_pixel(&wpt(&p));
            for j in 0..2 {
                t.near(["u of the camera", "v of the camera"][j], px.data[(0, j)], E { v: got[j].v, e: want[j].e * 2.0 })?;
            }
        }
        let tz = pm[2][3];
        if tz.mag() > 4.0 * tz.e {
            t.near("last entry", m[(2, 3)], E::x(1.0).widen(4.0 * unit()))?;
        }
        Ok(())
    }
}
/// Camera centers that put the world origin in, near, in front of and behind the principal plane.
struct Plane;
impl Body for Plane {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        // center given in camera axes
        let (_, p0) = ext::<S>(x[0], &[0.0, 0.0, 0.0]);
        let c = mul3(&tr3(&p0.r), v3(x[1]));
        let c: Vec<f64> = c.iter().map(|v| S::f(v.f()).g()).collect();
        Matrix.run::<S>(&[x[0], &c, x[2], x[3]], d, t)
    }
}
pub fn plan(thorough: bool) -> Plan {
    let rots = if thorough { rots_all() } else { rots_mid() };
    let cs = if thorough { centers() } else { centers_few() };
    let cz: &[f64] = &[0.0, 1e-3, -1e-3, 1.0, -5.0, 1e-8, -1e-12, 1e-15, 700.0];
    let cx: &[f64] = &[0.0, 1.0, -30.0];
    let pts = if thorough { campts() } else { campts_few() };
    Plan {
        sections: vec![
            Section::new("camera-matrix", Matrix)
                .group("rotation wijk", rots.clone())
                .group("center", cs)
                .group("fx fy skew cx cy", kpersp())
                .group("camera-frame point", campts())
                .disc("homogeneous scale", W.len()),
            Section::new("origin-in-principal-plane", Plane)
                .group("rotation wijk", rots)
                .group("center in camera axes", product(&[cx, cx, cz]))
                .group("fx fy skew cx cy", if thorough { kpersp() } else { kpersp_few() })
                .group("camera-frame point", pts)
                .disc("homogeneous scale", W.len()),
        ],
        rule: "a case is non-trivial if the reference pixel (to 53 bits) differs from all pixels seen before",
        assumptions: vec![],
    }
}
