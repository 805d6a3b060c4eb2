//! C01: perspective projection.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;

/// pose x intrinsics x camera-frame point: world point -> pixel
struct World;
impl Body for World {
    fn run<S: Sc>(&self, x: &[&[f64]], _d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let (i, k) = persp::<S>(x[2]);
        let p: [S; 3] = world_of(&pose, x[3]);
        let cam = Camera::new(i, e);
        t.call("Camera::world_to_pixel");
        let got = cam.world_to_pixel(&wpt(&p));
        let pc = pose.apply(ex3(&p));
        let want = project_persp(&k, pc);
        t.state("pixel", &want);
        t.near("u", got.data[(0, 0)], want[0])?;
        t.near("v", got.data[(0, 1)], want[1])
    }
}
/// intrinsics x camera-frame point
struct CamFrame;
impl Body for CamFrame {
    fn run<S: Sc>(&self, x: &[&[f64]], _d: &[usize], t: &mut Trace) -> Res {
        let (i, k) = persp::<S>(x[0]);
        let p: [S; 3] = arr3(x[1]);
        if p[2].g() == 0.0 {
            return skip();
        }
        t.call("camera_to_pixel");
        let got = i.camera_to_pixel(&cpt(&p));
        let want = project_persp(&k, ex3(&p));
        t.state("pixel", &want);
        t.near("u", got.data[(0, 0)], want[0])?;
        t.near("v", got.data[(0, 1)], want[1])?;
        t.yes(i.fx().g() == k[0] && i.fy().g() == k[1] && i.skew().g() == k[2] && i.cx().g() == k[3] && i.cy().g() == k[4]
            && i.params().fx.g() == k[0] && i.params().fy.g() == k[1] && i.params().skew.g() == k[2] && i.params().cx.g() == k[3] && i.params().cy.g() == k[4],
            || "getters differ from the parameters the model was built from".into())
    }
}
/// every batch size, rows following a pattern
struct Batch(Vec<usize>);
pub const PATTERNS: usize = 4;
/// Row i of a patterned batch of camera-frame points (depth of both signs, never 0).
pub fn pat_row(pat: usize, i: usize) -> [f64; 3] {
    let g = |i: usize| {
        let z = lcg(i, 2);
        let z = if z < 0.0 { z * 7.5 - 0.5 } else { z * 7.5 + 0.5 };
        [lcg(i, 0) * 3.0, lcg(i, 1) * 2.0, z]
    };
    match pat {
        0 => g(i),
        1 => g(i / 2),                                  // equal neighbours
        2 => g(i % 3),                                  // periodic
        _ => {
            // same pixel ray, different depth; and equal coordinates
            let r = g(i / 4);
            let m = [1.0, -2.0, 0.5, 4.0][i % 4];
            [r[0] * m, r[1] * m, r[2] * m]
        }
    }
}
impl Body for Batch {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let (i, k) = persp::<S>(x[2]);
        let n = self.0[d[0]];
        let cam = Camera::new(i.clone(), e);
        let rows: Vec<[S; 3]> = (0..n).map(|j| world_of(&pose, &pat_row(d[1], j))).collect();
        t.call("Camera::world_to_pixel(N)");
        let got = cam.world_to_pixel(&Points::<WorldFrame, _, _, _>::new(dyn3(&rows)));
        t.yes(got.data.nrows() == n, || format!("{} rows for {n} points", got.data.nrows()))?;
        let crows: Vec<[S; 3]> = (0..n).map(|j| arr3(&pat_row(d[1], j))).collect();
        t.call("camera_to_pixel(N)");
        let gotc = i.camera_to_pixel(&Points::<CameraFrame, _, _, _>::new(dyn3(&crows)));
        t.yes(gotc.data.nrows() == n, || format!("{} rows for {n} points", gotc.data.nrows()))?;
        for j in 0..n {
            let want = project_persp(&k, pose.apply(ex3(&rows[j])));
            t.near("u", got.data[(j, 0)], want[0]).map_err(|f| suffix(f, &format!("row {j} of {n}")))?;
            t.near("v", got.data[(j, 1)], want[1]).map_err(|f| suffix(f, &format!("row {j} of {n}")))?;
            let want = project_persp(&k, ex3(&crows[j]));
            t.near("u(cam)", gotc.data[(j, 0)], want[0]).map_err(|f| suffix(f, &format!("row {j} of {n}")))?;
            t.near("v(cam)", gotc.data[(j, 1)], want[1]).map_err(|f| suffix(f, &format!("row {j} of {n}")))?;
        }
        t.state_u("batch", &[n as u64, d[1] as u64]);
        Ok(())
    }
}
pub fn cam_grid(thorough: bool) -> Vec<Vec<f64>> {
    let xs: &[f64] = if thorough {
        &[0.0, 1.0, -1.0, 0.5, -2.0, 7.0, 1e-3, -40.0, 1e3, 1e-6, 1e5]
    } else {
        &[0.0, 1.0, -1.0, 0.5, -2.0, 1e-3, 300.0]
    };
    let zs: &[f64] = if thorough {
        &[1.0, -1.0, 0.5, 2.0, -3.0, 1e-3, -1e-3, 1e3, -1e3, 1e-6, -1e-6, 1e6, 7.0, -0.1]
    } else {
        &[1.0, -1.0, 0.5, 3.0, -3.0, 1e-3, -1e-2, 1e3, 1e-6, 1e6]
    };
    product(&[xs, xs, zs])
}
pub fn plan(thorough: bool) -> Plan {
    let rots = if thorough { rots_all() } else { rots_mid() };
    let cs = if thorough { centers() } else { centers_few() };
    Plan {
        sections: vec![
            Section::new("world-to-pixel", World)
                .group("rotation wijk", rots)
                .group("center", cs)
                .group("fx fy skew cx cy", kpersp())
                .group("camera-frame point", campts()),
            Section::new("camera-to-pixel", CamFrame)
                .group("fx fy skew cx cy", kpersp())
                .group("camera-frame point", cam_grid(thorough)),
            Section::new("batches", Batch(sizes(if thorough { 70000 } else { 4100 })))
                .group("rotation wijk", rots_few()[4..6].to_vec())
                .group("center", centers_few()[2..3].to_vec())
                .group("fx fy skew cx cy", vec![kpersp()[2].clone(), kpersp()[5].clone()])
                .disc("number of points", sizes(if thorough { 70000 } else { 4100 }).len())
                .disc("row pattern", PATTERNS)
                .no_closure(),
        ],
        rule: "a case is non-trivial if the reference pixel (to 53 bits) differs from all pixels seen before; cases whose point lies within rounding of the principal plane are outside the domain",
        assumptions: vec![],
    }
}
