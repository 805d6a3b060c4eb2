//! C02: orthographic projection.
use super::c01::{pat_row, PATTERNS};
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;

struct World;
impl Body for World {
    fn run<S: Sc>(&self, x: &[&[f64]], _d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let (i, k) = ortho::<S>(x[2]);
        let p: [S; 3] = world_of(&pose, x[3]);
        let cam = Camera::new(i, e);
        t.call("Camera::world_to_pixel");
        let got = cam.world_to_pixel(&wpt(&p));
        let want = project_ortho(&k, pose.apply(ex3(&p)));
        t.state("pixel", &want);
        t.near("u", got.data[(0, 0)], want[0])?;
        t.near("v", got.data[(0, 1)], want[1])?;
        // moving along the viewing direction leaves the pixel where it is
        let fwd = mul3(&tr3(&pose.r), v3(&[0.0, 0.0, 1.0]));
        for s in [-100.0, -1.0, 0.25, 1000.0] {
            let q: [S; 3] = std::array::from_fn(|j| S::f(p[j].g() + s * fwd[j].f()));
            t.call("Camera::world_to_pixel");
            let g2 = cam.world_to_pixel(&wpt(&q));
            // the moved point itself is rounded
            let slack = unit() * (len3(&ex3(&q)) + s.abs()) * 4.0;
            let w = project_ortho(&k, widen3(pose.apply(ex3(&p)), slack));
            let w = [w[0].widen(want[0].e), w[1].widen(want[1].e)];
            let own = project_ortho(&k, pose.apply(ex3(&q)));
            t.near("u after moving along the viewing direction", g2.data[(0, 0)], w[0].widen(own[0].e))?;
            t.near("v after moving along the viewing direction", g2.data[(0, 1)], w[1].widen(own[1].e))?;
        }
        Ok(())
    }
}
struct CamFrame;
impl Body for CamFrame {
    fn run<S: Sc>(&self, x: &[&[f64]], _d: &[usize], t: &mut Trace) -> Res {
        let (i, k) = ortho::<S>(x[0]);
        let p: [S; 3] = arr3(x[1]);
        t.call("camera_to_pixel");
        let got = i.camera_to_pixel(&cpt(&p));
        let want = project_ortho(&k, ex3(&p));
        t.state("pixel", &want);
        t.near("u", got.data[(0, 0)], want[0])?;
        t.near("v", got.data[(0, 1)], want[1])
    }
}
struct Batch(Vec<usize>);
impl Body for Batch {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let (i, k) = ortho::<S>(x[2]);
        let n = self.0[d[0]];
        let cam = Camera::new(i.clone(), e);
        let rows: Vec<[S; 3]> = (0..n).map(|j| world_of(&pose, &pat_row(d[1], j))).collect();
        t.call("Camera::world_to_pixel(N)");
        let got = cam.world_to_pixel(&Points::<WorldFrame, _, _, _>::new(dyn3(&rows)));
        t.call("camera_to_pixel(N)");
        let gotc = i.camera_to_pixel(&Points::<CameraFrame, _, _, _>::new(dyn3(&rows)));
        t.yes(got.data.nrows() == n && gotc.data.nrows() == n, || format!("{} rows for {n} points", got.data.nrows()))?;
        for j in 0..n {
            let want = project_ortho(&k, pose.apply(ex3(&rows[j])));
            t.near("u", got.data[(j, 0)], want[0]).map_err(|f| suffix(f, &format!("row {j} of {n}")))?;
            t.near("v", got.data[(j, 1)], want[1]).map_err(|f| suffix(f, &format!("row {j} of {n}")))?;
            let want = project_ortho(&k, ex3(&rows[j]));
            t.near("u(cam)", gotc.data[(j, 0)], want[0]).map_err(|f| suffix(f, &format!("row {j} of {n}")))?;
            t.near("v(cam)", gotc.data[(j, 1)], want[1]).map_err(|f| suffix(f, &format!("row {j} of {n}")))?;
        }
        t.state_u("batch", &[n as u64, d[1] as u64]);
        Ok(())
    }
}
pub fn plan(thorough: bool) -> Plan {
    let xs: &[f64] = if thorough {
        &[0.0, 1.0, -1.0, 0.5, -2.0, 7.0, 1e-3, -40.0, 1e3, 1e-6, 1e5]
    } else {
        &[0.0, 1.0, -1.0, 0.5, -2.0, 1e-3, 300.0]
    };
    let zs: &[f64] = &[0.0, 1.0, -1.0, 0.5, 3.0, -3.0, 1e-3, -1e-2, 1e3, -1e3, 1e-6, 1e6];
    let mut pts = campts();
    pts.push(vec![0.0, 0.0, 0.0]);
    pts.push(vec![2.0, -1.0, 0.0]);
    Plan {
        sections: vec![
            Section::new("world-to-pixel", World)
                .group("rotation wijk", if thorough { rots_all() } else { rots_mid() })
                .group("center", if thorough { centers() } else { centers_few() })
                .group("sx sy cx cy", kortho())
                .group("camera-frame point", pts),
            Section::new("camera-to-pixel", CamFrame)
                .group("sx sy cx cy", kortho())
                .group("camera-frame point", product(&[xs, xs, zs])),
            Section::new("batches", Batch(sizes(if thorough { 70000 } else { 4100 })))
                .group("rotation wijk", rots_few()[4..6].to_vec())
                .group("center", centers_few()[2..3].to_vec())
                .group("sx sy cx cy", vec![kortho()[2].clone(), kortho()[5].clone()])
                .disc("number of points", sizes(if thorough { 70000 } else { 4100 }).len())
                .disc("row pattern", PATTERNS)
                .no_closure(),
        ],
        rule: "a case is non-trivial if the reference pixel (to 53 bits) differs from all pixels seen before",
        assumptions: vec![],
    }
}
