//! C04: world <-> camera frame change.
use super::c01::{pat_row, PATTERNS};
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;

struct One;
impl Body for One {
    fn run<S: Sc>(&self, x: &[&[f64]], _d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let p: [S; 3] = arr3(x[2]);
        let pm = ex3(&p);
        let inv = pose.inverse();
        t.call("world_to_camera");
        let c = get3(&e.world_to_camera(&wpt(&p)).data, 0);
        let want = pose.apply(pm);
        t.state("camera", &want);
        t.near3("camera coordinates", c, want)?;
        t.call("camera_to_world");
        let w = get3(&e.camera_to_world(&cpt(&p)).data, 0);
        let want_w = inv.apply(pm);
        t.state("world", &want_w);
        t.near3("world coordinates", w, want_w)?;
        // mutual inverses
        t.call("camera_to_world");
        let back = get3(&e.camera_to_world(&cpt(&c)).data, 0);
        let slack = |a: &V3, b: &V3| a[0].e.max(a[1].e).max(a[2].e) + b[0].e.max(b[1].e).max(b[2].e);
        let sl = 4.0 * slack(&want, &inv.apply(want));
        t.near3("world -> camera -> world", back, widen3(pm, sl))?;
        t.call("world_to_camera");
        let back = get3(&e.world_to_camera(&wpt(&w)).data, 0);
        let sl = 4.0 * slack(&want_w, &pose.apply(want_w));
        t.near3("camera -> world -> camera", back, widen3(pm, sl))?;
        // center <-> origin
        let cc = e.camcenter();
        let cc = [cc[0], cc[1], cc[2]];
        t.calls("world_to_camera/camera_to_world", 2);
        let o = get3(&e.world_to_camera(&wpt(&cc)).data, 0);
        let z = [E::x(0.0); 3];
        let sl = slack(&pose.apply(pose.c), &pose.t);
        t.near3("camera center in the camera frame", o, widen3(z, 2.0 * sl))?;
        let o = get3(&e.camera_to_world(&cpt(&[S::zero(); 3])).data, 0);
        t.near3("camera-frame origin in the world", o, widen3(pose.c, 2.0 * inv.t[0].e.max(inv.t[1].e).max(inv.t[2].e)))
    }
}
/// Distances and handedness over tuples of points: three points and a base point.
struct Rigid;
impl Body for Rigid {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let base: [S; 3] = arr3(x[2]);
        let rows: Vec<[S; 3]> = (0..4)
            .map(|i| {
                let mut r = base;
                if i > 0 {
                    r[i - 1] = r[i - 1] + S::f(x[3][i - 1]);
                }
                r
            })
            .collect();
        t.call("frame change of 4 points");
        let out: Vec<[S; 3]> = if d[0] == 0 {
            let o = e.world_to_camera(&Points::<WorldFrame, _, _, _>::new(dyn3(&rows)));
            (0..4).map(|i| get3(&o.data, i)).collect()
        } else {
            let o = e.camera_to_world(&Points::<CameraFrame, _, _, _>::new(dyn3(&rows)));
            (0..4).map(|i| get3(&o.data, i)).collect()
        };
        let bound = {
            let p = if d[0] == 0 { pose } else { pose.inverse() };
            rows.iter().map(|r| p.apply(ex3(r)).iter().map(|v| v.e).fold(0.0, f64::max)).fold(0.0, f64::max)
        };
        let m: Vec<V3> = rows.iter().map(ex3).collect();
        let o: Vec<V3> = out.iter().map(|r| widen3(ex3(r), bound)).collect();
        for i in 0..4 {
            for j in 0..i {
                let din = norm3(sub3(m[i], m[j]));
                let dout = norm3(sub3(o[i], o[j]));
                t.near_f("distance", din.f(), dout.widen(din.e))?;
            }
        }
        let tri = |p: &[V3]| dot3(sub3(p[1], p[0]), cross3(sub3(p[2], p[0]), sub3(p[3], p[0])));
        let a = tri(&m);
        let b = tri(&o);
        t.state("volume", &[a]);
        t.near_f("signed volume", a.f(), b.widen(a.e))
    }
}
struct Batch(Vec<usize>);
impl Body for Batch {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let n = self.0[d[0]];
        let rows: Vec<[S; 3]> = (0..n).map(|j| arr3(&pat_row(d[1], j))).collect();
        let inv = pose.inverse();
        t.call("world_to_camera(N)");
        let c = e.world_to_camera(&Points::<WorldFrame, _, _, _>::new(dyn3(&rows))).data;
        t.call("camera_to_world(N)");
        let w = e.camera_to_world(&Points::<CameraFrame, _, _, _>::new(dyn3(&rows))).data;
        t.yes(c.nrows() == n && w.nrows() == n, || format!("{} and {} rows for {n} points", c.nrows(), w.nrows()))?;
        for j in 0..n {
            t.near3("camera", get3(&c, j), pose.apply(ex3(&rows[j]))).map_err(|f| suffix(f, &format!("row {j} of {n}")))?;
            t.near3("world", get3(&w, j), inv.apply(ex3(&rows[j]))).map_err(|f| suffix(f, &format!("row {j} of {n}")))?;
        }
        t.state_u("batch", &[n as u64, d[1] as u64]);
        Ok(())
    }
}
pub fn plan(thorough: bool) -> Plan {
    let xs: &[f64] = if thorough {
        &[0.0, 1.0, -1.0, 0.5, -2.0, 7.0, 1e-3, -40.0, 1e3, 1e-6, 1e5]
    } else {
        &[0.0, 1.0, -1.0, 0.5, -2.0, 1e-3, 1e3]
    };
    let mut pts = product(&[xs, xs, xs]);
    pts.extend(campts());
    let sz = sizes(if thorough { 70000 } else { 4100 });
    Plan {
        sections: vec![
            Section::new("frame-change", One)
                .group("rotation wijk", rots_all())
                .group("center", centers())
                .group("point", pts),
            Section::new("rigidity", Rigid)
                .group("rotation wijk", rots_all())
                .group("center", centers())
                .group("point", campts())
                .group("edge lengths", product(&[&[1.0, -20.0], &[1.0, 0.25], &[1.0, -3.0]]))
                .disc("direction", 2)
                .no_closure(),
            Section::new("batches", Batch(sz.clone()))
                .group("rotation wijk", rots_few()[4..6].to_vec())
                .group("center", centers_few()[1..3].to_vec())
                .disc("number of points", sz.len())
                .disc("row pattern", PATTERNS)
                .no_closure(),
        ],
        rule: "a case is non-trivial if the reference camera-frame or world coordinates differ from all seen before",
        assumptions: vec![],
    }
}
