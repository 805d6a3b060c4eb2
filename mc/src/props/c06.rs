//! C06: look-at constructor.
use super::c05::{check_pose, Known};
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;
use nalgebra::{Unit, Vector3};

struct View;
impl Body for View {
    fn run<S: Sc>(&self, x: &[&[f64]], _d: &[usize], t: &mut Trace) -> Res {
        // center, viewing direction, viewing distance, up
        let c: [S; 3] = arr3(x[0]);
        let s = x[2][0];
        let l: [S; 3] = std::array::from_fn(|i| S::f(c[i].g() + s * x[1][i]));
        let up = Unit::new_normalize(Vector3::new(S::f(x[3][0]), S::f(x[3][1]), S::f(x[3][2])));
        let (cm, lm, um) = (ex3(&c), ex3(&l), ex3(&vec3(&up)));
        let view = sub3(lm, cm);
        let vl = len3(&view);
        if !(vl > 0.0) {
            return skip();
        }
        let f = unit3(view);
        let cr = cross3(f, um);
        let sin = len3(&cr);
        if !(sin > 1e-6) {
            return skip();
        }
        let right = unit3(cr);
        let upp = cross3(right, f);
        let r = [right, neg3(upp), f];
        // orientation uncertainty: the rows come out of a matrix -> quaternion conversion
        let conv = 64.0 * unit() / sin;
        let r = r.map(|v| widen3(v, conv));
        let pose = Pose { r, t: neg3(mul3(&r, cm)), c: cm };
        t.call("from_view");
        let e = ExtrinsicParameters::from_view(&Vector3::new(c[0], c[1], c[2]), &Vector3::new(l[0], l[1], l[2]), &up);
        t.state("orientation", &[r[0][0], r[0][1], r[0][2], r[2][0], r[2][1], r[2][2]]);
        check_pose(&e, &Known::new(pose), t)?;
        t.yes((0..3).all(|i| e.camcenter()[i] == c[i]), || "camcenter() differs from the given center".into())?;
        // consequences
        let cam = Camera::new(persp::<S>(&[100.0, 120.0, 0.0, 320.0, 240.0]).0, e.clone());
        t.call("world_to_pixel");
        let p = cam.world_to_pixel(&wpt(&l)).data;
        let lc = len3(&cm) + vl;
        let slack = (conv + f[0].e + f[1].e + f[2].e + right[0].e + right[1].e + right[2].e) * 4.0 + 32.0 * unit() * lc / vl;
        t.near("target's u", p[(0, 0)], E::x(320.0).widen(120.0 * slack))?;
        t.near("target's v", p[(0, 1)], E::x(240.0).widen(120.0 * slack))?;
        let step = 0.1 * vl;
        let l2: [S; 3] = std::array::from_fn(|i| S::f(l[i].g() + step * um[i].f()));
        if 120.0 * 0.05 * sin > 240.0 * slack && slack < 1e-2 {
            t.call("world_to_pixel");
            let q = cam.world_to_pixel(&wpt(&l2)).data;
            t.yes(q[(0, 1)].g() < p[(0, 1)].g(), || format!("moving the target along up moves v from {} to {}", p[(0, 1)].g(), q[(0, 1)].g()))?;
        }
        Ok(())
    }
}
pub fn plan(thorough: bool) -> Plan {
    let mut cs = centers();
    if !thorough {
        cs.truncate(9);
    }
    let sv: &[f64] = if thorough { &[0.0, 1.0, -1.0, 0.5, -0.25, 2.0, 1e-3] } else { &[0.0, 1.0, -1.0, 0.5] };
    let mut views: Vec<Vec<f64>> = product(&[sv, sv, sv]).into_iter().filter(|v| v.iter().any(|x| *x != 0.0)).collect();
    views.extend(dirs());
    let su: &[f64] = &[0.0, 1.0, -1.0];
    let mut ups: Vec<Vec<f64>> = product(&[su, su, su]).into_iter().filter(|v| v.iter().any(|x| *x != 0.0)).collect();
    ups.extend([vec![0.3, -0.7, 0.2], vec![1e-3, 0.0, 1.0], vec![-0.2, -0.2, 0.9], vec![0.0, 1.0, 1e-3]]);
    let dist: &[f64] = if thorough { &[1.0, 1e-3, 0.1, 0.5, 2.0, 25.0, 1e3, 1e5] } else { &[1.0, 1e-2, 25.0, 1e4] };
    Plan {
        sections: vec![Section::new("from-view", View)
            .group("center", cs)
            .group("viewing direction", views)
            .group("viewing distance", dist.iter().map(|v| vec![*v]).collect())
            .group("up", ups)],
        rule: "a case is non-trivial if the reference orientation differs from all seen before; up within 1e-6 of parallel to the viewing direction is outside the domain",
        assumptions: vec![],
    }
}
