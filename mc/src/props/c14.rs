//! C14: acceptance of intrinsic matrices.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;
use nalgebra::SMatrix;

/// Required cells and their values.
const REQ: [(usize, usize, f64); 7] = [(0, 3, 0.0), (1, 0, 0.0), (1, 3, 0.0), (2, 0, 0.0), (2, 1, 0.0), (2, 2, 1.0), (2, 3, 0.0)];
fn run<S: Sc>(k: &[f64], dev: &[f64; 7], t: &mut Trace) -> Res {
    let mut m = SMatrix::<S, 3, 4>::zeros();
    let (kp, model) = persp::<S>(k);
    m[(0, 0)] = kp.fx();
    m[(1, 1)] = kp.fy();
    m[(0, 1)] = kp.skew();
    m[(0, 2)] = kp.cx();
    m[(1, 2)] = kp.cy();
    for (c, d) in REQ.iter().zip(dev) {
        m[(c.0, c.1)] = if *d == 0.0 && c.2 == 0.0 { S::f(*d) } else { S::f(c.2 + d) };
    }
    let good = dev.iter().all(|d| *d == 0.0);
    t.call("from_normalized_3x4_matrix");
    let h: Vec<u64> = dev.iter().map(|d| d.to_bits()).collect();
    t.state_u("deviation", &h);
    match IntrinsicParametersPerspective::from_normalized_3x4_matrix(m) {
        Ok(i) => {
            t.yes(good, || format!("accepted with deviations {dev:?} in cells 03 10 13 20 21 22 23"))?;
            let got = [i.fx(), i.fy(), i.skew(), i.cx(), i.cy()];
            for j in 0..5 {
                t.yes(got[j].g() == model[j] && [i.params().fx, i.params().fy, i.params().skew, i.params().cx, i.params().cy][j].g() == model[j], || format!("{} is {:?}, matrix has {:e}", ["fx", "fy", "skew", "cx", "cy"][j], got[j], model[j]))?;
            }
            t.yes(i == kp, || "differs from the model with the same parameters".into())?;
            for p in [[0.5, -0.25, 2.0], [1.0, 2.0, -3.0]] {
                let px = i.camera_to_pixel(&cpt(&arr3::<S>(&p)));
                let want = project_persp(&model, v3(&p));
                t.near("u", px.data[(0, 0)], want[0])?;
                t.near("v", px.data[(0, 1)], want[1])?;
            }
            Ok(())
        }
        Err(Error::InvalidInput) => t.yes(!good, || "valid intrinsic matrix rejected".into()),
        Err(e) => bad(format!("error {} instead of InvalidInput", super::lsq::err_name(&e))),
    }
}
/// Every assignment of {exact, +-delta, NaN, +-inf} to the seven cells.
struct Cells {
    delta: Vec<f64>,
}
impl Body for Cells {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let mut dl = self.delta[d[1]];
        if S::IS32 {
            dl = dl.max(1e-4);
        }
        let v = [0.0, dl, -dl, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
        let mut k = d[0];
        let dev = std::array::from_fn(|_| {
            let r = v[k % 6];
            k /= 6;
            r
        });
        run::<S>(x[0], &dev, t)
    }
}
/// Deviations of different sizes in up to three cells; negative zeros elsewhere.
struct Mixed {
    delta: Vec<f64>,
}
impl Body for Mixed {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let z = if d[6] == 1 { -0.0 } else { 0.0 };
        let mut dev = [z; 7];
        for k in 0..3 {
            let mut v = self.delta[d[2 * k + 1]];
            if S::IS32 && v != 0.0 {
                v = v.signum() * v.abs().max(1e-4);
            }
            dev[d[2 * k]] = v;
        }
        run::<S>(x[0], &dev, t)
    }
}
/// Cells as inputs.
struct Free;
impl Body for Free {
    fn run<S: Sc>(&self, x: &[&[f64]], _d: &[usize], t: &mut Trace) -> Res {
        let min = if S::IS32 { 1e-4 } else { 1e-6 };
        let mut dev = [0.0; 7];
        for i in 0..7 {
            dev[i] = x[1][i] - if i == 5 { 1.0 } else { 0.0 };
            // between exact and noticeable: not decided
            if dev[i] != 0.0 && !(dev[i].abs() >= min) {
                return skip();
            }
        }
        run::<S>(x[0], &dev, t)
    }
}
pub fn plan(thorough: bool) -> Plan {
    let delta = vec![1e-6, 1e-3, 0.5, 2.0, 1e3];
    let mut signed = vec![0.0];
    for d in &delta {
        signed.extend([*d, -*d]);
    }
    signed.extend([f64::NAN, f64::INFINITY]);
    let ks = if thorough { kpersp() } else { kpersp_few()[..3].to_vec() };
    let cells: Vec<Vec<f64>> = (0..8).map(|i| (0..7).map(|j| if j == 5 { 1.0 } else { 0.0 } + if i == j { 0.25 } else { 0.0 }).collect()).collect();
    Plan {
        sections: vec![
            Section::new("all-cells", Cells { delta: delta.clone() })
                .group("fx fy skew cx cy", ks[..if thorough { 4 } else { 1 }].to_vec())
                .disc("{exact,+d,-d,NaN,inf,-inf}^7", 6usize.pow(7))
                .disc("size of d", delta.len())
                .no_closure(),
            Section::new("mixed-sizes", Mixed { delta: signed.clone() })
                .group("fx fy skew cx cy", ks[..1].to_vec())
                .disc("cell", 7)
                .disc("deviation", signed.len())
                .disc("cell", 7)
                .disc("deviation", signed.len())
                .disc("cell", 7)
                .disc("deviation", signed.len())
                .disc("negative zeros", 2)
                .no_closure(),
            Section::new("free-cells", Free).group("fx fy skew cx cy", kpersp()).group("cells 03 10 13 20 21 22 23", cells),
        ],
        rule: "a state is the vector of deviations of the seven required cells",
        assumptions: vec!["Noticeable: at least 1e-6 (f64) or 1e-4 (f32) in absolute value; smaller non-zero deviations are not decided."],
    }
}
