//! C13: cameras built from 3x4 matrices.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;
use nalgebra::SMatrix;

type M34 = [[E; 4]; 3];
fn len(v: &V3) -> f64 {
    len3(v)
}
/// What the decomposition of a matrix must be, with first-order perturbation bounds.
struct Ref {
    m3: [V3; 3],
    c: V3,
    k: [E; 5],
    r: [V3; 3],
    /// condition number of the row-normalised left block
    kappa: f64,
    rows: [f64; 3],
}
fn reference(m: &M34) -> Option<Ref> {
    let m3: [V3; 3] = std::array::from_fn(|i| [m[i][0], m[i][1], m[i][2]]);
    let col: [V3; 4] = std::array::from_fn(|j| [m[0][j], m[1][j], m[2][j]]);
    let det = det3(&m3);
    let rows: [f64; 3] = std::array::from_fn(|i| len(&m3[i]));
    if !(det.mag() > 1e3 * det.e + 1e3 * unit() * rows[0] * rows[1] * rows[2]) || det.f() == 0.0 {
        return None;
    }
    let n = nalgebra::Matrix3::from_fn(|i, j| m3[i][j].f() / rows[i]);
    let sv = n.singular_values();
    let kappa = sv[0] / sv[2];
    // center: minus the inverse times the last column; cofactor rounding in any elimination order
    let cols = [len(&col[0]), len(&col[1]), len(&col[2]), len(&col[3])];
    let d = |a: V3, b: V3, c: V3| dot3(a, cross3(b, c));
    let num = [d(col[1], col[2], col[3]), -d(col[0], col[2], col[3]), d(col[0], col[1], col[3])];
    let prod = |skip: usize| (0..4).filter(|j| *j != skip).map(|j| cols[j]).product::<f64>();
    let w = det.widen(4.0 * unit() * prod(3));
    let c: V3 = std::array::from_fn(|i| -(num[i].widen(4.0 * unit() * prod(i)) / w));
    // RQ with positive diagonal of the matrix with positive determinant
    let s = if det.f() > 0.0 { E::x(1.0) } else { E::x(-1.0) };
    let row = |i: usize| scale3(m3[i], s);
    let k22 = norm3(row(2));
    let r2 = unit3(row(2));
    let k12 = dot3(row(1), r2);
    let b = sub3(row(1), scale3(r2, k12));
    let k11 = norm3(b);
    let r1 = unit3(b);
    let k02 = dot3(row(0), r2);
    let k01 = dot3(row(0), r1);
    let a = sub3(sub3(row(0), scale3(r2, k02)), scale3(r1, k01));
    let k00 = norm3(a);
    let r0 = unit3(a);
    // perturbation of the factorisation
    let p = 4.0 * unit() * kappa;
    let f = |x: E, i: usize| (x / k22).widen(p * rows[i] / rows[2]);
    let k = [f(k00, 0), f(k11, 1), f(k01, 0), f(k02, 0), f(k12, 1)];
    let r = [widen3(r0, p), widen3(r1, p), widen3(r2, p)];
    Some(Ref { m3, c, k, r, kappa, rows })
}
fn mat<S: Sc>(m: &[[f64; 4]; 3]) -> SMatrix<S, 3, 4> {
    SMatrix::from_fn(|i, j| S::f(m[i][j]))
}
const PTS: [[f64; 3]; 6] = [[0.0, 0.0, 0.0], [1.0, 2.0, -0.5], [-3.0, 0.5, 4.0], [0.1, -7.0, 2.0], [10.0, 20.0, 30.0], [-1.0, -1.0, -1.0]];
fn check<S: Sc>(m: &SMatrix<S, 3, 4>, t: &mut Trace) -> Result<Option<(Camera<S, IntrinsicParametersPerspective<S>>, Ref)>, Fail> {
    let em: M34 = std::array::from_fn(|i| std::array::from_fn(|j| E::x(m[(i, j)].g())));
    let Some(r) = reference(&em) else { return Ok(None) };
    if r.kappa > if S::IS32 { 100.0 } else { 1e4 } {
        return Ok(None);
    }
    // products of three entries stay within the floating-point range
    let mx = em.iter().flatten().map(|e| e.mag()).fold(0.0, f64::max);
    let mn = r.rows.iter().product::<f64>();
    let (lo, hi) = if S::IS32 { (1e-30, 1e37) } else { (1e-290, 1e300) };
    if !(6.0 * mx * mx * mx < hi && mn > lo) {
        return Ok(None);
    }
    t.call("Camera::from_perspective_matrix");
    let cam = match Camera::from_perspective_matrix(m) {
        Ok(c) => c,
        Err(e) => return bad(format!("error {} for a matrix with condition {:.3e}", super::lsq::err_name(&e), r.kappa)),
    };
    let i = cam.intrinsics();
    let got = [i.fx(), i.fy(), i.skew(), i.cx(), i.cy()];
    t.yes(got[0].g() > 0.0 && got[1].g() > 0.0, || format!("focal lengths {:?} {:?}", got[0], got[1]))?;
    t.state("intrinsics", &r.k);
    for j in 0..5 {
        t.near(["fx", "fy", "skew", "cx", "cy"][j], got[j], r.k[j])?;
    }
    let e = cam.extrinsics();
    t.calls("rotation/camcenter/world_to_pixel", 2 + PTS.len() as u64);
    let rot = e.rotation();
    let er: [V3; 3] = std::array::from_fn(|a| std::array::from_fn(|b| E::x(rot[(a, b)].g())));
    for a in 0..3 {
        for b in 0..3 {
            t.near("rotation", rot[(a, b)], r.r[a][b])?;
            t.near_f("rotation rows orthonormal", dot3(er[a], er[b]).f(), E::x(if a == b { 1.0 } else { 0.0 }).widen(4.0 * unit()))?;
        }
        t.near("center", e.camcenter()[a], r.c[a].widen(unit() * r.c[a].mag()))?;
    }
    t.near_f("determinant of the rotation", det3(&er).f(), E::x(1.0).widen(8.0 * unit()))?;
    // projection: row-wise backward error of the factorisation, and the center's error
    for p in PTS {
        let q: [S; 3] = arr3(&p);
        let dlt = sub3(ex3(&q), r.c);
        let ld = len(&dlt) + len3(&r.c) + len3(&ex3(&q));
        let w: [E; 3] = std::array::from_fn(|a| dot3(r.m3[a], dlt).widen(8.0 * unit() * r.rows[a] * ld));
        if !(w[2].mag() > 8.0 * w[2].e) {
            t.ill += 1;
            continue;
        }
        let px = cam.world_to_pixel(&wpt(&q));
        t.near("u", px.data[(0, 0)], w[0] / w[2])?;
        t.near("v", px.data[(0, 1)], w[1] / w[2])?;
    }
    Ok(Some((cam, r)))
}
/// Matrices over small integers.
struct Ints {
    vals: Vec<f64>,
    last: Vec<[f64; 3]>,
    scales: Vec<f64>,
    /// first of the nine digits that is free; the others come from d[0]
    n: usize,
}
impl Body for Ints {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let mut k = d[0];
        let b = self.vals.len();
        let mut v = [0.0; 9];
        for x in v.iter_mut().take(self.n) {
            *x = self.vals[k % b];
            k /= b;
        }
        let sc = self.scales[d[2]];
        let l = self.last[d[1]];
        let m = mat::<S>(&std::array::from_fn(|i| std::array::from_fn(|j| sc * if j < 3 { v[3 * i + j] } else { l[i] })));
        match check(&m, t)? {
            Some(_) => Ok(()),
            None => skip(),
        }
    }
}
/// Rows as inputs.
struct Rows;
impl Body for Rows {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let s = [1.0, -0.01][d[0]];
        let m = mat::<S>(&std::array::from_fn(|i| std::array::from_fn(|j| s * x[i][j])));
        match check(&m, t)? {
            Some(_) => Ok(()),
            None => skip(),
        }
    }
}
/// Matrices of known cameras.
struct FromCamera;
const SCALES: [f64; 5] = [1.0, -1.0, 0.01, -700.0, 1e-5];
impl Body for FromCamera {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let (i, k) = persp::<S>(x[2]);
        let cam = Camera::new(i, e);
        t.call("Camera::as_camera_matrix");
        let raw = if d[1] == 0 { cam.as_camera_matrix() } else {
            let pm = pmat(&k, &pose);
            SMatrix::from_fn(|i, j| S::f(pm[i][j].f()))
        };
        let m = raw * S::f(SCALES[d[0]]);
        let Some((got, r)) = check(&m, t)? else { return skip() };
        if k[0] > 0.0 && k[1] > 0.0 {
            // the original camera, given that the matrix is rounded row by row
            let p = 16.0 * unit() * r.kappa;
            let g = got.intrinsics();
            let v = [g.fx(), g.fy(), g.skew(), g.cx(), g.cy()];
            for j in 0..5 {
                let row = if j == 1 || j == 4 { 1 } else { 0 };
                t.near(["fx recovered", "fy recovered", "skew recovered", "cx recovered", "cy recovered"][j], v[j], E::x(k[j]).widen(p * r.rows[row] / r.rows[2] + r.k[j].e))?;
            }
            let rot = got.extrinsics().rotation();
            let lc = len3(&pose.c);
            for a in 0..3 {
                for b in 0..3 {
                    t.near("rotation recovered", rot[(a, b)], pose.r[a][b].widen(p))?;
                }
                t.near("center recovered", got.extrinsics().camcenter()[a], pose.c[a].widen(p * lc + r.c[a].e))?;
            }
        }
        Ok(())
    }
}
pub fn plan(thorough: bool) -> Plan {
    let last = vec![[0.0, 0.0, 0.0], [1.0, -2.0, 3.0], [0.0, 0.0, 1.0], [-5.0, 0.5, -0.25]];
    let scales = vec![1.0, -1.0, 0.3, -1000.0];
    let rows: Vec<Vec<f64>> = {
        let s: &[f64] = &[0.0, 1.0, -2.0];
        let mut v = product(&[s, s, s, &[0.5]]);
        v.retain(|r| r[..3].iter().any(|x| *x != 0.0));
        v.push(vec![100.0, 0.3, 320.0, 7.0]);
        v.push(vec![0.001, 0.002, 1.0, -3.0]);
        v.push(vec![-90.0, 100.0, 240.0, 1.0]);
        v
    };
    let mut s = vec![
        Section::new("integer-matrices", Ints { vals: vec![0.0, 1.0, -1.0], last: last.clone(), scales: scales.clone(), n: 9 })
            .disc("3x3 over {-1,0,1}", 3usize.pow(9))
            .disc("last column", last.len())
            .disc("scale", scales.len())
            .no_closure(),
        Section::new("matrix-rows", Rows)
            .group("row 1", rows.clone())
            .group("row 2", rows.clone())
            .group("row 3", rows)
            .disc("scale", 2),
        Section::new("cameras", FromCamera)
            .group("rotation wijk", if thorough { rots_all() } else { rots_mid() })
            .group("center", if thorough { centers() } else { centers_few() })
            .group("fx fy skew cx cy", kpersp())
            .disc("scale", SCALES.len())
            .disc("matrix from: library, model", 2),
    ];
    if thorough {
        s.push(
            Section::new("integer-matrices-2", Ints { vals: vec![0.0, 1.0, -2.0, 3.0], last: last[1..2].to_vec(), scales: scales[1..3].to_vec(), n: 9 })
                .disc("3x3 over {0,1,-2,3}", 4usize.pow(9))
                .disc("last column", 1)
                .disc("scale", 2)
                .no_closure(),
        );
    }
    Plan {
        sections: s,
        rule: "a case is non-trivial if the reference intrinsic parameters (to 53 bits) differ from all seen before; matrices whose row-normalised left block has a condition number above 1e4 (f32: 100) are outside the domain",
        assumptions: vec!["Well-conditioned: condition number of the row-normalised left 3x3 block at most 1e4 (f64) or 100 (f32).", "Products of three entries neither overflow nor underflow."],
    }
}
