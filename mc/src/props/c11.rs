//! C11: fallible operations.
use super::lsq::*;
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;
use nalgebra::SMatrix;

/// Values used for hostile inputs. The last six are outside the ordinary range.
const V: [f64; 12] = [0.0, 1.0, -2.0, 0.37, -1e-3, 250.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, 1e-300, -1e160];
const ORDINARY: usize = 6;
fn ordinary(v: f64) -> bool {
    v == 0.0 || (v.is_finite() && v.abs() >= 1e-6 && v.abs() <= 1e6)
}
/// Anything whatsoever must not panic; ordinary input gives a finite result or an error,
/// zero directions an error.
fn intersect<S: Sc>(rays: &[[f64; 6]], t: &mut Trace) -> Res {
    let r: Vec<Ray<WorldFrame, S>> = rays.iter().map(|r| mk(&arr3(&r[..3]), &arr3(&r[3..]))).collect();
    t.call("best_intersection_of_rays");
    let got = best_intersection_of_rays(&r);
    let ord = rays.iter().flatten().all(|v| ordinary(*v));
    let zero = rays.iter().any(|r| r[3..].iter().all(|v| S::f(*v).g() == 0.0));
    let fin = rays.iter().flatten().all(|v| S::f(*v).g().is_finite());
    let class = match &got {
        Ok(p) => {
            let v = get3(&p.data, 0);
            if ord {
                t.yes(v.iter().all(|c| c.g().is_finite()), || format!("ordinary input, but result {v:?}"))?;
            }
            t.yes(!(zero && fin) || rays.len() < 2, || format!("zero-length direction, but result {v:?}"))?;
            v.iter().map(|c| if c.g().is_nan() { 1 } else if c.g().is_infinite() { 2 } else { 3u64 }).sum()
        }
        Err(Error::MinimumTwoRaysNeeded) => {
            t.yes(rays.len() < 2, || "MinimumTwoRaysNeeded for two or more rays".into())?;
            20
        }
        Err(Error::InvalidInput) => 21,
        Err(_) => 22,
    };
    if rays.len() < 2 {
        t.yes(matches!(got, Err(Error::MinimumTwoRaysNeeded)), || format!("{} rays, outcome class {class}", rays.len()))?;
    }
    let cl = |v: &f64| -> u64 {
        if v.is_nan() { 1 } else if *v == f64::INFINITY { 2 } else if *v == f64::NEG_INFINITY { 3 } else if *v == 0.0 { 4 } else if v.abs() > 1e100 { 5 } else if v.abs() < 1e-100 { 6 } else if *v > 0.0 { 7 } else { 8 }
    };
    let mut h = vec![class, rays.len() as u64];
    h.extend(rays.iter().flatten().map(cl));
    t.state_u("outcome", &h);
    Ok(())
}
/// Zero or one ray, whatever it is.
struct Few;
impl Body for Few {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        if d[0] == 0 {
            return intersect::<S>(&[], t);
        }
        let r = std::array::from_fn(|i| V[[0, 1, 3, 6, 7, 9][d[1 + i]]]);
        intersect::<S>(&[r], t)
    }
}
/// Two rays, all twelve components from {0, 1, -2, ...}: every direction pattern x centers.
struct Two {
    dirs: Vec<[f64; 3]>,
    centers: Vec<[f64; 3]>,
}
impl Body for Two {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let r = |c: usize, k: usize| {
            let (c, k) = (self.centers[c], self.dirs[k]);
            [c[0], c[1], c[2], k[0], k[1], k[2]]
        };
        intersect::<S>(&[r(d[0], d[1]), r(d[2], d[3])], t)
    }
}
/// n ordinary rays of which up to two components anywhere are replaced.
struct Poke(Vec<[f64; 6]>);
impl Body for Poke {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let n = 2 + d[0];
        let mut r: Vec<[f64; 6]> = (0..n).map(|i| self.0[(i + d[5]) % self.0.len()]).collect();
        for (p, v) in [(d[1], d[2]), (d[3], d[4])] {
            if p >= 6 * n {
                return skip();
            }
            r[p / 6][p % 6] = V[v];
        }
        intersect::<S>(&r, t)
    }
}
/// A zero direction at any position of a longer list.
struct ZeroAt;
impl Body for ZeroAt {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let n = d[0] + 2;
        if d[1] > n {
            return skip();
        }
        // d[1] == n: no zero direction at all
        let r: Vec<[f64; 6]> = (0..n)
            .map(|i| {
                let mut r: [f64; 6] = std::array::from_fn(|j| lcg(if d[2] == 1 { j / 3 * i } else { i }, j));
                if i == d[1] {
                    r[3..].copy_from_slice(if d[2] == 2 { &[-0.0, 0.0, -0.0] } else { &[0.0; 3] });
                }
                r
            })
            .collect();
        intersect::<S>(&r, t)
    }
}
fn from_matrix<S: Sc>(v: &[f64; 12], sing: Option<bool>, t: &mut Trace) -> Res {
    let m = SMatrix::<S, 3, 4>::from_fn(|i, j| S::f(v[4 * i + j]));
    t.call("Camera::from_perspective_matrix");
    let got = Camera::from_perspective_matrix(&m);
    let ord = v.iter().all(|x| ordinary(*x));
    match got {
        Ok(c) => {
            let (i, e) = (c.intrinsics(), c.extrinsics());
            let mut all = vec![i.fx(), i.fy(), i.skew(), i.cx(), i.cy()];
            all.extend(e.matrix().iter());
            all.extend(e.camcenter().iter());
            if ord {
                t.yes(all.iter().all(|x| x.g().is_finite()), || format!("accepted, but {all:?}"))?;
            }
            t.yes(sing != Some(true), || format!("singular left block accepted as {all:?}"))?;
            t.state_u("accepted", &[all[0].g().to_bits(), all[1].g().to_bits(), all[2].g().to_bits(), all[3].g().to_bits(), all[4].g().to_bits()]);
        }
        Err(e) => {
            t.yes(sing != Some(false), || format!("error {} for a non-singular matrix of small integers", err_name(&e)))?;
            t.state_u("rejected", &v.map(|x| x.to_bits()));
        }
    }
    Ok(())
}
/// All 3x3 blocks over {-1,0,1}: rejected exactly when singular.
struct Ints {
    vals: Vec<f64>,
}
impl Body for Ints {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let mut k = d[0];
        let b = self.vals.len();
        let sc = [1.0, -4.0, 0.03125][d[2]];
        let last = [[0.0, 0.0, 0.0], [1.0, -2.0, 3.0], [0.0, 0.0, 1.0]][d[1]];
        let mut v = [0.0; 12];
        for i in 0..3 {
            for j in 0..3 {
                v[4 * i + j] = self.vals[k % b];
                k /= b;
            }
            v[4 * i + 3] = last[i];
        }
        let m = |i: usize, j: usize| v[4 * i + j];
        let det = m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
        from_matrix::<S>(&v.map(|x| x * sc), Some(det == 0.0), t)
    }
}
const MATS: [[f64; 12]; 3] = [
    [100.0, 0.5, 320.0, 10.0, 0.0, 110.0, 240.0, -3.0, 0.0, 0.0, 1.0, 2.0],
    [1.0, 2.0, 3.0, 4.0, -2.0, 0.5, 7.0, 1.0, 0.25, -0.125, 3.0, -5.0],
    [0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, -1.0, 0.0, 0.0, 0.0],
];
/// Up to three cells of a good matrix replaced by anything.
struct PokeM(usize);
impl Body for PokeM {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let mut v = MATS[d[0]];
        for k in 0..self.0 {
            v[d[1 + 2 * k]] = V[d[2 + 2 * k]];
        }
        from_matrix::<S>(&v, None, t)
    }
}
/// A whole row or column, or the whole matrix, replaced.
struct Lines;
impl Body for Lines {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let mut v = MATS[d[0]];
        for k in 0..12 {
            let (i, j) = (k / 4, k % 4);
            for (l, a) in [(d[1], d[2]), (d[3], d[4])] {
                if l == 7 || l == i || l == 3 + j {
                    v[k] = V[a];
                }
            }
        }
        from_matrix::<S>(&v, None, t)
    }
}
/// The third constructor that can fail: it must not panic either.
struct Normalized;
impl Body for Normalized {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let mut v = [100.0, 0.5, 320.0, 0.0, 0.0, 110.0, 240.0, 0.0, 0.0, 0.0, 1.0, 0.0];
        v[d[0]] = V[d[1]];
        v[d[2]] = V[d[3]];
        let m = SMatrix::<S, 3, 4>::from_fn(|i, j| S::f(v[4 * i + j]));
        t.call("IntrinsicParametersPerspective::from_normalized_3x4_matrix");
        let ok = IntrinsicParametersPerspective::from_normalized_3x4_matrix(m).is_ok();
        t.state_u("normalized", &[ok as u64, d[0] as u64, d[1] as u64, d[2] as u64, d[3] as u64]);
        Ok(())
    }
}
/// Ordinary rays as inputs, including nearly parallel, tiny and large ones.
struct FreeRays;
impl Body for FreeRays {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let a: [f64; 6] = x[0].try_into().unwrap();
        let b: [f64; 6] = x[1].try_into().unwrap();
        match d[0] {
            0 => intersect::<S>(&[a, b], t),
            1 => intersect::<S>(&[a, b, a], t),
            _ => intersect::<S>(&[b, a, [1.0, 2.0, 3.0, 1.0, 1e-6, 0.0]], t),
        }
    }
}
struct FreeMatrix;
impl Body for FreeMatrix {
    fn run<S: Sc>(&self, x: &[&[f64]], _d: &[usize], t: &mut Trace) -> Res {
        let v: [f64; 12] = std::array::from_fn(|k| x[k / 4][k % 4]);
        from_matrix::<S>(&v, None, t)
    }
}
pub fn plan(thorough: bool) -> Plan {
    let dirs: Vec<[f64; 3]> = {
        let idx: &[usize] = if thorough { &[0, 1, 2, 4, 6, 7, 8, 9, 10] } else { &[0, 1, 2, 6, 7, 9] };
        let s: Vec<f64> = idx.iter().map(|i| V[*i]).collect();
        product(&[&s, &s, &s]).iter().map(|r| [r[0], r[1], r[2]]).collect()
    };
    let centers = if thorough {
        vec![[0.0, 0.0, 0.0], [1.0, -2.0, 250.0], [f64::NAN, 1.0, 0.0], [0.0, f64::INFINITY, 1e300]]
    } else {
        vec![[0.0, 0.0, 0.0], [1.0, -2.0, 250.0]]
    };
    let base: Vec<[f64; 6]> = vec![
        [0.0, 0.0, 0.0, 1.0, 0.0, 0.0],
        [1.0, -2.0, 0.5, 1.0, 2.0, 2.0],
        [-30.0, 4.0, 10.0, -3.0, 4.0, 0.0],
        [0.25, 3.0, -7.0, 1.0, 2.0, 2.0],
    ];
    let rays: Vec<Vec<f64>> = {
        let mut v: Vec<Vec<f64>> = base.iter().map(|r| r.to_vec()).collect();
        let dd: &[f64] = &[0.0, 1.0, -1e-6, 1e6];
        for d in product(&[dd, dd, dd]) {
            v.push(vec![1.0, 1e6, -1e-6, d[0], d[1], d[2]]);
            v.push(vec![0.0, 0.0, 0.0, d[0], d[1], d[2]]);
            v.push(vec![3.0, -1.0, 2.0, d[0] * 0.5 + 0.5, d[1], d[2]]);
        }
        v
    };
    let rows: Vec<Vec<f64>> = {
        let s: &[f64] = &[0.0, 1.0, -2.0, 1e-6];
        let mut v = product(&[s, s, &[0.0, 1.0, 1e6], &[0.0, 3.0]]);
        if !thorough {
            v = v.into_iter().step_by(2).collect();
        }
        v
    };
    let few = [(1, "ray count 0 or 1"), (6, "center x"), (6, "center y"), (6, "center z"), (6, "direction x"), (6, "direction y"), (6, "direction z")];
    let mut one = Section::new("fewer-than-two-rays", Few).no_closure();
    for (i, (n, name)) in few.iter().enumerate() {
        one = one.disc(name, if i == 0 { 2 } else { *n });
    }
    let mut s = vec![
        one,
        Section::new("two-rays", Two { dirs: dirs.clone(), centers: centers.clone() })
            .disc("center 1", centers.len())
            .disc("direction 1", dirs.len())
            .disc("center 2", centers.len())
            .disc("direction 2", dirs.len())
            .no_closure(),
        Section::new("replaced-components", Poke(base))
            .disc("number of rays", if thorough { 4 } else { 2 })
            .disc("first position", if thorough { 30 } else { 18 })
            .disc("first value", V.len())
            .disc("second position", if thorough { 30 } else { 18 })
            .disc("second value", V.len())
            .disc("rotation of the base list", 4)
            .no_closure(),
        Section::new("zero-direction-anywhere", ZeroAt)
            .disc("number of rays", if thorough { 260 } else { 70 })
            .disc("position", if thorough { 263 } else { 73 })
            .disc("pattern", 3)
            .no_closure(),
        Section::new("free-rays", FreeRays).group("ray 1", rays.clone()).group("ray 2", rays).disc("arrangement", 3),
        Section::new("integer-matrices", Ints { vals: vec![0.0, 1.0, -1.0] })
            .disc("3x3 over {-1,0,1}", 3usize.pow(9))
            .disc("last column", 3)
            .disc("power-of-two scale", 3)
            .no_closure(),
        Section::new("replaced-cells", PokeM(2)).disc("matrix", 3).disc("cell", 12).disc("value", 12).disc("cell", 12).disc("value", 12).no_closure(),
        Section::new("replaced-lines", Lines).disc("matrix", 3).disc("line", 8).disc("value", 12).disc("line", 8).disc("value", 12).no_closure(),
        Section::new("free-matrices", FreeMatrix).group("row 1", rows.clone()).group("row 2", rows.clone()).group("row 3", rows),
        Section::new("normalized-matrix", Normalized).disc("cell", 12).disc("value", 12).disc("cell", 12).disc("value", 12).no_closure(),
    ];
    if thorough {
        s.push(
            Section::new("integer-matrices-2", Ints { vals: vec![0.0, 1.0, -2.0, 3.0] })
                .disc("3x3 over {0,1,-2,3}", 4usize.pow(9))
                .disc("last column", 3)
                .disc("power-of-two scale", 1)
                .no_closure(),
        );
        s.push(
            Section::new("replaced-cells-3", PokeM(3)).disc("matrix", 3).disc("cell", 12).disc("value", 12).disc("cell", 12).disc("value", 12).disc("cell", 12).disc("value", 12).no_closure(),
        );
    }
    if cfg!(not(feature = "alloc")) {
        // without an allocator there is no intersection
        s.drain(..5);
    }
    debug_assert!(ORDINARY < V.len());
    Plan {
        sections: s,
        rule: "a state is an outcome class together with the class (zero, ordinary, tiny, huge, infinite, NaN, sign) of every input component, or the accepted parameters",
        assumptions: vec!["Ordinary magnitude: zero or between 1e-6 and 1e6."],
    }
}
