//! C09: rays through a common point.
use super::lsq::*;
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;
use nalgebra::{Unit, Vector3};

/// The intersection must be the common point, given how far rounding put the rays from it.
fn check<S: Sc>(rays: &[Ray<WorldFrame, S>], p: V3, t: &mut Trace) -> Res {
    let ex: Vec<RayE> = rays.iter().map(exact).collect();
    let l = lsq(&ex);
    let Some(x) = l.solve() else { return skip() };
    let off: f64 = ex.iter().map(|r| { let d = dist_to(r, p); d.f() + d.e.min(unit() * (1.0 + l.scale + len3(&p))) }).sum();
    let k = 1.0 / l.lmin;
    t.call("best_intersection_of_rays");
    let got = match best_intersection_of_rays(rays) {
        Ok(g) => get3(&g.data, 0),
        Err(e) => return bad(format!("error {} for rays through {:?}", err_name(&e), p.map(|v| v.f()))),
    };
    t.state("intersection", &x);
    for j in 0..3 {
        t.near("intersection vs common point", got[j], p[j].widen(x[j].e + k * off))?;
        t.near("intersection vs least squares", got[j], x[j])?;
    }
    Ok(())
}
/// Direction alphabet for ray sets, including collinear pairs of either sign.
fn alpha() -> Vec<Vec<f64>> {
    vec![
        vec![1.0, 0.0, 0.0],
        vec![0.0, 0.0, -1.0],
        vec![1.0, 2.0, 2.0],
        vec![-3.0, 4.0, 0.0],
        vec![0.3, -0.2, -5.0],
        vec![-1.0, -1.0, -1.0],
        vec![0.0, 1.0, 0.0],
        vec![0.02, 0.0, 1.0],
        vec![2.0, 4.0, 4.0],
    ]
}
const SCALES: [[f64; 5]; 4] = [[1.0; 5], [1.0, -2.0, 0.5, -1.0, 3.0], [-1e-3, 1e3, -7.0, 1e-2, 1.0], [1e-5, 1e-5, 1e-5, 1e-5, 1e-5]];
const OFFS: [[f64; 5]; 4] = [[1.0, 1.0, 1.0, 1.0, 1.0], [-2.0, 3.0, 0.0, 10.0, -0.5], [100.0, -0.01, 50.0, 1.0, -200.0], [0.0, 0.0, 4.0, 0.0, 0.0]];
struct Sets(Vec<Vec<usize>>);
impl Body for Sets {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let p: [S; 3] = arr3(x[0]);
        let al = alpha();
        let rays: Vec<Ray<WorldFrame, S>> = self.0[d[0]]
            .iter()
            .enumerate()
            .map(|(i, a)| {
                let dir = &al[*a];
                let o: [S; 3] = std::array::from_fn(|j| S::f(p[j].g() - OFFS[d[2]][i] * dir[j]));
                let dd: [S; 3] = std::array::from_fn(|j| S::f(dir[j] * SCALES[d[1]][i]));
                mk(&o, &dd)
            })
            .collect();
        check(&rays, ex3(&p), t)
    }
}
/// Free directions as inputs, so that boundary closure can move them.
struct Free;
impl Body for Free {
    fn run<S: Sc>(&self, x: &[&[f64]], _d: &[usize], t: &mut Trace) -> Res {
        let p: [S; 3] = arr3(x[0]);
        let mut rays = vec![];
        for (i, dir) in [x[1], x[2], &[0.3, -1.0, 0.5][..]].iter().enumerate() {
            if dir.iter().map(|v| v * v).sum::<f64>() < 1e-12 {
                return skip();
            }
            let dd: [S; 3] = arr3(dir);
            let s = [2.0, -1.5, 4.0][i];
            let o: [S; 3] = std::array::from_fn(|j| S::f(p[j].g() - s * dd[j].g()));
            rays.push(mk(&o, &dd));
            if i > 0 {
                check(&rays, ex3(&p), t)?;
            }
        }
        Ok(())
    }
}
struct Many(Vec<usize>);
impl Body for Many {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let p: [S; 3] = arr3(x[0]);
        let n = self.0[d[0]];
        let rays: Vec<Ray<WorldFrame, S>> = (0..n)
            .map(|i| {
                let m = if d[1] == 0 { i } else { i % 3 };
                let dir = [lcg(m, 0), lcg(m, 1), lcg(m, 2)];
                let s = lcg(i, 3) * 20.0;
                let k = if i % 2 == 0 { 1.0 } else { -2.5 };
                let o: [S; 3] = std::array::from_fn(|j| S::f(p[j].g() - s * dir[j]));
                let dd: [S; 3] = std::array::from_fn(|j| S::f(dir[j] * k));
                mk(&o, &dd)
            })
            .collect();
        t.state_u("many", &[n as u64, d[1] as u64]);
        check(&rays, ex3(&p), t)
    }
}
/// All rays lie on one line except those listed: leaving out (or doubling) any of them shows.
struct OddOnesOut(Vec<(usize, Vec<usize>)>);
impl Body for OddOnesOut {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let p: [S; 3] = arr3(x[0]);
        let (n, odd) = &self.0[d[0]];
        let rays: Vec<Ray<WorldFrame, S>> = (0..*n)
            .map(|i| {
                let al = alpha();
                let dir = match odd.iter().position(|o| *o == i) {
                    Some(k) => al[[0, 1, 6][(k + d[1]) % 3]].clone(),
                    None => al[[6, 0, 1][d[1] % 3]].clone(),
                };
                let s = [1.0, -2.0, 5.0, 0.25][i % 4];
                let k = [1.0, -3.0, 0.5][i % 3];
                let o: [S; 3] = std::array::from_fn(|j| S::f(p[j].g() - s * dir[j]));
                let dd: [S; 3] = std::array::from_fn(|j| S::f(dir[j] * k));
                mk(&o, &dd)
            })
            .collect();
        t.state_u("odd", &[*n as u64, odd[0] as u64, odd.len() as u64, d[1] as u64]);
        check(&rays, ex3(&p), t)
    }
}
/// Several cameras look at one world point.
struct Cameras(Vec<Vec<usize>>);
const EYES: [[f64; 3]; 7] = [[10.0, 0.0, 0.0], [0.0, 12.0, 3.0], [-8.0, -8.0, 5.0], [4.0, -3.0, -20.0], [0.0, 0.0, 0.0], [30.0, 40.0, -10.0], [-10.0, 0.5, 0.0]];
impl Body for Cameras {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let p: [S; 3] = arr3(x[0]);
        let mut rays = vec![];
        for &c in &self.0[d[0]] {
            let eye = Vector3::new(S::f(EYES[c][0]), S::f(EYES[c][1]), S::f(EYES[c][2]));
            // looking near, not at, the point; sometimes away from it
            let s = if d[1] == 1 { -1.0 } else { 1.0 };
            let look = Vector3::from_fn(|j, _| S::f(EYES[c][j] + s * (x[0][j] + [0.7, -0.4, 0.2][j] - EYES[c][j])));
            let up = Unit::new_normalize(Vector3::new(S::f(0.1), S::f(0.2), S::f(1.0)));
            t.calls("from_view/world_to_pixel/pixel_to_world/to_single_ray", 4);
            let e = ExtrinsicParameters::from_view(&eye, &look, &up);
            let z = e.world_to_camera(&wpt(&p)).data[(0, 2)].g();
            if z.abs() < 0.5 {
                return skip();
            }
            let ray = if d[2] == 1 && c % 2 == 0 {
                let cam = Camera::new(ortho::<S>(&[80.0, -90.0, 320.0, 240.0]).0, e);
                cam.pixel_to_world(&cam.world_to_pixel(&wpt(&p))).to_single_ray()
            } else {
                let cam = Camera::new(persp::<S>(&[800.0, -900.0, 3.0, 320.0, 240.0]).0, e);
                cam.pixel_to_world(&cam.world_to_pixel(&wpt(&p))).to_single_ray()
            };
            // the ray must pass through the point
            let r = exact(&ray);
            let far = len3(&sub3(ex3(&p), r.0)) + len3(&r.0) + len3(&ex3(&p));
            let dd = dist_to(&r, ex3(&p));
            t.near_f("distance of the back-projected ray from the point", dd.f(), E::x(0.0).widen(8.0 * unit() * far))?;
            rays.push(ray);
        }
        check(&rays, ex3(&p), t)
    }
}
fn multisets(k: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    words(k, lo, hi).into_iter().filter(|w| w.windows(2).all(|p| p[0] <= p[1])).collect()
}
pub fn plan(thorough: bool) -> Plan {
    let pts: Vec<Vec<f64>> = if thorough { centers() } else { centers()[..7].to_vec() };
    let sets = if thorough { words(9, 2, 5) } else { words(9, 2, 4) };
    let cams: Vec<Vec<usize>> = if thorough {
        words(7, 2, 4)
    } else {
        multisets(7, 2, 4)
    };
    let cams: Vec<Vec<usize>> = cams.into_iter().filter(|w| w.iter().collect::<std::collections::HashSet<_>>().len() == w.len()).collect();
    let sz: Vec<usize> = sizes(if thorough { 20000 } else { 2100 }).into_iter().filter(|n| *n >= 2).collect();
    let mut odd = vec![];
    for n in 3..=(if thorough { 72 } else { 36 }) {
        for i in 0..n {
            odd.push((n, vec![i]));
            if thorough {
                for j in i + 1..n {
                    odd.push((n, vec![i, j]));
                }
            }
        }
    }
    for n in [48, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 500, 1000, 1025] {
        for i in [0, 1, n / 3, n / 2, n - 2, n - 1, 7, 8, 15, 16, 31, 32, 33] {
            odd.push((n, vec![i]));
        }
    }
    let s: &[f64] = &[0.0, 1.0, -0.5, 2.0];
    let free: Vec<Vec<f64>> = product(&[s, s, s]).into_iter().filter(|v| v.iter().any(|x| *x != 0.0)).collect();
    Plan {
        sections: vec![
            Section::new("ray-sets", Sets(sets.clone()))
                .group("common point", pts.clone())
                .disc("ordered tuple of directions", sets.len())
                .disc("direction lengths and signs", 4)
                .disc("origin offsets", 4)
                .no_closure(),
            Section::new("free-directions", Free)
                .group("common point", pts.clone())
                .group("direction 1", free.clone())
                .group("direction 2", free),
            Section::new("many-rays", Many(sz.clone())).group("common point", pts[3..6].to_vec()).disc("number of rays", sz.len()).disc("pattern", 2).no_closure(),
            Section::new("odd-ones-out", OddOnesOut(odd.clone())).group("common point", pts[2..6].to_vec()).disc("rays and odd ones", odd.len()).disc("directions", 3).no_closure(),
            Section::new("cameras", Cameras(cams.clone()))
                .group("common point", {
                    let mut p = product(&[&[0.0, 1.0, -2.0], &[0.0, 1.5], &[0.0, -1.0, 3.0]]);
                    p.push(vec![0.01, 0.02, 0.03]);
                    p
                })
                .disc("set of cameras", cams.len())
                .disc("looking away", 2)
                .disc("some orthographic", 2)
                .no_closure(),
        ],
        rule: "a case is non-trivial if the least-squares point differs from all seen before; sets with smallest eigenvalue below 1e-5 per ray (nearly parallel) are outside the domain",
        assumptions: vec!["Nearly parallel: smallest eigenvalue of the mean projector below 1e-5 (an angle of about a quarter of a degree for two rays)."],
    }
}
