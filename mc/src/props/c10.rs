//! C10: least-squares intersection, for every listing of the rays.
use super::lsq::*;
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;
use nalgebra::{Point3, Vector3};

fn check<S: Sc>(rays: &[Ray<WorldFrame, S>], t: &mut Trace) -> Result<Option<([S; 3], V3)>, Fail> {
    let ex: Vec<RayE> = rays.iter().map(exact).collect();
    let l = lsq(&ex);
    let parallel = {
        // exactly parallel as given
        let d0 = ex[0].1;
        ex.iter().all(|r| cross3(d0, r.1).iter().all(|c| c.f() == 0.0))
    };
    let sol = l.solve();
    if sol.is_none() && !parallel {
        return skip();
    }
    t.call("best_intersection_of_rays");
    let got = match best_intersection_of_rays(rays) {
        Ok(g) => get3(&g.data, 0),
        Err(e) => return bad(format!("error {}", err_name(&e))),
    };
    let x = ex3(&got);
    t.yes(got.iter().all(|v| v.g().is_finite()), || format!("result {got:?}"))?;
    // first-order condition: necessary and sufficient for the minimum of a convex quadratic
    let (g, tol) = (l.gradient(x), l.gradient_tol(x));
    t.yes(g <= tol, || format!("gradient of the sum of squared distances at the result {got:?} is {g:e} (allowed {tol:e})"))?;
    match sol {
        Some(s) => {
            t.state("least squares", &s);
            for j in 0..3 {
                t.near("intersection vs least squares", got[j], s[j])?;
            }
            Ok(Some((got, s)))
        }
        None => {
            t.state("parallel", &[x[0], x[1], x[2]]);
            Ok(None)
        }
    }
}
fn alpha() -> Vec<[f64; 6]> {
    let o = [[0.0, 0.0, 0.0], [1.0, -2.0, 0.5], [-30.0, 4.0, 10.0], [0.25, 3.0, -7.0]];
    let d = [[1.0, 0.0, 0.0], [0.0, 0.0, -1.0], [1.0, 2.0, 2.0], [-3.0, 4.0, 0.0], [0.3, -0.2, -5.0], [-2.0, -4.0, -4.0]];
    let mut v = vec![];
    for o in o {
        for d in d {
            v.push([o[0], o[1], o[2], d[0], d[1], d[2]]);
        }
    }
    v
}
const SC: [[f64; 5]; 4] = [[1.0; 5], [-1.0, 1.0, -1.0, -1.0, 1.0], [2.0, -0.25, 1024.0, 1.0, -8.0], [0.0009765625, 64.0, -0.5, -2.0, 4.0]];
struct Tuples {
    set: Vec<Vec<usize>>,
    al: Vec<[f64; 6]>,
}
impl Body for Tuples {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let q = x[0];
        let rays = |k: usize| -> Vec<Ray<WorldFrame, S>> {
            self.set[d[0]]
                .iter()
                .enumerate()
                .map(|(i, a)| {
                    let r = &self.al[*a];
                    mk(&arr3(&r[..3]), &std::array::from_fn(|j| S::f(r[3 + j] * SC[k][i % 5])))
                })
                .collect()
        };
        let base = rays(0);
        let Some((got, sol)) = check(&base, t)? else { return Ok(()) };
        // rescaled and reversed directions
        for k in 1..4 {
            if let Some((g2, s2)) = check(&rays(k), t)? {
                for j in 0..3 {
                    t.near("intersection after rescaling directions", g2[j], E::x(got[j].g()).widen(2.0 * (sol[j].e + s2[j].e)))?;
                }
            }
        }
        // moved rays
        let (m, mp) = iso::<S>(q, x[1]);
        let moved: Vec<Ray<WorldFrame, S>> = base
            .iter()
            .map(|r| {
                let c = m.transform_point(&Point3::new(r.center[0], r.center[1], r.center[2]));
                let v = m.transform_vector(&Vector3::new(r.direction[0], r.direction[1], r.direction[2]));
                mk(&[c[0], c[1], c[2]], &[v[0], v[1], v[2]])
            })
            .collect();
        if let Some((g2, s2)) = check(&moved, t)? {
            let w = mp.apply(ex3(&got));
            let e = |v: &V3| v[0].e.max(v[1].e).max(v[2].e);
            // moved origins and directions are rounded: perturbation of the normal equations
            let l = lsq(&base.iter().map(exact).collect::<Vec<_>>());
            let k = l.n as f64 / l.lmin;
            let amp = 16.0 * unit() * k * (l.scale + len3(&sol) + len3(&mp.t)) + 4.0 * (e(&sol) + e(&s2));
            for j in 0..3 {
                t.near("intersection of moved rays", g2[j], w[j].widen(amp))?;
            }
        }
        Ok(())
    }
}
/// Rays as inputs.
struct Free;
impl Body for Free {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let mut rays: Vec<Ray<WorldFrame, S>> = vec![];
        for r in [x[0], x[1], &[0.5, 1.0, -2.0, 0.0, 1.0, 0.25][..]].iter().take(2 + d[0]) {
            if r[3..].iter().map(|v| v * v).sum::<f64>() < 1e-12 {
                return skip();
            }
            rays.push(mk(&arr3(&r[..3]), &arr3(&r[3..])));
        }
        check(&rays, t).map(|_| ())
    }
}
struct Many(Vec<usize>);
impl Body for Many {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let n = self.0[d[0]];
        let f = |i: usize| -> Ray<WorldFrame, S> {
            let dir: [S; 3] = match d[1] {
                0 => std::array::from_fn(|j| S::f(lcg(i, j))),
                1 => std::array::from_fn(|j| S::f([1.0, -2.0, 0.5][j] * [1.0, -2.0, 4.0][i % 3])),
                _ => std::array::from_fn(|j| S::f(lcg(i % 2, j))),
            };
            mk(&std::array::from_fn(|j| S::f(lcg(i, j + 3) * 10.0)), &dir)
        };
        let rays: Vec<_> = (0..n).map(f).collect();
        t.state_u("many", &[n as u64, d[1] as u64]);
        let a = check(&rays, t)?;
        let rev: Vec<_> = (0..n).rev().map(f).collect();
        let b = check(&rev, t)?;
        if let (Some((g, s)), Some((h, _))) = (a, b) {
            for j in 0..3 {
                t.near("intersection of the reversed list", h[j], E::x(g[j].g()).widen(2.0 * s[j].e))?;
            }
        }
        Ok(())
    }
}
pub fn plan(thorough: bool) -> Plan {
    let al = alpha();
    let n = al.len();
    let mut set = words(n, 2, 3);
    let small: Vec<[f64; 6]> = al.iter().step_by(2).cloned().collect();
    let four = words(small.len(), 4, 4);
    let mut secs = vec![];
    if !thorough {
        set.retain(|w| w.len() < 3 || w[0] <= w[2] || (w[0] + w[1] + w[2]) % 3 == 0);
    }
    let q = vec![vec![0.3, 0.5, -0.7, 0.2], vec![0.0, 1.0, 2.0, 2.0]];
    let tr = vec![vec![3.0, -10.0, 0.5]];
    secs.push(
        Section::new("ray-tuples", Tuples { set: set.clone(), al: al.clone() })
            .group("motion rotation", q.clone())
            .group("motion translation", tr.clone())
            .disc("ordered tuple of rays", set.len())
            .no_closure(),
    );
    secs.push(
        Section::new("ray-quadruples", Tuples { set: four.clone(), al: small })
            .group("motion rotation", q[..1].to_vec())
            .group("motion translation", tr)
            .disc("ordered tuple of rays", four.len())
            .no_closure(),
    );
    let mut fr: Vec<Vec<f64>> = alpha().iter().map(|r| r.to_vec()).collect();
    fr.extend(product(&[&[0.0, 1.0], &[2.0, -1.0], &[0.0, 5.0], &[0.0, 1.0, -2.0], &[1.0, -0.5], &[0.0, 3.0]]));
    if thorough {
        fr.extend(product(&[&[0.0, 100.0], &[-1.0], &[0.0, 0.5], &[0.0, 1.0, -2.0, 0.1], &[1.0, 0.0, -5.0], &[0.0, 3.0, 1.0]]));
        fr.retain(|r| r[3..].iter().any(|v| *v != 0.0));
    }
    secs.push(Section::new("free-rays", Free).group("ray 1", fr.clone()).group("ray 2", fr).disc("third ray", 2));
    let sz: Vec<usize> = sizes(if thorough { 20000 } else { 2100 }).into_iter().filter(|n| *n >= 2).collect();
    secs.push(Section::new("many-rays", Many(sz.clone())).disc("number of rays", sz.len()).disc("pattern", 3).no_closure());
    Plan {
        sections: secs,
        rule: "a case is non-trivial if the least-squares point (or, for parallel rays, the returned point) differs from all seen before; nearly parallel but not exactly parallel sets are outside the domain",
        assumptions: vec!["Nearly parallel: smallest eigenvalue of the mean projector below 1e-5."],
    }
}
