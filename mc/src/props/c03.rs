//! C03: pixel -> ray -> point -> pixel, along every path of conversions.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;
use nalgebra::{Owned, U1, U3};

/// Conversions. Px -> RC | RW, RC -> RW, R* -> P* by several derivations, PC <-> PW, P* -> Px.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    PixelToCamera,
    PixelToWorld,
    RayToWorld,
    OnRay,
    AtDist(usize),
    Single(usize),
    CentersDirs(usize),
    ToWorld,
    ToCamera,
    CamToPixel,
    WorldToPixel,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Px,
    Rc,
    Rw,
    Pc,
    Pw,
}
fn next(k: K) -> Vec<(Op, K)> {
    use Op::*;
    let derive = |p: K| {
        let mut v = vec![(OnRay, p)];
        v.extend((0..DIST.len()).map(|i| (AtDist(i), p)));
        v.extend((0..SCALE.len()).map(|i| (Single(i), p)));
        v.extend((0..SCALE.len()).map(|i| (CentersDirs(i), p)));
        v
    };
    match k {
        K::Px => vec![(PixelToCamera, K::Rc), (PixelToWorld, K::Rw)],
        K::Rc => {
            let mut v = derive(K::Pc);
            v.push((RayToWorld, K::Rw));
            v
        }
        K::Rw => derive(K::Pw),
        K::Pc => vec![(ToWorld, K::Pw), (CamToPixel, K::Px)],
        K::Pw => vec![(ToCamera, K::Pc), (WorldToPixel, K::Px)],
    }
}
const DIST: &[f64] = &[0.5, -2.0, 7.0, 2000.0, 1e-2];
const SCALE: &[f64] = &[1.0, -3.0, 40.0];
/// Every conversion path from a pixel back to a pixel with at most `len` steps and at most `rounds` pixels.
pub fn paths(len: usize, rounds: usize) -> Vec<Vec<Op>> {
    fn go(k: K, p: &mut Vec<Op>, left: usize, rounds: usize, out: &mut Vec<Vec<Op>>) {
        for (op, n) in next(k) {
            if left == 0 {
                return;
            }
            p.push(op);
            if n == K::Px {
                out.push(p.clone());
                if rounds > 1 {
                    go(n, p, left - 1, rounds - 1, out)
                }
            } else {
                go(n, p, left - 1, rounds, out)
            }
            p.pop();
        }
    }
    let mut out = vec![];
    go(K::Px, &mut vec![], len, rounds, &mut out);
    out
}

type Rb<S, F, B> = RayBundle<F, B, S, U1, Owned<S, U1, U3>>;
enum St<S: Sc, B: Bundle<S>> {
    Px([S; 2]),
    Rc(Rb<S, CameraFrame, B>),
    Rw(Rb<S, WorldFrame, B>),
    Pc([S; 3], f64),
    Pw([S; 3], f64),
}
/// What the model knows about a back-projected pixel.
struct Line {
    persp: bool,
    /// pixel error that rounding in the back-projection formula may cause
    back: [f64; 2],
}

fn derive<S: Sc, F: CoordinateSystem, B: Bundle<S>>(rb: &Rb<S, F, B>, op: Op, t: &mut Trace) -> Option<([S; 3], f64)> {
    let c = get3(&rb.centers(), 0);
    let lc = len3(&ex3(&c));
    Some(match op {
        Op::OnRay => {
            t.call("point_on_ray");
            let p = get3(&rb.point_on_ray().data, 0);
            (p, lc + len3(&ex3(&p)))
        }
        Op::AtDist(i) => {
            t.call("point_on_ray_at_distance");
            let p = get3(&rb.point_on_ray_at_distance(S::f(DIST[i])).data, 0);
            (p, lc + DIST[i].abs())
        }
        Op::Single(i) => {
            t.call("to_single_ray");
            let r = rb.to_single_ray();
            let p: [S; 3] = std::array::from_fn(|j| r.center[j] + S::f(SCALE[i]) * r.direction[j]);
            (p, lc + len3(&ex3(&p)))
        }
        Op::CentersDirs(i) => {
            t.call("centers");
            t.call("directions");
            let d = rb.directions();
            let p: [S; 3] = std::array::from_fn(|j| c[j] + S::f(SCALE[i]) * d[(0, j)]);
            (p, lc + len3(&ex3(&p)))
        }
        _ => return None,
    })
}
#[allow(clippy::too_many_arguments)]
fn run_path<S: Sc, I: IntrinsicParameters<S>>(
    i: &I,
    e: &ExtrinsicParameters<S>,
    pose: &Pose,
    line: &Line,
    project: &dyn Fn(V3) -> [E; 2],
    px: [S; 2],
    path: &[Op],
    t: &mut Trace,
) -> Res
where
    I::BundleType: Bundle<S>,
{
    let cam = Camera::new(i.clone(), e.clone());
    let mut st: St<S, I::BundleType> = St::Px(px);
    let mut acc = [0.0f64; 2]; // accumulated pixel error over earlier rounds
    let mut cam_pt_model: V3 = [E::default(); 3];
    for (n, op) in path.iter().enumerate() {
        let at = |f: Fail| suffix(f, &format!("after {:?}", &path[..=n]));
        st = match (st, *op) {
            (St::Px(p), Op::PixelToCamera) => {
                t.call("pixel_to_camera");
                St::Rc(i.pixel_to_camera(&px1(p)))
            }
            (St::Px(p), Op::PixelToWorld) => {
                t.call("pixel_to_world");
                St::Rw(cam.pixel_to_world(&px1(p)))
            }
            (St::Rc(r), Op::RayToWorld) => {
                t.call("ray_camera_to_world");
                St::Rw(e.ray_camera_to_world(&r))
            }
            (St::Rc(r), op) => {
                let (p, m) = derive(&r, op, t).unwrap();
                // side of the camera / origin
                let c = get3(&r.centers(), 0);
                if line.persp {
                    t.near3("origin of a perspective ray in the camera frame", c, v3(&[0.0; 3])).map_err(at)?;
                    if let Op::AtDist(k) = op {
                        let z = p[2].g();
                        t.yes(!(z * DIST[k] <= 0.0), || format!("distance {} gives depth {z:e}", DIST[k])).map_err(at)?;
                    }
                } else {
                    t.near("depth of an orthographic ray's origin", c[2], E::x(0.0)).map_err(at)?;
                    let d = get3(&r.directions(), 0);
                    t.yes(d[2].g() > 0.0, || format!("direction {d:?} is not the viewing direction")).map_err(at)?;
                    t.near("direction x", d[0], E::x(0.0)).map_err(at)?;
                    t.near("direction y", d[1], E::x(0.0)).map_err(at)?;
                }
                St::Pc(p, m)
            }
            (St::Rw(r), op) => {
                let (p, m) = derive(&r, op, t).unwrap();
                let c = get3(&r.centers(), 0);
                if line.persp {
                    t.near3("origin of a perspective ray in the world frame", c, widen3(pose.c, pose.inverse().t[0].e + unit() * len3(&pose.c))).map_err(at)?;
                    if let Op::AtDist(k) = op {
                        let z = pose.apply(ex3(&p))[2];
                        t.yes(!(z.f() * DIST[k].signum() < -(z.e + unit() * m * 4.0)), || format!("distance {} gives depth {:e}", DIST[k], z.f()))
                            .map_err(at)?;
                    }
                } else {
                    let o = pose.apply(ex3(&c));
                    t.near_f("depth of an orthographic ray's origin", o[2].f(), E::x(0.0).widen(o[2].e + unit() * 4.0 * (len3(&ex3(&c)) + len3(&pose.c)))).map_err(at)?;
                    let d = get3(&r.directions(), 0);
                    let dc = pose.apply_vec(ex3(&d));
                    let l = len3(&dc);
                    t.yes(dc[2].f() > 0.0, || format!("direction {d:?} is not the viewing direction")).map_err(at)?;
                    t.near_f("direction x", dc[0].f(), E::x(0.0).widen(4.0 * unit() * l + dc[0].e)).map_err(at)?;
                    t.near_f("direction y", dc[1].f(), E::x(0.0).widen(4.0 * unit() * l + dc[1].e)).map_err(at)?;
                }
                St::Pw(p, m)
            }
            (St::Pc(p, m), Op::ToWorld) => {
                t.call("camera_to_world");
                let w = get3(&e.camera_to_world(&cpt(&p)).data, 0);
                St::Pw(w, m + len3(&ex3(&p)) + 2.0 * len3(&pose.c))
            }
            (St::Pw(p, m), Op::ToCamera) => {
                t.call("world_to_camera");
                let c = get3(&e.world_to_camera(&wpt(&p)).data, 0);
                St::Pc(c, m + len3(&ex3(&p)) + 2.0 * len3(&pose.c))
            }
            (St::Pc(p, m), Op::CamToPixel) => {
                t.call("camera_to_pixel");
                let got = get2(&i.camera_to_pixel(&cpt(&p)).data, 0);
                cam_pt_model = widen3(ex3(&p), 2.0 * unit() * m);
                St::Px(got)
            }
            (St::Pw(p, m), Op::WorldToPixel) => {
                t.call("world_to_pixel");
                let got = get2(&cam.world_to_pixel(&wpt(&p)).data, 0);
                cam_pt_model = widen3(pose.apply(ex3(&p)), 2.0 * unit() * m);
                St::Px(got)
            }
            _ => unreachable!(),
        };
        if let St::Px(got) = &st {
            // Given the rounding of the point, the model's pixel is uncertain by w.e; both the
            // model's and the library's pixel must agree with the pixel we started from.
            let w = project(cam_pt_model);
            for j in 0..2 {
                let uv = [px[0].g(), px[1].g()][j];
                let want = E::x(uv).widen(w[j].e + acc[j] + 2.0 * line.back[j] + 8.0 * unit() * uv.abs());
                if !(want.e <= t.ill_abs * uv.abs().max(1.0)) {
                    // rounding alone may have moved the pixel anywhere
                    t.ill += 1;
                    return Ok(());
                }
                t.near(["u", "v"][j], got[j], want).map_err(at)?;
                acc[j] = want.e;
            }
        }
    }
    Ok(())
}
struct PerspPath(Vec<Vec<Op>>);
impl Body for PerspPath {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let (i, k) = persp::<S>(x[2]);
        if k[0] == 0.0 || k[1] == 0.0 {
            return skip();
        }
        let px = [S::f(x[3][0]), S::f(x[3][1])];
        let uv = [E::x(px[0].g()), E::x(px[1].g())];
        let dir = backproject_persp(&k, uv);
        // pixel error caused by rounding in the back-projection
        let back = project_persp(&k, dir);
        let line = Line { persp: true, back: [back[0].e, back[1].e] };
        t.state("ray", &dir);
        run_path(&i, &e, &pose, &line, &|p| project_persp(&k, p), px, &self.0[d[0]], t)
    }
}
struct OrthoPath(Vec<Vec<Op>>);
impl Body for OrthoPath {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let (i, k) = ortho::<S>(x[2]);
        if k[0] == 0.0 || k[1] == 0.0 {
            return skip();
        }
        let px = [S::f(x[3][0]), S::f(x[3][1])];
        let uv = [E::x(px[0].g()), E::x(px[1].g())];
        let o = backproject_ortho(&k, uv);
        let back = project_ortho(&k, o);
        let line = Line { persp: false, back: [back[0].e, back[1].e] };
        t.state("ray", &o);
        run_path(&i, &e, &pose, &line, &|p| project_ortho(&k, p), px, &self.0[d[0]], t)
    }
}
/// Batches: row i of a back-projected batch, dynamic and static.
struct Batch(Vec<usize>);
impl Body for Batch {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let (ip, kp) = persp::<S>(x[2]);
        let (io, ko) = ortho::<S>(x[3]);
        let n = self.0[d[0]];
        let rows: Vec<[S; 2]> = (0..n).map(|i| [S::f(lcg(i, 0) * 900.0 + 50.0), S::f(lcg(i, 1) * 700.0)]).collect();
        let px = Pixels::new(dyn2(&rows));
        let dist = S::f([1.5, -4.0][d[1]]);
        let w = Camera::new(ip.clone(), e.clone()).pixel_to_world(&px);
        let pts = w.point_on_ray_at_distance(dist).data;
        let back = Camera::new(ip.clone(), e.clone()).world_to_pixel(&w.point_on_ray_at_distance(dist)).data;
        let wo = Camera::new(io.clone(), e.clone()).pixel_to_world(&px);
        let ptso = wo.point_on_ray_at_distance(dist).data;
        let backo = Camera::new(io.clone(), e.clone()).world_to_pixel(&wo.point_on_ray_at_distance(dist)).data;
        t.calls("pixel_to_world/point_on_ray_at_distance/world_to_pixel", 8);
        t.yes(back.nrows() == n && backo.nrows() == n && pts.nrows() == n && ptso.nrows() == n, || "row count".into())?;
        for i in 0..n {
            let slack = unit() * 8.0 * (len3(&pose.c) + dist.g().abs());
            let m = project_persp(&kp, widen3(pose.apply(ex3(&get3(&pts, i))), slack));
            let mo = project_ortho(&ko, widen3(pose.apply(ex3(&get3(&ptso, i))), slack + unit() * 8.0 * len3(&ex3(&get3(&ptso, i)))));
            let uv = [E::x(rows[i][0].g()), E::x(rows[i][1].g())];
            let bp = project_persp(&kp, backproject_persp(&kp, uv));
            let bo = project_ortho(&ko, backproject_ortho(&ko, uv));
            for j in 0..2 {
                t.near("perspective pixel", back[(i, j)], uv[j].widen(m[j].e + bp[j].e * 2.0)).map_err(|f| suffix(f, &format!("row {i} of {n}")))?;
                t.near("orthographic pixel", backo[(i, j)], uv[j].widen(mo[j].e + bo[j].e * 2.0)).map_err(|f| suffix(f, &format!("row {i} of {n}")))?;
            }
            let z = pose.apply(ex3(&get3(&pts, i)))[2].f();
            t.yes(z * dist.g() > 0.0, || format!("row {i} of {n}: depth {z:e} at distance {}", dist.g()))?;
        }
        t.state_u("batch", &[n as u64, d[1] as u64]);
        Ok(())
    }
}
pub fn plan(thorough: bool) -> Plan {
    let ps = if thorough { paths(8, 2) } else { paths(6, 1) };
    let pix = if thorough {
        product(&[&[0.0, 640.0, -25.5, 1.0, 321.0, 5000.0], &[0.0, 480.0, 999.25, -1.0, 239.9]])
    } else {
        product(&[&[0.0, 640.0, -25.5], &[480.0, 999.25, -1.0]])
    };
    let pix1 = product(&[&[0.0, 1.0, -25.5, 640.0, 321.0, 5000.0, 100.0, 1e5], &[0.0, 480.0, 999.25, -1.0, 239.9, 200.0]]);
    let n = ps.len();
    let (r, c) = if thorough { (rots_few(), centers_few()) } else { (rots_few()[3..7].to_vec(), centers_few()[..4].to_vec()) };
    let short = paths(4, 1);
    let ns = short.len();
    let sz = sizes(if thorough { 10000 } else { 1100 });
    Plan {
        sections: vec![
            Section::new("perspective-paths", PerspPath(ps.clone()))
                .group("rotation wijk", r.clone())
                .group("center", c.clone())
                .group("fx fy skew cx cy", kpersp_few())
                .group("pixel", pix.clone())
                .disc("path", n)
                .no_closure(),
            Section::new("orthographic-paths", OrthoPath(ps))
                .group("rotation wijk", r)
                .group("center", c)
                .group("sx sy cx cy", kortho_few())
                .group("pixel", pix)
                .disc("path", n)
                .no_closure(),
            Section::new("perspective-pixels", PerspPath(short.clone()))
                .group("rotation wijk", rots_few()[3..6].to_vec())
                .group("center", centers_few()[1..3].to_vec())
                .group("fx fy skew cx cy", kpersp())
                .group("pixel", pix1.clone())
                .disc("path", ns),
            Section::new("orthographic-pixels", OrthoPath(short))
                .group("rotation wijk", rots_few()[3..6].to_vec())
                .group("center", centers_few()[1..3].to_vec())
                .group("sx sy cx cy", kortho())
                .group("pixel", pix1)
                .disc("path", ns),
            Section::new("batches", Batch(sz.clone()))
                .group("rotation wijk", rots_few()[4..6].to_vec())
                .group("center", centers_few()[2..3].to_vec())
                .group("fx fy skew cx cy", vec![kpersp()[2].clone()])
                .group("sx sy cx cy", vec![kortho()[4].clone()])
                .disc("number of pixels", sz.len())
                .disc("distance", 2)
                .no_closure(),
        ],
        rule: "a case is non-trivial if the model ray differs from all rays seen before; every path is a distinct sequence of conversions",
        assumptions: vec![],
    }
}
