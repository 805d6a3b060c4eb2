//! C23: cameras compose any intrinsic model with the pose.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::ray_bundle_types::*;
use cam_geom::*;
use nalgebra::{allocator::Allocator, storage::Storage, Const, DefaultAllocator, Dim, Isometry3, OMatrix, Owned, Translation3, U1, U2, U3};
use std::sync::{Arc, Mutex};

#[derive(Debug, Default)]
struct Seen {
    points: Vec<[f64; 3]>,
    pixels: Vec<[f64; 2]>,
}
/// Records what it is given; answers with bit patterns derived from it.
#[derive(Debug, Clone)]
struct Recorder<S: Sc, const DIR: bool> {
    seen: Arc<Mutex<Seen>>,
    iso: Isometry3<S>,
    id: u32,
    /// which answer: distorted, constant, NaN/infinite in some rows, huge
    answer: usize,
}
impl<S: Sc, const K: bool> PartialEq for Recorder<S, K> {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id && self.iso == o.iso && self.answer == o.answer && Arc::ptr_eq(&self.seen, &o.seen)
    }
}
fn distort(answer: usize, a: f64, b: f64, c: f64) -> [f64; 2] {
    let h = (a.to_bits() ^ b.to_bits().rotate_left(21) ^ c.to_bits().rotate_left(43)) as f64 * 1e-18;
    match answer {
        0 => [a + 0.1 * b * b - c, h],
        1 => [-7.25, 3.5],
        2 => {
            if (h * 8.0) as u64 % 2 == 0 {
                [f64::NAN, a]
            } else {
                [b, f64::NEG_INFINITY]
            }
        }
        _ => [1e30 * h, -0.0],
    }
}
impl<S: Sc, const K: bool> Recorder<S, K> {
    fn data<N: Dim, IN: Storage<S, N, U2>>(&self, px: &Pixels<S, N, IN>) -> OMatrix<S, N, U3>
    where
        DefaultAllocator: Allocator<N, U3>,
    {
        let n = px.data.nrows();
        let mut seen = self.seen.lock().unwrap();
        OMatrix::<S, N, U3>::from_fn_generic(N::from_usize(n), U3, |i, j| {
            let (u, v) = (px.data[(i, 0)].g(), px.data[(i, 1)].g());
            if j == 0 {
                seen.pixels.push([u, v]);
            }
            ray_of::<S>(self.answer, u, v)[j]
        })
    }
}
/// The ray data the model returns for a pixel.
fn ray_of<S: Sc>(answer: usize, u: f64, v: f64) -> [S; 3] {
    let (u, v) = if u.is_finite() && v.is_finite() { (u, v) } else { (1.0, 2.0) };
    let r = [(u * 0.01).sin() + 0.25, 2.0 + (v * 0.02).cos(), 0.75 - 0.001 * (u - v)];
    match answer {
        1 => [0.25, -2.0, 1.5],
        2 => [-r[2], r[0] * 3.0, r[1]],
        3 => [r[0] * 40.0, -r[1] * 0.125, r[2]],
        _ => r,
    }
    .map(S::f)
}
macro_rules! model {
    ($d:literal, $b:ident, $new:ident) => {
        impl<S: Sc> IntrinsicParameters<S> for Recorder<S, $d> {
            type BundleType = $b<S>;
            fn pixel_to_camera<IN, N>(&self, px: &Pixels<S, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, S, N, Owned<S, N, U3>>
            where
                IN: Storage<S, N, U2>,
                N: Dim,
                DefaultAllocator: Allocator<U1, U2> + Allocator<N, U2> + Allocator<N, U3>,
            {
                $b::$new().to_pose(self.iso, &self.data(px))
            }
            fn camera_to_pixel<IN, N>(&self, p: &Points<CameraFrame, S, N, IN>) -> Pixels<S, N, Owned<S, N, U2>>
            where
                IN: Storage<S, N, U3>,
                N: Dim,
                DefaultAllocator: Allocator<N, U2>,
            {
                let n = p.data.nrows();
                let mut seen = self.seen.lock().unwrap();
                Pixels::new(OMatrix::<S, N, U2>::from_fn_generic(N::from_usize(n), U2, |i, j| {
                    let r = get3(&p.data, i).map(|x| x.g());
                    if j == 0 {
                        seen.points.push(r);
                    }
                    S::f(distort(self.answer, r[0], r[1], r[2])[j])
                }))
            }
        }
    };
}
model!(false, SharedOriginRayBundle, new_shared_zero_origin);
model!(true, SharedDirectionRayBundle, new_plusz_shared_direction);

fn frame<S: Sc>(k: usize) -> Isometry3<S> {
    // the rays of a model need not start at the camera center or point along +Z
    let q = [vec![1.0, 0.0, 0.0, 0.0], vec![1.0, 0.0, 0.0, 0.0], rots_few()[5].clone()][k].clone();
    let t = [[0.0; 3], [0.5, -0.25, 1.5], [-1.0, 2.0, 0.25]][k];
    let uq = quat::<S>(&q).0;
    Isometry3::from_parts(Translation3::new(S::f(t[0]), S::f(t[1]), S::f(t[2])), uq)
}
fn rows3(n: usize, seed: usize) -> Vec<[f64; 3]> {
    (0..n).map(|i| [lcg(i, seed) * 3.0 + 1.0, lcg(i, seed + 1) * 2.0 - 5.0, lcg(i, seed + 2) * 5.0]).collect()
}
fn rows2(n: usize, seed: usize) -> Vec<[f64; 2]> {
    (0..n).map(|i| [lcg(i, seed + 3) * 400.0, lcg(i, seed + 4) * 300.0]).collect()
}
fn bits_eq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn go<S: Sc, N: Dim, S3: Storage<S, N, U3>, S2: Storage<S, N, U2>, const K: bool>(q: &[f64], c: &[f64], rec: Recorder<S, K>, w: nalgebra::Matrix<S, N, U3, S3>, px: nalgebra::Matrix<S, N, U2, S2>, t: &mut Trace) -> Res
where
    Recorder<S, K>: IntrinsicParameters<S>,
    <Recorder<S, K> as IntrinsicParameters<S>>::BundleType: Bundle<S> + serde::Serialize + Clone + PartialEq,
    DefaultAllocator: Allocator<N, U3> + Allocator<N, U2> + Allocator<U1, U2>,
{
    let (e, pose) = ext::<S>(q, c);
    let seen = rec.seen.clone();
    let n = w.nrows();
    t.call("Camera::new");
    let cam = Camera::new(rec.clone(), e.clone());
    t.yes(*cam.intrinsics() == rec && *cam.extrinsics() == e, || "the camera does not return the parameters it was built from".into())?;
    let wr: Vec<[S; 3]> = (0..n).map(|i| get3(&w, i)).collect();
    let pr: Vec<[S; 2]> = (0..n).map(|i| get2(&px, i)).collect();
    // world to pixel
    t.call("world_to_pixel");
    let out = cam.world_to_pixel(&Points::new(w));
    {
        let s = seen.lock().unwrap();
        t.yes(s.points.len() == n && s.pixels.is_empty(), || format!("{n} points: the model was given {} points and {} pixels", s.points.len(), s.pixels.len()))?;
        t.yes(out.data.nrows() == n, || format!("{} pixels for {n} points", out.data.nrows()))?;
        for i in 0..n {
            if wr[i].iter().all(|x| x.g().is_finite()) {
                let want = pose.apply(ex3(&wr[i]));
                t.state("camera-frame point", &want);
                t.near3(&format!("coordinates of point {i} of {n} given to the model"), s.points[i].map(S::f), want)?;
            }
            let a = s.points[i];
            let ans = distort(rec.answer, a[0], a[1], a[2]);
            for j in 0..2 {
                let (g, m) = (out.data[(i, j)].g(), S::f(ans[j]).g());
                t.yes(bits_eq(g, m), || format!("pixel {i} of {n}: camera returned {g:e}, the model {m:e}"))?;
            }
        }
    }
    *seen.lock().unwrap() = Seen::default();
    // pixel to world
    t.call("pixel_to_world");
    let rays = cam.pixel_to_world(&Pixels::new(px));
    {
        let s = seen.lock().unwrap();
        t.yes(s.pixels.len() == n && s.points.is_empty(), || format!("{n} pixels: the model was given {} pixels and {} points", s.pixels.len(), s.points.len()))?;
        for i in 0..n {
            for j in 0..2 {
                t.yes(bits_eq(s.pixels[i][j], pr[i][j].g()), || format!("pixel {i} of {n}: the model was given {:e} for {:e}", s.pixels[i][j], pr[i][j].g()))?;
            }
        }
    }
    // the model's rays, moved by the pose: judged through points at several distances
    let (ri, rt) = (qmodel(&rec.iso.rotation), [0, 1, 2].map(|k| E::x(rec.iso.translation.vector[k].g())));
    let inner = Pose::from_quat_trans(&ri, rt);
    t.yes(rays.data.nrows() == n, || format!("{} rays for {n} pixels", rays.data.nrows()))?;
    for dist in [0.0, 1.0, -2.5] {
        t.call("point_on_ray_at_distance");
        let got = rays.point_on_ray_at_distance(S::f(dist));
        for i in 0..n {
            let r = ex3(&ray_of::<S>(rec.answer, pr[i][0].g(), pr[i][1].g()));
            let zero = [E::x(0.0); 3];
            let z = [E::x(0.0), E::x(0.0), E::x(1.0)];
            // origin and direction in the model's frame, then in the camera frame, then in the world
            let (o, d) = if K { (r, z) } else { (zero, r) };
            let p = add3(o, scale3(unit3(d), E::x(S::f(dist).g())));
            let wantp = pose.inverse().apply(inner.apply(p));
            // rounding of the intermediate bundle
            let slack = 64.0 * unit() * (len3(&o) + dist.abs() + len3(&rt) + len3(&pose.c) + 1.0);
            t.near3(&format!("ray {i} of {n} at distance {dist}"), get3(&got.data, i), widen3(wantp, slack))?;
        }
    }
    t.yes(*cam.intrinsics() == rec && *cam.extrinsics() == e, || "the parameters changed".into())
}
const NS: [usize; 9] = [1, 2, 3, 4, 5, 8, 17, 33, 64];
struct Compose {
    sizes: Vec<usize>,
}
impl Body for Compose {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        // d: rows, storage, bundle kind, frame, answer
        let n = self.sizes[d[0]];
        let mut w: Vec<[S; 3]> = rows3(n, d[4]).iter().map(|r| arr3(r)).collect();
        let mut px: Vec<[S; 2]> = rows2(n, d[4]).iter().map(|r| r.map(S::f)).collect();
        for i in 0..n {
            match d[5] {
                0 => {}
                1 => {
                    let m = [1e-6, 1e7, -1e3, 1e-2, -1e9, 1e4, -1e-4][(i + n + d[4]) % 7];
                    w[i] = w[i].map(|v| S::f(v.g() * m));
                    px[i] = px[i].map(|v| S::f(v.g() * [1e3, 1e-5, -10.0, 1.0, -1e6][(i + d[4]) % 5]));
                }
                _ => {
                    // on the axes, at the origin, behind; at the camera center
                    let a = [[0.0, 0.0, 0.0], [0.0, 0.0, 5.0], [0.0, 0.0, -5.0], [2.0, 0.0, 0.0], [0.0, -3.0, 0.0], [1.0, 1.0, 1.0], [-40.0, 30.0, -100.0], [x[1][0], x[1][1], x[1][2]], [x[1][0], x[1][1], x[1][2] - 4.0]];
                    w[i] = arr3(&a[(i + n + d[4]) % 9]);
                    let a = [[0.0, 0.0], [320.0, 240.0], [-1.0, 0.0], [0.0, 0.5], [639.0, 479.0], [-5000.0, 7000.0], [0.5, -0.5]];
                    px[i] = a[(i + n + d[4]) % 7].map(S::f);
                }
            }
        }
        if d[4] == 3 && n > 1 {
            w[n / 2] = [S::f(f64::NAN), S::f(1.0), S::f(f64::INFINITY)];
            px[n / 2] = [S::f(f64::NAN), S::f(-0.0)];
        }
        t.state_u("model and batch", &[n as u64, d[1] as u64, d[2] as u64, d[3] as u64, d[4] as u64, d[5] as u64]);
        macro_rules! rec {
            ($k:literal, $w:expr, $p:expr) => {
                go(x[0], x[1], Recorder::<S, $k> { seen: Default::default(), iso: frame(d[3]), id: n as u32 + 7, answer: d[4] }, $w, $p, t)
            };
        }
        macro_rules! both {
            ($w:expr, $p:expr) => {
                if d[2] == 0 {
                    rec!(false, $w, $p)
                } else {
                    rec!(true, $w, $p)
                }
            };
        }
        macro_rules! stat {
            ($($n:literal)*) => { match n {
                $($n => both!(OMatrix::<S, Const<$n>, U3>::from_fn(|i, j| w[i][j]), OMatrix::<S, Const<$n>, U2>::from_fn(|i, j| px[i][j])),)*
                _ => skip(),
            }};
        }
        match d[1] {
            0 => stat!(1 2 3 4 5 8 17 33 64),
            1 => both!(dyn3(&w), dyn2(&px)),
            _ => {
                // every second row of a larger matrix
                let wm = Mat3D::<S>::from_fn(2 * n + 1, |i, j| if i % 2 == 0 { S::f(-555.0) } else { w[i / 2][j] });
                let pm = Mat2D::<S>::from_fn(2 * n + 1, |i, j| if i % 2 == 0 { S::f(-555.0) } else { px[i / 2][j] });
                both!(wm.rows_with_step(1, n, 1), pm.rows_with_step(1, n, 1))
            }
        }
    }
}
/// Two points and two pixels as inputs, so that boundary closure can move them.
struct Free;
impl Body for Free {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let w = nalgebra::SMatrix::<S, 2, 3>::from_fn(|i, j| S::f(if i == 1 { x[2][j] } else { [1.0, -2.0, 3.0][j] }));
        let px = nalgebra::SMatrix::<S, 2, 2>::from_fn(|i, j| S::f(if i == 0 { x[3][j] } else { [20.0, -30.0][j] }));
        if d[0] == 0 {
            go(x[0], x[1], Recorder::<S, false> { seen: Default::default(), iso: frame(d[1]), id: 3, answer: 0 }, w, px, t)
        } else {
            go(x[0], x[1], Recorder::<S, true> { seen: Default::default(), iso: frame(d[1]), id: 3, answer: 0 }, w, px, t)
        }
    }
}
pub fn plan(thorough: bool) -> Plan {
    let mut sizes: Vec<usize> = NS.to_vec();
    sizes.extend(if thorough { vec![0, 6, 7, 16, 31, 32, 100, 257, 1000, 5000] } else { vec![0, 7, 32, 100] });
    let n = sizes.len();
    Plan {
        sections: vec![Section::new("custom-models", Compose { sizes })
            .group("rotation wijk", if thorough { rots_mid() } else { rots_few() })
            .group("center", if thorough { centers() } else { centers_few() })
            .disc("rows", n)
            .disc("storage", 3)
            .disc("bundle kind", 2)
            .disc("frame of the model's rays", 3)
            .disc("answers", 4)
            .disc("magnitudes", 3)
            .no_closure(),
            Section::new("free-points", Free)
            .group("rotation wijk", rots_few())
            .group("center", centers_few())
            .group("point", product(&[&[0.0, 1.0, -250.0], &[0.0, -1e-3, 7.5], &[0.0, 2.0, -3.0, 4e6]]))
            .group("pixel", product(&[&[0.0, 0.5, -1e5], &[0.0, 240.25]]))
            .disc("bundle kind", 2).disc("frame of the model's rays", 2)],
        rule: "a state is a camera-frame point handed to the model, or a choice of model, bundle kind, ray frame and batch shape",
        assumptions: vec!["The model is free to be called once or several times; the rows it is given, in order, are what counts."],
    }
}
