//! Every public operation over a fixed lattice of inputs.
use super::Out;
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use core::fmt::Write;
use nalgebra::{convert, try_convert, Isometry3, Point3, Quaternion, RealField, SMatrix, Translation3, Unit, UnitQuaternion, Vector3};

pub trait Real: RealField + Copy {}
impl<T: RealField + Copy> Real for T {}
fn f<R: Real>(x: f64) -> R {
    convert(x)
}
fn g<R: Real>(x: R) -> f64 {
    try_convert::<R, f64>(x).unwrap_or(f64::NAN)
}
struct Emit<'a> {
    out: &'a mut Out,
    case: usize,
}
impl Emit<'_> {
    fn m<R: Real, const A: usize, const B: usize>(&mut self, op: u32, m: &SMatrix<R, A, B>) {
        self.s(op, m.as_slice())
    }
    fn s<R: Real>(&mut self, op: u32, m: &[R]) {
        let mut v = [0.0; 64];
        for (a, b) in v.iter_mut().zip(m) {
            *a = g(*b);
        }
        self.out.record(self.case, op, &v[..m.len().min(64)])
    }
    fn u(&mut self, op: u32, x: f64) {
        self.out.record(self.case, op, &[x])
    }
    fn pose<R: Real>(&mut self, op: u32, e: &ExtrinsicParameters<R>) {
        self.s(op, e.camcenter().coords.as_slice());
        let q = e.pose().rotation.coords;
        // q and -q are the same rotation
        let k = (0..4).fold(0, |k, i| if g(q[i]).abs() > g(q[k]).abs() { i } else { k });
        let s = if g(q[k]) < 0.0 { -1.0 } else { 1.0 };
        self.s(op + 1, (q * f::<R>(s)).as_slice());
        self.s(op + 2, e.pose().translation.vector.as_slice());
        self.m(op + 3, e.matrix());
        self.m(op + 4, e.rotation().matrix());
        self.s(op + 5, e.translation().coords.as_slice());
        self.s(op + 6, e.forward().as_slice());
        self.s(op + 7, e.up().as_slice());
        self.s(op + 8, e.right().as_slice());
    }
    fn persp<R: Real>(&mut self, op: u32, i: &IntrinsicParametersPerspective<R>) {
        self.s(op, &[i.fx(), i.fy(), i.skew(), i.cx(), i.cy()]);
        let p = i.params();
        self.s(op + 1, &[p.fx, p.fy, p.skew, p.cx, p.cy]);
    }
    fn err(&mut self, op: u32, e: &Error) {
        self.u(
            op,
            match e {
                Error::InvalidInput => 1.0,
                Error::SvdFailed => 2.0,
                Error::MinimumTwoRaysNeeded => 3.0,
                Error::InvalidRotationMatrix => 4.0,
                _ => 5.0,
            },
        )
    }
    fn bundle<R: Real, F: CoordinateSystem, B: Bundle<R>, const N: usize>(&mut self, op: u32, b: &RayBundle<F, B, R, nalgebra::Const<N>, nalgebra::ArrayStorage<R, N, 3>>) {
        self.m(op, &b.data);
        self.m(op + 1, &b.directions());
        self.m(op + 2, &b.centers());
        // which point this is is not defined; it lies on the ray, and is judged by its projection
        self.m(op + 3, &b.point_on_ray_at_distance(f(0.0)).data);
        self.m(op + 4, &b.point_on_ray_at_distance(f(2.5)).data);
        self.m(op + 5, &b.point_on_ray_at_distance(f(-1.0)).data);
    }
}
/// Counts characters; Debug must be there in every configuration.
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
fn shows(x: &dyn core::fmt::Debug) -> f64 {
    let mut s = Sink(0);
    let ok = write!(s, "{x:?}").is_ok();
    (ok && s.0 > 0) as u8 as f64
}
fn same<T: Clone + PartialEq>(x: &T, y: &T) -> f64 {
    let c = x.clone();
    (c == *x) as u8 as f64 + 2.0 * (c == *y) as u8 as f64
}
const Q: [[f64; 4]; 14] = [
    [1.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 0.0, 0.0],
    [0.0, 0.0, 1.0, 0.0],
    [0.0, 0.0, 0.0, 1.0],
    [0.5, 0.5, 0.5, 0.5],
    [0.5, -0.5, 0.5, 0.5],
    [0.3, 0.5, -0.7, 0.2],
    [-0.9, 0.1, 0.2, -0.3],
    [0.7071067811865476, 0.7071067811865476, 0.0, 0.0],
    [0.7071067811865476, 0.0, -0.7071067811865476, 0.0],
    [0.999, 0.001, 0.0, 0.04],
    [1e-3, 0.8, 0.6, 1e-3],
    [0.1, 0.2, 0.3, 0.4],
    [-0.6, 0.0, 0.8, 0.0],
];
const C: [[f64; 3]; 8] = [[0.0, 0.0, 0.0], [1.25, -2.5, 3.75], [0.0, 0.0, -10.0], [100.0, 200.0, -300.0], [1e-3, 2e-3, -1e-3], [-7.0, 0.5, 1.0], [1e4, -3.0, 0.25], [-1.0, -1.0, -1.0]];
const K: [[f64; 5]; 9] = [
    [1.0, 1.0, 0.0, 0.0, 0.0],
    [100.0, 120.5, 0.0, 320.0, 240.0],
    [100.0, 120.5, 0.25, 320.0, 240.0],
    [-50.0, 60.0, -1.5, 0.1, 511.75],
    [1500.0, 1400.0, 3.0, -20.0, 1000.0],
    [2.0, 0.5, 0.0, 0.0, 1.0],
    [800.0, -800.0, 0.0, 512.0, 512.0],
    [1e-2, 1e-2, 1e-4, 0.0, 0.0],
    [1000.0, 1000.0, -40.0, 640.0, 480.0],
];
/// Camera-frame points, every depth away from zero.
fn cam_point(i: usize) -> [f64; 3] {
    [[0.0, 0.0, 1.0], [1.0, -2.0, 4.0], [-0.5, 0.25, 2.0], [3.0, 1.0, -5.0], [0.01, -0.02, 0.25], [40.0, 90.0, 100.0], [-2.0, -1.0, 1.5], [0.0, 1.0, 8.0]][i % 8]
}
fn lcg(i: usize, j: usize) -> f64 {
    let x = (i as u64 * 2862933555777941757 + j as u64 * 3037000493 + 12345).wrapping_mul(6364136223846793005);
    ((x >> 40) as f64) / (1u64 << 23) as f64 - 1.0
}
fn uq<R: Real>(q: [f64; 4]) -> UnitQuaternion<R> {
    UnitQuaternion::new_normalize(Quaternion::new(f(q[0]), f(q[1]), f(q[2]), f(q[3])))
}
pub fn all(level: usize, out: &mut Out) {
    let (nq, nc, nk, ns) = [(8, 5, 5, 2), (14, 8, 9, 8)][level.min(1)];
    let mut case = 0;
    for q in &Q[..nq] {
        for c in &C[..nc] {
            for k in &K[..nk] {
                for s in 0..ns {
                    one::<f64>(Emit { out, case }, q, c, k, s);
                    one::<f32>(Emit { out, case: case + 1 }, q, c, k, s);
                    case += 2;
                }
            }
        }
    }
}
fn one<R: Real>(mut e: Emit, q: &[f64; 4], c: &[f64; 3], k: &[f64; 5], s: usize) {
    let rot = uq::<R>(*q);
    let center = Point3::new(f::<R>(c[0]), f(c[1]), f(c[2]));
    let x = ExtrinsicParameters::from_rotation_and_camcenter(rot, center);
    e.pose(100, &x);
    let iso = Isometry3::from_parts(Translation3::new(f::<R>(c[1]), f(c[2]), f(c[0] + 0.5)), rot);
    let y = ExtrinsicParameters::from_pose(&iso);
    e.pose(110, &y);
    let look = Vector3::new(f::<R>(c[0] + 3.0), f(c[1] - 1.0), f(c[2] + 0.5 * (s as f64 + 1.0)));
    e.pose(120, &ExtrinsicParameters::from_view(&center.coords, &look, &Unit::new_normalize(Vector3::new(f::<R>(0.0), f(0.2), f(1.0)))));
    e.u(130, shows(&x));
    e.u(131, same(&x, &y));

    let cam_pts = SMatrix::<R, 4, 3>::from_fn(|i, j| f(cam_point(i + 4 * s)[j]));
    let world = x.camera_to_world(&Points::new(cam_pts));
    e.m(140, &world.data);
    e.m(141, &x.world_to_camera(&world).data);
    let one_w = Points::<WorldFrame, _, _, _>::new(world.data.fixed_rows::<1>(s % 4).into_owned());
    e.m(142, &x.world_to_camera(&one_w).data);

    let pp: IntrinsicParametersPerspective<R> = PerspectiveParams { fx: f(k[0]), fy: f(k[1]), skew: f(k[2]), cx: f(k[3]), cy: f(k[4]) }.into();
    let po: IntrinsicParametersOrthographic<R> = OrthographicParams { sx: f(k[0]), sy: f(k[1]), cx: f(k[3]), cy: f(k[4]) }.into();
    e.persp(150, &pp);
    e.u(152, shows(&pp) + shows(&po));
    let pp2: IntrinsicParametersPerspective<R> = PerspectiveParams { fx: f(k[0]), fy: f(k[1]), skew: f(k[2] + 1.0), cx: f(k[3]), cy: f(k[4]) }.into();
    let po2: IntrinsicParametersOrthographic<R> = OrthographicParams { sx: f(k[0]), sy: f(-k[1]), cx: f(k[3]), cy: f(k[4]) }.into();
    e.u(153, same(&pp, &pp2) + 10.0 * same(&po, &po2));
    let px = SMatrix::<R, 3, 2>::from_fn(|i, j| f(k[3 + j] + k[j] * (lcg(i, j + 5 * s) * 2.0)));
    let px1 = Pixels::new(px.fixed_rows::<1>(s % 3).into_owned());
    let px = Pixels::new(px);
    e.m(160, &pp.camera_to_pixel(&Points::new(cam_pts)).data);
    let b = pp.pixel_to_camera(&px);
    e.bundle(170, &b);
    e.m(161, &pp.camera_to_pixel(&b.point_on_ray()).data);
    e.m(162, &po.camera_to_pixel(&Points::new(cam_pts)).data);
    let b = po.pixel_to_camera(&px);
    e.bundle(180, &b);
    e.m(163, &po.camera_to_pixel(&b.point_on_ray()).data);
    e.u(164, shows(&b) + same(&b, &po.pixel_to_camera(&Pixels::new(px.data * f::<R>(2.0)))));

    let cp = Camera::new(pp.clone(), x.clone());
    let co = Camera::new(po.clone(), x.clone());
    e.u(200, shows(&cp) + shows(&co));
    e.u(201, same(&cp, &Camera::new(pp2, x.clone())) + 10.0 * same(&co, &Camera::new(po2, y.clone())));
    e.m(202, &cp.world_to_pixel(&world).data);
    e.m(203, &co.world_to_pixel(&world).data);
    e.m(204, &cp.world_to_pixel(&one_w).data);
    let b = cp.pixel_to_world(&px);
    e.bundle(210, &b);
    e.m(205, &cp.world_to_pixel(&b.point_on_ray()).data);
    let b = co.pixel_to_world(&px);
    e.bundle(220, &b);
    e.m(206, &co.world_to_pixel(&b.point_on_ray()).data);
    let r1 = cp.pixel_to_world(&px1).to_single_ray();
    let r2 = co.pixel_to_world(&px1).to_single_ray();
    e.m(230, &r1.center);
    e.m(231, &r1.direction);
    e.m(232, &r2.center);
    e.m(233, &r2.direction);
    e.persp(235, cp.intrinsics());
    e.pose(240, co.extrinsics());

    let pm = cp.as_camera_matrix();
    e.m(250, &pm);
    match Camera::from_perspective_matrix(&pm) {
        Ok(c) => {
            e.persp(251, c.intrinsics());
            e.pose(260, c.extrinsics());
        }
        Err(x) => e.err(253, &x),
    }
    match Camera::from_perspective_matrix(&(pm * f::<R>(-3.0))) {
        Ok(c) => e.m(254, &c.as_camera_matrix()),
        Err(x) => e.err(253, &x),
    }
    let z = f::<R>(0.0);
    let n = SMatrix::<R, 3, 4>::new(f(k[0]), f(k[2]), f(k[3]), z, z, f(k[1]), f(k[4]), z, z, z, f(1.0), z);
    for cell in [None, Some((1, 0)), Some((2, 2)), Some((0, 3)), Some((2, 1))] {
        let mut m = n;
        if let Some(c) = cell {
            m[c] = f(0.5);
        }
        match IntrinsicParametersPerspective::from_normalized_3x4_matrix(m) {
            Ok(i) => e.persp(270, &i),
            Err(x) => e.err(272, &x),
        }
    }
    for bad in [0.0, f64::NAN, f64::INFINITY] {
        match Camera::from_perspective_matrix(&SMatrix::<R, 3, 4>::from_element(f(bad))) {
            Ok(_) => e.u(273, 0.0),
            Err(x) => e.err(273, &x),
        }
    }
    let lin = JacobianPerspectiveCache::new(&cp);
    for i in 0..4 {
        let p = Points::new(world.data.fixed_rows::<1>(i).into_owned());
        e.m(280, &lin.linearize_at(&p));
    }
    let d = SMatrix::<R, 2, 3>::from_fn(|i, j| f(lcg(i + 3, j + 7 * s) * 4.0 + 0.125));
    let zo = RayBundle::<CameraFrame, SharedOriginRayBundle<R>, _, _, _>::new_shared_zero_origin(d);
    let pz = RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, _, _, _>::new_shared_plusz_direction(d);
    e.bundle(290, &zo);
    e.bundle(300, &pz);
    e.bundle(310, &x.ray_camera_to_world(&zo));
    e.bundle(320, &x.ray_camera_to_world(&pz));
    // along the axes, and of very different lengths
    let ax = SMatrix::<R, 7, 3>::from_fn(|i, j| f(if i == 6 { lcg(s, j) * 1e-3 } else if i / 2 == j { [2.5, -0.75][i % 2] } else { 0.0 }));
    let zo = RayBundle::<CameraFrame, SharedOriginRayBundle<R>, _, _, _>::new_shared_zero_origin(ax);
    let pz = RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, _, _, _>::new_shared_plusz_direction(ax * f::<R>(1e3));
    e.bundle(340, &zo);
    e.bundle(350, &pz);
    e.bundle(360, &x.ray_camera_to_world(&zo));
    e.bundle(370, &x.ray_camera_to_world(&pz));
    e.m(330, &Bundle::<R>::directions(&SharedOriginRayBundle::<R>::new_shared_zero_origin(), &d));
    e.m(331, &Bundle::<R>::centers(&SharedDirectionRayBundle::<R>::new_plusz_shared_direction(), &d));
    #[cfg(feature = "alloc")]
    {
        use alloc::vec::Vec;
        use nalgebra::{Dyn, OMatrix, U2, U3};
        let pd = OMatrix::<R, Dyn, U3>::from_fn(5, |i, j| f(cam_point(i + s)[j]));
        let xd = OMatrix::<R, Dyn, U2>::from_fn(5, |i, j| f(k[3 + j] + k[j] * lcg(i, j + s)));
        let w = x.camera_to_world(&Points::new(pd));
        e.s(400, w.data.as_slice());
        e.s(401, x.world_to_camera(&w).data.as_slice());
        e.s(402, cp.world_to_pixel(&w).data.as_slice());
        e.s(403, co.world_to_pixel(&w).data.as_slice());
        let xd = Pixels::new(xd);
        let (a, b) = (cp.pixel_to_world(&xd), co.pixel_to_world(&xd));
        e.s(404, a.data.as_slice());
        e.s(405, b.data.as_slice());
        e.s(406, a.point_on_ray_at_distance(f(1.5)).data.as_slice());
        e.s(407, b.point_on_ray_at_distance(f(-1.5)).data.as_slice());
        let target = [c[0] + 1.0, c[1] - 2.0, c[2] + 0.5];
        let rays: Vec<Ray<WorldFrame, R>> = (0..4)
            .map(|i| {
                let o = SMatrix::<R, 1, 3>::from_fn(|_, j| f(target[j] + 3.0 * lcg(i + 2, j)));
                Ray::new(o, SMatrix::<R, 1, 3>::from_fn(|_, j| f::<R>(target[j] + 0.01 * lcg(i, j + 11 * s)) - o[j]))
            })
            .collect();
        for n in [0, 1, 2, 3, 4] {
            match best_intersection_of_rays(&rays[..n]) {
                Ok(p) => e.m(410, &p.data),
                Err(x) => e.err(411, &x),
            }
        }
        let zero = [Ray::<WorldFrame, R>::new(SMatrix::zeros(), SMatrix::zeros()), Ray::new(SMatrix::zeros(), SMatrix::zeros())];
        match best_intersection_of_rays(&zero) {
            Ok(_) => e.u(412, 0.0),
            Err(x) => e.err(412, &x),
        }
    }
    #[cfg(feature = "std")]
    {
        intrinsic_test_utils::roundtrip_intrinsics(&po, 9, 7, 2, 1, f(1e-2));
        e.u(500, shows(&Error::InvalidInput) + shows(&world));
        let shown = std::format!("{}", Error::SvdFailed);
        e.u(501, shown.len() as f64);
    }
}
