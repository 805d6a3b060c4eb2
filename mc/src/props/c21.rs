//! C21: statically sized geometry never allocates.
use super::Plan;
use crate::alloc;
use crate::common::*;
use crate::engine::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use nalgebra::{Const, DimName, Isometry3, OMatrix, Point3, SMatrix, Translation3, Unit, UnitQuaternion, Vector3, U2, U3};
use std::hint::black_box;

/// Run one operation and require that it does not allocate.
macro_rules! quiet {
    ($t:ident, $what:expr, $e:expr) => {{
        let before = alloc::count();
        let r = black_box($e);
        let n = alloc::count() - before;
        $t.call($what);
        $t.compared += 1;
        if n != 0 {
            return bad(format!("{} allocated {n} times", $what));
        }
        r
    }};
}
/// Constructors and everything that works on one object.
fn objects<S: Sc>(q: &[f64], c: &[f64], k: &[f64], t: &mut Trace) -> Result<(ExtrinsicParameters<S>, IntrinsicParametersPerspective<S>, IntrinsicParametersOrthographic<S>), Fail> {
    let uq = UnitQuaternion::new_unchecked(nalgebra::Quaternion::new(S::f(q[0]), S::f(q[1]), S::f(q[2]), S::f(q[3])));
    let cc = Point3::new(S::f(c[0]), S::f(c[1]), S::f(c[2]));
    let e = quiet!(t, "from_rotation_and_camcenter", ExtrinsicParameters::from_rotation_and_camcenter(uq, cc));
    quiet!(t, "from_pose", ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::from(cc.coords), uq)));
    let up = Unit::new_unchecked(Vector3::new(S::f(q[1]), S::f(q[2]), S::f(q[3])));
    quiet!(t, "from_view", ExtrinsicParameters::from_view(&cc.coords, &Vector3::new(S::f(k[0]), S::f(k[1]), S::f(k[2])), &up));
    quiet!(t, "camcenter", *e.camcenter());
    quiet!(t, "pose", *e.pose());
    quiet!(t, "matrix", *e.matrix());
    quiet!(t, "rotation", *e.rotation());
    quiet!(t, "translation", *e.translation());
    quiet!(t, "forward", e.forward());
    quiet!(t, "up", e.up());
    quiet!(t, "right", e.right());
    let p: IntrinsicParametersPerspective<S> = quiet!(t, "perspective intrinsics from parameters", PerspectiveParams { fx: S::f(k[0]), fy: S::f(k[1]), skew: S::f(k[2]), cx: S::f(k[3]), cy: S::f(k[4]) }.into());
    let o: IntrinsicParametersOrthographic<S> = quiet!(t, "orthographic intrinsics from parameters", OrthographicParams { sx: S::f(k[0]), sy: S::f(k[1]), cx: S::f(k[2]), cy: S::f(k[3]) }.into());
    quiet!(t, "fx", p.fx());
    quiet!(t, "fy", p.fy());
    quiet!(t, "skew", p.skew());
    quiet!(t, "cx", p.cx());
    quiet!(t, "cy", p.cy());
    let cam = quiet!(t, "Camera::new", Camera::new(p.clone(), e.clone()));
    quiet!(t, "Camera::new", Camera::new(o.clone(), e.clone()));
    let m = quiet!(t, "as_camera_matrix", cam.as_camera_matrix());
    let _ = quiet!(t, "from_perspective_matrix", Camera::from_perspective_matrix(&m).is_ok());
    let _ = quiet!(t, "from_perspective_matrix", Camera::from_perspective_matrix(&(m * S::f(-0.5))).is_ok());
    let raw = SMatrix::<S, 3, 4>::from_fn(|i, j| S::f([q[j], k[j], if j < 3 { c[j] } else { 1.0 }][i]));
    let _ = quiet!(t, "from_perspective_matrix", Camera::from_perspective_matrix(&raw).is_ok());
    let _ = quiet!(t, "from_perspective_matrix", Camera::from_perspective_matrix(&raw.fixed_rows::<3>(0)).is_ok());
    let z = S::f(0.0);
    let nm = SMatrix::<S, 3, 4>::new(S::f(k[0]), S::f(k[2]), S::f(k[3]), z, z, S::f(k[1]), S::f(k[4]), z, z, z, S::f(1.0), z);
    let _ = quiet!(t, "from_normalized_3x4_matrix", IntrinsicParametersPerspective::from_normalized_3x4_matrix(nm).is_ok());
    let _ = quiet!(t, "from_normalized_3x4_matrix", IntrinsicParametersPerspective::from_normalized_3x4_matrix(raw).is_ok());
    let l = quiet!(t, "JacobianPerspectiveCache::new", JacobianPerspectiveCache::new(&cam));
    for x in [[0.0, 0.0, 0.0], [q[1], k[2], c[0]], [k[0], k[3], q[0]]] {
        quiet!(t, "linearize_at", l.linearize_at(&wpt(&arr3::<S>(&x))));
    }
    Ok((e, p, o))
}
fn batch<S: Sc, const N: usize>(e: &ExtrinsicParameters<S>, p: &IntrinsicParametersPerspective<S>, o: &IntrinsicParametersOrthographic<S>, val: &[f64], kind: usize, t: &mut Trace) -> Res
where
    Const<N>: DimName,
{
    let cell = |i: usize, j: usize| match kind {
        // regular values
        0 => S::f(lcg(i, j) * 3.0 + val[j % val.len()]),
        // the special values everywhere
        1 => S::f(val[(i * 2 + j) % val.len()]),
        // a special value in the last row
        _ => {
            if i + 1 == N {
                S::f(val[j % val.len()])
            } else {
                S::f(lcg(i, j) + 2.0)
            }
        }
    };
    let w: OMatrix<S, Const<N>, U3> = OMatrix::from_fn_generic(Const::<N>, U3, cell);
    let x: OMatrix<S, Const<N>, U2> = OMatrix::from_fn_generic(Const::<N>, U2, cell);
    let pc = Camera::new(p.clone(), e.clone());
    let oc = Camera::new(o.clone(), e.clone());
    let world = quiet!(t, "Points::new", Points::<WorldFrame, _, _, _>::new(w));
    let camp = Points::<CameraFrame, _, _, _>::new(w);
    let px = quiet!(t, "Pixels::new", Pixels::new(x));
    quiet!(t, "world_to_camera", e.world_to_camera(&world));
    quiet!(t, "camera_to_world", e.camera_to_world(&camp));
    quiet!(t, "camera_to_pixel (perspective)", p.camera_to_pixel(&camp));
    quiet!(t, "camera_to_pixel (orthographic)", o.camera_to_pixel(&camp));
    quiet!(t, "world_to_pixel (perspective)", pc.world_to_pixel(&world));
    quiet!(t, "world_to_pixel (orthographic)", oc.world_to_pixel(&world));
    macro_rules! bundle {
        ($what:literal, $b:expr) => {{
            let b = quiet!(t, $what, $b);
            quiet!(t, concat!($what, ", point_on_ray"), b.point_on_ray());
            quiet!(t, concat!($what, ", point_on_ray_at_distance"), b.point_on_ray_at_distance(S::f(val[0])));
            quiet!(t, concat!($what, ", centers"), b.centers());
            quiet!(t, concat!($what, ", directions"), b.directions());
            b
        }};
    }
    let b = bundle!("pixel_to_camera (perspective)", p.pixel_to_camera(&px));
    bundle!("ray_camera_to_world (perspective)", e.ray_camera_to_world(&b));
    let b = bundle!("pixel_to_camera (orthographic)", o.pixel_to_camera(&px));
    bundle!("ray_camera_to_world (orthographic)", e.ray_camera_to_world(&b));
    bundle!("pixel_to_world (perspective)", pc.pixel_to_world(&px));
    bundle!("pixel_to_world (orthographic)", oc.pixel_to_world(&px));
    bundle!("new_shared_zero_origin", RayBundle::<WorldFrame, _, _, _, _>::new_shared_zero_origin(w));
    bundle!("new_shared_plusz_direction", RayBundle::<WorldFrame, _, _, _, _>::new_shared_plusz_direction(w));
    // views of static size
    let v = w.rows(0, N);
    let fixed = w.fixed_rows::<N>(0);
    let _ = v;
    quiet!(t, "world_to_pixel of a view", pc.world_to_pixel(&Points::new(fixed)));
    quiet!(t, "pixel_to_world of a view", oc.pixel_to_world(&Pixels::new(x.fixed_rows::<N>(0))));
    if N == 1 {
        let one = Pixels::new(SMatrix::<S, 1, 2>::new(x[0], x[1]));
        let r = pc.pixel_to_world(&one);
        quiet!(t, "to_single_ray (perspective)", r.to_single_ray());
        let r = oc.pixel_to_world(&one);
        quiet!(t, "to_single_ray (orthographic)", r.to_single_ray());
        quiet!(t, "Ray::new", Ray::<WorldFrame, S>::new(row3(&[S::f(val[0]); 3]), row3(&[S::f(1.0); 3])));
    }
    Ok(())
}
pub const SIZES: [usize; 21] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65, 128, 300];
struct Static;
impl Body for Static {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, p, o) = objects::<S>(x[0], x[1], x[2], t)?;
        t.state_u("objects, rows, values", &[SIZES[d[0]] as u64, d[1] as u64, x[0][1].to_bits(), x[1][0].to_bits(), x[2][0].to_bits(), x[3][0].to_bits(), x[3][1].to_bits()]);
        macro_rules! b {
            ($($n:literal)*) => { match SIZES[d[0]] { $($n => batch::<S, $n>(&e, &p, &o, x[3], d[1], t),)* _ => unreachable!() } };
        }
        b!(1 2 3 4 5 6 7 8 9 10 12 15 16 17 31 32 33 64 65 128 300)
    }
}
pub fn plan(thorough: bool) -> Plan {
    let (nan, inf) = (f64::NAN, f64::INFINITY);
    let vals = vec![
        vec![1.5, -2.0, 0.25],
        vec![0.0, 0.0, 0.0],
        vec![nan, nan, nan],
        vec![inf, 1.0, -inf],
        vec![1.0, nan, 2.0],
        vec![1e300, 1e-300, -1e300],
        vec![-0.0, 1.0, 0.0],
        vec![2.0, 3.0, nan],
    ];
    let mut q = rots_few();
    q.extend([vec![0.0; 4], vec![nan, 0.0, 0.0, 1.0], vec![inf, -inf, 0.0, 1.0], vec![2.0, 3.0, 4.0, 5.0]]);
    let mut c = centers_few();
    c.extend([vec![nan, 0.0, 0.0], vec![inf, 1.0, -inf], vec![1e300, 1e300, -1e300]]);
    let mut k = if thorough { kpersp() } else { kpersp_few() };
    k.extend([vec![0.0; 5], vec![nan, 1.0, 1.0, nan, 0.0], vec![inf, -inf, 0.0, 1.0, inf], vec![1e-300, 1e300, 1.0, 0.0, 0.0]]);
    let pick = |v: &Vec<Vec<f64>>, ix: &[usize]| -> Vec<Vec<f64>> { ix.iter().map(|i| v[*i].clone()).collect() };
    let (q2, c2) = if thorough { (q.clone(), c.clone()) } else { (pick(&q, &[0, 5, 9, 10, 12]), pick(&c, &[0, 2, 5, 6])) };
    Plan {
        sections: vec![Section::new("static-sizes", Static)
            .group("rotation wijk", q2)
            .group("center", c2)
            .group("fx fy skew cx cy", k)
            .group("values", vals)
            .disc("rows", SIZES.len())
            .disc("where the values are", 3)
            .no_closure()],
        rule: "a state is a choice of object parameters (including zero, NaN, infinite and huge ones), static row count and batch values",
        assumptions: vec!["Allocations are counted by the global allocator of the harness, per thread, around every single operation, built with optimisation."],
    }
}
