//! Building library values and the matching reference-model values from case rows.
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use cam_geom::*;
use nalgebra::{Dyn, Isometry3, OMatrix, Point3, Quaternion, SMatrix, Translation3, UnitQuaternion, Vector3, U2, U3};

pub type Mat3D<S> = OMatrix<S, Dyn, U3>;
pub type Mat2D<S> = OMatrix<S, Dyn, U2>;

/// Unit quaternion from a (w,i,j,k) row, and its exact components.
pub fn quat<S: Sc>(r: &[f64]) -> (UnitQuaternion<S>, [E; 4]) {
    let q = UnitQuaternion::new_normalize(Quaternion::new(S::f(r[0]), S::f(r[1]), S::f(r[2]), S::f(r[3])));
    let m = qmodel(&q);
    (q, m)
}
pub fn qmodel<S: Sc>(q: &UnitQuaternion<S>) -> [E; 4] {
    let c = q.coords; // i j k w
    [E::x(c[3].g()), E::x(c[0].g()), E::x(c[1].g()), E::x(c[2].g())]
}
pub fn arr3<S: Sc>(r: &[f64]) -> [S; 3] {
    [S::f(r[0]), S::f(r[1]), S::f(r[2])]
}
/// The exact values of scalars.
pub fn ex3<S: Sc>(a: &[S; 3]) -> V3 {
    [E::x(a[0].g()), E::x(a[1].g()), E::x(a[2].g())]
}
pub fn ext<S: Sc>(q: &[f64], c: &[f64]) -> (ExtrinsicParameters<S>, Pose) {
    let (uq, qm) = quat::<S>(q);
    let c = arr3::<S>(c);
    let e = ExtrinsicParameters::from_rotation_and_camcenter(uq, Point3::new(c[0], c[1], c[2]));
    (e, Pose::from_quat_center(&qm, ex3(&c)))
}
/// An isometry with rotation q and translation t.
pub fn iso<S: Sc>(q: &[f64], t: &[f64]) -> (Isometry3<S>, Pose) {
    let (uq, qm) = quat::<S>(q);
    let t = arr3::<S>(t);
    (
        Isometry3::from_parts(Translation3::new(t[0], t[1], t[2]), uq),
        Pose::from_quat_trans(&qm, ex3(&t)),
    )
}
pub fn persp<S: Sc>(k: &[f64]) -> (IntrinsicParametersPerspective<S>, Kp) {
    let k: [S; 5] = std::array::from_fn(|i| S::f(k[i]));
    (
        PerspectiveParams { fx: k[0], fy: k[1], skew: k[2], cx: k[3], cy: k[4] }.into(),
        std::array::from_fn(|i| k[i].g()),
    )
}
pub fn ortho<S: Sc>(k: &[f64]) -> (IntrinsicParametersOrthographic<S>, Ko) {
    let k: [S; 4] = std::array::from_fn(|i| S::f(k[i]));
    (
        OrthographicParams { sx: k[0], sy: k[1], cx: k[2], cy: k[3] }.into(),
        std::array::from_fn(|i| k[i].g()),
    )
}
pub fn row3<S: Sc>(a: &[S; 3]) -> SMatrix<S, 1, 3> {
    SMatrix::<S, 1, 3>::new(a[0], a[1], a[2])
}
pub fn wpt<S: Sc>(a: &[S; 3]) -> Points<WorldFrame, S, nalgebra::U1, nalgebra::Owned<S, nalgebra::U1, U3>> {
    Points::new(row3(a))
}
pub fn cpt<S: Sc>(a: &[S; 3]) -> Points<CameraFrame, S, nalgebra::U1, nalgebra::Owned<S, nalgebra::U1, U3>> {
    Points::new(row3(a))
}
pub fn px1<S: Sc>(a: [S; 2]) -> Pixels<S, nalgebra::U1, nalgebra::Owned<S, nalgebra::U1, U2>> {
    Pixels::new(SMatrix::<S, 1, 2>::new(a[0], a[1]))
}
pub fn get3<S: Sc, N: nalgebra::Dim, St: nalgebra::storage::Storage<S, N, U3>>(
    m: &nalgebra::Matrix<S, N, U3, St>,
    i: usize,
) -> [S; 3] {
    [m[(i, 0)], m[(i, 1)], m[(i, 2)]]
}
pub fn get2<S: Sc, N: nalgebra::Dim, St: nalgebra::storage::Storage<S, N, U2>>(
    m: &nalgebra::Matrix<S, N, U2, St>,
    i: usize,
) -> [S; 2] {
    [m[(i, 0)], m[(i, 1)]]
}
pub fn vec3<S: Sc>(v: &Vector3<S>) -> [S; 3] {
    [v[0], v[1], v[2]]
}
/// World point that has (about) the given camera-frame coordinates.
pub fn world_of<S: Sc>(pose: &Pose, cam: &[f64]) -> [S; 3] {
    let p = add3(mul3(&tr3(&pose.r), v3(cam)), pose.c);
    [S::f(p[0].f()), S::f(p[1].f()), S::f(p[2].f())]
}
pub fn widen3(v: V3, by: f64) -> V3 {
    [v[0].widen(by), v[1].widen(by), v[2].widen(by)]
}
pub fn len3(v: &V3) -> f64 {
    (v[0].f().powi(2) + v[1].f().powi(2) + v[2].f().powi(2)).sqrt()
}
pub fn dyn3<S: Sc>(rows: &[[S; 3]]) -> Mat3D<S> {
    Mat3D::from_fn(rows.len(), |i, j| rows[i][j])
}
pub fn dyn2<S: Sc>(rows: &[[S; 2]]) -> Mat2D<S> {
    Mat2D::from_fn(rows.len(), |i, j| rows[i][j])
}
/// All words over 0..k of length lo..=hi.
pub fn words(k: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for l in 0..=hi {
        if l >= lo {
            out.extend(layer.iter().cloned());
        }
        layer = layer
            .iter()
            .flat_map(|w| {
                (0..k).map(move |i| {
                    let mut w = w.clone();
                    w.push(i);
                    w
                })
            })
            .collect();
    }
    out
}
/// All rows obtained from independent choices per column.
pub fn product(cols: &[&[f64]]) -> Vec<Vec<f64>> {
    let mut out = vec![vec![]];
    for c in cols {
        out = out
            .into_iter()
            .flat_map(|r: Vec<f64>| {
                c.iter().map(move |v| {
                    let mut r = r.clone();
                    r.push(*v);
                    r
                })
            })
            .collect();
    }
    out
}

use crate::tok::{self, Tok};
use cam_geom::ray_bundle_types::*;
/// Replace the floats of a serialized value, in order.
pub fn with_floats(t: &Tok, v: &mut dyn Iterator<Item = Tok>) -> Tok {
    match t {
        Tok::F32(_) | Tok::F64(_) => v.next().unwrap(),
        Tok::Seq(s) => Tok::Seq(s.iter().map(|t| with_floats(t, v)).collect()),
        Tok::Struct(s) => Tok::Struct(s.iter().map(|(n, t)| (n.clone(), with_floats(t, v))).collect()),
        t => t.clone(),
    }
}
/// A shared-origin bundle type with any origin, through its serialized form.
pub fn origin_type<S: Sc>(c: &[S; 3]) -> SharedOriginRayBundle<S> {
    let t = tok::to_tok(&SharedOriginRayBundle::<S>::new_shared_zero_origin()).unwrap();
    tok::build(&with_floats(&t, &mut c.iter().map(|x| tok::to_tok(x).unwrap())))
}
/// A shared-direction bundle type with any direction, through its serialized form.
pub fn direction_type<S: Sc>(d: &[S; 3]) -> SharedDirectionRayBundle<S> {
    let t = tok::to_tok(&SharedDirectionRayBundle::<S>::new_plusz_shared_direction()).unwrap();
    tok::build(&with_floats(&t, &mut d.iter().map(|x| tok::to_tok(x).unwrap())))
}

/// Only so that the harness compiles without this function; the checks of it are left out then.
#[cfg(not(feature = "alloc"))]
pub fn best_intersection_of_rays<C, S: Sc>(_: &[cam_geom::Ray<C, S>]) -> Result<cam_geom::Points<C, S, nalgebra::U1, nalgebra::Owned<S, nalgebra::U1, nalgebra::U3>>, cam_geom::Error>
where
    C: cam_geom::CoordinateSystem,
{
    Err(cam_geom::Error::SvdFailed)
}
