//! C18: serialization round trips in every presentation of the data.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::scalar::Sc;
use crate::tables::*;
use crate::tok::{self, from_tok, to_tok, Keys, Pres, Tok, KEYS, PLAIN};
use cam_geom::ray_bundle_types::*;
use cam_geom::*;
use nalgebra::{storage::Storage, DefaultAllocator, Dim, Dyn, OMatrix, Owned, SMatrix, Vector3, U1, U2, U3};
use serde::{de::DeserializeOwned, Serialize};

type Fp = Vec<f64>;
fn push<S: Sc, N: Dim, C: Dim, St: nalgebra::RawStorage<S, N, C>>(o: &mut Fp, m: &nalgebra::Matrix<S, N, C, St>) {
    o.extend(m.iter().map(|x| x.g()))
}
fn probes<S: Sc>() -> Mat3D<S> {
    dyn3(&[[1.0, 2.0, -0.5], [-1.5, 0.25, 4.0], [0.0, 0.0, 1.0], [3.0, -2.0, 0.5]].map(|r| arr3(&r)))
}
fn pxs<S: Sc>() -> Mat2D<S> {
    dyn2(&[[0.0, 0.0], [320.5, -7.0], [-640.0, 480.0]].map(|r| r.map(S::f)))
}
pub fn fp_pose<S: Sc>(e: &ExtrinsicParameters<S>) -> Fp {
    let mut o = vec![];
    push(&mut o, e.matrix());
    push(&mut o, e.rotation().matrix());
    push(&mut o, &e.translation().coords);
    push(&mut o, &e.camcenter().coords);
    push(&mut o, &e.pose().translation.vector);
    push(&mut o, &e.pose().rotation.coords);
    for v in [e.forward(), e.up(), e.right()] {
        push(&mut o, &v.into_inner());
    }
    push(&mut o, &e.world_to_camera(&Points::new(probes::<S>())).data);
    push(&mut o, &e.camera_to_world(&Points::new(probes::<S>())).data);
    let b = RayBundle::<CameraFrame, _, _, _, _>::new_shared_plusz_direction(probes::<S>());
    o.extend(fp_bundle(&e.ray_camera_to_world(&b)));
    o
}
pub fn fp_persp<S: Sc>(i: &IntrinsicParametersPerspective<S>) -> Fp {
    let mut o: Fp = [i.fx(), i.fy(), i.skew(), i.cx(), i.cy()].iter().map(|x| x.g()).collect();
    o.extend(fp_pp(i.params()));
    let c = Camera::new(i.clone(), ExtrinsicParameters::from_view(&Vector3::new(S::f(1.0), S::f(2.0), S::f(3.0)), &Vector3::new(S::f(0.5), S::f(-2.0), S::f(7.0)), &nalgebra::Unit::new_normalize(Vector3::new(S::f(0.0), S::f(0.0), S::f(1.0)))));
    push(&mut o, &c.as_camera_matrix());
    push(&mut o, &i.camera_to_pixel(&Points::new(probes::<S>())).data);
    o.extend(fp_bundle(&i.pixel_to_camera(&Pixels::new(pxs::<S>()))));
    o
}
pub fn fp_ortho<S: Sc>(i: &IntrinsicParametersOrthographic<S>) -> Fp {
    let mut o = vec![];
    push(&mut o, &i.camera_to_pixel(&Points::new(probes::<S>())).data);
    o.extend(fp_bundle(&i.pixel_to_camera(&Pixels::new(pxs::<S>()))));
    o
}
pub fn fp_pp<S: Sc>(p: &PerspectiveParams<S>) -> Fp {
    [p.fx, p.fy, p.skew, p.cx, p.cy].iter().map(|x| x.g()).collect()
}
pub fn fp_op<S: Sc>(p: &OrthographicParams<S>) -> Fp {
    [p.sx, p.sy, p.cx, p.cy].iter().map(|x| x.g()).collect()
}
pub fn fp_cam<S: Sc, I: IntrinsicParameters<S>>(c: &Camera<S, I>, fi: impl Fn(&I) -> Fp) -> Fp
where
    I::BundleType: Bundle<S>,
{
    let mut o = fi(c.intrinsics());
    o.extend(fp_pose(c.extrinsics()));
    push(&mut o, &c.world_to_pixel(&Points::new(probes::<S>())).data);
    o.extend(fp_bundle(&c.pixel_to_world(&Pixels::new(pxs::<S>()))));
    o
}
pub fn fp_bundle<S: Sc, F: CoordinateSystem, B: Bundle<S>, N: Dim, St: Storage<S, N, U3>>(b: &RayBundle<F, B, S, N, St>) -> Fp
where
    DefaultAllocator: nalgebra::allocator::Allocator<N, U3>,
{
    let mut o = vec![b.data.nrows() as f64];
    push(&mut o, &b.data);
    push(&mut o, &b.point_on_ray().data);
    push(&mut o, &b.point_on_ray_at_distance(S::f(2.5)).data);
    push(&mut o, &b.point_on_ray_at_distance(S::f(-0.75)).data);
    o
}
pub fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()))
}
/// Float leaves.
pub fn floats(t: &Tok, o: &mut Fp) {
    match t {
        Tok::F32(x) => o.push(*x as f64),
        Tok::F64(x) => o.push(*x),
        Tok::Seq(s) => s.iter().for_each(|t| floats(t, o)),
        Tok::Struct(s) => s.iter().for_each(|t| floats(&t.1, o)),
        Tok::Map(s) => s.iter().for_each(|t| floats(&t.1, o)),
        _ => {}
    }
}
/// The k-th of all combinations of field orders of all structs; None if there are fewer.
pub fn permuted(t: &Tok, k: &mut usize) -> Tok {
    match t {
        Tok::Struct(f) => {
            let mut rest: Vec<(String, Tok)> = f.iter().map(|(n, t)| (n.clone(), permuted(t, k))).collect();
            let mut out = vec![];
            while !rest.is_empty() {
                let n = rest.len();
                out.push(rest.remove(*k % n));
                *k /= n;
            }
            Tok::Struct(out)
        }
        Tok::Seq(v) => Tok::Seq(v.iter().map(|t| permuted(t, k)).collect()),
        t => t.clone(),
    }
}
pub fn json(t: &Tok, o: &mut String) {
    use std::fmt::Write;
    match t {
        Tok::Unit => o.push_str("null"),
        Tok::Bool(b) => write!(o, "{b}").unwrap(),
        Tok::U(n) => write!(o, "{n}").unwrap(),
        Tok::I(n) => write!(o, "{n}").unwrap(),
        Tok::F32(x) => write!(o, "{x:?}").unwrap(),
        Tok::F64(x) => write!(o, "{x:?}").unwrap(),
        Tok::Str(s) => write!(o, "{s:?}").unwrap(),
        Tok::Seq(s) => {
            o.push('[');
            for (i, t) in s.iter().enumerate() {
                if i > 0 {
                    o.push(',')
                }
                json(t, o)
            }
            o.push(']')
        }
        Tok::Struct(s) => {
            o.push('{');
            for (i, (n, t)) in s.iter().enumerate() {
                if i > 0 {
                    o.push(',')
                }
                write!(o, "{n:?}:").unwrap();
                json(t, o)
            }
            o.push('}')
        }
        Tok::Map(_) => panic!("map in the serialized form"),
    }
}
/// 0..60: in-memory format, 60..63 JSON.
pub const PRES: usize = 63;
fn pres(k: usize) -> Pres {
    Pres { map: k % 6 != 5, keys: KEYS[(k % 6).min(4)], human: (k / 6) % 2 == 0, hint: ((k / 12) % 3) as u8, widen: k >= 36 }
}
pub fn pres_name(k: usize) -> String {
    match k {
        60 => "JSON text".into(),
        61 => "JSON bytes".into(),
        62 => "JSON value".into(),
        k => {
            let p = pres(k % 72);
            format!("{}{}", if p.map { format!("map keyed by {:?}", p.keys) } else { "sequence".into() }, if p.widen { ", widened floats" } else { "" })
        }
    }
}
fn presentation(k: usize) -> Pres {
    // all combinations, except that widened floats come without size hints
    if k < 36 {
        pres(k)
    } else {
        let mut p = pres(k);
        p.hint = (k % 2) as u8;
        p
    }
}
fn ulps(a: f64, b: f64, eps: f64) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= 2.0 * eps * a.abs().max(b.abs()) + 1e-320 || (a - b).abs() <= 1e-44 && eps > 1e-8
}
fn check<S: Sc, T: Serialize + DeserializeOwned + PartialEq + Clone>(kind: &str, v: &T, leaves: usize, p: usize, perm: usize, fp: impl Fn(&T) -> Fp, t: &mut Trace) -> Res {
    t.call("serialize");
    let tk = match to_tok(v) {
        Ok(t) => t,
        Err(e) => return bad(format!("{kind}: serializing failed: {e}")),
    };
    let mut fl = vec![];
    floats(&tk, &mut fl);
    t.yes(fl.len() == leaves, || format!("{kind}: the serialized form has {} numbers, the value is defined by {leaves}", fl.len()))?;
    t.yes(to_tok(&v.clone()).map_or(false, |c| c.same(&tk)), || format!("{kind}: a clone serializes differently"))?;
    let mut k = perm;
    let arranged = permuted(&tk, &mut k);
    if k != 0 {
        return skip();
    }
    let want = fp(v);
    let back: T = if p < 60 {
        let pr = presentation(p);
        if !pr.map && perm != 0 {
            return skip();
        }
        t.call("deserialize");
        match from_tok::<T>(&arranged, pr, u64::MAX).0 {
            Ok(b) => b,
            Err(e) => return bad(format!("{kind}: deserializing from {} failed: {e} ({arranged:?})", pres_name(p))),
        }
    } else {
        if fl.iter().any(|x| !x.is_finite()) {
            return skip();
        }
        let r = match p {
            62 => {
                if perm != 0 {
                    return skip();
                }
                t.calls("serde_json::to_value/from_value", 2);
                serde_json::to_value(v).and_then(serde_json::from_value::<T>)
            }
            60 if perm == 0 => {
                t.calls("serde_json::to_string/from_str", 2);
                serde_json::to_string(v).and_then(|s| serde_json::from_str(&s))
            }
            _ => {
                let mut s = String::new();
                json(&arranged, &mut s);
                t.call("serde_json::from_str/from_slice");
                if p == 60 { serde_json::from_str(&s) } else { serde_json::from_slice(s.as_bytes()) }
            }
        };
        let b = match r {
            Ok(b) => b,
            Err(e) => return bad(format!("{kind}: {} failed: {e}", pres_name(p))),
        };
        if p != 62 {
            // JSON text may lose the last bit of a number; then the value must be the one these numbers define
            let bt = to_tok(&b).unwrap();
            let mut bf = vec![];
            floats(&bt, &mut bf);
            t.yes(bf.len() == fl.len() && bf.iter().zip(&fl).all(|(a, b)| ulps(*a, *b, S::EPS)), || format!("{kind}: JSON round trip changed {fl:?} into {bf:?}"))?;
            let exact: T = tok::build(&bt);
            t.yes(exact == b && same(&fp(&exact), &fp(&b)), || format!("{kind}: value read from JSON differs from the one its numbers define"))?;
            return Ok(());
        }
        b
    };
    t.yes(back == *v || fl.iter().any(|x| x.is_nan()), || format!("{kind}: not equal after a round trip through {}, field order {perm}", pres_name(p)))?;
    let got = fp(&back);
    t.yes(same(&got, &want), || {
        let i = got.iter().zip(&want).position(|(a, b)| a.to_bits() != b.to_bits());
        format!("{kind}: behaves differently after a round trip through {}, field order {perm} (output {i:?})", pres_name(p))
    })?;
    t.yes(to_tok(&back).map_or(false, |b| b.same(&tk)), || format!("{kind}: serializes differently after a round trip"))
}
pub const KINDS: usize = 18;
struct Trip {
    /// product of presentations and orders (true) or only the main presentations (false)
    all: bool,
}
impl Body for Trip {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (kind, p, perm, route) = if self.all { (d[0], d[1], d[2], d[0] % 3) } else { (d[0], [0, 5, 36, 60, 62][d[1]], 0, d[2]) };
        let e0 = ext::<S>(x[0], x[1]).0;
        let e = match route {
            0 => e0,
            1 => ExtrinsicParameters::from_pose(e0.pose()),
            _ => {
                let c: Vector3<S> = e0.camcenter().coords;
                ExtrinsicParameters::from_view(&c, &(c + e0.forward().into_inner()), &e0.up())
            }
        };
        let pi = persp::<S>(x[2]).0;
        let oi = ortho::<S>(&x[2][..4]).0;
        t.state_u("value, presentation, order", &[kind as u64, p as u64, perm as u64, route as u64, x[0][1].to_bits(), x[1][0].to_bits(), x[2][0].to_bits(), x[2][3].to_bits()]);
        let data = |n: usize| Mat3D::<S>::from_fn(n, |i, j| S::f(x[2][j] * 0.25 + lcg(i, j)));
        let w2p = |n: usize| Mat2D::<S>::from_fn(n, |i, j| S::f(lcg(i, j) * 300.0));
        macro_rules! bundle {
            ($name:literal, $n:expr, $b:expr) => {{
                let b = $b;
                check::<S, _>($name, &b, 3 * $n + 3, p, perm, |b| fp_bundle(b), t)
            }};
        }
        match kind {
            0 => check::<S, _>("pose", &e, 7, p, perm, fp_pose, t),
            1 => check::<S, _>("perspective intrinsics", &pi, 5, p, perm, fp_persp, t),
            2 => check::<S, _>("orthographic intrinsics", &oi, 4, p, perm, fp_ortho, t),
            3 => check::<S, _>("perspective parameters", pi.params(), 5, p, perm, fp_pp, t),
            4 => check::<S, _>("orthographic parameters", &OrthographicParams { sx: S::f(x[2][0]), sy: S::f(x[2][1]), cx: S::f(x[2][2]), cy: S::f(x[2][3]) }, 4, p, perm, fp_op, t),
            5 => check::<S, _>("perspective camera", &Camera::new(pi, e), 12, p, perm, |c| fp_cam(c, fp_persp), t),
            6 => check::<S, _>("orthographic camera", &Camera::new(oi, e), 11, p, perm, |c| fp_cam(c, fp_ortho), t),
            7 => bundle!("shared-origin bundle, 1 ray", 1, pi.pixel_to_camera(&Pixels::new(SMatrix::<S, 1, 2>::new(S::f(3.0), S::f(-4.5))))),
            8 => bundle!("shared-origin world bundle, 3 rays", 3, e.ray_camera_to_world(&RayBundle::<CameraFrame, _, _, _, _>::new_shared_zero_origin(SMatrix::<S, 3, 3>::from_fn(|i, j| S::f(lcg(i, j)))))),
            9 => bundle!("shared-direction bundle, 2 rays", 2, RayBundle::<CameraFrame, _, _, _, _>::new_shared_plusz_direction(SMatrix::<S, 2, 3>::from_fn(|i, j| S::f(lcg(i, j))))),
            10 => bundle!("shared-direction world bundle, 1 ray", 1, Camera::new(oi, e).pixel_to_world(&Pixels::new(SMatrix::<S, 1, 2>::new(S::f(3.0), S::f(-4.5))))),
            11 => bundle!("shared-origin world bundle, dynamic", 4, Camera::new(pi, e).pixel_to_world(&Pixels::new(w2p(4)))),
            12 => bundle!("shared-direction world bundle, dynamic", 2, e.ray_camera_to_world(&RayBundle::<CameraFrame, _, _, _, _>::new_shared_plusz_direction(data(2)))),
            13 => bundle!("empty dynamic bundle", 0, Camera::new(pi, e).pixel_to_world(&Pixels::new(w2p(0)))),
            14 => check::<S, _>("shared origin", &origin_type::<S>(&arr3(x[1])), 3, p, perm, |_| vec![], t),
            15 => check::<S, _>("shared direction", &direction_type::<S>(&arr3(x[1])), 3, p, perm, |_| vec![], t),
            16 => check::<S, _>("world frame", &WorldFrame {}, 0, p, perm, |_| vec![], t),
            _ => check::<S, _>("camera frame", &CameraFrame {}, 0, p, perm, |_| vec![], t),
        }
    }
}
/// Two poses with the same defining parameters, built along different routes, serialize the same.
struct Same;
impl Body for Same {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let e = ext::<S>(x[0], x[1]).0;
        let i = persp::<S>(x[2]).0;
        let a = match d[0] {
            0 => e,
            1 => ExtrinsicParameters::from_pose(e.pose()),
            _ => {
                let c: Vector3<S> = e.camcenter().coords;
                ExtrinsicParameters::from_view(&c, &(c + e.forward().into_inner()), &e.up())
            }
        };
        t.calls("serialize", 4);
        let ta = to_tok(&a).unwrap();
        let mut f = vec![];
        floats(&ta, &mut f);
        // the defining parameters are the rotation and the center the pose reports
        let q = &a.pose().rotation.coords;
        let c = a.camcenter();
        let want = [q[0], q[1], q[2], q[3], c[0], c[1], c[2]].map(|x| x.g());
        let mut sorted = (f.clone(), want.to_vec());
        sorted.0.sort_by(f64::total_cmp);
        sorted.1.sort_by(f64::total_cmp);
        t.state_u("pose", &want.map(|x| x.to_bits()));
        t.yes(same(&sorted.0, &sorted.1), || format!("the pose serializes {f:?}, its rotation and center are {want:?}"))?;
        let b = ExtrinsicParameters::from_rotation_and_camcenter(a.pose().rotation, *c);
        t.yes(to_tok(&b).unwrap().same(&ta), || "a pose with the same rotation and center serializes differently".into())?;
        let ti = to_tok(&i).unwrap();
        let j: IntrinsicParametersPerspective<S> = PerspectiveParams { fx: i.fx(), fy: i.fy(), skew: i.skew(), cx: i.cx(), cy: i.cy() }.into();
        t.yes(to_tok(&j).unwrap().same(&ti), || "intrinsics with the same parameters serialize differently".into())?;
        let ca = Camera::new(i.clone(), a.clone());
        let _ = ca.world_to_pixel(&Points::new(probes::<S>()));
        let _ = ca.as_camera_matrix();
        t.yes(to_tok(&ca).unwrap().same(&to_tok(&Camera::new(j, b)).unwrap()), || "cameras with the same parameters serialize differently".into())
    }
}
pub fn plan(thorough: bool) -> Plan {
    let _ = (Keys::Str, PLAIN);
    let mut ks = kpersp();
    ks.push(vec![1e-30, 1e38, -0.0, -1e-40, 0.1]);
    ks.push(vec![1.0 / 3.0, -2.0 / 3.0, 1e22, 123456789.123456789, -0.0]);
    let mut cs = centers();
    cs.push(vec![-0.0, 1.0 / 3.0, 1e22]);
    let qs = if thorough { rots_all() } else { rots_mid() };
    let n = if thorough { 4 } else { 1 };
    let pick = |v: &Vec<Vec<f64>>, ix: &[usize]| -> Vec<Vec<f64>> { ix.iter().map(|i| v[*i].clone()).collect() };
    Plan {
        sections: vec![
            Section::new("values", Trip { all: false })
                .group("rotation wijk", qs.clone())
                .group("center", cs.clone())
                .group("fx fy skew cx cy", if thorough { ks.clone() } else { pick(&ks, &[2, 5, 14, 15]) })
                .disc("type", KINDS)
                .disc("map, sequence, widened, JSON text, JSON value", 5)
                .disc("constructor", 3),
            Section::new("presentations", Trip { all: true })
                .group("rotation wijk", pick(&rots_few(), &[5, 6, 2, 8][..n]))
                .group("center", pick(&cs, &[4, 5, 8, 11][..n]))
                .group("fx fy skew cx cy", pick(&ks, &[2, 6, 4, 15][..n]))
                .disc("type", KINDS)
                .disc("presentation", PRES)
                .disc("field orders", 480)
                .no_closure(),
            Section::new("defining-parameters", Same).group("rotation wijk", qs).group("center", cs).group("fx fy skew cx cy", ks).disc("constructor", 3),
        ],
        rule: "a state is a value (type and parameters) together with the presentation of its serialized form: struct encoding, key type, size hints, human readability, float width, field order of every struct",
        assumptions: vec!["The quaternion and its negative, and zeros of either sign, are different defining parameters although they compare equal.", "Through JSON text a number may change by one unit in the last place (serde_json without float_roundtrip)."],
    }
}
