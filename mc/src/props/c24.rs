//! C24: mixing frames, shapes or bundle kinds is rejected at compile time.
//! Enumerates client programs over the typed API, predicts for each whether it is
//! well typed from the typing rules below (the model), and compares with rustc.
use super::Plan;
use crate::engine::*;
use crate::scalar::Sc;
use std::collections::HashMap;
use std::process::Command;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F {
    W,
    C,
    /// a frame of the client's own
    U,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    D,
    S(u8),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Origin,
    Direction,
}
/// Abstract types. The bool is the scalar: false f64, true f32.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Mat(bool, N, u8),
    Points(F, bool, N),
    Pixels(bool, N),
    Rays(F, B, bool, N),
    Ray(F, bool),
    RaySlice(F, bool),
    Ext(bool),
    Persp(bool),
    Ortho(bool),
    PerspParams(bool),
    OrthoParams(bool),
    CamP(bool),
    CamO(bool),
    Jac(bool),
    Num(bool),
    Quat(bool),
    Rot(bool),
    Point(bool),
    Vector(bool),
    UnitVector(bool),
    Iso(bool),
}
use Ty::*;
fn s(b: bool) -> &'static str {
    ["f64", "f32"][b as usize]
}
fn fr(f: F) -> &'static str {
    match f {
        F::W => "WorldFrame",
        F::C => "CameraFrame",
        F::U => "Mine",
    }
}
fn n(x: N) -> String {
    match x {
        N::D => "Dyn".into(),
        N::S(k) => format!("U{k}"),
    }
}
fn bn(b: B) -> &'static str {
    match b {
        B::Origin => "SharedOriginRayBundle",
        B::Direction => "SharedDirectionRayBundle",
    }
}
impl Ty {
    fn rust(self) -> String {
        match self {
            Mat(r, a, b) => format!("OMatrix<{}, {}, U{b}>", s(r), n(a)),
            Points(f, r, k) => format!("Points<{}, {1}, {2}, Owned<{1}, {2}, U3>>", fr(f), s(r), n(k)),
            Pixels(r, k) => format!("Pixels<{0}, {1}, Owned<{0}, {1}, U2>>", s(r), n(k)),
            Rays(f, b, r, k) => format!("RayBundle<{}, {}<{2}>, {2}, {3}, Owned<{2}, {3}, U3>>", fr(f), bn(b), s(r), n(k)),
            Ray(f, r) => format!("Ray<{}, {}>", fr(f), s(r)),
            RaySlice(f, r) => format!("[Ray<{}, {}>]", fr(f), s(r)),
            Ext(r) => format!("ExtrinsicParameters<{}>", s(r)),
            Persp(r) => format!("IntrinsicParametersPerspective<{}>", s(r)),
            Ortho(r) => format!("IntrinsicParametersOrthographic<{}>", s(r)),
            PerspParams(r) => format!("PerspectiveParams<{}>", s(r)),
            OrthoParams(r) => format!("OrthographicParams<{}>", s(r)),
            CamP(r) => format!("Camera<{0}, IntrinsicParametersPerspective<{0}>>", s(r)),
            CamO(r) => format!("Camera<{0}, IntrinsicParametersOrthographic<{0}>>", s(r)),
            Jac(r) => format!("JacobianPerspectiveCache<{}>", s(r)),
            Num(r) => s(r).into(),
            Quat(r) => format!("UnitQuaternion<{}>", s(r)),
            Rot(r) => format!("Rotation3<{}>", s(r)),
            Point(r) => format!("Point3<{}>", s(r)),
            Vector(r) => format!("Vector3<{}>", s(r)),
            UnitVector(r) => format!("Unit<Vector3<{}>>", s(r)),
            Iso(r) => format!("Isometry3<{}>", s(r)),
        }
    }
    /// nalgebra's own aliases: these are the same type
    fn canon(self) -> Ty {
        match self {
            Vector(r) => Mat(r, N::S(3), 1),
            t => t,
        }
    }
}
/// What the typing rules say of an application.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Typed {
    Is(Ty),
    Wrong,
    /// neither promised nor excluded
    Free,
}
use Typed::*;
/// An operation: text with {0}, {1}, .. for its arguments (whether each is taken by reference), and its rule.
struct Op {
    text: &'static str,
    rule: fn(&[Ty]) -> Typed,
}
/// Abbreviations for rules.
fn when(c: bool, t: Ty) -> Typed {
    if c {
        Is(t)
    } else {
        Wrong
    }
}
fn ops() -> Vec<Op> {
    macro_rules! op {
        ($t:literal, $p:pat => $e:expr) => {
            Op {
                text: $t,
                rule: |a| match *a {
                    $p => $e,
                    _ => Wrong,
                },
            }
        };
    }
    vec![
        op!("Points::<WorldFrame, _, _, _>::new({0}.clone())", [Mat(r, k, 3)] => Is(Points(F::W, r, k))),
        op!("Points::<CameraFrame, _, _, _>::new({0}.clone())", [Mat(r, k, 3)] => Is(Points(F::C, r, k))),
        op!("Pixels::new({0}.clone())", [Mat(r, k, 2)] => Is(Pixels(r, k))),
        op!("RayBundle::<CameraFrame, _, _, _, _>::new_shared_zero_origin({0}.clone())", [Mat(r, k, 3)] => Is(Rays(F::C, B::Origin, r, k))),
        op!("RayBundle::<WorldFrame, _, _, _, _>::new_shared_zero_origin({0}.clone())", [Mat(r, k, 3)] => Is(Rays(F::W, B::Origin, r, k))),
        op!("RayBundle::<CameraFrame, _, _, _, _>::new_shared_plusz_direction({0}.clone())", [Mat(r, k, 3)] => Is(Rays(F::C, B::Direction, r, k))),
        op!("RayBundle::<WorldFrame, _, _, _, _>::new_shared_plusz_direction({0}.clone())", [Mat(r, k, 3)] => Is(Rays(F::W, B::Direction, r, k))),
        op!("({0}).world_to_pixel({1})", [CamP(r) | CamO(r), Points(F::W, q, k)] => when(r == q, Pixels(r, k))),
        Op {
            text: "({0}).pixel_to_world({1})",
            rule: |a| match *a {
                [CamP(r), Pixels(q, k)] => when(r == q, Rays(F::W, B::Origin, r, k)),
                [CamO(r), Pixels(q, k)] => when(r == q, Rays(F::W, B::Direction, r, k)),
                _ => Wrong,
            },
        },
        op!("({0}).camera_to_pixel({1})", [Persp(r) | Ortho(r), Points(F::C, q, k)] => when(r == q, Pixels(r, k))),
        Op {
            text: "({0}).pixel_to_camera({1})",
            rule: |a| match *a {
                [Persp(r), Pixels(q, k)] => when(r == q, Rays(F::C, B::Origin, r, k)),
                [Ortho(r), Pixels(q, k)] => when(r == q, Rays(F::C, B::Direction, r, k)),
                _ => Wrong,
            },
        },
        op!("({0}).camera_to_world({1})", [Ext(r), Points(F::C, q, k)] => when(r == q, Points(F::W, r, k))),
        op!("({0}).world_to_camera({1})", [Ext(r), Points(F::W, q, k)] => when(r == q, Points(F::C, r, k))),
        op!("({0}).ray_camera_to_world({1})", [Ext(r), Rays(F::C, b, q, k)] => when(r == q, Rays(F::W, b, r, k))),
        op!("({0}).to_single_ray()", [Rays(f, _, r, N::S(1))] => Is(Ray(f, r))),
        op!("({0}).point_on_ray()", [Rays(f, _, r, k)] => Is(Points(f, r, k))),
        op!("({0}).point_on_ray_at_distance(*{1})", [Rays(f, _, r, k), Num(q)] => when(r == q, Points(f, r, k))),
        op!("({0}).directions()", [Rays(_, _, r, k)] => if k == N::D { Free } else { Is(Mat(r, k, 3)) }),
        op!("({0}).centers()", [Rays(_, _, r, k)] => if k == N::D { Free } else { Is(Mat(r, k, 3)) }),
        op!("best_intersection_of_rays({0}).ok().unwrap()", [RaySlice(f, r)] => Is(Points(f, r, N::S(1)))),
        op!("best_intersection_of_rays(pair({0}, {1})).ok().unwrap()", [Ray(f, r), Ray(g, q)] => when(f == g && r == q, Points(f, r, N::S(1)))),
        op!("Ray::<WorldFrame, _>::new({0}.clone(), {1}.clone())", [Mat(r, N::S(1), 3), Mat(q, N::S(1), 3)] => when(r == q, Ray(F::W, r))),
        op!("Ray::<CameraFrame, _>::new({0}.clone(), {1}.clone())", [Mat(r, N::S(1), 3), Mat(q, N::S(1), 3)] => when(r == q, Ray(F::C, r))),
        op!("JacobianPerspectiveCache::new({0})", [CamP(r)] => Is(Jac(r))),
        op!("({0}).linearize_at({1})", [Jac(r), Points(F::W, q, N::S(1))] => when(r == q, Mat(r, N::S(2), 3))),
        Op {
            text: "Camera::new({0}.clone(), {1}.clone())",
            rule: |a| match *a {
                [Persp(r), Ext(q)] => when(r == q, CamP(r)),
                [Ortho(r), Ext(q)] => when(r == q, CamO(r)),
                _ => Wrong,
            },
        },
        op!("Camera::from_perspective_matrix({0}).ok().unwrap()", [Mat(r, N::S(3), 4)] => Is(CamP(r))),
        op!("({0}).as_camera_matrix()", [CamP(r)] => Is(Mat(r, N::S(3), 4))),
        op!("IntrinsicParametersPerspective::from_normalized_3x4_matrix({0}.clone()).ok().unwrap()", [Mat(r, N::S(3), 4)] => Is(Persp(r))),
        // every type converts from itself
        Op {
            text: "IntrinsicParametersPerspective::from({0}.clone())",
            rule: |a| match *a {
                [PerspParams(r)] => Is(Persp(r)),
                [Persp(_)] => Free,
                _ => Wrong,
            },
        },
        // every type converts from itself
        Op {
            text: "IntrinsicParametersOrthographic::from({0}.clone())",
            rule: |a| match *a {
                [OrthoParams(r)] => Is(Ortho(r)),
                [Ortho(_)] => Free,
                _ => Wrong,
            },
        },
        op!("ExtrinsicParameters::from_rotation_and_camcenter({0}.clone(), {1}.clone())", [Quat(r), Point(q)] => when(r == q, Ext(r))),
        op!("ExtrinsicParameters::from_pose({0})", [Iso(r)] => Is(Ext(r))),
        op!("ExtrinsicParameters::from_view({0}, {1}, {2})", [Mat(r, N::S(3), 1), Mat(q, N::S(3), 1), UnitVector(p)] => when(r == q && q == p, Ext(r))),
        Op {
            text: "({0}).extrinsics().clone()",
            rule: |a| match *a {
                [CamP(r) | CamO(r)] => Is(Ext(r)),
                _ => Wrong,
            },
        },
        Op {
            text: "({0}).intrinsics().clone()",
            rule: |a| match *a {
                [CamP(r)] => Is(Persp(r)),
                [CamO(r)] => Is(Ortho(r)),
                _ => Wrong,
            },
        },
        op!("({0}).camcenter().clone()", [Ext(r)] => Is(Point(r))),
        op!("({0}).pose().clone()", [Ext(r)] => Is(Iso(r))),
        // `rotation` is also a field of Isometry3, not a method
        op!("({0}).rotation().clone()", [Ext(r)] => Is(Rot(r))),
        op!("({0}).translation().clone()", [Ext(r)] => Is(Point(r))),
        op!("({0}).forward()", [Ext(r)] => Is(UnitVector(r))),
        op!("({0}).up()", [Ext(r)] => Is(UnitVector(r))),
        op!("({0}).right()", [Ext(r)] => Is(UnitVector(r))),
        op!("({0}).fx()", [Persp(r)] => Is(Num(r))),
        op!("({0}).fy()", [Persp(r)] => Is(Num(r))),
        op!("({0}).skew()", [Persp(r)] => Is(Num(r))),
        op!("({0}).cx()", [Persp(r)] => Is(Num(r))),
        op!("({0}).cy()", [Persp(r)] => Is(Num(r))),
        op!("({0}).params().clone()", [Persp(r)] => Is(PerspParams(r))),
        // the data of typed values
        Op {
            text: "({0}).data.clone()",
            rule: |a| match *a {
                [Points(_, r, k)] | [Rays(_, _, r, k)] => Is(Mat(r, k, 3)),
                [Pixels(r, k)] => Is(Mat(r, k, 2)),
                [Mat(..)] | [UnitVector(_)] => Free,
                _ => Wrong,
            },
        },
        Op {
            text: "({0}).center.clone()",
            rule: |a| match *a {
                [Ray(_, r)] => Is(Mat(r, N::S(1), 3)),
                _ => Wrong,
            },
        },
        Op {
            text: "({0}).direction.clone()",
            rule: |a| match *a {
                [Ray(_, r)] => Is(Mat(r, N::S(1), 3)),
                _ => Wrong,
            },
        },
    ]
}
impl Op {
    fn arity(&self) -> usize {
        (0..4).find(|i| !self.text.contains(&format!("{{{i}}}"))).unwrap()
    }
    fn typed(&self, a: &[Ty]) -> Typed {
        let c: Vec<Ty> = a.iter().map(|t| t.canon()).collect();
        // &Unit<V> coerces to &V: not a matter of this crate
        if self.text.contains("from_view") && matches!(c[..2], [UnitVector(_), _] | [_, UnitVector(_)]) {
            return Free;
        }
        (self.rule)(&c)
    }
    /// A method of a type that is not said to have it: it could be added.
    fn foreign<'a>(&self, recv: Ty, mut right: impl Iterator<Item = &'a Vec<Ty>>) -> bool {
        let k = std::mem::discriminant(&recv);
        self.text.starts_with("({0}).") && !right.any(|m| std::mem::discriminant(&m[0]) == k)
    }
    fn fill(&self, a: &[String]) -> String {
        let mut t = self.text.to_string();
        for (i, x) in a.iter().enumerate() {
            t = t.replace(&format!("{{{i}}}"), x);
        }
        t
    }
}
/// All types the programs mention.
fn universe(thorough: bool) -> Vec<Ty> {
    let mut v = vec![];
    let rows: &[N] = if thorough { &[N::S(1), N::S(2), N::S(3), N::S(7), N::D] } else { &[N::S(1), N::S(2), N::D] };
    for r in [false, true] {
        for &k in rows {
            // single precision with one row count is enough to tell the scalars apart
            if r && !thorough && k != N::S(1) && k != N::D {
                continue;
            }
            for f in [F::W, F::C, F::U] {
                if f == F::U && !thorough && (r || k != N::S(2)) {
                    continue;
                }
                v.push(Points(f, r, k));
                for b in [B::Origin, B::Direction] {
                    v.push(Rays(f, b, r, k));
                }
            }
            v.push(Pixels(r, k));
            v.push(Mat(r, k, 2));
            v.push(Mat(r, k, 3));
        }
        for f in [F::W, F::C, F::U] {
            v.push(Ray(f, r));
            v.push(RaySlice(f, r));
        }
        v.extend([Mat(r, N::S(3), 4), Mat(r, N::S(4), 3), Mat(r, N::S(3), 1), Mat(r, N::S(1), 4), Mat(r, N::S(4), 4)]);
        if !thorough {
            v.push(Mat(r, N::S(3), 3));
        }
        v.extend([Ext(r), Persp(r), Ortho(r), PerspParams(r), OrthoParams(r), CamP(r), CamO(r), Jac(r), Num(r), Quat(r), Rot(r), Point(r), UnitVector(r), Iso(r)]);
    }
    v
}
/// A program of one or two operations.
#[derive(Clone)]
pub struct Prog {
    params: Vec<Ty>,
    body: String,
    /// the type the last result is bound to
    ann: Option<Ty>,
    right: bool,
    id: [u64; 5],
}
impl Prog {
    fn line(&self, k: usize) -> String {
        let ps: Vec<String> = self.params.iter().enumerate().map(|(i, t)| format!("a{i}: &{}", t.rust())).collect();
        let ann = self.ann.map_or(String::new(), |t| format!(": {}", t.rust()));
        format!("pub fn p{k}({}) {{ let _r{ann} = {}; }}", ps.join(", "), self.body)
    }
}
fn args(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("a{i}")).collect()
}
pub fn programs(thorough: bool) -> Vec<Prog> {
    let u = universe(thorough);
    let ops = ops();
    let id = |t: Ty| u.iter().position(|x| *x == t).unwrap_or(999) as u64;
    let mut v: Vec<Prog> = vec![];
    // argument tuples an operation accepts
    let mut right: Vec<(usize, Vec<Ty>, Ty)> = vec![];
    for (oi, o) in ops.iter().enumerate() {
        let n = o.arity();
        let mut tuples: Vec<Vec<Ty>> = vec![vec![]];
        for _ in 0..n {
            tuples = tuples.into_iter().flat_map(|t| u.iter().map(move |x| [t.clone(), vec![*x]].concat())).collect();
        }
        let mine: Vec<(Vec<Ty>, Ty)> = tuples
            .iter()
            .filter_map(|t| match o.typed(t) {
                Is(r) => Some((t.clone(), r)),
                _ => None,
            })
            .collect();
        right.extend(mine.iter().map(|(t, r)| (oi, t.clone(), *r)));
        for t in &tuples {
            let p = |right| Prog { params: t.clone(), body: o.fill(&args(n)), ann: None, right, id: [oi as u64, id(t[0]), t.get(1).map_or(998, |x| id(*x)), t.get(2).map_or(998, |x| id(*x)), 0] };
            match o.typed(t) {
                Is(_) => v.push(p(true)),
                Free => {}
                // one argument away from a right program
                Wrong => {
                    if o.foreign(t[0], mine.iter().map(|m| &m.0)) {
                        continue;
                    }
                    if mine.iter().any(|(m, _)| m.iter().zip(t).filter(|(a, b)| a != b).count() <= 1) {
                        v.push(p(false))
                    }
                }
            }
        }
    }
    // the type of the result
    for (oi, t, r) in &right {
        let o = &ops[*oi];
        for x in &u {
            if matches!(x, RaySlice(..)) {
                continue;
            }
            let same = x.canon() == r.canon();
            v.push(Prog { params: t.clone(), body: o.fill(&args(t.len())), ann: Some(*x), right: same, id: [*oi as u64, id(t[0]), t.get(1).map_or(998, |x| id(*x)), id(*x), 1] });
        }
    }
    // two operations: the result of one is an argument of another
    for (oi, t, r) in &right {
        if !thorough && t.iter().any(|t| matches!(t, Points(_, true, _) | Pixels(true, _) | Rays(_, _, true, _))) {
            continue;
        }
        for (pi, p) in ops.iter().enumerate() {
            let n = p.arity();
            for pos in 0..n {
                // the other arguments: as in the first right program with this position free, one per scalar
                let mut seen: Vec<Vec<Ty>> = vec![];
                for (qi, m, _) in &right {
                    if *qi != pi {
                        continue;
                    }
                    let mut rest = m.clone();
                    rest.remove(pos);
                    if seen.contains(&rest) || (n > 1 && seen.len() >= if thorough { 12 } else { 4 }) {
                        continue;
                    }
                    seen.push(rest.clone());
                    let mut full = rest.clone();
                    full.insert(pos, *r);
                    let right = match p.typed(&full) {
                        Is(_) => true,
                        Wrong if p.foreign(full[0], right.iter().filter(|x| x.0 == pi).map(|x| &x.1)) => continue,
                        Wrong => false,
                        Free => continue,
                    };
                    let mut ar: Vec<String> = (0..n - 1).map(|i| format!("a{}", t.len() + i)).collect();
                    ar.insert(pos, format!("(&{})", ops[*oi].fill(&args(t.len()))));
                    v.push(Prog {
                        params: [t.clone(), rest].concat(),
                        body: p.fill(&ar),
                        ann: None,
                        right,
                        id: [(*oi * 100 + pi) as u64, id(t[0]), t.get(1).map_or(998, |x| id(*x)), (pos * 1000 + seen.len()) as u64, 2],
                    });
                }
            }
        }
    }
    // values can be sent to and shared with other threads
    for t in &u {
        if matches!(t, RaySlice(..)) {
            continue;
        }
        v.push(Prog { params: vec![*t], body: "shared(a0)".into(), ann: None, right: true, id: [5000, id(*t), 0, 0, 3] });
    }
    for e in ["Error", "coordinate_system::WorldFrame", "coordinate_system::CameraFrame", "SharedOriginRayBundle<f64>", "SharedDirectionRayBundle<f32>"] {
        v.push(Prog { params: vec![], body: format!("movable::<{e}>()"), ann: None, right: true, id: [5001, tag_hash(e), 0, 0, 3] });
    }
    v
}
const HEAD: &str = "#![allow(unused)]\nuse cam_geom::*; use cam_geom::ray_bundle_types::*; use cam_geom::linearize::*; use nalgebra::*; use nalgebra::storage::Owned; use std::borrow::Borrow;\n\
pub struct Mine; impl CoordinateSystem for Mine {}\n\
pub fn movable<T: Send + Sync + 'static>() {} pub fn pair<'a, T>(_: &'a T, _: &'a T) -> &'a [T] { loop {} } pub fn shared<T: Send + Sync + 'static>(_: &T) {}\n";
const PARTS: usize = 8;
/// For each program, the compiler's first complaint.
pub type Verdicts = Vec<Option<String>>;
fn compile(dir: &str, crate_name: &str, progs: &[(usize, &Prog)], parts: usize, check: bool) -> HashMap<usize, String> {
    let src = format!("{dir}/{crate_name}/src/bin");
    let _ = std::fs::remove_dir_all(&src);
    std::fs::create_dir_all(&src).unwrap();
    std::fs::write(
        format!("{dir}/{crate_name}/Cargo.toml"),
        format!("[package]\nname = \"{crate_name}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\ncam-geom = {{ path = \"/repo\" }}\nnalgebra = {{ version = \"0.33\", default-features = false, features = [\"libm\"] }}\n[profile.dev]\ndebug = 0\nincremental = false\n"),
    )
    .unwrap();
    let head = HEAD.lines().count();
    let mut at: Vec<Vec<usize>> = vec![vec![]; parts];
    for (i, (k, _)) in progs.iter().enumerate() {
        at[i % parts].push(*k);
    }
    let by: HashMap<usize, &Prog> = progs.iter().copied().collect();
    for (j, ks) in at.iter().enumerate() {
        let mut t = HEAD.to_string();
        for k in ks {
            t += &by[k].line(*k);
            t.push('\n');
        }
        t += "fn main() {}\n";
        std::fs::write(format!("{src}/q{j}.rs"), t).unwrap();
    }
    let o = Command::new("cargo")
        .current_dir(format!("{dir}/{crate_name}"))
        .args([if check { "check" } else { "build" }, "--offline", "--keep-going", "--message-format=json", "--target-dir", &format!("{dir}/target")])
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_TARGET_DIR")
        .output()
        .expect("cargo");
    let mut out = HashMap::new();
    let mut unmapped = 0;
    let mut done = std::collections::HashSet::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let Ok(m) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if m["reason"] == "compiler-artifact" && m["target"]["kind"][0] == "bin" {
            done.insert(m["target"]["name"].as_str().unwrap_or("").to_string());
        }
        if m["reason"] != "compiler-message" || m["message"]["level"] != "error" {
            continue;
        }
        let name = m["target"]["name"].as_str().unwrap_or("");
        let text = m["message"]["message"].as_str().unwrap_or("").to_string();
        let code = m["message"]["code"]["code"].as_str().unwrap_or("").to_string();
        let Some(j) = name.strip_prefix('q').and_then(|x| x.parse::<usize>().ok()) else {
            eprintln!("{name}: {code} {text}");
            eprintln!("cam-geom does not build");
            std::process::exit(2);
        };
        if text.starts_with("aborting") || text.starts_with("could not compile") {
            continue;
        }
        done.insert(name.to_string());
        let mut mapped = false;
        for sp in m["message"]["spans"].as_array().into_iter().flatten() {
            if sp["is_primary"] == true && sp["file_name"].as_str().map_or(false, |f| f.ends_with(&format!("q{j}.rs"))) {
                let line = sp["line_start"].as_u64().unwrap() as usize;
                if line > head && line - head <= at[j].len() {
                    mapped = true;
                    out.entry(at[j][line - head - 1]).or_insert_with(|| format!("{code}: {text}"));
                }
            }
        }
        if !mapped {
            eprintln!("{crate_name}: {code} {text}");
            unmapped += 1;
        }
    }
    if done.len() < parts || unmapped > 0 {
        eprintln!("{}", String::from_utf8_lossy(&o.stderr));
        eprintln!("the compiler gave no verdict");
        std::process::exit(2);
    }
    out
}
fn verdicts(progs: &[Prog]) -> Verdicts {
    let dir = format!("{}/target/typed", verif_dir());
    let all: Vec<(usize, &Prog)> = progs.iter().enumerate().collect();
    let right: Vec<_> = all.iter().copied().filter(|(_, p)| p.right).collect();
    let wrong: Vec<_> = all.iter().copied().filter(|(_, p)| !p.right).collect();
    // apart: errors in one part of a crate must not keep the compiler from the rest of another
    let mut m = compile(&dir, "right", &right, PARTS, true);
    m.extend(compile(&dir, "wrong", &wrong, PARTS, true));
    (0..progs.len()).map(|i| m.remove(&i)).collect()
}
pub fn prepare() {
    let p = programs(false);
    let right: Vec<_> = p.iter().enumerate().filter(|(_, p)| p.right).take(8).collect();
    compile(&format!("{}/target/typed", verif_dir()), "right", &right, 1, true);
}
struct Check {
    progs: Arc<Vec<Prog>>,
    got: Arc<Verdicts>,
}
impl Body for Check {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let p = &self.progs[d[0]];
        t.call("rustc");
        t.state_u("program", &p.id);
        let g = &self.got[d[0]];
        t.note(|| p.line(d[0]));
        let show = || format!("{} is {}", p.line(d[0]), g.as_ref().map_or("accepted".into(), |e| format!("rejected: {e}")));
        t.yes(p.right == g.is_none(), || format!("a program that must{} compile: {}", if p.right { "" } else { " not" }, show()))
    }
}
pub fn plan(thorough: bool) -> Plan {
    let progs = programs(thorough);
    let got = Arc::new(verdicts(&progs));
    if std::env::var_os("MC_PROGRAMS").is_some() {
        for (i, p) in progs.iter().enumerate() {
            if p.right != got[i].is_none() {
                eprintln!("right={} {} {:?}", p.right, p.line(i), got[i]);
            }
        }
    }
    let n = progs.len();
    Plan {
        sections: vec![Section::new("programs", Check { progs: Arc::new(progs), got }).disc("program", n).scalars(&[Scal::F64]).no_closure()],
        rule: "a state is a program (operations, argument types, bound result type, use of the result); the transition is its type check",
        assumptions: vec!["Whether directions() and centers() exist for dynamically sized bundles, and methods of plain nalgebra matrices, are left open."],
    }
}
