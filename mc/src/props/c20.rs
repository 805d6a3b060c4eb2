//! C20: results do not depend on call history or concurrent use.
use super::c18::{fp_bundle, fp_cam, fp_ortho, fp_persp, fp_pose};
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::scalar::{self, Sc, Tr};
use crate::step;
use crate::tables::lcg;
use crate::tok::{build, to_tok, Tok};
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use nalgebra::{Isometry3, Point3, SMatrix, Translation3, Unit, Vector3};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{mpsc, Arc, OnceLock};
use std::time::Duration;

/// The objects every operation works on. Three variants, all different.
pub struct Slot<S: Sc> {
    p: Camera<S, IntrinsicParametersPerspective<S>>,
    o: Camera<S, IntrinsicParametersOrthographic<S>>,
    lin: JacobianPerspectiveCache<S>,
    rays: Vec<Ray<WorldFrame, S>>,
    m: SMatrix<S, 3, 4>,
    v: usize,
}
pub const VARIANTS: usize = 3;
pub const OPS: [&str; 20] = [
    "world_to_pixel (perspective)",
    "pixel_to_world (perspective)",
    "world_to_pixel (orthographic)",
    "pixel_to_world (orthographic)",
    "as_camera_matrix",
    "JacobianPerspectiveCache::new + linearize_at",
    "linearize_at with a kept cache",
    "best_intersection_of_rays",
    "from_perspective_matrix",
    "from_normalized_3x4_matrix",
    "from_view",
    "from_pose",
    "world_to_camera + camera_to_world",
    "pose accessors",
    "perspective intrinsics",
    "orthographic intrinsics",
    "ray_camera_to_world",
    "serialize + deserialize",
    "single rays",
    "failing calls",
];
const Q: [[f64; 4]; 3] = [[0.5, 0.5, -0.5, 0.5], [0.3, 0.5, -0.7, 0.2], [-0.3, 0.5, -0.7, 0.2]];
const C: [[f64; 3]; 3] = [[1.25, -2.5, 3.75], [1.25, -2.5, 3.75], [-7.0, 0.5, 1.0]];
const K: [[f64; 5]; 3] = [[100.0, 120.5, 0.25, 320.0, 240.0], [100.0, 120.5, 0.25, 322.0, 239.0], [-50.0, 60.0, -1.5, 0.1, 511.75]];
impl<S: Sc> Slot<S> {
    pub fn new(v: usize) -> Slot<S> {
        let e = ext::<S>(&Q[v], &C[v]).0;
        let p = Camera::new(persp::<S>(&K[v]).0, e.clone());
        let f = v as f64;
        // opposite sign: the decomposition takes the other branches
        let sg = if v == 2 { -3.0 } else { 1.0 };
        let m = SMatrix::<S, 3, 4>::new(S::f(100.0), S::f(2.0 + f), S::f(-320.0), S::f(7.0), S::f(1.0), S::f(-90.0), S::f(200.0 - f), S::f(-3.0), S::f(0.1), S::f(0.3), S::f(1.0), S::f(2.0 + f));
        Slot {
            lin: JacobianPerspectiveCache::new(&p),
            // in the last variant all parallel
            rays: (0..3 + v).map(|i| Ray::new(SMatrix::<S, 1, 3>::from_fn(|_, j| S::f(lcg(i, j + 3 * v))), SMatrix::<S, 1, 3>::from_fn(|_, j| S::f(if v == 2 { [1.0, -2.0, 0.5][j] * [1.0, -4.0][i % 2] } else { lcg(i + 7, j + 3 * v) })))).collect(),
            p,
            o: Camera::new(ortho::<S>(&K[v][..4]).0, e),
            m: m * S::f(sg),
            v,
        }
    }
    fn tok(&self) -> [Tok; 2] {
        [to_tok(&self.p).unwrap(), to_tok(&self.o).unwrap()]
    }
    pub fn op(&self, op: usize) -> Vec<u64> {
        let f = self.v as f64;
        let pts = SMatrix::<S, 2, 3>::from_fn(|i, j| S::f(lcg(i, j) * 3.0 + f));
        let ptd = Mat3D::<S>::from_fn(3, |i, j| S::f(lcg(i, j) * 2.0 - f));
        let px = SMatrix::<S, 2, 2>::from_fn(|i, j| S::f(lcg(i, j) * 300.0 + f));
        let pd = Mat2D::<S>::from_fn(3, |i, j| S::f(lcg(i, j) * 200.0 - f));
        let mut out: Vec<f64> = vec![];
        let at = |k: usize| Points::<WorldFrame, _, _, _>::new(pts.fixed_rows::<1>(k).into_owned());
        fn ext_<S: Sc>(o: &mut Vec<f64>, m: &[S]) {
            o.extend(m.iter().map(|x| x.g()))
        }
        match op {
            0 => ext_(&mut out, self.p.world_to_pixel(&Points::new(pts)).data.as_slice()),
            1 => {
                let b = self.p.pixel_to_world(&Pixels::new(pd));
                out = step::quiet(|| fp_bundle(&b));
            }
            2 => ext_(&mut out, self.o.world_to_pixel(&Points::new(ptd)).data.as_slice()),
            3 => {
                let b = self.o.pixel_to_world(&Pixels::new(px));
                out = step::quiet(|| fp_bundle(&b));
            }
            4 => ext_(&mut out, self.p.as_camera_matrix().as_slice()),
            5 => {
                let l = JacobianPerspectiveCache::new(&self.p);
                ext_(&mut out, l.linearize_at(&at(0)).as_slice());
                ext_(&mut out, l.linearize_at(&at(1)).as_slice());
            }
            6 => ext_(&mut out, self.lin.linearize_at(&at(1)).as_slice()),
            7 => match best_intersection_of_rays(&self.rays) {
                Ok(p) => ext_(&mut out, p.data.as_slice()),
                Err(_) => out.push(-1.0),
            },
            8 => match Camera::from_perspective_matrix(&self.m) {
                Ok(c) => out = step::quiet(|| fp_cam(&c, fp_persp)),
                Err(_) => out.push(-1.0),
            },
            9 => {
                let m = SMatrix::<S, 3, 4>::new(S::f(9.0 + f), S::f(0.5), S::f(3.0), S::f(0.0), S::f(0.0), S::f(7.0 - f), S::f(2.0), S::f(0.0), S::f(0.0), S::f(0.0), S::f(1.0), S::f(0.0));
                match IntrinsicParametersPerspective::from_normalized_3x4_matrix(m) {
                    Ok(i) => out = step::quiet(|| fp_persp(&i)),
                    Err(_) => out.push(-1.0),
                }
            }
            10 => {
                let c = Vector3::new(S::f(1.0), S::f(f), S::f(-2.0));
                let e = ExtrinsicParameters::from_view(&c, &Vector3::new(S::f(3.0 - f), S::f(0.5), S::f(0.25)), &Unit::new_normalize(Vector3::new(S::f(0.0), S::f(0.2), S::f(1.0))));
                out = step::quiet(|| fp_pose(&e));
            }
            11 => {
                let iso = Isometry3::from_parts(Translation3::new(S::f(1.0), S::f(-f), S::f(0.5)), quat::<S>(&[0.4, -0.3, 0.1 + f, 0.7]).0);
                let e = ExtrinsicParameters::from_pose(&iso);
                out = step::quiet(|| fp_pose(&e));
            }
            12 => {
                let e = self.p.extrinsics();
                ext_(&mut out, e.world_to_camera(&Points::new(ptd)).data.as_slice());
                ext_(&mut out, e.camera_to_world(&Points::new(pts)).data.as_slice());
            }
            13 => out = fp_pose(self.o.extrinsics()),
            14 => out = fp_persp(self.p.intrinsics()),
            15 => out = fp_ortho(self.o.intrinsics()),
            16 => {
                let e = self.p.extrinsics();
                let a = e.ray_camera_to_world(&RayBundle::<CameraFrame, _, _, _, _>::new_shared_plusz_direction(pts));
                let b = e.ray_camera_to_world(&RayBundle::<CameraFrame, _, _, _, _>::new_shared_zero_origin(pts));
                out = step::quiet(|| fp_bundle(&a));
                out.extend(step::quiet(|| fp_bundle(&b)));
                ext_(&mut out, a.centers().as_slice());
                ext_(&mut out, a.directions().as_slice());
                ext_(&mut out, b.centers().as_slice());
                ext_(&mut out, b.directions().as_slice());
            }
            17 => {
                let p: Camera<S, IntrinsicParametersPerspective<S>> = build(&to_tok(&self.p).unwrap());
                let o: Camera<S, IntrinsicParametersOrthographic<S>> = build(&to_tok(&self.o).unwrap());
                step::quiet(|| {
                    out = fp_cam(&p, fp_persp);
                    out.extend(fp_cam(&o, fp_ortho));
                });
            }
            18 => {
                let one = Pixels::new(px.fixed_rows::<1>(0).into_owned());
                for r in [self.p.pixel_to_world(&one).to_single_ray(), self.o.pixel_to_world(&one).to_single_ray()] {
                    ext_(&mut out, r.center.as_slice());
                    ext_(&mut out, r.direction.as_slice());
                }
            }
            _ => {
                // calls that must report an error
                let z = || Ray::<WorldFrame, S>::new(SMatrix::<S, 1, 3>::zeros(), SMatrix::<S, 1, 3>::zeros());
                let code = |e: Option<Error>| match e {
                    None => 0.0,
                    Some(Error::InvalidInput) => 1.0,
                    Some(Error::MinimumTwoRaysNeeded) => 2.0,
                    Some(_) => 3.0,
                };
                out.push(code(best_intersection_of_rays(&self.rays[..1]).err()));
                out.push(code(best_intersection_of_rays(&[z(), z()]).err()));
                out.push(code(IntrinsicParametersPerspective::from_normalized_3x4_matrix(self.m).err()));
                out.push(code(Camera::from_perspective_matrix(&SMatrix::<S, 3, 4>::zeros()).err()));
                out.push(code(Camera::from_perspective_matrix(&SMatrix::<S, 3, 4>::from_element(S::f(f64::NAN))).err()));
            }
        }
        out.iter().map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() }).collect()
    }
}
/// Entry point of the child processes: one operation, first thing in the process.
pub fn child(scal: &str, v: usize, op: usize) {
    let r = match Scal::parse(scal) {
        Scal::F64 => Slot::<f64>::new(v).op(op),
        Scal::F32 => Slot::<f32>::new(v).op(op),
        Scal::Tr => Slot::<Tr>::new(v).op(op),
    };
    println!("{}", r.iter().map(|x| format!("{x:016x}")).collect::<Vec<_>>().join(" "));
}
/// [scalar][variant][operation]: what each operation gives as the first call of a fresh process.
type Base = [Vec<Vec<Vec<u64>>>; 3];
fn base() -> &'static Base {
    static B: OnceLock<Base> = OnceLock::new();
    B.get_or_init(|| {
        let exe = std::env::current_exe().unwrap();
        let one = |s: Scal| -> Vec<Vec<Vec<u64>>> {
            (0..VARIANTS)
                .map(|v| {
                    let kids: Vec<_> = (0..OPS.len())
                        .map(|o| std::process::Command::new(&exe).args(["op", s.name(), &v.to_string(), &o.to_string()]).stdout(std::process::Stdio::piped()).spawn().unwrap())
                        .collect();
                    kids.into_iter()
                        .map(|k| {
                            let o = k.wait_with_output().unwrap();
                            String::from_utf8(o.stdout).unwrap().split_whitespace().map(|h| u64::from_str_radix(h, 16).unwrap()).collect()
                        })
                        .collect()
                })
                .collect()
        };
        [one(Scal::F64), one(Scal::F32), one(Scal::Tr)]
    })
}
fn of<S: Sc>() -> &'static Vec<Vec<Vec<u64>>> {
    &base()[match S::NAME {
        "f64" => 0,
        "f32" => 1,
        _ => 2,
    }]
}
fn differs(op: usize, v: usize, got: &[u64], want: &[u64], how: &str) -> Fail {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let f = |x: Option<&u64>| x.map_or("nothing".into(), |x| format!("{:e}", f64::from_bits(*x)));
    Fail::Bad(format!("{} on object {v} {how}: output {i} is {}, as the only call of a fresh process it is {}", OPS[op], f(got.get(i)), f(want.get(i))))
}
fn in_thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> Result<R, Fail> {
    std::thread::spawn(f).join().or_else(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        bad(format!("panicked: {m}"))
    })
}
/// One letter: put variant v in the slot and run an operation on it.
fn step<S: Sc>(slot: &mut Slot<S>, v: usize, op: usize, how: impl Fn() -> String) -> Res {
    if slot.v != v {
        *slot = Slot::new(v);
    }
    let got = slot.op(op);
    let want = &of::<S>()[v][op];
    if got != *want {
        return Err(differs(op, v, &got, want, &how()));
    }
    Ok(())
}
fn show(w: &[(usize, usize)]) -> String {
    w.iter().map(|(v, o)| format!("{}({v})", OPS[*o])).collect::<Vec<_>>().join("; ")
}
/// All words of (object, operation), each in a fresh thread, objects replaced in place.
struct Words {
    len: usize,
}
impl Body for Words {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let word: Vec<(usize, usize)> = (0..self.len).map(|i| (d[2 * i], d[2 * i + 1])).collect();
        t.calls("operation", self.len as u64);
        t.compared += self.len as u64 + 2;
        let h: Vec<u64> = word.iter().map(|(v, o)| (v * 100 + o) as u64).collect();
        t.state_u("history", &h);
        in_thread(move || -> Res {
            let mut slot = Box::new(Slot::<S>::new(word[0].0));
            for i in 0..word.len() {
                step(&mut slot, word[i].0, word[i].1, || format!("after [{}]", show(&word[..i])))?;
            }
            let fresh = Slot::<S>::new(slot.v);
            if !(slot.p == fresh.p && slot.o == fresh.o) || slot.tok().iter().zip(&fresh.tok()).any(|(a, b)| !a.same(b)) {
                return bad(format!("camera changed by [{}]", show(&word)));
            }
            Ok(())
        })?
    }
}
/// The same with single and double precision mixed.
struct Mixed;
impl Body for Mixed {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let d: Vec<usize> = d.to_vec();
        t.calls("operation", 3);
        t.compared += 3;
        t.state_u("mixed history", &[d[0] as u64, d[1] as u64, d[2] as u64]);
        in_thread(move || -> Res {
            let (mut a, mut b) = (Slot::<f64>::new(d[2]), Slot::<f32>::new(d[2]));
            step(&mut a, d[2], d[0], || "in a mixed history".into())?;
            step(&mut b, d[2], d[1], || format!("in single precision after {} in double precision", OPS[d[0]]))?;
            step(&mut a, d[2], d[0], || format!("in double precision after {} in single precision", OPS[d[1]]))
        })?
    }
}
/// One operation very many times, with another in between.
struct Repeat {
    n: usize,
}
impl Body for Repeat {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (a, b, n) = (d[0], d[1], if d[0] == d[1] { self.n } else { self.n / 16 });
        t.calls("operation", 2 * n as u64);
        t.compared += 2 * n as u64;
        t.state_u("repetition", &[a as u64, b as u64]);
        in_thread(move || -> Res {
            let mut s = Slot::<S>::new(1);
            for i in 0..n {
                step(&mut s, 1, a, || format!("after {i} calls, alternating with {}", OPS[b]))?;
                if b != a {
                    step(&mut s, 1, b, || format!("after {i} calls, alternating with {}", OPS[a]))?;
                }
            }
            Ok(())
        })?
    }
}
/// How long the scheduled operation may block on something the preempted one holds.
const BLOCKED: Duration = Duration::from_millis(400);
/// Number of preemption points of every operation of every variant.
fn points() -> &'static Vec<Vec<u64>> {
    static P: OnceLock<Vec<Vec<u64>>> = OnceLock::new();
    P.get_or_init(|| {
        (0..VARIANTS)
            .map(|v| {
                (0..OPS.len())
                    .map(|o| {
                        let s = Slot::<Tr>::new(v);
                        s.op(o);
                        scalar::ops_reset();
                        s.op(o);
                        scalar::ops()
                    })
                    .collect()
            })
            .collect()
    })
}
/// Operation `a` is preempted before each of its scalar operations in turn; there, operation `b` runs to completion in another thread.
struct Preempt {
    pairs: Vec<(usize, usize)>,
}
fn pair_slots(a: usize, b: usize, same: bool) -> (Arc<Slot<Tr>>, Arc<Slot<Tr>>, usize, usize) {
    let _ = (a, b);
    let s = Arc::new(Slot::<Tr>::new(0));
    if same {
        (s.clone(), s, 0, 0)
    } else {
        (s, Arc::new(Slot::<Tr>::new(2)), 0, 2)
    }
}
impl Body for Preempt {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (a, b) = self.pairs[d[0]];
        let (sa, sb, va, vb) = pair_slots(a, b, d[1] == 0);
        let (ba, bb) = (&of::<Tr>()[va][a], &of::<Tr>()[vb][b]);
        // worker thread for b
        let (req, rreq) = mpsc::channel::<()>();
        let (rep, rrep) = mpsc::channel::<Vec<u64>>();
        let worker = std::thread::spawn(move || {
            while rreq.recv().is_ok() {
                if rep.send(sb.op(b)).is_err() {
                    break;
                }
            }
        });
        let rrep = Arc::new(std::sync::Mutex::new(rrep));
        let n = points()[va][a];
        let mut res = Ok(());
        for k in 0..n {
            let got_b = Arc::new(std::sync::Mutex::new(None::<Vec<u64>>));
            let pending = Arc::new(AtomicU64::new(0));
            {
                let (got_b, pending, rrep, req) = (got_b.clone(), pending.clone(), rrep.clone(), req.clone());
                scalar::preempt(
                    k,
                    Box::new(move || {
                        if pending.swap(1, SeqCst) == 0 && req.send(()).is_ok() {
                            // if b waits for a lock held by a, let a go on
                            match rrep.lock().unwrap().recv_timeout(BLOCKED) {
                                Ok(r) => *got_b.lock().unwrap() = Some(r),
                                Err(_) => pending.store(2, SeqCst),
                            }
                        }
                    }),
                );
            }
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sa.op(a)));
            scalar::preempt_off();
            t.calls("operation", 2);
            t.compared += 2;
            t.state_u("schedule", &[a as u64, b as u64, d[1] as u64, k]);
            let how = |x: &str, y: &str| format!("{x} {y} at scalar operation {k} of {n}");
            match got {
                Err(_) => {
                    res = bad(format!("{} panicked, {}", OPS[a], how("preempted by", OPS[b])));
                }
                Ok(g) if g != *ba => res = Err(differs(a, va, &g, ba, &how("preempted by", OPS[b]))),
                _ => {}
            }
            let mut gb = got_b.lock().unwrap().take();
            if res.is_ok() && gb.is_none() && pending.load(SeqCst) == 2 {
                gb = rrep.lock().unwrap().recv_timeout(Duration::from_secs(10)).ok();
            }
            if res.is_ok() {
                match gb {
                    Some(g) if g != *bb => res = Err(differs(b, vb, &g, bb, &how("running while another thread is in", OPS[a]))),
                    None if pending.load(SeqCst) != 0 => res = bad(format!("{} panicked or did not return, {}", OPS[b], how("running while another thread is in", OPS[a]))),
                    _ => {}
                }
            }
            if res.is_err() {
                break;
            }
        }
        drop(req);
        if res.is_ok() {
            let _ = worker.join();
        }
        res
    }
}
/// Two preemptions: a runs to its k-th scalar operation, b runs to its j-th, a finishes, b finishes.
struct Preempt2 {
    pairs: Vec<(usize, usize)>,
}
impl Body for Preempt2 {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (a, b) = self.pairs[d[0]];
        let (sa, sb, va, vb) = pair_slots(a, b, d[1] == 0);
        let (ba, bb) = (&of::<Tr>()[va][a], &of::<Tr>()[vb][b]);
        let (na, nb) = (points()[va][a], points()[vb][b]);
        // commands for b: run with a stop at j; it reports the stop, waits, and reports its result
        enum Rep {
            Stopped,
            Done(Vec<u64>),
        }
        let (req, rreq) = mpsc::channel::<u64>();
        let (go, rgo) = mpsc::channel::<()>();
        let (rep, rrep) = mpsc::channel::<Rep>();
        let rgo = Arc::new(std::sync::Mutex::new(rgo));
        let worker = std::thread::spawn(move || {
            while let Ok(j) = rreq.recv() {
                let (rgo, rep2) = (rgo.clone(), rep.clone());
                let mut once = false;
                scalar::preempt(
                    j,
                    Box::new(move || {
                        if !once {
                            once = true;
                            let _ = rep2.send(Rep::Stopped);
                            let _ = rgo.lock().unwrap().recv();
                        }
                    }),
                );
                let r = sb.op(b);
                scalar::preempt_off();
                if rep.send(Rep::Done(r)).is_err() {
                    break;
                }
            }
        });
        let rrep = Arc::new(std::sync::Mutex::new(rrep));
        let mut res = Ok(());
        'all: for k in 0..na {
            for j in 0..nb {
                let st = Arc::new(AtomicU64::new(0));
                {
                    let (st, rrep, req) = (st.clone(), rrep.clone(), req.clone());
                    scalar::preempt(
                        k,
                        Box::new(move || {
                            if st.swap(1, SeqCst) == 0 && req.send(j).is_ok() {
                                // wait until b stops (or blocks)
                                let _ = rrep.lock().unwrap().recv_timeout(BLOCKED);
                            }
                        }),
                    );
                }
                let got = sa.op(a);
                scalar::preempt_off();
                let _ = go.send(());
                t.calls("operation", 2);
                t.compared += 2;
                t.state_u("schedule with two preemptions", &[a as u64, b as u64, d[1] as u64, k, j]);
                if got != *ba {
                    res = Err(differs(a, va, &got, ba, &format!("preempted at scalar operation {k} by {}, itself preempted at {j}", OPS[b])));
                    break 'all;
                }
                let g = loop {
                    match rrep.lock().unwrap().recv_timeout(Duration::from_secs(10)) {
                        Ok(Rep::Done(r)) => break Some(r),
                        Ok(Rep::Stopped) => continue,
                        Err(_) => break None,
                    }
                };
                match g {
                    Some(g) if g == *bb => {}
                    Some(g) => {
                        res = Err(differs(b, vb, &g, bb, &format!("preempted at scalar operation {j} by the rest of {}", OPS[a])));
                        break 'all;
                    }
                    None => {
                        res = bad(format!("{} did not return, preempted at {j} by {} from {k}", OPS[b], OPS[a]));
                        break 'all;
                    }
                }
            }
        }
        drop(req);
        if res.is_ok() {
            let _ = worker.join();
        }
        res
    }
}
/// Operation `a` is stepped by single machine instructions; before chosen ones, operation `b`
/// runs to completion in another thread. Release code, plain f64 and f32.
struct Step {
    pairs: Vec<(usize, usize)>,
    /// hand over before every instruction i with i % period == phase, for every phase
    periods: Vec<u64>,
    /// hand over exactly once, before every instruction in turn
    single: bool,
}
impl Body for Step {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (a, b) = self.pairs[d[0]];
        let (va, vb) = [(0, 0), (0, 2), (2, 0)][d[1]];
        let sa = Arc::new(Slot::<S>::new(va));
        let sb = if va == vb { sa.clone() } else { Arc::new(Slot::<S>::new(vb)) };
        let ba = &of::<S>()[va][a];
        let bb = of::<S>()[vb][b].clone();
        let hand = Arc::new(step::Hand::default());
        let h2 = hand.clone();
        let bb2 = bb.clone();
        let worker = std::thread::spawn(move || step::serve(h2, move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sb.op(b) == bb2)).unwrap_or(false)));
        let mut runs: Vec<(u64, u64)> = vec![];
        for p in &self.periods {
            runs.extend((0..*p).map(|ph| (*p, ph)));
        }
        let mut res = Ok(());
        let mut go = |period: u64, phase: u64, last: u64, t: &mut Trace| -> Result<u64, Fail> {
            let (got, s) = step::stepped(&hand, period, phase, last, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sa.op(a))));
            t.calls("operation", 1 + s.handovers);
            t.compared += 1 + s.handovers;
            t.state_u("instruction schedule", &[a as u64, b as u64, d[1] as u64, period, phase]);
            let how = |x: &str, y: &str| format!("{x} {y} before every machine instruction i with i mod {period} = {phase} ({} of {} instructions)", s.handovers, s.instructions);
            match got {
                Err(_) => return bad(format!("{} panicked, {}", OPS[a], how("preempted by", OPS[b]))),
                Ok(g) if g != *ba => return Err(differs(a, va, &g, ba, &how("preempted by", OPS[b]))),
                _ => {}
            }
            if hand.wrong.load(SeqCst) != 0 {
                return bad(format!("{} on object {vb} gives another result, {}", OPS[b], how("run while another thread is in", OPS[a])));
            }
            Ok(s.instructions)
        };
        for (p, ph) in runs {
            if let Err(e) = go(p, ph, u64::MAX, t) {
                res = Err(e);
                break;
            }
        }
        if self.single && res.is_ok() {
            let mut k = 0;
            loop {
                match go(u64::MAX, k, k, t) {
                    Ok(n) if n > k => k += 1,
                    Ok(_) => break,
                    Err(e) => {
                        res = Err(e);
                        break;
                    }
                }
            }
        }
        hand.quit.store(1, SeqCst);
        let _ = worker.join();
        res
    }
}
pub fn plan(thorough: bool) -> Plan {
    let n = OPS.len();
    let words = |len: usize, name: &'static str| {
        let mut s = Section::new(name, Words { len });
        for i in 0..len {
            s = s.disc(["object 1", "object 2", "object 3", "object 4"][i], VARIANTS).disc(["operation 1", "operation 2", "operation 3", "operation 4"][i], n);
        }
        s.no_closure()
    };
    let mut pairs: Vec<(usize, usize)> = vec![];
    let mut small: Vec<(usize, usize)> = vec![];
    for a in 0..n {
        for b in 0..n {
            let w = |o: usize| points()[0][o];
            pairs.push((a, b));
            if w(a) * w(b) < if thorough { 1_000_000 } else { 0 } {
                small.push((a, b));
            }
        }
    }
    let mut s = vec![words(1, "single calls"), words(2, "histories of 2"), words(3, "histories of 3").scalars(if thorough { BOTH } else { &[Scal::F64] })];
    s.push(Section::new("mixed precision", Mixed).disc("operation in double precision", n).disc("operation in single precision", n).disc("object", VARIANTS).scalars(&[Scal::F64]).no_closure());
    s.push(Section::new("repetitions", Repeat { n: if thorough { 300_000 } else { 70_000 } }).disc("operation", n).disc("alternating with", n).no_closure());
    let np = pairs.len();
    s.push(
        Section::new("instruction preemption", Step { pairs: pairs.clone(), periods: if thorough { vec![1, 32] } else { vec![1] }, single: false })
            .disc("preempted and preempting operation", np)
            .disc("shared object, or one of two", 3)
            .scalars(BOTH)
            .no_closure(),
    );
    if thorough {
        // the operations of about two thousand instructions and less
        let short: Vec<(usize, usize)> = pairs.iter().filter(|p| [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12].contains(&p.0)).cloned().collect();
        s.push(
            Section::new("one instruction preemption", Step { pairs: short.clone(), periods: vec![], single: true })
                .disc("preempted and preempting operation", short.len())
                .disc("shared object, or one of two", 3)
                .scalars(&[Scal::F64])
                .no_closure(),
        );
    }
    s.push(Section::new("one preemption", Preempt { pairs }).disc("preempted and preempting operation", np).disc("shared or separate objects", 2).scalars(&[Scal::Tr]).no_closure());
    if !small.is_empty() {
        let ns = small.len();
        s.push(Section::new("two preemptions", Preempt2 { pairs: small }).disc("preempted and preempting operation", ns).disc("shared or separate objects", 2).scalars(&[Scal::Tr]).no_closure());
    }
    Plan {
        sections: s,
        rule: "a state is a history (word of object and operation) or a schedule (pair of operations and the scalar operation at which each is preempted)",
        assumptions: vec!["Preemption points are the scalar operations (arithmetic, comparison, clone) of the library running on the traced scalar, and, on f64 and f32 in release code, the machine instructions (trap flag); instruction schedules hand over before every instruction at once (thorough: also before every 32nd, all phases, and before exactly one), in sequentially consistent memory order.", "Looking at the results (fingerprints of cameras, poses and bundles) is not stepped through.", "Baseline: the same call as the first call of a fresh process."],
    }
}
#[allow(unused)]
fn _p(_: Point3<f64>) {}
pub fn counts() {
    for (o, name) in OPS.iter().enumerate() {
        let h = Arc::new(step::Hand::default());
        let s = Slot::<f64>::new(0);
        let (_, r) = step::stepped(&h, u64::MAX, u64::MAX, u64::MAX, || s.op(o));
        println!("{name}: {} instructions", r.instructions);
    }
    let h = Arc::new(step::Hand::default());
    let s = Slot::<f64>::new(0);
    let t = std::time::Instant::now();
    let mut n = 0;
    for _ in 0..20 { n += step::stepped(&h, u64::MAX, u64::MAX, u64::MAX, || s.op(8)).1.instructions; }
    println!("{} ns per step", t.elapsed().as_nanos() as u64 / n);
}
