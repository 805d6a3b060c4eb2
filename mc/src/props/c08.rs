//! C08: moving ray bundles by words of rigid motions.
use super::c07::{parts, points, single};
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;
use nalgebra::{Dyn, Isometry3, Owned, Point3, SMatrix, U1, U2, U3};

fn motions() -> Vec<(Vec<f64>, Vec<f64>)> {
    vec![
        (vec![1.0, 0.0, 0.0, 0.0], vec![1.5, -2.0, 0.25]),
        (vec![0.3, 0.5, -0.7, 0.2], vec![0.0, 0.0, 0.0]),
        (vec![-0.9, 0.1, 0.4, -0.3], vec![10.0, 0.5, -3.0]),
        (vec![0.0, 1.0, 2.0, 2.0], vec![-0.5, 100.0, 2.0]),
        (vec![1.0, 0.0, 0.0, 1.0], vec![0.0, 0.0, -4.0]),
    ]
}
/// Apply motion m to a bundle in one of the library's ways.
fn step<S: Sc, B: Bundle<S>>(
    rb: RayBundle<WorldFrame, B, S, U1, Owned<S, U1, U3>>,
    b: &B,
    iso: Isometry3<S>,
    t: &mut Trace,
) -> RayBundle<WorldFrame, B, S, U1, Owned<S, U1, U3>> {
    t.call("Bundle::to_pose");
    b.to_pose(iso, &rb.data)
}
/// The bundle type of a bundle, recovered through its serialized form.
fn btype<S: Sc, B: serde::Serialize + serde::de::DeserializeOwned + Bundle<S>>(rb: &RayBundle<WorldFrame, B, S, U1, Owned<S, U1, U3>>) -> B {
    let t = crate::tok::to_tok(rb).unwrap();
    if let crate::tok::Tok::Struct(f) = &t {
        for (_, v) in f {
            if let (Ok(b), _) = crate::tok::from_tok::<B>(v, crate::tok::PLAIN, u64::MAX) {
                if matches!(v, crate::tok::Tok::Struct(_)) {
                    return b;
                }
            }
        }
    }
    panic!("cannot recover the bundle type")
}
#[allow(clippy::too_many_arguments)]
fn run_word<S: Sc, B: Bundle<S> + Clone + serde::Serialize + serde::de::DeserializeOwned>(
    b0: B,
    row: [S; 3],
    line0: (V3, V3),
    word: &[usize],
    seal: bool,
    dist: f64,
    t: &mut Trace,
) -> Res {
    let mut rb: RayBundle<WorldFrame, B, S, U1, Owned<S, U1, U3>> = b0.to_pose(Isometry3::identity(), &row3(&row));
    let mut b = b0.clone();
    let mut line = line0;
    let mut composed: Option<(Isometry3<S>, Pose)> = None;
    let ms = motions();
    for (n, m) in word.iter().enumerate() {
        // letters: motion forwards, or its inverse
        let (q, tr) = &ms[m / 2];
        let (mut i, mut p) = iso::<S>(q, tr);
        if m % 2 == 1 {
            i = i.inverse();
            p = p.inverse();
            // the inverse isometry itself is rounded
            let w = unit() * 8.0;
            p.t = widen3(p.t, w * len3(&p.t));
            p.r = p.r.map(|r| widen3(r, w));
        }
        let at = |f: Fail| suffix(f, &format!("after motions {:?}", &word[..=n]));
        // taking a point first and moving it
        t.call("point_on_ray_at_distance");
        let before = get3(&rb.point_on_ray_at_distance(S::f(dist)).data, 0);
        let moved = i.transform_point(&Point3::new(before[0], before[1], before[2]));
        rb = step(rb, &b, i, t);
        t.call("point_on_ray_at_distance");
        let after = get3(&rb.point_on_ray_at_distance(S::f(dist)).data, 0);
        line = (p.apply(line.0), p.apply_vec(line.1));
        let tol = p.apply(widen3(ex3(&before), 0.0));
        let want = add3(line.0, scale3(unit3(line.1), E::x(dist)));
        for j in 0..3 {
            t.near("point of the moved bundle vs moved point", after[j], E::x(moved[j].g()).widen(tol[j].e * 4.0 + want[j].e * 4.0)).map_err(at)?;
        }
        let l = |_| line;
        t.state("line", &[line.0[0], line.0[1], line.1[0], line.1[1], line.1[2]]);
        points(&rb, &l, &[dist], t).map_err(at)?;
        parts(&rb, &l, t).map_err(at)?;
        single(&rb, &l, t).map_err(at)?;
        // composition
        composed = Some(match composed {
            None => (i, p),
            Some((ci, cp)) => (i * ci, p.compose(&cp)),
        });
        if n + 1 == word.len() {
            let ci = composed.unwrap().0;
            t.call("Bundle::to_pose(composition)");
            let once: RayBundle<WorldFrame, B, S, U1, _> = b0.to_pose(ci, &row3(&row));
            let wide = |_| (widen3(line.0, 3.0 * line.0[0].e.max(line.0[1].e).max(line.0[2].e)), widen3(line.1, 3.0 * line.1[0].e.max(line.1[1].e).max(line.1[2].e)));
            points(&once, &wide, &[dist], t).map_err(at)?;
            parts(&once, &wide, t).map_err(at)?;
        }
        b = if seal { btype(&rb) } else { b };
        if !seal {
            break;
        }
    }
    Ok(())
}
struct Words(Vec<Vec<usize>>);
impl Body for Words {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let shared: [S; 3] = arr3(x[0]);
        let row: [S; 3] = arr3(x[1]);
        let dist = [0.75, -40.0][d[2]];
        let zero = |a: &[S; 3]| a.iter().all(|v| v.g() == 0.0);
        if d[1] == 0 {
            if zero(&row) {
                return skip();
            }
            run_word(origin_type(&shared), row, (ex3(&shared), ex3(&row)), &self.0[d[0]], true, dist, t)
        } else {
            if zero(&shared) {
                return skip();
            }
            run_word(direction_type(&shared), row, (ex3(&row), ex3(&shared)), &self.0[d[0]], true, dist, t)
        }
    }
}
/// One motion: pose x bundle, through Bundle::to_pose and ray_camera_to_world, several rows.
struct One;
impl Body for One {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let shared: [S; 3] = arr3(x[2]);
        let rows: [[S; 3]; 2] = [arr3(x[3]), [S::f(0.5), S::f(2.0), S::f(-1.0)]];
        let zero = |a: &[S; 3]| a.iter().all(|v| v.g() == 0.0);
        if (d[0] == 0 && zero(&rows[0])) || (d[0] == 1 && zero(&shared)) {
            return skip();
        }
        let data = SMatrix::<S, 2, 3>::from_fn(|i, j| rows[i][j]);
        let line0 = |i: usize| if d[0] == 0 { (ex3(&shared), ex3(&rows[i])) } else { (ex3(&rows[i]), ex3(&shared)) };
        let (e, pose) = ext::<S>(x[0], x[1]);
        let inv = pose.inverse();
        let lw = |i: usize| (inv.apply(line0(i).0), inv.apply_vec(line0(i).1));
        let (m, mp) = iso::<S>(x[0], x[1]);
        let lm = |i: usize| (mp.apply(line0(i).0), mp.apply_vec(line0(i).1));
        t.calls("ray_camera_to_world/to_pose", 3);
        let id = Isometry3::<S>::identity();
        let dist = [0.75, -40.0];
        if d[0] == 0 {
            let b = origin_type(&shared);
            let cam: RayBundle<CameraFrame, _, S, U2, Owned<S, U2, U3>> = b.to_pose(id, &data);
            let w = e.ray_camera_to_world(&cam);
            points(&w, &lw, &dist, t)?;
            parts(&w, &lw, t)?;
            let w: RayBundle<WorldFrame, _, S, Dyn, _> = b.to_pose(m, &dyn3(&rows));
            points(&w, &lm, &dist, t)
        } else {
            let b = direction_type(&shared);
            let cam: RayBundle<CameraFrame, _, S, U2, Owned<S, U2, U3>> = b.to_pose(id, &data);
            let w = e.ray_camera_to_world(&cam);
            points(&w, &lw, &dist, t)?;
            parts(&w, &lw, t)?;
            let w: RayBundle<WorldFrame, _, S, Dyn, _> = b.to_pose(m, &dyn3(&rows));
            points(&w, &lm, &dist, t)
        }
    }
}
struct Batch(Vec<usize>);
impl Body for Batch {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let n = self.0[d[0]];
        let (m, mp) = iso::<S>(x[0], x[1]);
        let a: [S; 3] = arr3(x[2]);
        let rows: Vec<[S; 3]> = (0..n).map(|i| arr3(&super::c01::pat_row(d[1], i))).collect();
        t.state_u("batch", &[n as u64, d[1] as u64]);
        let rb: RayBundle<WorldFrame, _, _, Dyn, _> = origin_type(&a).to_pose(m, &dyn3(&rows));
        points(&rb, &|i| (mp.apply(ex3(&a)), mp.apply_vec(ex3(&rows[i]))), &[-2.5], t)?;
        let rb: RayBundle<WorldFrame, _, _, Dyn, _> = direction_type(&a).to_pose(m, &dyn3(&rows));
        points(&rb, &|i| (mp.apply(ex3(&rows[i])), mp.apply_vec(ex3(&a))), &[-2.5], t)
    }
}
pub fn plan(thorough: bool) -> Plan {
    let nm = motions().len() * 2;
    let w = words(nm, 1, if thorough { 4 } else { 3 });
    let sz = sizes(if thorough { 20000 } else { 2100 });
    let mut d = dirs();
    d.push(vec![0.0, 0.0, 0.0]);
    let rows: Vec<Vec<f64>> = vec![vec![1.0, 2.0, 2.0], vec![-0.3, 0.0, 5.0], vec![0.0, 0.0, 1.0], vec![20.0, -1.0, 0.5]];
    Plan {
        sections: vec![
            Section::new("one-motion", One)
                .group("rotation wijk", rots_all())
                .group("center or translation", centers())
                .group("shared part", d.clone())
                .group("row", d)
                .disc("kind", 2),
            Section::new("motion-words", Words(w.clone()))
                .group("shared part", rows.clone())
                .group("row", rows)
                .disc("word", w.len())
                .disc("kind", 2)
                .disc("distance", 2)
                .no_closure(),
            Section::new("batches", Batch(sz.clone()))
                .group("rotation wijk", vec![rots_few()[5].clone()])
                .group("translation", vec![vec![3.0, -1.0, 0.5]])
                .group("shared part", vec![vec![0.3, -2.0, 1.5]])
                .disc("number of rays", sz.len())
                .disc("row pattern", super::c01::PATTERNS)
                .no_closure(),
        ],
        rule: "a case is non-trivial if the moved model line differs from all lines seen before",
        assumptions: vec!["Bundles with arbitrary origin or direction are made through the serialized form of the public bundle types."],
    }
}
