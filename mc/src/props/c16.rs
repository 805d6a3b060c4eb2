//! C16: rows are independent, whatever the size and the storage.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;
use nalgebra::{allocator::Allocator, storage::Storage, Const, DefaultAllocator, Dim, DimName, Dyn, Matrix, MatrixView, OMatrix, RawStorage, SMatrix, U1, U2, U3};

pub struct Cams<S: Sc> {
    pub e: ExtrinsicParameters<S>,
    pub p: IntrinsicParametersPerspective<S>,
    pub o: IntrinsicParametersOrthographic<S>,
}
type Out = Vec<(&'static str, Vec<Vec<f64>>)>;
fn rows<S: Sc, N: Dim, C: Dim, St: RawStorage<S, N, C>>(m: &Matrix<S, N, C, St>) -> Vec<Vec<f64>> {
    (0..m.nrows()).map(|i| (0..m.ncols()).map(|j| m[(i, j)].g()).collect()).collect()
}
/// Every row-wise operation.
pub fn ops<S: Sc, N: Dim, S3, S2>(c: &Cams<S>, w: Matrix<S, N, U3, S3>, px: Matrix<S, N, U2, S2>) -> Out
where
    S3: Storage<S, N, U3> + Clone,
    S2: Storage<S, N, U2>,
    DefaultAllocator: Allocator<N, U3> + Allocator<N, U2> + Allocator<U1, U2>,
{
    let mut o: Out = vec![];
    let dist = S::f(-2.5);
    let world = Points::<WorldFrame, _, _, _>::new(w.clone());
    let camp = Points::<CameraFrame, _, _, _>::new(w.clone());
    let px = Pixels::new(px);
    let pc = Camera::new(c.p.clone(), c.e.clone());
    let oc = Camera::new(c.o.clone(), c.e.clone());
    o.push(("world_to_pixel (perspective)", rows(&pc.world_to_pixel(&world).data)));
    o.push(("world_to_pixel (orthographic)", rows(&oc.world_to_pixel(&world).data)));
    o.push(("camera_to_pixel (perspective)", rows(&c.p.camera_to_pixel(&camp).data)));
    o.push(("camera_to_pixel (orthographic)", rows(&c.o.camera_to_pixel(&camp).data)));
    o.push(("world_to_camera", rows(&c.e.world_to_camera(&world).data)));
    o.push(("camera_to_world", rows(&c.e.camera_to_world(&camp).data)));
    macro_rules! bundle {
        ($n:literal, $b:expr) => {{
            let b = $b;
            o.push((concat!($n, " data"), rows(&b.data)));
            o.push((concat!($n, " point_on_ray"), rows(&b.point_on_ray().data)));
            o.push((concat!($n, " point_on_ray_at_distance"), rows(&b.point_on_ray_at_distance(dist).data)));
        }};
    }
    bundle!("pixel_to_camera (perspective)", c.p.pixel_to_camera(&px));
    bundle!("pixel_to_camera (orthographic)", c.o.pixel_to_camera(&px));
    bundle!("pixel_to_world (perspective)", pc.pixel_to_world(&px));
    bundle!("pixel_to_world (orthographic)", oc.pixel_to_world(&px));
    let so = RayBundle::<CameraFrame, _, _, _, _>::new_shared_zero_origin(w.clone());
    let sd = RayBundle::<CameraFrame, _, _, _, _>::new_shared_plusz_direction(w);
    bundle!("ray_camera_to_world (shared origin)", c.e.ray_camera_to_world(&so));
    bundle!("ray_camera_to_world (shared direction)", c.e.ray_camera_to_world(&sd));
    bundle!("shared origin", so);
    bundle!("shared direction", sd);
    o
}
/// Additionally, what is only offered for static sizes.
fn static_ops<S: Sc, N: DimName>(c: &Cams<S>, w: OMatrix<S, N, U3>, px: OMatrix<S, N, U2>) -> Out
where
    DefaultAllocator: Allocator<N, U3> + Allocator<N, U2> + Allocator<U1, U2>,
{
    let mut o = ops(c, w.clone(), px.clone());
    let so = RayBundle::<CameraFrame, _, _, _, _>::new_shared_zero_origin(w.clone());
    let sd = RayBundle::<CameraFrame, _, _, _, _>::new_shared_plusz_direction(w);
    let (sow, sdw) = (c.e.ray_camera_to_world(&so), c.e.ray_camera_to_world(&sd));
    o.push(("centers (shared origin)", rows(&so.centers())));
    o.push(("directions (shared origin)", rows(&so.directions())));
    o.push(("centers (shared direction)", rows(&sd.centers())));
    o.push(("directions (shared direction)", rows(&sd.directions())));
    o.push(("centers (shared origin, world)", rows(&sow.centers())));
    o.push(("directions (shared origin, world)", rows(&sow.directions())));
    o.push(("centers (shared direction, world)", rows(&sdw.centers())));
    o.push(("directions (shared direction, world)", rows(&sdw.directions())));
    o
}
pub const STATIC: [usize; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 31, 32, 33, 64];
pub const STORAGES: [&str; 7] = ["static", "dynamic", "static rows of a dynamic matrix", "every second row", "transposed (row major)", "column-major slice", "static row-major slice"];
/// Run all operations on the given rows in the given storage; None if the storage cannot hold that many rows.
fn run_all<S: Sc>(c: &Cams<S>, w: &[[S; 3]], px: &[[S; 2]], storage: usize) -> Option<Out> {
    let n = w.len();
    macro_rules! stat {
        ($($k:literal)*) => { match n {
            $($k => {
                let w = SMatrix::<S, $k, 3>::from_fn(|i, j| w[i][j]);
                let px = SMatrix::<S, $k, 2>::from_fn(|i, j| px[i][j]);
                Some(static_ops::<S, Const<$k>>(c, w, px))
            })*
            _ => None,
        }};
    }
    macro_rules! statview {
        ($($k:literal)*) => { match n {
            $($k => {
                let wm = OMatrix::<S, Dyn, U3>::from_fn(n + 3, |i, j| if i < 2 || i >= n + 2 { S::f(777.0) } else { w[i - 2][j] });
                let pm = OMatrix::<S, Dyn, U2>::from_fn(n + 3, |i, j| if i < 2 || i >= n + 2 { S::f(777.0) } else { px[i - 2][j] });
                Some(ops(c, wm.fixed_rows::<$k>(2), pm.fixed_rows::<$k>(2)))
            })*
            _ => None,
        }};
    }
    macro_rules! statrm {
        ($($k:literal)*) => { match n {
            $($k => {
                let wf: Vec<S> = w.iter().flatten().cloned().collect();
                let pf: Vec<S> = px.iter().flatten().cloned().collect();
                Some(ops(c,
                    MatrixView::<S, Const<$k>, U3, U3, U1>::from_slice_with_strides_generic(&wf, Const::<$k>, U3, U3, U1),
                    MatrixView::<S, Const<$k>, U2, U2, U1>::from_slice_with_strides_generic(&pf, Const::<$k>, U2, U2, U1)))
            })*
            _ => None,
        }};
    }
    match storage {
        0 => stat!(1 2 3 4 5 6 7 8 16 17 31 32 33 64),
        1 => Some(ops(c, dyn3(w), dyn2(px))),
        2 => statview!(1 2 3 4 5 6 7 8 16 17),
        3 => {
            let wm = OMatrix::<S, Dyn, U3>::from_fn(2 * n + 1, |i, j| if i % 2 == 0 { S::f(-555.0) } else { w[i / 2][j] });
            let pm = OMatrix::<S, Dyn, U2>::from_fn(2 * n + 1, |i, j| if i % 2 == 0 { S::f(-555.0) } else { px[i / 2][j] });
            Some(ops(c, wm.rows_with_step(1, n, 1), pm.rows_with_step(1, n, 1)))
        }
        4 => {
            let wf: Vec<S> = w.iter().flatten().cloned().collect();
            let pf: Vec<S> = px.iter().flatten().cloned().collect();
            Some(ops(
                c,
                MatrixView::<S, Dyn, U3, U3, U1>::from_slice_with_strides_generic(&wf, Dyn(n), U3, U3, U1),
                MatrixView::<S, Dyn, U2, U2, U1>::from_slice_with_strides_generic(&pf, Dyn(n), U2, U2, U1),
            ))
        }
        5 => {
            // columns stored with a gap
            let mut wf = vec![S::f(99.0); 3 * (n + 5)];
            let mut pf = vec![S::f(99.0); 2 * (n + 5)];
            for i in 0..n {
                for j in 0..3 {
                    wf[j * (n + 5) + i] = w[i][j];
                }
                for j in 0..2 {
                    pf[j * (n + 5) + i] = px[i][j];
                }
            }
            Some(ops(
                c,
                MatrixView::<S, Dyn, U3, U1, Dyn>::from_slice_with_strides_generic(&wf, Dyn(n), U3, U1, Dyn(n + 5)),
                MatrixView::<S, Dyn, U2, U1, Dyn>::from_slice_with_strides_generic(&pf, Dyn(n), U2, U1, Dyn(n + 5)),
            ))
        }
        _ => statrm!(1 2 3 4 5 6 7 8 16 17),
    }
}
fn cams<S: Sc>(k: usize) -> Cams<S> {
    let q = rots_few();
    let e = ext::<S>(&q[[5, 6, 0][k]], &centers_few()[[2, 3, 0][k]]).0;
    Cams { e, p: persp(&kpersp()[[2, 5, 0][k]]).0, o: ortho(&kortho()[[2, 5, 0][k]]).0 }
}
fn row_data(pat: usize, i: usize) -> ([f64; 3], [f64; 2]) {
    let i = match pat {
        0 => i,
        1 => i / 2,
        _ => i % 3,
    };
    ([lcg(i, 0) * 3.0 + 1.0, lcg(i, 1) * 2.0, lcg(i, 2) * 5.0], [lcg(i, 3) * 400.0, lcg(i, 4) * 300.0])
}
/// Compare every row with what it gives alone.
fn compare(alone: &[Out], got: &Out, n: usize, poison: Option<usize>, tol: f64, what: &str, t: &mut Trace) -> Res {
    for (k, (name, r)) in got.iter().enumerate() {
        if r.len() != n {
            return bad(format!("{name}, {what}: {} rows for {n}", r.len()));
        }
        for i in 0..n {
            if poison == Some(i) {
                continue;
            }
            let (an, a) = &alone[i][k.min(alone[i].len() - 1)];
            debug_assert_eq!(an, name);
            for j in 0..r[i].len() {
                let (g, w) = (r[i][j], a[0][j]);
                t.compared += 1;
                // a bit of slack: the same row may be computed with different instructions
                if !((g - w).abs() <= tol * (w.abs() + 10.0) || g.to_bits() == w.to_bits()) {
                    return bad(format!("{name}, {what}: row {i} of {n} column {j} is {g:e}, alone it gives {w:e}"));
                }
            }
        }
    }
    Ok(())
}
fn tol<S: Sc>() -> f64 {
    4096.0 * S::EPS
}
struct Sizes(Vec<usize>);
impl Body for Sizes {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let n = self.0[d[0]];
        let c = cams::<S>(d[2]);
        let w: Vec<[S; 3]> = (0..n).map(|i| arr3(&row_data(d[3], i).0)).collect();
        let px: Vec<[S; 2]> = (0..n).map(|i| row_data(d[3], i).1.map(S::f)).collect();
        let Some(got) = run_all(&c, &w, &px, d[1]) else { return skip() };
        t.calls(STORAGES[d[1]], got.len() as u64);
        t.state_u("size and storage", &[n as u64, d[1] as u64, d[2] as u64, d[3] as u64]);
        let alone: Vec<Out> = (0..n).map(|i| run_all(&c, &w[i..i + 1], &px[i..i + 1], 0).unwrap()).collect();
        compare(&alone, &got, n, None, tol::<S>(), STORAGES[d[1]], t)
    }
}
/// One row is NaN or infinite; all others must not notice.
struct Poison(Vec<usize>);
const BAD: [[f64; 5]; 8] = [
    [f64::NAN; 5],
    [f64::INFINITY, 1.0, 2.0, 3.0, f64::NEG_INFINITY],
    [1.0, f64::NEG_INFINITY, 2.0, f64::INFINITY, 1.0],
    [1.0, 2.0, f64::NAN, 5.0, f64::NAN],
    [0.0, 0.0, 0.0, 0.0, 0.0],
    [f64::NAN, 2.0, 1.0, f64::NAN, 1.0],
    [1.0, f64::NAN, 1.0, f64::INFINITY, f64::INFINITY],
    [1e300, -1e300, 1e300, 1e300, -1e300],
];
impl Body for Poison {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let n = self.0[d[0]];
        if d[1] >= n {
            return skip();
        }
        let c = cams::<S>(d[3] % 2);
        let mut w: Vec<[S; 3]> = (0..n).map(|i| arr3(&row_data(0, i).0)).collect();
        let mut px: Vec<[S; 2]> = (0..n).map(|i| row_data(0, i).1.map(S::f)).collect();
        let b = BAD[d[2]];
        let alone: Vec<Out> = (0..n).map(|i| run_all(&c, &w[i..i + 1], &px[i..i + 1], 0).unwrap()).collect();
        w[d[1]] = arr3(&b[..3]);
        px[d[1]] = [S::f(b[3]), S::f(b[4])];
        let Some(got) = run_all(&c, &w, &px, d[3]) else { return skip() };
        t.calls(STORAGES[d[3]], got.len() as u64);
        t.state_u("bad row", &[n as u64, d[1] as u64, d[2] as u64, d[3] as u64]);
        compare(&alone, &got, n, Some(d[1]), tol::<S>(), &format!("{}, bad row {}", STORAGES[d[3]], d[1]), t)
    }
}
/// Batches whose rows come from a small alphabet: all words.
struct Words(Vec<Vec<usize>>);
impl Body for Words {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let al: [([f64; 3], [f64; 2]); 5] = [
            ([1.0, 2.0, -0.5], [10.0, 20.0]),
            ([-1.5, 0.25, 4.0], [-300.0, 0.5]),
            ([1.0, 2.0, 0.5], [10.0, 21.0]),
            ([f64::NAN, 1.0, f64::INFINITY], [f64::NAN, 0.0]),
            ([3.0, 2.0, -0.5], [639.0, 479.0]),
        ];
        let c = cams::<S>(d[2]);
        let word = &self.0[d[0]];
        let w: Vec<[S; 3]> = word.iter().map(|i| arr3(&al[*i].0)).collect();
        let px: Vec<[S; 2]> = word.iter().map(|i| al[*i].1.map(S::f)).collect();
        let n = w.len();
        let Some(got) = run_all(&c, &w, &px, d[1]) else { return skip() };
        t.calls(STORAGES[d[1]], got.len() as u64);
        t.state_u("word", &[d[0] as u64, d[1] as u64, d[2] as u64]);
        let alone: Vec<Out> = (0..n).map(|i| run_all(&c, &w[i..i + 1], &px[i..i + 1], 0).unwrap()).collect();
        for i in 0..n {
            if word[i] == 3 {
                // only the others are judged
                compare(&alone, &got, n, Some(i), tol::<S>(), STORAGES[d[1]], t).or_else(|e| {
                    if word.iter().filter(|k| **k == 3).count() > 1 { Ok(()) } else { Err(e) }
                })?;
            }
        }
        if !word.contains(&3) {
            compare(&alone, &got, n, None, tol::<S>(), STORAGES[d[1]], t)?;
        }
        Ok(())
    }
}
pub fn plan(thorough: bool) -> Plan {
    let sz = sizes(if thorough { 70000 } else { 1100 });
    let pn: Vec<usize> = if thorough { (1..=40).collect() } else { vec![1, 2, 3, 4, 5, 6, 7, 8, 16, 17] };
    let wd = words(5, 2, if thorough { 5 } else { 4 });
    let maxn = *pn.iter().max().unwrap();
    Plan {
        sections: vec![
            Section::new("sizes-and-storages", Sizes(sz.clone())).disc("rows", sz.len()).disc("storage", 7).disc("camera", 3).disc("row pattern", 3).no_closure(),
            Section::new("bad-row", Poison(pn.clone())).disc("rows", pn.len()).disc("position", maxn).disc("bad values", BAD.len()).disc("storage", 7).no_closure(),
            Section::new("words-of-rows", Words(wd.clone())).disc("word", wd.len()).disc("storage", 7).disc("camera", 2).no_closure(),
        ],
        rule: "a state is a batch shape: size, storage, camera, row pattern, position and kind of the bad row",
        assumptions: vec!["Rows are compared to within 4096 ulp of (|value| + 10), so that vectorised code may differ in rounding."],
    }
}
