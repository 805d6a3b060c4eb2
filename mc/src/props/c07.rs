//! C07: ray bundle queries.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::*;
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, Dim, DimName, Dyn, Isometry3, Owned, SMatrix, U1, U3};

pub const DISTS: [f64; 7] = [1.0, 0.0, -2.5, 1000.0, 1e-3, -1e-6, 0.75];

pub type Lines<'a> = &'a dyn Fn(usize) -> (V3, V3);

/// Point queries, any row count.
pub fn points<S: Sc, B: Bundle<S>, N: Dim, F: CoordinateSystem>(
    rb: &RayBundle<F, B, S, N, Owned<S, N, U3>>,
    line: Lines,
    dists: &[f64],
    t: &mut Trace,
) -> Res
where
    DefaultAllocator: Allocator<N, U3>,
{
    let n = rb.data.nrows();
    for d in dists {
        let d = S::f(*d);
        t.call("point_on_ray_at_distance");
        let got = rb.point_on_ray_at_distance(d).data;
        t.yes(got.nrows() == n, || "row count".into())?;
        for i in 0..n {
            let (o, u) = line(i);
            let want = add3(o, scale3(unit3(u), E::x(d.g())));
            if i == 0 {
                t.state("point", &want);
            }
            t.near3("point_on_ray_at_distance", get3(&got, i), want).map_err(|f| suffix(f, &format!("ray {i} of {n} at distance {:e}", d.g())))?;
        }
    }
    t.call("point_on_ray");
    let got = rb.point_on_ray().data;
    t.yes(got.nrows() == n, || "row count".into())?;
    for i in 0..n {
        let (o, u) = line(i);
        t.near3("point_on_ray", get3(&got, i), add3(o, u)).map_err(|f| suffix(f, &format!("ray {i} of {n}")))?;
    }
    Ok(())
}
/// Per-ray origins and directions, static row count.
pub fn parts<S: Sc, B: Bundle<S>, N: DimName, F: CoordinateSystem>(
    rb: &RayBundle<F, B, S, N, Owned<S, N, U3>>,
    line: Lines,
    t: &mut Trace,
) -> Res
where
    DefaultAllocator: Allocator<N, U3>,
{
    t.calls("centers/directions", 2);
    let (c, d) = (rb.centers(), rb.directions());
    for i in 0..c.nrows() {
        let (o, u) = line(i);
        t.near3("centers()", get3(&c, i), o).map_err(|f| suffix(f, &format!("ray {i}")))?;
        t.near3("directions()", get3(&d, i), u).map_err(|f| suffix(f, &format!("ray {i}")))?;
    }
    Ok(())
}
pub fn single<S: Sc, B: Bundle<S>, F: CoordinateSystem>(rb: &RayBundle<F, B, S, U1, Owned<S, U1, U3>>, line: Lines, t: &mut Trace) -> Res {
    t.call("to_single_ray");
    let r = rb.to_single_ray();
    let (o, u) = line(0);
    t.near3("to_single_ray().center", get3(&r.center, 0), o)?;
    t.near3("to_single_ray().direction", get3(&r.direction, 0), u)
}
/// All queries on a bundle of the given rows, in static sizes 1 and 3 and dynamic size 3.
fn all<S: Sc, B: Bundle<S> + Clone>(b: &B, rows: &[[S; 3]; 3], line: Lines, dists: &[f64], t: &mut Trace) -> Res {
    let id = Isometry3::<S>::identity();
    let one = SMatrix::<S, 1, 3>::from_fn(|_, j| rows[0][j]);
    let rb: RayBundle<CameraFrame, _, _, _, _> = b.to_pose(id, &one);
    points(&rb, line, dists, t)?;
    parts(&rb, line, t)?;
    single(&rb, line, t)?;
    // the bundle-type level operations
    t.calls("Bundle::{directions,centers,point_on_ray,point_on_ray_at_distance,to_single_ray}", 5);
    let (o, u) = line(0);
    t.near3("Bundle::directions", get3(&b.directions(&one), 0), u)?;
    t.near3("Bundle::centers", get3(&b.centers(&one), 0), o)?;
    let p: Points<WorldFrame, _, _, _> = b.point_on_ray(&one);
    t.near3("Bundle::point_on_ray", get3(&p.data, 0), add3(o, u))?;
    let d = S::f(dists[0]);
    let p: Points<WorldFrame, _, _, _> = b.point_on_ray_at_distance(&one, d);
    t.near3("Bundle::point_on_ray_at_distance", get3(&p.data, 0), add3(o, scale3(unit3(u), E::x(d.g()))))?;
    let r: Ray<WorldFrame, S> = b.to_single_ray(&one);
    t.near3("Bundle::to_single_ray().center", get3(&r.center, 0), o)?;
    t.near3("Bundle::to_single_ray().direction", get3(&r.direction, 0), u)?;
    let three = SMatrix::<S, 3, 3>::from_fn(|i, j| rows[i][j]);
    let rb: RayBundle<WorldFrame, _, _, _, _> = b.to_pose(id, &three);
    points(&rb, line, dists, t)?;
    parts(&rb, line, t)?;
    let rb: RayBundle<WorldFrame, _, _, Dyn, _> = b.to_pose(id, &dyn3(rows));
    points(&rb, line, dists, t)
}
fn rows3<S: Sc>(r: &[f64]) -> [[S; 3]; 3] {
    let a = arr3::<S>(r);
    [a, [S::f(2.0), S::f(-1.0), S::f(0.5)], [a[2], a[0] * S::f(2.0) + S::f(0.25), a[1]]]
}
struct OriginB;
impl Body for OriginB {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let c: [S; 3] = arr3(x[0]);
        let rows = rows3::<S>(x[1]);
        if rows.iter().any(|r| r.iter().all(|v| v.g() == 0.0)) {
            return skip();
        }
        let line = |i: usize| (ex3(&c), ex3(&rows[i]));
        let dist = [DISTS[d[0]]];
        all(&origin_type(&c), &rows, &line, &dist, t)?;
        if c.iter().all(|v| v.g() == 0.0) {
            t.call("new_shared_zero_origin");
            let rb = RayBundle::<CameraFrame, _, _, _, _>::new_shared_zero_origin(SMatrix::<S, 3, 3>::from_fn(|i, j| rows[i][j]));
            points(&rb, &line, &dist, t)?;
            parts(&rb, &line, t)?;
            let rb = RayBundle::<WorldFrame, _, _, _, _>::new_shared_zero_origin(SMatrix::<S, 1, 3>::from_fn(|i, j| rows[i][j]));
            single(&rb, &line, t)?;
        }
        Ok(())
    }
}
struct DirectionB;
impl Body for DirectionB {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let u: [S; 3] = arr3(x[0]);
        if u.iter().all(|v| v.g() == 0.0) {
            return skip();
        }
        let rows = rows3::<S>(x[1]);
        let line = |i: usize| (ex3(&rows[i]), ex3(&u));
        let dist = [DISTS[d[0]]];
        all(&direction_type(&u), &rows, &line, &dist, t)?;
        if u[0].g() == 0.0 && u[1].g() == 0.0 && u[2].g() == 1.0 {
            t.call("new_shared_plusz_direction");
            let rb = RayBundle::<CameraFrame, _, _, _, _>::new_shared_plusz_direction(SMatrix::<S, 3, 3>::from_fn(|i, j| rows[i][j]));
            points(&rb, &line, &dist, t)?;
            parts(&rb, &line, t)?;
            let rb = RayBundle::<WorldFrame, _, _, _, _>::new_shared_plusz_direction(SMatrix::<S, 1, 3>::from_fn(|i, j| rows[i][j]));
            single(&rb, &line, t)?;
        }
        Ok(())
    }
}
/// Bundles that a camera produces.
struct FromCamera;
impl Body for FromCamera {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (e, pose) = ext::<S>(x[0], x[1]);
        let px = SMatrix::<S, 2, 2>::new(S::f(x[2][0]), S::f(x[2][1]), S::f(17.0), S::f(-350.5));
        let inv = pose.inverse();
        let dist = [DISTS[d[0]]];
        t.call("pixel_to_world");
        let uv = |i: usize| [E::x(px[(i, 0)].g()), E::x(px[(i, 1)].g())];
        let (i, k) = persp::<S>(&[100.0, -80.0, 5.0, 320.0, 240.0]);
        let rb = Camera::new(i, e.clone()).pixel_to_world(&Pixels::new(px));
        let line = |i: usize| (inv.t, inv.apply_vec(backproject_persp(&k, uv(i))));
        points(&rb, &line, &dist, t)?;
        let (i, k) = ortho::<S>(&[100.0, -80.0, 320.0, 240.0]);
        let rb = Camera::new(i, e).pixel_to_world(&Pixels::new(px));
        let z = inv.apply_vec(v3(&[0.0, 0.0, 1.0]));
        let line = |i: usize| (inv.apply(backproject_ortho(&k, uv(i))), z);
        points(&rb, &line, &dist, t)?;
        parts(&rb, &line, t)
    }
}
struct Batch(Vec<usize>);
impl Body for Batch {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let n = self.0[d[0]];
        let a: [S; 3] = arr3(x[0]);
        let rows: Vec<[S; 3]> = (0..n).map(|i| arr3(&super::c01::pat_row(d[1], i))).collect();
        let id = Isometry3::<S>::identity();
        t.state_u("batch", &[n as u64, d[1] as u64]);
        let rb: RayBundle<WorldFrame, _, _, Dyn, _> = origin_type(&a).to_pose(id, &dyn3(&rows));
        points(&rb, &|i| (ex3(&a), ex3(&rows[i])), &[-2.5], t)?;
        let rb: RayBundle<WorldFrame, _, _, Dyn, _> = direction_type(&a).to_pose(id, &dyn3(&rows));
        points(&rb, &|i| (ex3(&rows[i]), ex3(&a)), &[-2.5], t)
    }
}
pub fn plan(thorough: bool) -> Plan {
    let s: &[f64] = if thorough { &[0.0, 1.0, -1.0, 0.5, -3.0, 40.0, 1e-3, -1e3, 1e-6] } else { &[0.0, 1.0, -1.0, 0.5, -30.0, 1e-3] };
    let mut d3 = product(&[s, s, s]);
    d3.extend(dirs());
    let sz = sizes(if thorough { 70000 } else { 2100 });
    Plan {
        sections: vec![
            Section::new("shared-origin", OriginB).group("origin", centers()).group("direction", d3.clone()).disc("distance", DISTS.len()),
            Section::new("shared-direction", DirectionB).group("direction", d3).group("origin", centers()).disc("distance", DISTS.len()),
            Section::new("camera-bundles", FromCamera)
                .group("rotation wijk", rots_all())
                .group("center", centers())
                .group("pixel", vec![vec![0.0, 0.0], vec![640.0, -3.5], vec![320.0, 240.0]])
                .disc("distance", DISTS.len())
                .no_closure(),
            Section::new("batches", Batch(sz.clone()))
                .group("shared part", vec![vec![0.3, -2.0, 1.5]])
                .disc("number of rays", sz.len())
                .disc("row pattern", super::c01::PATTERNS)
                .no_closure(),
        ],
        rule: "a case is non-trivial if the model point at the distance differs from all points seen before",
        assumptions: vec!["Bundles with arbitrary origin or direction are made through the serialized form of the public bundle types."],
    }
}
