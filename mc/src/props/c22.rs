//! C22: the public round-trip checker accepts exactly the models that round-trip.
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::scalar::Sc;
use crate::tables::*;
use cam_geom::intrinsic_test_utils::roundtrip_intrinsics;
use cam_geom::ray_bundle_types::*;
use cam_geom::*;
use nalgebra::{allocator::Allocator, storage::Storage, DefaultAllocator, Dim, Isometry3, OMatrix, Owned, Translation3, UnitQuaternion, U1, U2, U3};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// An exact model, except at the given pixels.
#[derive(Debug, Clone)]
struct Faulty<S: Sc, const DIR: bool> {
    /// (column, row, coordinate, deviation)
    faults: Vec<(usize, usize, usize, S)>,
    /// deviation of every pixel
    all: [S; 2],
    /// deviations happen while back-projecting (otherwise while projecting)
    back: bool,
    origin: [f64; 3],
}
impl<S: Sc, const DIR: bool> Faulty<S, DIR> {
    fn dev(&self, u: S, v: S) -> [S; 2] {
        let mut d = self.all;
        let (c, r) = (u.g().round(), v.g().round());
        for f in &self.faults {
            if f.0 as f64 == c && f.1 as f64 == r {
                d[f.2] += f.3;
            }
        }
        d
    }
    fn rays<N: Dim, IN: Storage<S, N, U2>>(&self, px: &Pixels<S, N, IN>) -> OMatrix<S, N, U3>
    where
        DefaultAllocator: Allocator<N, U3>,
    {
        OMatrix::<S, N, U3>::from_fn_generic(N::from_usize(px.data.nrows()), U3, |i, j| {
            let (u, v) = (px.data[(i, 0)], px.data[(i, 1)]);
            let d = if self.back { self.dev(u, v) } else { [S::f(0.0); 2] };
            match j {
                0 => u + d[0],
                1 => v + d[1],
                _ => S::f(if DIR { 0.0 } else { 1.0 }),
            }
        })
    }
    fn pixels<N: Dim, IN: Storage<S, N, U3>>(&self, p: &Points<CameraFrame, S, N, IN>) -> Pixels<S, N, Owned<S, N, U2>>
    where
        DefaultAllocator: Allocator<N, U2>,
    {
        let o = self.origin.map(S::f);
        Pixels::new(OMatrix::<S, N, U2>::from_fn_generic(N::from_usize(p.data.nrows()), U2, |i, j| {
            let at = |j: usize| if DIR { p.data[(i, j)] - o[j] } else { (p.data[(i, j)] - o[j]) / (p.data[(i, 2)] - o[2]) };
            let (u, v) = (at(0), at(1));
            let d = if self.back { [S::f(0.0); 2] } else { self.dev(u, v) };
            [u, v][j] + d[j]
        }))
    }
    fn iso(&self) -> Isometry3<S> {
        let o = self.origin.map(S::f);
        Isometry3::from_parts(Translation3::new(o[0], o[1], o[2]), UnitQuaternion::identity())
    }
}
impl<S: Sc> IntrinsicParameters<S> for Faulty<S, false> {
    type BundleType = SharedOriginRayBundle<S>;
    fn pixel_to_camera<IN, N>(&self, px: &Pixels<S, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, S, N, Owned<S, N, U3>>
    where
        IN: Storage<S, N, U2>,
        N: Dim,
        DefaultAllocator: Allocator<U1, U2> + Allocator<N, U2> + Allocator<N, U3>,
    {
        SharedOriginRayBundle::new_shared_zero_origin().to_pose(self.iso(), &self.rays(px))
    }
    fn camera_to_pixel<IN, N>(&self, p: &Points<CameraFrame, S, N, IN>) -> Pixels<S, N, Owned<S, N, U2>>
    where
        IN: Storage<S, N, U3>,
        N: Dim,
        DefaultAllocator: Allocator<N, U2>,
    {
        self.pixels(p)
    }
}
impl<S: Sc> IntrinsicParameters<S> for Faulty<S, true> {
    type BundleType = SharedDirectionRayBundle<S>;
    fn pixel_to_camera<IN, N>(&self, px: &Pixels<S, N, IN>) -> RayBundle<CameraFrame, Self::BundleType, S, N, Owned<S, N, U3>>
    where
        IN: Storage<S, N, U2>,
        N: Dim,
        DefaultAllocator: Allocator<U1, U2> + Allocator<N, U2> + Allocator<N, U3>,
    {
        SharedDirectionRayBundle::new_plusz_shared_direction().to_pose(self.iso(), &self.rays(px))
    }
    fn camera_to_pixel<IN, N>(&self, p: &Points<CameraFrame, S, N, IN>) -> Pixels<S, N, Owned<S, N, U2>>
    where
        IN: Storage<S, N, U3>,
        N: Dim,
        DefaultAllocator: Allocator<N, U2>,
    {
        self.pixels(p)
    }
}
/// Deviations in units of the tolerance; the bool says whether it must be noticed.
const DEV: [(f64, bool); 9] = [(0.0, false), (0.5, false), (-0.75, false), (2.0, true), (-1.5, true), (f64::NAN, true), (f64::INFINITY, true), (f64::NEG_INFINITY, true), (1000.0, true)];
#[derive(Clone, Copy)]
struct Grid {
    w: usize,
    h: usize,
    step: usize,
    border: usize,
}
impl Grid {
    fn has(&self, c: usize, r: usize) -> bool {
        let ok = |x: usize, n: usize| x >= self.border && x + self.border < n && (x - self.border) % self.step == 0;
        ok(c, self.w) && ok(r, self.h)
    }
}
fn passes<S: Sc>(g: Grid, eps: S, kind: usize, back: bool, all: [S; 2], faults: Vec<(usize, usize, usize, S)>, t: &mut Trace) -> bool {
    t.call("roundtrip_intrinsics");
    let origin = if kind >= 2 { [0.25, -0.5, 2.0] } else { [0.0; 3] };
    catch_unwind(AssertUnwindSafe(|| {
        if kind % 2 == 0 {
            roundtrip_intrinsics(&Faulty::<S, false> { faults, all, back, origin }, g.w, g.h, g.step, g.border, eps)
        } else {
            roundtrip_intrinsics(&Faulty::<S, true> { faults, all, back, origin }, g.w, g.h, g.step, g.border, eps)
        }
    }))
    .is_ok()
}
fn verdict(pass: bool, must_fail: bool, what: impl Fn() -> String, t: &mut Trace) -> Res {
    t.yes(pass != must_fail, || format!("{} {}", what(), if pass { "was accepted" } else { "was rejected" }))
}
/// One deviating pixel, anywhere in or around the image.
struct One {
    grids: Vec<Grid>,
    /// pixels of the image: (column, row), counted up to this
    max: usize,
}
const EPS: [f64; 2] = [0.03125, 0.25];
impl Body for One {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let g = self.grids[d[0]];
        let (c, r, coord) = (d[1] % self.max, d[1] / self.max, d[2]);
        if c > g.w || r > g.h {
            return skip();
        }
        let (dev, seen) = DEV[d[3]];
        let eps = EPS[d[4] % 2];
        let back = d[4] >= 2;
        t.state_u("grid and deviation", &[d[0] as u64, d[1] as u64, d[2] as u64, d[3] as u64, d[4] as u64, d[5] as u64]);
        let must = seen && g.has(c, r);
        let pass = passes(g, S::f(eps), d[5], back, [S::f(0.0); 2], vec![(c, r, coord, S::f(dev * eps))], t);
        verdict(pass, must, || format!("a model deviating by {dev} tolerances in {} at pixel ({c},{r}) only, grid {}x{} step {} border {},", ["u", "v"][coord], g.w, g.h, g.step, g.border), t)
    }
}
/// Two deviating pixels; also opposite, cancelling and harmless ones.
struct Two {
    g: Grid,
}
impl Body for Two {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let g = self.g;
        let n = g.w * g.h * 2;
        let at = |k: usize| ((k / 2) % g.w, (k / 2) / g.w, k % 2);
        let (a, b) = (at(d[0] % n), at(d[1] % n));
        if d[0] % n <= d[1] % n {
            return skip();
        }
        let (x, y) = (DEV[d[2]], DEV[d[3]]);
        let eps = 0.03125;
        let must = (x.1 && g.has(a.0, a.1)) || (y.1 && g.has(b.0, b.1));
        t.state_u("two deviations", &[d[0] as u64, d[1] as u64, d[2] as u64, d[3] as u64, d[4] as u64]);
        let pass = passes(g, S::f(eps), d[4], false, [S::f(0.0); 2], vec![(a.0, a.1, a.2, S::f(x.0 * eps)), (b.0, b.1, b.2, S::f(y.0 * eps))], t);
        verdict(pass, must, || format!("a model deviating by {} tolerances in {} at ({},{}) and {} in {} at ({},{}), grid {}x{} step {} border {},", x.0, a.2, a.0, a.1, y.0, b.2, b.0, b.1, g.w, g.h, g.step, g.border), t)
    }
}
/// Every pixel deviates, within or beyond the tolerance.
struct All {
    grids: Vec<Grid>,
}
const ALL: [(f64, f64, bool); 8] = [(0.0, 0.0, false), (0.875, 0.875, false), (-0.875, 0.875, false), (0.0, -0.875, false), (1.5, 0.0, true), (0.0, -1.5, true), (f64::NAN, 0.0, true), (0.5, f64::NAN, true)];
impl Body for All {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let g = self.grids[d[0]];
        let (a, b, seen) = ALL[d[1]];
        let eps = EPS[d[2] % 2];
        let must = seen && (0..g.w).any(|c| (0..g.h).any(|r| g.has(c, r)));
        t.state_u("uniform deviation", &[d[0] as u64, d[1] as u64, d[2] as u64, d[3] as u64]);
        let pass = passes(g, S::f(eps), d[3], d[2] >= 2, [S::f(a * eps), S::f(b * eps)], vec![], t);
        verdict(pass, must, || format!("a model deviating by ({a},{b}) tolerances everywhere, grid {}x{} step {} border {},", g.w, g.h, g.step, g.border), t)
    }
}
/// Zero tolerance: exact models pass, any deviation fails.
struct Zero {
    grids: Vec<Grid>,
}
impl Body for Zero {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let g = self.grids[d[0]];
        let dev = [0.0, 0.03125, -2.0][d[1]];
        let must = dev != 0.0 && (0..g.w).any(|c| (0..g.h).any(|r| g.has(c, r)));
        t.state_u("zero tolerance", &[d[0] as u64, d[1] as u64, d[2] as u64]);
        let pass = passes(g, S::f(0.0), d[2], false, [S::f(dev), S::f(0.0)], vec![], t);
        verdict(pass, must, || format!("zero tolerance, deviation {dev}, grid {}x{} step {} border {},", g.w, g.h, g.step, g.border), t)
    }
}
/// The library's own models.
struct Own {
    grids: Vec<Grid>,
}
impl Body for Own {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let g = self.grids[d[0]];
        let k = x[0];
        // rounding of a round trip: pixel offsets divided and multiplied by the focal lengths
        let mag = g.w.max(g.h) as f64 + k[3].abs() + k[4].abs();
        let eps = 256.0 * S::EPS * (mag + k[2].abs() * (mag / k[1].abs()));
        t.call("roundtrip_intrinsics");
        t.state_u("own model", &[d[0] as u64, d[1] as u64, k[0].to_bits(), k[3].to_bits()]);
        let r = catch_unwind(AssertUnwindSafe(|| match d[1] {
            0 => roundtrip_intrinsics(&persp::<S>(k).0, g.w, g.h, g.step, g.border, S::f(eps)),
            _ => roundtrip_intrinsics(&ortho::<S>(&[k[0], k[1], k[3], k[4]]).0, g.w, g.h, g.step, g.border, S::f(eps)),
        }));
        t.yes(r.is_ok(), || format!("the library's model {k:?} was rejected with tolerance {eps:e}, grid {}x{} step {} border {}", g.w, g.h, g.step, g.border))
    }
}
fn grids(n: usize, steps: usize, borders: usize) -> Vec<Grid> {
    let mut v = vec![];
    for w in 0..=n {
        for h in 0..=n {
            for step in 1..=steps {
                for border in 0..=borders.min(w).min(h) {
                    v.push(Grid { w, h, step, border });
                }
            }
        }
    }
    v
}
pub fn plan(thorough: bool) -> Plan {
    let small = grids(if thorough { 8 } else { 6 }, 3, if thorough { 4 } else { 3 });
    let m = if thorough { 9 } else { 7 };
    let big = vec![
        Grid { w: 64, h: 48, step: 1, border: 0 },
        Grid { w: 48, h: 64, step: 5, border: 3 },
        Grid { w: 97, h: 31, step: 7, border: 10 },
        Grid { w: 640, h: 3, step: 1, border: 1 },
        Grid { w: 2, h: 700, step: 1, border: 0 },
    ];
    let bm = 701;
    let mut s = vec![
        Section::new("one-pixel", One { grids: small.clone(), max: m }).disc("grid", small.len()).disc("pixel", m * m).disc("coordinate", 2).disc("deviation", DEV.len()).disc("tolerance and side", 4).disc("ray model", 4).no_closure(),
        Section::new("all-pixels", All { grids: small.clone() }).disc("grid", small.len()).disc("deviation", ALL.len()).disc("tolerance and side", 4).disc("ray model", 4).no_closure(),
        Section::new("zero-tolerance", Zero { grids: small.clone() }).disc("grid", small.len()).disc("deviation", 3).disc("ray model", 4).no_closure(),
        Section::new("two-pixels", Two { g: Grid { w: 4, h: 4, step: 1, border: 0 } }).disc("first", 32).disc("second", 32).disc("deviation", DEV.len()).disc("deviation", DEV.len()).disc("ray model", 2).no_closure(),
        Section::new("two-pixels-with-border", Two { g: Grid { w: 6, h: 5, step: 2, border: 1 } }).disc("first", 60).disc("second", 60).disc("deviation", 6).disc("deviation", 6).disc("ray model", 2).no_closure(),
        Section::new("own-models", Own { grids: small.iter().chain(&big).copied().collect() })
            .group("fx fy skew cx cy", kpersp().into_iter().filter(|k| k[..2].iter().all(|f| f.abs() >= 0.25)).collect())
            .disc("grid", small.len() + big.len())
            .disc("perspective, orthographic", 2)
            .no_closure(),
    ];
    if thorough {
        let nb = big.len();
        s.push(Section::new("one-pixel-of-a-large-grid", One { grids: big, max: bm }).disc("grid", nb).disc("pixel", bm * bm).disc("coordinate", 2).disc("deviation", 4).disc("tolerance and side", 1).disc("ray model", 1).no_closure());
    }
    Plan {
        sections: s,
        rule: "a state is a grid (width, height, step, border), a ray model and the pixels and coordinates in which the model deviates, with the deviations",
        assumptions: vec!["Grids whose border exceeds the width or height, and step zero, are not explored.", "Deviations between 0.875 and 1.5 tolerances are not explored."],
    }
}
