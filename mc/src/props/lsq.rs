//! Reference least-squares intersection of lines.
use crate::common::*;
use crate::num::*;
use crate::scalar::Sc;
use cam_geom::*;
use nalgebra::Matrix3;

/// Relative accuracy of the implementation's pseudo-inverse: it diagonalises with a convergence
/// tolerance of 1e-7 (the constant in `my_pinv`); the worst case measured is 1e-7 of
/// (largest origin + distance of the result).
pub const SOLVER: f64 = 1e-6;
pub type RayE = (V3, V3);
pub struct Lsq {
    /// sum of I - d d^T
    pub a: [V3; 3],
    /// sum of (I - d d^T) p
    pub b: V3,
    /// smallest eigenvalue of a
    pub lmin: f64,
    pub n: usize,
    /// magnitude of the origins
    pub scale: f64,
}
pub fn lsq(rays: &[RayE]) -> Lsq {
    let mut a = [[E::x(0.0); 3]; 3];
    let mut b = [E::x(0.0); 3];
    let mut scale = 0.0f64;
    for (p, d) in rays {
        let u = unit3(*d);
        scale = scale.max(len3(p));
        let mut m = [[E::x(0.0); 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = if i == j { E::x(1.0) - u[i] * u[j] } else { -(u[i] * u[j]) };
                a[i][j] = a[i][j] + m[i][j];
            }
        }
        for i in 0..3 {
            b[i] = b[i] + dot3(m[i], *p);
        }
    }
    let f = Matrix3::from_fn(|i, j| a[i][j].f());
    let lmin = if f.iter().all(|v| v.is_finite()) {
        f.symmetric_eigenvalues().min()
    } else {
        f64::NAN
    };
    Lsq { a, b, lmin, n: rays.len(), scale }
}
impl Lsq {
    /// The unique minimiser, if the lines are not nearly parallel.
    pub fn solve(&self) -> Option<V3> {
        if !(self.lmin > 1e-5 * self.n as f64) {
            return None;
        }
        let m = &self.a;
        let adj = [cross3(m[1], m[2]), cross3(m[2], m[0]), cross3(m[0], m[1])];
        let det = dot3(m[0], adj[0]);
        // a is symmetric: columns of the adjugate are these cross products
        let mut x = [E::x(0.0); 3];
        for i in 0..3 {
            x[i] = (adj[0][i] * self.b[0] + adj[1][i] * self.b[1] + adj[2][i] * self.b[2]) / det;
        }
        // The perturbation bound of the normal equations themselves (rounding of a and b,
        // any backward-stable solver).
        let k = self.n as f64 / self.lmin;
        let l = len3(&x);
        let w = (4.0 * unit() * k + SOLVER) * (self.scale + l);
        Some(widen3(x, w))
    }
    /// Size of the gradient of the sum of squared distances at x.
    pub fn gradient(&self, x: V3) -> f64 {
        let g: Vec<f64> = (0..3).map(|i| (dot3(self.a[i], x) - self.b[i]).f()).collect();
        (g[0] * g[0] + g[1] * g[1] + g[2] * g[2]).sqrt()
    }
    pub fn gradient_tol(&self, x: V3) -> f64 {
        (16.0 * unit() + SOLVER) * self.n as f64 * (self.scale + len3(&x))
    }
}
pub fn mk<S: Sc>(p: &[S; 3], d: &[S; 3]) -> Ray<WorldFrame, S> {
    Ray::new(row3(p), row3(d))
}
pub fn exact<S: Sc>(r: &Ray<WorldFrame, S>) -> RayE {
    (ex3(&get3(&r.center, 0)), ex3(&get3(&r.direction, 0)))
}
/// Distance of a point from a line, with its bound.
pub fn dist_to(r: &RayE, p: V3) -> E {
    norm3(cross3(unit3(r.1), sub3(p, r.0)))
}
pub fn err_name(e: &Error) -> &'static str {
    match e {
        Error::InvalidInput => "InvalidInput",
        Error::SvdFailed => "SvdFailed",
        Error::MinimumTwoRaysNeeded => "MinimumTwoRaysNeeded",
        Error::InvalidRotationMatrix => "InvalidRotationMatrix",
        _ => "other",
    }
}
