//! Double-double arithmetic `D` and error-bounded values `E`.
//!
//! `E` is the number type of the reference model: a ~106-bit value plus a
//! bound on how far a reasonable floating-point evaluation of the same formula
//! (in the scalar under test, in any order of operations) may be from it.
use std::cell::Cell;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, Default)]
pub struct D {
    pub hi: f64,
    pub lo: f64,
}

#[inline(always)]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline(always)]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline(always)]
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a;
    let hi = t - (t - a);
    (hi, a - hi)
}
#[inline(always)]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

impl D {
    pub const fn new(x: f64) -> D {
        D { hi: x, lo: 0.0 }
    }
    #[inline]
    pub fn abs(self) -> D {
        if self.hi < 0.0 {
            -self
        } else {
            self
        }
    }
    #[inline]
    pub fn sqrt(self) -> D {
        if self.hi <= 0.0 {
            return D::new(if self.hi == 0.0 { 0.0 } else { f64::NAN });
        }
        let x = 1.0 / self.hi.sqrt();
        let ax = D::new(self.hi * x);
        let d = self - ax * ax;
        ax + D::new(d.hi * (x * 0.5))
    }
    #[inline]
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
}
impl Add for D {
    type Output = D;
    #[inline]
    fn add(self, o: D) -> D {
        let (s, e) = two_sum(self.hi, o.hi);
        let (t, f) = two_sum(self.lo, o.lo);
        let (s, e) = quick_two_sum(s, e + t);
        let (hi, lo) = quick_two_sum(s, e + f);
        D { hi, lo }
    }
}
impl Neg for D {
    type Output = D;
    #[inline]
    fn neg(self) -> D {
        D {
            hi: -self.hi,
            lo: -self.lo,
        }
    }
}
impl Sub for D {
    type Output = D;
    #[inline]
    fn sub(self, o: D) -> D {
        self + (-o)
    }
}
impl Mul for D {
    type Output = D;
    #[inline]
    fn mul(self, o: D) -> D {
        let (p, e) = two_prod(self.hi, o.hi);
        let (hi, lo) = quick_two_sum(p, e + (self.hi * o.lo + self.lo * o.hi));
        D { hi, lo }
    }
}
impl Div for D {
    type Output = D;
    #[inline]
    fn div(self, o: D) -> D {
        let q1 = self.hi / o.hi;
        let r = self - o * D::new(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * D::new(q2);
        let q3 = r.hi / o.hi;
        let (a, b) = quick_two_sum(q1, q2);
        D { hi: a, lo: b } + D::new(q3)
    }
}

thread_local! {
    static U: Cell<(f64, f64)> = const { Cell::new((7.2e-15, 1e-300)) };
}
/// Set the per-operation error unit from the scalar's machine epsilon.
pub fn set_unit(eps: f64, tiny: f64) {
    U.with(|u| u.set((32.0 * eps, tiny)));
}
#[inline(always)]
pub fn unit() -> f64 {
    U.with(|u| u.get().0)
}
#[inline(always)]
fn tiny() -> f64 {
    U.with(|u| u.get().1)
}

/// Value with error bound.
#[derive(Clone, Copy, Debug, Default)]
pub struct E {
    pub v: D,
    pub e: f64,
}
impl E {
    /// An exactly representable input.
    #[inline]
    pub fn x(v: f64) -> E {
        E {
            v: D::new(v),
            e: 0.0,
        }
    }
    /// A value that itself carries rounding (e.g. computed by the harness in the scalar type).
    #[inline]
    pub fn rounded(v: f64) -> E {
        E {
            v: D::new(v),
            e: unit() * v.abs(),
        }
    }
    #[inline]
    pub fn f(self) -> f64 {
        self.v.f()
    }
    #[inline]
    pub fn mag(self) -> f64 {
        self.v.hi.abs()
    }
    #[inline]
    pub fn abs(self) -> E {
        E {
            v: self.v.abs(),
            e: self.e,
        }
    }
    pub fn sqrt(self) -> E {
        let r = self.v.sqrt();
        if self.v.hi <= self.e {
            return E {
                v: if self.v.hi > 0.0 { r } else { D::new(0.0) },
                e: (2.0 * self.e).sqrt() + tiny(),
            };
        }
        E {
            v: r,
            e: self.e / r.hi + unit() * r.hi,
        }
    }
    /// Widen the bound by an absolute amount.
    #[inline]
    pub fn widen(self, by: f64) -> E {
        E {
            v: self.v,
            e: self.e + by,
        }
    }
    #[inline]
    pub fn times(self, k: f64) -> E {
        self * E::x(k)
    }
}
impl Add for E {
    type Output = E;
    #[inline]
    fn add(self, o: E) -> E {
        E {
            v: self.v + o.v,
            e: self.e + o.e + unit() * (self.mag() + o.mag()),
        }
    }
}
impl Neg for E {
    type Output = E;
    #[inline]
    fn neg(self) -> E {
        E {
            v: -self.v,
            e: self.e,
        }
    }
}
impl Sub for E {
    type Output = E;
    #[inline]
    fn sub(self, o: E) -> E {
        self + (-o)
    }
}
impl Mul for E {
    type Output = E;
    #[inline]
    fn mul(self, o: E) -> E {
        let v = self.v * o.v;
        E {
            v,
            e: self.mag() * o.e + o.mag() * self.e + self.e * o.e + unit() * v.hi.abs() + tiny(),
        }
    }
}
impl Div for E {
    type Output = E;
    #[inline]
    fn div(self, o: E) -> E {
        let b = o.mag();
        let v = self.v / o.v;
        if !(b > 2.0 * o.e) {
            return E {
                v,
                e: f64::INFINITY,
            };
        }
        E {
            v,
            e: (self.e + v.hi.abs() * o.e) / (b - o.e) + unit() * v.hi.abs() + tiny(),
        }
    }
}
pub fn esum(it: impl IntoIterator<Item = E>) -> E {
    it.into_iter().fold(E::x(0.0), |a, b| a + b)
}
pub type V3 = [E; 3];
pub fn v3(x: &[f64]) -> V3 {
    [E::x(x[0]), E::x(x[1]), E::x(x[2])]
}
pub fn add3(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub3(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale3(a: V3, k: E) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn dot3(a: V3, b: V3) -> E {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross3(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn norm3(a: V3) -> E {
    dot3(a, a).sqrt()
}
pub fn neg3(a: V3) -> V3 {
    [-a[0], -a[1], -a[2]]
}
pub fn unit3(a: V3) -> V3 {
    let n = norm3(a);
    [a[0] / n, a[1] / n, a[2] / n]
}
