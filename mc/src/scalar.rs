//! Scalars under test: f64, f32, and the traced scalar `Tr`.
//!
//! `Tr` computes exactly like f64 but (a) logs every comparison made by
//! cam-geom's own source, with the site, operands and outcome, and (b) calls a
//! preemption hook at a chosen arithmetic operation, so that a controlled
//! scheduler can run another thread between any two operations of the library.
use nalgebra::{ComplexField, RealField};
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use simba::scalar::{Field, SubsetOf};
use simba::simd::SimdValue;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use std::panic::Location;

pub trait Sc: RealField + Copy + serde::Serialize + serde::de::DeserializeOwned {
    const NAME: &'static str;
    const EPS: f64;
    const TINY: f64;
    const IS32: bool;
    fn f(x: f64) -> Self;
    fn g(self) -> f64;
}
impl Sc for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = 1e-290;
    const IS32: bool = false;
    #[inline]
    fn f(x: f64) -> f64 {
        x
    }
    #[inline]
    fn g(self) -> f64 {
        self
    }
}
impl Sc for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const TINY: f64 = 1e-36;
    const IS32: bool = true;
    #[inline]
    fn f(x: f64) -> f32 {
        x as f32
    }
    #[inline]
    fn g(self) -> f64 {
        self as f64
    }
}
impl Sc for Tr {
    const NAME: &'static str = "traced";
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = 1e-290;
    const IS32: bool = false;
    #[inline]
    fn f(x: f64) -> Tr {
        Tr { v: x, t: true }
    }
    #[inline]
    fn g(self) -> f64 {
        self.v
    }
}

/// Traced f64. `t` is true if the value depends on an input of the case.
#[derive(Copy, Default)]
pub struct Tr {
    pub v: f64,
    pub t: bool,
}
#[allow(clippy::non_canonical_clone_impl)]
impl Clone for Tr {
    #[inline]
    fn clone(&self) -> Tr {
        tick();
        *self
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Cmp {
    pub loc: &'static Location<'static>,
    /// 0: ordering (lhs < rhs), 1: equality, 2: approximate equality
    pub kind: u8,
    pub a: f64,
    pub b: f64,
    pub out: bool,
}

thread_local! {
    static LOG_ON: Cell<bool> = const { Cell::new(false) };
    static LOG: RefCell<Vec<Cmp>> = const { RefCell::new(Vec::new()) };
    static OPS: Cell<u64> = const { Cell::new(0) };
    static PREEMPT_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}
pub fn log_begin() {
    LOG.with(|l| l.borrow_mut().clear());
    LOG_ON.with(|l| l.set(true));
}
pub fn log_end(into: &mut Vec<Cmp>) {
    LOG_ON.with(|l| l.set(false));
    LOG.with(|l| {
        into.clear();
        into.append(&mut l.borrow_mut());
    });
}
/// Number of arithmetic operations on `Tr` made by this thread.
pub fn ops() -> u64 {
    OPS.with(|o| o.get())
}
/// Run `hook` immediately before this thread's `at`-th next operation (0-based).
pub fn preempt(at: u64, hook: Box<dyn FnMut()>) {
    OPS.with(|o| o.set(0));
    HOOK.with(|h| *h.borrow_mut() = Some(hook));
    PREEMPT_AT.with(|p| p.set(at));
}
pub fn preempt_off() {
    PREEMPT_AT.with(|p| p.set(u64::MAX));
    HOOK.with(|h| *h.borrow_mut() = None);
}
pub fn ops_reset() {
    OPS.with(|o| o.set(0));
}
#[inline(always)]
fn tick() {
    OPS.with(|o| {
        let n = o.get();
        o.set(n + 1);
        if n == PREEMPT_AT.with(|p| p.get()) {
            fire();
        }
    });
}
#[cold]
fn fire() {
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut h) = h {
        h();
        HOOK.with(|s| *s.borrow_mut() = Some(h));
    }
}

/// Where cam-geom's sources are: comparison sites elsewhere are not logged.
pub const REPO_SRC: &str = "/repo/src/";
fn logged(loc: &'static Location<'static>) -> bool {
    let f = loc.file();
    f.starts_with(REPO_SRC) || f.contains("/approx-")
}
#[inline]
fn log(loc: &'static Location<'static>, kind: u8, a: Tr, b: Tr, out: bool) {
    tick();
    if (a.t || b.t) && LOG_ON.with(|l| l.get()) {
        slow_log(loc, kind, a, b, out)
    }
}
#[cold]
fn slow_log(loc: &'static Location<'static>, kind: u8, a: Tr, b: Tr, out: bool) {
    if logged(loc) {
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            if l.len() < 4096 {
                l.push(Cmp {
                    loc,
                    kind,
                    a: a.v,
                    b: b.v,
                    out,
                })
            }
        });
    }
}

impl fmt::Debug for Tr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.v, f)
    }
}
impl fmt::Display for Tr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.v, f)
    }
}
impl PartialEq for Tr {
    #[track_caller]
    fn eq(&self, o: &Tr) -> bool {
        let r = self.v == o.v;
        log(Location::caller(), 1, *self, *o, r);
        r
    }
    #[track_caller]
    #[allow(clippy::partialeq_ne_impl)]
    fn ne(&self, o: &Tr) -> bool {
        let r = self.v == o.v;
        log(Location::caller(), 1, *self, *o, r);
        !r
    }
}
impl PartialOrd for Tr {
    #[track_caller]
    fn partial_cmp(&self, o: &Tr) -> Option<Ordering> {
        let r = self.v.partial_cmp(&o.v);
        log(
            Location::caller(),
            0,
            *self,
            *o,
            r == Some(Ordering::Less),
        );
        r
    }
    #[track_caller]
    fn lt(&self, o: &Tr) -> bool {
        let r = self.v < o.v;
        log(Location::caller(), 0, *self, *o, r);
        r
    }
    #[track_caller]
    fn le(&self, o: &Tr) -> bool {
        let r = self.v <= o.v;
        log(Location::caller(), 0, *self, *o, r);
        r
    }
    #[track_caller]
    fn gt(&self, o: &Tr) -> bool {
        let r = self.v > o.v;
        log(Location::caller(), 0, *self, *o, r);
        r
    }
    #[track_caller]
    fn ge(&self, o: &Tr) -> bool {
        let r = self.v >= o.v;
        log(Location::caller(), 0, *self, *o, r);
        r
    }
}
macro_rules! bin {
    ($($tr:ident $f:ident $atr:ident $af:ident $op:tt;)*) => {$(
        impl $tr for Tr {
            type Output = Tr;
            #[inline]
            fn $f(self, o: Tr) -> Tr { tick(); Tr { v: self.v $op o.v, t: self.t | o.t } }
        }
        impl<'a> $tr<&'a Tr> for Tr {
            type Output = Tr;
            #[inline]
            fn $f(self, o: &Tr) -> Tr { tick(); Tr { v: self.v $op o.v, t: self.t | o.t } }
        }
        impl $atr for Tr {
            #[inline]
            fn $af(&mut self, o: Tr) { tick(); self.v = self.v $op o.v; self.t |= o.t }
        }
        impl<'a> $atr<&'a Tr> for Tr {
            #[inline]
            fn $af(&mut self, o: &Tr) { tick(); self.v = self.v $op o.v; self.t |= o.t }
        }
    )*}
}
bin! {
    Add add AddAssign add_assign +;
    Sub sub SubAssign sub_assign -;
    Mul mul MulAssign mul_assign *;
    Div div DivAssign div_assign /;
    Rem rem RemAssign rem_assign %;
}
impl Neg for Tr {
    type Output = Tr;
    #[inline]
    fn neg(self) -> Tr {
        tick();
        Tr {
            v: -self.v,
            t: self.t,
        }
    }
}
const fn k(v: f64) -> Tr {
    Tr { v, t: false }
}
impl Zero for Tr {
    fn zero() -> Tr {
        k(0.0)
    }
    #[track_caller]
    fn is_zero(&self) -> bool {
        let r = self.v == 0.0;
        log(Location::caller(), 1, *self, k(0.0), r);
        r
    }
}
impl One for Tr {
    fn one() -> Tr {
        k(1.0)
    }
}
impl Num for Tr {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, _r: u32) -> Result<Tr, ()> {
        s.parse().map(k).map_err(|_| ())
    }
}
impl Signed for Tr {
    fn abs(&self) -> Tr {
        tick();
        Tr {
            v: self.v.abs(),
            t: self.t,
        }
    }
    #[track_caller]
    fn abs_sub(&self, o: &Tr) -> Tr {
        log(Location::caller(), 0, *self, *o, self.v < o.v);
        if self.v <= o.v {
            k(0.0)
        } else {
            *self - *o
        }
    }
    #[track_caller]
    fn signum(&self) -> Tr {
        log(Location::caller(), 0, *self, k(0.0), self.v < 0.0);
        Tr {
            v: self.v.signum(),
            t: self.t,
        }
    }
    #[track_caller]
    fn is_positive(&self) -> bool {
        log(Location::caller(), 0, *self, k(0.0), self.v < 0.0);
        self.v > 0.0
    }
    #[track_caller]
    fn is_negative(&self) -> bool {
        log(Location::caller(), 0, *self, k(0.0), self.v < 0.0);
        self.v < 0.0
    }
}
impl FromPrimitive for Tr {
    fn from_i64(n: i64) -> Option<Tr> {
        Some(k(n as f64))
    }
    fn from_u64(n: u64) -> Option<Tr> {
        Some(k(n as f64))
    }
    fn from_f64(n: f64) -> Option<Tr> {
        Some(k(n))
    }
}
impl Field for Tr {}
impl SimdValue for Tr {
    const LANES: usize = 1;
    type Element = Tr;
    type SimdBool = bool;
    fn splat(v: Tr) -> Tr {
        v
    }
    fn extract(&self, _: usize) -> Tr {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Tr {
        *self
    }
    fn replace(&mut self, _: usize, v: Tr) {
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Tr) {
        *self = v
    }
    fn select(self, c: bool, o: Tr) -> Tr {
        if c {
            self
        } else {
            o
        }
    }
}
impl SubsetOf<Tr> for Tr {
    fn to_superset(&self) -> Tr {
        *self
    }
    fn from_superset_unchecked(e: &Tr) -> Tr {
        *e
    }
    fn is_in_subset(_: &Tr) -> bool {
        true
    }
}
macro_rules! sub {
    ($($t:ty),*) => {$(
        impl SubsetOf<Tr> for $t {
            #[inline]
            fn to_superset(&self) -> Tr { k(*self as f64) }
            #[inline]
            fn from_superset_unchecked(e: &Tr) -> $t { e.v as $t }
            fn is_in_subset(_: &Tr) -> bool { true }
        }
    )*}
}
sub!(f32, f64, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);

impl approx::AbsDiffEq for Tr {
    type Epsilon = Tr;
    fn default_epsilon() -> Tr {
        k(f64::EPSILON)
    }
    #[track_caller]
    fn abs_diff_eq(&self, o: &Tr, e: Tr) -> bool {
        let r = f64::abs_diff_eq(&self.v, &o.v, e.v);
        log(Location::caller(), 2, *self, *o, r);
        r
    }
}
impl approx::RelativeEq for Tr {
    fn default_max_relative() -> Tr {
        k(f64::EPSILON)
    }
    #[track_caller]
    fn relative_eq(&self, o: &Tr, e: Tr, m: Tr) -> bool {
        let r = f64::relative_eq(&self.v, &o.v, e.v, m.v);
        log(Location::caller(), 2, *self, *o, r);
        r
    }
}
impl approx::UlpsEq for Tr {
    fn default_max_ulps() -> u32 {
        4
    }
    #[track_caller]
    fn ulps_eq(&self, o: &Tr, e: Tr, m: u32) -> bool {
        let r = f64::ulps_eq(&self.v, &o.v, e.v, m);
        log(Location::caller(), 2, *self, *o, r);
        r
    }
}

macro_rules! un {
    ($($f:ident)*) => {$(
        #[inline]
        fn $f(self) -> Tr { tick(); Tr { v: <f64 as ComplexField>::$f(self.v), t: self.t } }
    )*}
}
macro_rules! bi {
    ($($f:ident)*) => {$(
        #[inline]
        fn $f(self, o: Tr) -> Tr { tick(); Tr { v: <f64 as ComplexField>::$f(self.v, o.v), t: self.t | o.t } }
    )*}
}
impl ComplexField for Tr {
    type RealField = Tr;
    un!(floor ceil round trunc fract recip conjugate sin cos tan asin acos atan sinh cosh tanh asinh acosh
        atanh log2 log10 ln ln_1p sqrt exp exp2 exp_m1 cbrt
        real modulus norm1 argument abs modulus_squared);
    bi!(powf powc log hypot scale unscale);
    fn from_real(r: Tr) -> Tr {
        r
    }
    fn imaginary(self) -> Tr {
        k(0.0)
    }
    #[track_caller]
    fn signum(self) -> Tr {
        Signed::signum(&self)
    }
    fn mul_add(self, a: Tr, b: Tr) -> Tr {
        tick();
        Tr {
            v: <f64 as ComplexField>::mul_add(self.v, a.v, b.v),
            t: self.t | a.t | b.t,
        }
    }
    fn sin_cos(self) -> (Tr, Tr) {
        tick();
        let (s, c) = <f64 as ComplexField>::sin_cos(self.v);
        (Tr { v: s, t: self.t }, Tr { v: c, t: self.t })
    }
    fn powi(self, n: i32) -> Tr {
        tick();
        Tr {
            v: <f64 as ComplexField>::powi(self.v, n),
            t: self.t,
        }
    }
    fn is_finite(&self) -> bool {
        self.v.is_finite()
    }
    fn try_sqrt(self) -> Option<Tr> {
        if self.v >= 0.0 {
            Some(ComplexField::sqrt(self))
        } else {
            None
        }
    }
}
macro_rules! cst {
    ($($f:ident)*) => {$( fn $f() -> Tr { k(<f64 as RealField>::$f()) } )*}
}
impl RealField for Tr {
    cst!(pi two_pi frac_pi_2 frac_pi_3 frac_pi_4 frac_pi_6 frac_pi_8 frac_1_pi frac_2_pi frac_2_sqrt_pi
         e log2_e log10_e ln_2 ln_10);
    #[track_caller]
    fn is_sign_positive(&self) -> bool {
        log(Location::caller(), 0, *self, k(0.0), self.v < 0.0);
        self.v.is_sign_positive()
    }
    #[track_caller]
    fn is_sign_negative(&self) -> bool {
        log(Location::caller(), 0, *self, k(0.0), self.v < 0.0);
        self.v.is_sign_negative()
    }
    #[track_caller]
    fn copysign(self, s: Tr) -> Tr {
        log(Location::caller(), 0, s, k(0.0), s.v < 0.0);
        Tr {
            v: self.v.copysign(s.v),
            t: self.t | s.t,
        }
    }
    #[track_caller]
    fn max(self, o: Tr) -> Tr {
        log(Location::caller(), 0, self, o, self.v < o.v);
        Tr {
            v: self.v.max(o.v),
            t: self.t | o.t,
        }
    }
    #[track_caller]
    fn min(self, o: Tr) -> Tr {
        log(Location::caller(), 0, self, o, self.v < o.v);
        Tr {
            v: self.v.min(o.v),
            t: self.t | o.t,
        }
    }
    #[track_caller]
    fn clamp(self, lo: Tr, hi: Tr) -> Tr {
        log(Location::caller(), 0, self, lo, self.v < lo.v);
        log(Location::caller(), 0, hi, self, hi.v < self.v);
        if self.v < lo.v {
            lo
        } else if self.v > hi.v {
            hi
        } else {
            self
        }
    }
    fn atan2(self, o: Tr) -> Tr {
        tick();
        Tr {
            v: <f64 as RealField>::atan2(self.v, o.v),
            t: self.t | o.t,
        }
    }
    fn min_value() -> Option<Tr> {
        Some(k(f64::MIN))
    }
    fn max_value() -> Option<Tr> {
        Some(k(f64::MAX))
    }
}
impl serde::Serialize for Tr {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_f64(self.v)
    }
}
impl<'de> serde::Deserialize<'de> for Tr {
    fn deserialize<De: serde::Deserializer<'de>>(d: De) -> Result<Tr, De::Error> {
        f64::deserialize(d).map(|v| Tr { v, t: true })
    }
}
