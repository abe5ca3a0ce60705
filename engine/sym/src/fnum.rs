//! The scalar `F`: a concrete `f32` or a node of the current symbolic context.
//!
//! Finite values are exact reals (constants have the value that is written for them) and arithmetic on them is exact. Infinities and NaN exist only as constants and follow IEEE rules. There are no signed zeros.
use crate::ctx::{stop, with, Stop, Val, B, NEG, POS, ZER};
use crate::poly::Rat;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub enum F { C(f32), N(u32) }

pub const fn lit(x: f32) -> F { F::C(x) }

fn sym_panic(what: &str) -> ! { stop(Stop::Unsupported(what.to_string())) }

/// The value of a finite constant: short binary fractions are exact, others are the decimal that is written for them.
fn rat(x: f32) -> Val {
    let scaled = x as f64 * 65536.0;
    let exact = scaled == scaled.trunc() && scaled.abs() < 1e15;
    if x != 0.0 && x.abs() < 1e-18 { return Val::cst(Rat { n: if x < 0.0 { -1 } else { 1 }, d: 1i128 << 60 }); }
    match if exact { Rat::from_f64(x as f64) } else { Rat::from_decimal(&format!("{:?}", x)).or_else(|_| Rat::from_f64(x as f64)) } {
        Ok(r) => Val::cst(r),
        // extremely small or large finite constants: out of the exact range
        Err(_) => sym_panic("constant outside of the exact range"),
    }
}

pub fn val(x: F) -> Option<Val> {
    match x { F::C(c) => if c.is_finite() { Some(rat(c)) } else { None }, F::N(i) => Some(with(|c| c.vals[i as usize].clone())) }
}

pub fn mk(v: Val) -> F {
    if let Some(r) = v.as_const() {
        let f = r.n as f32 / r.d as f32;
        if f.is_finite() && (r.n.unsigned_abs() < (1 << 24)) && r.d.unsigned_abs().is_power_of_two() && r.d <= 65536 { return F::C(f); }
    }
    F::N(with(|c| c.intern(v)))
}

/// Sign test with forking.
fn decide(v: &Val, mask: u8) -> bool {
    if let Some(r) = v.as_const() { let s = if r.n < 0 { NEG } else if r.n == 0 { ZER } else { POS }; return s & mask != 0; }
    with(|c| c.decide(v, mask))
}

impl F {
    pub const INFINITY: F = F::C(f32::INFINITY);
    pub const NEG_INFINITY: F = F::C(f32::NEG_INFINITY);
    pub const NAN: F = F::C(f32::NAN);
    pub const EPSILON: F = F::C(f32::EPSILON);
    pub const MAX: F = F::C(f32::MAX);
    pub const MIN: F = F::C(f32::MIN);
    pub const MIN_POSITIVE: F = F::C(f32::MIN_POSITIVE);

    /// The value of a constant used in another constant's definition.
    pub const fn cval(self) -> f32 { match self { F::C(x) => x, F::N(_) => f32::NAN } }

    fn k(self) -> Option<f32> { match self { F::C(x) => Some(x), F::N(_) => None } }
    fn special(self) -> bool { match self { F::C(x) => !x.is_finite(), _ => false } }
    /// Far outside of the range of every symbolic value (whose inputs are bounded): compares like an infinity.
    fn beyond(self) -> bool { match self { F::C(x) => !x.is_finite() || x.abs() > 1e18, _ => false } }

    pub fn plus(self, o: F, k: i128) -> F {
        if self.special() || o.special() {
            let a = self.k().unwrap_or(0.0);
            let b = o.k().unwrap_or(0.0);
            return F::C(if k > 0 { a + b } else { a - b });
        }
        if let F::C(x) = o { if x == 0.0 { return self; } }
        if let (F::C(x), true) = (self, k == 1) { if x == 0.0 { return o; } }
        let (a, b) = (val(self).unwrap(), val(o).unwrap());
        mk(with(|c| c.add(&a, &b, k)))
    }
    fn sign_num(self) -> f32 {
        // forks until the sign is known
        match self {
            F::C(x) => if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 },
            F::N(_) => { let v = val(self).unwrap(); if decide(&v, ZER) { 0.0 } else if decide(&v, NEG) { -1.0 } else { 1.0 } }
        }
    }
    pub fn times(self, o: F) -> F {
        if self.special() || o.special() {
            let a = if self.special() { self.k().unwrap() } else { self.sign_num() };
            if a.is_nan() { return F::NAN; }
            let b = if o.special() { o.k().unwrap() } else { o.sign_num() };
            return F::C(a * b);
        }
        if let F::C(x) = o { if x == 0.0 { return F::C(0.0); } if x == 1.0 { return self; } }
        if let F::C(x) = self { if x == 0.0 { return F::C(0.0); } if x == 1.0 { return o; } }
        let (a, b) = (val(self).unwrap(), val(o).unwrap());
        mk(with(|c| c.mul(&a, &b)))
    }
    pub fn over(self, o: F) -> F {
        if self.special() || o.special() {
            if let Some(b) = o.k() { if b.is_nan() { return F::NAN; } if b.is_infinite() && !self.special() { return F::C(0.0); } }
            let a = self.k();
            if let (Some(a), Some(b)) = (a, o.k()) { return F::C(a / b); }
            // inf / symbolic
            let a = a.unwrap();
            if a.is_nan() { return F::NAN; }
            let s = o.sign_num();
            return F::C(if s < 0.0 { -a } else { a });
        }
        if let F::C(x) = o { if x == 1.0 { return self; } }
        let b = val(o).unwrap();
        let zero = match b.as_const() { Some(r) => r.is_zero(), None => with(|c| c.split_zero(&b)) };
        if zero {
            let s = self.sign_num();
            return F::C(s / 0.0);
        }
        if let F::C(x) = self { if x == 0.0 { return F::C(0.0); } }
        let a = val(self).unwrap();
        mk(with(|c| { let i = c.inv(&b); c.mul(&a, &i) }))
    }
    pub fn negate(self) -> F {
        match self {
            F::C(x) => F::C(if x == 0.0 { 0.0 } else { -x }),
            F::N(_) => { let mut v = val(self).unwrap(); v.num = v.num.neg(); mk(v) }
        }
    }
    /// Compares with forking; `mask` over the sign of self - o.
    fn cmpmask(self, o: F, mask: u8) -> bool {
        if let (F::C(a), F::C(b)) = (self, o) {
            return match a.partial_cmp(&b) { None => false, Some(Ordering::Less) => mask & NEG != 0, Some(Ordering::Equal) => mask & ZER != 0, Some(Ordering::Greater) => mask & POS != 0 };
        }
        if self.beyond() || o.beyond() {
            let (a, b) = (self.k().unwrap_or(0.0), o.k().unwrap_or(0.0));
            return match a.partial_cmp(&b) { None => false, Some(Ordering::Less) => mask & NEG != 0, Some(Ordering::Equal) => mask & ZER != 0, Some(Ordering::Greater) => mask & POS != 0 };
        }
        let d = self.plus(o, -1);
        match d { F::C(x) => { let s = if x < 0.0 { NEG } else if x > 0.0 { POS } else { ZER }; s & mask != 0 } F::N(_) => { let v = val(d).unwrap(); decide(&v, mask) } }
    }
    /// Non-forking comparison for property formulas.
    pub fn formula(self, o: F, mask: u8) -> B {
        if self.beyond() || o.beyond() || (self.k().is_some() && o.k().is_some()) {
            let (a, b) = (self.k().unwrap_or(0.0), o.k().unwrap_or(0.0));
            return B::Cst(match a.partial_cmp(&b) { None => false, Some(Ordering::Less) => mask & NEG != 0, Some(Ordering::Equal) => mask & ZER != 0, Some(Ordering::Greater) => mask & POS != 0 });
        }
        let d = self.plus(o, -1);
        let b = match d { F::C(x) => { let s = if x < 0.0 { NEG } else if x > 0.0 { POS } else { ZER }; B::Cst(s & mask != 0) } F::N(_) => { let v = val(d).unwrap(); with(|c| c.cmp_formula(&v, mask)) } };
        if let B::Cst(true) = b { if let (Some(x), Some(y)) = (val(self), val(o)) { with(|c| c.claim(x, y, mask)); } }
        b
    }

    // ----- inherent methods of f32 -----
    pub fn abs(self) -> F {
        match self { F::C(x) => F::C(x.abs()), F::N(_) => { let v = val(self).unwrap(); mk(with(|c| c.abs(&v))) } }
    }
    pub fn sqrt(self) -> F {
        if self.special() { return F::C(self.k().unwrap().sqrt()); }
        let v = val(self).unwrap();
        if decide(&v, NEG) { return F::NAN; }
        mk(with(|c| c.sqrt(&v)))
    }
    pub fn is_nan(self) -> bool { matches!(self, F::C(x) if x.is_nan()) }
    pub fn is_infinite(self) -> bool { matches!(self, F::C(x) if x.is_infinite()) }
    pub fn is_finite(self) -> bool { !self.special() }
    pub fn is_normal(self) -> bool { self.is_finite() && self != F::C(0.0) }
    pub fn is_sign_positive(self) -> bool { match self { F::C(x) if x.is_nan() => true, _ => self >= F::C(0.0) } }
    pub fn is_sign_negative(self) -> bool { self < F::C(0.0) }
    /// f32::signum: 1.0 for +0.0 (there is no -0.0 here).
    pub fn signum(self) -> F { if self.is_nan() { self } else if self < F::C(0.0) { F::C(-1.0) } else { F::C(1.0) } }
    pub fn copysign(self, s: F) -> F { let a = self.abs(); if s < F::C(0.0) { a.negate() } else { a } }
    pub fn max(self, o: F) -> F { if self.is_nan() { o } else if o.is_nan() { self } else if self < o { o } else { self } }
    pub fn min(self, o: F) -> F { if self.is_nan() { o } else if o.is_nan() { self } else if self > o { o } else { self } }
    pub fn clamp(self, lo: F, hi: F) -> F { assert!(lo <= hi); if self < lo { lo } else if self > hi { hi } else { self } }
    pub fn recip(self) -> F { F::C(1.0).over(self) }
    pub fn powi(self, n: i32) -> F {
        let mut r = F::C(1.0);
        for _ in 0..n.unsigned_abs() { r = r.times(self); }
        if n < 0 { r.recip() } else { r }
    }
    pub fn powf(self, n: F) -> F {
        match n {
            F::C(x) if x == x.trunc() && x.abs() <= 16.0 => self.powi(x as i32),
            F::C(x) if x == 0.5 => self.sqrt(),
            _ => match (self.k(), n.k()) { (Some(a), Some(b)) => F::C(a.powf(b)), _ => sym_panic("powf") },
        }
    }
    pub fn mul_add(self, a: F, b: F) -> F { self.times(a).plus(b, 1) }
    pub fn hypot(self, o: F) -> F { self.times(self).plus(o.times(o), 1).sqrt() }
    pub fn sin_cos(self) -> (F, F) {
        if self.special() { return (F::NAN, F::NAN); }
        let v = val(self).unwrap();
        let (s, c) = with(|c| c.sincos(&v));
        (mk(s), mk(c))
    }
    pub fn sin(self) -> F { self.sin_cos().0 }
    pub fn cos(self) -> F { self.sin_cos().1 }
    pub fn tan(self) -> F { let (s, c) = self.sin_cos(); s.over(c) }
    pub fn atan2(self, x: F) -> F {
        if let (F::C(a), F::C(b)) = (self, x) { if a == 0.0 && b > 0.0 { return F::C(0.0); } if self.special() || x.special() { return F::C(a.atan2(b)); } }
        if self.special() || x.special() { sym_panic("atan2 of an infinity"); }
        let (yv, xv) = (val(self).unwrap(), val(x).unwrap());
        if decide(&yv, ZER) { return if decide(&xv, NEG) { F::C(std::f32::consts::PI) } else { F::C(0.0) }; }
        mk(with(|c| c.atan2(&yv, &xv)))
    }
    fn fun(self, n: &'static str, f: fn(f32) -> f32) -> F {
        match self { F::C(x) => F::C(f(x)), F::N(_) => { let v = val(self).unwrap(); mk(with(|c| c.fun(n, &v))) } }
    }
    pub fn asin(self) -> F { self.fun("asin", f32::asin) }
    pub fn acos(self) -> F { self.fun("acos", f32::acos) }
    pub fn atan(self) -> F { self.atan2(F::C(1.0)) }
    pub fn exp(self) -> F { self.fun("exp", f32::exp) }
    pub fn ln(self) -> F { self.fun("ln", f32::ln) }
    pub fn exp2(self) -> F { self.fun("exp2", f32::exp2) }
    pub fn exp_m1(self) -> F { self.fun("exp", f32::exp).plus(F::C(1.0), -1) }
    pub fn ln_1p(self) -> F { self.plus(F::C(1.0), 1).ln() }
    pub fn log2(self) -> F { self.fun("log2", f32::log2) }
    pub fn log10(self) -> F { self.fun("log10", f32::log10) }
    pub fn log(self, base: F) -> F { self.ln().over(base.ln()) }
    pub fn sinh(self) -> F { self.fun("sinh", f32::sinh) }
    pub fn cosh(self) -> F { self.fun("cosh", f32::cosh) }
    pub fn tanh(self) -> F { self.fun("tanh", f32::tanh) }
    /// The integer below: forks until it is known.
    fn below(self) -> Option<i64> {
        let at = |k: i64| F::from_i128(k as i128);
        if self.special() { return None; }
        if let F::C(x) = self { return Some(x.floor() as i64); }
        // a range of powers of two that holds it, then halves
        let (mut lo, mut hi) = if self >= F::C(0.0) {
            let mut hi = 1i64;
            while self >= at(hi) { hi *= 2; if hi > 1 << 40 { sym_panic("integer part of a huge symbolic real"); } }
            (if hi == 1 { 0 } else { hi / 2 }, hi)
        } else {
            let mut lo = -1i64;
            while self < at(lo) { lo *= 2; if lo < -(1 << 40) { sym_panic("integer part of a huge symbolic real"); } }
            (lo, if lo == -1 { 0 } else { lo / 2 })
        };
        while hi - lo > 1 { let mid = lo + (hi - lo) / 2; if self >= at(mid) { lo = mid } else { hi = mid } }
        Some(lo)
    }
    fn whole(self) -> Option<i64> { if self.special() { None } else if self >= F::C(0.0) { self.below() } else { self.negate().below().map(|k| -k) } }
    pub fn floor(self) -> F { match (self, self.below()) { (F::C(x), _) => F::C(x.floor()), (_, Some(k)) => F::from_i128(k as i128), _ => self } }
    pub fn ceil(self) -> F { match self { F::C(x) => F::C(x.ceil()), _ => self.negate().floor().negate() } }
    pub fn trunc(self) -> F { match (self, self.whole()) { (F::C(x), _) => F::C(x.trunc()), (_, Some(k)) => F::from_i128(k as i128), _ => self } }
    pub fn round(self) -> F { match self { F::C(x) => F::C(x.round()), _ => if self >= F::C(0.0) { self.plus(F::C(0.5), 1).floor() } else { self.negate().plus(F::C(0.5), 1).floor().negate() } } }
    pub fn fract(self) -> F { match self { F::C(x) => F::C(x.fract()), _ => self.plus(self.trunc(), -1) } }
    pub fn cbrt(self) -> F { match self { F::C(x) => F::C(x.cbrt()), _ => sym_panic("cbrt") } }
    pub fn to_radians(self) -> F { self.times(F::C(std::f32::consts::PI / 180.0)) }
    pub fn to_degrees(self) -> F { self.times(F::C(180.0 / std::f32::consts::PI)) }
    pub fn total_cmp(&self, o: &F) -> Ordering { self.partial_cmp(o).unwrap_or(Ordering::Equal) }
    pub fn to_bits(self) -> u32 { match self { F::C(x) => x.to_bits(), _ => sym_panic("to_bits") } }
    pub fn from_bits(b: u32) -> F { F::C(f32::from_bits(b)) }
    pub fn rem(self, o: F) -> F { match (self, o) { (F::C(a), F::C(b)) => F::C(a % b), (_, F::C(b)) if b.is_infinite() => self, _ => { let q = self.over(o); if q.special() { F::NAN } else { self.plus(q.trunc().times(o), -1) } } } }
    pub fn rem_euclid(self, o: F) -> F { match (self, o) { (F::C(a), F::C(b)) => F::C(a.rem_euclid(b)), _ => { let r = self.rem(o); if r < F::C(0.0) { r.plus(o.abs(), 1) } else { r } } } }
    pub fn div_euclid(self, o: F) -> F { match (self, o) { (F::C(a), F::C(b)) => F::C(a.div_euclid(b)), _ => { let q = self.over(o).trunc(); if self.rem(o) < F::C(0.0) { if o > F::C(0.0) { q.plus(F::C(1.0), -1) } else { q.plus(F::C(1.0), 1) } } else { q } } } }
}

impl std::fmt::Debug for F { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self { F::C(x) => write!(f, "{:?}", x), F::N(i) => write!(f, "#{}", i) } } }
impl std::fmt::Display for F { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(self, f) } }
impl std::fmt::LowerExp for F { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(self, f) } }
impl std::str::FromStr for F { type Err = std::num::ParseFloatError; fn from_str(s: &str) -> Result<F, Self::Err> { s.parse::<f32>().map(F::C) } }
/// Stands for float literals in patterns.
pub trait Matched { fn value(self) -> F; }
impl Matched for F { fn value(self) -> F { self } }
impl<'a, T: Matched + Copy> Matched for &'a T { fn value(self) -> F { (*self).value() } }
pub fn same<T: Matched>(a: T, b: F) -> bool { a.value() == b }
pub fn within<T: Matched>(a: T, lo: Option<F>, hi: Option<F>, closed: bool) -> bool {
    let a = a.value();
    lo.map_or(true, |l| a >= l) && hi.map_or(true, |h| if closed { a <= h } else { a < h })
}
impl Default for F { fn default() -> F { F::C(0.0) } }

macro_rules! binop { ($tr:ident, $m:ident, $atr:ident, $am:ident, $body:expr) => {
    impl $tr<F> for F { type Output = F; fn $m(self, o: F) -> F { let f: fn(F, F) -> F = $body; f(self, o) } }
    impl<'a> $tr<&'a F> for F { type Output = F; fn $m(self, o: &'a F) -> F { let f: fn(F, F) -> F = $body; f(self, *o) } }
    impl<'a> $tr<F> for &'a F { type Output = F; fn $m(self, o: F) -> F { let f: fn(F, F) -> F = $body; f(*self, o) } }
    impl<'a, 'b> $tr<&'b F> for &'a F { type Output = F; fn $m(self, o: &'b F) -> F { let f: fn(F, F) -> F = $body; f(*self, *o) } }
    impl $atr<F> for F { fn $am(&mut self, o: F) { let f: fn(F, F) -> F = $body; *self = f(*self, o) } }
    impl<'a> $atr<&'a F> for F { fn $am(&mut self, o: &'a F) { let f: fn(F, F) -> F = $body; *self = f(*self, *o) } }
} }
binop!(Add, add, AddAssign, add_assign, |a, b| a.plus(b, 1));
binop!(Sub, sub, SubAssign, sub_assign, |a, b| a.plus(b, -1));
binop!(Mul, mul, MulAssign, mul_assign, |a, b| a.times(b));
binop!(Div, div, DivAssign, div_assign, |a, b| a.over(b));
binop!(Rem, rem, RemAssign, rem_assign, |a, b| F::rem(a, b));
impl Neg for F { type Output = F; fn neg(self) -> F { self.negate() } }
impl<'a> Neg for &'a F { type Output = F; fn neg(self) -> F { self.negate() } }

impl PartialEq for F { fn eq(&self, o: &F) -> bool { self.cmpmask(*o, ZER) } }
impl PartialOrd for F {
    fn partial_cmp(&self, o: &F) -> Option<Ordering> {
        if self.is_nan() || o.is_nan() { return None; }
        Some(if self.cmpmask(*o, NEG) { Ordering::Less } else if self.cmpmask(*o, ZER) { Ordering::Equal } else { Ordering::Greater })
    }
    fn lt(&self, o: &F) -> bool { self.cmpmask(*o, NEG) }
    fn le(&self, o: &F) -> bool { self.cmpmask(*o, NEG | ZER) }
    fn gt(&self, o: &F) -> bool { self.cmpmask(*o, POS) }
    fn ge(&self, o: &F) -> bool { self.cmpmask(*o, POS | ZER) }
}

impl std::iter::Sum for F { fn sum<I: Iterator<Item = F>>(i: I) -> F { i.fold(F::C(0.0), |a, b| a + b) } }
impl<'a> std::iter::Sum<&'a F> for F { fn sum<I: Iterator<Item = &'a F>>(i: I) -> F { i.fold(F::C(0.0), |a, b| a + *b) } }
impl std::iter::Product for F { fn product<I: Iterator<Item = F>>(i: I) -> F { i.fold(F::C(1.0), |a, b| a * b) } }
impl<'a> std::iter::Product<&'a F> for F { fn product<I: Iterator<Item = &'a F>>(i: I) -> F { i.fold(F::C(1.0), |a, b| a * *b) } }

/// `expr as T` in the code under test.
pub trait Cast<T> { fn cast(self) -> T; }
macro_rules! int_casts { ($($t:ty),*) => { $(
    impl Cast<F> for $t { fn cast(self) -> F { F::from_i128(self as i128) } }
    impl Cast<$t> for F { fn cast(self) -> $t { match self { F::C(x) => x as $t, F::N(_) => (self.whole().unwrap() as i128).clamp(<$t>::MIN as i128, <$t>::MAX as i128) as $t } } }
    impl From<$t> for F { fn from(x: $t) -> F { F::from_i128(x as i128) } }
)* } }
int_casts!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl Cast<F> for F { fn cast(self) -> F { self } }
impl Cast<F> for f32 { fn cast(self) -> F { F::C(self) } }
impl Cast<F> for f64 { fn cast(self) -> F { F::from_f64x(self) } }
macro_rules! self_casts { ($($a:ty => $($b:ty),*;)*) => { $($( impl Cast<$b> for $a { fn cast(self) -> $b { self as $b } } )*)* } }
self_casts! {
    u8 => u8,u16,u32,u64,usize,i8,i16,i32,i64,isize; u16 => u8,u16,u32,u64,usize,i8,i16,i32,i64,isize; u32 => u8,u16,u32,u64,usize,i8,i16,i32,i64,isize;
    u64 => u8,u16,u32,u64,usize,i8,i16,i32,i64,isize; usize => u8,u16,u32,u64,usize,i8,i16,i32,i64,isize; i8 => u8,u16,u32,u64,usize,i8,i16,i32,i64,isize;
    i16 => u8,u16,u32,u64,usize,i8,i16,i32,i64,isize; i32 => u8,u16,u32,u64,usize,i8,i16,i32,i64,isize; i64 => u8,u16,u32,u64,usize,i8,i16,i32,i64,isize;
    isize => u8,u16,u32,u64,usize,i8,i16,i32,i64,isize; bool => u8,u16,u32,u64,usize,i8,i16,i32,i64,isize;
}
impl Cast<F> for bool { fn cast(self) -> F { F::C(if self { 1.0 } else { 0.0 }) } }
impl From<f32> for F { fn from(x: f32) -> F { F::C(x) } }

impl F {
    fn from_i128(x: i128) -> F { if x.unsigned_abs() < (1 << 24) { F::C(x as f32) } else { mk(Val::cst(Rat::int(x))) } }
    /// An `f64` constant of a dependency: in the real build it is rounded to f32.
    fn from_f64x(x: f64) -> F { F::C(x as f32) }
}

// ---------- num-traits ----------
impl num_traits::Zero for F { fn zero() -> F { F::C(0.0) } fn is_zero(&self) -> bool { *self == F::C(0.0) } }
impl num_traits::One for F { fn one() -> F { F::C(1.0) } }
impl num_traits::Num for F { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<F, ()> { Err(()) } }
impl num_traits::Signed for F {
    fn abs(&self) -> F { F::abs(*self) }
    fn abs_sub(&self, o: &F) -> F { if *self <= *o { F::C(0.0) } else { *self - *o } }
    fn signum(&self) -> F { F::signum(*self) }
    fn is_positive(&self) -> bool { *self > F::C(0.0) }
    fn is_negative(&self) -> bool { *self < F::C(0.0) }
}
impl num_traits::Bounded for F { fn min_value() -> F { F::MIN } fn max_value() -> F { F::MAX } }
impl num_traits::FromPrimitive for F {
    fn from_i64(n: i64) -> Option<F> { Some(F::from_i128(n as i128)) }
    fn from_u64(n: u64) -> Option<F> { Some(F::from_i128(n as i128)) }
    fn from_f64(n: f64) -> Option<F> { Some(F::from_f64x(n)) }
    fn from_f32(n: f32) -> Option<F> { Some(F::C(n)) }
}

// ---------- approx ----------
impl approx::AbsDiffEq for F {
    type Epsilon = F;
    fn default_epsilon() -> F { F::EPSILON }
    fn abs_diff_eq(&self, o: &F, e: F) -> bool { (*self - *o).abs() <= e }
}
impl approx::RelativeEq for F {
    fn default_max_relative() -> F { F::EPSILON }
    fn relative_eq(&self, o: &F, e: F, r: F) -> bool {
        if *self == *o { return true; }
        let d = (*self - *o).abs();
        if d <= e { return true; }
        d <= self.abs().max(o.abs()) * r
    }
}
impl approx::UlpsEq for F {
    fn default_max_ulps() -> u32 { 4 }
    fn ulps_eq(&self, o: &F, e: F, u: u32) -> bool { approx::RelativeEq::relative_eq(self, o, e, F::C(u as f32 * f32::EPSILON)) }
}

// ---------- simba ----------
impl simba::simd::SimdValue for F {
    type Element = F;
    type SimdBool = bool;
    fn lanes() -> usize { 1 }
    fn splat(v: F) -> F { v }
    fn extract(&self, _: usize) -> F { *self }
    unsafe fn extract_unchecked(&self, _: usize) -> F { *self }
    fn replace(&mut self, _: usize, v: F) { *self = v }
    unsafe fn replace_unchecked(&mut self, _: usize, v: F) { *self = v }
    fn select(self, c: bool, o: F) -> F { if c { self } else { o } }
}
impl simba::simd::PrimitiveSimdValue for F {}
impl simba::scalar::SubsetOf<F> for F {
    fn to_superset(&self) -> F { *self }
    fn from_superset_unchecked(e: &F) -> F { *e }
    fn is_in_subset(_: &F) -> bool { true }
}
impl simba::scalar::SubsetOf<F> for f64 {
    fn to_superset(&self) -> F { F::from_f64x(*self) }
    fn from_superset_unchecked(e: &F) -> f64 { match e { F::C(x) => *x as f64, _ => sym_panic("conversion of a symbolic real to f64") } }
    fn is_in_subset(_: &F) -> bool { true }
}
impl simba::scalar::SubsetOf<F> for f32 {
    fn to_superset(&self) -> F { F::C(*self) }
    fn from_superset_unchecked(e: &F) -> f32 { match e { F::C(x) => *x, _ => sym_panic("conversion of a symbolic real to f32") } }
    fn is_in_subset(_: &F) -> bool { true }
}
impl simba::scalar::Field for F {}
impl simba::scalar::ComplexField for F {
    type RealField = F;
    fn from_real(re: F) -> F { re }
    fn real(self) -> F { self }
    fn imaginary(self) -> F { F::C(0.0) }
    fn modulus(self) -> F { F::abs(self) }
    fn modulus_squared(self) -> F { self * self }
    fn argument(self) -> F { if self >= F::C(0.0) { F::C(0.0) } else { F::C(std::f32::consts::PI) } }
    fn norm1(self) -> F { F::abs(self) }
    fn scale(self, f: F) -> F { self * f }
    fn unscale(self, f: F) -> F { self / f }
    fn to_exp(self) -> (F, F) { if self >= F::C(0.0) { (self, F::C(1.0)) } else { (-self, F::C(-1.0)) } }
    fn signum(self) -> F { F::signum(self) }
    fn floor(self) -> F { F::floor(self) }
    fn ceil(self) -> F { F::ceil(self) }
    fn round(self) -> F { F::round(self) }
    fn trunc(self) -> F { F::trunc(self) }
    fn fract(self) -> F { F::fract(self) }
    fn mul_add(self, a: F, b: F) -> F { F::mul_add(self, a, b) }
    fn abs(self) -> F { F::abs(self) }
    fn hypot(self, o: F) -> F { F::hypot(self, o) }
    fn recip(self) -> F { F::recip(self) }
    fn conjugate(self) -> F { self }
    fn sin(self) -> F { F::sin(self) }
    fn cos(self) -> F { F::cos(self) }
    fn sin_cos(self) -> (F, F) { F::sin_cos(self) }
    fn tan(self) -> F { F::tan(self) }
    fn asin(self) -> F { F::asin(self) }
    fn acos(self) -> F { F::acos(self) }
    fn atan(self) -> F { F::atan(self) }
    fn sinh(self) -> F { sym_panic("sinh") }
    fn cosh(self) -> F { sym_panic("cosh") }
    fn tanh(self) -> F { sym_panic("tanh") }
    fn asinh(self) -> F { sym_panic("asinh") }
    fn acosh(self) -> F { sym_panic("acosh") }
    fn atanh(self) -> F { sym_panic("atanh") }
    fn log(self, _: F) -> F { sym_panic("log") }
    fn log2(self) -> F { sym_panic("log2") }
    fn log10(self) -> F { sym_panic("log10") }
    fn ln(self) -> F { F::ln(self) }
    fn ln_1p(self) -> F { sym_panic("ln_1p") }
    fn sqrt(self) -> F { F::sqrt(self) }
    fn exp(self) -> F { F::exp(self) }
    fn exp2(self) -> F { sym_panic("exp2") }
    fn exp_m1(self) -> F { sym_panic("exp_m1") }
    fn powi(self, n: i32) -> F { F::powi(self, n) }
    fn powf(self, n: F) -> F { F::powf(self, n) }
    fn powc(self, n: F) -> F { F::powf(self, n) }
    fn cbrt(self) -> F { F::cbrt(self) }
    fn is_finite(&self) -> bool { F::is_finite(*self) }
    fn try_sqrt(self) -> Option<F> { if self >= F::C(0.0) { Some(F::sqrt(self)) } else { None } }
}
impl simba::scalar::RealField for F {
    fn is_sign_positive(self) -> bool { F::is_sign_positive(self) }
    fn is_sign_negative(self) -> bool { F::is_sign_negative(self) }
    fn copysign(self, s: F) -> F { F::copysign(self, s) }
    fn max(self, o: F) -> F { F::max(self, o) }
    fn min(self, o: F) -> F { F::min(self, o) }
    fn clamp(self, a: F, b: F) -> F { if self < a { a } else if self > b { b } else { self } }
    fn atan2(self, o: F) -> F { F::atan2(self, o) }
    fn pi() -> F { crate::f32m::consts::PI }
    fn two_pi() -> F { crate::f32m::consts::TAU }
    fn frac_pi_2() -> F { crate::f32m::consts::FRAC_PI_2 }
    fn frac_pi_3() -> F { crate::f32m::consts::FRAC_PI_3 }
    fn frac_pi_4() -> F { crate::f32m::consts::FRAC_PI_4 }
    fn frac_pi_6() -> F { crate::f32m::consts::FRAC_PI_6 }
    fn frac_pi_8() -> F { crate::f32m::consts::FRAC_PI_8 }
    fn frac_1_pi() -> F { crate::f32m::consts::FRAC_1_PI }
    fn frac_2_pi() -> F { crate::f32m::consts::FRAC_2_PI }
    fn frac_2_sqrt_pi() -> F { F::C(std::f32::consts::FRAC_2_SQRT_PI) }
    fn e() -> F { crate::f32m::consts::E }
    fn log2_e() -> F { F::C(std::f32::consts::LOG2_E) }
    fn log10_e() -> F { F::C(std::f32::consts::LOG10_E) }
    fn ln_2() -> F { crate::f32m::consts::LN_2 }
    fn ln_10() -> F { crate::f32m::consts::LN_10 }
}

// ---------- scalar * matrix, which nalgebra provides only for primitive scalars ----------
use nalgebra::allocator::Allocator;
use nalgebra::base::storage::Storage;
use nalgebra::{DefaultAllocator, Dim, Matrix, MatrixMN};
impl<R: Dim, C: Dim, S: Storage<F, R, C>> Mul<Matrix<F, R, C, S>> for F where DefaultAllocator: Allocator<F, R, C> {
    type Output = MatrixMN<F, R, C>;
    fn mul(self, m: Matrix<F, R, C, S>) -> Self::Output { m * self }
}
impl<'b, R: Dim, C: Dim, S: Storage<F, R, C>> Mul<&'b Matrix<F, R, C, S>> for F where DefaultAllocator: Allocator<F, R, C> {
    type Output = MatrixMN<F, R, C>;
    fn mul(self, m: &'b Matrix<F, R, C, S>) -> Self::Output { m * self }
}
impl<'a, R: Dim, C: Dim, S: Storage<F, R, C>> Mul<Matrix<F, R, C, S>> for &'a F where DefaultAllocator: Allocator<F, R, C> {
    type Output = MatrixMN<F, R, C>;
    fn mul(self, m: Matrix<F, R, C, S>) -> Self::Output { m * *self }
}
impl<'a, 'b, R: Dim, C: Dim, S: Storage<F, R, C>> Mul<&'b Matrix<F, R, C, S>> for &'a F where DefaultAllocator: Allocator<F, R, C> {
    type Output = MatrixMN<F, R, C>;
    fn mul(self, m: &'b Matrix<F, R, C, S>) -> Self::Output { m * *self }
}
impl Mul<nalgebra::Quaternion<F>> for F { type Output = nalgebra::Quaternion<F>; fn mul(self, q: nalgebra::Quaternion<F>) -> Self::Output { q * self } }
