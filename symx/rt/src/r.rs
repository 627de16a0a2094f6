//! Symbolic replacement of `f64`: either a concrete double (native IEEE arithmetic) or a term
//! over the reals.
use crate::engine::*;
use crate::z::{ToZ, Z};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct R(u64);
const TAG: u64 = 0x7FFD;

impl std::hash::Hash for R {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
// structural equality is needed by the term table only
#[derive(PartialEq, Eq, Hash, Clone, Copy)]
struct Raw(u64);

impl R {
    pub const fn lit(x: f64) -> R {
        // (const) bit copy
        R(x.to_bits())
    }
    pub fn node(i: u32) -> R {
        R((TAG << 48) | i as u64)
    }
    pub fn is_sym(self) -> bool {
        self.0 >> 48 == TAG
    }
    pub fn idx(self) -> u32 {
        self.0 as u32
    }
    pub fn as_const(self) -> Option<f64> {
        if self.is_sym() {
            None
        } else {
            Some(f64::from_bits(self.0))
        }
    }
    pub fn raw(self) -> u64 {
        self.0
    }
    /// identical term / identical bits
    pub fn same(self, o: R) -> bool {
        self.0 == o.0
    }
    pub const EPSILON: R = R::lit(f64::EPSILON);
    pub const DIGITS: u32 = 15;
    pub const MANTISSA_DIGITS: u32 = 53;
    pub const MAX: R = R::lit(f64::MAX);
    pub const MIN: R = R::lit(f64::MIN);
    pub const MIN_POSITIVE: R = R::lit(f64::MIN_POSITIVE);
    pub const NAN: R = R::lit(f64::NAN);
    pub const INFINITY: R = R::lit(f64::INFINITY);
    pub const NEG_INFINITY: R = R::lit(f64::NEG_INFINITY);

    pub fn cast<T: ToR>(x: T) -> R {
        x.to_r()
    }
    /// `x as f32`; the rounding is only modelled on numbers
    pub fn cast32<T: ToR>(x: T) -> R {
        match x.to_r().as_const() {
            Some(c) => R::lit(c as f32 as f64),
            None => panic!("SYMX: single precision"),
        }
    }
    pub fn from<T: ToR>(x: T) -> R {
        x.to_r()
    }
    pub fn to_bits(self) -> u64 {
        self.0
    }
    pub fn from_bits(b: u64) -> R {
        R(b)
    }
    pub fn to_le_bytes(self) -> [u8; 8] {
        self.0.to_le_bytes()
    }
    pub fn from_le_bytes(b: [u8; 8]) -> R {
        R(u64::from_le_bytes(b))
    }
    fn special(self) -> bool {
        matches!(self.as_const(), Some(c) if !c.is_finite())
    }

    // ---- specification side comparisons -------------------------------------------------
    pub fn cmp_b(self, op: Op, o: R) -> B {
        match (self.as_const(), o.as_const()) {
            (Some(a), Some(b)) => B::c(match op {
                Op::Lt => a < b,
                Op::Le => a <= b,
                Op::Eq => a == b,
            }),
            (Some(a), None) if !a.is_finite() => {
                B::c(a == f64::NEG_INFINITY && op != Op::Eq)
            }
            (None, Some(b)) if !b.is_finite() => B::c(b == f64::INFINITY && op != Op::Eq),
            _ => {
                if self.0 == o.0 {
                    return B::c(op != Op::Lt);
                }
                mkb(BNode::RCmp(op, self, o))
            }
        }
    }
    pub fn lt_b(self, o: impl Into<R>) -> B {
        self.cmp_b(Op::Lt, o.into())
    }
    pub fn le_b(self, o: impl Into<R>) -> B {
        self.cmp_b(Op::Le, o.into())
    }
    pub fn gt_b(self, o: impl Into<R>) -> B {
        o.into().cmp_b(Op::Lt, self)
    }
    pub fn ge_b(self, o: impl Into<R>) -> B {
        o.into().cmp_b(Op::Le, self)
    }
    pub fn eq_b(self, o: impl Into<R>) -> B {
        self.cmp_b(Op::Eq, o.into())
    }
    pub fn within(self, o: impl Into<R>, tol: impl Into<R>) -> B {
        let (o, tol) = (o.into(), tol.into());
        if self.0 == o.0 && !self.special() {
            return B::T;
        }
        let d = self - o;
        d.le_b(tol).and(d.ge_b(-tol))
    }
    pub fn ite(c: B, a: R, b: R) -> R {
        match c {
            B::T => a,
            B::F => b,
            _ => {
                if a.0 == b.0 {
                    return a;
                }
                if a.special() || b.special() {
                    return if branch(c) { a } else { b };
                }
                mkr(RNode::Ite(c, a, b))
            }
        }
    }

    // ---- arithmetic -----------------------------------------------------------------------
    fn add_(self, o: R) -> R {
        match (self.as_const(), o.as_const()) {
            (Some(a), Some(b)) => R::lit(a + b),
            (Some(a), None) if !a.is_finite() => self,
            (None, Some(b)) if !b.is_finite() => o,
            (Some(a), None) if a == 0.0 => o,
            (None, Some(b)) if b == 0.0 => self,
            _ => mkr(RNode::Add(self, o)),
        }
    }
    fn sub_(self, o: R) -> R {
        match (self.as_const(), o.as_const()) {
            (Some(a), Some(b)) => R::lit(a - b),
            (Some(a), None) if !a.is_finite() => self,
            (None, Some(b)) if !b.is_finite() => R::lit(-b),
            (None, Some(b)) if b == 0.0 => self,
            _ if self.0 == o.0 => R::lit(0.0),
            _ => mkr(RNode::Sub(self, o)),
        }
    }
    fn mul_(self, o: R) -> R {
        match (self.as_const(), o.as_const()) {
            (Some(a), Some(b)) => R::lit(a * b),
            (Some(a), None) => o.mulc(a),
            (None, Some(b)) => self.mulc(b),
            _ => mkr(RNode::Mul(self, o)),
        }
    }
    fn mulc(self, c: f64) -> R {
        if c == 0.0 {
            return R::lit(0.0);
        }
        if c == 1.0 {
            return self;
        }
        if c.is_nan() {
            return R::NAN;
        }
        if c.is_infinite() {
            return if branch(self.gt_b(R::lit(0.0))) {
                R::lit(c)
            } else if branch(self.eq_b(R::lit(0.0))) {
                R::NAN
            } else {
                R::lit(-c)
            };
        }
        mkr(RNode::Mul(R::lit(c), self))
    }
    fn div_(self, o: R) -> R {
        match (self.as_const(), o.as_const()) {
            (Some(a), Some(b)) => R::lit(a / b),
            (None, Some(b)) => {
                if b == 0.0 {
                    if branch(self.eq_b(R::lit(0.0))) {
                        R::NAN
                    } else if branch(self.gt_b(R::lit(0.0))) {
                        R::lit(1.0 / b)
                    } else {
                        R::lit(-1.0 / b)
                    }
                } else if b.is_nan() {
                    R::NAN
                } else if b.is_infinite() {
                    R::lit(0.0)
                } else if b == 1.0 {
                    self
                } else {
                    mkr(RNode::Div(self, o))
                }
            }
            (_, None) => {
                if let Some(a) = self.as_const() {
                    if a.is_nan() {
                        return R::NAN;
                    }
                    if a.is_infinite() {
                        return if branch(o.ge_b(R::lit(0.0))) { self } else { R::lit(-a) };
                    }
                }
                if branch(o.eq_b(R::lit(0.0))) {
                    return if branch(self.eq_b(R::lit(0.0))) {
                        R::NAN
                    } else if branch(self.gt_b(R::lit(0.0))) {
                        R::INFINITY
                    } else {
                        R::NEG_INFINITY
                    };
                }
                if self.as_const() == Some(0.0) {
                    return R::lit(0.0);
                }
                mkr(RNode::Div(self, o))
            }
        }
    }
    fn neg_(self) -> R {
        match self.as_const() {
            Some(a) => R::lit(-a),
            None => mkr(RNode::Neg(self)),
        }
    }
    fn rem_(self, o: R) -> R {
        match (self.as_const(), o.as_const()) {
            (Some(a), Some(b)) => R::lit(a % b),
            _ => {
                let q = (self / o).trunc();
                self - q * o
            }
        }
    }

    pub fn max(self, o: R) -> R {
        match (self.as_const(), o.as_const()) {
            (Some(a), Some(b)) => R::lit(a.max(b)),
            (Some(a), None) if a.is_nan() => o,
            (None, Some(b)) if b.is_nan() => self,
            _ => R::ite(self.ge_b(o), self, o),
        }
    }
    pub fn min(self, o: R) -> R {
        match (self.as_const(), o.as_const()) {
            (Some(a), Some(b)) => R::lit(a.min(b)),
            (Some(a), None) if a.is_nan() => o,
            (None, Some(b)) if b.is_nan() => self,
            _ => R::ite(self.le_b(o), self, o),
        }
    }
    pub fn clamp(self, lo: R, hi: R) -> R {
        assert!(branch(lo.le_b(hi)), "min > max, or either was NaN");
        if let Some(c) = self.as_const() {
            if c.is_nan() {
                return self;
            }
        }
        self.max(lo).min(hi)
    }
    pub fn abs(self) -> R {
        match self.as_const() {
            Some(a) => R::lit(a.abs()),
            None => R::ite(self.ge_b(R::lit(0.0)), self, -self),
        }
    }
    pub fn signum(self) -> R {
        match self.as_const() {
            Some(a) => R::lit(a.signum()),
            None => R::ite(self.ge_b(R::lit(0.0)), R::lit(1.0), R::lit(-1.0)),
        }
    }
    pub fn copysign(self, s: R) -> R {
        match (self.as_const(), s.as_const()) {
            (Some(a), Some(b)) => R::lit(a.copysign(b)),
            _ => {
                let a = self.abs();
                match s.as_const() {
                    Some(b) => {
                        if b.is_sign_negative() {
                            -a
                        } else {
                            a
                        }
                    }
                    None => R::ite(s.ge_b(R::lit(0.0)), a, -a),
                }
            }
        }
    }
    pub fn sqrt(self) -> R {
        match self.as_const() {
            Some(a) => R::lit(a.sqrt()),
            None => {
                if branch(self.lt_b(R::lit(0.0))) {
                    R::NAN
                } else {
                    mkr(RNode::Sqrt(self))
                }
            }
        }
    }
    pub fn powi(self, n: i32) -> R {
        match self.as_const() {
            Some(a) => R::lit(a.powi(n)),
            None => {
                if n < 0 {
                    return R::lit(1.0) / self.powi(-n);
                }
                let mut r = R::lit(1.0);
                for _ in 0..n {
                    r = r * self;
                }
                r
            }
        }
    }
    pub fn powf(self, n: R) -> R {
        match (self.as_const(), n.as_const()) {
            (Some(a), Some(b)) => R::lit(a.powf(b)),
            (None, Some(b)) if b.fract() == 0.0 && b.abs() < 16.0 => self.powi(b as i32),
            (None, Some(b)) if b == 0.5 => self.sqrt(),
            _ => mkr(RNode::Uf("powf", vec![self, n])),
        }
    }
    fn uf(self, name: &'static str, f: fn(f64) -> f64) -> R {
        match self.as_const() {
            Some(a) => R::lit(f(a)),
            None => mkr(RNode::Uf(name, vec![self])),
        }
    }
    fn uf2(self, o: R, name: &'static str, f: fn(f64, f64) -> f64) -> R {
        match (self.as_const(), o.as_const()) {
            (Some(a), Some(b)) => R::lit(f(a, b)),
            _ => mkr(RNode::Uf(name, vec![self, o])),
        }
    }
    pub fn atan2(self, o: R) -> R {
        self.uf2(o, "atan2", f64::atan2)
    }
    pub fn log(self, o: R) -> R {
        self.uf2(o, "log", f64::log)
    }
    pub fn sin_cos(self) -> (R, R) {
        (self.sin(), self.cos())
    }
    pub fn hypot(self, o: R) -> R {
        match (self.as_const(), o.as_const()) {
            (Some(a), Some(b)) => R::lit(a.hypot(b)),
            _ => (self * self + o * o).sqrt(),
        }
    }
    pub fn mul_add(self, a: R, b: R) -> R {
        match (self.as_const(), a.as_const(), b.as_const()) {
            (Some(x), Some(y), Some(z)) => R::lit(x.mul_add(y, z)),
            _ => self * a + b,
        }
    }
    pub fn recip(self) -> R {
        R::lit(1.0) / self
    }
    pub fn floor(self) -> R {
        match self.as_const() {
            Some(a) => R::lit(a.floor()),
            None => mkr(RNode::Floor(self)),
        }
    }
    pub fn ceil(self) -> R {
        match self.as_const() {
            Some(a) => R::lit(a.ceil()),
            None => -(-self).floor(),
        }
    }
    pub fn trunc(self) -> R {
        match self.as_const() {
            Some(a) => R::lit(a.trunc()),
            None => R::ite(self.ge_b(R::lit(0.0)), self.floor(), self.ceil()),
        }
    }
    pub fn round(self) -> R {
        match self.as_const() {
            Some(a) => R::lit(a.round()),
            None => R::ite(
                self.ge_b(R::lit(0.0)),
                (self + R::lit(0.5)).floor(),
                (self - R::lit(0.5)).ceil(),
            ),
        }
    }
    pub fn fract(self) -> R {
        self - self.trunc()
    }
    pub fn to_degrees(self) -> R {
        self * R::lit(180.0f64 / std::f64::consts::PI)
    }
    pub fn to_radians(self) -> R {
        self * R::lit(std::f64::consts::PI / 180.0)
    }
    pub fn is_finite(self) -> bool {
        self.as_const().map_or(true, |a| a.is_finite())
    }
    pub fn is_nan(self) -> bool {
        self.as_const().map_or(false, |a| a.is_nan())
    }
    pub fn is_infinite(self) -> bool {
        self.as_const().map_or(false, |a| a.is_infinite())
    }
    pub fn is_normal(self) -> bool {
        match self.as_const() {
            Some(a) => a.is_normal(),
            None => branch(self.eq_b(R::lit(0.0)).not()),
        }
    }
    pub fn is_sign_positive(self) -> bool {
        match self.as_const() {
            Some(a) => a.is_sign_positive(),
            None => branch(self.ge_b(R::lit(0.0))),
        }
    }
    pub fn is_sign_negative(self) -> bool {
        !self.is_sign_positive()
    }
    pub fn total_cmp(&self, o: &R) -> Ordering {
        self.partial_cmp(o).unwrap_or(Ordering::Equal)
    }
    pub fn div_euclid(self, o: R) -> R {
        let q = (self / o).trunc();
        let r = self % o;
        let fix = R::ite(o.gt_b(R::lit(0.0)), q - R::lit(1.0), q + R::lit(1.0));
        R::ite(r.lt_b(R::lit(0.0)), fix, q)
    }
    pub fn midpoint(self, o: R) -> R {
        (self + o) / R::lit(2.0)
    }
    pub fn rem_euclid(self, o: R) -> R {
        let r = self % o;
        R::ite(r.lt_b(R::lit(0.0)), r + o.abs(), r)
    }
}
macro_rules! ufs { ($($n:ident),*) => { impl R { $(pub fn $n(self) -> R { self.uf(stringify!($n), f64::$n) })* } } }
ufs!(sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, exp, exp2, exp_m1, ln, ln_1p, log2, log10, cbrt);

/// source types of `as f64`
pub trait ToR {
    fn to_r(self) -> R;
}
macro_rules! tor { ($($t:ty),*) => { $(impl ToR for $t { fn to_r(self) -> R { R::lit(self as f64) } })* } }
tor!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128, f32, f64);
impl ToR for R {
    fn to_r(self) -> R {
        self
    }
}
impl ToR for &R {
    fn to_r(self) -> R {
        *self
    }
}
impl ToR for crate::z::U64 {
    fn to_r(self) -> R {
        self.z().to_r()
    }
}
impl ToR for crate::z::U128 {
    fn to_r(self) -> R {
        self.z().to_r()
    }
}
impl ToR for Z {
    fn to_r(self) -> R {
        Z::to_r(self)
    }
}
impl From<f64> for R {
    fn from(x: f64) -> R {
        R::lit(x)
    }
}
impl From<f32> for R {
    fn from(x: f32) -> R {
        R::lit(x as f64)
    }
}
impl From<i32> for R {
    fn from(x: i32) -> R {
        R::lit(x as f64)
    }
}
impl From<u32> for R {
    fn from(x: u32) -> R {
        R::lit(x as f64)
    }
}
impl From<u8> for R {
    fn from(x: u8) -> R {
        R::lit(x as f64)
    }
}
impl From<u16> for R {
    fn from(x: u16) -> R {
        R::lit(x as f64)
    }
}

impl Default for R {
    fn default() -> R {
        R::lit(0.0)
    }
}
impl fmt::Debug for R {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.as_const() {
            Some(c) => fmt::Debug::fmt(&c, f),
            None => write!(f, "<real {}>", self.idx()),
        }
    }
}
impl fmt::Display for R {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.as_const() {
            Some(c) => fmt::Display::fmt(&c, f),
            None => write!(f, "<real {}>", self.idx()),
        }
    }
}
impl fmt::LowerExp for R {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
// `==` on values branches; the term table never compares with it (it hashes RNode, whose Eq is
// the structural one below)
impl PartialEq for R {
    fn eq(&self, o: &R) -> bool {
        if IN_TABLE.with(|t| t.get()) {
            return self.0 == o.0;
        }
        branch(self.eq_b(*o))
    }
}
impl Eq for R {}
thread_local! { pub static IN_TABLE: std::cell::Cell<bool> = std::cell::Cell::new(false); }

impl PartialOrd for R {
    fn partial_cmp(&self, o: &R) -> Option<Ordering> {
        if self.is_nan() || o.is_nan() {
            return None;
        }
        if branch(self.lt_b(*o)) {
            Some(Ordering::Less)
        } else if branch(self.eq_b(*o)) {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
    fn lt(&self, o: &R) -> bool {
        branch(self.lt_b(*o))
    }
    fn le(&self, o: &R) -> bool {
        branch(self.le_b(*o))
    }
    fn gt(&self, o: &R) -> bool {
        branch(self.gt_b(*o))
    }
    fn ge(&self, o: &R) -> bool {
        branch(self.ge_b(*o))
    }
}
impl PartialEq<f64> for R {
    fn eq(&self, o: &f64) -> bool {
        *self == R::lit(*o)
    }
}
macro_rules! op {
    ($Tr:ident, $f:ident, $TrA:ident, $fa:ident, $m:ident) => {
        impl $Tr<R> for R {
            type Output = R;
            fn $f(self, o: R) -> R {
                self.$m(o)
            }
        }
        impl<'a> $Tr<&'a R> for R {
            type Output = R;
            fn $f(self, o: &'a R) -> R {
                self.$m(*o)
            }
        }
        impl<'a> $Tr<R> for &'a R {
            type Output = R;
            fn $f(self, o: R) -> R {
                (*self).$m(o)
            }
        }
        impl<'a, 'b> $Tr<&'a R> for &'b R {
            type Output = R;
            fn $f(self, o: &'a R) -> R {
                (*self).$m(*o)
            }
        }
        impl $TrA<R> for R {
            fn $fa(&mut self, o: R) {
                *self = self.$m(o)
            }
        }
        impl<'a> $TrA<&'a R> for R {
            fn $fa(&mut self, o: &'a R) {
                *self = self.$m(*o)
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign, add_);
op!(Sub, sub, SubAssign, sub_assign, sub_);
op!(Mul, mul, MulAssign, mul_assign, mul_);
op!(Div, div, DivAssign, div_assign, div_);
op!(Rem, rem, RemAssign, rem_assign, rem_);
impl Neg for R {
    type Output = R;
    fn neg(self) -> R {
        self.neg_()
    }
}
impl<'a> Neg for &'a R {
    type Output = R;
    fn neg(self) -> R {
        (*self).neg_()
    }
}
impl std::iter::Sum for R {
    fn sum<I: Iterator<Item = R>>(i: I) -> R {
        i.fold(R::lit(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a R> for R {
    fn sum<I: Iterator<Item = &'a R>>(i: I) -> R {
        i.fold(R::lit(0.0), |a, b| a + *b)
    }
}
impl std::iter::Product for R {
    fn product<I: Iterator<Item = R>>(i: I) -> R {
        i.fold(R::lit(1.0), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a R> for R {
    fn product<I: Iterator<Item = &'a R>>(i: I) -> R {
        i.fold(R::lit(1.0), |a, b| a * *b)
    }
}
impl serde::Serialize for R {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_f64(f64::from_bits(self.0))
    }
}
impl<'de> serde::Deserialize<'de> for R {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <f64 as serde::Deserialize>::deserialize(d).map(|x| R(x.to_bits()))
    }
}
impl std::str::FromStr for R {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<R, Self::Err> {
        s.parse::<f64>().map(R::lit)
    }
}
pub fn _unused(_: &dyn Fn(&dyn std::any::Any)) {
    let _ = <u8 as ToZ>::to_z_cast;
    let _ = Raw(0);
}

// ---- num-traits / approx / simba ----------------------------------------------------------------
impl num_traits::Zero for R {
    fn zero() -> R {
        R::lit(0.0)
    }
    fn is_zero(&self) -> bool {
        *self == R::lit(0.0)
    }
}
impl num_traits::One for R {
    fn one() -> R {
        R::lit(1.0)
    }
}
impl num_traits::Num for R {
    type FromStrRadixErr = num_traits::ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<R, Self::FromStrRadixErr> {
        <f64 as num_traits::Num>::from_str_radix(s, r).map(R::lit)
    }
}
impl num_traits::Signed for R {
    fn abs(&self) -> R {
        R::abs(*self)
    }
    fn abs_sub(&self, o: &R) -> R {
        (*self - *o).max(R::lit(0.0))
    }
    fn signum(&self) -> R {
        R::signum(*self)
    }
    fn is_positive(&self) -> bool {
        self.is_sign_positive()
    }
    fn is_negative(&self) -> bool {
        self.is_sign_negative()
    }
}
impl num_traits::Bounded for R {
    fn min_value() -> R {
        R::MIN
    }
    fn max_value() -> R {
        R::MAX
    }
}
impl num_traits::FromPrimitive for R {
    fn from_i64(n: i64) -> Option<R> {
        Some(R::lit(n as f64))
    }
    fn from_u64(n: u64) -> Option<R> {
        Some(R::lit(n as f64))
    }
    fn from_f64(n: f64) -> Option<R> {
        Some(R::lit(n))
    }
}
impl num_traits::ToPrimitive for R {
    fn to_i64(&self) -> Option<i64> {
        self.as_const().and_then(|c| num_traits::ToPrimitive::to_i64(&c))
    }
    fn to_u64(&self) -> Option<u64> {
        self.as_const().and_then(|c| num_traits::ToPrimitive::to_u64(&c))
    }
    fn to_f64(&self) -> Option<f64> {
        self.as_const()
    }
}
impl approx::AbsDiffEq for R {
    type Epsilon = R;
    fn default_epsilon() -> R {
        R::EPSILON
    }
    fn abs_diff_eq(&self, o: &R, e: R) -> bool {
        (*self - *o).abs() <= e
    }
}
impl approx::RelativeEq for R {
    fn default_max_relative() -> R {
        R::EPSILON
    }
    fn relative_eq(&self, o: &R, e: R, m: R) -> bool {
        if let (Some(a), Some(b), Some(e), Some(m)) =
            (self.as_const(), o.as_const(), e.as_const(), m.as_const())
        {
            return approx::RelativeEq::relative_eq(&a, &b, e, m);
        }
        let d = (*self - *o).abs();
        d <= e || d <= self.abs().max(o.abs()) * m
    }
}
impl approx::UlpsEq for R {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &R, e: R, m: u32) -> bool {
        if let (Some(a), Some(b), Some(e)) = (self.as_const(), o.as_const(), e.as_const()) {
            return approx::UlpsEq::ulps_eq(&a, &b, e, m);
        }
        (*self - *o).abs() <= e
    }
}
impl simba::scalar::SubsetOf<R> for R {
    fn to_superset(&self) -> R {
        *self
    }
    fn from_superset_unchecked(e: &R) -> R {
        *e
    }
    fn is_in_subset(_: &R) -> bool {
        true
    }
}
impl simba::scalar::SubsetOf<R> for f64 {
    fn to_superset(&self) -> R {
        R::lit(*self)
    }
    fn from_superset_unchecked(e: &R) -> f64 {
        e.as_const().expect("SYMX: symbolic real to f64")
    }
    fn is_in_subset(_: &R) -> bool {
        true
    }
}
impl simba::scalar::SubsetOf<R> for f32 {
    fn to_superset(&self) -> R {
        R::lit(*self as f64)
    }
    fn from_superset_unchecked(e: &R) -> f32 {
        e.as_const().expect("SYMX: symbolic real to f32") as f32
    }
    fn is_in_subset(_: &R) -> bool {
        true
    }
}
impl simba::simd::SimdValue for R {
    type Element = R;
    type SimdBool = bool;
    fn lanes() -> usize {
        1
    }
    fn splat(v: R) -> R {
        v
    }
    fn extract(&self, _: usize) -> R {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> R {
        *self
    }
    fn replace(&mut self, _: usize, v: R) {
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: R) {
        *self = v
    }
    fn select(self, c: bool, o: R) -> R {
        if c {
            self
        } else {
            o
        }
    }
}
impl simba::simd::PrimitiveSimdValue for R {}
impl simba::scalar::Field for R {}
macro_rules! fwd { ($($n:ident),*) => { $(fn $n(self) -> R { R::$n(self) })* } }
impl simba::scalar::ComplexField for R {
    type RealField = R;
    fn from_real(re: R) -> R {
        re
    }
    fn real(self) -> R {
        self
    }
    fn imaginary(self) -> R {
        R::lit(0.0)
    }
    fn modulus(self) -> R {
        R::abs(self)
    }
    fn modulus_squared(self) -> R {
        self * self
    }
    fn argument(self) -> R {
        if self >= R::lit(0.0) {
            R::lit(0.0)
        } else {
            R::lit(std::f64::consts::PI)
        }
    }
    fn norm1(self) -> R {
        R::abs(self)
    }
    fn scale(self, f: R) -> R {
        self * f
    }
    fn unscale(self, f: R) -> R {
        self / f
    }
    fn to_exp(self) -> (R, R) {
        if self >= R::lit(0.0) {
            (self, R::lit(1.0))
        } else {
            (-self, R::lit(-1.0))
        }
    }
    fn signum(self) -> R {
        R::signum(self)
    }
    fwd!(floor, ceil, round, trunc, fract, abs, recip, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, log2, log10, ln, ln_1p, sqrt, exp, exp2, exp_m1, cbrt);
    fn conjugate(self) -> R {
        self
    }
    fn mul_add(self, a: R, b: R) -> R {
        R::mul_add(self, a, b)
    }
    fn hypot(self, o: R) -> R {
        R::hypot(self, o)
    }
    fn sin_cos(self) -> (R, R) {
        R::sin_cos(self)
    }
    fn log(self, b: R) -> R {
        R::log(self, b)
    }
    fn powi(self, n: i32) -> R {
        R::powi(self, n)
    }
    fn powf(self, n: R) -> R {
        R::powf(self, n)
    }
    fn powc(self, n: R) -> R {
        R::powf(self, n)
    }
    fn is_finite(&self) -> bool {
        R::is_finite(*self)
    }
    fn try_sqrt(self) -> Option<R> {
        if self >= R::lit(0.0) {
            Some(R::sqrt(self))
        } else {
            None
        }
    }
}
macro_rules! konst { ($($n:ident = $c:ident),*) => { $(fn $n() -> R { R::lit(std::f64::consts::$c) })* } }
impl simba::scalar::RealField for R {
    fn is_sign_positive(self) -> bool {
        R::is_sign_positive(self)
    }
    fn is_sign_negative(self) -> bool {
        R::is_sign_negative(self)
    }
    fn copysign(self, to: R) -> R {
        R::copysign(self, to)
    }
    fn max(self, o: R) -> R {
        R::max(self, o)
    }
    fn min(self, o: R) -> R {
        R::min(self, o)
    }
    fn clamp(self, a: R, b: R) -> R {
        if self < a {
            a
        } else if self > b {
            b
        } else {
            self
        }
    }
    fn atan2(self, o: R) -> R {
        R::atan2(self, o)
    }
    fn two_pi() -> R {
        R::lit(2.0 * std::f64::consts::PI)
    }
    konst!(pi = PI, frac_pi_2 = FRAC_PI_2, frac_pi_3 = FRAC_PI_3, frac_pi_4 = FRAC_PI_4, frac_pi_6 = FRAC_PI_6, frac_pi_8 = FRAC_PI_8, frac_1_pi = FRAC_1_PI, frac_2_pi = FRAC_2_PI, frac_2_sqrt_pi = FRAC_2_SQRT_PI, e = E, log2_e = LOG2_E, log10_e = LOG10_E, ln_2 = LN_2, ln_10 = LN_10);
}

// scalar * matrix
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, Dim, Matrix, MatrixMN};
impl<Rw: Dim, C: Dim, S: nalgebra::storage::Storage<R, Rw, C>> Mul<Matrix<R, Rw, C, S>> for R
where
    DefaultAllocator: Allocator<R, Rw, C>,
{
    type Output = MatrixMN<R, Rw, C>;
    fn mul(self, m: Matrix<R, Rw, C, S>) -> Self::Output {
        m.map(|x| self * x)
    }
}
impl<'a, Rw: Dim, C: Dim, S: nalgebra::storage::Storage<R, Rw, C>> Mul<&'a Matrix<R, Rw, C, S>>
    for R
where
    DefaultAllocator: Allocator<R, Rw, C>,
{
    type Output = MatrixMN<R, Rw, C>;
    fn mul(self, m: &'a Matrix<R, Rw, C, S>) -> Self::Output {
        m.map(|x| self * x)
    }
}
impl Mul<nalgebra::Quaternion<R>> for R {
    type Output = nalgebra::Quaternion<R>;
    fn mul(self, q: nalgebra::Quaternion<R>) -> Self::Output {
        q * self
    }
}

/// `std::f64`
pub mod f64m {
    use super::R;
    pub const EPSILON: R = R::EPSILON;
    pub const MAX: R = R::MAX;
    pub const MIN: R = R::MIN;
    pub const MIN_POSITIVE: R = R::MIN_POSITIVE;
    pub const NAN: R = R::NAN;
    pub const INFINITY: R = R::INFINITY;
    pub const NEG_INFINITY: R = R::NEG_INFINITY;
    pub mod consts {
        use super::super::R;
        macro_rules! kc { ($($n:ident),*) => { $(pub const $n: R = R::lit(std::f64::consts::$n);)* } }
        kc!(PI, TAU, E, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, FRAC_1_PI, FRAC_2_PI, FRAC_2_SQRT_PI, SQRT_2, FRAC_1_SQRT_2, LN_2, LN_10, LOG2_E, LOG10_E);
    }
}
