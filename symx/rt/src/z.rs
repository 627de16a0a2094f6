//! Symbolic integers, the unsigned machine integers built on them, and `Duration`.
use crate::engine::*;
use crate::r::R;
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Z {
    C(i128),
    N(u32),
}
impl Z {
    pub fn add(self, o: Z) -> Z {
        match (self, o) {
            (Z::C(a), Z::C(b)) => Z::C(a + b),
            (x, Z::C(0)) | (Z::C(0), x) => x,
            _ => mkz(ZNode::Add(self, o)),
        }
    }
    pub fn sub(self, o: Z) -> Z {
        match (self, o) {
            (Z::C(a), Z::C(b)) => Z::C(a - b),
            (x, Z::C(0)) => x,
            (a, b) if a == b => Z::C(0),
            _ => mkz(ZNode::Sub(self, o)),
        }
    }
    pub fn mul(self, o: Z) -> Z {
        match (self, o) {
            (Z::C(a), Z::C(b)) => Z::C(a * b),
            (x, Z::C(1)) | (Z::C(1), x) => x,
            (_, Z::C(0)) | (Z::C(0), _) => Z::C(0),
            _ => mkz(ZNode::Mul(self, o)),
        }
    }
    /// Euclidean division by a positive constant
    pub fn div(self, d: i128) -> Z {
        match self {
            Z::C(a) => Z::C(a.div_euclid(d)),
            _ if d == 1 => self,
            _ => {
                // (x * k) / k
                let n = CTX.with(|c| match self {
                    Z::N(i) => Some(c.borrow().zn[i as usize].clone()),
                    _ => None,
                });
                if let Some(ZNode::Mul(a, Z::C(k))) = n {
                    if k % d == 0 {
                        return a.mul(Z::C(k / d));
                    }
                }
                mkz(ZNode::Div(self, d))
            }
        }
    }
    pub fn modulo(self, d: i128) -> Z {
        match self {
            Z::C(a) => Z::C(a.rem_euclid(d)),
            _ => mkz(ZNode::Mod(self, d)),
        }
    }
    pub fn cmp_b(self, op: Op, o: Z) -> B {
        match (self, o) {
            (Z::C(a), Z::C(b)) => B::c(match op {
                Op::Lt => a < b,
                Op::Le => a <= b,
                Op::Eq => a == b,
            }),
            (a, b) if a == b => B::c(op != Op::Lt),
            _ => mkb(BNode::ZCmp(op, self, o)),
        }
    }
    pub fn lt_b(self, o: Z) -> B {
        self.cmp_b(Op::Lt, o)
    }
    pub fn le_b(self, o: Z) -> B {
        self.cmp_b(Op::Le, o)
    }
    pub fn eq_b(self, o: Z) -> B {
        self.cmp_b(Op::Eq, o)
    }
    pub fn to_r(self) -> R {
        match self {
            Z::C(a) => R::lit(a as f64),
            Z::N(i) => {
                // rounding to whole nanoseconds is neglected
                if let ZNode::OfReal(x) = CTX.with(|c| c.borrow().zn[i as usize].clone()) {
                    return x;
                }
                mkr(RNode::OfInt(self))
            }
        }
    }
    pub fn ite(c: B, a: Z, b: Z) -> Z {
        match c {
            B::T => a,
            B::F => b,
            _ if a == b => a,
            _ => mkz(ZNode::Ite(c, a, b)),
        }
    }
    /// a concrete value of this term on the current path (forks over the possible values)
    pub fn concretize(self) -> i128 {
        match self {
            Z::C(c) => c,
            Z::N(_) => {
                // a value that a machine type without terms has to hold: representatives only, and
                // the contract is no longer complete
                for k in CANDIDATES {
                    if branch(self.eq_b(Z::C(*k))) {
                        return *k;
                    }
                }
                std::panic::panic_any(PathAbort("narrowed"))
            }
        }
    }
}

const CANDIDATES: &[i128] = &[
    0, 1, 2, 3, 4, 5, 7, 20, 63, 100, 255, 256, 1000, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
    (1 << 32) + 1, (1 << 32) + 2, 1 << 33, (1 << 40) - 1, 1 << 40, 1 << 41, (1 << 41) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1,
];

/// Replacement of an unsigned machine integer; overflow panics as in a debug build.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct U64(u64);
const UTAG: u64 = 0xD15E_A5ED;

#[derive(Clone, Copy)]
pub struct U128(Z);

impl U64 {
    pub const MAX: U64 = U64(u64::MAX);
    pub const MIN: U64 = U64(0);
    pub const BITS: u32 = 64;
    pub const fn lit(x: u64) -> U64 {
        U64(x)
    }
    pub fn from_z(z: Z) -> U64 {
        match z {
            Z::C(c) => U64(c as u64),
            Z::N(i) => U64((UTAG << 32) | i as u64),
        }
    }
    pub fn z(self) -> Z {
        if self.0 >> 32 == UTAG {
            Z::N(self.0 as u32)
        } else {
            Z::C(self.0 as i128)
        }
    }
    pub fn raw(self) -> u64 {
        self.0
    }
    pub fn from_raw(x: u64) -> U64 {
        U64(x)
    }
    pub fn to_le_bytes(self) -> [u8; 8] {
        self.0.to_le_bytes()
    }
    pub fn from_le_bytes(b: [u8; 8]) -> U64 {
        U64(u64::from_le_bytes(b))
    }
    const LIM: i128 = u64::MAX as i128;
}
impl U128 {
    pub const MAX: U128 = U128(Z::C(i128::MAX));
    pub const MIN: U128 = U128(Z::C(0));
    pub const fn lit(x: u128) -> U128 {
        U128(Z::C(x as i128))
    }
    pub fn from_z(z: Z) -> U128 {
        U128(z)
    }
    pub fn z(self) -> Z {
        self.0
    }
    pub fn raw(self) -> u64 {
        match self.0 {
            Z::C(c) => c as u64,
            Z::N(i) => i as u64,
        }
    }
    const LIM: i128 = i128::MAX - 1;
}

macro_rules! uint {
    ($T:ident, $p:ty) => {
        impl Default for $T {
            fn default() -> Self {
                $T::lit(0)
            }
        }
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                match self.z() {
                    Z::C(c) => write!(f, "{}", c),
                    Z::N(i) => write!(f, "<int {}>", i),
                }
            }
        }
        impl fmt::Display for $T {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::Debug::fmt(self, f)
            }
        }
        impl std::hash::Hash for $T {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                (self.z().concretize() as u64).hash(h)
            }
        }
        impl PartialEq for $T {
            fn eq(&self, o: &$T) -> bool {
                branch(self.z().eq_b(o.z()))
            }
        }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &$T) -> Option<Ordering> {
                Some(self.cmp(o))
            }
            fn lt(&self, o: &$T) -> bool {
                branch(self.z().lt_b(o.z()))
            }
            fn le(&self, o: &$T) -> bool {
                branch(self.z().le_b(o.z()))
            }
            fn gt(&self, o: &$T) -> bool {
                branch(o.z().lt_b(self.z()))
            }
            fn ge(&self, o: &$T) -> bool {
                branch(o.z().le_b(self.z()))
            }
        }
        impl Ord for $T {
            fn cmp(&self, o: &$T) -> Ordering {
                if branch(self.z().lt_b(o.z())) {
                    Ordering::Less
                } else if branch(self.z().eq_b(o.z())) {
                    Ordering::Equal
                } else {
                    Ordering::Greater
                }
            }
            fn max(self, o: $T) -> $T {
                $T::from_z(Z::ite(o.z().lt_b(self.z()), self.z(), o.z()))
            }
            fn min(self, o: $T) -> $T {
                $T::from_z(Z::ite(self.z().lt_b(o.z()), self.z(), o.z()))
            }
        }
        impl PartialEq<$p> for $T {
            fn eq(&self, o: &$p) -> bool {
                *self == $T::lit(*o)
            }
        }
        impl PartialOrd<$p> for $T {
            fn partial_cmp(&self, o: &$p) -> Option<Ordering> {
                Some(self.cmp(&$T::lit(*o)))
            }
        }
        impl $T {
            fn arith(z: Z, what: &'static str) -> $T {
                if !branch(Z::C(0).le_b(z)) || !branch(z.le_b(Z::C($T::LIM))) {
                    panic!("attempt to {} with overflow", what);
                }
                $T::from_z(z)
            }
            fn inrange(z: Z) -> B {
                Z::C(0).le_b(z).and(z.le_b(Z::C($T::LIM)))
            }
            pub fn saturating_sub(self, o: impl Into<$T>) -> $T {
                let o: $T = o.into();
                let d = self.z().sub(o.z());
                $T::from_z(Z::ite(d.lt_b(Z::C(0)), Z::C(0), d))
            }
            pub fn saturating_add(self, o: impl Into<$T>) -> $T {
                let o: $T = o.into();
                let d = self.z().add(o.z());
                $T::from_z(Z::ite(Z::C($T::LIM).lt_b(d), Z::C($T::LIM), d))
            }
            pub fn checked_sub(self, o: impl Into<$T>) -> Option<$T> {
                let o: $T = o.into();
                let d = self.z().sub(o.z());
                if branch($T::inrange(d)) {
                    Some($T::from_z(d))
                } else {
                    None
                }
            }
            pub fn checked_add(self, o: impl Into<$T>) -> Option<$T> {
                let o: $T = o.into();
                let d = self.z().add(o.z());
                if branch($T::inrange(d)) {
                    Some($T::from_z(d))
                } else {
                    None
                }
            }
            pub fn wrapping_add(self, o: impl Into<$T>) -> $T {
                let o: $T = o.into();
                $T::from_z(self.z().add(o.z()).modulo($T::LIM + 1))
            }
            pub fn wrapping_sub(self, o: impl Into<$T>) -> $T {
                let o: $T = o.into();
                $T::from_z(self.z().sub(o.z()).modulo($T::LIM + 1))
            }
            pub fn wrapping_mul(self, o: impl Into<$T>) -> $T {
                let o: $T = o.into();
                $T::from_z(self.z().mul(o.z()).modulo($T::LIM + 1))
            }
            pub fn checked_mul(self, o: impl Into<$T>) -> Option<$T> {
                let o: $T = o.into();
                let d = self.z().mul(o.z());
                if branch($T::inrange(d)) {
                    Some($T::from_z(d))
                } else {
                    None
                }
            }
            pub fn saturating_mul(self, o: impl Into<$T>) -> $T {
                let o: $T = o.into();
                let d = self.z().mul(o.z());
                $T::from_z(Z::ite(Z::C($T::LIM).lt_b(d), Z::C($T::LIM), d))
            }
            pub fn pow(self, n: u32) -> $T {
                let mut r = $T::from_z(Z::C(1));
                for _ in 0..n {
                    r = r * self;
                }
                r
            }
            pub fn abs_diff(self, o: $T) -> $T {
                let d = self.z().sub(o.z());
                $T::from_z(Z::ite(d.lt_b(Z::C(0)), Z::C(0).sub(d), d))
            }
            pub fn cast<T: ToZ>(x: T) -> $T {
                x.to_z_cast($T::LIM)
                    .map($T::from_z)
                    .expect("SYMX: unsupported cast")
            }
        }
        impl From<$p> for $T {
            fn from(x: $p) -> $T {
                $T::lit(x)
            }
        }
        impl From<u32> for $T {
            fn from(x: u32) -> $T {
                $T::lit(x as $p)
            }
        }
        impl From<i32> for $T {
            fn from(x: i32) -> $T {
                $T::lit(x as $p)
            }
        }
        impl From<usize> for $T {
            fn from(x: usize) -> $T {
                $T::lit(x as $p)
            }
        }
        impl From<u16> for $T {
            fn from(x: u16) -> $T {
                $T::lit(x as $p)
            }
        }
        impl From<u8> for $T {
            fn from(x: u8) -> $T {
                $T::lit(x as $p)
            }
        }
        impl std::ops::BitAnd<$T> for $T {
            type Output = $T;
            fn bitand(self, o: $T) -> $T {
                let (a, m) = match (self.z(), o.z()) {
                    (Z::C(a), Z::C(b)) => return $T::from_z(Z::C(a & b)),
                    (a, Z::C(m)) | (Z::C(m), a) => (a, m),
                    (a, b) => (a, b.concretize()),
                };
                if (m + 1).count_ones() == 1 {
                    $T::from_z(a.modulo(m + 1))
                } else {
                    $T::from_z(Z::C(a.concretize() & m))
                }
            }
        }
        impl std::ops::BitAnd<$p> for $T {
            type Output = $T;
            fn bitand(self, o: $p) -> $T {
                self & $T::lit(o)
            }
        }
        impl std::ops::BitOr<$T> for $T {
            type Output = $T;
            fn bitor(self, o: $T) -> $T {
                $T::from_z(Z::C(self.z().concretize() | o.z().concretize()))
            }
        }
        impl std::ops::BitXor<$T> for $T {
            type Output = $T;
            fn bitxor(self, o: $T) -> $T {
                $T::from_z(Z::C(self.z().concretize() ^ o.z().concretize()))
            }
        }
        impl std::ops::Not for $T {
            type Output = $T;
            fn not(self) -> $T {
                $T::from_z(Z::C($T::LIM).sub(self.z()))
            }
        }
        impl<T: ToZ> std::ops::Shr<T> for $T {
            type Output = $T;
            fn shr(self, o: T) -> $T {
                let k = o.to_z_cast(i128::MAX).expect("SYMX: shift").concretize();
                $T::from_z(self.z().div(1 << k))
            }
        }
        impl<T: ToZ> std::ops::Shl<T> for $T {
            type Output = $T;
            fn shl(self, o: T) -> $T {
                let k = o.to_z_cast(i128::MAX).expect("SYMX: shift").concretize();
                let v = self.z().mul(Z::C(1 << k));
                $T::from_z(if $T::LIM < i128::MAX - 1 { v.modulo($T::LIM + 1) } else { v })
            }
        }
        uint_op!($T, $p, Add, add, AddAssign, add_assign, "add", |a: Z, b: Z| a.add(b));
        uint_op!($T, $p, Sub, sub, SubAssign, sub_assign, "subtract", |a: Z, b: Z| a.sub(b));
        uint_op!($T, $p, Mul, mul, MulAssign, mul_assign, "multiply", |a: Z, b: Z| a.mul(b));
        uint_op!($T, $p, Div, div, DivAssign, div_assign, "divide", |a: Z, b: Z| a
            .div(b.concretize()));
        uint_op!($T, $p, Rem, rem, RemAssign, rem_assign, "rem", |a: Z, b: Z| a
            .modulo(b.concretize()));
    };
}
macro_rules! uint_op {
    ($T:ident, $p:ty, $Tr:ident, $f:ident, $TrA:ident, $fa:ident, $w:expr, $e:expr) => {
        impl std::ops::$Tr<$T> for $T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                let g: fn(Z, Z) -> Z = $e;
                $T::arith(g(self.z(), o.z()), $w)
            }
        }
        impl std::ops::$Tr<$p> for $T {
            type Output = $T;
            fn $f(self, o: $p) -> $T {
                std::ops::$Tr::$f(self, $T::lit(o))
            }
        }
        impl<'a> std::ops::$Tr<&'a $T> for $T {
            type Output = $T;
            fn $f(self, o: &'a $T) -> $T {
                std::ops::$Tr::$f(self, *o)
            }
        }
        impl std::ops::$TrA<$T> for $T {
            fn $fa(&mut self, o: $T) {
                *self = std::ops::$Tr::$f(*self, o)
            }
        }
        impl std::ops::$TrA<$p> for $T {
            fn $fa(&mut self, o: $p) {
                *self = std::ops::$Tr::$f(*self, $T::lit(o))
            }
        }
    };
}
uint!(U64, u64);
uint!(U128, u128);
impl From<U64> for U128 {
    fn from(x: U64) -> U128 {
        U128(x.z())
    }
}

/// source types of `as` casts to a shadowed integer
pub trait ToZ {
    fn to_z_cast(self, lim: i128) -> Option<Z>;
}
macro_rules! toz {
    ($($t:ty),*) => {$(impl ToZ for $t {
        fn to_z_cast(self, lim: i128) -> Option<Z> {
            let v = self as i128;
            Some(Z::C(if v < 0 && lim < i128::MAX - 1 { v.rem_euclid(lim + 1) } else { v }))
        }
    })*};
}
toz!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, i128, u128, bool);
impl ToZ for U64 {
    fn to_z_cast(self, _: i128) -> Option<Z> {
        Some(self.z())
    }
}
impl ToZ for U128 {
    fn to_z_cast(self, lim: i128) -> Option<Z> {
        Some(if lim >= i128::MAX - 1 { self.z() } else { self.z().modulo(lim + 1) })
    }
}
impl ToZ for R {
    fn to_z_cast(self, lim: i128) -> Option<Z> {
        Some(match self.as_const() {
            Some(c) => Z::C((c as i128).clamp(0, lim)),
            None => {
                let z = mkz(ZNode::OfReal(self));
                let z = Z::ite(z.lt_b(Z::C(0)), Z::C(0), z);
                Z::ite(Z::C(lim).lt_b(z), Z::C(lim), z)
            }
        })
    }
}

/// `x as T` for a machine type T that has no terms
pub trait As<T> {
    fn as_(self) -> T;
}
pub fn cast<T, S: As<T>>(x: S) -> T {
    x.as_()
}
macro_rules! as_prim {
    ($($s:ty),*) => {$(
        as_to!($s: u8, u16, u32, usize, i8, i16, i32, i64, isize, i128);
    )*};
}
macro_rules! as_to {
    ($s:ty: $($t:ty),*) => {$(impl As<$t> for $s {
        #[inline]
        fn as_(self) -> $t {
            self as $t
        }
    })*};
}
as_prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, isize, i128, f64, bool, char);
macro_rules! as_term {
    ($($t:ty),*) => {$(
        impl As<$t> for U64 {
            fn as_(self) -> $t {
                self.z().concretize() as $t
            }
        }
        impl As<$t> for U128 {
            fn as_(self) -> $t {
                self.z().concretize() as $t
            }
        }
        impl As<$t> for R {
            fn as_(self) -> $t {
                match self.as_const() {
                    Some(c) => c as $t,
                    None => {
                        // towards zero
                        let z = if self < R::lit(0.0) { Z::C(0).sub(mkz(ZNode::OfReal(-self))) } else { mkz(ZNode::OfReal(self)) };
                        let k = z.concretize();
                        k.clamp(<$t>::MIN as i128, <$t>::MAX as i128) as $t
                    }
                }
            }
        }
        impl std::convert::TryFrom<U64> for $t {
            type Error = std::num::TryFromIntError;
            fn try_from(x: U64) -> Result<$t, Self::Error> {
                // which side is decided on the term
                if branch(x.z().le_b(Z::C(<$t>::MAX as i128))) {
                    Ok(x.z().concretize() as $t)
                } else {
                    u8::try_from(256u32).map(|_| 0)
                }
            }
        }
        impl std::convert::TryFrom<U128> for $t {
            type Error = std::num::TryFromIntError;
            fn try_from(x: U128) -> Result<$t, Self::Error> {
                if branch(x.z().le_b(Z::C(<$t>::MAX as i128))) {
                    Ok(x.z().concretize() as $t)
                } else {
                    u8::try_from(256u32).map(|_| 0)
                }
            }
        }
    )*};
}
as_term!(u8, u16, u32, usize, i8, i16, i32, i64, isize, i128);
impl std::convert::TryFrom<U128> for U64 {
    type Error = std::num::TryFromIntError;
    fn try_from(x: U128) -> Result<U64, Self::Error> {
        if branch(x.z().le_b(Z::C(u64::MAX as i128))) {
            Ok(U64::from_z(x.z()))
        } else {
            u8::try_from(256u32).map(|_| U64::lit(0))
        }
    }
}

impl serde::Serialize for U64 {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.0)
    }
}
impl<'de> serde::Deserialize<'de> for U64 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <u64 as serde::Deserialize>::deserialize(d).map(U64)
    }
}

/// Replacement of `std::time::Duration`: a (symbolic) number of nanoseconds.
#[derive(Clone, Copy)]
pub struct Duration(pub Z);
const NS: i128 = 1_000_000_000;
impl Duration {
    pub const ZERO: Duration = Duration(Z::C(0));
    pub const MAX: Duration = Duration(Z::C(u64::MAX as i128 * NS + NS - 1));
    pub fn ns(self) -> Z {
        self.0
    }
    pub fn new(s: impl Into<U64>, n: u32) -> Duration {
        Duration(s.into().z().mul(Z::C(NS)).add(Z::C(n as i128)))
    }
    pub fn from_secs(s: impl Into<U64>) -> Duration {
        Duration(s.into().z().mul(Z::C(NS)))
    }
    pub fn from_millis(s: impl Into<U64>) -> Duration {
        Duration(s.into().z().mul(Z::C(1_000_000)))
    }
    pub fn from_micros(s: impl Into<U64>) -> Duration {
        Duration(s.into().z().mul(Z::C(1_000)))
    }
    pub fn from_nanos(s: impl Into<U64>) -> Duration {
        Duration(s.into().z())
    }
    pub fn from_secs_f64(x: impl Into<R>) -> Duration {
        let x: R = x.into();
        match x.as_const() {
            Some(c) => {
                let d = std::time::Duration::from_secs_f64(c);
                Duration(Z::C(d.as_nanos() as i128))
            }
            None => {
                if x < R::lit(0.0) {
                    panic!("cannot convert float seconds to Duration: value is negative");
                }
                Duration(mkz(ZNode::OfReal(x * R::lit(1e9))))
            }
        }
    }
    /// a duration of exactly `x` seconds: in proofs any real number, of which whole nanoseconds
    /// are a part
    pub fn exactly(x: R) -> Duration {
        if x.as_const().is_some() {
            return Duration::from_secs_f64(x);
        }
        Duration(mkz(ZNode::Exact(x)))
    }
    pub fn as_secs_f64(&self) -> R {
        if let Z::N(i) = self.0 {
            if let ZNode::Exact(x) = CTX.with(|c| c.borrow().zn[i as usize].clone()) {
                return x;
            }
        }
        match self.0 {
            Z::C(c) => R::lit(
                std::time::Duration::new((c / NS) as u64, (c % NS) as u32).as_secs_f64(),
            ),
            z => {
                let (ms, _) = (z.div(1_000_000), 0);
                // exact when the duration is a whole number of milliseconds by construction
                if ms.mul(Z::C(1_000_000)) == z {
                    ms.to_r() / R::lit(1000.0)
                } else {
                    z.to_r() / R::lit(1e9)
                }
            }
        }
    }
    pub fn as_secs(&self) -> U64 {
        U64::from_z(self.0.div(NS))
    }
    pub fn as_millis(&self) -> U128 {
        U128::from_z(self.0.div(1_000_000))
    }
    pub fn as_micros(&self) -> U128 {
        U128::from_z(self.0.div(1_000))
    }
    pub fn as_nanos(&self) -> U128 {
        U128::from_z(self.0)
    }
    pub fn subsec_nanos(&self) -> u32 {
        self.0.modulo(NS).concretize() as u32
    }
    pub fn subsec_millis(&self) -> u32 {
        self.0.modulo(NS).div(1_000_000).concretize() as u32
    }
    pub fn subsec_micros(&self) -> u32 {
        self.0.modulo(NS).div(1_000).concretize() as u32
    }
    pub fn as_secs_f32(&self) -> R {
        R::cast32(self.as_secs_f64())
    }
    pub fn mul_f64(self, k: impl Into<R>) -> Duration {
        Duration::from_secs_f64(self.as_secs_f64() * k.into())
    }
    pub fn div_f64(self, k: impl Into<R>) -> Duration {
        Duration::from_secs_f64(self.as_secs_f64() / k.into())
    }
    pub fn saturating_add(self, o: Duration) -> Duration {
        self + o
    }
    pub fn abs_diff(self, o: Duration) -> Duration {
        if self < o {
            o - self
        } else {
            self - o
        }
    }
    pub fn is_zero(&self) -> bool {
        branch(self.0.eq_b(Z::C(0)))
    }
    pub fn checked_sub(self, o: Duration) -> Option<Duration> {
        if branch(self.0.lt_b(o.0)) {
            None
        } else {
            Some(self.raw_sub(o))
        }
    }
    pub fn checked_add(self, o: Duration) -> Option<Duration> {
        Some(self + o)
    }
    pub fn saturating_sub(self, o: Duration) -> Duration {
        self.checked_sub(o).unwrap_or(Duration::ZERO)
    }
    fn ms_of(z: Z) -> Option<Z> {
        let m = z.div(1_000_000);
        if m.mul(Z::C(1_000_000)) == z {
            Some(m)
        } else {
            None
        }
    }
    fn raw_sub(self, o: Duration) -> Duration {
        if let (Some(a), Some(b)) = (Self::ms_of(self.0), Self::ms_of(o.0)) {
            return Duration(a.sub(b).mul(Z::C(1_000_000)));
        }
        Duration(self.0.sub(o.0))
    }
}
impl From<std::time::Duration> for Duration {
    fn from(d: std::time::Duration) -> Duration {
        Duration(Z::C(d.as_nanos() as i128))
    }
}
impl Default for Duration {
    fn default() -> Self {
        Duration::ZERO
    }
}
impl fmt::Debug for Duration {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.0 {
            Z::C(c) => write!(f, "{}ns", c),
            Z::N(i) => write!(f, "<dur {}>", i),
        }
    }
}
impl PartialEq for Duration {
    fn eq(&self, o: &Duration) -> bool {
        branch(self.0.eq_b(o.0))
    }
}
impl Eq for Duration {}
impl PartialOrd for Duration {
    fn partial_cmp(&self, o: &Duration) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Duration {
    fn cmp(&self, o: &Duration) -> Ordering {
        if branch(self.0.lt_b(o.0)) {
            Ordering::Less
        } else if branch(self.0.eq_b(o.0)) {
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    }
}
impl std::ops::Sub for Duration {
    type Output = Duration;
    fn sub(self, o: Duration) -> Duration {
        self.checked_sub(o)
            .expect("overflow when subtracting durations")
    }
}
impl std::ops::Add for Duration {
    type Output = Duration;
    fn add(self, o: Duration) -> Duration {
        if let (Some(a), Some(b)) = (Self::ms_of(self.0), Self::ms_of(o.0)) {
            return Duration(a.add(b).mul(Z::C(1_000_000)));
        }
        Duration(self.0.add(o.0))
    }
}
impl std::ops::AddAssign for Duration {
    fn add_assign(&mut self, o: Duration) {
        *self = *self + o
    }
}
impl std::ops::SubAssign for Duration {
    fn sub_assign(&mut self, o: Duration) {
        *self = *self - o
    }
}
impl std::ops::Mul<u32> for Duration {
    type Output = Duration;
    fn mul(self, o: u32) -> Duration {
        Duration(self.0.mul(Z::C(o as i128)))
    }
}
impl std::ops::Div<u32> for Duration {
    type Output = Duration;
    fn div(self, o: u32) -> Duration {
        Duration(self.0.div(o as i128))
    }
}

impl serde::Serialize for Duration {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        let mut st = s.serialize_struct("Duration", 2)?;
        st.serialize_field("secs", &self.as_secs())?;
        st.serialize_field("nanos", &self.subsec_nanos())?;
        st.end()
    }
}
impl<'de> serde::Deserialize<'de> for Duration {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (s, n) = <(u64, u32) as serde::Deserialize>::deserialize(d)?;
        Ok(Duration::new(s, n))
    }
}
