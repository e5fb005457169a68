//! Element types the transforms are instantiated with.
//!
//! `Dht<T>` is generic over `FftNum`, which is blanket-implemented for every
//! `Copy + FromPrimitive + Signed + Sync + Send + Debug + 'static` type, so user-defined
//! number types are part of the public contract. The harness uses that in three ways:
//! a 2-component type (generic-type property), an operation-counting type (cost property)
//! and a type whose arithmetic is a scheduling point (concurrency property).
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use rustfft::FftNum;
use std::cell::Cell;
use std::ops::*;

pub trait Elem: FftNum {
    /// Unit roundoff of the type.
    const EPS: f64;
    /// Spacing of the subnormal numbers.
    const TINY: f64 = 5e-324;
    /// Number of independent f64 components.
    const NC: usize;
    fn fc(c: [f64; 2]) -> Self;
    fn tc(self) -> [f64; 2];
    fn bits(self) -> [u64; 2];
    fn nan() -> Self {
        Self::fc([f64::NAN, f64::NAN])
    }
    /// A NaN with a recognisable payload; written around every buffer handed to the library.
    fn canary() -> Self;
    fn is_canary(self) -> bool;
    fn of(x: f64) -> Self {
        Self::fc([x, 0.5 * x + if x == 0.0 { 0.0 } else { x * x.abs().min(1.0) * 0.25 }])
    }
}

impl Elem for f64 {
    const EPS: f64 = f64::EPSILON / 2.0;
    const NC: usize = 1;
    fn fc(c: [f64; 2]) -> Self {
        c[0]
    }
    fn tc(self) -> [f64; 2] {
        [self, 0.0]
    }
    fn bits(self) -> [u64; 2] {
        [self.to_bits(), 0]
    }
    fn canary() -> Self {
        f64::from_bits(0x7ff8_dead_beef_1234)
    }
    fn is_canary(self) -> bool {
        self.to_bits() == 0x7ff8_dead_beef_1234
    }
}
impl Elem for f32 {
    const EPS: f64 = (f32::EPSILON / 2.0) as f64;
    const TINY: f64 = 1.5e-45;
    const NC: usize = 1;
    fn fc(c: [f64; 2]) -> Self {
        c[0] as f32
    }
    fn tc(self) -> [f64; 2] {
        [self as f64, 0.0]
    }
    fn bits(self) -> [u64; 2] {
        [self.to_bits() as u64, 0]
    }
    fn canary() -> Self {
        f32::from_bits(0x7fc5_a5a5)
    }
    fn is_canary(self) -> bool {
        self.to_bits() == 0x7fc5_a5a5
    }
}

macro_rules! num_boilerplate {
    ($t:ident) => {
        impl Zero for $t {
            fn zero() -> Self {
                $t::from_f64(0.0).unwrap()
            }
            fn is_zero(&self) -> bool {
                *self == Self::zero()
            }
        }
        impl One for $t {
            fn one() -> Self {
                $t::from_f64(1.0).unwrap()
            }
        }
        impl Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
                Err(())
            }
        }
    };
}

/// v + d*epsilon, epsilon^2 = 0: a 16-byte user-defined number whose product is not component-wise.
/// Constants have d = 0, so a linear transform acts on v and d independently.
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Dual {
    pub v: f64,
    pub d: f64,
}
impl Add for Dual {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Dual { v: self.v + o.v, d: self.d + o.d }
    }
}
impl Sub for Dual {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Dual { v: self.v - o.v, d: self.d - o.d }
    }
}
impl Mul for Dual {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Dual { v: self.v * o.v, d: self.v * o.d + self.d * o.v }
    }
}
impl Div for Dual {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        Dual { v: self.v / o.v, d: (self.d * o.v - self.v * o.d) / (o.v * o.v) }
    }
}
impl Rem for Dual {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        Dual { v: self.v % o.v, d: self.d }
    }
}
impl Neg for Dual {
    type Output = Self;
    fn neg(self) -> Self {
        Dual { v: -self.v, d: -self.d }
    }
}
impl FromPrimitive for Dual {
    fn from_i64(n: i64) -> Option<Self> {
        Self::from_f64(n as f64)
    }
    fn from_u64(n: u64) -> Option<Self> {
        Self::from_f64(n as f64)
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(Dual { v: n, d: 0.0 })
    }
}
num_boilerplate!(Dual);
impl Signed for Dual {
    fn abs(&self) -> Self {
        if self.v < 0.0 { -*self } else { *self }
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self.v <= o.v { Self::zero() } else { *self - *o }
    }
    fn signum(&self) -> Self {
        Dual { v: self.v.signum(), d: 0.0 }
    }
    fn is_positive(&self) -> bool {
        self.v > 0.0
    }
    fn is_negative(&self) -> bool {
        self.v < 0.0
    }
}
impl Elem for Dual {
    const EPS: f64 = f64::EPSILON / 2.0;
    const NC: usize = 2;
    fn fc(c: [f64; 2]) -> Self {
        Dual { v: c[0], d: c[1] }
    }
    fn tc(self) -> [f64; 2] {
        [self.v, self.d]
    }
    fn bits(self) -> [u64; 2] {
        [self.v.to_bits(), self.d.to_bits()]
    }
    fn canary() -> Self {
        Dual { v: f64::canary(), d: f64::canary() }
    }
    fn is_canary(self) -> bool {
        self.v.is_canary() && self.d.is_canary()
    }
}

thread_local! {
    pub static OPS: Cell<u64> = const { Cell::new(0) };
    pub static HOOK: Cell<bool> = const { Cell::new(false) };
}

/// f64 with a hook on every arithmetic operation: counts it, and (when the thread takes part in a
/// controlled schedule) offers the scheduler a switch point.
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Hooked(pub f64);
#[inline]
fn tick() {
    OPS.with(|o| o.set(o.get() + 1));
    if HOOK.with(|h| h.get()) {
        crate::sched::point();
    }
}
macro_rules! hooked_op {
    ($tr:ident, $f:ident, $op:tt) => {
        impl $tr for Hooked {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                tick();
                Hooked(self.0 $op o.0)
            }
        }
    };
}
hooked_op!(Add, add, +);
hooked_op!(Sub, sub, -);
hooked_op!(Mul, mul, *);
hooked_op!(Div, div, /);
hooked_op!(Rem, rem, %);
impl Neg for Hooked {
    type Output = Self;
    fn neg(self) -> Self {
        Hooked(-self.0)
    }
}
impl FromPrimitive for Hooked {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Hooked(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Hooked(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(Hooked(n))
    }
}
num_boilerplate!(Hooked);
impl Signed for Hooked {
    fn abs(&self) -> Self {
        Hooked(self.0.abs())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        Hooked((self.0 - o.0).max(0.0))
    }
    fn signum(&self) -> Self {
        Hooked(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0 > 0.0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0.0
    }
}
impl Elem for Hooked {
    const EPS: f64 = f64::EPSILON / 2.0;
    const NC: usize = 1;
    fn fc(c: [f64; 2]) -> Self {
        Hooked(c[0])
    }
    fn tc(self) -> [f64; 2] {
        [self.0, 0.0]
    }
    fn bits(self) -> [u64; 2] {
        [self.0.to_bits(), 0]
    }
    fn canary() -> Self {
        Hooked(f64::canary())
    }
    fn is_canary(self) -> bool {
        self.0.is_canary()
    }
}

/// A user-defined number with a wide alignment and an integrity word: arithmetic on a value that was not
/// produced by this type's own operations (uninitialised, zeroed or reinterpreted memory) panics.
macro_rules! tagged_type {
    ($T:ident, $al:literal) => {
        #[derive(Copy, Clone, Debug)]
        #[repr(align($al))]
        pub struct $T {
            v: f64,
            tag: u64,
        }
        impl $T {
            fn mk(v: f64) -> Self {
                $T { v, tag: v.to_bits() ^ 0x5afe_0123_4567_89ab }
            }
            fn val(self) -> f64 {
                assert!(self.tag == self.v.to_bits() ^ 0x5afe_0123_4567_89ab, "arithmetic on an element that is not a valid value of the user's number type");
                self.v
            }
        }
        impl PartialEq for $T {
            fn eq(&self, o: &Self) -> bool {
                self.val() == o.val()
            }
        }
        impl Add for $T {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                $T::mk(self.val() + o.val())
            }
        }
        impl Sub for $T {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                $T::mk(self.val() - o.val())
            }
        }
        impl Mul for $T {
            type Output = Self;
            fn mul(self, o: Self) -> Self {
                $T::mk(self.val() * o.val())
            }
        }
        impl Div for $T {
            type Output = Self;
            fn div(self, o: Self) -> Self {
                $T::mk(self.val() / o.val())
            }
        }
        impl Rem for $T {
            type Output = Self;
            fn rem(self, o: Self) -> Self {
                $T::mk(self.val() % o.val())
            }
        }
        impl Neg for $T {
            type Output = Self;
            fn neg(self) -> Self {
                $T::mk(-self.val())
            }
        }
        impl FromPrimitive for $T {
            fn from_i64(n: i64) -> Option<Self> {
                Some($T::mk(n as f64))
            }
            fn from_u64(n: u64) -> Option<Self> {
                Some($T::mk(n as f64))
            }
            fn from_f64(n: f64) -> Option<Self> {
                Some($T::mk(n))
            }
        }
        num_boilerplate!($T);
        impl Signed for $T {
            fn abs(&self) -> Self {
                $T::mk(self.val().abs())
            }
            fn abs_sub(&self, o: &Self) -> Self {
                $T::mk((self.val() - o.val()).max(0.0))
            }
            fn signum(&self) -> Self {
                $T::mk(self.val().signum())
            }
            fn is_positive(&self) -> bool {
                self.val() > 0.0
            }
            fn is_negative(&self) -> bool {
                self.val() < 0.0
            }
        }
        impl Elem for $T {
            const EPS: f64 = f64::EPSILON / 2.0;
            const NC: usize = 1;
            fn fc(c: [f64; 2]) -> Self {
                $T::mk(c[0])
            }
            fn tc(self) -> [f64; 2] {
                [self.val(), 0.0]
            }
            fn bits(self) -> [u64; 2] {
                [self.val().to_bits(), 0]
            }
            fn canary() -> Self {
                $T { v: f64::canary(), tag: 0xdead }
            }
            fn is_canary(self) -> bool {
                self.v.is_canary() && self.tag == 0xdead
            }
        }
    };
}
tagged_type!(Tagged, 32);
tagged_type!(Wide, 64);

/// A 4-byte user-defined number (same size as f32, but not f32).
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Single(f32);
macro_rules! single_op {
    ($tr:ident, $f:ident, $op:tt) => {
        impl $tr for Single {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                Single(self.0 $op o.0)
            }
        }
    };
}
single_op!(Add, add, +);
single_op!(Sub, sub, -);
single_op!(Mul, mul, *);
single_op!(Div, div, /);
single_op!(Rem, rem, %);
impl Neg for Single {
    type Output = Self;
    fn neg(self) -> Self {
        Single(-self.0)
    }
}
impl FromPrimitive for Single {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Single(n as f32))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Single(n as f32))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(Single(n as f32))
    }
}
num_boilerplate!(Single);
impl Signed for Single {
    fn abs(&self) -> Self {
        Single(self.0.abs())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        Single((self.0 - o.0).max(0.0))
    }
    fn signum(&self) -> Self {
        Single(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0 > 0.0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0.0
    }
}
impl Elem for Single {
    const EPS: f64 = <f32 as Elem>::EPS;
    const TINY: f64 = <f32 as Elem>::TINY;
    const NC: usize = 1;
    fn fc(c: [f64; 2]) -> Self {
        Single(c[0] as f32)
    }
    fn tc(self) -> [f64; 2] {
        [self.0 as f64, 0.0]
    }
    fn bits(self) -> [u64; 2] {
        [self.0.to_bits() as u64, 0]
    }
    fn canary() -> Self {
        Single(f32::canary())
    }
    fn is_canary(self) -> bool {
        self.0.is_canary()
    }
}

/// A 12-byte dual number in single precision with an integrity word between its parts: the size is not
/// a power of two, and values must come from the type's own operations.
#[derive(Copy, Clone, Debug)]
pub struct Odd12 {
    v: f32,
    tag: u32,
    d: f32,
}
impl Odd12 {
    fn mk(v: f32, d: f32) -> Self {
        Odd12 { v, tag: v.to_bits() ^ d.to_bits().rotate_left(7) ^ 0x5afe_0123, d }
    }
    fn val(self) -> (f32, f32) {
        assert!(self.tag == self.v.to_bits() ^ self.d.to_bits().rotate_left(7) ^ 0x5afe_0123, "arithmetic on an element that is not a valid value of the user's number type");
        (self.v, self.d)
    }
}
impl PartialEq for Odd12 {
    fn eq(&self, o: &Self) -> bool {
        self.val() == o.val()
    }
}
impl Add for Odd12 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let (a, b) = (self.val(), o.val());
        Odd12::mk(a.0 + b.0, a.1 + b.1)
    }
}
impl Sub for Odd12 {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        let (a, b) = (self.val(), o.val());
        Odd12::mk(a.0 - b.0, a.1 - b.1)
    }
}
impl Mul for Odd12 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let (a, b) = (self.val(), o.val());
        Odd12::mk(a.0 * b.0, a.0 * b.1 + a.1 * b.0)
    }
}
impl Div for Odd12 {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        let (a, b) = (self.val(), o.val());
        Odd12::mk(a.0 / b.0, (a.1 * b.0 - a.0 * b.1) / (b.0 * b.0))
    }
}
impl Rem for Odd12 {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        let (a, b) = (self.val(), o.val());
        Odd12::mk(a.0 % b.0, a.1)
    }
}
impl Neg for Odd12 {
    type Output = Self;
    fn neg(self) -> Self {
        let a = self.val();
        Odd12::mk(-a.0, -a.1)
    }
}
impl FromPrimitive for Odd12 {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Odd12::mk(n as f32, 0.0))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Odd12::mk(n as f32, 0.0))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(Odd12::mk(n as f32, 0.0))
    }
}
num_boilerplate!(Odd12);
impl Signed for Odd12 {
    fn abs(&self) -> Self {
        if self.val().0 < 0.0 { -*self } else { *self }
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self.val().0 <= o.val().0 { Self::zero() } else { *self - *o }
    }
    fn signum(&self) -> Self {
        Odd12::mk(self.val().0.signum(), 0.0)
    }
    fn is_positive(&self) -> bool {
        self.val().0 > 0.0
    }
    fn is_negative(&self) -> bool {
        self.val().0 < 0.0
    }
}
impl Elem for Odd12 {
    const EPS: f64 = <f32 as Elem>::EPS;
    const TINY: f64 = <f32 as Elem>::TINY;
    const NC: usize = 2;
    fn fc(c: [f64; 2]) -> Self {
        Odd12::mk(c[0] as f32, c[1] as f32)
    }
    fn tc(self) -> [f64; 2] {
        let a = self.val();
        [a.0 as f64, a.1 as f64]
    }
    fn bits(self) -> [u64; 2] {
        [self.v.to_bits() as u64, self.d.to_bits() as u64]
    }
    fn canary() -> Self {
        Odd12 { v: f32::canary(), tag: 0xdead, d: f32::canary() }
    }
    fn is_canary(self) -> bool {
        self.v.is_canary() && self.d.is_canary() && self.tag == 0xdead
    }
}

/// A fixed-point number with 40 fractional bits: no NaN, no infinities, no exponent, integer comparison.
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Fixed(i64);
impl Fixed {
    const ONE: f64 = (1u64 << 40) as f64;
    fn mk(x: f64) -> Self {
        // an undefined value becomes a large one that spoils any result it reaches
        Fixed(if x.is_nan() { 0x000b_ad0b_ad0b_ad0b } else { (x * Self::ONE).round() as i64 })
    }
}
impl Add for Fixed {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Fixed(self.0.wrapping_add(o.0))
    }
}
impl Sub for Fixed {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Fixed(self.0.wrapping_sub(o.0))
    }
}
impl Mul for Fixed {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fixed(((self.0 as i128 * o.0 as i128 + (1 << 39)) >> 40) as i64)
    }
}
impl Div for Fixed {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        Fixed((((self.0 as i128) << 40) / o.0 as i128) as i64)
    }
}
impl Rem for Fixed {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        Fixed(self.0 % o.0)
    }
}
impl Neg for Fixed {
    type Output = Self;
    fn neg(self) -> Self {
        Fixed(self.0.wrapping_neg())
    }
}
impl FromPrimitive for Fixed {
    fn from_i64(n: i64) -> Option<Self> {
        n.checked_mul(1 << 40).map(Fixed)
    }
    fn from_u64(n: u64) -> Option<Self> {
        i64::try_from(n).ok().and_then(Self::from_i64)
    }
    fn from_f64(n: f64) -> Option<Self> {
        if n.abs() < 8e6 { Some(Fixed::mk(n)) } else { None }
    }
}
num_boilerplate!(Fixed);
impl Signed for Fixed {
    fn abs(&self) -> Self {
        Fixed(self.0.wrapping_abs())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        Fixed((self.0 - o.0).max(0))
    }
    fn signum(&self) -> Self {
        Fixed(self.0.signum() << 40)
    }
    fn is_positive(&self) -> bool {
        self.0 > 0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0
    }
}
impl Elem for Fixed {
    const EPS: f64 = 1.0 / (1u64 << 38) as f64;
    const TINY: f64 = 1.0 / (1u64 << 38) as f64;
    const NC: usize = 1;
    fn fc(c: [f64; 2]) -> Self {
        Fixed::mk(c[0])
    }
    fn tc(self) -> [f64; 2] {
        [self.0 as f64 / Self::ONE, 0.0]
    }
    fn bits(self) -> [u64; 2] {
        [self.0 as u64, 0]
    }
    fn canary() -> Self {
        Fixed(0x5ca1_ab1e_dead_beef)
    }
    fn is_canary(self) -> bool {
        self.0 == 0x5ca1_ab1e_dead_beef
    }
}
