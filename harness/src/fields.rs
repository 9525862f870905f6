//! Coefficient fields of the workloads: instrumented prime fields (exact, and
//! they trap division by zero), the library's rationals, and floats on inputs
//! where their arithmetic is exact.

use crate::model::{Ring, Q};
use crate::rt::Rng;
use algeo::core::num::{EpsilonEquality, Field, Integer, One, Rational, StabilityCmp, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Fp<const P: u64>(pub u64);

impl<const P: u64> Fp<P> {
    pub fn of(x: i64) -> Self {
        Fp((x as i128).rem_euclid(P as i128) as u64)
    }
    pub fn recip(self) -> Self {
        assert!(self.0 != 0, "MONITOR: division by zero in the coefficient field");
        let mut r = Fp::<P>(1);
        let mut b = self;
        let mut e = P - 2;
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
}
impl<const P: u64> fmt::Display for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> fmt::Debug for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> Add for Fp<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let s = self.0 + o.0;
        Fp(if s >= P { s - P } else { s })
    }
}
impl<const P: u64> Sub for Fp<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Fp(if self.0 >= o.0 { self.0 - o.0 } else { self.0 + P - o.0 })
    }
}
impl<const P: u64> Neg for Fp<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Fp(if self.0 == 0 { 0 } else { P - self.0 })
    }
}
impl<const P: u64> Mul for Fp<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fp(((self.0 as u128 * o.0 as u128) % P as u128) as u64)
    }
}
impl<const P: u64> Div for Fp<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.recip()
    }
}
impl<const P: u64> AddAssign for Fp<P> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<const P: u64> SubAssign for Fp<P> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<const P: u64> MulAssign for Fp<P> {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o
    }
}
impl<const P: u64> DivAssign for Fp<P> {
    fn div_assign(&mut self, o: Self) {
        *self = *self / o
    }
}
impl<const P: u64> Sum for Fp<P> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Fp(0), |a, b| a + b)
    }
}
impl<const P: u64> Product for Fp<P> {
    fn product<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Fp(1), |a, b| a * b)
    }
}
impl<const P: u64> Zero for Fp<P> {
    const ZERO: Self = Fp(0);
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u64> One for Fp<P> {
    const ONE: Self = Fp(1);
    fn is_one(&self) -> bool {
        self.0 == 1
    }
}
impl<const P: u64> Field for Fp<P> {
    fn powi32(&self, p: i32) -> Self {
        let b = if p < 0 { self.recip() } else { *self };
        <Self as Ring>::pow(&b, p.unsigned_abs())
    }
}
/// zero below everything, nonzero elements in a scrambled total order, so that
/// pivoting is exercised
impl<const P: u64> StabilityCmp for Fp<P> {
    fn stability_cmp(&self, o: &Self) -> Option<Ordering> {
        let k = |x: u64| if x == 0 { 0 } else { 1 + (crate::rt::mix(x) >> 1) };
        Some(k(self.0).cmp(&k(o.0)))
    }
}
impl<const P: u64> EpsilonEquality for Fp<P> {
    fn epsilon_equals(&self, o: &Self) -> bool {
        self == o
    }
}
impl<const P: u64> Ring for Fp<P> {
    fn zero() -> Self {
        Fp(0)
    }
    fn one() -> Self {
        Fp(1)
    }
    fn add(&self, o: &Self) -> Self {
        *self + *o
    }
    fn neg(&self) -> Self {
        -*self
    }
    fn mul(&self, o: &Self) -> Self {
        *self * *o
    }
    fn inv(&self) -> Self {
        self.recip()
    }
}

pub type F2 = Fp<2>;
pub type F3 = Fp<3>;
pub type F7 = Fp<7>;
pub type F101 = Fp<101>;
pub type F32003 = Fp<32003>;
/// 2^61 - 1
pub type FM61 = Fp<2305843009213693951>;

// ------------------------------------------------------------ coefficients

pub trait Coef: Field + StabilityCmp + EpsilonEquality + Send + Sync + 'static {
    type M: Ring;
    const NAME: &'static str;
    /// small values; arithmetic on a few hundred of them stays exact
    fn small(r: &mut Rng) -> Self;
    /// wider values for short computations
    fn wide(r: &mut Rng) -> Self;
    /// exact value (None: not a number of the field)
    fn m(&self) -> Option<Self::M>;
    fn from_m(m: &Self::M) -> Self;
    /// rounding unit of inexact fields
    const EPS: Option<f64> = None;
    /// value of an exact result as a float (inexact fields only)
    fn approx(_: &Self::M) -> f64 {
        0.0
    }
    /// conversions of floats as they are
    fn as_f64(&self) -> f64 {
        0.0
    }
    fn from_f64(_: f64) -> Self {
        Self::ZERO
    }
    /// an invertible element whose inverse is exact
    fn unit(r: &mut Rng) -> Self {
        loop {
            let x = Self::small(r);
            if x.m().map_or(false, |m| !m.is_zero()) {
                return x;
            }
        }
    }
    fn small_nz(r: &mut Rng) -> Self {
        loop {
            let x = Self::small(r);
            if x.m().map_or(false, |m| !m.is_zero()) {
                return x;
            }
        }
    }
    fn wide_nz(r: &mut Rng) -> Self {
        loop {
            let x = Self::wide(r);
            if x.m().map_or(false, |m| !m.is_zero()) {
                return x;
            }
        }
    }
}

impl<const P: u64> Coef for Fp<P> {
    type M = Self;
    const NAME: &'static str = "Fp";
    fn small(r: &mut Rng) -> Self {
        match r.below(6) {
            0 => Fp(0),
            1 => Fp(1),
            2 => Fp(P - 1),
            3 => Fp::of(r.range(-6, 6)),
            4 => Fp::of(r.dict()),
            _ => Fp(r.u64() % P),
        }
    }
    fn wide(r: &mut Rng) -> Self {
        Self::small(r)
    }
    fn m(&self) -> Option<Self> {
        if self.0 < P {
            Some(*self)
        } else {
            None
        }
    }
    fn from_m(m: &Self) -> Self {
        *m
    }
}

pub fn rat(n: i64, d: i64) -> Rational {
    // canonical by construction, without the library's own normalisation
    let q = Q::new(n as i128, d as i128);
    Rational { numer: Integer(q.n as i64), denom: Integer(q.d as i64) }
}
pub fn ratq(q: &Q) -> Rational {
    match (i64::try_from(q.n), i64::try_from(q.d)) {
        (Ok(n), Ok(d)) => Rational { numer: Integer(n), denom: Integer(d) },
        _ => crate::rt::harness_range(),
    }
}
pub fn qof(r: &Rational) -> Option<Q> {
    if r.denom.0 == 0 {
        None
    } else {
        Some(Q::new(r.numer.0 as i128, r.denom.0 as i128))
    }
}
pub fn is_canonical(r: &Rational) -> bool {
    let (n, d) = (r.numer.0 as i128, r.denom.0 as i128);
    d > 0 && crate::model::gcd128(n, d) == 1
}

impl Coef for Rational {
    type M = Q;
    const NAME: &'static str = "Rational";
    fn small(r: &mut Rng) -> Self {
        match r.below(8) {
            0 => rat(0, 1),
            1 => rat(1, 1),
            2 => rat(-1, 1),
            3 | 4 => rat(r.range(-5, 5), 1),
            5 => rat(r.range(-3, 3), r.range(1, 3)),
            6 => rat(r.range(-9, 9), r.range(1, 6)),
            _ => rat(r.range(-12, 12), r.range(1, 4)),
        }
    }
    fn wide(r: &mut Rng) -> Self {
        if r.chance(1, 3) {
            return Self::small(r);
        }
        let n = r.int(13);
        let mut d = r.int(13).abs();
        if d == 0 || r.chance(1, 3) {
            d = 1;
        }
        rat(n, d)
    }
    fn m(&self) -> Option<Q> {
        qof(self)
    }
    fn from_m(m: &Q) -> Self {
        ratq(m)
    }
}

macro_rules! float_coef {
    ($t:ty, $name:expr, $bits:expr) => {
        impl Coef for $t {
            type M = Q;
            const NAME: &'static str = $name;
            const EPS: Option<f64> = Some(<$t>::EPSILON as f64);
            fn approx(m: &Q) -> f64 {
                m.to_f64()
            }
            fn as_f64(&self) -> f64 {
                *self as f64
            }
            fn from_f64(x: f64) -> Self {
                x as $t
            }
            fn small(r: &mut Rng) -> Self {
                match r.below(6) {
                    0 => 0.0,
                    1 => 1.0,
                    2 => -1.0,
                    3 => r.range(-3, 3) as $t,
                    4 => r.range(-8, 8) as $t,
                    _ => r.range(-6, 6) as $t / 2.0,
                }
            }
            fn wide(r: &mut Rng) -> Self {
                if r.chance(1, 2) {
                    return Self::small(r);
                }
                r.int($bits) as $t / [1.0, 2.0, 4.0][r.below(3)]
            }
            fn m(&self) -> Option<Q> {
                Q::from_f64(*self as f64)
            }
            fn from_m(m: &Q) -> Self {
                m.to_f64() as $t
            }
            fn unit(r: &mut Rng) -> Self {
                *r.pick(&[1.0, -1.0, 2.0, -2.0, 0.5, 4.0, -0.25])
            }
        }
    };
}
float_coef! { f64, "f64", 15 }
float_coef! { f32, "f32", 5 }
