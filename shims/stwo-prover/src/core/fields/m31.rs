use num_traits::{One, Zero};
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub const MODULUS_BITS: u32 = 31;
pub const P: u32 = 2147483647;

#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
pub struct M31(pub u32);
pub type BaseField = M31;

impl M31 {
    pub fn partial_reduce(val: u32) -> Self {
        Self(val.checked_sub(P).unwrap_or(val))
    }
    pub const fn reduce(val: u64) -> Self {
        Self((((((val >> MODULUS_BITS) + val + 1) >> MODULUS_BITS) + val) & (P as u64)) as u32)
    }
    pub const fn from_u32_unchecked(arg: u32) -> Self {
        Self(arg)
    }
    pub fn square(&self) -> Self {
        *self * *self
    }
    pub fn pow(&self, mut exp: u128) -> Self {
        let mut base = *self;
        let mut acc = Self(1);
        while exp > 0 {
            if exp & 1 == 1 {
                acc = acc * base;
            }
            base = base * base;
            exp >>= 1;
        }
        acc
    }
    pub fn inverse(&self) -> Self {
        assert!(!self.is_zero(), "0 has no inverse");
        inv(*self)
    }
}

/// Field product; a separate function so that a check can replace it by its contract
/// (a commutative function of its arguments, uninterpreted).
pub fn fmul(a: M31, b: M31) -> M31 {
    M31::reduce((a.0 as u64) * (b.0 as u64))
}

/// v^(P-2); a separate function so that a check can replace it by its contract
/// (v != 0 ==> v * inv(v) == 1), which is the Fermat inverse.
pub fn inv(v: M31) -> M31 {
    v.pow((P - 2) as u128)
}

impl std::fmt::Display for M31 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Add for M31 {
    type Output = Self;
    fn add(self, rhs: Self) -> Self {
        Self::partial_reduce(self.0 + rhs.0)
    }
}
impl Neg for M31 {
    type Output = Self;
    fn neg(self) -> Self {
        Self::partial_reduce(P - self.0)
    }
}
impl Sub for M31 {
    type Output = Self;
    fn sub(self, rhs: Self) -> Self {
        Self::partial_reduce(self.0 + P - rhs.0)
    }
}
impl Mul for M31 {
    type Output = Self;
    fn mul(self, rhs: Self) -> Self {
        fmul(self, rhs)
    }
}
impl Div for M31 {
    type Output = Self;
    #[allow(clippy::suspicious_arithmetic_impl)]
    fn div(self, rhs: Self) -> Self {
        self * rhs.inverse()
    }
}
impl AddAssign for M31 {
    fn add_assign(&mut self, rhs: Self) {
        *self = *self + rhs;
    }
}
impl SubAssign for M31 {
    fn sub_assign(&mut self, rhs: Self) {
        *self = *self - rhs;
    }
}
impl MulAssign for M31 {
    fn mul_assign(&mut self, rhs: Self) {
        *self = *self * rhs;
    }
}
impl DivAssign for M31 {
    fn div_assign(&mut self, rhs: Self) {
        *self = *self / rhs;
    }
}
impl Zero for M31 {
    fn zero() -> Self {
        Self(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for M31 {
    fn one() -> Self {
        Self(1)
    }
}
impl From<usize> for M31 {
    fn from(value: usize) -> Self {
        M31::reduce(value.try_into().unwrap())
    }
}
impl From<u32> for M31 {
    fn from(value: u32) -> Self {
        M31::reduce(value.into())
    }
}
impl From<i32> for M31 {
    fn from(value: i32) -> Self {
        if value < 0 {
            const P2: u64 = 2 * P as u64;
            return M31::reduce(P2 - value.unsigned_abs() as u64);
        }
        M31::reduce(value.unsigned_abs().into())
    }
}
impl std::iter::Sum for M31 {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self(0), |a, b| a + b)
    }
}
