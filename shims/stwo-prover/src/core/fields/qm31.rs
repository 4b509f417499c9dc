use super::cm31::CM31;
use super::m31::M31;
use num_traits::{One, Zero};
use std::ops::{Add, Mul, Sub};

pub const SECURE_EXTENSION_DEGREE: usize = 4;

#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
pub struct QM31(pub CM31, pub CM31);
pub type SecureField = QM31;

impl QM31 {
    pub const fn from_u32_unchecked(a: u32, b: u32, c: u32, d: u32) -> Self {
        Self(CM31(M31(a), M31(b)), CM31(M31(c), M31(d)))
    }
    pub const fn from_m31(a: M31, b: M31, c: M31, d: M31) -> Self {
        Self(CM31(a, b), CM31(c, d))
    }
    pub const fn from_m31_array(array: [M31; SECURE_EXTENSION_DEGREE]) -> Self {
        Self(CM31(array[0], array[1]), CM31(array[2], array[3]))
    }
    pub const fn to_m31_array(self) -> [M31; SECURE_EXTENSION_DEGREE] {
        [self.0 .0, self.0 .1, self.1 .0, self.1 .1]
    }
}
impl std::fmt::Display for QM31 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "({} + {}i) + ({} + {}i)u", self.0 .0, self.0 .1, self.1 .0, self.1 .1)
    }
}
fn cadd(a: CM31, b: CM31) -> CM31 {
    CM31(a.0 + b.0, a.1 + b.1)
}
fn csub(a: CM31, b: CM31) -> CM31 {
    CM31(a.0 - b.0, a.1 - b.1)
}
fn cmul(a: CM31, b: CM31) -> CM31 {
    CM31(a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
impl Add for QM31 {
    type Output = Self;
    fn add(self, r: Self) -> Self {
        Self(cadd(self.0, r.0), cadd(self.1, r.1))
    }
}
impl Sub for QM31 {
    type Output = Self;
    fn sub(self, r: Self) -> Self {
        Self(csub(self.0, r.0), csub(self.1, r.1))
    }
}
impl Mul for QM31 {
    type Output = Self;
    fn mul(self, r: Self) -> Self {
        // (a + bu)(c + du) = ac + (2 + i)bd + (ad + bc)u
        let rr = CM31(M31(2), M31(1));
        Self(
            cadd(cmul(self.0, r.0), cmul(rr, cmul(self.1, r.1))),
            cadd(cmul(self.0, r.1), cmul(self.1, r.0)),
        )
    }
}
impl Zero for QM31 {
    fn zero() -> Self {
        Self::default()
    }
    fn is_zero(&self) -> bool {
        *self == Self::default()
    }
}
impl One for QM31 {
    fn one() -> Self {
        Self(CM31(M31(1), M31(0)), CM31(M31(0), M31(0)))
    }
}
impl From<M31> for QM31 {
    fn from(value: M31) -> Self {
        Self(CM31(value, M31(0)), CM31(M31(0), M31(0)))
    }
}
