//! Offline stand-in for the parts of `stwo-prover` that the compiler, the VM and
//! `cairo-m-common` use: the M31 field and its degree-4 extension, with the same
//! representation and reduction as upstream.
pub mod core {
    pub mod fields {
        use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};
        pub trait FieldExpOps: Sized + Copy + Mul<Output = Self> {
            fn inverse(&self) -> Self;
            fn square(&self) -> Self { *self * *self }
            fn pow(&self, exp: u128) -> Self;
        }
        pub mod m31 {
            use super::*;
            pub const MODULUS_BITS: u32 = 31;
            pub const P: u32 = 2147483647;
            #[repr(transparent)]
            #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash,
                serde::Serialize, serde::Deserialize)]
            pub struct M31(pub u32);
            pub type BaseField = M31;
            impl M31 {
                pub const fn partial_reduce(val: u32) -> Self { Self(if val >= P { val - P } else { val }) }
                pub const fn reduce(val: u64) -> Self {
                    Self((((((val >> MODULUS_BITS) + val + 1) >> MODULUS_BITS) + val) & (P as u64)) as u32)
                }
                pub const fn from_u32_unchecked(v: u32) -> Self { Self(v) }
                pub fn inverse(&self) -> Self { FieldExpOps::inverse(self) }
                pub fn pow(&self, e: u128) -> Self { FieldExpOps::pow(self, e) }
            }
            impl std::fmt::Display for M31 {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) }
            }
            impl Add for M31 { type Output = Self; fn add(self, r: Self) -> Self { Self::partial_reduce(self.0 + r.0) } }
            impl Sub for M31 { type Output = Self; fn sub(self, r: Self) -> Self { Self::partial_reduce(self.0 + P - r.0) } }
            impl Mul for M31 { type Output = Self; fn mul(self, r: Self) -> Self { Self::reduce(self.0 as u64 * r.0 as u64) } }
            impl Neg for M31 { type Output = Self; fn neg(self) -> Self { Self::partial_reduce(P - self.0) } }
            impl Div for M31 { type Output = Self; fn div(self, r: Self) -> Self { self * FieldExpOps::inverse(&r) } }
            impl AddAssign for M31 { fn add_assign(&mut self, r: Self) { *self = *self + r } }
            impl SubAssign for M31 { fn sub_assign(&mut self, r: Self) { *self = *self - r } }
            impl MulAssign for M31 { fn mul_assign(&mut self, r: Self) { *self = *self * r } }
            impl std::iter::Sum for M31 { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self(0), |a, b| a + b) } }
            impl FieldExpOps for M31 {
                fn inverse(&self) -> Self { assert!(self.0 != 0, "0 has no inverse"); FieldExpOps::pow(self, P as u128 - 2) }
                fn pow(&self, mut e: u128) -> Self {
                    let (mut b, mut r) = (*self, Self(1));
                    while e > 0 { if e & 1 == 1 { r = r * b } b = b * b; e >>= 1; }
                    r
                }
            }
            impl num_traits::Zero for M31 { fn zero() -> Self { Self(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
            impl num_traits::One for M31 { fn one() -> Self { Self(1) } }
            impl From<u32> for M31 { fn from(v: u32) -> Self { Self::reduce(v.into()) } }
            impl From<usize> for M31 { fn from(v: usize) -> Self { Self::reduce(v.try_into().unwrap()) } }
            impl From<i32> for M31 {
                fn from(v: i32) -> Self {
                    if v < 0 { const P2: u64 = 2 * P as u64; return Self::reduce(P2 - v.unsigned_abs() as u64); }
                    Self::reduce(v as u64)
                }
            }
        }
        pub mod cm31 {
            use super::m31::M31;
            use super::*;
            #[repr(C)]
            #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
            pub struct CM31(pub M31, pub M31);
            impl Add for CM31 { type Output = Self; fn add(self, r: Self) -> Self { Self(self.0 + r.0, self.1 + r.1) } }
            impl Sub for CM31 { type Output = Self; fn sub(self, r: Self) -> Self { Self(self.0 - r.0, self.1 - r.1) } }
            impl num_traits::Zero for CM31 { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { *self == Self::default() } }
            impl Neg for CM31 { type Output = Self; fn neg(self) -> Self { Self(-self.0, -self.1) } }
            impl Mul for CM31 { type Output = Self; fn mul(self, r: Self) -> Self { Self(self.0 * r.0 - self.1 * r.1, self.0 * r.1 + self.1 * r.0) } }
        }
        pub mod qm31 {
            use super::cm31::CM31;
            use super::m31::M31;
            use super::*;
            pub const SECURE_EXTENSION_DEGREE: usize = 4;
            #[repr(C)]
            #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
            pub struct QM31(pub CM31, pub CM31);
            pub type SecureField = QM31;
            impl QM31 {
                pub const fn from_u32_unchecked(a: u32, b: u32, c: u32, d: u32) -> Self {
                    Self(CM31(M31(a), M31(b)), CM31(M31(c), M31(d)))
                }
                pub const fn from_m31(a: M31, b: M31, c: M31, d: M31) -> Self { Self(CM31(a, b), CM31(c, d)) }
                pub const fn from_m31_array(a: [M31; 4]) -> Self { Self::from_m31(a[0], a[1], a[2], a[3]) }
                pub const fn to_m31_array(self) -> [M31; 4] { [self.0 .0, self.0 .1, self.1 .0, self.1 .1] }
            }
            impl std::fmt::Display for QM31 {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "({} + {}i) + ({} + {}i)u", self.0 .0, self.0 .1, self.1 .0, self.1 .1)
                }
            }
            impl Add for QM31 { type Output = Self; fn add(self, r: Self) -> Self { Self(self.0 + r.0, self.1 + r.1) } }
            impl Sub for QM31 { type Output = Self; fn sub(self, r: Self) -> Self { Self(self.0 - r.0, self.1 - r.1) } }
            impl Neg for QM31 { type Output = Self; fn neg(self) -> Self { Self(-self.0, -self.1) } }
            impl From<M31> for QM31 { fn from(m: M31) -> Self { Self(CM31(m, M31(0)), CM31::default()) } }
            impl From<u32> for QM31 { fn from(m: u32) -> Self { M31::from(m).into() } }
            impl num_traits::Zero for QM31 { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { *self == Self::default() } }
            impl TryInto<M31> for QM31 {
                type Error = ();
                fn try_into(self) -> Result<M31, ()> {
                    let a = self.to_m31_array();
                    if a[1].0 != 0 || a[2].0 != 0 || a[3].0 != 0 { return Err(()); }
                    Ok(a[0])
                }
            }
        }
    }
}
