//! Stand-in for the `fixed` crate (the git fork the program depends on is not available offline).
//! Two 128-bit fixed-point types with the operations and rounding of `fixed` 1.11: products and
//! conversions to integers round down, quotients round towards zero, floats round to nearest.
//! Out-of-range results panic, as they do with `debug-assert-in-release`.

use core::cmp::Ordering;
use core::fmt;
use core::iter::Sum;
use core::ops::*;

pub mod types {
    pub use crate::{I80F48, U64F64};
}

pub mod traits {
    pub use crate::{FromFixed, ToFixed};
}

/// A sign and a 256-bit magnitude, enough for every intermediate result.
#[derive(Clone, Copy)]
pub struct Wide {
    neg: bool,
    hi: u128,
    lo: u128,
}

fn mul_u128(a: u128, b: u128) -> (u128, u128) {
    const M: u128 = u64::MAX as u128;
    let (a1, a0, b1, b0) = (a >> 64, a & M, b >> 64, b & M);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & M) + (p10 & M);
    let lo = (p00 & M) | (mid << 64);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    (hi, lo)
}

fn shl_256(hi: u128, lo: u128, n: u32) -> (u128, u128) {
    match n {
        0 => (hi, lo),
        1..=127 => ((hi << n) | (lo >> (128 - n)), lo << n),
        128 => (lo, 0),
        _ => (lo << (n - 128), 0),
    }
}

fn shr_256(hi: u128, lo: u128, n: u32) -> (u128, u128, bool) {
    match n {
        0 => (hi, lo, false),
        1..=127 => (
            hi >> n,
            (lo >> n) | (hi << (128 - n)),
            lo & ((1u128 << n) - 1) != 0,
        ),
        128 => (0, hi, lo != 0),
        _ => (
            0,
            hi >> (n - 128),
            lo != 0 || hi & ((1u128 << (n - 128)) - 1) != 0,
        ),
    }
}

fn div_256(mut hi: u128, mut lo: u128, d: u128) -> (u128, u128) {
    let (mut qhi, mut qlo, mut rem) = (0u128, 0u128, 0u128);
    for _ in 0..256 {
        let carry = rem >> 127 != 0;
        rem = (rem << 1) | (hi >> 127);
        (hi, lo) = shl_256(hi, lo, 1);
        (qhi, qlo) = shl_256(qhi, qlo, 1);
        if carry || rem >= d {
            rem = rem.wrapping_sub(d);
            qlo |= 1;
        }
    }
    (qhi, qlo)
}

pub trait ToFixed: Copy {
    /// The value times 2^frac, rounded as `fixed` does; None if it is not finite or does not fit.
    fn to_wide(self, frac: u32) -> Option<Wide>;
}

pub trait FromFixed: Sized {
    fn from_wide(w: Wide, frac: u32) -> Option<Self>;
}

macro_rules! int_impl {
    ($($t:ty),*) => {$(
        impl ToFixed for $t {
            fn to_wide(self, frac: u32) -> Option<Wide> {
                #[allow(unused_comparisons)]
                let neg = self < 0;
                let mag = if neg { (self as i128).unsigned_abs() } else { self as u128 };
                let (hi, lo) = shl_256(0, mag, frac);
                Some(Wide { neg, hi, lo })
            }
        }
        impl FromFixed for $t {
            fn from_wide(w: Wide, frac: u32) -> Option<Self> {
                let (hi, mut lo, sticky) = shr_256(w.hi, w.lo, frac);
                if hi != 0 {
                    return None;
                }
                if w.neg {
                    // rounds down
                    if sticky {
                        lo = lo.checked_add(1)?;
                    }
                    if lo > 1u128 << 127 {
                        return None;
                    }
                    <$t>::try_from((lo as i128).wrapping_neg()).ok()
                } else {
                    <$t>::try_from(lo).ok()
                }
            }
        }
    )*};
}
int_impl!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

impl ToFixed for f64 {
    fn to_wide(self, frac: u32) -> Option<Wide> {
        if !self.is_finite() {
            return None;
        }
        let bits = self.to_bits();
        let neg = bits >> 63 != 0;
        let exp = ((bits >> 52) & 0x7ff) as i32;
        let man = bits & ((1u64 << 52) - 1);
        let (man, exp) = if exp == 0 {
            (man, -1074)
        } else {
            (man | (1u64 << 52), exp - 1075)
        };
        let shift = exp + frac as i32;
        let (hi, lo) = if man == 0 {
            (0, 0)
        } else if shift >= 0 {
            if shift > 200 {
                return None;
            }
            shl_256(0, man as u128, shift as u32)
        } else {
            let s = (-shift) as u32;
            if s > 60 {
                (0, 0)
            } else {
                // round to nearest, ties to even
                let q = man >> s;
                let r = man & ((1u64 << s) - 1);
                let half = 1u64 << (s - 1);
                let up = r > half || (r == half && q & 1 == 1);
                (0, (q + up as u64) as u128)
            }
        };
        Some(Wide { neg, hi, lo })
    }
}

impl ToFixed for f32 {
    fn to_wide(self, frac: u32) -> Option<Wide> {
        (self as f64).to_wide(frac)
    }
}

impl FromFixed for f64 {
    fn from_wide(w: Wide, frac: u32) -> Option<Self> {
        let mag = w.hi as f64 * 2f64.powi(128 - frac as i32) + w.lo as f64 / 2f64.powi(frac as i32);
        Some(if w.neg { -mag } else { mag })
    }
}

impl FromFixed for f32 {
    fn from_wide(w: Wide, frac: u32) -> Option<Self> {
        f64::from_wide(w, frac).map(|x| x as f32)
    }
}

macro_rules! fixed_type {
    ($name:ident, $inner:ty, $frac:expr, $signed:expr, [$($from:ty),*]) => {
        #[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[repr(transparent)]
        pub struct $name {
            bits: $inner,
        }

        impl $name {
            pub const FRAC_NBITS: u32 = $frac;
            pub const ZERO: Self = Self { bits: 0 };
            pub const ONE: Self = Self { bits: 1 << $frac };
            pub const DELTA: Self = Self { bits: 1 };
            pub const MAX: Self = Self { bits: <$inner>::MAX };
            pub const MIN: Self = Self { bits: <$inner>::MIN };

            pub const fn from_bits(bits: $inner) -> Self {
                Self { bits }
            }
            pub const fn to_bits(self) -> $inner {
                self.bits
            }
            fn wide(self) -> Wide {
                #[allow(unused_comparisons)]
                let neg = self.bits < 0;
                let lo = if neg { (self.bits as i128).unsigned_abs() } else { self.bits as u128 };
                Wide { neg, hi: 0, lo }
            }
            fn narrow(w: Wide) -> Option<Self> {
                if w.hi != 0 {
                    return None;
                }
                if w.neg {
                    if w.lo > 1u128 << 127 || (!$signed && w.lo != 0) {
                        return None;
                    }
                    Some(Self { bits: (w.lo as i128).wrapping_neg() as $inner })
                } else {
                    <$inner>::try_from(w.lo).ok().map(|bits| Self { bits })
                }
            }
            pub fn checked_from_num<T: ToFixed>(x: T) -> Option<Self> {
                x.to_wide($frac).and_then(Self::narrow)
            }
            pub fn from_num<T: ToFixed>(x: T) -> Self {
                Self::checked_from_num(x).expect("overflow")
            }
            pub fn saturating_from_num<T: ToFixed>(x: T) -> Self {
                match x.to_wide($frac) {
                    Some(w) => Self::narrow(w).unwrap_or(if w.neg { Self::MIN } else { Self::MAX }),
                    None => panic!("not a number"),
                }
            }
            pub fn checked_to_num<T: FromFixed>(self) -> Option<T> {
                T::from_wide(self.wide(), $frac)
            }
            pub fn to_num<T: FromFixed>(self) -> T {
                self.checked_to_num().expect("overflow")
            }
            pub fn checked_add(self, o: Self) -> Option<Self> {
                self.bits.checked_add(o.bits).map(Self::from_bits)
            }
            pub fn checked_sub(self, o: Self) -> Option<Self> {
                self.bits.checked_sub(o.bits).map(Self::from_bits)
            }
            pub fn checked_mul(self, o: Self) -> Option<Self> {
                let (a, b) = (self.wide(), o.wide());
                let (hi, lo) = mul_u128(a.lo, b.lo);
                let (hi, mut lo, sticky) = shr_256(hi, lo, $frac);
                let neg = a.neg != b.neg;
                if neg && sticky {
                    lo = lo.checked_add(1)?;
                }
                Self::narrow(Wide { neg, hi, lo })
            }
            pub fn checked_div(self, o: Self) -> Option<Self> {
                if o.bits == 0 {
                    return None;
                }
                let (a, b) = (self.wide(), o.wide());
                let (hi, lo) = shl_256(0, a.lo, $frac);
                let (hi, lo) = div_256(hi, lo, b.lo);
                Self::narrow(Wide { neg: a.neg != b.neg, hi, lo })
            }
            pub fn checked_mul_int(self, o: $inner) -> Option<Self> {
                self.bits.checked_mul(o).map(Self::from_bits)
            }
            pub fn checked_div_int(self, o: $inner) -> Option<Self> {
                self.bits.checked_div(o).map(Self::from_bits)
            }
            pub fn saturating_add(self, o: Self) -> Self {
                Self { bits: self.bits.saturating_add(o.bits) }
            }
            pub fn saturating_sub(self, o: Self) -> Self {
                Self { bits: self.bits.saturating_sub(o.bits) }
            }
            pub fn saturating_mul(self, o: Self) -> Self {
                self.checked_mul(o).unwrap_or(if self.wide().neg != o.wide().neg {
                    Self::MIN
                } else {
                    Self::MAX
                })
            }
            pub fn floor(self) -> Self {
                Self { bits: (self.bits >> $frac) << $frac }
            }
            pub fn ceil(self) -> Self {
                let f = self.floor();
                if f == self {
                    f
                } else {
                    f.checked_add(Self::ONE).expect("overflow")
                }
            }
            pub fn int(self) -> Self {
                self.floor()
            }
            pub fn frac(self) -> Self {
                Self { bits: self.bits - self.floor().bits }
            }
            pub fn round(self) -> Self {
                let half = Self { bits: 1 << ($frac - 1) };
                if self.wide().neg {
                    Self { bits: self.bits.wrapping_neg() }.add(half).floor().bits.wrapping_neg().into_fixed()
                } else {
                    self.add(half).floor()
                }
            }
            pub fn is_zero(self) -> bool {
                self.bits == 0
            }
            pub fn min(self, o: Self) -> Self {
                if o < self { o } else { self }
            }
            pub fn max(self, o: Self) -> Self {
                if o > self { o } else { self }
            }
        }

        trait IntoFixed {
            fn into_fixed(self) -> $name;
        }
        impl IntoFixed for $inner {
            fn into_fixed(self) -> $name {
                $name { bits: self }
            }
        }

        impl Add for $name {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                self.checked_add(o).expect("overflow")
            }
        }
        impl Sub for $name {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                self.checked_sub(o).expect("overflow")
            }
        }
        impl Mul for $name {
            type Output = Self;
            fn mul(self, o: Self) -> Self {
                self.checked_mul(o).expect("overflow")
            }
        }
        impl Div for $name {
            type Output = Self;
            fn div(self, o: Self) -> Self {
                self.checked_div(o).expect("overflow")
            }
        }
        impl Mul<$inner> for $name {
            type Output = Self;
            fn mul(self, o: $inner) -> Self {
                self.checked_mul_int(o).expect("overflow")
            }
        }
        impl Div<$inner> for $name {
            type Output = Self;
            fn div(self, o: $inner) -> Self {
                self.checked_div_int(o).expect("overflow")
            }
        }
        impl AddAssign for $name {
            fn add_assign(&mut self, o: Self) {
                *self = *self + o;
            }
        }
        impl SubAssign for $name {
            fn sub_assign(&mut self, o: Self) {
                *self = *self - o;
            }
        }
        impl MulAssign for $name {
            fn mul_assign(&mut self, o: Self) {
                *self = *self * o;
            }
        }
        impl DivAssign for $name {
            fn div_assign(&mut self, o: Self) {
                *self = *self / o;
            }
        }
        impl Sum for $name {
            fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
                iter.fold(Self::ZERO, |a, b| a + b)
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Display::fmt(&self.to_num::<f64>(), f)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&self.to_num::<f64>(), f)
            }
        }
        impl ToFixed for $name {
            fn to_wide(self, frac: u32) -> Option<Wide> {
                let w = self.wide();
                if frac >= $frac {
                    let (hi, lo) = shl_256(w.hi, w.lo, frac - $frac);
                    Some(Wide { neg: w.neg, hi, lo })
                } else {
                    let (hi, lo, sticky) = shr_256(w.hi, w.lo, $frac - frac);
                    Some(Wide { neg: w.neg, hi, lo: lo + (w.neg && sticky) as u128 })
                }
            }
        }
        impl FromFixed for $name {
            fn from_wide(w: Wide, frac: u32) -> Option<Self> {
                let w = if frac <= $frac {
                    let (hi, lo) = shl_256(w.hi, w.lo, $frac - frac);
                    Wide { neg: w.neg, hi, lo }
                } else {
                    let (hi, lo, sticky) = shr_256(w.hi, w.lo, frac - $frac);
                    Wide { neg: w.neg, hi, lo: lo + (w.neg && sticky) as u128 }
                };
                Self::narrow(w)
            }
        }
        $(
            impl From<$from> for $name {
                fn from(x: $from) -> Self {
                    Self::from_num(x)
                }
            }
        )*
    };
}

mod i80f48 {
    use super::*;
    fixed_type!(I80F48, i128, 48, true, [u8, u16, u32, u64, i8, i16, i32, i64]);

    impl I80F48 {
        pub fn abs(self) -> Self {
            Self::from_bits(self.to_bits().abs())
        }
        pub fn signum(self) -> Self {
            Self::from_num(self.to_bits().signum())
        }
        pub fn is_positive(self) -> bool {
            self.to_bits() > 0
        }
        pub fn is_negative(self) -> bool {
            self.to_bits() < 0
        }
    }
    impl Neg for I80F48 {
        type Output = Self;
        fn neg(self) -> Self {
            Self::from_bits(-self.to_bits())
        }
    }
}
mod u64f64 {
    use super::*;
    fixed_type!(U64F64, u128, 64, false, [u8, u16, u32, u64]);
}
pub use i80f48::I80F48;
pub use u64f64::U64F64;

macro_rules! cmp_num {
    ($name:ident: $($t:ty),*) => {$(
        impl PartialEq<$t> for $name {
            fn eq(&self, o: &$t) -> bool {
                self.partial_cmp(o) == Some(Ordering::Equal)
            }
        }
        impl PartialOrd<$t> for $name {
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> {
                let o = o.to_wide(Self::FRAC_NBITS)?;
                let s = self.to_wide(Self::FRAC_NBITS)?;
                let key = |w: &Wide| (w.hi, w.lo);
                let zero = |w: &Wide| w.hi == 0 && w.lo == 0;
                Some(match (s.neg && !zero(&s), o.neg && !zero(&o)) {
                    (false, false) => key(&s).cmp(&key(&o)),
                    (true, true) => key(&o).cmp(&key(&s)),
                    (true, false) => Ordering::Less,
                    (false, true) => Ordering::Greater,
                })
            }
        }
    )*};
}
cmp_num!(I80F48: u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);
cmp_num!(U64F64: u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn arithmetic() {
        let x = I80F48::from_num(2.5);
        assert_eq!(x * I80F48::from_num(4), 10);
        assert_eq!((x / I80F48::from_num(2)).to_num::<f64>(), 1.25);
        assert_eq!(I80F48::from_num(-2.5).to_num::<i64>(), -3);
        assert_eq!(x.to_num::<i64>(), 2);
        assert_eq!(I80F48::checked_from_num(1e30), None);
        assert_eq!(I80F48::checked_from_num(f64::NAN), None);
        assert_eq!(I80F48::from_num(i64::MAX).to_num::<i64>(), i64::MAX);
        assert!(I80F48::from(66000u64) > 1000u64);
        let big = I80F48::from_num(1u64 << 40);
        assert_eq!(big.checked_mul(big), None);
        let r = U64F64::from_bits(3u128 << 63);
        assert_eq!((r * r).to_num::<f64>(), 2.25);
    }
}
