use crate::errors::{ByteConversionError, CreationError};
use crate::traits::ByteConversion;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use std::cmp::Ordering;
use std::fmt::{self, Display};
use std::ops::*;

pub type U384 = UnsignedInteger<6>;
pub type U256 = UnsignedInteger<4>;
pub type U128 = UnsignedInteger<2>;
pub type U64 = UnsignedInteger<1>;

/// Big-endian limbs: `limbs[0]` is the most significant one.
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub struct UnsignedInteger<const NUM_LIMBS: usize> {
    pub limbs: [u64; NUM_LIMBS],
}

impl<const N: usize> Default for UnsignedInteger<N> {
    fn default() -> Self {
        Self { limbs: [0; N] }
    }
}

impl<const N: usize> PartialOrd for UnsignedInteger<N> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl<const N: usize> Ord for UnsignedInteger<N> {
    fn cmp(&self, other: &Self) -> Ordering {
        self.limbs.cmp(&other.limbs)
    }
}

impl<const N: usize> From<u128> for UnsignedInteger<N> {
    fn from(v: u128) -> Self {
        Self::from_u128(v)
    }
}
impl<const N: usize> From<u64> for UnsignedInteger<N> {
    fn from(v: u64) -> Self {
        Self::from_u64(v)
    }
}
impl<const N: usize> From<u32> for UnsignedInteger<N> {
    fn from(v: u32) -> Self {
        Self::from_u64(v as u64)
    }
}
impl<const N: usize> From<u16> for UnsignedInteger<N> {
    fn from(v: u16) -> Self {
        Self::from_u64(v as u64)
    }
}
impl<const N: usize> From<usize> for UnsignedInteger<N> {
    fn from(v: usize) -> Self {
        Self::from_u64(v as u64)
    }
}
impl<const N: usize> From<&str> for UnsignedInteger<N> {
    fn from(v: &str) -> Self {
        Self::from_hex_unchecked(v)
    }
}
impl<const N: usize> From<UnsignedInteger<N>> for u16 {
    fn from(v: UnsignedInteger<N>) -> Self {
        v.limbs[N - 1] as u16
    }
}
impl<const N: usize> From<UnsignedInteger<N>> for u64 {
    fn from(v: UnsignedInteger<N>) -> Self {
        v.limbs[N - 1]
    }
}

impl<const N: usize> Display for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut s = String::new();
        for l in &self.limbs {
            s.push_str(&format!("{:016x}", l));
        }
        let t = s.trim_start_matches('0');
        write!(f, "0x{}", if t.is_empty() { "0" } else { t })
    }
}

impl<const N: usize> UnsignedInteger<N> {
    pub const fn from_limbs(limbs: [u64; N]) -> Self {
        Self { limbs }
    }
    pub const fn from_u64(value: u64) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value;
        Self { limbs }
    }
    pub const fn from_u128(value: u128) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value as u64;
        if N > 1 {
            limbs[N - 2] = (value >> 64) as u64;
        }
        Self { limbs }
    }
    pub const fn max() -> Self {
        Self { limbs: [u64::MAX; N] }
    }
    pub fn from_hex(value: &str) -> Result<Self, CreationError> {
        let mut string = value;
        if string.starts_with("0x") || string.starts_with("0X") {
            string = &string[2..];
        }
        if string.is_empty() {
            return Err(CreationError::EmptyString);
        }
        if !string.chars().all(|c| c.is_ascii_hexdigit()) {
            return Err(CreationError::InvalidHexString);
        }
        let trimmed = string.trim_start_matches('0');
        if trimmed.len() > N * 16 {
            return Err(CreationError::InvalidHexString);
        }
        Ok(Self::from_hex_unchecked(trimmed))
    }
    pub const fn from_hex_unchecked(value: &str) -> Self {
        let b = value.as_bytes();
        let mut limbs = [0u64; N];
        let mut start = 0;
        if b.len() >= 2 && b[0] == b'0' && (b[1] == b'x' || b[1] == b'X') {
            start = 2;
        }
        let mut i = b.len();
        let mut shift = 0usize;
        while i > start {
            i -= 1;
            let c = b[i];
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => panic!("Malformed hex expression."),
            };
            if shift / 16 < N {
                limbs[N - 1 - shift / 16] |= (d as u64) << ((shift % 16) * 4);
            }
            shift += 1;
        }
        Self { limbs }
    }
    pub fn to_hex(&self) -> String {
        let mut s = String::new();
        for l in &self.limbs {
            s.push_str(&format!("{:016X}", l));
        }
        let t = s.trim_start_matches('0');
        (if t.is_empty() { "0" } else { t }).to_string()
    }
    pub fn from_dec_str(value: &str) -> Result<Self, CreationError> {
        if value.is_empty() {
            return Err(CreationError::EmptyString);
        }
        let mut res = Self::from_u64(0);
        for c in value.chars() {
            let d = c.to_digit(10).ok_or(CreationError::InvalidHexString)?;
            res = res * Self::from_u64(10) + Self::from_u64(d as u64);
        }
        Ok(res)
    }
    /// (result, overflowed)
    pub const fn add(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut carry = 0u128;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let c = a.limbs[i] as u128 + b.limbs[i] as u128 + carry;
            limbs[i] = c as u64;
            carry = c >> 64;
        }
        (Self { limbs }, carry > 0)
    }
    pub const fn sub(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut borrow = false;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let (d, b1) = a.limbs[i].overflowing_sub(b.limbs[i]);
            let (d, b2) = d.overflowing_sub(borrow as u64);
            limbs[i] = d;
            borrow = b1 | b2;
        }
        (Self { limbs }, borrow)
    }
    /// Full product: (high, low)
    pub fn mul(a: &Self, b: &Self) -> (Self, Self) {
        let mut lo = vec![0u64; 2 * N]; // little endian
        for i in 0..N {
            let mut carry = 0u128;
            for j in 0..N {
                let c = lo[i + j] as u128
                    + (a.limbs[N - 1 - i] as u128) * (b.limbs[N - 1 - j] as u128)
                    + carry;
                lo[i + j] = c as u64;
                carry = c >> 64;
            }
            lo[i + N] = carry as u64;
        }
        let mut h = [0u64; N];
        let mut l = [0u64; N];
        for i in 0..N {
            l[N - 1 - i] = lo[i];
            h[N - 1 - i] = lo[N + i];
        }
        (Self { limbs: h }, Self { limbs: l })
    }
    pub const fn const_ne(a: &Self, b: &Self) -> bool {
        let mut i = 0;
        while i < N {
            if a.limbs[i] != b.limbs[i] {
                return true;
            }
            i += 1;
        }
        false
    }
    pub const fn const_le(a: &Self, b: &Self) -> bool {
        let mut i = 0;
        while i < N {
            if a.limbs[i] < b.limbs[i] {
                return true;
            } else if a.limbs[i] > b.limbs[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    pub const fn const_shl(self, times: usize) -> Self {
        let mut limbs = [0u64; N];
        let a = times / 64;
        let b = times % 64;
        if a >= N {
            return Self { limbs };
        }
        let mut i = 0;
        while i + a < N {
            limbs[i] = self.limbs[i + a] << b;
            if b > 0 && i + a + 1 < N {
                limbs[i] |= self.limbs[i + a + 1] >> (64 - b);
            }
            i += 1;
        }
        Self { limbs }
    }
    pub const fn const_shr(self, times: usize) -> Self {
        let mut limbs = [0u64; N];
        let a = times / 64;
        let b = times % 64;
        if a >= N {
            return Self { limbs };
        }
        let mut i = N;
        while i > a {
            i -= 1;
            limbs[i] = self.limbs[i - a] >> b;
            if b > 0 && i - a >= 1 {
                limbs[i] |= self.limbs[i - a - 1] << (64 - b);
            }
        }
        Self { limbs }
    }
    pub const fn bit_len(&self) -> usize {
        let mut i = 0;
        while i < N {
            if self.limbs[i] != 0 {
                return (N - i) * 64 - self.limbs[i].leading_zeros() as usize;
            }
            i += 1;
        }
        0
    }
    pub fn is_zero(&self) -> bool {
        self.limbs.iter().all(|l| *l == 0)
    }
    /// Quotient and remainder of the division `self / rhs`
    pub fn div_rem(&self, rhs: &Self) -> (Self, Self) {
        assert!(!rhs.is_zero(), "Attempted to divide by zero");
        let mut q = Self::from_u64(0);
        let mut r = Self::from_u64(0);
        for i in (0..self.bit_len()).rev() {
            r = r.const_shl(1);
            if (self.limbs[N - 1 - i / 64] >> (i % 64)) & 1 == 1 {
                r.limbs[N - 1] |= 1;
            }
            if r >= *rhs {
                r = Self::sub(&r, rhs).0;
                q.limbs[N - 1 - i / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
}

macro_rules! binop {
    ($tr:ident, $f:ident, |$a:ident, $b:ident| $e:expr) => {
        impl<const N: usize> $tr<&UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            #[inline]
            fn $f(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl<const N: usize> $tr<UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            #[inline]
            fn $f(self, o: UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$f(&self, &o)
            }
        }
        impl<const N: usize> $tr<&UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            #[inline]
            fn $f(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$f(&self, o)
            }
        }
        impl<const N: usize> $tr<UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            #[inline]
            fn $f(self, o: UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$f(self, &o)
            }
        }
    };
}
fn zip<const N: usize>(a: &UnsignedInteger<N>, b: &UnsignedInteger<N>, f: impl Fn(u64, u64) -> u64) -> UnsignedInteger<N> {
    let mut limbs = [0u64; N];
    for i in 0..N {
        limbs[i] = f(a.limbs[i], b.limbs[i]);
    }
    UnsignedInteger { limbs }
}
binop!(Add, add, |a, b| UnsignedInteger::<N>::add(a, b).0);
binop!(Sub, sub, |a, b| UnsignedInteger::<N>::sub(a, b).0);
binop!(Mul, mul, |a, b| UnsignedInteger::<N>::mul(a, b).1);
binop!(Div, div, |a, b| a.div_rem(b).0);
binop!(Rem, rem, |a, b| a.div_rem(b).1);
binop!(BitAnd, bitand, |a, b| zip(a, b, |x, y| x & y));
binop!(BitOr, bitor, |a, b| zip(a, b, |x, y| x | y));
binop!(BitXor, bitxor, |a, b| zip(a, b, |x, y| x ^ y));

impl<const N: usize> Shl<usize> for UnsignedInteger<N> {
    type Output = Self;
    fn shl(self, t: usize) -> Self {
        self.const_shl(t)
    }
}
impl<const N: usize> Shl<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shl(self, t: usize) -> UnsignedInteger<N> {
        self.const_shl(t)
    }
}
impl<const N: usize> Shr<usize> for UnsignedInteger<N> {
    type Output = Self;
    fn shr(self, t: usize) -> Self {
        self.const_shr(t)
    }
}
impl<const N: usize> Shr<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shr(self, t: usize) -> UnsignedInteger<N> {
        self.const_shr(t)
    }
}
impl<const N: usize> ShrAssign<usize> for UnsignedInteger<N> {
    fn shr_assign(&mut self, t: usize) {
        *self = self.const_shr(t)
    }
}
impl<const N: usize> ShlAssign<usize> for UnsignedInteger<N> {
    fn shl_assign(&mut self, t: usize) {
        *self = self.const_shl(t)
    }
}
impl<const N: usize> AddAssign for UnsignedInteger<N> {
    fn add_assign(&mut self, o: Self) {
        *self = UnsignedInteger::<N>::add(self, &o).0
    }
}
impl<const N: usize> BitAndAssign for UnsignedInteger<N> {
    fn bitand_assign(&mut self, o: Self) {
        *self = &*self & &o
    }
}

impl<const N: usize> IsUnsignedInteger for UnsignedInteger<N> {}

impl<const N: usize> ByteConversion for UnsignedInteger<N> {
    fn to_bytes_be(&self) -> Vec<u8> {
        self.limbs.iter().flat_map(|l| l.to_be_bytes()).collect()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.limbs.iter().rev().flat_map(|l| l.to_le_bytes()).collect()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        // Extra bytes are cut off, as the original does.
        let needed = bytes.get(0..N * 8).ok_or(ByteConversionError::FromBEBytesError)?;
        let mut limbs = [0u64; N];
        for (i, c) in needed.chunks_exact(8).enumerate() {
            limbs[i] = u64::from_be_bytes(c.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let needed = bytes.get(0..N * 8).ok_or(ByteConversionError::FromLEBytesError)?;
        let mut limbs = [0u64; N];
        for (i, c) in needed.chunks_exact(8).enumerate() {
            limbs[N - 1 - i] = u64::from_le_bytes(c.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
}
