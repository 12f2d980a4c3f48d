use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_math::unsigned_integer::element::U256;
use std::ops::{Add, Div, Mul, Neg, Sub};

type F = FieldElement<Stark252PrimeField>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Felt252 {
    v: F,
}
impl Felt252 {
    pub fn new<T: Into<Felt252>>(v: T) -> Self {
        v.into()
    }
    pub fn zero() -> Self {
        Self { v: F::zero() }
    }
    pub fn one() -> Self {
        Self { v: F::one() }
    }
    pub fn is_zero(&self) -> bool {
        self.v == F::zero()
    }
    pub fn to_le_bytes(&self) -> [u8; 32] {
        self.v.to_bytes_le().try_into().unwrap()
    }
    pub fn to_be_bytes(&self) -> [u8; 32] {
        self.v.to_bytes_be().try_into().unwrap()
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        self.v.to_bytes_be()
    }
    pub fn from_bytes_be(b: &[u8]) -> Self {
        let mut buf = [0u8; 32];
        let n = b.len().min(32);
        buf[32 - n..].copy_from_slice(&b[b.len() - n..]);
        Self { v: F::from_bytes_be(&buf).unwrap() }
    }
    fn limbs(&self) -> [u64; 4] {
        let u: U256 = self.v.representative();
        u.limbs
    }
    pub fn to_u64(&self) -> Option<u64> {
        let l = self.limbs();
        (l[0] == 0 && l[1] == 0 && l[2] == 0).then_some(l[3])
    }
    pub fn to_usize(&self) -> Option<usize> {
        self.to_u64().map(|x| x as usize)
    }
    /// Bits of the canonical representative.
    pub fn bits(&self) -> u64 {
        for (i, l) in self.limbs().iter().enumerate() {
            if *l != 0 {
                return (4 - i as u64) * 64 - l.leading_zeros() as u64;
            }
        }
        0
    }
    pub fn cmp_repr(&self, o: &Self) -> std::cmp::Ordering {
        self.limbs().cmp(&o.limbs())
    }
    pub fn from_str_any(s: &str) -> Option<Self> {
        if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")) {
            if h.is_empty() || h.len() > 64 || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
                return None;
            }
            Some(Self { v: F::from_hex(h).ok()? })
        } else {
            let (neg, d) = match s.strip_prefix('-') {
                Some(d) => (true, d),
                None => (false, s),
            };
            if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
                return None;
            }
            let ten = F::from(10u64);
            let v = d.bytes().fold(F::zero(), |a, c| a * &ten + F::from((c - b'0') as u64));
            Some(Self { v: if neg { -v } else { v } })
        }
    }
}
impl PartialOrd for Felt252 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp_repr(o))
    }
}
impl Default for Felt252 {
    fn default() -> Self {
        Self::zero()
    }
}
impl std::fmt::Display for Felt252 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v.representative())
    }
}
macro_rules! from_u {
    ($($t:ty),*) => {$(
        impl From<$t> for Felt252 {
            fn from(x: $t) -> Self { Self { v: F::from(x as u64) } }
        }
    )*};
}
from_u!(u8, u16, u32, u64, usize);
macro_rules! from_i {
    ($($t:ty),*) => {$(
        impl From<$t> for Felt252 {
            fn from(x: $t) -> Self {
                let m = F::from((x as i64).unsigned_abs());
                Self { v: if x < 0 { -m } else { m } }
            }
        }
    )*};
}
from_i!(i8, i16, i32, i64, isize);
impl From<u128> for Felt252 {
    fn from(x: u128) -> Self {
        Self::from_bytes_be(&x.to_be_bytes())
    }
}
macro_rules! op {
    ($tr:ident, $f:ident) => {
        impl $tr<&Felt252> for &Felt252 {
            type Output = Felt252;
            fn $f(self, o: &Felt252) -> Felt252 {
                Felt252 { v: (&self.v).$f(&o.v) }
            }
        }
        impl $tr<Felt252> for Felt252 {
            type Output = Felt252;
            fn $f(self, o: Felt252) -> Felt252 {
                Felt252 { v: (&self.v).$f(&o.v) }
            }
        }
    };
}
op!(Add, add);
op!(Sub, sub);
op!(Mul, mul);
op!(Div, div);
impl Neg for Felt252 {
    type Output = Felt252;
    fn neg(self) -> Felt252 {
        Felt252 { v: -self.v }
    }
}
