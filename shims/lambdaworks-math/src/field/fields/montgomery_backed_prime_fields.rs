use crate::errors::{ByteConversionError, CreationError};
use crate::field::{
    element::FieldElement,
    traits::{IsField, IsPrimeField},
};
use crate::traits::ByteConversion;
use crate::unsigned_integer::element::UnsignedInteger;
use std::fmt::Debug;
use std::marker::PhantomData;

pub type U384PrimeField<M> = MontgomeryBackedPrimeField<M, 6>;
pub type U256PrimeField<M> = MontgomeryBackedPrimeField<M, 4>;
pub type U64PrimeField<M> = MontgomeryBackedPrimeField<M, 1>;

pub trait IsModulus<U>: Debug {
    const MODULUS: U;
}

#[derive(Clone, Debug, Hash, Copy, PartialEq, Eq)]
pub struct MontgomeryBackedPrimeField<M, const NUM_LIMBS: usize> {
    phantom: PhantomData<M>,
}

const fn mu(lsl: u64) -> u64 {
    // -modulus^{-1} mod 2^64
    let mut inv = 1u64;
    let mut i = 0;
    while i < 63 {
        inv = inv.wrapping_mul(inv);
        inv = inv.wrapping_mul(lsl);
        i += 1;
    }
    inv.wrapping_neg()
}

impl<M, const N: usize> MontgomeryBackedPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    pub const MODULUS: UnsignedInteger<N> = M::MODULUS;
    const MU: u64 = mu(M::MODULUS.limbs[N - 1]);
    /// R mod p, i.e. one
    pub const ONE: UnsignedInteger<N> = Self::pow2_mod(64 * N);
    pub const R2: UnsignedInteger<N> = Self::pow2_mod(2 * 64 * N);
    pub const ZERO: UnsignedInteger<N> = UnsignedInteger::from_u64(0);
    const BITS: usize = M::MODULUS.bit_len();

    /// 2^e mod p, by doubling.
    const fn pow2_mod(e: usize) -> UnsignedInteger<N> {
        let mut c = UnsignedInteger::<N>::from_u64(1);
        let mut i = 0;
        while i < e {
            c = Self::double_mod(&c);
            i += 1;
        }
        c
    }
    const fn double_mod(c: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        Self::add_mod(c, c)
    }
    const fn add_mod(a: &UnsignedInteger<N>, b: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        let (s, over) = UnsignedInteger::<N>::add(a, b);
        if over || UnsignedInteger::<N>::const_le(&M::MODULUS, &s) {
            UnsignedInteger::<N>::sub(&s, &M::MODULUS).0
        } else {
            s
        }
    }
    /// x * R mod p computed by doubling; for constants.
    pub const fn mont_const(x: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        let mut c = *x;
        let mut i = 0;
        while i < 64 * N {
            c = Self::double_mod(&c);
            i += 1;
        }
        c
    }
    #[inline(always)]
    fn mont_mul(a: &UnsignedInteger<N>, b: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        // CIOS
        let q = &M::MODULUS;
        let mut t = [0u64; N]; // little endian
        let mut t_n = 0u64;
        for i in 0..N {
            let bi = b.limbs[N - 1 - i] as u128;
            let mut c = 0u128;
            for j in 0..N {
                let cs = t[j] as u128 + (a.limbs[N - 1 - j] as u128) * bi + c;
                t[j] = cs as u64;
                c = cs >> 64;
            }
            let cs = t_n as u128 + c;
            t_n = cs as u64;
            let t_n1 = (cs >> 64) as u64;
            let m = t[0].wrapping_mul(Self::MU) as u128;
            let cs = t[0] as u128 + m * (q.limbs[N - 1] as u128);
            let mut c = cs >> 64;
            for j in 1..N {
                let cs = t[j] as u128 + m * (q.limbs[N - 1 - j] as u128) + c;
                t[j - 1] = cs as u64;
                c = cs >> 64;
            }
            let cs = t_n as u128 + c;
            t[N - 1] = cs as u64;
            t_n = t_n1.wrapping_add((cs >> 64) as u64);
        }
        let mut limbs = [0u64; N];
        for i in 0..N {
            limbs[N - 1 - i] = t[i];
        }
        let r = UnsignedInteger { limbs };
        if t_n > 0 || UnsignedInteger::<N>::const_le(q, &r) {
            UnsignedInteger::<N>::sub(&r, q).0
        } else {
            r
        }
    }
}

impl<M, const N: usize> IsField for MontgomeryBackedPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    type BaseType = UnsignedInteger<N>;

    #[inline(always)]
    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::add_mod(a, b)
    }
    #[inline(always)]
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::mont_mul(a, b)
    }
    #[inline(always)]
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        let (d, borrow) = UnsignedInteger::<N>::sub(a, b);
        if borrow {
            UnsignedInteger::<N>::add(&d, &M::MODULUS).0
        } else {
            d
        }
    }
    #[inline(always)]
    fn neg(a: &Self::BaseType) -> Self::BaseType {
        Self::sub(&Self::ZERO, a)
    }
    fn inv(a: &Self::BaseType) -> Self::BaseType {
        if *a == Self::ZERO {
            panic!("Division by zero error.")
        }
        // a^(p-2)
        let e = UnsignedInteger::<N>::sub(&M::MODULUS, &UnsignedInteger::from_u64(2)).0;
        Self::pow(a, e)
    }
    fn div(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, &Self::inv(b))
    }
    #[inline(always)]
    fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool {
        a == b
    }
    #[inline(always)]
    fn zero() -> Self::BaseType {
        Self::ZERO
    }
    #[inline(always)]
    fn one() -> Self::BaseType {
        Self::ONE
    }
    fn from_u64(x: u64) -> Self::BaseType {
        Self::mont_mul(&UnsignedInteger::from_u64(x), &Self::R2)
    }
    fn from_base_type(x: Self::BaseType) -> Self::BaseType {
        Self::mont_mul(&x, &Self::R2)
    }
}

impl<M, const N: usize> IsPrimeField for MontgomeryBackedPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    type RepresentativeType = UnsignedInteger<N>;

    fn representative(x: &Self::BaseType) -> Self::RepresentativeType {
        Self::mont_mul(x, &UnsignedInteger::from_u64(1))
    }
    fn field_bit_size() -> usize {
        Self::BITS
    }
    fn from_hex(hex_string: &str) -> Result<Self::BaseType, CreationError> {
        Ok(Self::from_base_type(UnsignedInteger::from_hex(hex_string)?))
    }
}

impl<M, const N: usize> ByteConversion for FieldElement<MontgomeryBackedPrimeField<M, N>>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    fn to_bytes_be(&self) -> Vec<u8> {
        MontgomeryBackedPrimeField::<M, N>::representative(self.value()).to_bytes_be()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        MontgomeryBackedPrimeField::<M, N>::representative(self.value()).to_bytes_le()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        Ok(Self::new(UnsignedInteger::from_bytes_be(bytes)?))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        Ok(Self::new(UnsignedInteger::from_bytes_le(bytes)?))
    }
}
