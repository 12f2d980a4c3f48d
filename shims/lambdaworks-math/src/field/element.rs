use crate::errors::CreationError;
use crate::field::fields::montgomery_backed_prime_fields::{IsModulus, MontgomeryBackedPrimeField};
use crate::field::traits::{IsField, IsPrimeField, LegendreSymbol};
use crate::unsigned_integer::element::UnsignedInteger;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::iter::{Product, Sum};
use std::ops::*;

/// A field element with operations algorithms defined in `F`
#[derive(Debug, Clone, Copy)]
pub struct FieldElement<F: IsField> {
    value: F::BaseType,
}

impl<F: IsField> Hash for FieldElement<F> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.value.hash(state)
    }
}

impl<F: IsField> FieldElement<F> {
    pub fn new(value: F::BaseType) -> Self {
        Self { value: F::from_base_type(value) }
    }
    #[inline(always)]
    pub fn from_raw(value: &F::BaseType) -> Self {
        Self { value: value.clone() }
    }
    #[inline(always)]
    pub const fn const_from_raw(value: F::BaseType) -> Self {
        Self { value }
    }
    #[inline(always)]
    pub fn value(&self) -> &F::BaseType {
        &self.value
    }
    #[inline(always)]
    pub fn inv(&self) -> Self {
        crate::sim::point("inv");
        Self { value: F::inv(&self.value) }
    }
    #[inline(always)]
    pub fn square(&self) -> Self {
        Self { value: F::square(&self.value) }
    }
    #[inline(always)]
    pub fn double(&self) -> Self {
        Self { value: F::add(&self.value, &self.value) }
    }
    pub fn pow<T: IsUnsignedInteger>(&self, exp: T) -> Self {
        crate::sim::point("pow");
        Self { value: F::pow(&self.value, exp) }
    }
    #[inline(always)]
    pub fn one() -> Self {
        Self { value: F::one() }
    }
    #[inline(always)]
    pub fn zero() -> Self {
        Self { value: F::zero() }
    }
    /// Inverts every element in place. Panics when one of them is zero.
    pub fn inplace_batch_inverse(numbers: &mut [Self]) {
        if numbers.is_empty() {
            return;
        }
        let count = numbers.len();
        let mut prod_prefix = Vec::with_capacity(count);
        prod_prefix.push(numbers[0].clone());
        for i in 1..count {
            prod_prefix.push(&prod_prefix[i - 1] * &numbers[i]);
        }
        let mut bi_inv = prod_prefix[count - 1].inv();
        for i in (1..count).rev() {
            let ai_inv = &bi_inv * &prod_prefix[i - 1];
            bi_inv = &bi_inv * &numbers[i];
            numbers[i] = ai_inv;
        }
        numbers[0] = bi_inv;
    }
}

impl<F: IsPrimeField> FieldElement<F> {
    pub fn representative(&self) -> F::RepresentativeType {
        F::representative(self.value())
    }
    pub fn legendre_symbol(&self) -> LegendreSymbol {
        F::legendre_symbol(self.value())
    }
    pub fn from_hex(hex_string: &str) -> Result<Self, CreationError> {
        Ok(Self { value: F::from_hex(hex_string)? })
    }
    pub fn is_even(&self) -> bool {
        self.representative() & F::RepresentativeType::from(1u16) == F::RepresentativeType::from(0u16)
    }
}

impl<M, const N: usize> FieldElement<MontgomeryBackedPrimeField<M, N>>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    pub fn from_hex_unchecked(hex: &str) -> Self {
        Self::new(UnsignedInteger::<N>::from_hex_unchecked(hex))
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        <Self as crate::traits::ByteConversion>::to_bytes_be(self)
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        <Self as crate::traits::ByteConversion>::to_bytes_le(self)
    }
}

impl<F: IsField> From<&F::BaseType> for FieldElement<F> {
    fn from(value: &F::BaseType) -> Self {
        Self { value: F::from_base_type(value.clone()) }
    }
}
impl<F: IsField> From<u64> for FieldElement<F> {
    fn from(value: u64) -> Self {
        Self { value: F::from_u64(value) }
    }
}
impl<F: IsField> Default for FieldElement<F> {
    fn default() -> Self {
        Self { value: F::zero() }
    }
}
impl<F: IsField> PartialEq for FieldElement<F> {
    fn eq(&self, other: &Self) -> bool {
        F::eq(&self.value, &other.value)
    }
}
impl<F: IsField> Eq for FieldElement<F> {}

impl<F: IsPrimeField> Display for FieldElement<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.representative())
    }
}

macro_rules! fe_op {
    ($tr:ident, $f:ident, $g:ident) => {
        impl<F: IsField> $tr<&FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: &FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$g(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$g(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: &FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$g(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$g(&self.value, &rhs.value) }
            }
        }
    };
}
fe_op!(Add, add, add);
fe_op!(Sub, sub, sub);
fe_op!(Mul, mul, mul);
fe_op!(Div, div, div);

macro_rules! fe_assign {
    ($tr:ident, $f:ident, $g:ident) => {
        impl<F: IsField> $tr<FieldElement<F>> for FieldElement<F> {
            #[inline(always)]
            fn $f(&mut self, rhs: FieldElement<F>) {
                self.value = F::$g(&self.value, &rhs.value);
            }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for FieldElement<F> {
            #[inline(always)]
            fn $f(&mut self, rhs: &FieldElement<F>) {
                self.value = F::$g(&self.value, &rhs.value);
            }
        }
    };
}
fe_assign!(AddAssign, add_assign, add);
fe_assign!(SubAssign, sub_assign, sub);
fe_assign!(MulAssign, mul_assign, mul);

impl<F: IsField> Sum<FieldElement<F>> for FieldElement<F> {
    fn sum<I: Iterator<Item = FieldElement<F>>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, e| a + e)
    }
}
impl<'a, F: IsField + 'a> Sum<&'a FieldElement<F>> for FieldElement<F> {
    fn sum<I: Iterator<Item = &'a FieldElement<F>>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, e| a + e)
    }
}
impl<F: IsField> Product<FieldElement<F>> for FieldElement<F> {
    fn product<I: Iterator<Item = FieldElement<F>>>(iter: I) -> Self {
        iter.fold(Self::one(), |a, e| a * e)
    }
}
impl<'a, F: IsField + 'a> Product<&'a FieldElement<F>> for FieldElement<F> {
    fn product<I: Iterator<Item = &'a FieldElement<F>>>(iter: I) -> Self {
        iter.fold(Self::one(), |a, e| a * e)
    }
}
impl<F: IsField> Neg for &FieldElement<F> {
    type Output = FieldElement<F>;
    #[inline(always)]
    fn neg(self) -> FieldElement<F> {
        FieldElement { value: F::neg(&self.value) }
    }
}
impl<F: IsField> Neg for FieldElement<F> {
    type Output = FieldElement<F>;
    #[inline(always)]
    fn neg(self) -> FieldElement<F> {
        FieldElement { value: F::neg(&self.value) }
    }
}
