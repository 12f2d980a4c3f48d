use super::element::FieldElement;
use super::errors::FieldError;
use crate::errors::CreationError;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RootsConfig {
    Natural,
    NaturalInversed,
    BitReverse,
    BitReverseInversed,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum LegendreSymbol {
    MinusOne,
    Zero,
    One,
}

/// Trait to add field behaviour to a struct.
pub trait IsField: Debug + Clone {
    type BaseType: Clone + Debug + Hash;

    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn square(a: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, a)
    }
    fn pow<T: IsUnsignedInteger>(a: &Self::BaseType, mut exponent: T) -> Self::BaseType {
        let zero = T::from(0u16);
        let one = T::from(1u16);
        let mut result = Self::one();
        let mut base = a.clone();
        while exponent > zero {
            if exponent & one == one {
                result = Self::mul(&result, &base);
            }
            exponent >>= 1;
            if exponent > zero {
                base = Self::square(&base);
            }
        }
        result
    }
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn neg(a: &Self::BaseType) -> Self::BaseType;
    /// Panics on zero, as the original did at this revision.
    fn inv(a: &Self::BaseType) -> Self::BaseType;
    fn div(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool;
    fn zero() -> Self::BaseType;
    fn one() -> Self::BaseType;
    fn from_u64(x: u64) -> Self::BaseType;
    fn from_base_type(x: Self::BaseType) -> Self::BaseType;
}

pub trait IsPrimeField: IsField {
    type RepresentativeType: IsUnsignedInteger;

    fn representative(a: &Self::BaseType) -> Self::RepresentativeType;
    fn modulus_minus_one() -> Self::RepresentativeType {
        Self::representative(&Self::neg(&Self::one()))
    }
    fn from_hex(hex_string: &str) -> Result<Self::BaseType, CreationError>;
    fn field_bit_size() -> usize;
    fn legendre_symbol(a: &Self::BaseType) -> LegendreSymbol {
        let e = Self::modulus_minus_one() >> 1;
        let s = Self::pow(a, e);
        if Self::eq(&s, &Self::zero()) {
            LegendreSymbol::Zero
        } else if Self::eq(&s, &Self::one()) {
            LegendreSymbol::One
        } else {
            LegendreSymbol::MinusOne
        }
    }
}

/// Trait to define necessary parameters for FFT-friendly Fields.
pub trait IsFFTField: IsPrimeField {
    const TWO_ADICITY: u64;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: Self::BaseType;

    fn field_name() -> &'static str {
        ""
    }

    fn get_primitive_root_of_unity(order: u64) -> Result<FieldElement<Self>, FieldError> {
        let root = FieldElement::from_raw(&Self::TWO_ADIC_PRIMITVE_ROOT_OF_UNITY);
        if order == 0 {
            return Ok(FieldElement::one());
        }
        if order > Self::TWO_ADICITY {
            return Err(FieldError::RootOfUnityError(order));
        }
        let log_power = Self::TWO_ADICITY - order;
        Ok((0..log_power).fold(root, |acc, _| acc.square()))
    }
}
