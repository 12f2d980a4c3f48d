use crate::field::{
    fields::montgomery_backed_prime_fields::{IsModulus, U256PrimeField},
    traits::IsFFTField,
};
use crate::unsigned_integer::element::{UnsignedInteger, U256};

#[derive(Clone, Debug, Hash, Copy, PartialEq, Eq)]
pub struct MontgomeryConfigStark252PrimeField;
impl IsModulus<U256> for MontgomeryConfigStark252PrimeField {
    const MODULUS: U256 = U256::from_hex_unchecked(
        "800000000000011000000000000000000000000000000000000000000000001",
    );
}

pub type Stark252PrimeField = U256PrimeField<MontgomeryConfigStark252PrimeField>;

impl IsFFTField for Stark252PrimeField {
    const TWO_ADICITY: u64 = 192;
    // Stored in Montgomery form, as every raw element is.
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: U256 = Stark252PrimeField::mont_const(
        &UnsignedInteger::from_hex_unchecked(
            "5282db87529cfa3f0464519c8b0fa5ad187148e11a61616070024f42f8ef94",
        ),
    );
    fn field_name() -> &'static str {
        "stark256"
    }
}
