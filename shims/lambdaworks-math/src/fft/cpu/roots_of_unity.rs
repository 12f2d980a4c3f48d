use crate::fft::errors::FFTError;
use crate::field::{
    element::FieldElement,
    traits::{IsFFTField, RootsConfig},
};

/// Returns a `Vec` of the powers of a `2^n`th primitive root of unity.
pub fn get_powers_of_primitive_root<F: IsFFTField>(
    n: u64,
    count: usize,
    config: RootsConfig,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    crate::sim::point("roots");
    if count == 0 {
        return Ok(Vec::new());
    }
    let root = F::get_primitive_root_of_unity(n)?;
    let base = match config {
        RootsConfig::Natural | RootsConfig::BitReverse => root,
        _ => root.inv(),
    };
    let mut r = powers(&FieldElement::one(), &base, count);
    if matches!(config, RootsConfig::BitReverse | RootsConfig::BitReverseInversed) {
        super::bit_reversing::in_place_bit_reverse_permute(&mut r);
    }
    Ok(r)
}

/// Returns a `Vec` of the powers of a `2^n`th primitive root of unity, scaled `offset` times.
pub fn get_powers_of_primitive_root_coset<F: IsFFTField>(
    n: u64,
    count: usize,
    offset: &FieldElement<F>,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    let root = F::get_primitive_root_of_unity(n)?;
    Ok(powers(offset, &root, count))
}

fn powers<F: IsFFTField>(start: &FieldElement<F>, base: &FieldElement<F>, count: usize) -> Vec<FieldElement<F>> {
    let mut out = Vec::with_capacity(count);
    let mut x = start.clone();
    for _ in 0..count {
        out.push(x.clone());
        x = &x * base;
    }
    out
}

/// Returns 2^`order` / 2 twiddle factors.
pub fn get_twiddles<F: IsFFTField>(
    order: u64,
    config: RootsConfig,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    if order > 63 {
        return Err(FFTError::OrderError(order));
    }
    get_powers_of_primitive_root(order, (1 << order) / 2, config)
}
