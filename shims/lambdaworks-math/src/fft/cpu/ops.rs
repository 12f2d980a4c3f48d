use super::fft::in_place_nr_2radix_fft_natural;
use crate::fft::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};

/// FFT of `input` (length a power of two) with natural-order twiddles.
pub fn fft<F: IsFFTField>(
    input: &[FieldElement<F>],
    twiddles: &[FieldElement<F>],
) -> Result<Vec<FieldElement<F>>, FFTError> {
    if !input.len().is_power_of_two() {
        return Err(FFTError::InputError(input.len()));
    }
    let mut results = input.to_vec();
    in_place_nr_2radix_fft_natural(&mut results, twiddles);
    Ok(results)
}
