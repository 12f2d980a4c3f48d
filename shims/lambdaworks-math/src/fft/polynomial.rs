use super::cpu::{ops, roots_of_unity};
use super::errors::FFTError;
use crate::field::{
    element::FieldElement,
    traits::{IsFFTField, RootsConfig},
};
use crate::polynomial::Polynomial;

pub trait FFTPoly<F: IsFFTField> {
    fn evaluate_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn interpolate_fft(
        fft_evals: &[FieldElement<F>],
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
}

impl<F: IsFFTField> FFTPoly<F> for Polynomial<FieldElement<F>> {
    /// Evaluates this polynomial using parallel FFT over a domain of roots of
    /// unity of size max(len, domain_size).next_power_of_two() * blowup.
    fn evaluate_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        let domain_size = domain_size.unwrap_or(0);
        let len = std::cmp::max(self.coeff_len(), domain_size).next_power_of_two() * blowup_factor;
        if self.coefficients().is_empty() {
            return Ok(vec![FieldElement::zero(); len]);
        }
        let mut coeffs = self.coefficients().to_vec();
        coeffs.resize(len, FieldElement::zero());
        evaluate_fft_cpu(&coeffs)
    }

    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        self.scale(offset).evaluate_fft(blowup_factor, domain_size)
    }

    fn interpolate_fft(fft_evals: &[FieldElement<F>]) -> Result<Self, FFTError> {
        interpolate_fft_cpu(fft_evals)
    }

    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError> {
        let scaled = Polynomial::interpolate_fft(fft_evals)?;
        Ok(scaled.scale(&offset.inv()))
    }
}

pub fn evaluate_fft_cpu<F: IsFFTField>(
    coeffs: &[FieldElement<F>],
) -> Result<Vec<FieldElement<F>>, FFTError> {
    let order = coeffs.len().trailing_zeros();
    let twiddles = roots_of_unity::get_twiddles(order.into(), RootsConfig::Natural)?;
    ops::fft(coeffs, &twiddles)
}

pub fn interpolate_fft_cpu<F: IsFFTField>(
    fft_evals: &[FieldElement<F>],
) -> Result<Polynomial<FieldElement<F>>, FFTError> {
    let order = fft_evals.len().trailing_zeros();
    let twiddles = roots_of_unity::get_twiddles(order.into(), RootsConfig::NaturalInversed)?;
    let coeffs = ops::fft(fft_evals, &twiddles)?;
    let scale_factor = FieldElement::from(fft_evals.len() as u64).inv();
    Ok(Polynomial::new(&coeffs).scale_coeffs(&scale_factor))
}
