use super::bit_reversing::in_place_bit_reverse_permute;
use crate::field::{element::FieldElement, traits::IsFFTField};

/// In-place radix-2 FFT, natural order in and natural order out.
/// `twiddles` are the first n/2 powers of the n-th root, natural order.
pub fn in_place_nr_2radix_fft_natural<F: IsFFTField>(
    input: &mut [FieldElement<F>],
    twiddles: &[FieldElement<F>],
) {
    crate::sim::point("fft");
    let n = input.len();
    if n <= 1 {
        return;
    }
    in_place_bit_reverse_permute(input);
    let mut len = 2;
    while len <= n {
        let half = len / 2;
        let stride = n / len;
        for start in (0..n).step_by(len) {
            for k in 0..half {
                let w = &twiddles[k * stride];
                let u = input[start + k].clone();
                let v = &input[start + k + half] * w;
                input[start + k] = &u + &v;
                input[start + k + half] = u - v;
            }
        }
        len *= 2;
    }
}
