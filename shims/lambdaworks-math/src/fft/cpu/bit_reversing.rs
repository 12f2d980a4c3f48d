/// In-place bit-reverse permutation. Input size must be a power of two.
pub fn in_place_bit_reverse_permute<E>(input: &mut [E]) {
    for i in 0..input.len() {
        let j = reverse_index(i, input.len() as u64);
        if j > i {
            input.swap(i, j);
        }
    }
}
pub fn reverse_index(i: usize, size: u64) -> usize {
    if size == 1 {
        i
    } else {
        i.reverse_bits() >> (usize::BITS - size.trailing_zeros())
    }
}
