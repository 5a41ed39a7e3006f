//! Stand-in for the ALP C++ binding (its submodule is absent in this sandbox).
//! Stores the doubles verbatim, with a length prefix.
pub fn compress_double(input: &[f64], buffer: &mut Vec<u8>) {
    buffer.clear();
    for v in input {
        buffer.extend_from_slice(&v.to_le_bytes());
    }
}
/// # Safety
/// Same as the real binding.
pub unsafe fn decompress_double(input: &[u8], number_of_records: usize, buffer: &mut Vec<f64>) {
    buffer.clear();
    for c in input.chunks_exact(8).take(number_of_records) {
        buffer.push(f64::from_le_bytes(c.try_into().unwrap()));
    }
}
