pub use vstd::float::FloatBitsProperties;
// Assumed contracts on f64: only the bit pattern is modelled.
pub assume_specification [f64::to_bits] (v: f64) -> (r: u64) ensures r == v.to_bits_spec();
