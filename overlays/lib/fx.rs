pub uninterp spec fn tm<S, D>(s: S) -> D;
pub broadcast axiom fn tm_u64_i64(s: u64) ensures #[trigger] tm::<u64, i64>(s) == s as i64;
pub assume_specification<Src, Dst> [ std::mem::transmute::<Src, Dst> ] (x: Src) -> (r: Dst) ensures r == tm::<Src, Dst>(x);
pub mod fx {
use super::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::bits::*;
broadcast use super::tm_u64_i64;
//@item ebi/src/compression_common/buff.rs :: fn flip
//@fn flip ret=r
    ensures r == x ^ 0x80u8, (x as i8) as int + 128 == r as int
//@start
    proof { flip_facts(x); }
//@enditem
proof fn flip_facts(x: u8)
    ensures 1u8 << 7 == 0x80u8, (x as i8) as int + 128 == (x ^ 0x80u8) as int, (x ^ 0x80u8) ^ 0x80u8 == x
{
    assert(1u8 << 7 == 0x80u8) by (bit_vector);
    assert((x ^ 0x80u8) ^ 0x80u8 == x) by (bit_vector);
    assert(x < 0x80u8 ==> x ^ 0x80u8 == add(x, 0x80u8)) by (bit_vector);
    assert(x >= 0x80u8 ==> x ^ 0x80u8 == sub(x, 0x80u8)) by (bit_vector);
    assert((x as i8) + 128 == (x ^ 0x80u8)) by (bit_vector);
}
/// Flipping twice is the identity; flipping maps the unsigned order of bytes to the signed one.
pub fn flip_twice(x: u8, y: u8)
{
    let a = flip(x); let b = flip(y);
    let c = flip(a);
    assert(c == x) by { flip_facts(x); }
    assert((x as i8) < (y as i8) <==> a < b);
}
//@item ebi/src/compression_common/buff.rs :: const EXP_MASK
//@enditem
//@item ebi/src/compression_common/buff.rs :: const FIRST_ONE
//@enditem
/// binary exponent, 53-bit significand (with the implicit one) and sign of a double's bit pattern
pub open spec fn bexp(b: u64) -> int { ((b >> 52) & 0x7ff) as int - 1023 }
pub open spec fn mant(b: u64) -> int { (b & 0xf_ffff_ffff_ffff) as int + 0x10_0000_0000_0000 }
pub open spec fn neg(b: u64) -> bool { b >= 0x8000_0000_0000_0000 }
/// |v| * 2^f rounded toward zero: floor(significand * 2^(exponent + f) / 2^52); zero when the result is below one
pub open spec fn mag(b: u64, f: int) -> int {
    if bexp(b) + f < 0 { 0 } else { mant(b) * pow2((bexp(b) + f) as nat) / 0x10_0000_0000_0000 }
}
pub open spec fn fixed(b: u64, f: int) -> int { if neg(b) { -mag(b, f) } else { mag(b, f) } }
pub open spec fn fits(b: u64, f: int) -> bool { 0 <= f <= 1000 && bexp(b) + f <= 62 }
proof fn parts(b: u64)
    ensures ((b & 0x7ff0000000000000) >> 52) == ((b >> 52) & 0x7ff), ((b >> 52) & 0x7ff) < 2048,
        (b & 0x8000000000000000 != 0) == neg(b),
        ((b << 11) | 0x8000000000000000) == mant(b) * 2048,
        (b & 0xf_ffff_ffff_ffff) < 0x10_0000_0000_0000,
{
    assert(((b & 0x7ff0000000000000) >> 52) == ((b >> 52) & 0x7ff)) by (bit_vector);
    assert(((b >> 52) & 0x7ff) < 2048) by (bit_vector);
    assert((b & 0x8000000000000000 != 0) == (b >= 0x8000000000000000)) by (bit_vector);
    assert((b & 0xf_ffff_ffff_ffff) < 0x10_0000_0000_0000) by (bit_vector);
    let m = b & 0xf_ffff_ffff_ffff;
    assert(((b << 11) | 0x8000000000000000) == mul(add(m, 0x10_0000_0000_0000), 2048)) by (bit_vector) requires m == b & 0xf_ffff_ffff_ffff;
}
/// the shift the code performs, as arithmetic
proof fn shifted(b: u64, k: int)
    requires 0 <= k <= 62
    ensures forall|s: u64| s == 63 - k ==> (#[trigger] (((b << 11) | 0x8000000000000000) >> s)) == mant(b) * pow2(k as nat) / 0x10_0000_0000_0000,
        1 <= mant(b) * pow2(k as nat) / 0x10_0000_0000_0000 < 0x8000_0000_0000_0000,
{
    parts(b);
    let x = (b << 11) | 0x8000000000000000;
    let s = (63 - k) as u64;
    lemma_u64_shr_is_div(x, s);
    assert(x >> s == x as int / (pow2(s as nat) as int));
    let m = mant(b);
    let p = pow2(k as nat) as int;
    lemma_pow2_pos(k as nat); lemma_pow2_pos(s as nat);
    lemma_pow2_adds(k as nat, s as nat);
    lemma2_to64_rest();
    assert(pow2(63) == 0x8000_0000_0000_0000);
    let q = pow2(s as nat) as int;
    assert(p * q == 0x8000_0000_0000_0000);
    // m * 2048 / q == (m * 2048 * p) / (q * p) == (m * p * 2048) / (2^52 * 2048)
    lemma_div_multiples_vanish_quotient(p, m * 2048, q);
    assert(p * (m * 2048) / (p * q) == m * 2048 / q);
    lemma_div_multiples_vanish_quotient(2048, m * p, 0x10_0000_0000_0000);
    assert(p * (m * 2048) == 2048 * (m * p)) by (nonlinear_arith);
    assert(x as int / q == m * p / 0x10_0000_0000_0000);
    assert(m * p >= m) by (nonlinear_arith) requires p >= 1, m >= 0;
    lemma_div_is_ordered(0x10_0000_0000_0000, m * p, 0x10_0000_0000_0000);
    assert(m * p <= 0x20_0000_0000_0000 * p - 1) by (nonlinear_arith) requires p >= 1, m <= 0x20_0000_0000_0000 - 1;
    lemma_div_is_ordered(m * p, 0x20_0000_0000_0000 * p - 1, 0x10_0000_0000_0000);
    lemma_pow2_strictly_increases_or_eq(k as nat);
    assert((0x20_0000_0000_0000 * p - 1) / 0x10_0000_0000_0000 < 0x8000_0000_0000_0000) by {
        assert(0x20_0000_0000_0000 * p - 1 < 0x10_0000_0000_0000 * 0x8000_0000_0000_0000) by (nonlinear_arith) requires p <= 0x4000_0000_0000_0000;
        lemma_multiply_divide_lt(0x20_0000_0000_0000 * p - 1, 0x10_0000_0000_0000, 0x8000_0000_0000_0000);
    }
}
proof fn lemma_pow2_strictly_increases_or_eq(k: nat)
    requires k <= 62
    ensures pow2(k) <= 0x4000_0000_0000_0000
{
    lemma2_to64_rest();
    if k < 62 { lemma_pow2_strictly_increases(k, 62); }
}
proof fn negate(f: u64)
    requires 1 <= f < 0x8000_0000_0000_0000
    ensures (!((f - 1) as u64)) as i64 == -(f as int)
{
    let g = (f - 1) as u64;
    assert((!g) as i64 == -(f as i64)) by (bit_vector) requires g == sub(f, 1), 1 <= f < 0x8000_0000_0000_0000u64;
}
proof fn negate_all()
    ensures forall|g: u64| 0 <= g < 0x7fff_ffff_ffff_ffff ==> (#[trigger] !g) as i64 == -(g as int) - 1
{
    assert forall|g: u64| 0 <= g < 0x7fff_ffff_ffff_ffff implies (#[trigger] !g) as i64 == -(g as int) - 1 by { negate((g + 1) as u64); }
}
//@item ebi/src/compression_common/buff.rs :: fn into_fixed_representation
//@fn into_fixed_representation ret=r
    requires fits(value.to_bits_spec(), decimal_length as int), bexp(value.to_bits_spec()) + decimal_length >= 0
    ensures r == fixed(value.to_bits_spec(), decimal_length as int)
//@start
    proof { let b = value.to_bits_spec(); parts(b); shifted(b, bexp(b) + decimal_length); negate_all(); }
//@enditem
//@item ebi/src/compression_common/buff.rs :: mod precision_bound :: fn into_fixed_representation_with_fractional_part_bits_length
//@fn into_fixed_representation_with_fractional_part_bits_length ret=r
    requires fits(v.to_bits_spec(), fractional_part_bits_length as int)
    ensures r == fixed(v.to_bits_spec(), fractional_part_bits_length as int)
//@start
    proof { let b = v.to_bits_spec(); parts(b); }
//@enditem
//@item ebi/src/compression_common/buff.rs :: mod precision_bound :: const PRECISION_MAP
//@enditem
/// The number of fractional bits for d decimals separates any two values with d decimals, even after truncation.
pub proof fn precision_map_separates()
    ensures forall|d: int| 1 <= d < 13 ==> pow2(#[trigger] PRECISION_MAP[d] as nat) > 2 * vstd::arithmetic::power::pow(10, d as nat),
        forall|d: int| 0 <= d < 13 ==> #[trigger] PRECISION_MAP[d] < 53, PRECISION_MAP[0] == 0
{
    reveal(vstd::arithmetic::power::pow);
    reveal(pow2);
    assert(PRECISION_MAP[0] == 0) by (compute);
    assert(forall|d: int| 0 <= d < 13 ==> #[trigger] PRECISION_MAP[d] < 53);
    lemma2_to64(); lemma2_to64_rest();
    assert(vstd::arithmetic::power::pow(10, 1) == 10 && vstd::arithmetic::power::pow(10, 2) == 100 && vstd::arithmetic::power::pow(10, 3) == 1000) by (compute);
    assert(vstd::arithmetic::power::pow(10, 4) == 1_0000 && vstd::arithmetic::power::pow(10, 5) == 10_0000 && vstd::arithmetic::power::pow(10, 6) == 100_0000) by (compute);
    assert(vstd::arithmetic::power::pow(10, 7) == 1000_0000 && vstd::arithmetic::power::pow(10, 8) == 1_0000_0000 && vstd::arithmetic::power::pow(10, 9) == 10_0000_0000) by (compute);
    assert(vstd::arithmetic::power::pow(10, 10) == 100_0000_0000 && vstd::arithmetic::power::pow(10, 11) == 1000_0000_0000 && vstd::arithmetic::power::pow(10, 12) == 1_0000_0000_0000) by (compute);
}
/// The fixed-point image keeps order: bit patterns of one sign order by magnitude, and so do their images.
pub proof fn mag_monotone(a: u64, b: u64, f: int)
    requires fits(a, f), fits(b, f), a <= b, neg(a) == neg(b)
    ensures mag(a, f) <= mag(b, f)
{
    parts(a); parts(b);
    assert(a <= b && (a >= 0x8000_0000_0000_0000u64) == (b >= 0x8000_0000_0000_0000u64) ==> ((a >> 52) & 0x7ff) <= ((b >> 52) & 0x7ff)
        && (((a >> 52) & 0x7ff) == ((b >> 52) & 0x7ff) ==> (a & 0xf_ffff_ffff_ffff) <= (b & 0xf_ffff_ffff_ffff))) by (bit_vector);
    if bexp(a) + f >= 0 {
        let ka = (bexp(a) + f) as nat; let kb = (bexp(b) + f) as nat;
        let pa = pow2(ka) as int; let pb = pow2(kb) as int;
        lemma_pow2_pos(ka); lemma_pow2_pos(kb);
        if ka == kb {
            assert(mant(a) * pa <= mant(b) * pb) by (nonlinear_arith) requires mant(a) <= mant(b), pa == pb, pa > 0;
        } else {
            lemma_pow2_adds(1, ka); lemma2_to64();
            if ka + 1 < kb { lemma_pow2_strictly_increases(ka + 1, kb); }
            assert(2 * pa <= pb);
            assert(mant(a) * pa <= mant(b) * pb) by (nonlinear_arith) requires mant(a) <= 2 * mant(b), mant(b) > 0, 2 * pa <= pb, pa > 0;
        }
        lemma_div_is_ordered(mant(a) * pa, mant(b) * pb, 0x10_0000_0000_0000);
    } else { 
        if bexp(b) + f >= 0 { shifted(b, bexp(b) + f); }
    }
}
/// Truncation: the image differs from |v| * 2^f by less than one, downward.
pub proof fn mag_truncates(b: u64, f: int)
    requires fits(b, f), bexp(b) + f >= 0
    ensures mag(b, f) * 0x10_0000_0000_0000 <= mant(b) * pow2((bexp(b) + f) as nat) < (mag(b, f) + 1) * 0x10_0000_0000_0000
{ lemma_fundamental_div_mod(mant(b) * pow2((bexp(b) + f) as nat), 0x10_0000_0000_0000); }
} // mod fx
