pub mod ext {
use super::*;
use super::bits::*;
broadcast use super::bits::bit_lemmas;
/// the low n bits of v
pub open spec fn low(v: u64, n: int) -> u64 { if n >= 64 { v } else { v & (((1u64 << (n as u32)) - 1) as u64) } }

pub proof fn u64_ext(a: u64, b: u64)
    requires forall|i: int| 0 <= i < 64 ==> b64(a, i) == b64(b, i)
    ensures a == b
{
    let d = a ^ b;
    assert forall|i: int| 0 <= i < 64 implies !#[trigger] b64(d, i) by { assert(b64(a, i) == b64(b, i)); }
    u64_zero_ext(d);
    assert(a == b) by (bit_vector) requires a ^ b == 0;
}
pub proof fn low_bits(v: u64, n: int, i: int)
    requires 0 <= n <= 64, 0 <= i < 64
    ensures b64(low(v, n), i) == (i < n && b64(v, i))
{
}
pub proof fn u64_zero_ext(d: u64)
    requires forall|i: int| 0 <= i < 64 ==> !b64(d, i)
    ensures d == 0
{
    assert(!b64(d, 0));
    assert(!b64(d, 1));
    assert(!b64(d, 2));
    assert(!b64(d, 3));
    assert(!b64(d, 4));
    assert(!b64(d, 5));
    assert(!b64(d, 6));
    assert(!b64(d, 7));
    assert(!b64(d, 8));
    assert(!b64(d, 9));
    assert(!b64(d, 10));
    assert(!b64(d, 11));
    assert(!b64(d, 12));
    assert(!b64(d, 13));
    assert(!b64(d, 14));
    assert(!b64(d, 15));
    assert(!b64(d, 16));
    assert(!b64(d, 17));
    assert(!b64(d, 18));
    assert(!b64(d, 19));
    assert(!b64(d, 20));
    assert(!b64(d, 21));
    assert(!b64(d, 22));
    assert(!b64(d, 23));
    assert(!b64(d, 24));
    assert(!b64(d, 25));
    assert(!b64(d, 26));
    assert(!b64(d, 27));
    assert(!b64(d, 28));
    assert(!b64(d, 29));
    assert(!b64(d, 30));
    assert(!b64(d, 31));
    assert(!b64(d, 32));
    assert(!b64(d, 33));
    assert(!b64(d, 34));
    assert(!b64(d, 35));
    assert(!b64(d, 36));
    assert(!b64(d, 37));
    assert(!b64(d, 38));
    assert(!b64(d, 39));
    assert(!b64(d, 40));
    assert(!b64(d, 41));
    assert(!b64(d, 42));
    assert(!b64(d, 43));
    assert(!b64(d, 44));
    assert(!b64(d, 45));
    assert(!b64(d, 46));
    assert(!b64(d, 47));
    assert(!b64(d, 48));
    assert(!b64(d, 49));
    assert(!b64(d, 50));
    assert(!b64(d, 51));
    assert(!b64(d, 52));
    assert(!b64(d, 53));
    assert(!b64(d, 54));
    assert(!b64(d, 55));
    assert(!b64(d, 56));
    assert(!b64(d, 57));
    assert(!b64(d, 58));
    assert(!b64(d, 59));
    assert(!b64(d, 60));
    assert(!b64(d, 61));
    assert(!b64(d, 62));
    assert(!b64(d, 63));
    assert(d == 0) by (bit_vector) requires (d >> 0u32) & 1u64 != 1u64, (d >> 1u32) & 1u64 != 1u64, (d >> 2u32) & 1u64 != 1u64, (d >> 3u32) & 1u64 != 1u64, (d >> 4u32) & 1u64 != 1u64, (d >> 5u32) & 1u64 != 1u64, (d >> 6u32) & 1u64 != 1u64, (d >> 7u32) & 1u64 != 1u64, (d >> 8u32) & 1u64 != 1u64, (d >> 9u32) & 1u64 != 1u64, (d >> 10u32) & 1u64 != 1u64, (d >> 11u32) & 1u64 != 1u64, (d >> 12u32) & 1u64 != 1u64, (d >> 13u32) & 1u64 != 1u64, (d >> 14u32) & 1u64 != 1u64, (d >> 15u32) & 1u64 != 1u64, (d >> 16u32) & 1u64 != 1u64, (d >> 17u32) & 1u64 != 1u64, (d >> 18u32) & 1u64 != 1u64, (d >> 19u32) & 1u64 != 1u64, (d >> 20u32) & 1u64 != 1u64, (d >> 21u32) & 1u64 != 1u64, (d >> 22u32) & 1u64 != 1u64, (d >> 23u32) & 1u64 != 1u64, (d >> 24u32) & 1u64 != 1u64, (d >> 25u32) & 1u64 != 1u64, (d >> 26u32) & 1u64 != 1u64, (d >> 27u32) & 1u64 != 1u64, (d >> 28u32) & 1u64 != 1u64, (d >> 29u32) & 1u64 != 1u64, (d >> 30u32) & 1u64 != 1u64, (d >> 31u32) & 1u64 != 1u64, (d >> 32u32) & 1u64 != 1u64, (d >> 33u32) & 1u64 != 1u64, (d >> 34u32) & 1u64 != 1u64, (d >> 35u32) & 1u64 != 1u64, (d >> 36u32) & 1u64 != 1u64, (d >> 37u32) & 1u64 != 1u64, (d >> 38u32) & 1u64 != 1u64, (d >> 39u32) & 1u64 != 1u64, (d >> 40u32) & 1u64 != 1u64, (d >> 41u32) & 1u64 != 1u64, (d >> 42u32) & 1u64 != 1u64, (d >> 43u32) & 1u64 != 1u64, (d >> 44u32) & 1u64 != 1u64, (d >> 45u32) & 1u64 != 1u64, (d >> 46u32) & 1u64 != 1u64, (d >> 47u32) & 1u64 != 1u64, (d >> 48u32) & 1u64 != 1u64, (d >> 49u32) & 1u64 != 1u64, (d >> 50u32) & 1u64 != 1u64, (d >> 51u32) & 1u64 != 1u64, (d >> 52u32) & 1u64 != 1u64, (d >> 53u32) & 1u64 != 1u64, (d >> 54u32) & 1u64 != 1u64, (d >> 55u32) & 1u64 != 1u64, (d >> 56u32) & 1u64 != 1u64, (d >> 57u32) & 1u64 != 1u64, (d >> 58u32) & 1u64 != 1u64, (d >> 59u32) & 1u64 != 1u64, (d >> 60u32) & 1u64 != 1u64, (d >> 61u32) & 1u64 != 1u64, (d >> 62u32) & 1u64 != 1u64, (d >> 63u32) & 1u64 != 1u64;
}
} // mod ext
