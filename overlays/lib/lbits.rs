pub mod lb {
use vstd::prelude::*;
// least significant bit first
pub open spec fn l8(b: u8, k: int) -> bool { (b >> (k as u32)) & 1u8 == 1u8 }
pub open spec fn l32(b: u32, k: int) -> bool { (b >> (k as u32)) & 1u32 == 1u32 }
pub broadcast proof fn l8_or(x: u8, y: u8, k: int)
    requires 0 <= k < 8
    ensures #[trigger] l8(x | y, k) == (l8(x, k) || l8(y, k))
{ let s = k as u32; assert(((x | y) >> s) & 1u8 == 1u8 <==> ((x >> s) & 1u8 == 1u8 || (y >> s) & 1u8 == 1u8)) by (bit_vector); }
pub broadcast proof fn l8_and(x: u8, y: u8, k: int)
    requires 0 <= k < 8
    ensures #[trigger] l8(x & y, k) == (l8(x, k) && l8(y, k))
{ let s = k as u32; assert(((x & y) >> s) & 1u8 == 1u8 <==> ((x >> s) & 1u8 == 1u8 && (y >> s) & 1u8 == 1u8)) by (bit_vector); }
pub broadcast proof fn l8_shl(x: u8, n: u32, k: int)
    requires 0 <= k < 8, n < 8
    ensures #[trigger] l8(x << n, k) == (k >= n && l8(x, k - n))
{ let s = k as u32;
  if k >= n { let t = (k - n) as u32; assert(((x << n) >> s) & 1u8 == (x >> t) & 1u8) by (bit_vector) requires s == t + n, s < 8; }
  else { assert(((x << n) >> s) & 1u8 == 0) by (bit_vector) requires s < n, n < 8; } }
pub broadcast proof fn l8_zero(k: int)
    requires 0 <= k < 8
    ensures #[trigger] l8(0u8, k) == false
{ let s = k as u32; assert((0u8 >> s) & 1u8 == 0) by (bit_vector); }
pub broadcast proof fn l32_as_u8(x: u32, k: int)
    requires 0 <= k < 8
    ensures #[trigger] l8(x as u8, k) == l32(x, k)
{ let s = k as u32; assert(((x as u8) >> s) & 1u8 == 1u8 <==> (x >> s) & 1u32 == 1u32) by (bit_vector) requires s < 8; }
pub broadcast proof fn l8_as_u32(x: u8, k: int)
    requires 0 <= k < 32
    ensures #[trigger] l32(x as u32, k) == (k < 8 && l8(x, k))
{ let s = k as u32;
  if k < 8 { assert(((x as u32) >> s) & 1u32 == 1u32 <==> (x >> s) & 1u8 == 1u8) by (bit_vector) requires s < 8; }
  else { assert(((x as u32) >> s) & 1u32 == 0) by (bit_vector) requires s >= 8, s < 32; } }
pub broadcast proof fn l32_or(x: u32, y: u32, k: int)
    requires 0 <= k < 32
    ensures #[trigger] l32(x | y, k) == (l32(x, k) || l32(y, k))
{ let s = k as u32; assert(((x | y) >> s) & 1u32 == 1u32 <==> ((x >> s) & 1u32 == 1u32 || (y >> s) & 1u32 == 1u32)) by (bit_vector); }
pub broadcast proof fn l32_and(x: u32, y: u32, k: int)
    requires 0 <= k < 32
    ensures #[trigger] l32(x & y, k) == (l32(x, k) && l32(y, k))
{ let s = k as u32; assert(((x & y) >> s) & 1u32 == 1u32 <==> ((x >> s) & 1u32 == 1u32 && (y >> s) & 1u32 == 1u32)) by (bit_vector); }
pub broadcast proof fn l32_zero(k: int)
    requires 0 <= k < 32
    ensures #[trigger] l32(0u32, k) == false
{ let s = k as u32; assert((0u32 >> s) & 1u32 == 0) by (bit_vector); }
pub broadcast proof fn l32_shr(x: u32, n: u32, k: int)
    requires 0 <= k < 32, n < 32
    ensures #[trigger] l32(x >> n, k) == (k + n < 32 && l32(x, k + n))
{ let s = k as u32;
  if k + n < 32 { let t = (k + n) as u32; assert(((x >> n) >> s) & 1u32 == (x >> t) & 1u32) by (bit_vector) requires t == s + n, t < 32; }
  else { assert(((x >> n) >> s) & 1u32 == 0) by (bit_vector) requires s + n >= 32, s < 32, n < 32; } }
pub broadcast proof fn l32_shl(x: u32, n: u32, k: int)
    requires 0 <= k < 32, n < 32
    ensures #[trigger] l32(x << n, k) == (k >= n && l32(x, k - n))
{ let s = k as u32;
  if k >= n { let t = (k - n) as u32; assert(((x << n) >> s) & 1u32 == (x >> t) & 1u32) by (bit_vector) requires s == t + n, s < 32; }
  else { assert(((x << n) >> s) & 1u32 == 0) by (bit_vector) requires s < n, n < 32; } }
pub broadcast proof fn one_shl_i32(n: u32)
    requires n < 31
    ensures 1 <= #[trigger] (1i32 << n) <= 0x4000_0000
{ assert(1 <= (1i32 << n) <= 0x4000_0000) by (bit_vector) requires n < 31; }
pub broadcast proof fn one_shl_u32(n: u32)
    requires n < 32
    ensures 1 <= #[trigger] (1u32 << n)
{ assert(1 <= (1u32 << n)) by (bit_vector) requires n < 32; }
pub broadcast proof fn l32_mask_i(n: u32, k: int)
    requires n < 31, 0 <= k < 32
    ensures #[trigger] l32(((1i32 << n) - 1) as u32, k) == (k < n)
{ let s = k as u32; let m = 1i32 << n;
  one_shl_i32(n);
  let q = (m - 1) as u32; let mu = 1u32 << n;
  one_shl_u32(n);
  assert(m as u32 == mu) by (bit_vector) requires n < 31, m == 1i32 << n, mu == 1u32 << n;
  assert(q == (mu - 1) as u32);
  l32_mask_u(n, k); }
pub broadcast proof fn l32_mask_u(n: u32, k: int)
    requires n < 32, 0 <= k < 32
    ensures #[trigger] l32(((1u32 << n) - 1) as u32, k) == (k < n)
{ let s = k as u32; let m = 1u32 << n; one_shl_u32(n);
  let q = (m - 1) as u32;
  if k < n { assert((q >> s) & 1u32 == 1) by (bit_vector) requires n < 32, s < n, m == 1u32 << n, q == sub(m, 1); }
  else { assert((q >> s) & 1u32 == 0) by (bit_vector) requires n < 32, s >= n, s < 32, m == 1u32 << n, q == sub(m, 1); } }
pub broadcast group lbit_lemmas { l8_or, l8_and, l8_shl, l8_zero, l32_as_u8, l8_as_u32, l32_or, l32_and, l32_zero, l32_shr, l32_shl, one_shl_i32, one_shl_u32, l32_mask_i, l32_mask_u }

/// bit i of a byte stream packed least significant bit first
pub open spec fn lbit(s: Seq<u8>, i: int) -> bool { l8(s[i / 8], i % 8) }
/// d2 is d1 with the low n bits of v or-ed in at bit p, and nothing else changed
pub open spec fn packed(d1: Seq<u8>, d2: Seq<u8>, p: int, n: int, v: u32) -> bool {
    &&& d2.len() == d1.len()
    &&& forall|j: int, k: int| 0 <= j < d1.len() && 0 <= k < 8 ==> #[trigger] l8(d2[j], k) == (l8(d1[j], k) || (p <= 8 * j + k < p + n && l32(v, 8 * j + k - p)))
}
/// v holds the n bits of s starting at p
pub open spec fn is_lvalue(s: Seq<u8>, p: int, n: int, v: u32) -> bool {
    forall|i: int| 0 <= i < 32 ==> #[trigger] l32(v, i) == (i < n && lbit(s, p + i))
}
pub proof fn u32_ext(a: u32, b: u32)
    requires forall|i: int| 0 <= i < 32 ==> l32(a, i) == l32(b, i)
    ensures a == b
{
    let d = a ^ b;
    assert forall|i: int| 0 <= i < 32 implies !#[trigger] l32(d, i) by {
        let s = i as u32; assert(l32(a, i) == l32(b, i));
        assert(((a ^ b) >> s) & 1u32 == 1u32 <==> (((a >> s) & 1u32 == 1u32) != ((b >> s) & 1u32 == 1u32))) by (bit_vector);
    }
    assert(!l32(d, 0));
    assert(!l32(d, 1));
    assert(!l32(d, 2));
    assert(!l32(d, 3));
    assert(!l32(d, 4));
    assert(!l32(d, 5));
    assert(!l32(d, 6));
    assert(!l32(d, 7));
    assert(!l32(d, 8));
    assert(!l32(d, 9));
    assert(!l32(d, 10));
    assert(!l32(d, 11));
    assert(!l32(d, 12));
    assert(!l32(d, 13));
    assert(!l32(d, 14));
    assert(!l32(d, 15));
    assert(!l32(d, 16));
    assert(!l32(d, 17));
    assert(!l32(d, 18));
    assert(!l32(d, 19));
    assert(!l32(d, 20));
    assert(!l32(d, 21));
    assert(!l32(d, 22));
    assert(!l32(d, 23));
    assert(!l32(d, 24));
    assert(!l32(d, 25));
    assert(!l32(d, 26));
    assert(!l32(d, 27));
    assert(!l32(d, 28));
    assert(!l32(d, 29));
    assert(!l32(d, 30));
    assert(!l32(d, 31));
    assert(d == 0) by (bit_vector) requires (d >> 0u32) & 1u32 != 1u32, (d >> 1u32) & 1u32 != 1u32, (d >> 2u32) & 1u32 != 1u32, (d >> 3u32) & 1u32 != 1u32, (d >> 4u32) & 1u32 != 1u32, (d >> 5u32) & 1u32 != 1u32, (d >> 6u32) & 1u32 != 1u32, (d >> 7u32) & 1u32 != 1u32, (d >> 8u32) & 1u32 != 1u32, (d >> 9u32) & 1u32 != 1u32, (d >> 10u32) & 1u32 != 1u32, (d >> 11u32) & 1u32 != 1u32, (d >> 12u32) & 1u32 != 1u32, (d >> 13u32) & 1u32 != 1u32, (d >> 14u32) & 1u32 != 1u32, (d >> 15u32) & 1u32 != 1u32, (d >> 16u32) & 1u32 != 1u32, (d >> 17u32) & 1u32 != 1u32, (d >> 18u32) & 1u32 != 1u32, (d >> 19u32) & 1u32 != 1u32, (d >> 20u32) & 1u32 != 1u32, (d >> 21u32) & 1u32 != 1u32, (d >> 22u32) & 1u32 != 1u32, (d >> 23u32) & 1u32 != 1u32, (d >> 24u32) & 1u32 != 1u32, (d >> 25u32) & 1u32 != 1u32, (d >> 26u32) & 1u32 != 1u32, (d >> 27u32) & 1u32 != 1u32, (d >> 28u32) & 1u32 != 1u32, (d >> 29u32) & 1u32 != 1u32, (d >> 30u32) & 1u32 != 1u32, (d >> 31u32) & 1u32 != 1u32;
    assert(a == b) by (bit_vector) requires a ^ b == 0;
}
} // mod lb
