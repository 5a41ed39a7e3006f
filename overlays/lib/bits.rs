pub mod bits {
use vstd::prelude::*;
// ---- bit-level vocabulary -------------------------------------------------
pub open spec fn b8(b: u8, k: int) -> bool { (b >> ((7 - k) as u32)) & 1u8 == 1u8 }
pub open spec fn b64(b: u64, i: int) -> bool { (b >> (i as u32)) & 1u64 == 1u64 }

pub open spec fn bit_at(s: Seq<u8>, i: int) -> bool { b8(s[i / 8], i % 8) }
pub open spec fn u64_bits(x: u64, n: nat) -> Seq<bool> { Seq::new(n, |i: int| b64(x, n - 1 - i)) }
pub open spec fn u8_bits(x: u8) -> Seq<bool> { Seq::new(8, |i: int| b8(x, i)) }

pub broadcast proof fn b8_or(x: u8, y: u8, k: int)
    requires 0 <= k < 8
    ensures #[trigger] b8(x | y, k) == (b8(x, k) || b8(y, k))
{ let s = (7 - k) as u32; assert(((x | y) >> s) & 1u8 == 1u8 <==> ((x >> s) & 1u8 == 1u8 || (y >> s) & 1u8 == 1u8)) by (bit_vector); }
pub broadcast proof fn b8_and(x: u8, y: u8, k: int)
    requires 0 <= k < 8
    ensures #[trigger] b8(x & y, k) == (b8(x, k) && b8(y, k))
{ let s = (7 - k) as u32; assert(((x & y) >> s) & 1u8 == 1u8 <==> ((x >> s) & 1u8 == 1u8 && (y >> s) & 1u8 == 1u8)) by (bit_vector); }
pub broadcast proof fn b8_shr(x: u8, n: u32, k: int)
    requires 0 <= k < 8, n < 8
    ensures #[trigger] b8(x >> n, k) == (k >= n && b8(x, k - n))
{ let s = (7 - k) as u32; 
  if k >= n { let t = (7 - (k - n)) as u32; assert(t == s + n); assert(((x >> n) >> s) & 1u8 == (x >> t) & 1u8) by (bit_vector) requires t == s + n, s < 8, n < 8; }
  else { assert(((x >> n) >> s) & 1u8 == 0) by (bit_vector) requires s + n > 7, s < 8, n < 8; } }
pub broadcast proof fn b8_shl(x: u8, n: u32, k: int)
    requires 0 <= k < 8, n < 8
    ensures #[trigger] b8(x << n, k) == (k + n < 8 && b8(x, k + n))
{ let s = (7 - k) as u32; 
  if k + n < 8 { let t = (7 - (k + n)) as u32; assert(((x << n) >> s) & 1u8 == (x >> t) & 1u8) by (bit_vector) requires s == t + n, s < 8, n < 8; }
  else { assert(((x << n) >> s) & 1u8 == 0) by (bit_vector) requires s < n, s < 8, n < 8; } }
pub broadcast proof fn b8_zero(k: int)
    requires 0 <= k < 8
    ensures #[trigger] b8(0u8, k) == false
{ let s = (7 - k) as u32; assert((0u8 >> s) & 1u8 == 0) by (bit_vector); }
pub broadcast proof fn b8_one(k: int)
    requires 0 <= k < 8
    ensures #[trigger] b8(1u8, k) == (k == 7)
{ let s = (7 - k) as u32; if s == 0 { assert((1u8 >> s) & 1u8 == 1) by (bit_vector) requires s == 0; } else { assert((1u8 >> s) & 1u8 == 0) by (bit_vector) requires s > 0, s < 8;} }
pub broadcast proof fn b8_ff(k: int)
    requires 0 <= k < 8
    ensures #[trigger] b8(0xffu8, k) == true
{ let s = (7 - k) as u32; assert((0xffu8 >> s) & 1u8 == 1) by (bit_vector) requires s < 8; }

pub broadcast proof fn b64_shr(x: u64, n: u32, i: int)
    requires 0 <= i < 64, n < 64
    ensures #[trigger] b64(x >> n, i) == (i + n < 64 && b64(x, i + n))
{ let s = i as u32;
  if i + n < 64 { let t = (i + n) as u32; assert(((x >> n) >> s) & 1u64 == (x >> t) & 1u64) by (bit_vector) requires t == s + n, t < 64; }
  else { assert(((x >> n) >> s) & 1u64 == 0) by (bit_vector) requires s + n >= 64, s < 64, n < 64; } }
pub broadcast proof fn b64_as_u8(x: u64, k: int)
    requires 0 <= k < 8
    ensures #[trigger] b8(x as u8, k) == b64(x, 7 - k)
{ let s = (7 - k) as u32; assert(((x as u8) >> s) & 1u8 == 1u8 <==> (x >> s) & 1u64 == 1u64) by (bit_vector) requires s < 8; }
pub broadcast proof fn b64_and(x: u64, y: u64, i: int)
    requires 0 <= i < 64
    ensures #[trigger] b64(x & y, i) == (b64(x, i) && b64(y, i))
{ let s = i as u32; assert(((x & y) >> s) & 1u64 == 1u64 <==> ((x >> s) & 1u64 == 1u64 && (y >> s) & 1u64 == 1u64)) by (bit_vector); }
pub broadcast proof fn one_shl_u64(n: u32)
    requires n < 64
    ensures (#[trigger] (1u64 << n)) >= 1
{ assert((1u64 << n) >= 1) by (bit_vector) requires n < 64; }
pub broadcast proof fn b64_mask(n: u32, i: int)
    requires n < 64, 0 <= i < 64
    ensures #[trigger] b64(((1u64 << n) - 1) as u64, i) == (i < n)
{ let s = i as u32; let m = 1u64 << n; assert(m >= 1) by (bit_vector) requires n < 64, m == 1u64 << n;
  let q = (m - 1) as u64;
  if i < n { assert((q >> s) & 1u64 == 1) by (bit_vector) requires n < 64, s < n, m == 1u64 << n, q == sub(m, 1); }
  else { assert((q >> s) & 1u64 == 0) by (bit_vector) requires n < 64, s >= n, s < 64, m == 1u64 << n, q == sub(m, 1); } }
pub broadcast proof fn b64_bit0(x: u64, n: u32)
    requires n < 64
    ensures ((#[trigger] (x >> n)) & 1u64 != 0) == b64(x, n as int)
{ assert((x >> n) & 1u64 == 0 || (x >> n) & 1u64 == 1) by (bit_vector); }
pub broadcast proof fn b64_or(x: u64, y: u64, i: int)
    requires 0 <= i < 64
    ensures #[trigger] b64(x | y, i) == (b64(x, i) || b64(y, i))
{ let s = i as u32; assert(((x | y) >> s) & 1u64 == 1u64 <==> ((x >> s) & 1u64 == 1u64 || (y >> s) & 1u64 == 1u64)) by (bit_vector); }
pub broadcast proof fn b64_xor(x: u64, y: u64, i: int)
    requires 0 <= i < 64
    ensures #[trigger] b64(x ^ y, i) == (b64(x, i) != b64(y, i))
{ let s = i as u32; assert(((x ^ y) >> s) & 1u64 == 1u64 <==> (((x >> s) & 1u64 == 1u64) != ((y >> s) & 1u64 == 1u64))) by (bit_vector); }
pub broadcast proof fn b64_shl(x: u64, n: u32, i: int)
    requires 0 <= i < 64, n < 64
    ensures #[trigger] b64(x << n, i) == (i >= n && b64(x, i - n))
{ let s = i as u32;
  if i >= n { let t = (i - n) as u32; assert(((x << n) >> s) & 1u64 == (x >> t) & 1u64) by (bit_vector) requires s == t + n, s < 64; }
  else { assert(((x << n) >> s) & 1u64 == 0) by (bit_vector) requires s < n, n < 64; } }
pub broadcast proof fn b64_zero(i: int)
    requires 0 <= i < 64
    ensures #[trigger] b64(0u64, i) == false
{ let s = i as u32; assert((0u64 >> s) & 1u64 == 0) by (bit_vector); }
pub broadcast proof fn b64_one(i: int)
    requires 0 <= i < 64
    ensures #[trigger] b64(1u64, i) == (i == 0)
{ let s = i as u32; if s == 0 { assert((1u64 >> s) & 1u64 == 1) by (bit_vector) requires s == 0; } else { assert((1u64 >> s) & 1u64 == 0) by (bit_vector) requires s > 0, s < 64; } }
pub broadcast proof fn b8_as_u64(x: u8, i: int)
    requires 0 <= i < 64
    ensures #[trigger] b64(x as u64, i) == (i < 8 && b8(x, 7 - i))
{ let s = i as u32;
  if i < 8 { assert(((x as u64) >> s) & 1u64 == 1u64 <==> (x >> s) & 1u8 == 1u8) by (bit_vector) requires s < 8; }
  else { assert(((x as u64) >> s) & 1u64 == 0) by (bit_vector) requires s >= 8, s < 64; } }
pub broadcast proof fn b8_bit0(x: u8, n: u32)
    requires n < 8
    ensures ((#[trigger] (x >> n)) & 1u8 != 0) == b8(x, 7 - n)
{ assert((x >> n) & 1u8 == 0 || (x >> n) & 1u8 == 1) by (bit_vector); }
pub broadcast group bit_lemmas { b64_or, b64_xor, b64_shl, b64_zero, b64_one, b8_as_u64, b8_bit0, b64_and, one_shl_u64, b64_mask, b64_bit0, b8_or, b8_and, b8_shr, b8_shl, b8_zero, b8_one, b8_ff, b64_shr, b64_as_u8 }
} // mod bits
