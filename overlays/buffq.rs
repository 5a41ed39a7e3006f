//@include lib/prelude.rs
//@include lib/float.rs
//@include lib/lbits.rs
//@include lib/bp.rs
//@include lib/fx.rs
//@include lib/buff.rs
//@include lib/query.rs
//@include lib/mask.rs
pub mod bq {
use super::*;
use super::lb::*;
use super::bp::*;
use super::fx::*;
use super::bl::*;
use super::mk::*;
use super::decoder::DecoderError;
use std::mem;
broadcast use {super::tm_u64_i64, super::mk::fsum_done};
// doubles stay uninterpreted: x / 2^f
pub uninterp spec fn pow2f_s(f: i32) -> f64;
pub uninterp spec fn unfix_s(x: i64, scale: f64) -> f64;
pub uninterp spec fn times_s(x: f64, n: u64) -> f64;
#[verifier::external_body]
pub fn pow2f(f: i32) -> (r: f64) ensures r == pow2f_s(f) { 2.0f64.powi(f) }
#[verifier::external_body]
pub fn unfix(x: i64, scale: f64) -> (r: f64) ensures r == unfix_s(x, scale) { x as f64 / scale }
#[verifier::external_body]
pub fn times(x: f64, n: u64) -> (r: f64) ensures r == times_s(x, n) { x * n as f64 }
/// the value stored as x with f fractional bits
pub open spec fn val(x: int, f: int) -> f64 { unfix_s(x as i64, pow2f_s(f as i32)) }
pub trait OrEnd<T>: Sized {
    spec fn fine(&self) -> Option<T>;
    fn or_end(self) -> (r: decoder::Result<T>) ensures self.fine() is Some ==> r is Ok && r->Ok_0 == self.fine()->0, self.fine() is None ==> r is Err;
}
impl<T> OrEnd<T> for Result<T, usize> {
    open spec fn fine(&self) -> Option<T> { match self { Ok(x) => Some(*x), Err(_) => None } }
    fn or_end(self) -> (r: decoder::Result<T>) { match self { Ok(x) => Ok(x), Err(_) => Err(DecoderError::UnexpectedEndOfChunk) } }
}
pub proof fn words()
    ensures forall|a: u32, b: u32| #[trigger] ((a as u64) | ((b as u64) << 32)) == a + 0x1_0000_0000 * b,
        forall|b: i64| #[trigger] ((b as u64) as i64) == b,
        forall|b: u8| (#[trigger] (b ^ 0x80u8)) ^ 0x80u8 == b,
        forall|d: u64| #[trigger] (d >> 0u64) == d,
{
    assert forall|b: u8| (#[trigger] (b ^ 0x80u8)) ^ 0x80u8 == b by { assert((b ^ 0x80u8) ^ 0x80u8 == b) by (bit_vector); }
    assert forall|d: u64| #[trigger] (d >> 0u64) == d by { assert(d >> 0u64 == d) by (bit_vector); }
    assert forall|a: u32, b: u32| #[trigger] ((a as u64) | ((b as u64) << 32)) == a + 0x1_0000_0000 * b by {
        assert(((a as u64) | ((b as u64) << 32)) == add(a as u64, mul(0x1_0000_0000u64, b as u64))) by (bit_vector);
    }
    assert forall|b: i64| #[trigger] ((b as u64) as i64) == b by { assert((b as u64) as i64 == b) by (bit_vector); }
}
/// the n bits from bit p, least significant first
pub open spec fn lval(c: Seq<u8>, p: int, n: int) -> u32 { choose|v: u32| #[trigger] is_lvalue(c, p, n, v) }
/// byte i of a column, as stored value
pub open spec fn unflipped(s: Seq<u8>) -> Seq<int> { Seq::new(s.len(), |i: int| flip_s(s[i]) as int) }
/// n values of l bits from bit p on
pub open spec fn packs(c: Seq<u8>, p: int, l: int, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| lval(c, p + i * l, l) as int) }
//@item ebi/src/decoder/chunk_reader/buff/sum.rs :: fn sum_byte_subcolumn
//@rewritere roaring::RoaringBitmap => RoaringBitmap
//@rewritere (\w+)\.iter\(\)\.map\(\|(\w+)\| \2 - logical_offset\) => shifted(\1, logical_offset)
//@rewritere chunk\.iter\(\)\.map\(\|x\| flip\(\*x\) as u64\)\.sum\(\) => { let mut vx_s: u64 = 0; let mut vx_i: usize = 0; while vx_i < chunk.len() invariant vx_i <= chunk@.len() < lim32(), vx_s == fsum(unflipped(chunk@), None, off, vx_i as int), vx_s <= 255 * vx_i decreases chunk@.len() - vx_i { let x = &chunk[vx_i]; vx_s = vx_s + (flip(*x) as u64); vx_i = vx_i + 1; } vx_s }
//@fn sum_byte_subcolumn ret=r
    requires chunk@.len() < lim32(), logical_offset + chunk@.len() <= lim32(), mwithin(mv(bitmask), logical_offset as int, chunk@.len() as int)
    ensures r == fsum(unflipped(chunk@), mv(bitmask), logical_offset as int, chunk@.len() as int), r <= 255 * chunk@.len()
//@start
    let ghost off = logical_offset as int;
    let ghost n = chunk@.len() as int;
    proof { fsum_bound(unflipped(chunk@), mv(bitmask), off, n, 255); }
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1 ixs
    invariant vx_1 <= vx_1_s@.len(), lists(vx_1_s@, bitmask@, off, n), sum == fsum(unflipped(chunk@), Some(bitmask@), off, reach(vx_1_s@, vx_1 as int)), sum <= 255 * vx_1
    decreases vx_1_s@.len() - vx_1
//@loopstart 1
    proof { gap(vx_1_s@, bitmask@, off, n, vx_1 - 1); fsum_skip(unflipped(chunk@), Some(bitmask@), off, reach(vx_1_s@, vx_1 - 1), i as int); }
//@enditem
pub proof fn lval_is(c: Seq<u8>, p: int, n: int)
    ensures forall|v: u32| #[trigger] is_lvalue(c, p, n, v) ==> v == lval(c, p, n)
{
    assert forall|v: u32| #[trigger] is_lvalue(c, p, n, v) implies v == lval(c, p, n) by {
        let u = lval(c, p, n);
        assert(is_lvalue(c, p, n, u));
        assert forall|i: int| 0 <= i < 32 implies l32(u, i) == l32(v, i) by { assert(l32(v, i) == (i < n && lbit(c, p + i))); }
        u32_ext(u, v);
    }
}
//@item ebi/src/decoder/chunk_reader/buff/sum.rs :: fn sum_bits_subcolumn
//@rewritere roaring::RoaringBitmap => RoaringBitmap
//@rewritere (\w+)\.iter\(\)\.map\(\|(\w+)\| \2 - logical_offset\) => shifted(\1, logical_offset)
//@rewritere \.map_err\(\|_\| DecoderError::UnexpectedEndOfChunk\) => .or_end()
//@fn sum_bits_subcolumn ret=r
    requires old(bit_reader).rok(), 0 < bits_length < 8, old(bit_reader).p() + number_of_records * bits_length <= 8 * old(bit_reader).rd().len(), logical_offset + number_of_records <= lim32(), mwithin(mv(bitmask), logical_offset as int, number_of_records as int)
    ensures r is Ok, r->Ok_0 == fsum(packs(old(bit_reader).rd(), old(bit_reader).p(), bits_length as int, number_of_records as int), mv(bitmask), logical_offset as int, number_of_records as int)
//@start
    let ghost off = logical_offset as int;
    let ghost n = number_of_records as int;
    let ghost c = bit_reader.rd();
    let ghost p0 = bit_reader.p();
    let ghost l = bits_length as int;
    let ghost vs = packs(c, p0, l, n);
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1 ixs
    invariant vx_1 <= vx_1_s@.len(), lists(vx_1_s@, bitmask@, off, n), sum == fsum(vs, Some(bitmask@), off, reach(vx_1_s@, vx_1 as int)), sum <= 255 * vx_1,
        bit_reader.rok(), bit_reader.rd() == c, expected_record_index_if_sequential == reach(vx_1_s@, vx_1 as int), bit_reader.p() == p0 + reach(vx_1_s@, vx_1 as int) * l
    decreases vx_1_s@.len() - vx_1
//@loopstart 1
    proof {
        gap(vx_1_s@, bitmask@, off, n, vx_1 - 1); let a = reach(vx_1_s@, vx_1 - 1);
        fsum_skip(vs, Some(bitmask@), off, a, i as int);
        assert((i - a) * l + a * l == i * l && 0 <= (i - a) * l <= 8 * lim32() && (i + 1) * l == i * l + l && (i + 1) * l <= n * l) by (nonlinear_arith) requires 0 <= a <= i < n, n <= lim32(), 0 < l < 8;
        lval_is(c, p0 + i * l, l);
    }
//@loop 2 ix
    invariant vx_2 <= n, sum == fsum(vs, None, off, vx_2 as int), sum <= 255 * vx_2, bit_reader.rok(), bit_reader.rd() == c, bit_reader.p() == p0 + vx_2 * l
    decreases n - vx_2
//@loopstart 2
    proof { let i = vx_2 - 1; assert((i + 1) * l == i * l + l && (i + 1) * l <= n * l) by (nonlinear_arith) requires 0 <= i < n, 0 < l < 8; lval_is(c, p0 + i * l, l); }
//@enditem
// ---- where the columns of a chunk are
/// the bit at which reading stands when rem bits of each delta are left
pub open spec fn at(n: int, w: int, rem: int) -> int { 8 * (20 + ((w - rem) / 8) * n) }
/// bits of the header, and room for the tail
pub proof fn layout(c: Seq<u8>, ds: Seq<u64>, base: i64, w: int, f: int)
    requires chunk(c, ds, base, w, f)
    ensures 20 <= c.len() < lim(), 0 <= w < 64, 0 <= f < 64, ds.len() < lim32(), le32(c, 0) + 0x1_0000_0000 * le32(c, 4) == (base as u64) as int, le32(c, 8) == ds.len(), le32(c, 12) == w, le32(c, 16) == f,
        at(ds.len() as int, w, w) == 160, at(ds.len() as int, w, w % 8) == tail_at(ds.len() as int, w), tail_at(ds.len() as int, w) >= 160, tail_at(ds.len() as int, w) + ds.len() * (w % 8) <= 8 * c.len(),
        forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]) < 0x8000_0000_0000_0000 && wide(ds[i], w) && in_i64(base + ds[i]),
{
    reveal(chunk); reveal(w32);
    let n = ds.len() as int;
    assert(0 * n == 0);
    assert((w / 8) * n >= 0) by (nonlinear_arith) requires w >= 0, n >= 0;
    assert((w - w % 8) / 8 == w / 8);
    assert forall|i: int| 0 <= i < n implies (#[trigger] ds[i]) < 0x8000_0000_0000_0000 && wide(ds[i], w) && in_i64(base + ds[i]) by {
        let d = ds[i]; let wu = w as u64;
        assert(wide(d, w));
        assert(d < 0x8000_0000_0000_0000u64) by (bit_vector) requires d >> wu == 0, wu < 64;
    }
}
/// what the next byte column holds
pub open spec fn colval(s: Seq<u8>, ds: Seq<u64>, sh: int) -> bool { s.len() == ds.len() && forall|i: int| 0 <= i < ds.len() ==> flip_s(#[trigger] s[i]) == (ds[i] >> (sh as u64)) as u8 }
pub proof fn col_read(c: Seq<u8>, ds: Seq<u64>, base: i64, w: int, f: int, rem: int)
    requires chunk(c, ds, base, w, f), 8 <= rem <= w, (w - rem) % 8 == 0
    ensures at(ds.len() as int, w, rem - 8) == at(ds.len() as int, w, rem) + 8 * ds.len(), 160 <= at(ds.len() as int, w, rem), at(ds.len() as int, w, rem) + 8 * ds.len() <= 8 * c.len(), at(ds.len() as int, w, rem) % 8 == 0,
        colval(c.subrange(at(ds.len() as int, w, rem) / 8, at(ds.len() as int, w, rem) / 8 + ds.len()), ds, rem - 8),
        forall|i: int| 0 <= i < ds.len() ==> flip_s(#[trigger] c[at(ds.len() as int, w, rem) / 8 + i]) == (ds[i] >> ((rem - 8) as u64)) as u8
{
    layout(c, ds, base, w, f);
    reveal(chunk); reveal(col);
    words();
    let n = ds.len() as int; let k = (w - rem) / 8; let p = 20 + k * n;
    assert(k * n + n == (k + 1) * n && (k + 1) * n <= (w / 8) * n && k * n >= 0) by (nonlinear_arith) requires 0 <= k, k + 1 <= w / 8, n >= 0;
    assert(col(c, ds, w, k));
    assert((w - (rem - 8)) / 8 == k + 1);
    assert(n * (w % 8) >= 0) by (nonlinear_arith) requires n >= 0, 0 <= w % 8;
    assert forall|i: int| 0 <= i < n implies flip_s(#[trigger] c[p + i]) == (ds[i] >> ((rem - 8) as u64)) as u8 by { assert(c[20 + k * ds.len() + i] == flip_s((ds[i] >> ((w - 8 * (k + 1)) as u64)) as u8)); }
    let s = c.subrange(p, p + n);
    assert forall|i: int| 0 <= i < n implies flip_s(#[trigger] s[i]) == (ds[i] >> ((rem - 8) as u64)) as u8 by { assert(s[i] == c[p + i]); }
}
// ---- sums
pub open spec fn ints(ds: Seq<u64>) -> Seq<int> { Seq::new(ds.len(), |i: int| ds[i] as int) }
pub open spec fn tops(ds: Seq<u64>, s: int) -> Seq<int> { Seq::new(ds.len(), |i: int| top(ds[i], s) as int) }
pub open spec fn p2(s: int) -> int { vstd::arithmetic::power2::pow2(s as nat) as int }
pub proof fn shl_mul(x: u64, s: int)
    requires 0 <= s < 64, x * p2(s) < 0x1_0000_0000_0000_0000
    ensures x << (s as u64) == x * p2(s)
{ vstd::bits::lemma_u64_shl_is_mul(x, s as u64); }
pub proof fn top_step(d: u64, s: int)
    requires 0 <= s <= 55
    ensures top(d, s) == top(d, s + 8) + p2(s) * ((d >> (s as u64)) as u8), top(d, s) <= d
{
    let y = s as u64; let z = (s + 8) as u64;
    let b = (d >> y) as u8;
    assert(((d >> z) << z) | ((b as u64) << y) == (d >> y) << y && ((d >> z) << z) <= (d >> y) << y && ((b as u64) << y) <= (d >> y) << y && ((d >> y) << y) == add((d >> z) << z, (b as u64) << y)) by (bit_vector) requires z == add(y, 8), y <= 55, b == (d >> y) as u8;
    assert((d >> y) << y <= d) by (bit_vector);
    assert(sub((d >> y) << y, (d >> z) << z) == (b as u64) << y) by (bit_vector) requires z == add(y, 8), y <= 55, b == (d >> y) as u8;
    vstd::arithmetic::power2::lemma_pow2_pos(s as nat);
    vstd::arithmetic::power2::lemma_pow2_adds(s as nat, 8);
    vstd::arithmetic::power2::lemma_pow2_adds(s as nat, (63 - s) as nat);
    vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest();
    vstd::arithmetic::power2::lemma_pow2_pos((55 - s) as nat);
    vstd::arithmetic::power2::lemma_pow2_adds((s + 8) as nat, (55 - s) as nat);
    let (q, r) = (p2(s + 8), p2(55 - s));
    assert(q <= q * r) by (nonlinear_arith) requires q >= 0, r >= 1;
    assert(b * p2(s) <= 255 * p2(s)) by (nonlinear_arith) requires b <= 255, p2(s) > 0;
    assert(b * p2(s) == p2(s) * b) by (nonlinear_arith);
    shl_mul(b as u64, s);
}
/// the sums the code forms stay within 64 bits
pub open spec fn sum_fits(ds: Seq<u64>, base: i64, m: Option<Set<u32>>, off: int) -> bool {
    let n = ds.len() as int;
    &&& fsum(ints(ds), m, off, n) < 0x8000_0000_0000_0000
    &&& in_i64(base * cnt(m, off, n)) && in_i64(base * cnt(m, off, n) + fsum(ints(ds), m, off, n))
}
pub proof fn col_sum(ds: Seq<u64>, s: Seq<u8>, m: Option<Set<u32>>, off: int, sh: int)
    requires colval(s, ds, sh), 0 <= sh <= 55, fsum(ints(ds), m, off, ds.len() as int) < 0x8000_0000_0000_0000
    ensures ({ let n = ds.len() as int; let x = fsum(unflipped(s), m, off, n);
        &&& fsum(tops(ds, sh), m, off, n) == fsum(tops(ds, sh + 8), m, off, n) + p2(sh) * x
        &&& 0 <= x && 0 <= fsum(tops(ds, sh + 8), m, off, n) && 0 <= p2(sh) * x
        &&& fsum(tops(ds, sh), m, off, n) <= fsum(ints(ds), m, off, n) })
{
    let n = ds.len() as int;
    assert(linear(tops(ds, sh + 8), unflipped(s), tops(ds, sh), p2(sh), n)) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] tops(ds, sh)[i] == tops(ds, sh + 8)[i] + p2(sh) * unflipped(s)[i] by { top_step(ds[i], sh); assert(flip_s(s[i]) == (ds[i] >> (sh as u64)) as u8); }
    }
    fsum_linear(tops(ds, sh + 8), unflipped(s), tops(ds, sh), p2(sh), m, off, n);
    fsum_bound(unflipped(s), m, off, n, 255);
    fsum_bound(tops(ds, sh + 8), m, off, n, 0x1_0000_0000_0000_0000);
    assert forall|i: int| 0 <= i < n implies #[trigger] tops(ds, sh)[i] <= ints(ds)[i] by { top_step(ds[i], sh); }
    fsum_mono(tops(ds, sh), ints(ds), m, off, n);
    vstd::arithmetic::power2::lemma_pow2_pos(sh as nat);
    let x = fsum(unflipped(s), m, off, n);
    assert(p2(sh) * x >= 0) by (nonlinear_arith) requires p2(sh) > 0, x >= 0;
}
/// the tail bits of record i exist as a value, and complete its delta
pub proof fn tail_has(c: Seq<u8>, ds: Seq<u64>, base: i64, w: int, f: int, i: int)
    requires chunk(c, ds, base, w, f), 0 <= i < ds.len()
    ensures ({ let p = tail_at(ds.len() as int, w) + i * (w % 8); let v = lval(c, p, w % 8);
        is_lvalue(c, p, w % 8, v) && top(ds[i], w % 8) + v == ds[i] && top(ds[i], w % 8) | (v as u64) == ds[i] && v == ds[i] % (1u64 << ((w % 8) as u64)) && (w < 8 ==> v == ds[i]) && v < 128 })
{
    tail_val(c, ds, base, w, f, i);
    reveal(chunk); reveal(tail_part);
    let r = w % 8; let p = tail_at(ds.len() as int, w) + i * r; let d = ds[i];
    let n = r as u32; let m = sub(1u32 << n, 1); let x = (d as u32) & m;
    one_shl_u32(n);
    assert forall|j: int| 0 <= j < 32 implies #[trigger] l32(x, j) == (j < r && lbit(c, p + j)) by {
        l32_mask_u(n, j); l32_and(d as u32, m, j);
        if j < r { assert(lbit(c, tail_at(ds.len() as int, w) + i * (w % 8) + j) == l64(ds[i], j)); }
        let s = j as u64; let s32 = j as u32; let u = d as u32;
        assert(((d >> s) & 1u64 == 1u64) == ((u >> s32) & 1u32 == 1u32)) by (bit_vector) requires u == d as u32, s == s32 as u64, s32 < 32;
    }
    assert(is_lvalue(c, p, r, x));
    lval_is(c, p, r);
    let y = r as u64; let z = x as u64;
    assert(add((d >> y) << y, z) == d && z <= d && z < 128 && ((d >> y) << y) <= d && sub(d, z) == (d >> y) << y) by (bit_vector) requires z == d % (1u64 << y), y < 8;
}
pub proof fn tail_sum(c: Seq<u8>, ds: Seq<u64>, base: i64, w: int, f: int, m: Option<Set<u32>>, off: int)
    requires chunk(c, ds, base, w, f)
    ensures fsum(ints(ds), m, off, ds.len() as int) == fsum(tops(ds, w % 8), m, off, ds.len() as int) + fsum(packs(c, tail_at(ds.len() as int, w), w % 8, ds.len() as int), m, off, ds.len() as int),
        0 <= fsum(packs(c, tail_at(ds.len() as int, w), w % 8, ds.len() as int), m, off, ds.len() as int), 0 <= fsum(tops(ds, w % 8), m, off, ds.len() as int)
{
    layout(c, ds, base, w, f);
    let n = ds.len() as int; let t = tail_at(n, w); let r = w % 8;
    let vs = packs(c, t, r, n);
    assert(linear(tops(ds, r), vs, ints(ds), 1, n)) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] ints(ds)[i] == tops(ds, r)[i] + 1 * vs[i] by {
            tail_has(c, ds, base, w, f, i);
        }
    }
    fsum_linear(tops(ds, r), vs, ints(ds), 1, m, off, n);
    fsum_bound(vs, m, off, n, 0x1_0000_0000_0000_0000);
    fsum_bound(tops(ds, r), m, off, n, 0x1_0000_0000_0000_0000);
}
pub proof fn tops_none(ds: Seq<u64>, w: int, m: Option<Set<u32>>, off: int, k: int)
    requires 0 <= w < 64, forall|i: int| 0 <= i < ds.len() ==> wide(#[trigger] ds[i], w), 0 <= k <= ds.len()
    ensures fsum(tops(ds, w), m, off, k) == 0
    decreases k
{ if k > 0 { tops_none(ds, w, m, off, k - 1); let d = ds[k - 1]; let y = w as u64; assert(wide(d, w)); assert((d >> y) << y == 0) by (bit_vector) requires d >> y == 0; } }
pub proof fn tops_all(ds: Seq<u64>) ensures tops(ds, 0) =~= ints(ds)
{ assert forall|i: int| 0 <= i < ds.len() implies tops(ds, 0)[i] == ints(ds)[i] by { top_zero(ds[i]); } }
//@item ebi/src/decoder/chunk_reader/buff/sum.rs :: fn sum_with_bitmask
//@rewritere roaring::RoaringBitmap => RoaringBitmap
//@rewritere 2\.0f64\.powi\((\w+) as i32\) => pow2f(\1 as i32)
//@rewritere base_fixed64 as f64 / scale => unfix(base_fixed64, scale)
//@rewritere \(sum as i64 \+ base_fixed64 \* accumulated_len\) as f64 / scale => unfix(sum as i64 + base_fixed64 * accumulated_len, scale)
//@rewritere fp \* accumulated_len as f64 => times(fp, accumulated_len)
//@rewritere \.map_err\(\|_\| DecoderError::UnexpectedEndOfChunk\) => .or_end()
//@fn sum_with_bitmask ret=r
    requires valid(bytes@), ({ let (ds, base, w, f) = content(bytes@); logical_offset + ds.len() <= lim32() && mwithin(mv(bitmask), logical_offset as int, ds.len() as int) && sum_fits(ds, base, mv(bitmask), logical_offset as int) })
    ensures r is Ok, ({ let (ds, base, w, f) = content(bytes@); let n = ds.len() as int; let off = logical_offset as int; let k = cnt(mv(bitmask), off, n);
        r->Ok_0 == if w == 0 { times_s(val(base as int, f), k as u64) } else { val(base * k + fsum(ints(ds), mv(bitmask), off, n), f) } })
//@attr
    #[verifier::loop_isolation(false)]
//@start
    broadcast use {BitPack::reader_of, BitPack::reader_ok};
    let ghost c = bytes@;
    let ghost (ds, base, w, f) = content(c);
    let ghost n = ds.len() as int;
    let ghost off = logical_offset as int;
    let ghost m = mv(bitmask);
    let ghost r8 = w % 8;
    proof { content_is(c); words(); layout(c, ds, base, w, f); cnt_bound(m, off, n); tops_none(ds, w, m, off, n); tops_all(ds); tail_sum(c, ds, base, w, f, m, off); assert(within(m->0, off, n) || m is None); }
//@loop 1 ix
    invariant vx_1_b == 0, vx_1 <= n_byte_subcolumns == w / 8, sum == fsum(tops(ds, 8 * vx_1 + r8), m, off, n),
        bitpack.rok(), bitpack.rd() == c, bitpack.al(), bitpack.p() == at(n, w, 8 * vx_1 + r8)
    decreases vx_1
//@loopstart 1
    proof {
        col_read(c, ds, base, w, f, 8 * vx_1 + 8 + r8);
        let s = c.subrange(at(n, w, 8 * vx_1 + 8 + r8) / 8, at(n, w, 8 * vx_1 + 8 + r8) / 8 + n);
        let sh = 8 * vx_1 + r8;
        col_sum(ds, s, m, off, sh);
        let x = fsum(unflipped(s), m, off, n);
        assert(x * p2(sh) == p2(sh) * x) by (nonlinear_arith);
        fsum_bound(unflipped(s), m, off, n, 255);
        shl_mul(x as u64, sh);
    }
//@enditem
// ---- extremes
/// a is not better than b
pub open spec fn le(min: bool, a: int, b: int) -> bool { if min { b <= a } else { a <= b } }
pub open spec fn hi(d: u64, s: int) -> int { (d >> (s as u64)) as int }
/// among the selected records, the bits of record i above s are extreme
pub open spec fn best(ds: Seq<u64>, m: Option<Set<u32>>, off: int, s: int, min: bool, i: int) -> bool {
    0 <= i < ds.len() && sel(m, off + i) && forall|j: int| 0 <= j < ds.len() && sel(m, off + j) ==> le(min, #[trigger] hi(ds[j], s), hi(ds[i], s))
}
/// t holds the selected records whose bits above s are extreme
pub open spec fn keeps(t: Set<u32>, ds: Seq<u64>, m: Option<Set<u32>>, off: int, s: int, min: bool) -> bool {
    forall|u: u32| #[trigger] t.contains(u) <==> (off <= u < off + ds.len() && best(ds, m, off, s, min, u - off))
}
/// x is the extreme of the selected values
pub open spec fn extreme(ds: Seq<u64>, base: i64, f: int, m: Option<Set<u32>>, off: int, min: bool, x: f64) -> bool {
    exists|i: int| 0 <= i < ds.len() && sel(m, off + i) && (forall|j: int| 0 <= j < ds.len() && sel(m, off + j) ==> le(min, ds[j] as int, ds[i] as int)) && x == #[trigger] val(base + ds[i], f)
}
pub open spec fn some(t: Set<u32>) -> bool { exists|u: u32| t.contains(u) }
/// r holds those of t whose value is extreme among t
pub open spec fn picks(r: Set<u32>, t: Set<u32>, vals: Seq<int>, off: int, min: bool) -> bool {
    forall|u: u32| #[trigger] r.contains(u) <==> (t.contains(u) && forall|v: u32| #[trigger] t.contains(v) ==> le(min, vals[v - off], vals[u - off]))
}
/// after j of the listed records: mx is the extreme of theirs, next holds those that have it
pub open spec fn run(next: Set<u32>, b: Seq<u32>, j: int, t: Set<u32>, vals: Seq<int>, off: int, n: int, min: bool, mx: u8) -> bool {
    &&& lists(b, t, off, n) && within(t, off, n) && 0 <= j <= b.len() && 0 <= off && 0 <= n && off + n <= lim32()
    &&& forall|u: u32| #[trigger] next.contains(u) <==> (t.contains(u) && u < off + reach(b, j) && vals[u - off] == mx)
    &&& forall|u: u32| #[trigger] t.contains(u) && u < off + reach(b, j) ==> le(min, vals[u - off], mx as int)
    &&& j == 0 ==> mx == (if min { 255u8 } else { 0u8 })
    &&& j > 0 ==> some(next)
}
pub proof fn run_step(next0: Set<u32>, next: Set<u32>, b: Seq<u32>, j: int, t: Set<u32>, vals: Seq<int>, off: int, n: int, min: bool, mx0: u8, mx: u8)
    requires j > 0, j <= b.len(), run(next0, b, j - 1, t, vals, off, n, min, mx0), 0 <= vals[b[j - 1] as int] <= 255,
        ({ let v = vals[b[j - 1] as int]; let u = (off + b[j - 1]) as u32;
            if v == mx0 { mx == mx0 && next == next0.insert(u) } else if le(min, v, mx0 as int) { mx == mx0 && next == next0 } else { mx == v && next == Set::<u32>::empty().insert(u) } })
    ensures run(next, b, j, t, vals, off, n, min, mx)
{
    gap(b, t, off, n, j - 1);
    let i = b[j - 1] as int;
    let x = (off + i) as u32;
    assert(x == off + i && t.contains(x));
    assert forall|u: u32| #[trigger] t.contains(u) && u < off + reach(b, j) implies u < off + reach(b, j - 1) || u == x by {
        if u >= off + reach(b, j - 1) && u < off + i { assert(!sel(Some(t), off + (u - off))); }
    }
    assert(t.contains(x) && x < off + reach(b, j));
    let v = vals[i];
    if v == mx0 { assert(next.contains(x)); } else if le(min, v, mx0 as int) { if j == 1 { assert(false); } assert(some(next)); } else { assert(next.contains(x));
        assert forall|u: u32| #[trigger] next.contains(u) <==> (t.contains(u) && u < off + reach(b, j) && vals[u - off] == mx) by { if t.contains(u) && u < off + reach(b, j) && u != x { assert(le(min, vals[u - off], mx0 as int)); } }
    }
}
pub broadcast proof fn run_done(next: Set<u32>, b: Seq<u32>, j: int, t: Set<u32>, vals: Seq<int>, off: int, n: int, min: bool, mx: u8)
    requires #[trigger] run(next, b, j, t, vals, off, n, min, mx), j == b.len()
    ensures picks(next, t, vals, off, min), some(t) ==> some(next), within(next, off, n)
{
    gap(b, t, off, n, j);
    assert forall|u: u32| #[trigger] t.contains(u) implies u < off + reach(b, j) by { if u >= off + reach(b, j) { assert(!sel(Some(t), off + (u - off))); } }
    if some(t) { let u = choose|u: u32| t.contains(u); assert(u < off + reach(b, j)); }
    if j > 0 {
        let w = choose|u: u32| next.contains(u);
        assert(next.contains(w) && t.contains(w));
        assert forall|u: u32| #[trigger] next.contains(u) <==> (t.contains(u) && forall|v: u32| #[trigger] t.contains(v) ==> le(min, vals[v - off], vals[u - off])) by {
            if t.contains(u) && (forall|v: u32| #[trigger] t.contains(v) ==> le(min, vals[v - off], vals[u - off])) { assert(le(min, vals[w - off], vals[u - off])); assert(le(min, vals[u - off], mx as int)); }
        }
    }
}
/// the values refine the bits above a to those above b
pub open spec fn refines(ds: Seq<u64>, vals: Seq<int>, a: int, b: int, k: int, z: int) -> bool {
    vals.len() == ds.len() && 0 < k && forall|i: int| 0 <= i < ds.len() ==> 0 <= #[trigger] vals[i] - z < k && hi(ds[i], b) == hi(ds[i], a) * k + (vals[i] - z)
}
pub proof fn lex(x: int, y: int, u: int, v: int, k: int)
    requires 0 <= u < k, 0 <= v < k
    ensures x < y ==> x * k + u < y * k + v, x == y ==> (u <= v <==> x * k + u <= y * k + v)
{ if x < y { assert(x * k + k <= y * k) by (nonlinear_arith) requires x + 1 <= y, k > 0; } }
pub proof fn pick_step(t: Set<u32>, r: Set<u32>, ds: Seq<u64>, vals: Seq<int>, m: Option<Set<u32>>, off: int, a: int, b: int, min: bool, k: int, z: int)
    requires keeps(t, ds, m, off, a, min), some(t), picks(r, t, vals, off, min), refines(ds, vals, a, b, k, z), 0 <= off, off + ds.len() <= lim32()
    ensures keeps(r, ds, m, off, b, min)
{
    let w = choose|u: u32| t.contains(u);
    let n = ds.len() as int;
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies (#[trigger] hi(ds[i], a) < #[trigger] hi(ds[j], a) ==> hi(ds[i], b) < hi(ds[j], b)) && (hi(ds[i], a) == hi(ds[j], a) ==> (vals[i] <= vals[j] <==> hi(ds[i], b) <= hi(ds[j], b))) by {
        assert(vals[i] - z >= 0 && vals[j] - z >= 0);
        lex(hi(ds[i], a), hi(ds[j], a), vals[i] - z, vals[j] - z, k);
    }
    assert forall|u: u32| #[trigger] r.contains(u) <==> (off <= u < off + ds.len() && best(ds, m, off, b, min, u - off)) by {
        if r.contains(u) {
            let i = u - off;
            assert(t.contains(u));
            assert forall|j: int| 0 <= j < n && sel(m, off + j) implies le(min, #[trigger] hi(ds[j], b), hi(ds[i], b)) by {
                assert(le(min, hi(ds[j], a), hi(ds[i], a)));
                if hi(ds[j], a) == hi(ds[i], a) { let v = (off + j) as u32; assert(best(ds, m, off, a, min, v - off)); assert(t.contains(v)); assert(le(min, vals[v - off], vals[u - off])); }
            }
        }
        if off <= u < off + n && best(ds, m, off, b, min, u - off) {
            let i = u - off;
            assert(best(ds, m, off, a, min, i)) by {
                assert forall|j: int| 0 <= j < n && sel(m, off + j) implies le(min, #[trigger] hi(ds[j], a), hi(ds[i], a)) by { assert(le(min, hi(ds[j], b), hi(ds[i], b))); }
            }
            assert(t.contains(u));
            assert forall|v: u32| #[trigger] t.contains(v) implies le(min, vals[v - off], vals[u - off]) by {
                let j = v - off;
                assert(sel(m, off + j));
                assert(le(min, hi(ds[j], a), hi(ds[i], a)) && le(min, hi(ds[i], a), hi(ds[j], a)));
                assert(le(min, hi(ds[j], b), hi(ds[i], b)));
            }
        }
    }
}
/// the same for whatever comes out of the pass over t
pub proof fn pick_all(t: Set<u32>, ds: Seq<u64>, vals: Seq<int>, m: Option<Set<u32>>, off: int, a: int, b: int, min: bool, k: int, z: int)
    requires keeps(t, ds, m, off, a, min), some(t), refines(ds, vals, a, b, k, z), 0 <= off, off + ds.len() <= lim32()
    ensures forall|r: Set<u32>| #[trigger] picks(r, t, vals, off, min) ==> keeps(r, ds, m, off, b, min)
{ assert forall|r: Set<u32>| #[trigger] picks(r, t, vals, off, min) implies keeps(r, ds, m, off, b, min) by { pick_step(t, r, ds, vals, m, off, a, b, min, k, z); } }
pub proof fn keeps_within(t: Set<u32>, ds: Seq<u64>, m: Option<Set<u32>>, off: int, s: int, min: bool)
    requires keeps(t, ds, m, off, s, min)
    ensures within(t, off, ds.len() as int)
{ }
/// the sizes the queries need: record numbers in 32 bits, and bit offsets too
pub open spec fn q(c: Seq<u8>, ds: Seq<u64>, base: i64, w: int, f: int, off: int) -> bool { chunk(c, ds, base, w, f) && 0 <= off && off + ds.len() <= lim32() && ds.len() * 7 < lim32() }
/// before any bit is looked at all selected records are in
pub proof fn keeps_start(t: Set<u32>, ds: Seq<u64>, w: int, off: int, min: bool)
    requires within(t, off, ds.len() as int), 0 <= w < 64, forall|i: int| 0 <= i < ds.len() ==> wide(#[trigger] ds[i], w)
    ensures keeps(t, ds, Some(t), off, w, min)
{
    assert forall|i: int| 0 <= i < ds.len() implies #[trigger] hi(ds[i], w) == 0 by { assert(wide(ds[i], w)); }
}
pub proof fn best_is(ds: Seq<u64>, base: i64, f: int, m: Option<Set<u32>>, off: int, min: bool)
    ensures forall|i: int| #[trigger] best(ds, m, off, 0, min, i) ==> extreme(ds, base, f, m, off, min, val(base + ds[i], f))
{
    words();
    assert forall|i: int| #[trigger] best(ds, m, off, 0, min, i) implies extreme(ds, base, f, m, off, min, val(base + ds[i], f)) by {
        assert forall|j: int| 0 <= j < ds.len() && sel(m, off + j) implies le(min, ds[j] as int, ds[i] as int) by { assert(le(min, hi(ds[j], 0), hi(ds[i], 0))); }
    }
}
/// deltas of no bits are all zero
pub proof fn none_is(t: Set<u32>, ds: Seq<u64>, base: i64, w: int, f: int, off: int, min: bool)
    requires within(t, off, ds.len() as int), some(t), forall|i: int| 0 <= i < ds.len() ==> wide(#[trigger] ds[i], w)
    ensures w == 0 ==> extreme(ds, base, f, Some(t), off, min, val(base as int, f))
{
    if w == 0 {
        words();
        let u = choose|u: u32| t.contains(u); let i = u - off;
        assert forall|j: int| 0 <= j < ds.len() implies #[trigger] ds[j] == 0 by { assert(wide(ds[j], 0)); }
        assert(val(base + ds[i], f) == val(base as int, f));
        assert(sel(Some(t), off + i));
    }
}
pub open spec fn upto(n: int) -> Seq<u32> { Seq::new(n as nat, |i: int| i as u32) }
/// the numbers of all n records from off
pub open spec fn full(off: int, n: int) -> Set<u32> { Seq::new(n as nat, |i: int| (off + i) as u32).to_set() }
pub proof fn full_is(off: int, n: int)
    requires 0 <= off, 0 <= n, off + n <= lim32()
    ensures forall|u: u32| #[trigger] full(off, n).contains(u) <==> off <= u < off + n, lists(upto(n), full(off, n), off, n), within(full(off, n), off, n)
{
    let s = Seq::new(n as nat, |i: int| (off + i) as u32);
    assert forall|u: u32| #[trigger] full(off, n).contains(u) <==> off <= u < off + n by { if off <= u < off + n { assert(s[u - off] == u); assert(s.contains(u)); } if s.contains(u) { let i = choose|i: int| 0 <= i < s.len() && s[i] == u; } }
    assert forall|k: int| 0 <= k < n implies #[trigger] upto(n).contains(k as u32) by { assert(upto(n)[k] == k as u32); }
}
pub proof fn all_start(ds: Seq<u64>, w: int, off: int, min: bool)
    requires 0 <= off, off + ds.len() <= lim32(), 0 <= w < 64, forall|i: int| 0 <= i < ds.len() ==> wide(#[trigger] ds[i], w)
    ensures keeps(full(off, ds.len() as int), ds, None, off, w, min)
{
    full_is(off, ds.len() as int);
    assert forall|i: int| 0 <= i < ds.len() implies #[trigger] hi(ds[i], w) == 0 by { assert(wide(ds[i], w)); }
}
pub proof fn all_is(ds: Seq<u64>, base: i64, w: int, f: int, off: int, min: bool)
    requires 0 <= off, off + ds.len() <= lim32(), ds.len() > 0, forall|i: int| 0 <= i < ds.len() ==> wide(#[trigger] ds[i], w)
    ensures w == 0 ==> extreme(ds, base, f, None, off, min, val(base as int, f))
{
    if w == 0 {
        words();
        assert forall|j: int| 0 <= j < ds.len() implies #[trigger] ds[j] == 0 by { assert(wide(ds[j], 0)); }
        assert(val(base + ds[0], f) == val(base as int, f));
    }
}
pub proof fn run_below(next: Set<u32>, b: Seq<u32>, j: int, t: Set<u32>, vals: Seq<int>, off: int, n: int, min: bool, mx: u8)
    requires run(next, b, j, t, vals, off, n, min, mx), j < b.len()
    ensures forall|u: u32| #[trigger] next.contains(u) ==> u < off + b[j]
{ gap(b, t, off, n, j); }
pub proof fn hi_next(d: u64, s: int)
    requires 0 <= s <= 55
    ensures hi(d, s) == hi(d, s + 8) * 256 + ((d >> (s as u64)) as u8), ((d >> ((s + 8) as u64)) << 8) | (((d >> (s as u64)) as u8) as u64) == d >> (s as u64)
{
    let y = s as u64; let z = (s + 8) as u64;
    assert(((d >> z) << 8) | (((d >> y) as u8) as u64) == d >> y && (d >> y) / 256 == d >> z && (d >> y) % 256 == ((d >> y) as u8) as u64) by (bit_vector) requires z == add(y, 8), y <= 55;
}
pub proof fn col_refines(s: Seq<u8>, ds: Seq<u64>, sh: int)
    requires colval(s, ds, sh), 0 <= sh <= 55
    ensures refines(ds, unflipped(s), sh + 8, sh, 256, 0)
{
    let vals = unflipped(s);
    assert forall|i: int| 0 <= i < ds.len() implies 0 <= #[trigger] vals[i] - 0 < 256 && hi(ds[i], sh) == hi(ds[i], sh + 8) * 256 + (vals[i] - 0) by { hi_next(ds[i], sh); assert(flip_s(s[i]) == (ds[i] >> (sh as u64)) as u8); }
}
/// the tail bits, flipped as bytes
pub open spec fn fpacks(c: Seq<u8>, p: int, l: int, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| flip_s(lval(c, p + i * l, l) as u8) as int) }
pub proof fn tail_refines(c: Seq<u8>, ds: Seq<u64>, base: i64, w: int, f: int, z: int)
    requires chunk(c, ds, base, w, f), z == 0 || z == 128
    ensures refines(ds, if z == 0 { packs(c, tail_at(ds.len() as int, w), w % 8, ds.len() as int) } else { fpacks(c, tail_at(ds.len() as int, w), w % 8, ds.len() as int) }, w % 8, 0, p2(w % 8), z)
{
    let n = ds.len() as int; let t = tail_at(n, w); let r = w % 8;
    let vals = if z == 0 { packs(c, t, r, n) } else { fpacks(c, t, r, n) };
    vstd::arithmetic::power2::lemma_pow2_pos(r as nat);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] vals[i] - z < p2(r) && hi(ds[i], 0) == hi(ds[i], r) * p2(r) + (vals[i] - z) by {
        layout(c, ds, base, w, f); words();
        tail_has(c, ds, base, w, f, i);
        let v = lval(c, t + i * r, r); let d = ds[i]; let y = r as u64; let x = v as u8;
        assert(x ^ 0x80u8 == add(x, 128u8)) by (bit_vector) requires x < 128;
        vstd::arithmetic::power2::lemma2_to64();
        assert(1u64 * p2(r) == p2(r));
        if r == 0 { } else if r == 1 { } else if r == 2 { } else if r == 3 { } else if r == 4 { } else if r == 5 { } else if r == 6 { } else { }
        assert(p2(r) <= 128);
        vstd::bits::lemma_u64_shl_is_mul(1u64, y);
        vstd::bits::lemma_u64_shr_is_div(d, y);
        let k = p2(r);
        assert(d == (d as int / k) * k + d as int % k) by (nonlinear_arith) requires k > 0;
    }
}
/// the bits of a chunk without its header
pub proof fn sub_lval(c: Seq<u8>, p: int, n: int)
    requires 160 <= p, 0 <= n, p + n <= 8 * c.len()
    ensures forall|v: u32| #[trigger] is_lvalue(c.subrange(20, c.len() as int), p - 160, n, v) ==> is_lvalue(c, p, n, v)
{
    let s = c.subrange(20, c.len() as int);
    assert forall|v: u32| #[trigger] is_lvalue(s, p - 160, n, v) implies is_lvalue(c, p, n, v) by {
        assert forall|i: int| 0 <= i < 32 implies #[trigger] l32(v, i) == (i < n && lbit(c, p + i)) by {
            assert(l32(v, i) == (i < n && lbit(s, p - 160 + i)));
            if i < n { let g = p - 160 + i; assert((p + i) / 8 == g / 8 + 20 && (p + i) % 8 == g % 8); assert(s[g / 8] == c[g / 8 + 20]); }
        }
    }
}
/// the bits after record a fit a 32 bit count
pub open spec fn rest(a: int, n: int, r: int) -> bool { 0 <= (n - a) * r < lim32() && a * r + (n - a) * r == n * r }
pub proof fn rest_is(a: int, n: int, r: int)
    requires 0 <= a <= n, n * 7 < lim32(), 0 <= r < 8
    ensures rest(a, n, r)
{ assert(0 <= (n - a) * r <= n * 7 && a * r + (n - a) * r == n * r) by (nonlinear_arith) requires 0 <= a <= n, 0 <= r < 8; }
pub proof fn skip_fits(a: int, i: int, n: int, r: int)
    requires 0 <= a <= i < n, n * 7 < lim32(), 0 < r < 8
    ensures 0 <= (i - a) * r < lim32(), a * r + (i - a) * r == i * r
{
    assert(0 <= (i - a) * r <= n * 7 && a * r + (i - a) * r == i * r) by (nonlinear_arith) requires 0 <= a <= i < n, 0 < r < 8;
}
} // mod bq
pub mod bx {
use super::*;
use super::lb::*;
use super::bp::*;
use super::fx::*;
use super::bl::*;
use super::mk::*;
use super::bq::*;
use super::decoder::DecoderError;
use std::mem;
broadcast use {super::tm_u64_i64, super::bq::run_done, BitPack::reader_of, BitPack::reader_ok};
//@item ebi/src/decoder/chunk_reader/buff/min_max.rs :: fn find_max_subcolumn
//@rewritere roaring::RoaringBitmap => RoaringBitmap
//@rewritere (\w+)\.iter\(\)\.map\(\|(\w+)\| \2 - logical_offset\) => shifted(\1, logical_offset)
//@fn find_max_subcolumn ret=r
    requires logical_offset + chunk@.len() <= lim32(), within(to_check@, logical_offset as int, chunk@.len() as int)
    ensures r is Ok, picks(r->Ok_0@, to_check@, unflipped(chunk@), logical_offset as int, IS_MIN), some(to_check@) ==> some(r->Ok_0@), within(r->Ok_0@, logical_offset as int, chunk@.len() as int)
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost off = logical_offset as int;
    let ghost n = chunk@.len() as int;
    let ghost vals = unflipped(chunk@);
//@loop 1 ixs
    invariant vx_1 <= vx_1_s@.len(), run(next_to_check@, vx_1_s@, vx_1 as int, to_check@, vals, off, n, IS_MIN, max_subcolumn)
    decreases vx_1_s@.len() - vx_1
//@loopstart 1
    proof { gap(vx_1_s@, to_check@, off, n, vx_1 - 1); }
    let ghost next0 = next_to_check@; let ghost mx0 = max_subcolumn;
//@loopend 1
    proof { run_step(next0, next_to_check@, vx_1_s@, vx_1 as int, to_check@, vals, off, n, IS_MIN, mx0, max_subcolumn); }
//@enditem
//@item ebi/src/decoder/chunk_reader/buff/min_max.rs :: fn max_with_bitmask
//@rewritere roaring::RoaringBitmap => RoaringBitmap
//@rewritere 2\.0f64\.powi\((\w+) as i32\) => pow2f(\1 as i32)
//@rewritere base_fixed64 as f64 / scale => unfix(base_fixed64, scale)
//@rewritere fixed_value as f64 / scale => unfix(fixed_value, scale)
//@rewritere (\w+)\.iter\(\)\.map\(\|(\w+)\| \2 - logical_offset\) => shifted(&\1, logical_offset)
//@rewritere (\w+)\.iter\(\)\.next\(\) => bm_first(&\1)
//@rewritere \.map_err\(\|_\| DecoderError::UnexpectedEndOfChunk\) => .or_end()
//@fn max_with_bitmask ret=r
    requires valid(bytes@), q(bytes@, content(bytes@).0, content(bytes@).1, content(bytes@).2, content(bytes@).3, logical_offset as int),
        within(bitmask@, logical_offset as int, content(bytes@).0.len() as int), some(bitmask@)
    ensures r is Ok, extreme(content(bytes@).0, content(bytes@).1, content(bytes@).3, Some(bitmask@), logical_offset as int, IS_MIN, r->Ok_0)
//@start
    let ghost c = bytes@;
    let ghost (ds, base, w, f) = content(c);
    let ghost n = ds.len() as int;
    let ghost off = logical_offset as int;
    let ghost m = Some(bitmask@);
    let ghost r8 = w % 8;
    let ghost vals = fpacks(c, tail_at(n, w), r8, n);
    let ghost c20 = c.subrange(20, c.len() as int);
    proof { content_is(c); words(); layout(c, ds, base, w, f); keeps_start(bitmask@, ds, w, off, IS_MIN); best_is(ds, base, f, m, off, IS_MIN); none_is(bitmask@, ds, base, w, f, off, IS_MIN); }
//@loop 1
    invariant_except_break remaining_bits_length <= w, (w - remaining_bits_length) % 8 == 0, keeps(to_check@, ds, m, off, remaining_bits_length as int, IS_MIN), some(to_check@), within(to_check@, off, n),
        bitpack.rok(), bitpack.rd() == c, bitpack.al(), bitpack.p() == at(n, w, remaining_bits_length as int)
    invariant q(c, ds, base, w, f, off), bytes@ == c, n == ds.len(), number_of_records == n, off == logical_offset, r8 == w % 8, vals == fpacks(c, tail_at(n, w), r8, n), within(m->0, off, n), m is Some
    ensures keeps(to_check@, ds, m, off, 0, IS_MIN), some(to_check@), within(to_check@, off, n)
    decreases remaining_bits_length
//@loopstart 1
    let ghost t0 = to_check@; let ghost rem0 = remaining_bits_length as int;
    proof { layout(c, ds, base, w, f); keeps_within(t0, ds, m, off, rem0, IS_MIN);
        if rem0 >= 8 { col_read(c, ds, base, w, f, rem0); col_refines(c.subrange(at(n, w, rem0) / 8, at(n, w, rem0) / 8 + n), ds, rem0 - 8); pick_all(t0, ds, unflipped(c.subrange(at(n, w, rem0) / 8, at(n, w, rem0) / 8 + n)), m, off, rem0, rem0 - 8, IS_MIN, 256, 0); }
        else { tail_refines(c, ds, base, w, f, 128); pick_all(t0, ds, vals, m, off, rem0, 0, IS_MIN, p2(r8), 128); }
    }
//@loop 2 ixs
    invariant q(c, ds, base, w, f, off), n == ds.len(), off == logical_offset, r8 == w % 8, 0 < remaining_bits_length == r8, vals == fpacks(c, tail_at(n, w), r8, n), t0 == to_check@,
        vx_2 <= vx_2_s@.len(), run(next_to_check@, vx_2_s@, vx_2 as int, to_check@, vals, off, n, IS_MIN, max_subcolumn),
        bitpack.rok(), bitpack.rd() == c, bitpack.p() == tail_at(n, w) + reach(vx_2_s@, vx_2 as int) * r8, expected_record_index_if_sequential == reach(vx_2_s@, vx_2 as int)
    decreases vx_2_s@.len() - vx_2
//@loopstart 2
    proof { gap(vx_2_s@, to_check@, off, n, vx_2 - 1); layout(c, ds, base, w, f); let a = reach(vx_2_s@, vx_2 - 1);
        skip_fits(a, i as int, n, r8); tail_has(c, ds, base, w, f, i as int); lval_is(c, tail_at(n, w) + i * r8, r8);
        assert((i + 1) * r8 == i * r8 + r8 && (i + 1) * r8 <= n * r8) by (nonlinear_arith) requires 0 <= i < n, 0 <= r8; }
    let ghost next0 = next_to_check@; let ghost mx0 = max_subcolumn;
//@loopend 2
    proof { run_step(next0, next_to_check@, vx_2_s@, vx_2 as int, to_check@, vals, off, n, IS_MIN, mx0, max_subcolumn); }
//@loop 3
    invariant_except_break remaining_bits_length <= w, (w - remaining_bits_length) % 8 == 0, bitpack.rok(), bitpack.rd() == c20, bitpack.al(), bitpack.p() == at(n, w, remaining_bits_length as int) - 160, delta_fixed_value == ds[max_value_index as int] >> (remaining_bits_length as u64)
    invariant q(c, ds, base, w, f, off), bytes@ == c, n == ds.len(), number_of_records == n, 0 <= max_value_index < n, c20 == c.subrange(20, c.len() as int), forall|d: u64| #[trigger] (d >> 0u64) == d
    ensures delta_fixed_value == ds[max_value_index as int]
    decreases remaining_bits_length
//@loopstart 3
    proof {
        let rem = remaining_bits_length as int; let i = max_value_index as int; let d = ds[i];
        layout(c, ds, base, w, f); words();
        if rem >= 8 { col_read(c, ds, base, w, f, rem); let pp = at(n, w, rem) / 8; assert(c20[pp - 20 + i] == c[pp + i]); assert(flip_s(c[pp + i]) == (ds[i] >> ((rem - 8) as u64)) as u8); hi_next(d, rem - 8); }
        else { tail_has(c, ds, base, w, f, i); tail_val(c, ds, base, w, f, i); let p = tail_at(n, w) + i * rem; let p2 = bitpack.p() + i * rem; assert(p2 == p - 160); assert(rem == w % 8); sub_lval(c, p, rem); lval_is(c, p, rem);
            assert(0 <= i * rem < 8 * lim32()) by (nonlinear_arith) requires 0 <= i < lim32(), 0 < rem < 8;
            let y = remaining_bits_length as u64;
            assert(delta_fixed_value << remaining_bits_length == (d >> y) << y) by (bit_vector) requires delta_fixed_value == d >> y, y == remaining_bits_length as u64, remaining_bits_length < 8; }
    }
//@enditem
//@item ebi/src/decoder/chunk_reader/buff/min_max.rs :: fn max_without_bitmask
//@rewritere roaring::RoaringBitmap => RoaringBitmap
//@rewritere 2\.0f64\.powi\((\w+) as i32\) => pow2f(\1 as i32)
//@rewritere base_fixed64 as f64 / scale => unfix(base_fixed64, scale)
//@rewritere fixed_value as f64 / scale => unfix(fixed_value, scale)
//@rewritere (\w+)\.iter\(\)\.map\(\|(\w+)\| \2 - logical_offset\) => shifted(&\1, logical_offset)
//@rewritere (\w+)\.iter\(\)\.next\(\) => bm_first(&\1)
//@rewritere \.map_err\(\|_\| DecoderError::UnexpectedEndOfChunk\) => .or_end()
//@fn max_without_bitmask ret=r
    requires valid(bytes@), q(bytes@, content(bytes@).0, content(bytes@).1, content(bytes@).2, content(bytes@).3, logical_offset as int), content(bytes@).0.len() > 0
    ensures r is Ok, extreme(content(bytes@).0, content(bytes@).1, content(bytes@).3, None, logical_offset as int, false, r->Ok_0)
//@start
    let ghost c = bytes@;
    let ghost (ds, base, w, f) = content(c);
    let ghost n = ds.len() as int;
    let ghost off = logical_offset as int;
    let ghost m = None::<Set<u32>>;
    let ghost r8 = w % 8;
    let ghost vals = packs(c, tail_at(n, w), r8, n);
    let ghost all = full(off, n);
    let ghost idx = upto(n);
    let ghost c20 = c.subrange(20, c.len() as int);
    proof { content_is(c); words(); layout(c, ds, base, w, f); full_is(off, n); all_start(ds, w, off, false); best_is(ds, base, f, m, off, false); all_is(ds, base, w, f, off, false); assert(all.contains(off as u32));
        if w >= 8 { col_read(c, ds, base, w, f, w); col_refines(c.subrange(20, 20 + n), ds, w - 8); pick_all(all, ds, unflipped(c.subrange(20, 20 + n)), m, off, w, w - 8, false, 256, 0); }
        else { tail_refines(c, ds, base, w, f, 0); pick_all(all, ds, vals, m, off, w, 0, false, p2(r8), 0); }
    }
//@loop 1
    invariant vx_1 <= n, n == ds.len(), q(c, ds, base, w, f, off), off == logical_offset, subcolumn_chunks@ == c.subrange(20, 20 + n), 20 + n <= c.len(), idx == upto(n), all == full(off, n),
        run(to_check@, idx, vx_1 as int, all, unflipped(subcolumn_chunks@), off, n, false, max_subcolumn)
    decreases n - vx_1
//@loopstart 1
    let ghost next0 = to_check@; let ghost mx0 = max_subcolumn;
    proof { full_is(off, n); run_below(next0, idx, vx_1 - 1, all, unflipped(subcolumn_chunks@), off, n, false, mx0); }
//@loopend 1
    proof { run_step(next0, to_check@, idx, vx_1 as int, all, unflipped(subcolumn_chunks@), off, n, false, mx0, max_subcolumn); }
//@loop 2 ix
    invariant vx_2 <= n, vx_2_e == n, n == ds.len(), q(c, ds, base, w, f, off), off == logical_offset, r8 == w % 8, 0 < remaining_bits_length == r8, w < 8, vals == packs(c, tail_at(n, w), r8, n), idx == upto(n), all == full(off, n),
        bitpack.rok(), bitpack.rd() == c, bitpack.p() == tail_at(n, w) + vx_2 * r8, run(to_check@, idx, vx_2 as int, all, vals, off, n, false, max_subcolumn)
    decreases n - vx_2
//@loopstart 2
    let ghost next0 = to_check@; let ghost mx0 = max_subcolumn;
    proof { full_is(off, n); layout(c, ds, base, w, f); tail_has(c, ds, base, w, f, i as int); tail_val(c, ds, base, w, f, i as int); lval_is(c, tail_at(n, w) + i * r8, r8); }
//@loopend 2
    proof { run_step(next0, to_check@, idx, vx_2 as int, all, vals, off, n, false, mx0, max_subcolumn); }
//@loop 3
    invariant_except_break remaining_bits_length <= w, remaining_bits_length > 0 ==> (w - remaining_bits_length) % 8 == 0, keeps(to_check@, ds, m, off, remaining_bits_length as int, false), some(to_check@), within(to_check@, off, n),
        remaining_bits_length > 0 ==> bitpack.rok() && bitpack.rd() == c && bitpack.al() && bitpack.p() == at(n, w, remaining_bits_length as int)
    invariant q(c, ds, base, w, f, off), bytes@ == c, n == ds.len(), number_of_records == n, off == logical_offset, r8 == w % 8, vals == packs(c, tail_at(n, w), r8, n), m is None
    ensures keeps(to_check@, ds, m, off, 0, false), some(to_check@), within(to_check@, off, n)
    decreases remaining_bits_length
//@loopstart 3
    let ghost t0 = to_check@; let ghost rem0 = remaining_bits_length as int;
    proof { layout(c, ds, base, w, f); keeps_within(t0, ds, m, off, rem0, false);
        if rem0 >= 8 { col_read(c, ds, base, w, f, rem0); col_refines(c.subrange(at(n, w, rem0) / 8, at(n, w, rem0) / 8 + n), ds, rem0 - 8); pick_all(t0, ds, unflipped(c.subrange(at(n, w, rem0) / 8, at(n, w, rem0) / 8 + n)), m, off, rem0, rem0 - 8, false, 256, 0); }
        else { tail_refines(c, ds, base, w, f, 0); pick_all(t0, ds, vals, m, off, rem0, 0, false, p2(r8), 0); }
    }
//@loop 4 ixs
    invariant q(c, ds, base, w, f, off), n == ds.len(), off == logical_offset, r8 == w % 8, 0 < remaining_bits_length == r8, vals == packs(c, tail_at(n, w), r8, n), t0 == to_check@,
        vx_4 <= vx_4_s@.len(), run(next_to_check@, vx_4_s@, vx_4 as int, to_check@, vals, off, n, false, max_subcolumn),
        bitpack.rok(), bitpack.rd() == c, bitpack.p() == tail_at(n, w) + reach(vx_4_s@, vx_4 as int) * r8, expected_record_index_if_sequential == reach(vx_4_s@, vx_4 as int)
    decreases vx_4_s@.len() - vx_4
//@loopstart 4
    proof { gap(vx_4_s@, to_check@, off, n, vx_4 - 1); layout(c, ds, base, w, f); let a = reach(vx_4_s@, vx_4 - 1);
        skip_fits(a, i as int, n, r8); tail_has(c, ds, base, w, f, i as int); lval_is(c, tail_at(n, w) + i * r8, r8);
        assert((i + 1) * r8 == i * r8 + r8 && (i + 1) * r8 <= n * r8) by (nonlinear_arith) requires 0 <= i < n, 0 <= r8; }
    let ghost next0 = next_to_check@; let ghost mx0 = max_subcolumn;
//@loopend 4
    proof { run_step(next0, next_to_check@, vx_4_s@, vx_4 as int, to_check@, vals, off, n, false, mx0, max_subcolumn); }
//@loop 5
    invariant_except_break remaining_bits_length <= w, (w - remaining_bits_length) % 8 == 0, bitpack.rok(), bitpack.rd() == c20, bitpack.al(), bitpack.p() == at(n, w, remaining_bits_length as int) - 160, delta_fixed_value == ds[max_value_index as int] >> (remaining_bits_length as u64)
    invariant q(c, ds, base, w, f, off), bytes@ == c, n == ds.len(), number_of_records == n, 0 <= max_value_index < n, c20 == c.subrange(20, c.len() as int), forall|d: u64| #[trigger] (d >> 0u64) == d
    ensures delta_fixed_value == ds[max_value_index as int]
    decreases remaining_bits_length
//@loopstart 5
    proof {
        let rem = remaining_bits_length as int; let i = max_value_index as int; let d = ds[i];
        layout(c, ds, base, w, f); words();
        if rem >= 8 { col_read(c, ds, base, w, f, rem); let pp = at(n, w, rem) / 8; assert(c20[pp - 20 + i] == c[pp + i]); assert(flip_s(c[pp + i]) == (ds[i] >> ((rem - 8) as u64)) as u8); hi_next(d, rem - 8); }
        else { tail_has(c, ds, base, w, f, i); tail_val(c, ds, base, w, f, i); let p = tail_at(n, w) + i * rem; let p2 = bitpack.p() + i * rem; assert(p2 == p - 160); assert(rem == w % 8); sub_lval(c, p, rem); lval_is(c, p, rem);
            assert(0 <= i * rem < 8 * lim32()) by (nonlinear_arith) requires 0 <= i < lim32(), 0 < rem < 8;
            let y = remaining_bits_length as u64;
            assert(delta_fixed_value << remaining_bits_length == (d >> y) << y) by (bit_vector) requires delta_fixed_value == d >> y, y == remaining_bits_length as u64, remaining_bits_length < 8; }
    }
//@enditem
//@item ebi/src/decoder/chunk_reader/buff/min_max.rs :: fn min_without_bitmask
//@rewritere roaring::RoaringBitmap => RoaringBitmap
//@rewritere 2\.0f64\.powi\((\w+) as i32\) => pow2f(\1 as i32)
//@rewritere base_fixed64 as f64 / scale => unfix(base_fixed64, scale)
//@rewritere fixed_value as f64 / scale => unfix(fixed_value, scale)
//@rewritere (\w+)\.iter\(\)\.map\(\|(\w+)\| \2 - logical_offset\) => shifted(&\1, logical_offset)
//@rewritere (\w+)\.iter\(\)\.next\(\) => bm_first(&\1)
//@rewritere \.map_err\(\|_\| DecoderError::UnexpectedEndOfChunk\) => .or_end()
//@fn min_without_bitmask ret=r
    requires valid(bytes@), tight(content(bytes@).0), content(bytes@).0.len() > 0
    ensures r is Ok, forall|off: int| #[trigger] extreme(content(bytes@).0, content(bytes@).1, content(bytes@).3, None, off, true, r->Ok_0)
//@start
    let ghost c = bytes@;
    let ghost (ds, base, w, f) = content(c);
    proof { content_is(c); words(); layout(c, ds, base, w, f);
        let i = choose|i: int| 0 <= i < ds.len() && ds[i] == 0;
        assert forall|off: int| #[trigger] extreme(ds, base, f, None, off, true, val(base as int, f)) by { assert(val(base + ds[i], f) == val(base as int, f)); } }
//@enditem
} // mod bx
pub broadcast axiom fn tm_u8_i8(s: u8) ensures #[trigger] tm::<u8, i8>(s) == s as i8;
// The vector instructions the filters use, and the bitmap built from their masks (assumed of the hardware and of the roaring crate).
pub mod vi {
use super::*;
use super::lb::*;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct V256 { x: u64 }
impl View for V256 { type V = Seq<i8>; uninterp spec fn view(&self) -> Seq<i8>; }
#[verifier::external_body]
pub fn _mm256_set1_epi8(x: i8) -> (r: V256) ensures r@ == Seq::new(32, |i: int| x) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_cmpeq_epi8(a: V256, b: V256) -> (r: V256) ensures r@ == Seq::new(32, |i: int| if a@[i] == b@[i] { -1i8 } else { 0i8 }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_cmpgt_epi8(a: V256, b: V256) -> (r: V256) ensures r@ == Seq::new(32, |i: int| if a@[i] > b@[i] { -1i8 } else { 0i8 }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_movemask_epi8(a: V256) -> (r: i32) ensures forall|i: int| 0 <= i < 32 ==> #[trigger] l32(r as u32, i) == (a@[i] < 0) { unimplemented!() }
/// x.chunks_exact(32).map(|chunk| _mm256_lddqu_si256(chunk)): the words of x
#[verifier::external_body]
pub fn simd_words(x: &[u8]) -> (r: Vec<V256>) ensures r@.len() == x@.len() / 32, forall|k: int, i: int| 0 <= k < r@.len() && 0 <= i < 32 ==> #[trigger] r@[k]@[i] == x@[32 * k + i] as i8 { unimplemented!() }
/// bit u of the words
pub open spec fn wbit(ws: Seq<u32>, u: int) -> bool { l32(ws[u / 32], u % 32) }
/// RoaringBitmap::from_lsb0_bytes over the bytes of the words, least significant bit first
#[verifier::external_body]
pub fn bm_words(off: u32, ws: &Vec<u32>) -> (r: RoaringBitmap)
    requires off % 8 == 0, off + 32 * ws@.len() <= lim32()
    ensures forall|u: u32| #[trigger] r@.contains(u) <==> (off <= u < off + 32 * ws@.len() && wbit(ws@, u - off)) { unimplemented!() }
#[verifier::external_body]
pub fn empty_u8() -> (r: &'static [u8]) ensures r@.len() == 0 { &[] }
pub proof fn and_not(a: i32, b: i32)
    ensures forall|i: int| 0 <= i < 32 ==> #[trigger] l32((a & (!b)) as u32, i) == (l32(a as u32, i) && !l32(b as u32, i))
{
    assert forall|i: int| 0 <= i < 32 implies #[trigger] l32((a & (!b)) as u32, i) == (l32(a as u32, i) && !l32(b as u32, i)) by {
        let s = i as u32; let (x, y) = (a as u32, b as u32);
        assert((a & (!b)) as u32 == x & !y) by (bit_vector) requires x == a as u32, y == b as u32;
        assert((((x & !y) >> s) & 1u32 == 1u32) == (((x >> s) & 1u32 == 1u32) && !((y >> s) & 1u32 == 1u32))) by (bit_vector);
    }
}
} // mod vi
pub mod bf {
use super::*;
use super::lb::*;
use super::bp::*;
use super::fx::*;
use super::bl::*;
use super::mk::*;
use super::bq::*;
use super::vi::*;
use std::mem;
broadcast use {super::tm_u64_i64, super::tm_u8_i8, BitPack::reader_of, BitPack::reader_ok};
pub proof fn round8(x: usize)
    requires x < 0x1_0000_0000
    ensures x <= ((x + 7) as usize & !7usize) < x + 8, ((x + 7) as usize & !7usize) % 8 == 0
{
    let y = x as u64; let z = (x + 7) as usize;
    assert(y <= ((add(y, 7)) & !7u64) && sub(add(y, 7), (add(y, 7)) & !7u64) < 8 && ((add(y, 7)) & !7u64) <= add(y, 7) && ((add(y, 7)) & !7u64) % 8 == 0) by (bit_vector) requires y < 0x1_0000_0000;
    assert((z & !7usize) as u64 == ((z as u64) & !7u64)) by (bit_vector);
}
//@item ebi/src/decoder/chunk_reader/buff/filter.rs :: fn split_for_simd_processing
//@rewritere &\[\] => empty_u8()
//@fn split_for_simd_processing ret=r
    requires logical_offset + chunk@.len() < lim32()
    ensures r.0@.len() + r.1@.len() + r.2@.len() == chunk@.len(), r.1@.len() % 32 == 0, r.1@.len() > 0 ==> (logical_offset + r.0@.len()) % 8 == 0,
        forall|i: int| 0 <= i < r.0@.len() ==> #[trigger] r.0@[i] == chunk@[i],
        forall|i: int| 0 <= i < r.1@.len() ==> #[trigger] r.1@[i] == chunk@[r.0@.len() + i],
        forall|i: int| 0 <= i < r.2@.len() ==> #[trigger] r.2@[i] == chunk@[r.0@.len() + r.1@.len() + i],
//@start
    proof { round8(logical_offset as usize); }
//@enditem
/// the records of a column (from off) whose byte equals p
pub open spec fn eqs(s: Seq<u8>, off: int, p: u8, u: u32) -> bool { off <= u < off + s.len() && flip_s(s[u - off]) == p }
pub open spec fn eqset(r: Set<u32>, s: Seq<u8>, off: int, p: u8) -> bool { forall|u: u32| #[trigger] r.contains(u) <==> eqs(s, off, p, u) }
//@item ebi/src/decoder/chunk_reader/buff/filter_eq.rs :: fn buff_simd256_equal_filter_subcolumn_without_bitmask_nonsimd
//@fn buff_simd256_equal_filter_subcolumn_without_bitmask_nonsimd ret=r
    requires logical_offset + chunk@.len() < lim32()
    ensures forall|u: u32| #[trigger] r@.contains(u) <==> eqs(chunk@, logical_offset as int, delta_fixed_pred_subcolumn, u)
//@loop 1 ix
    invariant vx_1 <= chunk@.len(), logical_offset + chunk@.len() < lim32(), forall|u: u32| #[trigger] bitmask@.contains(u) <==> (u < logical_offset + vx_1 && eqs(chunk@, logical_offset as int, delta_fixed_pred_subcolumn, u))
    decreases chunk@.len() - vx_1
//@enditem
//@item ebi/src/decoder/chunk_reader/buff/filter_eq.rs :: mod simd_x86_64 :: fn equal_simd
//@rewritere pub unsafe fn => pub fn
//@rewritere std::mem::transmute::<u8, i8>\((flip\(\w+\))\) => unsafe { mem::transmute::<u8, i8>(\1) }
//@rewritere (?s)debug_assert_eq!\(\s*([^,]*),\s*0[^;]*; => assert(\1 == 0);
//@rewritere VECTOR_SIZE => 32
//@rewritere (?s)(\w+)\s*\.chunks_exact\(32\)\s*\.map\(\|chunk\| _mm256_lddqu_si256\(chunk\.as_ptr\(\)\.cast::<__m256i>\(\)\)\) => simd_words(\1)
//@rewritere (?s)RoaringBitmap::from_lsb0_bytes\((\w+), unsafe \{\s*std::slice::from_raw_parts\(\s*(\w+)\.as_ptr\(\)\.cast::<u8>\(\),\s*size_of_val\(\2\.as_slice\(\)\),\s*\)\s*\}\) => bm_words(\1, &\2)
//@fn equal_simd ret=r
    requires x@.len() % 32 == 0, x@.len() > 0 ==> logical_offset % 8 == 0, logical_offset + x@.len() < lim32()
    ensures forall|u: u32| #[trigger] r@.contains(u) <==> eqs(x@, logical_offset as int, pred, u)
//@attr
    #[verifier::loop_isolation(false)]
//@start
    proof { flip_inj(); }
//@loop 1 ixs
    invariant vx_1 <= vx_1_s@.len(), bitmasks@.len() == vx_1, forall|u: int| 0 <= u < 32 * vx_1 ==> #[trigger] wbit(bitmasks@, u) == (flip_s(x@[u]) == pred)
    decreases vx_1_s@.len() - vx_1
//@loopstart 1
    let ghost b0 = bitmasks@;
//@loopend 1
    proof {
        assert forall|u: int| 0 <= u < 32 * vx_1 implies #[trigger] wbit(bitmasks@, u) == (flip_s(x@[u]) == pred) by {
            if u < 32 * (vx_1 - 1) { assert(bitmasks@[u / 32] == b0[u / 32]); assert(wbit(b0, u) == (flip_s(x@[u]) == pred)); }
            else { let i = u - 32 * (vx_1 - 1); assert(u / 32 == vx_1 - 1 && u % 32 == i); assert(x@[32 * (vx_1 - 1) + i] as i8 == word@[i]); }
        }
    }
//@enditem
pub proof fn flip_inj()
    ensures forall|a: u8, b: u8| #[trigger] (a as i8) == #[trigger] ((b ^ 0x80u8) as i8) <==> flip_s(a) == b,
        forall|a: u8, b: u8| #[trigger] (a as i8) > #[trigger] ((b ^ 0x80u8) as i8) <==> flip_s(a) > b,
{
    assert forall|a: u8, b: u8| #[trigger] (a as i8) == #[trigger] ((b ^ 0x80u8) as i8) <==> flip_s(a) == b by { assert((a as i8) == ((b ^ 0x80u8) as i8) <==> a ^ 0x80u8 == b) by (bit_vector); }
    assert forall|a: u8, b: u8| #[trigger] (a as i8) > #[trigger] ((b ^ 0x80u8) as i8) <==> flip_s(a) > b by { assert((a as i8) > ((b ^ 0x80u8) as i8) <==> a ^ 0x80u8 > b) by (bit_vector); }
}
//@item ebi/src/decoder/chunk_reader/buff/filter_eq.rs :: fn buff_simd256_equal_filter_subcolumn_without_bitmask
//@rewritere (?m)^fn buff_simd => pub fn buff_simd
//@rewritere (?s)cfg_if! \{\s*if #\[cfg\(any\(not\(target_arch = "x86_64"\), miri\)\)\] \{.*?\} else \{(.*)\}\s*\}\s*\}\s*$ => \1 }
//@rewritere super::filter:: =>
//@rewritere (\w+) \| (\w+) \| (\w+) => bm_or(bm_or(\1, \2), \3)
//@fn buff_simd256_equal_filter_subcolumn_without_bitmask ret=r
    requires logical_offset + chunk@.len() < lim32()
    ensures eqset(r@, chunk@, logical_offset as int, delta_fixed_pred_subcolumn)
//@enditem
/// o selects those of the records selected by m whose bits above s equal those of p
pub open spec fn agree(o: Option<Set<u32>>, ds: Seq<u64>, m: Option<Set<u32>>, off: int, s: int, p: u64) -> bool {
    mwithin(o, off, ds.len() as int) && forall|i: int| 0 <= i < ds.len() ==> (#[trigger] sel(o, off + i) <==> (sel(m, off + i) && hi(ds[i], s) == hi(p, s)))
}
pub open spec fn ov(m: Option<RoaringBitmap>) -> Option<Set<u32>> { match m { Some(b) => Some(b@), None => None } }
/// the bits of the predicate that the column at shift s holds
pub proof fn agree_start(m: Option<Set<u32>>, ds: Seq<u64>, off: int, w: int, p: u64)
    requires mwithin(m, off, ds.len() as int), 0 <= w < 64, wide(p, w), forall|i: int| 0 <= i < ds.len() ==> wide(#[trigger] ds[i], w)
    ensures agree(m, ds, m, off, w, p)
{ assert forall|i: int| 0 <= i < ds.len() implies #[trigger] hi(ds[i], w) == 0 by { assert(wide(ds[i], w)); } }
/// what an equality filter keeps
pub open spec fn eq_result(r: Set<u32>, ds: Seq<u64>, base: i64, m: Option<Set<u32>>, off: int, p: int) -> bool {
    forall|u: u32| #[trigger] r.contains(u) <==> (off <= u < off + ds.len() && sel(m, u as int) && base + ds[u - off] == p)
}
pub proof fn too_wide(p: u64, w: int)
    requires 0 <= w < 64
    ensures (64 - vstd::std_specs::bits::u64_leading_zeros(p) > w) <==> !wide(p, w), !wide(p, w) ==> forall|d: u64| #[trigger] wide(d, w) ==> d < p
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(p);
    let lz = vstd::std_specs::bits::u64_leading_zeros(p);
    let y = w as u64;
    if 64 - lz > w {
        assert(lz < 64);
        let k = (63 - lz) as u64;
        
        assert((p >> k) & 1u64 != 0u64);
        assert((p >> k) & 1u64 == 1u64) by (bit_vector) requires (p >> k) & 1u64 != 0u64;
        assert(p >> y != 0) by (bit_vector) requires (p >> k) & 1u64 == 1u64, y <= k, k < 64;
    } else {
        let z = (64 - lz) as u64;
        if lz > 0 { assert(p >> z == 0); assert(p >> y == 0) by (bit_vector) requires p >> z == 0, z <= y, y < 64; }
    }
    if !wide(p, w) {
        assert forall|d: u64| #[trigger] wide(d, w) implies d < p by { assert(d < p) by (bit_vector) requires d >> y == 0, p >> y != 0; }
    }
}
/// sizes that keep the differences within 64 bits
pub open spec fn near62(x: int) -> bool { -0x4000_0000_0000_0000 <= x < 0x4000_0000_0000_0000 }
/// next keeps those of o whose value is x
pub open spec fn narrowed(next: Set<u32>, o: Option<Set<u32>>, vals: Seq<int>, off: int, x: int) -> bool {
    forall|u: u32| #[trigger] next.contains(u) <==> (off <= u < off + vals.len() && sel(o, u as int) && vals[u - off] == x)
}
/// the same, of the first j listed
pub open spec fn nrun(next: Set<u32>, b: Seq<u32>, j: int, t: Set<u32>, vals: Seq<int>, off: int, n: int, x: int) -> bool {
    &&& lists(b, t, off, n) && within(t, off, n) && 0 <= j <= b.len() && 0 <= off && 0 <= n && off + n <= lim32() && vals.len() == n
    &&& forall|u: u32| #[trigger] next.contains(u) <==> (t.contains(u) && u < off + reach(b, j) && vals[u - off] == x)
}
pub proof fn nrun_step(next0: Set<u32>, next: Set<u32>, b: Seq<u32>, j: int, t: Set<u32>, vals: Seq<int>, off: int, n: int, x: int)
    requires j > 0, j <= b.len(), nrun(next0, b, j - 1, t, vals, off, n, x), next == (if vals[b[j - 1] as int] == x { next0.insert((off + b[j - 1]) as u32) } else { next0 })
    ensures nrun(next, b, j, t, vals, off, n, x)
{
    gap(b, t, off, n, j - 1);
    let i = b[j - 1] as int; let y = (off + i) as u32;
    assert(y == off + i && t.contains(y));
    assert forall|u: u32| #[trigger] t.contains(u) && u < off + reach(b, j) implies u < off + reach(b, j - 1) || u == y by {
        if u >= off + reach(b, j - 1) && u < off + i { assert(!sel(Some(t), off + (u - off))); }
    }
}
pub broadcast proof fn nrun_done(next: Set<u32>, b: Seq<u32>, j: int, t: Set<u32>, vals: Seq<int>, off: int, n: int, x: int)
    requires #[trigger] nrun(next, b, j, t, vals, off, n, x), j == b.len()
    ensures narrowed(next, Some(t), vals, off, x)
{
    gap(b, t, off, n, j);
    assert forall|u: u32| #[trigger] t.contains(u) implies u < off + reach(b, j) by { if u >= off + reach(b, j) { assert(!sel(Some(t), off + (u - off))); } }
}
/// those of the first k with value x
pub open spec fn nfirst(next: Set<u32>, vals: Seq<int>, off: int, k: int, x: int) -> bool { forall|u: u32| #[trigger] next.contains(u) <==> (off <= u < off + k && vals[u - off] == x) }
pub broadcast proof fn nfirst_done(next: Set<u32>, vals: Seq<int>, off: int, k: int, x: int)
    requires #[trigger] nfirst(next, vals, off, k, x), k == vals.len()
    ensures narrowed(next, None, vals, off, x)
{ assert forall|u: u32| #[trigger] next.contains(u) <==> (off <= u < off + vals.len() && sel(None, u as int) && vals[u - off] == x) by { } }
pub proof fn agree_step(next: Set<u32>, o: Option<Set<u32>>, ds: Seq<u64>, m: Option<Set<u32>>, off: int, vals: Seq<int>, a: int, b: int, k: int, p: u64, x: int)
    requires agree(o, ds, m, off, a, p), narrowed(next, o, vals, off, x), refines(ds, vals, a, b, k, 0), hi(p, b) == hi(p, a) * k + x, 0 <= x < k, 0 <= off, off + ds.len() <= lim32()
    ensures agree(Some(next), ds, m, off, b, p)
{
    assert forall|i: int| 0 <= i < ds.len() implies (#[trigger] sel(Some(next), off + i) <==> (sel(m, off + i) && hi(ds[i], b) == hi(p, b))) by {
        let u = (off + i) as u32; assert(u == off + i && u - off == i);
        assert(sel(o, off + i) <==> (sel(m, off + i) && hi(ds[i], a) == hi(p, a)));
        assert(0 <= vals[i] - 0 < k);
        lex(hi(ds[i], a), hi(p, a), vals[i], x, k); lex(hi(p, a), hi(ds[i], a), x, vals[i], k);
    }
}
/// agreeing on all bits is equality; agreeing on none of the records is no match
pub proof fn agree_end(t: Set<u32>, ds: Seq<u64>, base: i64, m: Option<Set<u32>>, off: int, s: int, p: u64)
    requires agree(Some(t), ds, m, off, s, p), s == 0 || t == Set::<u32>::empty() || (forall|u: u32| !t.contains(u)), 0 <= off, off + ds.len() <= lim32(), mwithin(m, off, ds.len() as int)
    ensures eq_result(t, ds, base, m, off, base + p)
{
    words();
    assert forall|u: u32| #[trigger] t.contains(u) <==> (off <= u < off + ds.len() && sel(m, u as int) && base + ds[u - off] == base + p) by {
        if off <= u < off + ds.len() { let i = u - off; assert(sel(Some(t), off + i) <==> (sel(m, off + i) && hi(ds[i], s) == hi(p, s))); }
    }
}
/// one column further, whatever the pass returns
pub proof fn narrow_all(o: Option<Set<u32>>, ds: Seq<u64>, base: i64, m: Option<Set<u32>>, off: int, vals: Seq<int>, a: int, b: int, k: int, p: u64, x: int)
    requires agree(o, ds, m, off, a, p), refines(ds, vals, a, b, k, 0), hi(p, b) == hi(p, a) * k + x, 0 <= x < k, 0 <= off, off + ds.len() <= lim32(), mwithin(m, off, ds.len() as int)
    ensures forall|next: Set<u32>| #[trigger] narrowed(next, o, vals, off, x) ==> agree(Some(next), ds, m, off, b, p) && (b == 0 || (forall|u: u32| !next.contains(u)) ==> eq_result(next, ds, base, m, off, base + p))
{
    assert forall|next: Set<u32>| #[trigger] narrowed(next, o, vals, off, x) implies agree(Some(next), ds, m, off, b, p) && (b == 0 || (forall|u: u32| !next.contains(u)) ==> eq_result(next, ds, base, m, off, base + p)) by {
        agree_step(next, o, ds, m, off, vals, a, b, k, p, x);
        if b == 0 || (forall|u: u32| !next.contains(u)) { agree_end(next, ds, base, m, off, b, p); }
    }
}
pub broadcast proof fn eqset_narrows(next: Set<u32>, s: Seq<u8>, off: int, p: u8)
    requires #[trigger] eqset(next, s, off, p)
    ensures narrowed(next, None, unflipped(s), off, p as int)
{ assert forall|u: u32| #[trigger] next.contains(u) <==> (off <= u < off + s.len() && sel(None, u as int) && unflipped(s)[u - off] == p) by { assert(next.contains(u) <==> eqs(s, off, p, u)); } }
/// the low r bits of p
pub proof fn low_bits(p: u64, r: int, w: int)
    requires 0 < r < 8
    ensures 1u64 << (r as u64) >= 1, hi(p, 0) == hi(p, r) * p2(r) + (p & sub(1u64 << (r as u64), 1)), 0 <= (p & sub(1u64 << (r as u64), 1)) < p2(r) <= 128, wide(p, r) ==> (p as u8) as u64 == p & sub(1u64 << (r as u64), 1)
{
    words();
    let y = r as u64; let x = p & sub(1u64 << y, 1);
    assert(1u64 << y >= 1 && x == p % (1u64 << y) && x < 1u64 << y && 1u64 << y <= 128 && (p >> y == 0 ==> (p as u8) as u64 == x)) by (bit_vector) requires x == p & sub(1u64 << y, 1), 0 < y < 8;
    vstd::arithmetic::power2::lemma2_to64();
    if r == 1 { } else if r == 2 { } else if r == 3 { } else if r == 4 { } else if r == 5 { } else if r == 6 { } else { }
    vstd::arithmetic::power2::lemma_pow2_pos(r as nat);
    vstd::bits::lemma_u64_shl_is_mul(1u64, y);
    vstd::bits::lemma_u64_shr_is_div(p, y);
    let k = p2(r);
    assert(p == (p as int / k) * k + p as int % k) by (nonlinear_arith) requires k > 0;
}
/// what the last bits decide, whatever was selected before
pub proof fn narrow_tail(c: Seq<u8>, ds: Seq<u64>, base: i64, w: int, f: int, m: Option<Set<u32>>, off: int, p: u64)
    requires chunk(c, ds, base, w, f), mwithin(m, off, ds.len() as int), 0 <= off, off + ds.len() <= lim32()
    ensures forall|t: Set<u32>| #[trigger] agree(Some(t), ds, m, off, 0, p) ==> eq_result(t, ds, base, m, off, base + p),
        w % 8 > 0 ==> forall|o: Option<Set<u32>>, next: Set<u32>| #[trigger] agree(o, ds, m, off, w % 8, p) && #[trigger] narrowed(next, o, packs(c, tail_at(ds.len() as int, w), w % 8, ds.len() as int), off, (p & sub(1u64 << ((w % 8) as u64), 1)) as int) ==> eq_result(next, ds, base, m, off, base + p)
{
    assert forall|t: Set<u32>| #[trigger] agree(Some(t), ds, m, off, 0, p) implies eq_result(t, ds, base, m, off, base + p) by { agree_end(t, ds, base, m, off, 0, p); }
    if w % 8 > 0 {
        let r = w % 8; let tv = packs(c, tail_at(ds.len() as int, w), r, ds.len() as int); let x = (p & sub(1u64 << (r as u64), 1)) as int;
        low_bits(p, r, w); tail_refines(c, ds, base, w, f, 0);
        assert forall|o: Option<Set<u32>>, next: Set<u32>| #[trigger] agree(o, ds, m, off, r, p) && #[trigger] narrowed(next, o, tv, off, x) implies eq_result(next, ds, base, m, off, base + p) by {
            narrow_all(o, ds, base, m, off, tv, r, 0, p2(r), p, x);
        }
    }
}
} // mod bf
pub mod bg {
use super::*;
use super::lb::*;
use super::bp::*;
use super::fx::*;
use super::bl::*;
use super::mk::*;
use super::bq::*;
use super::bf::*;
use super::vi::*;
use std::mem;
broadcast use {super::tm_u64_i64, BitPack::reader_of, BitPack::reader_ok, super::bf::nrun_done, super::bf::nfirst_done, super::bf::eqset_narrows};
//@item ebi/src/decoder/chunk_reader/buff/filter_eq.rs :: fn buff_simd256_equal_filter
//@rewritere precision_bound:: =>
//@rewritere u64::BITS => 64u32
//@rewritere (\w+)\.iter\(\)\.map\(\|(\w+)\| \2 - logical_offset\) => shifted(\1, logical_offset)
//@rewritere (\w+)\.replace\((\w+)\); => \1 = Some(\2);
//@inline all
//@inline none
//@fn buff_simd256_equal_filter ret=r
    requires valid(bytes@), q(bytes@, content(bytes@).0, content(bytes@).1, content(bytes@).2, content(bytes@).3, logical_offset as int), logical_offset + content(bytes@).0.len() < lim32(),
        mwithin(ov(bitmask), logical_offset as int, content(bytes@).0.len() as int),
        near62(content(bytes@).1 as int), near62(fixed(pred.to_bits_spec(), content(bytes@).3)), fits(pred.to_bits_spec(), content(bytes@).3)
    ensures eq_result(r@, content(bytes@).0, content(bytes@).1, ov(bitmask), logical_offset as int, fixed(pred.to_bits_spec(), content(bytes@).3))
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost c = bytes@;
    let ghost (ds, base, w, f) = content(c);
    let ghost n = ds.len() as int;
    let ghost off = logical_offset as int;
    let ghost m = ov(bitmask);
    let ghost r8 = w % 8;
    let ghost tv = packs(c, tail_at(n, w), r8, n);
    let ghost px = fixed(pred.to_bits_spec(), f);
    let ghost dp = (px - base) as u64;
    proof { content_is(c); words(); layout(c, ds, base, w, f); too_wide(dp, w); if px >= base && wide(dp, w) { agree_start(m, ds, off, w, dp); }
        if px >= base { narrow_tail(c, ds, base, w, f, m, off, dp); if r8 > 0 { low_bits(dp, r8, w); rest_is(0, n, r8); } }
        if w == 0 { assert forall|j: int| 0 <= j < n implies #[trigger] ds[j] == 0 by { assert(wide(ds[j], 0)); } } }
//@loop 1
    invariant result_bitmask is None ==> remaining_bits_length == w, remaining_bits_length <= w, (w - remaining_bits_length) % 8 == 0, agree(ov(result_bitmask), ds, m, off, remaining_bits_length as int, dp), delta_fixed_pred == dp, px == base + dp, result_bitmask is None ==> m is None,
        bitpack.rok(), bitpack.rd() == c, bitpack.al(), bitpack.p() == at(n, w, remaining_bits_length as int)
    decreases remaining_bits_length
//@loopstart 1
    let ghost rem = remaining_bits_length as int;
    let ghost cs = c.subrange(at(n, w, rem) / 8, at(n, w, rem) / 8 + n);
    let ghost cv = unflipped(cs);
    let ghost pb = (dp >> ((rem - 8) as u64)) as u8;
    proof { col_read(c, ds, base, w, f, rem); col_refines(cs, ds, rem - 8); hi_next(dp, rem - 8); narrow_all(ov(result_bitmask), ds, base, m, off, cv, rem, rem - 8, 256, dp, pb as int); }
//@loop 2 ixs
    invariant vx_2 <= vx_2_s@.len(), nrun(next_result_bitmask@, vx_2_s@, vx_2 as int, bitmask@, cv, off, n, pb as int),
        bitpack.rok(), bitpack.rd() == c, bitpack.al(), bitpack.p() == at(n, w, rem) + 8 * reach(vx_2_s@, vx_2 as int), expected_record_index_if_sequential == reach(vx_2_s@, vx_2 as int)
    decreases vx_2_s@.len() - vx_2
//@loopstart 2
    let ghost next0 = next_result_bitmask@;
    proof { gap(vx_2_s@, bitmask@, off, n, vx_2 - 1); assert(cs[record_index as int] == c[at(n, w, rem) / 8 + record_index]); }
//@loopend 2
    proof { nrun_step(next0, next_result_bitmask@, vx_2_s@, vx_2 as int, bitmask@, cv, off, n, pb as int); }
//@loop 3 ixs
    invariant vx_3 <= vx_3_s@.len(), nrun(next_result_bitmask@, vx_3_s@, vx_3 as int, bitmask@, tv, off, n, delta_fixed_pred_subcolumn as int),
        bitpack.rok(), bitpack.rd() == c, bitpack.p() == tail_at(n, w) + reach(vx_3_s@, vx_3 as int) * r8, expected_record_index_if_sequential == reach(vx_3_s@, vx_3 as int), rest(reach(vx_3_s@, vx_3 as int), n, r8)
    decreases vx_3_s@.len() - vx_3
//@loopstart 3
    let ghost next0 = next_result_bitmask@;
    proof { gap(vx_3_s@, bitmask@, off, n, vx_3 - 1); let i = record_index as int; let a = reach(vx_3_s@, vx_3 - 1);
        skip_fits(a, i, n, r8); tail_has(c, ds, base, w, f, i); tail_val(c, ds, base, w, f, i); lval_is(c, tail_at(n, w) + i * r8, r8); }
//@loopend 3
    proof { rest_is(reach(vx_3_s@, vx_3 as int), n, r8); nrun_step(next0, next_result_bitmask@, vx_3_s@, vx_3 as int, bitmask@, tv, off, n, delta_fixed_pred_subcolumn as int); }
//@loop 4 ix
    invariant vx_4 <= n, vx_4_e == n, bitpack.rok(), bitpack.rd() == c, bitpack.p() == tail_at(n, w) + vx_4 * r8, nfirst(next_result_bitmask@, tv, off, vx_4 as int, (dp & sub(1u64 << (r8 as u64), 1)) as int)
    decreases n - vx_4
//@loopstart 4
    proof { tail_has(c, ds, base, w, f, i as int); tail_val(c, ds, base, w, f, i as int); lval_is(c, tail_at(n, w) + i * r8, r8); }
//@enditem
} // mod bg
pub mod bc {
use super::*;
use super::lb::*;
use super::bp::*;
use super::fx::*;
use super::bl::*;
use super::mk::*;
use super::bq::*;
use super::bf::*;
use super::vi::*;
use std::mem;
broadcast use {super::tm_u8_i8};
/// the comparisons: > (1), >= (2), < (-1), <= (-2), == (0)
pub open spec fn rel(c: int, a: int, b: int) -> bool { if c == 0 { a == b } else if c == 1 { a > b } else if c == 2 { a >= b } else if c == -1 { a < b } else { a <= b } }
pub open spec fn dir(g: bool) -> int { if g { 1 } else { -1 } }
pub open spec fn code(g: bool, inc: bool) -> int { if inc { 2 * dir(g) } else { dir(g) } }
pub open spec fn chit(o: Option<Set<u32>>, vals: Seq<int>, off: int, c: int, x: int, u: u32) -> bool { off <= u < off + vals.len() && sel(o, u as int) && rel(c, vals[u - off], x) }
/// q1 is q0 and those of o whose value compares as c with x
pub open spec fn put(q0: Set<u32>, q1: Set<u32>, o: Option<Set<u32>>, vals: Seq<int>, off: int, c: int, x: int) -> bool { forall|u: u32| #[trigger] q1.contains(u) <==> (q0.contains(u) || chit(o, vals, off, c, x, u)) }
pub open spec fn upto_is(q0: Set<u32>, q1: Set<u32>, vals: Seq<int>, off: int, k: int, c: int, x: int) -> bool { forall|u: u32| #[trigger] q1.contains(u) <==> (q0.contains(u) || (u < off + k && chit(None, vals, off, c, x, u))) }
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: fn buff_simd256_cmp_filter_subcolumn_without_bitmask_nonsimd
//@fn buff_simd256_cmp_filter_subcolumn_without_bitmask_nonsimd
    requires logical_offset + chunk@.len() < lim32()
    ensures put(old(to_check_bitmask)@, final(to_check_bitmask)@, None, unflipped(chunk@), logical_offset as int, 0, delta_fixed_pred_subcolumn as int),
        put(old(qualified_bitmask)@, final(qualified_bitmask)@, None, unflipped(chunk@), logical_offset as int, dir(IS_GREATER), delta_fixed_pred_subcolumn as int),
//@start
    let ghost (t0, q0) = (to_check_bitmask@, qualified_bitmask@);
//@loop 1 ix
    invariant vx_1 <= chunk@.len(), logical_offset + chunk@.len() < lim32(), upto_is(t0, to_check_bitmask@, unflipped(chunk@), logical_offset as int, vx_1 as int, 0, delta_fixed_pred_subcolumn as int),
        upto_is(q0, qualified_bitmask@, unflipped(chunk@), logical_offset as int, vx_1 as int, dir(IS_GREATER), delta_fixed_pred_subcolumn as int)
    decreases chunk@.len() - vx_1
//@enditem
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: mod simd_x86_64 :: const GREATER
//@enditem
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: mod simd_x86_64 :: const LESS
//@enditem
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: mod simd_x86_64 :: fn comp_simd
//@rewritere pub unsafe fn => pub fn
//@rewritere std::mem::transmute::<u8, i8>\((flip\(\w+\))\) => unsafe { mem::transmute::<u8, i8>(\1) }
//@rewritere VECTOR_SIZE => 32
//@rewritere debug_assert!\(cfg!\(target_endian = "little"\)\); =>
//@rewritere debug_assert!\((.*)\); => assert(\1);
//@rewritere (?s)const \{\s*assert!\([^;]*;\s*\}; =>
//@rewritere (\w+)\.len\(\)\.next_multiple_of\(32\) => up32(\1.len())
//@rewritere (?s)(\w+)\s*\.chunks_exact\(32\)\s*\.map\(\|chunk\| _mm256_lddqu_si256\(chunk\.as_ptr\(\)\.cast::<__m256i>\(\)\)\) => simd_words(\1)
//@rewritere (?s)unsafe \{\s*std::slice::from_raw_parts\(\s*(\w+)\.as_ptr\(\)\.cast::<u8>\(\),\s*size_of_val\(\1\.as_slice\(\)\),\s*\)\s*\} => &\1
//@rewritere (?s)RoaringBitmap::from_lsb0_bytes\( => bm_words(
//@rewritere (?s)\*qualified_bitmask \|=\s*([^;]*); => bm_union(qualified_bitmask, \1);
//@fn comp_simd ret=r
    requires FLAGS == 1 || FLAGS == 2, x@.len() % 32 == 0, x@.len() > 0 ==> logical_offset % 8 == 0, x@.len() > 0, logical_offset + x@.len() < lim32()
    ensures put(Set::empty(), r@, None, unflipped(x@), logical_offset as int, 0, pred as int),
        put(old(qualified_bitmask)@, final(qualified_bitmask)@, None, unflipped(x@), logical_offset as int, dir(FLAGS == 1), pred as int)
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost q0 = qualified_bitmask@;
    proof { flip_inj(); flip_lt(); assert(1u8 & 1u8 == 1u8 && 2u8 & 1u8 == 0u8) by (bit_vector); }
//@loop 1 ixs
    invariant vx_1 <= vx_1_s@.len(), to_check_bitmasks@.len() == vx_1, qualified_bitmasks@.len() == vx_1,
        forall|u: int| 0 <= u < 32 * vx_1 ==> #[trigger] wbit(to_check_bitmasks@, u) == rel(0, flip_s(x@[u]) as int, pred as int),
        forall|u: int| 0 <= u < 32 * vx_1 ==> #[trigger] wbit(qualified_bitmasks@, u) == rel(dir(FLAGS == 1), flip_s(x@[u]) as int, pred as int)
    decreases vx_1_s@.len() - vx_1
//@loopstart 1
    let ghost (b0, c0) = (to_check_bitmasks@, qualified_bitmasks@);
//@loopend 1
    proof {
        assert forall|u: int| 0 <= u < 32 * vx_1 implies #[trigger] wbit(to_check_bitmasks@, u) == rel(0, flip_s(x@[u]) as int, pred as int) by {
            if u < 32 * (vx_1 - 1) { assert(to_check_bitmasks@[u / 32] == b0[u / 32]); assert(wbit(b0, u) == rel(0, flip_s(x@[u]) as int, pred as int)); }
            else { let i = u - 32 * (vx_1 - 1); assert(u / 32 == vx_1 - 1 && u % 32 == i); assert(x@[32 * (vx_1 - 1) + i] as i8 == word@[i]); }
        }
        assert forall|u: int| 0 <= u < 32 * vx_1 implies #[trigger] wbit(qualified_bitmasks@, u) == rel(dir(FLAGS == 1), flip_s(x@[u]) as int, pred as int) by {
            if u < 32 * (vx_1 - 1) { assert(qualified_bitmasks@[u / 32] == c0[u / 32]); assert(wbit(c0, u) == rel(dir(FLAGS == 1), flip_s(x@[u]) as int, pred as int)); }
            else { let i = u - 32 * (vx_1 - 1); assert(u / 32 == vx_1 - 1 && u % 32 == i); assert(x@[32 * (vx_1 - 1) + i] as i8 == word@[i]); forall_and_not(); }
        }
    }
//@enditem
pub proof fn forall_and_not()
    ensures forall|a: i32, b: i32, i: int| 0 <= i < 32 ==> #[trigger] l32((a & (!b)) as u32, i) == (l32(a as u32, i) && !l32(b as u32, i))
{ assert forall|a: i32, b: i32, i: int| 0 <= i < 32 implies #[trigger] l32((a & (!b)) as u32, i) == (l32(a as u32, i) && !l32(b as u32, i)) by { and_not(a, b); } }
pub proof fn flip_lt()
    ensures forall|a: u8, b: u8| #[trigger] ((b ^ 0x80u8) as i8) > #[trigger] (a as i8) <==> flip_s(a) < b
{ assert forall|a: u8, b: u8| #[trigger] ((b ^ 0x80u8) as i8) > #[trigger] (a as i8) <==> flip_s(a) < b by { assert(((b ^ 0x80u8) as i8) > (a as i8) <==> a ^ 0x80u8 < b) by (bit_vector); } }
#[verifier::external_body]
pub fn up32(x: usize) -> usize { x.next_multiple_of(32) }
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: mod simd_x86_64 :: fn greater_simd
//@rewritere pub unsafe fn => pub fn
//@fn greater_simd ret=r
    requires x@.len() % 32 == 0, x@.len() > 0 ==> logical_offset % 8 == 0, x@.len() > 0, logical_offset + x@.len() < lim32()
    ensures put(Set::empty(), r@, None, unflipped(x@), logical_offset as int, 0, pred as int),
        put(old(qualified_bitmask)@, final(qualified_bitmask)@, None, unflipped(x@), logical_offset as int, dir(true), pred as int)
//@enditem
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: mod simd_x86_64 :: fn less_simd
//@rewritere pub unsafe fn => pub fn
//@fn less_simd ret=r
    requires x@.len() % 32 == 0, x@.len() > 0 ==> logical_offset % 8 == 0, x@.len() > 0, logical_offset + x@.len() < lim32()
    ensures put(Set::empty(), r@, None, unflipped(x@), logical_offset as int, 0, pred as int),
        put(old(qualified_bitmask)@, final(qualified_bitmask)@, None, unflipped(x@), logical_offset as int, dir(false), pred as int)
//@start
    proof { assert(1u8 << 1u8 == 2u8) by (bit_vector); }
//@enditem
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: fn buff_simd256_cmp_filter_subcolumn_without_bitmask_simd
//@rewritere debug_assert_eq!\((.*), 0\); => assert(\1 == 0);
//@rewritere \*(\w+) \|= (\w+); => bm_union(\1, \2);
//@fn buff_simd256_cmp_filter_subcolumn_without_bitmask_simd
    requires simd_chunk@.len() % 32 == 0, simd_chunk@.len() > 0 ==> logical_offset % 8 == 0, logical_offset + simd_chunk@.len() < lim32()
    ensures put(old(to_check_bitmask)@, final(to_check_bitmask)@, None, unflipped(simd_chunk@), logical_offset as int, 0, delta_fixed_pred_subcolumn as int),
        put(old(qualified_bitmask)@, final(qualified_bitmask)@, None, unflipped(simd_chunk@), logical_offset as int, dir(IS_GREATER), delta_fixed_pred_subcolumn as int),
//@enditem
/// a column in three parts
pub open spec fn parts(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) -> bool {
    &&& a.len() + b.len() + c.len() == s.len()
    &&& (forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == s[i]) && (forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == s[a.len() + i]) && (forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == s[a.len() + b.len() + i])
}
pub proof fn hit_parts(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, off: int)
    requires parts(s, a, b, c)
    ensures forall|o: Option<Set<u32>>, k: int, x: int, u: u32| #[trigger] chit(o, unflipped(s), off, k, x, u) <==> (chit(o, unflipped(a), off, k, x, u) || chit(o, unflipped(b), off + a.len(), k, x, u) || chit(o, unflipped(c), off + a.len() + b.len(), k, x, u))
{
    assert forall|o: Option<Set<u32>>, k: int, x: int, u: u32| #[trigger] chit(o, unflipped(s), off, k, x, u) <==> (chit(o, unflipped(a), off, k, x, u) || chit(o, unflipped(b), off + a.len(), k, x, u) || chit(o, unflipped(c), off + a.len() + b.len(), k, x, u)) by {
        let i = u - off;
        if 0 <= i < a.len() { assert(a[i] == s[i]); } else if 0 <= i < a.len() + b.len() { assert(b[i - a.len()] == s[a.len() + (i - a.len())]); }
        else if 0 <= i < s.len() { let j = i - a.len() - b.len(); assert(c[j] == s[a.len() + b.len() + j]); }
    }
}
/// whatever the split, the parts add up to the column
pub proof fn split_adds(s: Seq<u8>, off: int)
    ensures forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, o: Option<Set<u32>>, k: int, x: int, u: u32| #![trigger parts(s, a, b, c), chit(o, unflipped(s), off, k, x, u)] parts(s, a, b, c) ==> (chit(o, unflipped(s), off, k, x, u) <==> (chit(o, unflipped(a), off, k, x, u) || chit(o, unflipped(b), off + a.len(), k, x, u) || chit(o, unflipped(c), off + a.len() + b.len(), k, x, u)))
{
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, o: Option<Set<u32>>, k: int, x: int, u: u32| #![trigger parts(s, a, b, c), chit(o, unflipped(s), off, k, x, u)] parts(s, a, b, c) implies (chit(o, unflipped(s), off, k, x, u) <==> (chit(o, unflipped(a), off, k, x, u) || chit(o, unflipped(b), off + a.len(), k, x, u) || chit(o, unflipped(c), off + a.len() + b.len(), k, x, u))) by { hit_parts(s, a, b, c, off); }
}
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: fn buff_simd256_cmp_filter_subcolumn_without_bitmask
//@rewritere (?s)cfg_if! \{\s*if #\[cfg\(all\(target_arch = "x86_64", not\(miri\)\)\)\] \{(.*?)\n        \} else \{.*?\n        \}\n    \} => \1
//@rewritere (?m)^fn buff_simd => pub fn buff_simd
//@rewritere super::filter:: =>
//@fn buff_simd256_cmp_filter_subcolumn_without_bitmask ret=r
    requires logical_offset + chunk@.len() < lim32()
    ensures put(Set::empty(), r@, None, unflipped(chunk@), logical_offset as int, 0, delta_fixed_pred_subcolumn as int),
        put(old(qualified_bitmask)@, final(qualified_bitmask)@, None, unflipped(chunk@), logical_offset as int, dir(IS_GREATER), delta_fixed_pred_subcolumn as int),
//@start
    proof { split_adds(chunk@, logical_offset as int); }
//@enditem
/// the listed numbers
pub open spec fn listed(v: Seq<u32>, o: Set<u32>) -> bool { forall|u: u32| #[trigger] v.contains(u) <==> o.contains(u) }
pub open spec fn vhit(v: Seq<u32>, j: int, vals: Seq<int>, off: int, c: int, x: int, u: u32) -> bool { exists|i: int| 0 <= i < j && #[trigger] v[i] == u && rel(c, vals[u - off], x) }
pub open spec fn vput(q0: Set<u32>, q1: Set<u32>, v: Seq<u32>, j: int, vals: Seq<int>, off: int, c: int, x: int) -> bool { forall|u: u32| #[trigger] q1.contains(u) <==> (q0.contains(u) || vhit(v, j, vals, off, c, x, u)) }
pub proof fn vput_step(q0: Set<u32>, q: Set<u32>, q1: Set<u32>, v: Seq<u32>, j: int, vals: Seq<int>, off: int, c: int, x: int)
    requires vput(q0, q, v, j - 1, vals, off, c, x), 0 < j <= v.len(), q1 == (if rel(c, vals[v[j - 1] - off], x) { q.insert(v[j - 1]) } else { q })
    ensures vput(q0, q1, v, j, vals, off, c, x)
{
    assert forall|u: u32| #[trigger] q1.contains(u) <==> (q0.contains(u) || vhit(v, j, vals, off, c, x, u)) by {
        assert(q.contains(u) <==> (q0.contains(u) || vhit(v, j - 1, vals, off, c, x, u)));
        if vhit(v, j - 1, vals, off, c, x, u) { let i = choose|i: int| 0 <= i < j - 1 && #[trigger] v[i] == u && rel(c, vals[u - off], x); assert(v[i] == u); }
        if vhit(v, j, vals, off, c, x, u) { let i = choose|i: int| 0 <= i < j && #[trigger] v[i] == u && rel(c, vals[u - off], x); if i < j - 1 { assert(v[i] == u); } }
        if u == v[j - 1] && rel(c, vals[v[j - 1] - off], x) { assert(v[j - 1] == u); }
    }
}
pub open spec fn vin(v: Seq<u32>, off: int, n: int) -> bool { forall|u: u32| #[trigger] v.contains(u) ==> off <= u < off + n }
/// members as hits of the set they come from
pub proof fn vhit_is(v: Seq<u32>, vals: Seq<int>, off: int, c: int, x: int)
    requires vin(v, off, vals.len() as int)
    ensures forall|u: u32| #[trigger] vhit(v, v.len() as int, vals, off, c, x, u) <==> (v.contains(u) && chit(None, vals, off, c, x, u))
{
    assert forall|u: u32| #[trigger] vhit(v, v.len() as int, vals, off, c, x, u) <==> (v.contains(u) && chit(None, vals, off, c, x, u)) by {
        if v.contains(u) && chit(None, vals, off, c, x, u) { let i = choose|i: int| 0 <= i < v.len() && v[i] == u; assert(v[i] == u); }
    }
}
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: fn buff_simd256_cmp_filter_subcolumn_with_bitmask_nonsimd
//@rewritere impl Iterator<Item = u32> => Vec<u32>
//@fn buff_simd256_cmp_filter_subcolumn_with_bitmask_nonsimd ret=r
    requires logical_offset + chunk@.len() < lim32(), vin(to_check_bitmask_iter@, logical_offset as int, chunk@.len() as int)
    ensures forall|u: u32| #[trigger] r@.contains(u) <==> (to_check_bitmask_iter@.contains(u) && chit(None, unflipped(chunk@), logical_offset as int, 0, delta_fixed_pred_subcolumn as int, u)),
        forall|u: u32| #[trigger] final(qualified_bitmask)@.contains(u) <==> (old(qualified_bitmask)@.contains(u) || (to_check_bitmask_iter@.contains(u) && chit(None, unflipped(chunk@), logical_offset as int, dir(IS_GREATER), delta_fixed_pred_subcolumn as int, u))),
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost q0 = qualified_bitmask@;
    let ghost (vals, off, v, x) = (unflipped(chunk@), logical_offset as int, to_check_bitmask_iter@, delta_fixed_pred_subcolumn as int);
    proof { vhit_is(v, vals, off, 0, x); vhit_is(v, vals, off, dir(IS_GREATER), x); }
//@loop 1 ixv
    invariant vx_1 <= v.len(), vput(Set::empty(), next_to_check_bitmask@, v, vx_1 as int, vals, off, 0, x), vput(q0, qualified_bitmask@, v, vx_1 as int, vals, off, dir(IS_GREATER), x)
    decreases v.len() - vx_1
//@loopstart 1
    let ghost (n0, q1) = (next_to_check_bitmask@, qualified_bitmask@);
    proof { assert(v.contains(v[vx_1 - 1])); }
//@loopend 1
    proof { assert(vals[v[vx_1 - 1] - off] == subcolumn); vput_step(Set::empty(), n0, next_to_check_bitmask@, v, vx_1 as int, vals, off, 0, x); vput_step(q0, q1, qualified_bitmask@, v, vx_1 as int, vals, off, dir(IS_GREATER), x); }
//@enditem
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: fn buff_simd256_cmp_filter_subcolumn_with_bitmask_simd
//@rewritere debug_assert_eq!\((.*), 0\); => assert(\1 == 0);
//@rewritere RoaringBitmap::default\(\) => RoaringBitmap::new()
//@rewritere \*(\w+) \|= (\w+); => bm_union(\1, \2);
//@rewritere (\w+) \|= (\w+); => bm_union(&mut \1, \2);
//@rewritere (\w+) &= (\w+); => bm_meet(&mut \1, \2);
//@fn buff_simd256_cmp_filter_subcolumn_with_bitmask_simd ret=r
    requires simd_chunk@.len() % 32 == 0, simd_chunk@.len() > 0 ==> logical_offset % 8 == 0, logical_offset + simd_chunk@.len() < lim32()
    ensures put(Set::empty(), r@, Some(to_check_bitmask@), unflipped(simd_chunk@), logical_offset as int, 0, delta_fixed_pred_subcolumn as int),
        put(old(qualified_bitmask)@, final(qualified_bitmask)@, Some(to_check_bitmask@), unflipped(simd_chunk@), logical_offset as int, dir(IS_GREATER), delta_fixed_pred_subcolumn as int),
//@enditem
#[verifier::external_body]
pub fn share(a: u64, b: u32) -> f64 { a as f64 / b as f64 }
// which way is taken does not matter for the result
#[verifier::external_body]
pub fn above(a: f64) -> bool { a > 0.06 }
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: fn buff_simd256_cmp_filter_subcolumn_with_bitmask
//@rewritere (?s)cfg_if! \{\s*if #\[cfg\(all\(target_arch = "x86_64", not\(miri\)\)\)\] \{(.*?)\n        \} else \{.*?\n        \}\n    \} => \1
//@rewritere (?m)^fn buff_simd => pub fn buff_simd
//@rewritere super::filter:: =>
//@rewritere #\[allow\(unused_variables\)\] =>
//@rewritere (\w+)\.len\(\) as f64 / (\w+) as f64 => share(\1.len(), \2)
//@rewritere (\w+) > SIMD_THRESHOLD => above(\1)
//@rewritere (?m)(\w+)\s*\.iter\(\)\s*\.take_while\(\|&(\w+)\| \2 < (.*)\),$ => take_below(\1, \3),
//@rewritere (?m)(\w+)\s*\.iter\(\)\s*\.skip_while\(\|&(\w+)\| \2 < (.*)\),$ => skip_below(\1, \3),
//@rewritere (\w+)\.iter\(\), => members(\1),
//@rewritere (\w+) \| (\w+) \| (\w+) => bm_or(bm_or(\1, \2), \3)
//@fn buff_simd256_cmp_filter_subcolumn_with_bitmask ret=r
    requires logical_offset + chunk@.len() < lim32(), within(to_check_bitmask@, logical_offset as int, chunk@.len() as int)
    ensures put(Set::empty(), r@, Some(to_check_bitmask@), unflipped(chunk@), logical_offset as int, 0, delta_fixed_pred_subcolumn as int),
        put(old(qualified_bitmask)@, final(qualified_bitmask)@, Some(to_check_bitmask@), unflipped(chunk@), logical_offset as int, dir(IS_GREATER), delta_fixed_pred_subcolumn as int),
//@start
    proof { split_adds(chunk@, logical_offset as int); }
//@enditem
} // mod bc
pub mod bh {
use super::*;
use super::lb::*;
use super::bp::*;
use super::fx::*;
use super::bl::*;
use super::mk::*;
use super::bq::*;
use super::bf::*;
use super::bc::*;
/// what a comparison filter keeps
pub open spec fn cmp_result(r: Set<u32>, ds: Seq<u64>, base: i64, m: Option<Set<u32>>, off: int, p: int, g: bool, inc: bool) -> bool {
    forall|u: u32| #[trigger] r.contains(u) <==> (off <= u < off + ds.len() && sel(m, u as int) && rel(code(g, inc), base + ds[u - off], p))
}
/// the records decided by the bits above s
pub open spec fn won(q: Set<u32>, ds: Seq<u64>, m: Option<Set<u32>>, off: int, s: int, p: u64, g: bool) -> bool {
    forall|u: u32| #[trigger] q.contains(u) <==> (off <= u < off + ds.len() && sel(m, u as int) && rel(dir(g), hi(ds[u - off], s), hi(p, s)))
}
pub proof fn won_start(ds: Seq<u64>, m: Option<Set<u32>>, off: int, w: int, p: u64, g: bool)
    requires 0 <= w < 64, wide(p, w), forall|i: int| 0 <= i < ds.len() ==> wide(#[trigger] ds[i], w)
    ensures forall|q: Set<u32>| q == Set::<u32>::empty() ==> #[trigger] won(q, ds, m, off, w, p, g)
{ assert forall|i: int| 0 <= i < ds.len() implies #[trigger] hi(ds[i], w) == 0 by { assert(wide(ds[i], w)); } }
pub open spec fn is_hi(ds: Seq<u64>, u: u32, off: int, o: Option<Set<u32>>, m: Option<Set<u32>>, s: int, p: u64) -> bool { off <= u < off + ds.len() ==> (sel(o, u as int) <==> (sel(m, u as int) && hi(ds[u - off], s) == hi(p, s))) }
pub proof fn agree_at(o: Option<Set<u32>>, ds: Seq<u64>, m: Option<Set<u32>>, off: int, s: int, p: u64)
    requires agree(o, ds, m, off, s, p)
    ensures forall|u: u32| #[trigger] is_hi(ds, u, off, o, m, s, p)
{ assert forall|u: u32| #[trigger] is_hi(ds, u, off, o, m, s, p) by { if off <= u < off + ds.len() { let i = u - off; assert(sel(o, off + i) <==> (sel(m, off + i) && hi(ds[i], s) == hi(p, s))); } } }
pub proof fn won_step(q0: Set<u32>, q1: Set<u32>, o: Option<Set<u32>>, ds: Seq<u64>, m: Option<Set<u32>>, off: int, vals: Seq<int>, a: int, b: int, k: int, p: u64, x: int, g: bool, c: int)
    requires won(q0, ds, m, off, a, p, g), agree(o, ds, m, off, a, p), put(q0, q1, o, vals, off, c, x), refines(ds, vals, a, b, k, 0), hi(p, b) == hi(p, a) * k + x, 0 <= x < k, 0 <= off, off + ds.len() <= lim32(), c == dir(g) || c == 2 * dir(g)
    ensures forall|u: u32| #[trigger] q1.contains(u) <==> (off <= u < off + ds.len() && sel(m, u as int) && rel(c, hi(ds[u - off], b), hi(p, b)))
{
    agree_at(o, ds, m, off, a, p);
    assert forall|u: u32| #[trigger] q1.contains(u) <==> (off <= u < off + ds.len() && sel(m, u as int) && rel(c, hi(ds[u - off], b), hi(p, b))) by {
        assert(is_hi(ds, u, off, o, m, a, p));
        assert(q0.contains(u) <==> (off <= u < off + ds.len() && sel(m, u as int) && rel(dir(g), hi(ds[u - off], a), hi(p, a))));
        if off <= u < off + ds.len() {
            let i = u - off;
            assert(0 <= vals[i] - 0 < k);
            lex(hi(ds[i], a), hi(p, a), vals[i], x, k); lex(hi(p, a), hi(ds[i], a), x, vals[i], k);
        }
    }
}
/// one column further
pub proof fn cmp_all(q0: Set<u32>, o: Option<Set<u32>>, ds: Seq<u64>, base: i64, m: Option<Set<u32>>, off: int, vals: Seq<int>, a: int, b: int, k: int, p: u64, x: int, g: bool, inc: bool)
    requires won(q0, ds, m, off, a, p, g), agree(o, ds, m, off, a, p), refines(ds, vals, a, b, k, 0), hi(p, b) == hi(p, a) * k + x, 0 <= x < k, 0 <= off, off + ds.len() <= lim32(), mwithin(m, off, ds.len() as int), 0 <= b < 64
    ensures forall|q1: Set<u32>| #[trigger] put(q0, q1, o, vals, off, dir(g), x) ==> won(q1, ds, m, off, b, p, g),
        forall|next: Set<u32>| #[trigger] put(Set::empty(), next, o, vals, off, 0, x) ==> agree(Some(next), ds, m, off, b, p),
        forall|q1: Set<u32>, next: Set<u32>| #[trigger] put(q0, q1, o, vals, off, dir(g), x) && #[trigger] put(Set::empty(), next, o, vals, off, 0, x) && (forall|u: u32| !next.contains(u)) ==> cmp_result(q1, ds, base, m, off, base + p, g, inc)
{
    assert forall|q1: Set<u32>| #[trigger] put(q0, q1, o, vals, off, dir(g), x) implies won(q1, ds, m, off, b, p, g) by { won_step(q0, q1, o, ds, m, off, vals, a, b, k, p, x, g, dir(g)); }
    assert forall|next: Set<u32>| #[trigger] put(Set::empty(), next, o, vals, off, 0, x) implies agree(Some(next), ds, m, off, b, p) by {
        assert forall|u: u32| #[trigger] next.contains(u) <==> (off <= u < off + vals.len() && sel(o, u as int) && vals[u - off] == x) by { assert(chit(o, vals, off, 0, x, u) <==> (off <= u < off + vals.len() && sel(o, u as int) && vals[u - off] == x)); }
        agree_step(next, o, ds, m, off, vals, a, b, k, p, x);
    }
    assert forall|q1: Set<u32>, next: Set<u32>| #[trigger] put(q0, q1, o, vals, off, dir(g), x) && #[trigger] put(Set::empty(), next, o, vals, off, 0, x) && (forall|u: u32| !next.contains(u)) implies cmp_result(q1, ds, base, m, off, base + p, g, inc) by {
        agree_at(Some(next), ds, m, off, b, p);
        assert forall|u: u32| #[trigger] q1.contains(u) <==> (off <= u < off + ds.len() && sel(m, u as int) && rel(code(g, inc), base + ds[u - off], base + p)) by {
            assert(is_hi(ds, u, off, Some(next), m, b, p)); assert(!next.contains(u));
            if off <= u < off + ds.len() { hi_order(ds[u - off], p, b); }
        }
    }
}
pub proof fn hi_order(d: u64, p: u64, b: int)
    requires 0 <= b < 64
    ensures hi(d, b) < hi(p, b) ==> d < p, hi(d, b) > hi(p, b) ==> d > p
{
    let y = b as u64;
    assert((d >> y) < (p >> y) ==> d < p) by (bit_vector) requires y < 64;
    assert((d >> y) > (p >> y) ==> d > p) by (bit_vector) requires y < 64;
}
/// what is decided at the end, whatever the passes selected
pub proof fn cmp_end(c: Seq<u8>, ds: Seq<u64>, base: i64, w: int, f: int, m: Option<Set<u32>>, off: int, p: u64, g: bool, inc: bool)
    requires chunk(c, ds, base, w, f), mwithin(m, off, ds.len() as int), 0 <= off, off + ds.len() <= lim32()
    ensures !inc ==> forall|q: Set<u32>| #[trigger] won(q, ds, m, off, 0, p, g) ==> cmp_result(q, ds, base, m, off, base + p, g, inc),
        inc ==> forall|t: Set<u32>, q: Set<u32>, q1: Set<u32>| #![trigger agree(Some(t), ds, m, off, 0, p), won(q, ds, m, off, 0, p, g), joined(q1, q, t)] agree(Some(t), ds, m, off, 0, p) && won(q, ds, m, off, 0, p, g) && joined(q1, q, t) ==> cmp_result(q1, ds, base, m, off, base + p, g, inc),
        w % 8 > 0 ==> forall|o: Option<Set<u32>>, q: Set<u32>, q1: Set<u32>| #[trigger] agree(o, ds, m, off, w % 8, p) && #[trigger] won(q, ds, m, off, w % 8, p, g) && #[trigger] put(q, q1, o, packs(c, tail_at(ds.len() as int, w), w % 8, ds.len() as int), off, code(g, inc), (p & sub(1u64 << ((w % 8) as u64), 1)) as int) ==> cmp_result(q1, ds, base, m, off, base + p, g, inc)
{
    words();
    if inc {
        assert forall|t: Set<u32>, q: Set<u32>, q1: Set<u32>| #![trigger agree(Some(t), ds, m, off, 0, p), won(q, ds, m, off, 0, p, g), joined(q1, q, t)] agree(Some(t), ds, m, off, 0, p) && won(q, ds, m, off, 0, p, g) && joined(q1, q, t) implies cmp_result(q1, ds, base, m, off, base + p, g, inc) by {
            agree_at(Some(t), ds, m, off, 0, p);
            assert forall|u: u32| #[trigger] q1.contains(u) <==> (off <= u < off + ds.len() && sel(m, u as int) && rel(code(g, inc), base + ds[u - off], base + p)) by {
                assert(is_hi(ds, u, off, Some(t), m, 0, p)); assert(q1.contains(u) <==> (q.contains(u) || t.contains(u)));
                if t.contains(u) { assert(off <= u < off + ds.len()); }
            }
        }
    }
    if w % 8 > 0 {
        let r = w % 8; let tv = packs(c, tail_at(ds.len() as int, w), r, ds.len() as int); let x = (p & sub(1u64 << (r as u64), 1)) as int;
        low_bits(p, r, w); tail_refines(c, ds, base, w, f, 0);
        assert forall|o: Option<Set<u32>>, q: Set<u32>, q1: Set<u32>| #[trigger] agree(o, ds, m, off, r, p) && #[trigger] won(q, ds, m, off, r, p, g) && #[trigger] put(q, q1, o, tv, off, code(g, inc), x) implies cmp_result(q1, ds, base, m, off, base + p, g, inc) by {
            won_step(q, q1, o, ds, m, off, tv, r, 0, p2(r), p, x, g, code(g, inc));
        }
    }
}
/// the same, of the first j listed
pub open spec fn prun(q0: Set<u32>, q: Set<u32>, b: Seq<u32>, j: int, t: Set<u32>, vals: Seq<int>, off: int, n: int, c: int, x: int) -> bool {
    &&& lists(b, t, off, n) && within(t, off, n) && 0 <= j <= b.len() && 0 <= off && 0 <= n && off + n <= lim32() && vals.len() == n
    &&& forall|u: u32| #[trigger] q.contains(u) <==> (q0.contains(u) || (t.contains(u) && u < off + reach(b, j) && rel(c, vals[u - off], x)))
}
pub proof fn prun_step(q0: Set<u32>, qa: Set<u32>, q: Set<u32>, b: Seq<u32>, j: int, t: Set<u32>, vals: Seq<int>, off: int, n: int, c: int, x: int)
    requires j > 0, j <= b.len(), prun(q0, qa, b, j - 1, t, vals, off, n, c, x), q == (if rel(c, vals[b[j - 1] as int], x) { qa.insert((off + b[j - 1]) as u32) } else { qa })
    ensures prun(q0, q, b, j, t, vals, off, n, c, x)
{
    gap(b, t, off, n, j - 1);
    let i = b[j - 1] as int; let y = (off + i) as u32;
    assert(y == off + i && t.contains(y));
    assert forall|u: u32| #[trigger] t.contains(u) && u < off + reach(b, j) implies u < off + reach(b, j - 1) || u == y by {
        if u >= off + reach(b, j - 1) && u < off + i { assert(!sel(Some(t), off + (u - off))); }
    }
}
pub broadcast proof fn prun_done(q0: Set<u32>, q: Set<u32>, b: Seq<u32>, j: int, t: Set<u32>, vals: Seq<int>, off: int, n: int, c: int, x: int)
    requires #[trigger] prun(q0, q, b, j, t, vals, off, n, c, x), j == b.len()
    ensures put(q0, q, Some(t), vals, off, c, x)
{
    gap(b, t, off, n, j);
    assert forall|u: u32| #[trigger] t.contains(u) implies u < off + reach(b, j) by { if u >= off + reach(b, j) { assert(!sel(Some(t), off + (u - off))); } }
}
pub broadcast proof fn pfirst_done(q0: Set<u32>, q: Set<u32>, vals: Seq<int>, off: int, k: int, c: int, x: int)
    requires #[trigger] upto_is(q0, q, vals, off, k, c, x), k == vals.len()
    ensures put(q0, q, None, vals, off, c, x)
{ }
} // mod bh
pub mod bi {
use super::*;
use super::lb::*;
use super::bp::*;
use super::fx::*;
use super::bl::*;
use super::mk::*;
use super::bq::*;
use super::bf::*;
use super::bc::*;
use super::bh::*;
use std::mem;
broadcast use {super::tm_u64_i64, BitPack::reader_of, BitPack::reader_ok, super::bh::prun_done, super::bh::pfirst_done};
//@item ebi/src/decoder/chunk_reader/buff/filter_cmp.rs :: fn buff_simd256_cmp_filter
//@rewritere precision_bound:: =>
//@rewritere (\w+)\.iter\(\)\.map\(\|(\w+)\| \2 - logical_offset\) => shifted(\1, logical_offset)
//@rewritere (\w+)\.replace\((\w+)\); => \1 = Some(\2);
//@rewritere (\w+) \|= (\w+)\b => bm_union(&mut \1, \2)
//@rewritere let mask_for_remaining_bits => let ghost qt = qualified_bitmask@; let mask_for_remaining_bits
//@inline all_if_or_none
//@inline all
//@inline none
//@fn buff_simd256_cmp_filter ret=r
    requires valid(bytes@), q(bytes@, content(bytes@).0, content(bytes@).1, content(bytes@).2, content(bytes@).3, logical_offset as int), logical_offset + content(bytes@).0.len() < lim32(),
        mwithin(ov(bitmask), logical_offset as int, content(bytes@).0.len() as int),
        near62(content(bytes@).1 as int), near62(fixed(pred.to_bits_spec(), content(bytes@).3)), fits(pred.to_bits_spec(), content(bytes@).3)
    ensures cmp_result(r@, content(bytes@).0, content(bytes@).1, ov(bitmask), logical_offset as int, fixed(pred.to_bits_spec(), content(bytes@).3), IS_GREATER, INCLUSIVE)
//@attr
    #[verifier::loop_isolation(false)] #[verifier::rlimit(100)]
//@start
    let ghost c = bytes@;
    let ghost (ds, base, w, f) = content(c);
    let ghost n = ds.len() as int;
    let ghost off = logical_offset as int;
    let ghost m = ov(bitmask);
    let ghost r8 = w % 8;
    let ghost tv = packs(c, tail_at(n, w), r8, n);
    let ghost px = fixed(pred.to_bits_spec(), f);
    let ghost dp = (px - base) as u64;
    let ghost xt = (dp & sub(1u64 << (r8 as u64), 1)) as int;
    proof { content_is(c); words(); layout(c, ds, base, w, f); too_wide(dp, w); if px >= base && wide(dp, w) { agree_start(m, ds, off, w, dp); won_start(ds, m, off, w, dp, IS_GREATER); }
        if px >= base { cmp_end(c, ds, base, w, f, m, off, dp, IS_GREATER, INCLUSIVE); if r8 > 0 { low_bits(dp, r8, w); rest_is(0, n, r8); } }
        assert forall|j: int| 0 <= j < n implies wide(#[trigger] ds[j], w) by { };
        if w == 0 { assert forall|j: int| 0 <= j < n implies #[trigger] ds[j] == 0 by { assert(wide(ds[j], 0)); } } }
//@loop 1
    invariant to_check_bitmask is None ==> remaining_bits_length == w, remaining_bits_length <= w, (w - remaining_bits_length) % 8 == 0, agree(ov(to_check_bitmask), ds, m, off, remaining_bits_length as int, dp), won(qualified_bitmask@, ds, m, off, remaining_bits_length as int, dp, IS_GREATER), delta_fixed_pred == dp, px == base + dp, to_check_bitmask is None ==> m is None,
        bitpack.rok(), bitpack.rd() == c, bitpack.al(), bitpack.p() == at(n, w, remaining_bits_length as int)
    decreases remaining_bits_length
//@loopstart 1
    let ghost rem = remaining_bits_length as int;
    let ghost cs = c.subrange(at(n, w, rem) / 8, at(n, w, rem) / 8 + n);
    let ghost cv = unflipped(cs);
    let ghost pb = (dp >> ((rem - 8) as u64)) as u8;
    proof { col_read(c, ds, base, w, f, rem); col_refines(cs, ds, rem - 8); hi_next(dp, rem - 8); cmp_all(qualified_bitmask@, ov(to_check_bitmask), ds, base, m, off, cv, rem, rem - 8, 256, dp, pb as int, IS_GREATER, INCLUSIVE); }
//@loop 2 ixs
    invariant vx_2 <= vx_2_s@.len(), prun(qt, qualified_bitmask@, vx_2_s@, vx_2 as int, bitmask@, tv, off, n, code(IS_GREATER, INCLUSIVE), xt),
        bitpack.rok(), bitpack.rd() == c, bitpack.p() == tail_at(n, w) + reach(vx_2_s@, vx_2 as int) * r8, expected_record_index_if_sequential == reach(vx_2_s@, vx_2 as int), rest(reach(vx_2_s@, vx_2 as int), n, r8)
    decreases vx_2_s@.len() - vx_2
//@loopstart 2
    let ghost next0 = qualified_bitmask@;
    proof { gap(vx_2_s@, bitmask@, off, n, vx_2 - 1); let i = record_index as int; let a = reach(vx_2_s@, vx_2 - 1);
        skip_fits(a, i, n, r8); tail_has(c, ds, base, w, f, i); tail_val(c, ds, base, w, f, i); lval_is(c, tail_at(n, w) + i * r8, r8); }
//@loopend 2
    proof { rest_is(reach(vx_2_s@, vx_2 as int), n, r8); prun_step(qt, next0, qualified_bitmask@, vx_2_s@, vx_2 as int, bitmask@, tv, off, n, code(IS_GREATER, INCLUSIVE), xt); }
//@loop 3 ix
    invariant vx_3 <= n, vx_3_e == n, bitpack.rok(), bitpack.rd() == c, bitpack.p() == tail_at(n, w) + vx_3 * r8, upto_is(qt, qualified_bitmask@, tv, off, vx_3 as int, code(IS_GREATER, INCLUSIVE), xt)
    decreases n - vx_3
//@loopstart 3
    proof { tail_has(c, ds, base, w, f, i as int); tail_val(c, ds, base, w, f, i as int); lval_is(c, tail_at(n, w) + i * r8, r8); }
//@enditem
} // mod bi
pub mod bw {
use super::*;
use super::lb::*;
use super::bp::*;
use super::fx::*;
use super::bl::*;
use super::mk::*;
use super::bq::*;
use super::bf::*;
use super::bc::*;
use super::bh::*;
pub trait PredicateNumber: Copy {}
impl PredicateNumber for f64 {}
//@item ebi/src/decoder/query.rs :: enum RangeValueImpl
//@rewritere pub enum => #[derive(Clone, Copy)] pub enum
//@enditem
//@item ebi/src/decoder/query.rs :: struct RangeImpl
//@rewritere pub struct => #[derive(Clone, Copy)] pub struct
//@enditem
//@item ebi/src/decoder/query.rs :: enum PredicateImpl
//@rewritere pub enum => #[derive(Clone, Copy)] pub enum
//@enditem
pub type RangeValue = RangeValueImpl<f64>;
pub type Predicate = PredicateImpl<f64>;
//@item ebi/src/decoder/query.rs :: impl<T: PredicateNumber> RangeImpl<T>
//@only start, end
//@fn start ret=r
    ensures r == self.start
//@fn end ret=r
    ensures r == self.end
//@enditem
//@item ebi/src/decoder/chunk_reader/buff.rs :: struct BUFFReader
//@enditem
/// a chunk in memory and its number of records
pub open spec fn loaded(b: Seq<u8>, n: u64, off: int) -> bool {
    valid(b) && content(b).0.len() == n && q(b, content(b).0, content(b).1, content(b).2, content(b).3, off) && off + n < lim32()
}
/// the predicate on fixed-point values
pub open spec fn start_ok(s: RangeValue, f: int, x: int) -> bool { match s { RangeValueImpl::Inclusive(v) => x >= fixed(v.to_bits_spec(), f), RangeValueImpl::Exclusive(v) => x > fixed(v.to_bits_spec(), f), RangeValueImpl::None => true } }
pub open spec fn end_ok(s: RangeValue, f: int, x: int) -> bool { match s { RangeValueImpl::Inclusive(v) => x <= fixed(v.to_bits_spec(), f), RangeValueImpl::Exclusive(v) => x < fixed(v.to_bits_spec(), f), RangeValueImpl::None => true } }
pub open spec fn holds(p: Predicate, f: int, x: int) -> bool {
    match p { PredicateImpl::Eq(v) => x == fixed(v.to_bits_spec(), f), PredicateImpl::Ne(v) => x != fixed(v.to_bits_spec(), f), PredicateImpl::Range(r) => start_ok(r.start, f, x) && end_ok(r.end, f, x) }
}
pub open spec fn bound_fits(v: f64, f: int) -> bool { near62(fixed(v.to_bits_spec(), f)) && fits(v.to_bits_spec(), f) }
pub open spec fn range_fits(s: RangeValue, f: int) -> bool { match s { RangeValueImpl::Inclusive(v) => bound_fits(v, f), RangeValueImpl::Exclusive(v) => bound_fits(v, f), RangeValueImpl::None => true } }
pub open spec fn pred_fits(p: Predicate, f: int) -> bool { match p { PredicateImpl::Eq(v) => bound_fits(v, f), PredicateImpl::Ne(v) => bound_fits(v, f), PredicateImpl::Range(r) => range_fits(r.start, f) && range_fits(r.end, f) } }
pub open spec fn kept(r: Set<u32>, ds: Seq<u64>, base: i64, f: int, m: Option<Set<u32>>, off: int, p: Predicate) -> bool {
    forall|u: u32| #[trigger] r.contains(u) <==> (off <= u < off + ds.len() && sel(m, u as int) && holds(p, f, base + ds[u - off]))
}
/// the part of a mask that falls on this chunk
pub open spec fn cut_to(m: Option<Set<u32>>, c: Option<Set<u32>>, off: int, n: int) -> bool { (m is Some <==> c is Some) && (m is Some ==> forall|u: u32| #[trigger] c->0.contains(u) <==> (m->0.contains(u) && off <= u < off + n)) }
pub open spec fn picked(r: Set<u32>, v: Seq<u32>, j: int, off: int, n: int) -> bool { forall|u: u32| #[trigger] r.contains(u) <==> (off <= u < off + n && exists|i: int| 0 <= i < j && #[trigger] v[i] == u) }
pub broadcast proof fn picked_done(r: Set<u32>, v: Seq<u32>, j: int, off: int, n: int)
    requires #[trigger] picked(r, v, j, off, n), j == v.len()
    ensures forall|u: u32| #[trigger] r.contains(u) <==> (off <= u < off + n && v.contains(u)), forall|u: u32| off <= u < off + n && #[trigger] v.contains(u) ==> r.contains(u)
{ }
/// some record of the chunk is selected
pub open spec fn any_sel(m: Option<Set<u32>>, off: int, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] sel(m, off + i) }
pub proof fn same_fold(f: Seq<int>, m: Set<u32>, c: Set<u32>, off: int, n: int, k: int)
    requires cut_to(Some(m), Some(c), off, n), 0 <= k <= n, 0 <= off, off + n <= lim32()
    ensures fsum(f, Some(c), off, k) == fsum(f, Some(m), off, k), cnt(Some(c), off, k) == cnt(Some(m), off, k)
    decreases k
{ if k > 0 { same_fold(f, m, c, off, n, k - 1); let u = (off + (k - 1)) as u32; assert(c.contains(u) <==> (m.contains(u) && off <= u < off + n)); } }
pub proof fn same_folds(f: Seq<int>, m: Option<Set<u32>>, off: int, n: int)
    requires 0 <= n, 0 <= off, off + n <= lim32()
    ensures m is Some ==> forall|c: Set<u32>| cut_to(m, Some(c), off, n) ==> #[trigger] fsum(f, Some(c), off, n) == fsum(f, m, off, n) && cnt(Some(c), off, n) == cnt(m, off, n)
{ if m is Some { assert forall|c: Set<u32>| cut_to(m, Some(c), off, n) implies #[trigger] fsum(f, Some(c), off, n) == fsum(f, m, off, n) && cnt(Some(c), off, n) == cnt(m, off, n) by { same_fold(f, m->0, c, off, n, n); } } }
#[verifier::external_body]
pub fn fnan() -> f64 { f64::NAN }
//@item ebi/src/decoder/chunk_reader/buff.rs :: impl QueryExecutor for BUFFReader
//@only filter, max, min, sum
//@rewritere impl QueryExecutor for BUFFReader => impl BUFFReader
//@rewritere crate::decoder::Result => decoder::Result
//@rewritere roaring::RoaringBitmap => RoaringBitmap
//@rewritere filter_eq:: => bg::
//@rewritere filter_cmp:: => bi::
//@rewritere min_max:: => bx::
//@rewritere sum::sum_with => sum_with
//@rewritere f64::NAN => fnan()
//@rewritere bitmask\.clone\(\) => bm_clone(&bitmask)
//@rewritere bitmask\.as_ref\(\) => (match &bitmask { Some(vi_b) => Some(vi_b), None => None })
//@rewritere (?s)bitmask\.map\(\|x\| \{\s*x\.iter\(\)\s*\.filter\(\|&x\| ([^)]*)\)\s*\.collect\(\)\s*\}\) => (match bitmask { Some(vi_b) => { let vi_v = members(vi_b); let mut vi_r = RoaringBitmap::new(); let mut vi_k: usize = 0; while vi_k < vi_v.len() invariant vi_k <= vi_v@.len(), picked(vi_r@, vi_v@, vi_k as int, logical_offset as int, number_of_records as int), logical_offset + number_of_records < lim32() decreases vi_v@.len() - vi_k { let x = vi_v[vi_k]; vi_k += 1; if \1 { vi_r.insert(x); } } Some(vi_r) }, None => None })
//@rewritere (?s)bitmask\.map\(\|x\| \{\s*RoaringBitmap::from_sorted_iter\(\s*x\.iter\(\)\s*\.filter\(\|&x\| ([^)]*)\),\s*\)\s*\.unwrap\(\)\s*\}\) => (match bitmask { Some(vi_b) => { let vi_v = members(vi_b); let mut vi_r = RoaringBitmap::new(); let mut vi_k: usize = 0; while vi_k < vi_v.len() invariant vi_k <= vi_v@.len(), picked(vi_r@, vi_v@, vi_k as int, logical_offset as int, number_of_records as int), logical_offset + number_of_records < lim32() decreases vi_v@.len() - vi_k { let x = vi_v[vi_k]; vi_k += 1; if \1 { vi_r.insert(x); } } Some(vi_r) }, None => None })
//@rewritere (\w+) - result\b => bm_minus(\1, result)
//@rewritere all\(\) - result\b => bm_minus(all(), result)
//@rewritere left & right => bm_and(&left, right)
//@inline all
//@fn filter ret=r
    requires loaded(old(self).bytes@, old(self).number_of_records, logical_offset as int), near62(content(old(self).bytes@).1 as int), pred_fits(predicate, content(old(self).bytes@).3)
    ensures *final(self) == *old(self), r is Ok, kept(r->Ok_0@, content(old(self).bytes@).0, content(old(self).bytes@).1, content(old(self).bytes@).3, mv(bitmask), logical_offset as int, predicate)
//@start
    broadcast use picked_done;
//@fn max ret=r
    requires loaded(old(self).bytes@, old(self).number_of_records, logical_offset as int), old(self).number_of_records > 0
    ensures *final(self) == *old(self), r is Ok, any_sel(mv(bitmask), logical_offset as int, content(old(self).bytes@).0.len() as int) ==> extreme(content(old(self).bytes@).0, content(old(self).bytes@).1, content(old(self).bytes@).3, mv(bitmask), logical_offset as int, false, r->Ok_0)
//@start
    broadcast use picked_done;
//@fn min ret=r
    requires loaded(old(self).bytes@, old(self).number_of_records, logical_offset as int), old(self).number_of_records > 0, tight(content(old(self).bytes@).0)
    ensures *final(self) == *old(self), r is Ok, any_sel(mv(bitmask), logical_offset as int, content(old(self).bytes@).0.len() as int) ==> extreme(content(old(self).bytes@).0, content(old(self).bytes@).1, content(old(self).bytes@).3, mv(bitmask), logical_offset as int, true, r->Ok_0)
//@start
    broadcast use picked_done;
//@fn sum ret=r
    requires loaded(old(self).bytes@, old(self).number_of_records, logical_offset as int), forall|m: Option<Set<u32>>| #[trigger] sum_fits(content(old(self).bytes@).0, content(old(self).bytes@).1, m, logical_offset as int)
    ensures *final(self) == *old(self), r is Ok, ({ let (ds, base, w, f) = content(old(self).bytes@); let n = ds.len() as int; let off = logical_offset as int; let k = cnt(mv(bitmask), off, n);
        r->Ok_0 == if w == 0 { times_s(val(base as int, f), k as u64) } else { val(base * k + fsum(ints(ds), mv(bitmask), off, n), f) } })
//@start
    broadcast use picked_done;
    proof { same_folds(ints(content(self.bytes@).0), mv(bitmask), logical_offset as int, content(self.bytes@).0.len() as int); }
//@enditem
} // mod bw
} // verus!
fn main() {}
