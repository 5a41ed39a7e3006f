//@include lib/prelude.rs
//@include lib/float.rs
//@include lib/lbits.rs
//@include lib/bp.rs
//@include lib/fx.rs
//@include lib/buff.rs
//@include lib/timer.rs
pub mod bd {
use super::*;
use super::lb::*;
use super::bp::*;
use super::fx::*;
use super::bl::*;
use std::mem;
broadcast use super::tm_u64_i64;
// doubles stay uninterpreted: x / 2^f
pub uninterp spec fn pow2f_s(f: i32) -> f64;
pub uninterp spec fn unfix_s(x: i64, scale: f64) -> f64;
#[verifier::external_body]
fn pow2f(f: i32) -> (r: f64) ensures r == pow2f_s(f) { 2.0f64.powi(f) }
#[verifier::external_body]
fn unfix(x: i64, scale: f64) -> (r: f64) ensures r == unfix_s(x, scale) { x as f64 / scale }
#[verifier::external_body]
fn rep_vec(x: f64, n: usize) -> (r: Vec<f64>) ensures r@ == Seq::new(n as nat, |i: int| x) { vec![x; n] }
/// the value stored as x with f fractional bits
pub open spec fn val(x: int, f: int) -> f64 { unfix_s(x as i64, pow2f_s(f as i32)) }
pub proof fn words()
    ensures forall|a: u32, b: u32| #[trigger] ((a as u64) | ((b as u64) << 32)) == a + 0x1_0000_0000 * b,
        forall|b: i64| #[trigger] ((b as u64) as i64) == b,
        forall|b: u8| (#[trigger] (b ^ 0x80u8)) ^ 0x80u8 == b,
        forall|d: u64| #[trigger] (d >> 0u64) == d,
{
    assert forall|b: u8| (#[trigger] (b ^ 0x80u8)) ^ 0x80u8 == b by { assert((b ^ 0x80u8) ^ 0x80u8 == b) by (bit_vector); }
    assert forall|d: u64| #[trigger] (d >> 0u64) == d by { assert(d >> 0u64 == d) by (bit_vector); }
    assert forall|a: u32, b: u32| #[trigger] ((a as u64) | ((b as u64) << 32)) == a + 0x1_0000_0000 * b by {
        assert(((a as u64) | ((b as u64) << 32)) == add(a as u64, mul(0x1_0000_0000u64, b as u64))) by (bit_vector);
    }
    assert forall|b: i64| #[trigger] ((b as u64) as i64) == b by { assert((b as u64) as i64 == b) by (bit_vector); }
}
//@item ebi/src/decoder/chunk_reader/buff/decode.rs :: fn buff_simd256_decode
//@desugar
//@rewritere 2\.0f64\.powi\((\w+) as i32\) => pow2f(\1 as i32)
//@rewritere \(base_fixed64 \+ (\w+) as i64\) as f64 / scale => unfix(base_fixed64 + \1 as i64, scale)
//@rewritere base_fixed64 as f64 / scale => unfix(base_fixed64, scale)
//@rewritere vec!\[(.*); number_of_records as usize\] => rep_vec(\1, number_of_records as usize)
//@fn buff_simd256_decode ret=r
    requires valid(bytes@)
    ensures r@.len() == content(bytes@).0.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == val(content(bytes@).1 + content(bytes@).0[i], content(bytes@).3)
//@attr
    #[verifier::loop_isolation(false)]
//@start
    broadcast use {BitPack::reader_of, BitPack::reader_ok};
    let ghost c = bytes@;
    let ghost (ds, base, w, f) = content(c);
    let ghost n = ds.len() as int;
    let ghost t = tail_at(n, w);
    let ghost r8 = w % 8;
    proof { content_is(c); words(); reveal(chunk); reveal(w32);
        assert((w / 8) * n >= 0 && (w / 8) * n <= 8 * n) by (nonlinear_arith) requires 0 <= w < 64, n >= 0;
        assert(n * r8 >= 0 && n * r8 <= 8 * n) by (nonlinear_arith) requires 0 <= r8 < 8, n >= 0;
        assert(w >= 8 ==> n <= (w / 8) * n) by (nonlinear_arith) requires 0 <= w < 64, n >= 0;
        assert forall|k: int| k == 1 implies #[trigger] (k * n) == n by { assert(k * n == n) by (nonlinear_arith) requires k == 1; }
        assert(w < 8 ==> (w / 8) * n == 0) by (nonlinear_arith) requires 0 <= w < 64, n >= 0;
    }
//@loop 1 ix
    invariant vx_1 <= n, bitpack.rok(), bitpack.rd() == c, bitpack.p() == t + vx_1 * r8, expected_datapoints@.len() == vx_1, forall|i: int| 0 <= i < vx_1 ==> #[trigger] expected_datapoints@[i] == val(base + ds[i], f)
    decreases n - vx_1
//@loopstart 1
    proof { tail_val(c, ds, base, w, f, vx_1 - 1); }
//@loop 2 ix
    invariant vx_2 <= n, fixed_vec@.len() == vx_2, forall|i: int| 0 <= i < vx_2 ==> #[trigger] fixed_vec@[i] == top(ds[i], remaining_bits_length as int)
    decreases n - vx_2
//@loopstart 2
    proof { assert(col(c, ds, w, 0)); reveal(col); assert(c[20 + 0 * ds.len() + (vx_2 - 1)] == flip_s((ds[vx_2 - 1] >> ((w - 8) as u64)) as u8)); tail_val(c, ds, base, w, f, vx_2 - 1); top_first(ds[vx_2 - 1], w - 8); }
//@loop 3
    invariant fixed_vec@.len() == n, remaining_bits_length <= w - 8, (w - remaining_bits_length) % 8 == 0, forall|i: int| 0 <= i < n ==> #[trigger] fixed_vec@[i] == top(ds[i], remaining_bits_length as int),
        bitpack.rok(), bitpack.rd() == c, bitpack.al(), bitpack.p() == 8 * (20 + ((w - remaining_bits_length) / 8) * n)
    decreases remaining_bits_length
//@loopstart 3
    let ghost k = (w - remaining_bits_length) / 8;
    proof { assert(k * n + n == (k + 1) * n && (k + 1) * n <= (w / 8) * n && k * n >= 0) by (nonlinear_arith) requires 0 <= k, k + 1 <= w / 8, n >= 0; assert(col(c, ds, w, k)); }
//@loop 4
    invariant vz_1 <= n, fixed_vec@.len() == n, forall|i: int| 0 <= i < vz_1 ==> #[trigger] fixed_vec@[i] == top(ds[i], remaining_bits_length as int),
        forall|i: int| vz_1 <= i < n ==> #[trigger] fixed_vec@[i] == top(ds[i], remaining_bits_length + 8)
    decreases n - vz_1
//@loopstart 4
    proof { reveal(col); assert(c[20 + k * ds.len() + (vz_1)] == flip_s((ds[vz_1 as int] >> ((w - 8 * (k + 1)) as u64)) as u8)); tail_val(c, ds, base, w, f, vz_1 as int); top_next(ds[vz_1 as int], remaining_bits_length as int); }
//@loop 5
    invariant vc_2_i <= n, vc_2_z == vc_2_i, vc_2_s@.len() == n, bitpack.rok(), bitpack.rd() == c, bitpack.p() == t + vc_2_i * r8, vc_2@.len() == vc_2_i,
        forall|i: int| 0 <= i < vc_2_i ==> #[trigger] vc_2@[i] == val(base + ds[i], f)
    decreases n - vc_2_i
//@loopstart 5
    proof { tail_val(c, ds, base, w, f, vc_2_i as int); }
//@loop 6 ixv
    invariant vx_6 <= n, fixed_vec@.len() == n, vc_3@.len() == vx_6, forall|i: int| 0 <= i < vx_6 ==> #[trigger] vc_3@[i] == val(base + ds[i], f)
    decreases n - vx_6
//@loopstart 6
    proof { tail_val(c, ds, base, w, f, vx_6 - 1); top_zero(ds[vx_6 - 1]); }
//@enditem
/// how many low bits are left out when u bits are not needed: whole byte columns, as many as fit
pub open spec fn stop(rem: int, u: int) -> int decreases rem { if rem >= 8 && rem > u { stop(rem - 8, u) } else { rem } }
pub open spec fn cut(w: int, u: int) -> int { if w < 8 { 0 } else { let s = stop(w - 8, u); if s <= u { s } else { 0 } } }
pub proof fn stop_range(rem: int, u: int)
    requires rem >= 0
    ensures 0 <= stop(rem, u) <= rem, stop(rem, u) < 8 || stop(rem, u) <= u, stop(rem, u) % 8 == rem % 8
    decreases rem
{ if rem >= 8 && rem > u { stop_range(rem - 8, u); } }
pub proof fn top_less(d: u64, s: int)
    requires 0 <= s < 64
    ensures top(d, s) <= d, d - top(d, s) < 1u64 << (s as u64)
{ let y = s as u64; assert((d >> y) << y <= d && sub(d, (d >> y) << y) < 1u64 << y) by (bit_vector) requires y < 64; }
//@item ebi/src/decoder/chunk_reader/buff/controlled_precision.rs :: fn decode_with_precision
//@desugar
//@rewritere 2\.0f64\.powi\((\w+) as i32\) => pow2f(\1 as i32)
//@rewritere \(base_fixed64 \+ (\w+) as i64\) as f64 / scale => unfix(base_fixed64 + \1 as i64, scale)
//@rewritere base_fixed64 as f64 / scale => unfix(base_fixed64, scale)
//@rewritere vec!\[(.*); number_of_records as usize\] => rep_vec(\1, number_of_records as usize)
//@fn decode_with_precision ret=r
    requires valid(bytes@), precision < 13
    ensures r@.len() == content(bytes@).0.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == val(content(bytes@).1 + top(content(bytes@).0[i], cut(content(bytes@).2, content(bytes@).3 - PRECISION_MAP[precision as int])), content(bytes@).3)
//@attr
    #[verifier::loop_isolation(false)]
//@start
    broadcast use {BitPack::reader_of, BitPack::reader_ok};
    let ghost c = bytes@;
    let ghost (ds, base, w, f) = content(c);
    let ghost n = ds.len() as int;
    let ghost t = tail_at(n, w);
    let ghost r8 = w % 8;
    let ghost u = f - PRECISION_MAP[precision as int];
    proof { precision_map_separates(); content_is(c); assert forall|d: u64| #[trigger] top(d, 0) == d by { top_zero(d); } words(); reveal(chunk); reveal(w32);
        assert((w / 8) * n >= 0 && (w / 8) * n <= 8 * n) by (nonlinear_arith) requires 0 <= w < 64, n >= 0;
        assert(n * r8 >= 0 && n * r8 <= 8 * n) by (nonlinear_arith) requires 0 <= r8 < 8, n >= 0;
        assert(w >= 8 ==> n <= (w / 8) * n) by (nonlinear_arith) requires 0 <= w < 64, n >= 0;
        assert forall|k: int| k == 1 implies #[trigger] (k * n) == n by { assert(k * n == n) by (nonlinear_arith) requires k == 1; }
        assert(w < 8 ==> (w / 8) * n == 0) by (nonlinear_arith) requires 0 <= w < 64, n >= 0;
    }
//@loop 1 ix
    invariant vx_1 <= n, bitpack.rok(), bitpack.rd() == c, bitpack.p() == t + vx_1 * r8, expected_datapoints@.len() == vx_1, forall|i: int| 0 <= i < vx_1 ==> #[trigger] expected_datapoints@[i] == val(base + ds[i], f)
    decreases n - vx_1
//@loopstart 1
    proof { tail_val(c, ds, base, w, f, vx_1 - 1); }
//@loop 2 ix
    invariant vx_2 <= n, fixed_vec@.len() == vx_2, forall|i: int| 0 <= i < vx_2 ==> #[trigger] fixed_vec@[i] == top(ds[i], remaining_bits_length as int)
    decreases n - vx_2
//@loopstart 2
    proof { assert(col(c, ds, w, 0)); reveal(col); assert(c[20 + 0 * ds.len() + (vx_2 - 1)] == flip_s((ds[vx_2 - 1] >> ((w - 8) as u64)) as u8)); tail_val(c, ds, base, w, f, vx_2 - 1); top_first(ds[vx_2 - 1], w - 8); }
//@loop 3
    invariant fixed_vec@.len() == n, remaining_bits_length <= w - 8, (w - remaining_bits_length) % 8 == 0, forall|i: int| 0 <= i < n ==> #[trigger] fixed_vec@[i] == top(ds[i], remaining_bits_length as int),
        stop(remaining_bits_length as int, u) == stop(w - 8, u), bitpack.rok(), bitpack.rd() == c, bitpack.al(), bitpack.p() == 8 * (20 + ((w - remaining_bits_length) / 8) * n)
    decreases remaining_bits_length
//@loopstart 3
    let ghost k = (w - remaining_bits_length) / 8;
    proof { assert(k * n + n == (k + 1) * n && (k + 1) * n <= (w / 8) * n && k * n >= 0) by (nonlinear_arith) requires 0 <= k, k + 1 <= w / 8, n >= 0; assert(col(c, ds, w, k)); }
//@loop 4
    invariant vz_1 <= n, fixed_vec@.len() == n, forall|i: int| 0 <= i < vz_1 ==> #[trigger] fixed_vec@[i] == top(ds[i], remaining_bits_length as int),
        forall|i: int| vz_1 <= i < n ==> #[trigger] fixed_vec@[i] == top(ds[i], remaining_bits_length + 8)
    decreases n - vz_1
//@loopstart 4
    proof { reveal(col); assert(c[20 + k * ds.len() + (vz_1)] == flip_s((ds[vz_1 as int] >> ((w - 8 * (k + 1)) as u64)) as u8)); tail_val(c, ds, base, w, f, vz_1 as int); top_next(ds[vz_1 as int], remaining_bits_length as int); }
//@loop 5 ixv
    invariant vx_5 <= n, fixed_vec@.len() == n, vc_2@.len() == vx_5, forall|i: int| 0 <= i < vx_5 ==> #[trigger] vc_2@[i] == val(base + top(ds[i], remaining_bits_length as int), f)
    decreases n - vx_5
//@loopstart 5
    proof { tail_val(c, ds, base, w, f, vx_5 - 1); top_less(ds[vx_5 - 1], remaining_bits_length as int); }
//@loop 6
    invariant vc_3_i <= n, vc_3_z == vc_3_i, vc_3_s@.len() == n, bitpack.rok(), bitpack.rd() == c, bitpack.p() == t + vc_3_i * r8, vc_3@.len() == vc_3_i,
        forall|i: int| 0 <= i < vc_3_i ==> #[trigger] vc_3@[i] == val(base + ds[i], f)
    decreases n - vc_3_i
//@loopstart 6
    proof { tail_val(c, ds, base, w, f, vc_3_i as int); }
//@enditem
/// v is a stored value x with x <= d, off by less than the step 2^(f-fp) of the precision asked for (not at all when fp covers f)
pub open spec fn near(v: f64, base: i64, f: int, d: u64, x: u64, fp: int) -> bool { v == val(base + x, f) && x <= d && d - x < 1u64 << ((if f > fp { f - fp } else { 0 }) as u64) }
pub open spec fn near_some(v: f64, base: i64, f: int, d: u64, fp: int) -> bool { exists|x: u64| #[trigger] near(v, base, f, d, x, fp) }
/// Reading with less precision: at or below the stored value by less than the step of p decimals, and the stored value itself when p covers all decimals.
pub fn less_precision(bytes: &[u8], precision: u32) -> (r: Vec<f64>)
    requires valid(bytes@), precision < 13
    ensures ({ let (ds, base, w, f) = content(bytes@); let fp = PRECISION_MAP[precision as int] as int;
        r@.len() == ds.len() && forall|i: int| 0 <= i < ds.len() ==> #[trigger] near_some(r@[i], base, f, ds[i], fp) })
{
    let r = decode_with_precision(bytes, precision);
    proof {
        let (ds, base, w, f) = content(bytes@); let fp = PRECISION_MAP[precision as int] as int;
        let u = f - fp;
        content_is(bytes@); reveal(chunk);
        let s = cut(w, u);
        if w >= 8 { stop_range(w - 8, u); }
        assert forall|i: int| 0 <= i < ds.len() implies #[trigger] near_some(r@[i], base, f, ds[i], fp) by {
            top_less(ds[i], s);
            let a = s as u64; let b = (if f > fp { f - fp } else { 0 }) as u64;
            precision_map_separates();
            assert(1u64 << a <= 1u64 << b) by (bit_vector) requires a <= b, b < 64;
            assert(near(r@[i], base, f, ds[i], top(ds[i], s), fp));
        }
    }
    r
}
} // mod bd
pub mod br {
use super::*;
use super::lb::*;
use super::bp::*;
use super::fx::*;
use super::bl::*;
use super::bd::*;
pub mod decoder { pub enum DecoderError { Other } pub type Result<T> = std::result::Result<T, DecoderError>; }
//@item ebi/src/decoder/chunk_reader/buff.rs :: struct BUFFReader
//@enditem
/// no coarser than asked for: None is full precision
pub open spec fn fine(have: Option<u32>, asked: Option<u32>) -> bool { have is None || (asked is Some && have->0 >= asked->0) }
/// the records of a chunk read with a precision
pub open spec fn reads(v: Seq<f64>, c: Seq<u8>, p: Option<u32>) -> bool {
    let (ds, base, w, f) = content(c);
    v.len() == ds.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == val(base + top(ds[i], if p is Some { cut(w, f - PRECISION_MAP[p->0 as int]) } else { 0 }), f)
}
/// the records read with at least the precision asked for
pub open spec fn fresh(v: Seq<f64>, c: Seq<u8>, asked: Option<u32>) -> bool { exists|p: Option<u32>| (p is Some ==> p->0 < 13) && fine(p, asked) && #[trigger] reads(v, c, p) }
impl BUFFReader {
    pub closed spec fn src(&self) -> Seq<u8> { self.bytes@ }
    pub closed spec fn asked(&self) -> Option<u32> { self.precision }
    /// a chunk, and what is kept of it was read with at least the precision asked for
    pub closed spec fn rok(&self) -> bool {
        valid(self.bytes@) && (self.precision is Some ==> self.precision->0 < 13) && (self.decompressed is Some ==> fresh(self.decompressed->0@, self.bytes@, self.precision))
    }
}
pub proof fn full(c: Seq<u8>, v: Seq<f64>)
    requires v.len() == content(c).0.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == val(content(c).1 + content(c).0[i], content(c).3)
    ensures reads(v, c, None)
{ assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] == val(content(c).1 + top(content(c).0[i], 0), content(c).3) by { top_zero(content(c).0[i]); } }
pub open spec fn exact(v: Seq<f64>, c: Seq<u8>, p: Option<u32>) -> bool {
    v.len() == content(c).0.len() && match p { None => forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == val(content(c).1 + content(c).0[i], content(c).3),
        Some(p) => forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == val(content(c).1 + top(content(c).0[i], cut(content(c).2, content(c).3 - PRECISION_MAP[p as int])), content(c).3) }
}
pub proof fn fulls(c: Seq<u8>, p: Option<u32>)
    requires p is Some ==> p->0 < 13
    ensures forall|v: Seq<f64>| exact(v, c, p) ==> #[trigger] fresh(v, c, p)
{ assert forall|v: Seq<f64>| exact(v, c, p) implies #[trigger] fresh(v, c, p) by { if p is None { full(c, v); } assert(reads(v, c, p)); } }
//@item ebi/src/decoder/chunk_reader/buff.rs :: impl BUFFReader
//@skip new
//@rewritere self\.precision\.is_none_or\(\|(\w+)\| (.*)\) \{ => (match self.precision { None => true, Some(\1) => \2 }) {
//@fn with_controlled_precision
    requires old(self).rok(), precision < 13
    ensures final(self).rok(), final(self).src() == old(self).src(), final(self).asked() == Some(precision)
//@fn is_full_precision ret=r
    ensures r == (self.asked() is None)
//@fn precision ret=r
    ensures r == self.asked()
//@enditem
//@item ebi/src/decoder/chunk_reader/buff.rs :: impl Reader for BUFFReader
//@rewritere Reader for BUFF => BUFF
//@only decompress, set_decompress_result, decompress_result
//@rewritere type NativeHeader = \(\); =>
//@rewritere type DecompressIterator<'a>\s*= BUFFIterator<'a>\s*where\s*Self: 'a; =>
//@rewritere controlled_precision:: =>
//@rewritere decode:: =>
//@rewritere self\.decompressed\.as_deref\(\) => match &self.decompressed { Some(v) => Some(v.as_slice()), None => None }
//@rewritere self\.decompressed\.as_ref\(\)\.unwrap\(\) => match &self.decompressed { Some(v) => v.as_slice(), None => vstd::pervasive::unreached() }
//@fn decompress ret=r
    requires old(self).rok()
    ensures r is Ok, final(self).rok(), final(self).src() == old(self).src(), final(self).asked() == old(self).asked(), fresh(r->Ok_0@, old(self).src(), old(self).asked())
//@start
    proof { fulls(self.bytes@, self.precision); }
//@fn set_decompress_result ret=r
    ensures r@ == data@, final(self).src() == old(self).src(), final(self).asked() == old(self).asked()
//@fn decompress_result ret=r
    requires old(self).rok()
    ensures *final(self) == *old(self), r is Some ==> fresh(r->0@, old(self).src(), old(self).asked())
//@enditem
} // mod br
} // verus!
fn main() {}
