//@include lib/prelude.rs
//@include lib/float.rs
//@include lib/lbits.rs
//@include lib/bp.rs
//@include lib/fx.rs
//@include lib/buff.rs
pub broadcast axiom fn tm_i64_u64(s: i64) ensures #[trigger] tm::<i64, u64>(s) == s as u64;
pub assume_specification [i64::leading_zeros] (x: i64) -> (r: u32) ensures r == vstd::std_specs::bits::u64_leading_zeros(x as u64);
pub assume_specification<'a, T: Copy> [std::option::Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>) ensures o is None ==> r is None, o is Some ==> r == Some(*o->0);
//@include lib/timer.rs
pub mod be {
use super::*;
use super::lb::*;
use super::bp::*;
use super::fx::*;
use super::bl::*;
use super::fx as precision_bound;
use std::mem;
use std::mem::size_of;
broadcast use {super::lb::l8_zero, super::tm_i64_u64, super::bl::packed_le32, super::bl::le32_ext, super::bl::clean_end, super::bl::clean_push, super::bl::tail_none, super::bl::push_same, super::bl::col_push};
pub mod encoder { pub struct EncoderError { } pub type Result<T> = std::result::Result<T, EncoderError>; }
global size_of f64 == 8;
global size_of u32 == 4;
/// (scale as f32).log10() as usize: d for scale 10^d (checked by the oracle for d up to 10)
pub uninterp spec fn dec_s(scale: usize) -> usize;
#[verifier::external_body]
fn decimals(scale: usize) -> (r: usize) requires scale != 0 ensures r == dec_s(scale) { (scale as f32).log10() as usize }
#[verifier::external_body]
fn next_multiple(a: usize, b: usize) -> (r: usize) requires a + b < 0x8000_0000_0000_0000, b > 0 ensures a <= r < a + b { a.next_multiple_of(b) }
pub open spec fn prec(scale: usize) -> int { if scale == 0 { 0 } else { dec_s(scale) as int } }
pub open spec fn fb(scale: usize) -> int { PRECISION_MAP[prec(scale)] as int }
/// what the property asks of a value: its fixed-point form fits 62 bits
pub open spec fn fits62(b: u64, f: int) -> bool { 0 <= f <= 52 && bexp(b) + f <= 61 }
pub proof fn mag62(b: u64, f: int)
    requires fits62(b, f)
    ensures 0 <= mag(b, f) < 0x4000_0000_0000_0000
{
    use vstd::arithmetic::power2::*;
    use vstd::arithmetic::div_mod::*;
    if bexp(b) + f >= 0 {
        let k = (bexp(b) + f) as nat;
        let p = pow2(k) as int;
        lemma_pow2_pos(k);
        lemma2_to64_rest();
        if k < 61 { lemma_pow2_strictly_increases(k, 61); }
        assert(p <= 0x2000_0000_0000_0000);
        assert((b & 0xf_ffff_ffff_ffff) < 0x10_0000_0000_0000) by (bit_vector);
        let m = mant(b);
        assert(0 <= m * p < 0x20_0000_0000_0000 * 0x2000_0000_0000_0000) by (nonlinear_arith) requires 0 < p <= 0x2000_0000_0000_0000, 0 <= m < 0x20_0000_0000_0000;
        lemma_div_pos_is_pos(m * p, 0x10_0000_0000_0000);
        lemma_multiply_divide_lt(m * p, 0x10_0000_0000_0000, 0x4000_0000_0000_0000);
    }
}
//@item ebi/src/compressor/buff.rs :: struct Precalculated
//@enditem
impl Precalculated {
    pub closed spec fn vals(&self) -> Seq<i64> { self.fixed_representation_values@ }
    pub closed spec fn p(&self) -> int { self.precision as int }
    pub closed spec fn ok(&self) -> bool {
        let v = self.fixed_representation_values@;
        &&& v.len() < 0x1_0000_0000
        &&& self.precision < 13
        &&& forall|i: int| 0 <= i < v.len() ==> -0x4000_0000_0000_0000 < #[trigger] v[i] < 0x4000_0000_0000_0000
        &&& v.len() > 0 ==> self.min < v.len() && self.max < v.len() && forall|i: int| 0 <= i < v.len() ==> v[self.min as int] <= #[trigger] v[i] <= v[self.max as int]
    }
    pub closed spec fn lo(&self) -> int { if self.vals().len() == 0 { 0 } else { self.vals()[self.min as int] as int } }
    pub closed spec fn wbits(&self) -> int { if self.hi() == self.lo() { 0 } else { 64 - vstd::std_specs::bits::u64_leading_zeros((self.hi() - self.lo()) as u64) } }
    pub closed spec fn hi(&self) -> int { if self.vals().len() == 0 { 0 } else { self.vals()[self.max as int] as int } }
}
impl Precalculated {
    pub proof fn least_in(&self)
        requires self.ok()
        ensures tight(deltas(*self))
    { if self.vals().len() > 0 { assert(deltas(*self)[self.min as int] == 0); } }
    pub proof fn wbits_range(&self)
        requires self.ok()
        ensures 0 <= self.wbits() < 64, self.vals().len() == 0 ==> self.wbits() == 0, forall|i: int| 0 <= i < self.vals().len() ==> wide((#[trigger] self.vals()[i] - self.lo()) as u64, self.wbits())
    {
            let d = (self.hi() - self.lo()) as u64;
            if d != 0 {
                vstd::std_specs::bits::axiom_u64_leading_zeros(d);
                let lz = vstd::std_specs::bits::u64_leading_zeros(d);
                assert(lz > 0) by { assert(d < 0x8000_0000_0000_0000); if lz == 0 { assert(d >> 63u64 & 1u64 == 0u64) by (bit_vector) requires d < 0x8000_0000_0000_0000u64; } }
                let w = (64 - lz) as u64;
                assert forall|x: u64| x <= d implies #[trigger] (x >> w) == 0 by {
                    assert(x >> w == 0) by (bit_vector) requires x <= d, d >> w == 0, w < 64;
                }
            }
            assert forall|x: u64| x == 0 implies #[trigger] (x >> 0u64) == 0 by { assert(0u64 >> 0u64 == 0) by (bit_vector); }
    }
}
//@item ebi/src/compressor/buff.rs :: impl Precalculated
//@desugar
//@rewritere \(scale as f32\)\.log10\(\) as usize => decimals(scale)
//@rewritere \((\w+) \* (\w+)\)\.next_multiple_of\(8\) => next_multiple(\1 * \2, 8)
//@fn precalculate ret=r
    requires floats@.len() < 0x1_0000_0000, prec(scale) < 13,
        forall|i: int| 0 <= i < floats@.len() ==> fits62((#[trigger] floats@[i]).to_bits_spec(), fb(scale))
    ensures r.ok(), r.p() == prec(scale), r.vals().len() == floats@.len(),
        forall|i: int| 0 <= i < floats@.len() ==> r.vals()[i] == fixed((#[trigger] floats@[i]).to_bits_spec(), fb(scale))
//@start
    proof { precision_map_separates(); }
//@loop 1
    invariant vx_1 <= floats@.len(), floats@.len() < 0x1_0000_0000, fixed_representation_values@.len() == vx_1, fractional_part_bits_length == fb(scale), 0 <= fb(scale) <= 52,
        forall|i: int| 0 <= i < floats@.len() ==> fits62((#[trigger] floats@[i]).to_bits_spec(), fb(scale)),
        forall|i: int| 0 <= i < vx_1 ==> fixed_representation_values@[i] == fixed((#[trigger] floats@[i]).to_bits_spec(), fb(scale)),
        forall|i: int| 0 <= i < vx_1 ==> -0x4000_0000_0000_0000 < #[trigger] fixed_representation_values@[i] < 0x4000_0000_0000_0000,
        forall|i: int| 0 <= i < vx_1 ==> min <= #[trigger] fixed_representation_values@[i] <= max,
        vx_1 == 0 ==> min == i64::MAX && max == i64::MIN,
        vx_1 > 0 ==> min_index < vx_1 && max_index < vx_1 && fixed_representation_values@[min_index as int] == min && fixed_representation_values@[max_index as int] == max,
    decreases floats@.len() - vx_1
//@loopstart 1
    proof { let b = floats@[vx_1 - 1].to_bits_spec(); mag62(b, fb(scale)); assert(fits62(floats@[vx_1 - 1].to_bits_spec(), fb(scale))); }
//@fn max_fixed ret=r
    requires self.ok()
    ensures self.vals().len() > 0 ==> r == Some(self.hi() as i64), self.vals().len() == 0 ==> r is None
//@fn min_fixed ret=r
    requires self.ok()
    ensures self.vals().len() > 0 ==> r == Some(self.lo() as i64), self.vals().len() == 0 ==> r is None
//@fn delta ret=r
    requires self.ok()
    ensures self.vals().len() > 0 ==> r == Some((self.hi() - self.lo()) as i64), self.vals().len() == 0 ==> r is None
//@fn fixed_representation_bits_length ret=r
    requires self.ok()
    ensures self.vals().len() == 0 ==> r is None,
        self.vals().len() > 0 ==> r == Some(self.wbits() as u32), 0 <= self.wbits() < 64, self.vals().len() > 0 ==> forall|i: int| 0 <= i < self.vals().len() ==> wide((#[trigger] self.vals()[i] - self.lo()) as u64, self.wbits())
//@start
    proof { self.wbits_range(); }
//@fn fixed_representation_values ret=r
    ensures r@ == self.vals()
//@fn fractional_part_bits_length ret=r
    requires self.ok()
    ensures r == PRECISION_MAP[self.p()]
//@fn number_of_records ret=r
    ensures r == self.vals().len()
//@fn compressed_size ret=r
    requires self.ok()
//@start
    proof { assert forall|a: int, b: int| 0 <= a < 64 && 0 <= b < 0x1_0000_0000 implies 0 <= #[trigger] (a * b) <= 0x40_0000_0000 by { assert(0 <= a * b <= 0x40_0000_0000) by (nonlinear_arith) requires 0 <= a < 64, 0 <= b < 0x1_0000_0000; } }
//@enditem
/// one more of the remaining bits is in place
pub proof fn tail_step(d1: Seq<u8>, d2: Seq<u8>, ds: Seq<u64>, w: int, i: int, v: u32)
    requires 0 <= i < ds.len(), 0 < w % 8, 0 <= w < 64, tail_part(d1, ds, w, i), clean(d1, tail_at(ds.len() as int, w) + i * (w % 8)),
        vpacked(d1, d2, tail_at(ds.len() as int, w) + i * (w % 8), w % 8, v), v == ds[i] as u32, i > 0 ==> 8 * d1.len() >= tail_at(ds.len() as int, w) + i * (w % 8)
    ensures tail_part(d2, ds, w, i + 1), clean(d2, tail_at(ds.len() as int, w) + (i + 1) * (w % 8))
{
    reveal(tail_part); reveal(clean);
    let r = w % 8; let t = tail_at(ds.len() as int, w); let p = t + i * r;
    assert((w / 8) * ds.len() >= 0) by (nonlinear_arith) requires w >= 0;
    assert(i * r >= 0) by (nonlinear_arith) requires i >= 0, r >= 0;
    assert((i + 1) * r == i * r + r) by (nonlinear_arith);
    assert forall|a: int, j: int| 0 <= a < i + 1 && 0 <= j < r implies lbit(d2, t + a * r + j) == #[trigger] l64(ds[a], j) by {
        let x = t + a * r + j;
        assert(a * r >= 0) by (nonlinear_arith) requires a >= 0, r >= 0;
        assert(8 * (x / 8) + x % 8 == x);
        if a < i {
            assert(a * r + r <= i * r) by (nonlinear_arith) requires a + 1 <= i, r >= 0;
            assert(lbit(d1, x) == l64(ds[a], j));
            assert(x < p);
        } else {
            assert(x == p + j);
            let s = j as u64; let q = ds[a]; let u = v; let s32 = j as u32;
            assert(((q >> s) & 1u64 == 1u64) == ((u >> s32) & 1u32 == 1u32)) by (bit_vector) requires u == q as u32, s == s32 as u64, s32 < 8;
            assert(!(x / 8 < d1.len() && l8(d1[x / 8], x % 8)));
        }
        assert(x / 8 < d2.len());
        assert(l8(d2[x / 8], x % 8) == ((x / 8 < d1.len() && l8(d1[x / 8], x % 8)) || (p <= 8 * (x / 8) + x % 8 < p + r && l32(v, 8 * (x / 8) + x % 8 - p))));
    }
}
pub open spec fn deltas(p: Precalculated) -> Seq<u64> { Seq::new(p.vals().len(), |i: int| (p.vals()[i] - p.lo()) as u64) }
//@item ebi/src/compressor/buff.rs :: mod internal :: fn buff_simd256_encode
//@desugar
//@rewrite .unwrap_unchecked() => .unwrap()
//@rewritere \(x - base_fixed64\) => (*x - base_fixed64)
//@fn buff_simd256_encode ret=r
    requires precalculated.ok()
    ensures chunk(r@, deltas(precalculated), precalculated.lo() as i64, precalculated.wbits(), PRECISION_MAP[precalculated.p()] as int)
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost vals = precalculated.vals();
    let ghost lo = precalculated.lo();
    let ghost n = vals.len() as int;
    let ghost f = PRECISION_MAP[precalculated.p()] as int;
    let ghost ds = deltas(precalculated);
    let ghost w = precalculated.wbits();
    let ghost t = tail_at(n, w);
    let ghost r8 = w % 8;
    proof {
        precision_map_separates();
        precalculated.wbits_range();
        assert forall|k: int| k == 0 implies #[trigger] (k * n) == 0 by { assert(k * n == 0) by (nonlinear_arith) requires k == 0; }
        assert forall|k: int| 0 <= k < w / 8 implies 20 + #[trigger] (k + 1) * n <= 20 + (w / 8) * n by { assert((k + 1) * n <= (w / 8) * n) by (nonlinear_arith) requires k + 1 <= w / 8, n >= 0; }
        assert(r8 == 0 ==> n * r8 == 0) by (nonlinear_arith);
        assert(w < 8 ==> (w / 8) * n == 0) by (nonlinear_arith) requires 0 <= w < 64, n >= 0;
        assert forall|x: u64| #[trigger] ((x >> 32) as u32) * 0x1_0000_0000 + (x as u32) == x by { let h = (x >> 32) as u32; let l = x as u32;
            assert(x == add(mul(h as u64, 0x1_0000_0000u64), l as u64)) by (bit_vector) requires h == (x >> 32) as u32, l == x as u32; assert(h * 0x1_0000_0000 <= 0xffff_ffff_0000_0000); }
        assert((w / 8) * n >= 0 && (w / 8) * n <= 8 * n) by (nonlinear_arith) requires 0 <= w < 64, n >= 0;
        assert(n * r8 >= 0 && n * r8 <= 8 * n) by (nonlinear_arith) requires 0 <= r8 < 8, n >= 0;
    }
//@loop 1 ix
    invariant vx_1 <= n, vc_1@.len() == vx_1, forall|i: int| 0 <= i < vx_1 ==> #[trigger] vc_1@[i] == vals[i] - lo
    decreases n - vx_1
//@loop 2 ixv
    invariant vx_2 <= n, bitpack_vec.vok(), bitpack_vec.p() == t + vx_2 * r8, hdr(bitpack_vec.vd(), lo as i64, n, w, f), tail_part(bitpack_vec.vd(), ds, w, vx_2 as int),
        clean(bitpack_vec.vd(), t + vx_2 * r8), 8 * bitpack_vec.vd().len() >= t + vx_2 * r8,
    decreases n - vx_2
//@loopstart 2
    let ghost d1 = bitpack_vec.vd();
    proof { assert((vx_2 - 1) * r8 <= 8 * n && (vx_2 - 1) * r8 >= 0 && (vx_2 - 1) * r8 + r8 == vx_2 * r8) by (nonlinear_arith) requires 1 <= vx_2 <= n, 0 <= r8 < 8; }
//@loopend 2
    proof { tail_step(d1, bitpack_vec.vd(), ds, w, vx_2 - 1, ds[vx_2 - 1] as u32); keep_all(d1, bitpack_vec.vd(), t + (vx_2 - 1) * r8, r8, ds[vx_2 - 1] as u32, 20); }
//@loop 3
    invariant remaining_bits_length <= w, (w - remaining_bits_length) % 8 == 0, bitpack_vec.vok(), hdr(bitpack_vec.vd(), lo as i64, n, w, f),
        bitpack_vec.vd().len() == 20 + ((w - remaining_bits_length) / 8) * n,
        forall|k: int| 0 <= k < (w - remaining_bits_length) / 8 ==> #[trigger] col(bitpack_vec.vd(), ds, w, k),
    decreases remaining_bits_length
//@loopstart 3
    let ghost d3 = bitpack_vec.vd();
    let ghost k = (w - remaining_bits_length) / 8;
    proof { assert(k * n >= 0 && k * n <= 8 * n && (k + 1) * n == k * n + n) by (nonlinear_arith) requires 0 <= k < 8, n >= 0; }
//@loopend 3
    proof {
        assert((w - remaining_bits_length) / 8 == k + 1);
        cols_same(d3, bitpack_vec.vd(), ds, w, k);
        assert(col(bitpack_vec.vd(), ds, w, k)) by { reveal(col); };
    }
//@loop 4 ix
    invariant vx_4 <= n, bitpack_vec.vok(), bitpack_vec.vd().len() == 20 + k * n + vx_4, same(d3, bitpack_vec.vd(), d3.len() as int), col_part(bitpack_vec.vd(), ds, w, k, vx_4 as int),
    decreases n - vx_4
//@loop 5 ix
    invariant vx_5 <= n, bitpack_vec.vok(), bitpack_vec.vd().len() == 20 + k * n + vx_5, same(d3, bitpack_vec.vd(), d3.len() as int), col_part(bitpack_vec.vd(), ds, w, k, vx_5 as int),
    decreases n - vx_5
//@loopstart 5
    proof { assert forall|x: u64| #[trigger] (x >> 0u64) == x by { assert(x >> 0u64 == x) by (bit_vector); } }
//@loop 6 ixv
    invariant vx_6 <= n, bitpack_vec.vok(), bitpack_vec.p() == t + vx_6 * r8, hdr(bitpack_vec.vd(), lo as i64, n, w, f), tail_part(bitpack_vec.vd(), ds, w, vx_6 as int),
        clean(bitpack_vec.vd(), t + vx_6 * r8), 8 * bitpack_vec.vd().len() >= t + vx_6 * r8, bitpack_vec.vd().len() >= 20 + (w / 8) * n,
        forall|k: int| 0 <= k < w / 8 ==> #[trigger] col(bitpack_vec.vd(), ds, w, k),
    decreases n - vx_6
//@loopstart 6
    let ghost d1 = bitpack_vec.vd();
    proof { assert((vx_6 - 1) * r8 <= 8 * n && (vx_6 - 1) * r8 >= 0 && (vx_6 - 1) * r8 + r8 == vx_6 * r8) by (nonlinear_arith) requires 1 <= vx_6 <= n, 0 <= r8 < 8; }
//@loopend 6
    proof { tail_step(d1, bitpack_vec.vd(), ds, w, vx_6 - 1, ds[vx_6 - 1] as u32); keep_all(d1, bitpack_vec.vd(), t + (vx_6 - 1) * r8, r8, ds[vx_6 - 1] as u32, 20 + (w / 8) * n);
        cols_same(d1, bitpack_vec.vd(), ds, w, w / 8); }
//@end
    proof { reveal(chunk);
        assert(hdr(r@, lo as i64, n, w, f));
        assert(forall|k: int| 0 <= k < w / 8 ==> #[trigger] col(r@, ds, w, k));
        assert(8 * r@.len() >= tail_at(ds.len() as int, w) + ds.len() * (w % 8));
        assert forall|i: int| 0 <= i < ds.len() implies wide(#[trigger] ds[i], w) && in_i64(lo + ds[i]) by { assert(wide((vals[i] - lo) as u64, w)); assert(lo + ds[i] == vals[i]); }
        assert(r8 == 0 ==> tail_part(r@, ds, w, n)) by { reveal(tail_part); } }
//@enditem
/// c stores the values with f fractional bits
pub open spec fn stores(c: Seq<u8>, vals: Seq<f64>, f: int, ds: Seq<u64>, base: i64, w: int) -> bool {
    chunk(c, ds, base, w, f) && ds.len() == vals.len() && tight(ds) && forall|i: int| 0 <= i < ds.len() ==> base + #[trigger] ds[i] == fixed(vals[i].to_bits_spec(), f)
}
pub open spec fn holds(c: Seq<u8>, vals: Seq<f64>, f: int) -> bool { exists|ds: Seq<u64>, base: i64, w: int| #[trigger] stores(c, vals, f, ds, base, w) }
pub open spec fn stores_fixed(c: Seq<u8>, p: Precalculated) -> bool { chunk(c, deltas(p), p.lo() as i64, p.wbits(), PRECISION_MAP[p.p()] as int) }
pub broadcast proof fn fixed_holds(c: Seq<u8>, p: Precalculated, data: Seq<f64>, f: int)
    requires #[trigger] stores_fixed(c, p), p.ok(), p.vals().len() == data.len(), f == PRECISION_MAP[p.p()],
        forall|i: int| 0 <= i < data.len() ==> p.vals()[i] == fixed((#[trigger] data[i]).to_bits_spec(), f)
    ensures #[trigger] holds(c, data, f)
{
    let ds = deltas(p);
    assert(p.vals().len() == 0 ==> p.lo() == 0);
    assert(p.vals().len() > 0 ==> in_i64(p.lo()));
    assert forall|i: int| 0 <= i < ds.len() implies p.lo() + #[trigger] ds[i] == fixed(data[i].to_bits_spec(), f) by { assert(p.vals()[i] >= p.lo()); assert(data[i] == data[i]); }
    p.least_in();
    assert(stores(c, data, f, ds, p.lo() as i64, p.wbits()));
}
//@item ebi/src/compressor/buff.rs :: struct BUFFCompressor
//@enditem
impl BUFFCompressor {
    pub closed spec fn s(&self) -> usize { self.scale as usize }
    pub closed spec fn bytes(&self) -> Option<Seq<u8>> { match self.compressed { Some(v) => Some(v@), None => None } }
    pub closed spec fn tin(&self) -> int { self.total_bytes_in as int }
}
//@item ebi/src/compressor/buff.rs :: impl BUFFCompressor
//@rewritere internal:: =>
//@fn new ret=r
    ensures r.s() == scale as usize, r.bytes() is None, r.tin() == 0
//@fn compress_with_precalculated
    requires precalculated.ok(), old(self).tin() == 0
    ensures final(self).s() == old(self).s(), final(self).tin() == 8 * precalculated.vals().len(),
        final(self).bytes() is Some, stores_fixed(final(self).bytes()->0, precalculated)
//@enditem
pub trait Compressor: Sized {
    spec fn may(&self, data: Seq<f64>) -> bool;
    spec fn conf(&self) -> usize;
    spec fn image(&self) -> Option<Seq<u8>>;
    spec fn fed(&self) -> int;
    fn compress(&mut self, data: &[f64]) -> (r: encoder::Result<()>)
        requires old(self).may(data@)
        ensures r is Ok, final(self).conf() == old(self).conf(), final(self).fed() == 8 * data@.len(), final(self).image() is Some, holds(final(self).image()->0, data@, fb(old(self).conf()));
    fn total_bytes_in(&self) -> (r: usize) ensures r == self.fed();
    fn total_bytes_buffered(&self) -> (r: usize) ensures r == (if self.image() is Some { self.image()->0.len() as int } else { 0 });
    fn prepare(&mut self) ensures final(self).conf() == old(self).conf(), final(self).image() == old(self).image(), final(self).fed() == old(self).fed();
    fn buffers(&self) -> (r: [&[u8]; 5]) ensures self.image() is Some ==> r[0]@ == self.image()->0, self.image() is None ==> r[0]@.len() == 0,
        r[1]@.len() == 0, r[2]@.len() == 0, r[3]@.len() == 0, r[4]@.len() == 0;
    fn reset(&mut self) ensures final(self).conf() == old(self).conf(), final(self).image() is None, final(self).fed() == 0;
}
//@item ebi/src/compressor/buff.rs :: impl Compressor for BUFFCompressor
    open spec fn may(&self, data: Seq<f64>) -> bool { data.len() < 0x1_0000_0000 && prec(self.s()) < 13 && forall|i: int| 0 <= i < data.len() ==> fits62((#[trigger] data[i]).to_bits_spec(), fb(self.s())) }
    open spec fn conf(&self) -> usize { self.s() }
    open spec fn image(&self) -> Option<Seq<u8>> { self.bytes() }
    open spec fn fed(&self) -> int { self.tin() }
//@skip execution_times
//@rewritere super::MAX_BUFFERS => 5
//@rewritere const EMPTY: &\[u8\] = &\[\]; => let EMPTY: &[u8] = empty();
//@fn compress
//@start
    broadcast use fixed_holds;
//@enditem
#[verifier::external_body]
pub fn empty() -> (r: &'static [u8]) ensures r@.len() == 0 { &[] }
} // mod be
} // verus!
fn main() {}
