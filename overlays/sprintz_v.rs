//@include lib/prelude.rs
//@include lib/query.rs
//@include lib/bits.rs
//@include lib/ext.rs
//@include lib/bitwrite_trait.rs
//@include lib/bitread.rs
//@include lib/sprintz.rs
// transmute between i64 and u64 is the two's complement cast (assumed)
pub uninterp spec fn tm<S, D>(s: S) -> D;
pub broadcast axiom fn tm_u64_i64(s: u64) ensures #[trigger] tm::<u64, i64>(s) == s as i64;
pub broadcast axiom fn tm_i64_u64(s: i64) ensures #[trigger] tm::<i64, u64>(s) == s as u64;
pub assume_specification<Src, Dst> [ std::mem::transmute::<Src, Dst> ] (x: Src) -> (r: Dst) ensures r == tm::<Src, Dst>(x);
pub broadcast group tms { tm_u64_i64, tm_i64_u64 }
/// the nearest multiple of 1/scale, as an integer: (v * scale as f64).round() as i64 (uninterpreted)
pub uninterp spec fn quant(v: f64, scale: u64) -> i64;
pub open spec fn quants(s: Seq<f64>, scale: u64) -> Seq<i64> { Seq::new(s.len(), |i: int| quant(s[i], scale)) }
pub mod se {
use super::*;
use super::bits::*;
use super::ext::*;
use super::tr::*;
use super::sp::*;
use std::mem;
broadcast use {super::tms, super::sp::body_none, super::sp::width_none, vstd::std_specs::bits::axiom_u64_leading_zeros};
global size_of f64 == 8;
// an iterator over integers: what it still yields
#[verifier::external_body]
pub struct IntIter { x: u64 }
impl View for IntIter { type V = Seq<i64>; uninterp spec fn view(&self) -> Seq<i64>; }
impl IntIter {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<i64>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
}
#[verifier::external_body]
pub fn once_chain(a: i64, it: IntIter) -> (r: Vec<i64>) ensures r@ == seq![a] + it@ { unimplemented!() }
#[verifier::external_body]
pub fn quantize(input: &[f64], scale: u64) -> (r: IntIter) ensures r@ == quants(input@, scale) { unimplemented!() }
// raw access to a vector's allocation: what was written from its start, and how much room there is
pub uninterp spec fn room(v: Vec<u64>) -> int;
#[verifier::external_body]
pub struct RawPtr { x: u64 }
impl RawPtr {
    pub uninterp spec fn mem(&self) -> Seq<u64>;
    pub uninterp spec fn at(&self) -> int;
    pub uninterp spec fn cap(&self) -> int;
    #[verifier::external_body]
    pub fn put(&mut self, x: u64)
        requires old(self).at() < old(self).cap(), 0 <= old(self).at() <= old(self).mem().len()
        ensures final(self).at() == old(self).at(), final(self).cap() == old(self).cap(),
            final(self).mem() == if old(self).at() < old(self).mem().len() { old(self).mem().update(old(self).at(), x) } else { old(self).mem().push(x) } { unimplemented!() }
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: Self)
        requires self.at() + n <= self.cap()
        ensures r.at() == self.at() + n, r.cap() == self.cap(), r.mem() == self.mem() { unimplemented!() }
}
#[verifier::external_body]
pub fn reserve_room(v: &mut Vec<u64>, n: usize) ensures final(v)@ == old(v)@, room(*final(v)) >= old(v)@.len() + n { unimplemented!() }
#[verifier::external_body]
pub fn raw_ptr(v: &Vec<u64>) -> (r: RawPtr) ensures r.at() == 0, r.mem() == v@, r.cap() == room(*v) { unimplemented!() }
#[verifier::external_body]
pub fn set_len_from(v: &mut Vec<u64>, n: usize, p: &RawPtr)
    requires n <= p.mem().len(), n <= p.cap(), room(*old(v)) == p.cap()
    ensures final(v)@ == p.mem().take(n as int) { unimplemented!() }
//@item ebi/src/compressor/sprintz.rs :: fn zigzag
//@fn zigzag ret=r
    ensures r == zz(origin as int)
//@start
    proof {
        assert(origin >= 0 ==> ((origin << 1) ^ (origin >> 63)) as u64 == mul(2u64, origin as u64)) by (bit_vector);
        assert(origin < 0 ==> ((origin << 1) ^ (origin >> 63)) as u64 == add(mul(2u64, (!origin) as u64), 1u64) && !origin >= 0 && !origin == -1 - origin) by (bit_vector);
        let n: i64 = !origin;
        let z = ((origin << 1) ^ (origin >> 63)) as u64;
        assert(origin < 0 ==> z == 2 * n + 1);
    }
//@enditem
//@item ebi/src/compressor/sprintz.rs :: mod delta_impl :: fn zigzag_delta_num_bits
//@rewritere impl ExactSizeIterator<Item = i64> => IntIter
//@rewritere iter::once\((\w+)\)\.chain\((\w+)\) => once_chain(\1, \2)
//@rewritere (\w+)\.reserve\((\w+)\); => reserve_room(\1, \2);
//@rewritere (\w+)\.as_mut_ptr\(\) => raw_ptr(&*\1)
//@rewritere (\w+)\.write\((\w+)\); => \1.put(\2);
//@rewritere (\w+)\.set_len\((\w+)\); => set_len_from(\1, \2, &encoded_ptr);
//@fn zigzag_delta_num_bits ret=r
    requires old(buffer)@.len() == 0, bounded(quantized_input@)
    ensures final(buffer)@ == codes(quantized_input@), r.0 == first(quantized_input@), r.1 == width(quantized_input@), r.1 <= 64
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost q = quantized_input@;
    proof { assert(q.len() == 0 ==> codes(q) =~= Seq::<u64>::empty()); }
//@loop 1 ixs
    invariant vx_1 <= vx_1_s@.len(), vx_1_s@ == q, encoded_ptr.at() == vx_1, encoded_ptr.cap() >= q.len(), encoded_ptr.cap() == room(*delta_zigzag_encoded), encoded_ptr.mem() =~= codes(q).take(vx_1 as int),
        vx_1 < q.len() ==> previous == before(q, vx_1 as int), accumulated_or == union(q, vx_1 as int),
    decreases q.len() - vx_1
//@loopstart 1
    proof { assert(-lim() < q[vx_1 - 1] < lim()); assert(-lim() < before(q, vx_1 - 1) < lim()); }
//@enditem
//@item ebi/src/compressor/sprintz.rs :: mod delta_impl :: fn delta_sprintz_compress_impl
//@rewritere mut w: W => w: &mut W
//@rewritere input\s*\.iter\(\)\s*\.copied\(\)\s*\.map\(\|(\w+)\| \(\1 \* scale as f64\)\.round\(\) as i64\) => quantize(input, scale)
//@fn delta_sprintz_compress_impl
    requires old(buffer)@.len() == 0, old(w).inv(), old(w).bits().len() == 0, scale < 0x1_0000_0000, bounded(quants(input@, scale))
    ensures final(w).inv(), final(w).bits() =~= image(quants(input@, scale), scale)
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost q = quants(input@, scale);
//@loop 1 ix
    invariant vx_1 <= q.len(), buffer@ == codes(q), w.inv(), w.bits() =~= header(q, scale, width(q)) + body(q, width(q), vx_1 as int)
    decreases q.len() - vx_1
//@enditem
//@item ebi/src/compressor/sprintz.rs :: struct DeltaSprintzCompressorImpl
//@enditem
impl<W: BitWrite> DeltaSprintzCompressorImpl<W> {
    pub closed spec fn sc(&self) -> u64 { self.scale }
    pub closed spec fn out(&self) -> Seq<bool> { self.w.bits() }
    pub closed spec fn fed(&self) -> int { self.total_bytes_in as int }
    pub closed spec fn ok(&self) -> bool { self.w.inv() }
    pub closed spec fn clean(&self) -> bool { self.buffer@.len() == 0 }
}
#[verifier::external_body]
pub fn empty() -> (r: &'static [u8]) ensures r@.len() == 0 { &[] }
pub mod encoder { pub enum EncoderError { Other } pub type Result<T> = std::result::Result<T, EncoderError>; }
pub mod delta_impl { pub use super::delta_sprintz_compress_impl; }
//@item ebi/src/compressor/sprintz.rs :: impl<W: BitWrite> DeltaSprintzCompressorImpl<W>
//@fn new ret=r
    requires bit_writer.inv()
    ensures r.ok(), r.sc() == scale, r.out() == bit_writer.bits(), r.fed() == 0
//@enditem
//@item ebi/src/compressor/sprintz.rs :: impl<W: BitWrite> Compressor for DeltaSprintzCompressorImpl<W>
//@rewritere Compressor for Delta => Delta
//@skip execution_times
//@rewritere super::MAX_BUFFERS => 5
//@rewritere const E: &\[u8\] = &\[\]; => let E: &[u8] = empty();
//@fn compress ret=r
    requires old(self).sc() < 0x1_0000_0000, bounded(quants(input@, old(self).sc())), input@.len() < 0x1000_0000_0000_0000
    ensures r is Ok, final(self).ok(), final(self).sc() == old(self).sc(), final(self).fed() == 8 * input@.len(), final(self).out() =~= image(quants(input@, old(self).sc()), old(self).sc())
//@fn total_bytes_in ret=r
    ensures r == self.fed()
//@fn total_bytes_buffered ret=r
    requires self.ok()
    ensures r == (self.out().len() + 7) / 8
//@fn buffers ret=r
    requires self.ok()
    ensures is_padded(self.out(), r[0]@), r[1]@.len() == 0, r[2]@.len() == 0, r[3]@.len() == 0, r[4]@.len() == 0
//@fn reset
    ensures final(self).ok(), final(self).sc() == old(self).sc(), final(self).out() == Seq::<bool>::empty(), final(self).fed() == 0, final(self).clean()
//@fn prepare
    ensures *final(self) == *old(self)
//@enditem
} // mod se
pub uninterp spec fn nan_s() -> f64;
#[verifier::external_body]
pub fn fnan() -> (r: f64) ensures r == nan_s() { f64::NAN }
/// x / scale as a double (uninterpreted)
pub uninterp spec fn unq(x: i64, scale: u32) -> f64;
#[verifier::external_body]
pub fn fquot(x: i64, scale: u32) -> (r: f64) ensures r == unq(x, scale) { x as f64 / scale as f64 }
pub mod sd {
use super::*;
use super::bits::*;
use super::ext::*;
use super::rd::*;
use super::tr::*;
use super::sp::*;
use super::decoder::DecoderError;
broadcast use {super::tms, super::sp::word_is, super::sp::byte_is};
//@item ebi/src/decoder/chunk_reader/sprintz.rs :: fn unzigzag
//@fn unzigzag ret=r
    ensures r == uz(origin)
//@start
    proof {
        assert(origin & 1 == origin % 2) by (bit_vector);
        assert(origin >> 1 == origin / 2) by (bit_vector);
        let h = origin >> 1;
        assert(h <= 0x7fff_ffff_ffff_ffffu64) by (bit_vector) requires h == origin >> 1;
        assert(h as i64 ^ 0i64 == h as i64) by (bit_vector);
        let n: i64 = h as i64;
        assert(n ^ 0i64 == n && n ^ -1i64 == -1 - n) by (bit_vector);
    }
//@enditem
//@item ebi/src/decoder/chunk_reader/sprintz.rs :: struct DeltaSprintzDecompressIteratorImpl
//@enditem
impl<R: BitRead2> DeltaSprintzDecompressIteratorImpl<R> {
    pub closed spec fn src(&self) -> Seq<u8> { self.bit_reader.data() }
    pub closed spec fn n(&self) -> int { self.number_of_records as int }
    pub closed spec fn at(&self) -> int { self.record_index as int }
    pub closed spec fn ok(&self) -> bool {
        let (q, s, w) = content(self.src(), self.n());
        valid(self.src(), self.n()) && self.bit_reader.rinv() && self.at() <= self.n() && self.scale == s && self.number_of_bits_needed == w
            && self.bit_reader.pos() == 104 + w * self.at() && (self.at() < self.n() ==> self.previous_value_quantized == before(q, self.at()))
    }
}
//@item ebi/src/decoder/chunk_reader/sprintz.rs :: impl<R: BitRead2> DeltaSprintzDecompressIteratorImpl<R>
//@fn new ret=r
    requires bit_reader.rinv(), bit_reader.pos() == 0, valid(bit_reader.data(), number_of_records as int)
    ensures r is Ok, r->Ok_0.ok(), r->Ok_0.src() == bit_reader.data(), r->Ok_0.n() == number_of_records, r->Ok_0.at() == 0
//@start
    let ghost d = bit_reader.data();
    proof { header_values(d, number_of_records as int); }
//@enditem
//@item ebi/src/decoder/chunk_reader/sprintz.rs :: impl<R: BitRead2> Iterator for DeltaSprintzDecompressIteratorImpl<R>
//@rewritere Iterator for Delta => Delta
//@rewritere type Item = decoder::Result<f64>; =>
//@rewritere Self::Item => decoder::Result<f64>
//@rewritere \.into\(\) =>
//@rewritere self\.previous_value_quantized as f64 / self\.scale as f64 => fquot(self.previous_value_quantized, self.scale)
//@rewritere quantized as f64 / self\.scale as f64 => fquot(quantized, self.scale)
//@rewritere #\[allow\(clippy::useless_conversion\)\] =>
//@fn next ret=r
    requires old(self).ok()
    ensures final(self).ok(), final(self).src() == old(self).src(), final(self).n() == old(self).n(),
        old(self).at() < old(self).n() ==> r is Some && r->Some_0 is Ok && r->Some_0->Ok_0 == unq(content(old(self).src(), old(self).n()).0[old(self).at()], content(old(self).src(), old(self).n()).1 as u32) && final(self).at() == old(self).at() + 1,
        old(self).at() >= old(self).n() ==> r is None && final(self).at() == old(self).at()
//@start
    proof { if self.at() < self.n() { next_record(self.src(), self.n(), self.at()); } }
//@enditem
// what BufferedBitReader<Vec<u8>> does (proved in unit bitread)
#[verifier::external_body]
pub struct BitReader { x: u64 }
impl BitRead2 for BitReader {
    uninterp spec fn rinv(&self) -> bool;
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn read_bit(&mut self) -> (r: Option<bool>) { unimplemented!() }
    #[verifier::external_body]
    fn read_byte(&mut self) -> (r: Option<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn read_bits(&mut self, n: u8) -> (r: Option<u64>) { unimplemented!() }
    #[verifier::external_body]
    fn peak_bits(&mut self, n: u8) -> (r: Option<u64>) { unimplemented!() }
}
impl BitReader {
    #[verifier::external_body]
    pub fn reset(&mut self) ensures (*old(self)).rinv() ==> (*final(self)).rinv(), (*final(self)).data() == (*old(self)).data(), (*final(self)).pos() == 0 { unimplemented!() }
}
//@item ebi/src/io/bit_read.rs :: impl<T: BitRead2> BitRead2 for &mut T
    open spec fn rinv(&self) -> bool { (**self).rinv() }
    open spec fn data(&self) -> Seq<u8> { (**self).data() }
    open spec fn pos(&self) -> int { (**self).pos() }
//@enditem
/// the records of a chunk
pub open spec fn decoded(d: Seq<u8>, n: int) -> Seq<f64> { Seq::new(content(d, n).0.len(), |i: int| unq(content(d, n).0[i], content(d, n).1 as u32)) }
//@item ebi/src/decoder/chunk_reader/sprintz.rs :: struct DeltaSprintzReader
//@enditem
impl DeltaSprintzReader {
    pub closed spec fn src(&self) -> Seq<u8> { self.bit_reader.data() }
    pub closed spec fn n(&self) -> int { self.number_of_records as int }
    pub closed spec fn cached(&self) -> bool { self.decompressed is Some }
    /// a reader that was not decompressed yet holds a valid chunk
    pub closed spec fn rok(&self) -> bool { self.cached() || self.bit_reader.rinv() && valid(self.src(), self.n()) }
    pub closed spec fn recs(&self) -> Seq<f64> { if self.cached() { self.decompressed->0@ } else { decoded(self.src(), self.n()) } }
}
// iter.collect::<Result<Vec<f64>>>(): everything the iterator yields, in order
#[verifier::loop_isolation(false)]
pub fn collect_all<'a>(it: DeltaSprintzDecompressIteratorImpl<&'a mut BitReader>) -> (r: decoder::Result<Vec<f64>>)
    requires it.ok(), it.at() == 0
    ensures r is Ok, r->Ok_0@ == decoded(it.src(), it.n())
{
    let ghost (d, n) = (it.src(), it.n());
    proof { content_is(d, n); assert(decoded(d, n).take(n) =~= decoded(d, n)); }
    let mut it = it;
    let mut v: Vec<f64> = Vec::new();
    loop
        invariant it.ok(), it.src() == d, it.n() == n, 0 <= it.at() <= n, n == content(d, n).0.len(), v@ =~= decoded(d, n).take(it.at())
        decreases it.n() - it.at()
    {
        match it.next() {
            None => { return Ok(v); }
            Some(Ok(x)) => { v.push(x); }
            Some(Err(e)) => { return Err(e); }
        }
    }
}
pub type DeltaSprintzDecompressIterator<'a> = DeltaSprintzDecompressIteratorImpl<&'a mut BitReader>;
//@item ebi/src/decoder/chunk_reader/sprintz.rs :: impl Reader for DeltaSprintzReader
//@rewritere Reader for Delta => Delta
//@skip read_header
//@rewritere type NativeHeader = \(\); =>
//@rewritere type DecompressIterator<'a>\s*= DeltaSprintzDecompressIterator<'a>\s*where\s*Self: 'a; =>
//@rewritere Self::DecompressIterator<'_> => DeltaSprintzDecompressIteratorImpl<&mut BitReader>
//@rewritere Self::DecompressIterator:: => DeltaSprintzDecompressIterator::
//@rewritere self\.decompressed\.as_deref\(\) => match &self.decompressed { Some(v) => Some(v.as_slice()), None => None }
//@rewritere self\.decompressed\.as_ref\(\)\.unwrap\(\) => match &self.decompressed { Some(v) => v.as_slice(), None => vstd::pervasive::unreached() }
//@fn decompress_iter ret=r
    requires old(self).rok(), !old(self).cached()
    ensures r is Ok, r->Ok_0.ok(), r->Ok_0.at() == 0, r->Ok_0.n() == old(self).n(), r->Ok_0.src() == old(self).src(), final(self).cached() == old(self).cached()
//@fn decompress ret=r
    requires old(self).rok()
    ensures r is Ok, r->Ok_0@ == old(self).recs(), final(self).rok(), final(self).recs() == old(self).recs()
//@fn set_decompress_result ret=r
    ensures final(self).cached(), final(self).recs() == data@, r@ == data@
//@fn decompress_result ret=r
    ensures *final(self) == *old(self), r is Some == old(self).cached(), r is Some ==> r->0@ == old(self).recs()
//@enditem
//@item ebi/src/decoder/chunk_reader.rs :: fn default_decompress
//@rewritere &mut impl Reader => &mut DeltaSprintzReader
//@rewritere r\s*\.decompress_iter\(\)\?\s*\.collect::<decoder::Result<Vec<f64>>>\(\)\? => collect_all(r.decompress_iter()?)?
//@fn default_decompress ret=ret
    requires old(r).rok()
    ensures ret is Ok, ret->Ok_0@ == old(r).recs(), final(r).rok(), final(r).recs() == old(r).recs()
//@enditem
// ---- queries on the stored integers
/// the sum of the selected among the first k records
pub open spec fn isum(q: Seq<i64>, m: Option<Set<u32>>, off: int, k: int) -> int decreases k {
    if k <= 0 { 0 } else { isum(q, m, off, k - 1) + if sel(m, off + k - 1) { q[k - 1] as int } else { 0 } }
}
/// no partial sum overflows
pub open spec fn sums_fit(q: Seq<i64>, m: Option<Set<u32>>, off: int) -> bool { forall|k: int| 0 <= k <= q.len() ==> -0x8000_0000_0000_0000 <= #[trigger] isum(q, m, off, k) < 0x8000_0000_0000_0000 }
/// the least (greatest) of the selected among the first k records; MAX (MIN) if none is
pub open spec fn iext(q: Seq<i64>, m: Option<Set<u32>>, off: int, k: int, least: bool) -> i64 decreases k {
    if k <= 0 { if least { i64::MAX } else { i64::MIN } } else {
        let a = iext(q, m, off, k - 1, least);
        if sel(m, off + k - 1) && (if least { q[k - 1] < a } else { q[k - 1] > a }) { q[k - 1] } else { a }
    }
}
pub open spec fn agree(m: Option<Set<u32>>, l: Option<Set<u32>>, off: int, from: int, to: int) -> bool { forall|i: int| from <= i < to ==> #[trigger] sel(m, off + i) == sel(l, off + i) }
pub proof fn same_mask(q: Seq<i64>, m: Option<Set<u32>>, l: Option<Set<u32>>, off: int, k: int, least: bool)
    requires agree(m, l, off, 0, k)
    ensures isum(q, m, off, k) == isum(q, l, off, k), iext(q, m, off, k, least) == iext(q, l, off, k, least)
    decreases k
{ if k > 0 { same_mask(q, m, l, off, k - 1, least); assert(sel(m, off + (k - 1)) == sel(l, off + (k - 1))); } }
/// nothing selected from a on
pub proof fn tail(q: Seq<i64>, m: Option<Set<u32>>, off: int, a: int, k: int, least: bool)
    requires 0 <= a <= k, forall|i: int| a <= i < k ==> !#[trigger] sel(m, off + i)
    ensures isum(q, m, off, k) == isum(q, m, off, a), iext(q, m, off, k, least) == iext(q, m, off, a, least)
    decreases k
{ if k > a { tail(q, m, off, a, k - 1, least); assert(!sel(m, off + (k - 1))); } }
// an iterator over record numbers: what it still yields
#[verifier::external_body]
pub struct U32Iter { x: u64 }
impl View for U32Iter { type V = Seq<u32>; uninterp spec fn view(&self) -> Seq<u32>; }
impl U32Iter {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u32>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_iter(v: Vec<u32>) -> (r: U32Iter) ensures r@ == v@ { unimplemented!() }
pub open spec fn increasing(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
// bitmap.iter(): the members in increasing order (assumed of the roaring crate)
#[verifier::external_body]
pub fn members(b: &RoaringBitmap) -> (r: Vec<u32>) ensures increasing(r@), forall|u: u32| b@.contains(u) <==> #[trigger] r@.contains(u) { unimplemented!() }
/// what an iterator over record numbers selects
pub open spec fn picked(b: Seq<u32>) -> Option<Set<u32>> { Some(b.to_set()) }
pub open spec fn ready(b: Seq<u32>, off: int, n: int) -> bool { increasing(b) && forall|i: int| 0 <= i < b.len() ==> off <= #[trigger] b[i] < off + n }
/// the records up to a were looked at, and rest are those of b not before a
pub open spec fn front(b: Seq<u32>, j: int, off: int, a: int) -> bool { 0 <= j < b.len() && b[j] >= off + a && (j > 0 ==> b[j - 1] < off + a) }
pub proof fn at_front(b: Seq<u32>, j: int, off: int, a: int, n: int)
    requires ready(b, off, n), front(b, j, off, a), 0 <= a < n, 0 <= off, off + n < lim32()
    ensures sel(picked(b), off + a) == (b[j] == off + a), b[j] == off + a && j + 1 < b.len() ==> front(b, j + 1, off, a + 1), b[j] != off + a ==> front(b, j, off, a + 1),
        b[j] == off + a && j + 1 == b.len() ==> forall|i: int| a + 1 <= i < n ==> !#[trigger] sel(picked(b), off + i)
{
    let u = (off + a) as u32;
    if b[j] == off + a { assert(b.contains(u)); }
    if b.contains(u) { let i = choose|i: int| 0 <= i < b.len() && b[i] == u; assert(i >= j) by { if i < j { assert(i == j - 1 || b[i] < b[j - 1]); } } assert(i <= j) by { if i > j { assert(b[j] < b[i]); } } }
    if b[j] == off + a && j + 1 == b.len() {
        assert forall|i: int| a + 1 <= i < n implies !#[trigger] sel(picked(b), off + i) by {
            let v = (off + i) as u32;
            if b.contains(v) { let h = choose|h: int| 0 <= h < b.len() && b[h] == v; assert(h == j || b[h] < b[j]); }
        }
    }
}
//@item ebi/src/decoder/chunk_reader/sprintz.rs :: fn sum_without_bitmask
//@rewritere sum as f64 / scale as f64 => fquot(sum, scale)
//@fn sum_without_bitmask ret=r
    requires (*old(bit_reader)).rinv(), valid((*old(bit_reader)).data(), number_of_records as int), sums_fit(content((*old(bit_reader)).data(), number_of_records as int).0, None, 0)
    ensures r is Ok, ({ let (q, s, w) = content((*old(bit_reader)).data(), number_of_records as int); r->Ok_0 == unq(isum(q, None, 0, q.len() as int) as i64, s as u32) }),
        (*final(bit_reader)).rinv(), (*final(bit_reader)).data() == (*old(bit_reader)).data()
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost d = (*bit_reader).data();
    let ghost n = number_of_records as int;
    proof { header_values(d, n); }
//@loop 1 ix
    invariant vx_1 <= vx_1_e, vx_1_e == n, (*bit_reader).rinv(), (*bit_reader).data() == d, (*bit_reader).pos() == 104 + content(d, n).2 * vx_1, vx_1 < n ==> previous_value_quantized == before(content(d, n).0, vx_1 as int),
        sum == isum(content(d, n).0, None, 0, vx_1 as int)
    decreases n - vx_1
//@loopstart 1
    proof { next_record(d, n, vx_1 - 1); assert(-0x8000_0000_0000_0000 <= isum(content(d, n).0, None, 0, vx_1 as int) < 0x8000_0000_0000_0000); }
//@enditem
//@item ebi/src/decoder/chunk_reader/sprintz.rs :: fn sum
//@rewritere impl Iterator<Item = u32> => U32Iter
//@rewritere sum as f64 / scale as f64 => fquot(sum, scale)
//@rewritere Ok\(0\.0\) => Ok(fzero())
//@fn sum ret=r
    requires (*old(bit_reader)).rinv(), valid((*old(bit_reader)).data(), number_of_records as int), logical_offset + number_of_records < lim32(), ready(bitmask@, logical_offset as int, number_of_records as int), sums_fit(content((*old(bit_reader)).data(), number_of_records as int).0, picked(bitmask@), logical_offset as int)
    ensures r is Ok, (*final(bit_reader)).rinv(), (*final(bit_reader)).data() == (*old(bit_reader)).data(),
        ({ let (q, s, w) = content((*old(bit_reader)).data(), number_of_records as int); r->Ok_0 == if bitmask@.len() == 0 { zero_s() } else { unq(isum(q, picked(bitmask@), logical_offset as int, q.len() as int) as i64, s as u32) } })
//@start
    let ghost d = (*bit_reader).data();
    let ghost n = number_of_records as int;
    let ghost off = logical_offset as int;
    let ghost b = bitmask@;
    let ghost q = content(d, n).0;
    let ghost w = content(d, n).2;
    let ghost mut j: int = 0;
    proof { header_values(d, n);  }
//@loop 1 ix
    invariant_except_break front(b, j, off, vx_1 as int), bitmask@ == b.subrange(j + 1, b.len() as int), next == b[j], sum == isum(q, picked(b), off, vx_1 as int)
    invariant vx_1 <= vx_1_e, vx_1_e == n, n == q.len(), (*bit_reader).rinv(), (*bit_reader).data() == d, (*bit_reader).pos() == 104 + w * vx_1, vx_1 < n ==> previous_value_quantized == before(q, vx_1 as int),
        ready(b, off, n), off == logical_offset, off + n < lim32(), q == content(d, n).0, w == content(d, n).2, number_of_bits_needed == w, valid(d, n), sums_fit(q, picked(b), off)
    ensures (*bit_reader).rinv(), (*bit_reader).data() == d, sum == isum(q, picked(b), off, n)
    decreases n - vx_1
//@loopstart 1
    proof {
        next_record(d, n, vx_1 - 1); assert(-0x8000_0000_0000_0000 <= isum(q, picked(b), off, vx_1 as int) < 0x8000_0000_0000_0000); at_front(b, j, off, vx_1 - 1, n);
        if b[j] == off + vx_1 - 1 { if j + 1 < b.len() { j = j + 1; assert(bitmask@.subrange(1, bitmask@.len() as int) =~= b.subrange(j + 1, b.len() as int)); } else { tail(q, picked(b), off, vx_1 as int, n, true); } }
    }
//@enditem
//@item ebi/src/decoder/chunk_reader/sprintz.rs :: fn min_max
//@rewritere impl Iterator<Item = u32> => U32Iter
//@rewritere max_quantized as f64 / scale as f64 => fquot(max_quantized, scale)
//@rewritere f64::NAN => fnan()
//@fn min_max ret=r
    requires (*old(bit_reader)).rinv(), valid((*old(bit_reader)).data(), number_of_records as int), logical_offset + number_of_records < lim32(), ready(bitmask@, logical_offset as int, number_of_records as int)
    ensures r is Ok, (*final(bit_reader)).rinv(), (*final(bit_reader)).data() == (*old(bit_reader)).data(),
        ({ let (q, s, w) = content((*old(bit_reader)).data(), number_of_records as int); r->Ok_0 == if bitmask@.len() == 0 { nan_s() } else { unq(iext(q, picked(bitmask@), logical_offset as int, q.len() as int, IS_MIN), s as u32) } })
//@start
    let ghost d = (*bit_reader).data();
    let ghost n = number_of_records as int;
    let ghost off = logical_offset as int;
    let ghost b = bitmask@;
    let ghost q = content(d, n).0;
    let ghost w = content(d, n).2;
    let ghost mut j: int = 0;
    proof { header_values(d, n);  }
//@loop 1 ix
    invariant_except_break front(b, j, off, vx_1 as int), bitmask@ == b.subrange(j + 1, b.len() as int), next == b[j], max_quantized == iext(q, picked(b), off, vx_1 as int, IS_MIN)
    invariant vx_1 <= vx_1_e, vx_1_e == n, n == q.len(), (*bit_reader).rinv(), (*bit_reader).data() == d, (*bit_reader).pos() == 104 + w * vx_1, vx_1 < n ==> previous_value_quantized == before(q, vx_1 as int),
        ready(b, off, n), off == logical_offset, off + n < lim32(), q == content(d, n).0, w == content(d, n).2, number_of_bits_needed == w, valid(d, n), true
    ensures (*bit_reader).rinv(), (*bit_reader).data() == d, max_quantized == iext(q, picked(b), off, n, IS_MIN)
    decreases n - vx_1
//@loopstart 1
    proof {
        next_record(d, n, vx_1 - 1); at_front(b, j, off, vx_1 - 1, n);
        if b[j] == off + vx_1 - 1 { if j + 1 < b.len() { j = j + 1; assert(bitmask@.subrange(1, bitmask@.len() as int) =~= b.subrange(j + 1, b.len() as int)); } else { tail(q, picked(b), off, vx_1 as int, n, IS_MIN); } }
    }
//@enditem
//@item ebi/src/decoder/chunk_reader/sprintz.rs :: fn min_max_without_bitmask
//@rewritere max_quantized as f64 / scale as f64 => fquot(max_quantized, scale)
//@fn min_max_without_bitmask ret=r
    requires (*old(bit_reader)).rinv(), valid((*old(bit_reader)).data(), number_of_records as int)
    ensures r is Ok, (*final(bit_reader)).rinv(), (*final(bit_reader)).data() == (*old(bit_reader)).data(),
        ({ let (q, s, w) = content((*old(bit_reader)).data(), number_of_records as int); r->Ok_0 == unq(iext(q, None, 0, q.len() as int, IS_MIN), s as u32) })
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost d = (*bit_reader).data();
    let ghost n = number_of_records as int;
    proof { header_values(d, n); }
//@loop 1 ix
    invariant vx_1 <= vx_1_e, vx_1_e == n, (*bit_reader).rinv(), (*bit_reader).data() == d, (*bit_reader).pos() == 104 + content(d, n).2 * vx_1, vx_1 < n ==> previous_value_quantized == before(content(d, n).0, vx_1 as int),
        max_quantized == iext(content(d, n).0, None, 0, vx_1 as int, IS_MIN)
    decreases n - vx_1
//@loopstart 1
    proof { next_record(d, n, vx_1 - 1); }
//@enditem
/// the first k of s that number records of the chunk
pub open spec fn win(s: Seq<u32>, off: int, n: int, k: int) -> Seq<u32> decreases k {
    if k <= 0 { Seq::empty() } else { let r = win(s, off, n, k - 1); if off <= s[k - 1] < off + n { r.push(s[k - 1]) } else { r } }
}
pub proof fn win_is(s: Seq<u32>, off: int, n: int, k: int)
    requires increasing(s), 0 <= k <= s.len()
    ensures ready(win(s, off, n, k), off, n), forall|i: int| 0 <= i < win(s, off, n, k).len() ==> k > 0 && #[trigger] win(s, off, n, k)[i] <= s[k - 1],
        forall|u: u32| #[trigger] win(s, off, n, k).contains(u) ==> s.contains(u), forall|j: int| 0 <= j < k && off <= #[trigger] s[j] < off + n ==> win(s, off, n, k).contains(s[j])
    decreases k
{
    if k > 0 {
        win_is(s, off, n, k - 1);
        let (r, t) = (win(s, off, n, k - 1), win(s, off, n, k));
        if k > 1 { assert(s[k - 2] < s[k - 1]); }
        assert(s.contains(s[k - 1]));
        if off <= s[k - 1] < off + n {
            assert forall|j: int| 0 <= j < k && off <= #[trigger] s[j] < off + n implies t.contains(s[j]) by {
                if j < k - 1 { assert(r.contains(s[j])); let h = choose|h: int| 0 <= h < r.len() && r[h] == s[j]; assert(t[h] == s[j]); } else { assert(t[r.len() as int] == s[j]); }
            }
            assert forall|u: u32| #[trigger] t.contains(u) implies s.contains(u) by { let h = choose|h: int| 0 <= h < t.len() && t[h] == u; if h < r.len() { assert(r[h] == u); assert(r.contains(u)); } }
        }
    }
}
pub open spec fn some_sel(m: Option<Set<u32>>, off: int, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] sel(m, off + i) }
/// a filtered mask selects the same records of the chunk
pub proof fn win_agrees(m: Set<u32>, s: Seq<u32>, off: int, n: int)
    requires increasing(s), forall|u: u32| m.contains(u) <==> #[trigger] s.contains(u), 0 <= off, 0 <= n, off + n < lim32()
    ensures ready(win(s, off, n, s.len() as int), off, n), agree(Some(m), picked(win(s, off, n, s.len() as int)), off, 0, n), some_sel(Some(m), off, n) == (win(s, off, n, s.len() as int).len() > 0)
{
    let b = win(s, off, n, s.len() as int);
    win_is(s, off, n, s.len() as int);
    assert forall|i: int| 0 <= i < n implies #[trigger] sel(Some(m), off + i) == sel(picked(b), off + i) by {
        let u = (off + i) as u32;
        if m.contains(u) { assert(s.contains(u)); let j = choose|j: int| 0 <= j < s.len() && s[j] == u; assert(b.contains(s[j])); }
        if b.contains(u) { assert(s.contains(u)); }
    }
    if b.len() > 0 { assert(b.contains(b[0])); assert(s.contains(b[0])); let i = b[0] - off; assert(sel(Some(m), off + i)); }
    if some_sel(Some(m), off, n) { let i = choose|i: int| 0 <= i < n && #[trigger] sel(Some(m), off + i); assert(sel(picked(b), off + i)); assert(b.contains((off + i) as u32)); }
}
// a predicate on the stored integers: predicate.map(|v| (v * scale as f64).round() as i64)
#[verifier::external_body]
pub struct IntPredicate { x: u64 }
impl IntPredicate {
    pub uninterp spec fn holds(&self, x: i64) -> bool;
    #[verifier::external_body]
    pub fn eval(&self, x: i64) -> (r: bool) ensures r == self.holds(x) { unimplemented!() }
}
pub uninterp spec fn qpred(p: Predicate, scale: u32) -> IntPredicate;
#[verifier::external_body]
pub fn quant_predicate(p: Predicate, scale: u32) -> (r: IntPredicate) ensures r == qpred(p, scale) { unimplemented!() }
/// the thresholds are multiples of 1/scale: the predicate means the same on the stored integers
pub open spec fn compatible(p: Predicate, scale: u32) -> bool { forall|x: i64| #[trigger] qpred(p, scale).holds(x) == p.holds(unq(x, scale)) }
#[verifier::external_body]
pub fn and_assign(a: &mut RoaringBitmap, b: &RoaringBitmap) ensures forall|i: u32| #[trigger] final(a)@.contains(i) <==> (old(a)@.contains(i) && b@.contains(i)) { unimplemented!() }
// the queries on decompressed records (proved in unit query, for every reader)
#[verifier::external_body]
pub fn default_filter(reader: &mut DeltaSprintzReader, predicate: Predicate, bitmask: Option<&RoaringBitmap>, logical_offset: usize, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<RoaringBitmap>)
    requires old(reader).rok(), logical_offset + old(reader).recs().len() <= lim32()
    ensures final(reader).rok(), final(reader).recs() == old(reader).recs(), r is Ok ==> forall|k: u32| #[trigger] r->Ok_0@.contains(k) <==> hit(old(reader).recs(), mv(bitmask), logical_offset as int, predicate, k) { unimplemented!() }
#[verifier::external_body]
pub fn default_materialize<W: Write>(reader: &mut DeltaSprintzReader, output: &mut W, bitmask: Option<&RoaringBitmap>, logical_offset: usize, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<()>)
    requires old(reader).rok(), logical_offset + old(reader).recs().len() <= lim32()
    ensures final(reader).rok(), final(reader).recs() == old(reader).recs(), r is Ok ==> final(output).out() == old(output).out() + bytes(chosen(old(reader).recs(), mv(bitmask), logical_offset as int, None)) { unimplemented!() }
#[verifier::external_body]
pub fn default_sum(reader: &mut DeltaSprintzReader, bitmask: Option<&RoaringBitmap>, logical_offset: usize, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<f64>)
    requires old(reader).rok(), logical_offset + old(reader).recs().len() <= lim32()
    ensures final(reader).rok(), final(reader).recs() == old(reader).recs(), r is Ok ==> r->Ok_0 == total(chosen(old(reader).recs(), mv(bitmask), logical_offset as int, None), zero_s()) { unimplemented!() }
#[verifier::external_body]
pub fn default_min(reader: &mut DeltaSprintzReader, bitmask: Option<&RoaringBitmap>, logical_offset: usize, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<f64>)
    requires old(reader).rok(), logical_offset + old(reader).recs().len() <= lim32()
    ensures final(reader).rok(), final(reader).recs() == old(reader).recs(), r is Ok ==> r->Ok_0 == least(chosen(old(reader).recs(), mv(bitmask), logical_offset as int, None), inf_s()) { unimplemented!() }
#[verifier::external_body]
pub fn default_max(reader: &mut DeltaSprintzReader, bitmask: Option<&RoaringBitmap>, logical_offset: usize, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<f64>)
    requires old(reader).rok(), logical_offset + old(reader).recs().len() <= lim32()
    ensures final(reader).rok(), final(reader).recs() == old(reader).recs(), r is Ok ==> r->Ok_0 == most(chosen(old(reader).recs(), mv(bitmask), logical_offset as int, None), ninf_s()) { unimplemented!() }
/// the answer of min (max) on the stored integers
pub open spec fn ext_answer(d: Seq<u8>, n: int, m: Option<Set<u32>>, off: int, least: bool) -> f64 {
    let (q, s, w) = content(d, n);
    if m is Some && !some_sel(m, off, n) { nan_s() } else { unq(iext(q, m, off, n, least), s as u32) }
}
pub open spec fn sum_answer(d: Seq<u8>, n: int, m: Option<Set<u32>>, off: int) -> f64 {
    let (q, s, w) = content(d, n);
    if m is Some && !some_sel(m, off, n) { zero_s() } else { unq(isum(q, m, off, n) as i64, s as u32) }
}
pub proof fn unmasked(q: Seq<i64>, off: int, k: int, least: bool)
    ensures isum(q, None, off, k) == isum(q, None, 0, k), iext(q, None, off, k, least) == iext(q, None, 0, k, least)
    decreases k
{ if k > 0 { unmasked(q, off, k - 1, least); } }
pub proof fn none_sel(m: Set<u32>, off: int, n: int) requires forall|u: u32| !m.contains(u) ensures !some_sel(Some(m), off, n) { }
//@item ebi/src/decoder/chunk_reader/sprintz.rs :: impl QueryExecutor for DeltaSprintzReader
//@rewritere QueryExecutor for Delta => Delta
//@rewritere W: std::io::Write => W: Write
//@rewritere predicate\.map\(\|(\w+)\| \(\1 \* scale as f64\)\.round\(\) as i64\) => quant_predicate(predicate, scale)
//@rewritere (?s)let all = \|\| \{(.*?)\n        \};(.*?)all\(\) => \2{ \1 }
//@rewritere (\w+) &= bitmask; => and_assign(&mut \1, bitmask);
//@rewritere roaring::RoaringBitmap => RoaringBitmap
//@rewritere f64::NAN => fnan()
//@rewritere Ok\(0\.0\) => Ok(fzero())
//@rewritere (?s)(\w+)\.iter\(\)\.filter\(\|&(\w+)\| \{(.*?)\}\); => { let vx_m = members(\1); let mut vx_o: Vec<u32> = Vec::new(); let mut vx_i: usize = 0; while vx_i < vx_m.len() invariant vx_i <= vx_m@.len(), logical_offset + self.n() < lim32(), vx_o@ =~= win(vx_m@, logical_offset as int, self.n(), vx_i as int) decreases vx_m@.len() - vx_i { let \2 = vx_m[vx_i]; vx_i = vx_i + 1; if \3 { vx_o.push(\2); } } proof { win_agrees(bitmask@, vx_m@, logical_offset as int, self.n()); let m = Some(bitmask@); let l = picked(vx_o@); let q = content(self.src(), self.n()).0; header_values(self.src(), self.n()); assert forall|k: int| 0 <= k <= q.len() implies isum(q, m, logical_offset as int, k) == #[trigger] isum(q, l, logical_offset as int, k) by { same_mask(q, m, l, logical_offset as int, k, true); } same_mask(q, m, l, logical_offset as int, self.n(), true); same_mask(q, m, l, logical_offset as int, self.n(), false); } vec_iter(vx_o) };
//@fn filter ret=r
    requires old(self).rok(), logical_offset + old(self).recs().len() < lim32(), !old(self).cached() ==> compatible(predicate, content(old(self).src(), old(self).n()).1 as u32)
    ensures final(self).rok(), final(self).recs() == old(self).recs(), !old(self).cached() ==> r is Ok, r is Ok ==> forall|k: u32| #[trigger] r->Ok_0@.contains(k) <==> hit(old(self).recs(), mv(bitmask), logical_offset as int, predicate, k)
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost d = self.src();
    let ghost n = self.n();
    let ghost q = content(d, n).0;
    let ghost w = content(d, n).2;
    let ghost off = logical_offset as int;
    proof { if !self.cached() { header_values(d, n); } }
//@loop 1 ix
    invariant vx_1 <= vx_1_e, vx_1_e == n, !self.cached(), self.n() == n, self.bit_reader.rinv(), self.bit_reader.data() == d, self.bit_reader.pos() == 104 + w * vx_1, vx_1 < n ==> previous_value_quantized == before(q, vx_1 as int),
        forall|k: u32| #[trigger] bm@.contains(k) <==> off <= k < off + vx_1 && predicate_encoded.holds(q[k - off])
    decreases n - vx_1
//@loopstart 1
    proof { next_record(d, n, vx_1 - 1); }
//@fn materialize ret=r
    requires old(self).rok(), logical_offset + old(self).recs().len() <= lim32()
    ensures final(self).rok(), final(self).recs() == old(self).recs(), r is Ok ==> final(output).out() == old(output).out() + bytes(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None))
//@fn max ret=r
    requires old(self).rok(), logical_offset + old(self).recs().len() < lim32()
    ensures final(self).rok(), final(self).recs() == old(self).recs(), !old(self).cached() ==> r is Ok && r->Ok_0 == ext_answer(old(self).src(), old(self).n(), mv(bitmask), logical_offset as int, false),
        old(self).cached() && r is Ok ==> r->Ok_0 == most(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None), ninf_s())
//@start
    let ghost o = *self;
    proof { if !self.cached() { header_values(self.src(), self.n()); unmasked(content(self.src(), self.n()).0, logical_offset as int, self.n(), false); if bitmask is Some && (forall|u: u32| !bitmask->0@.contains(u)) { none_sel(bitmask->0@, logical_offset as int, self.n()); } } }
//@fn min ret=r
    requires old(self).rok(), logical_offset + old(self).recs().len() < lim32()
    ensures final(self).rok(), final(self).recs() == old(self).recs(), !old(self).cached() ==> r is Ok && r->Ok_0 == ext_answer(old(self).src(), old(self).n(), mv(bitmask), logical_offset as int, true),
        old(self).cached() && r is Ok ==> r->Ok_0 == least(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None), inf_s())
//@start
    proof { if !self.cached() { header_values(self.src(), self.n()); unmasked(content(self.src(), self.n()).0, logical_offset as int, self.n(), true); if bitmask is Some && (forall|u: u32| !bitmask->0@.contains(u)) { none_sel(bitmask->0@, logical_offset as int, self.n()); } } }
//@fn sum ret=r
    requires old(self).rok(), logical_offset + old(self).recs().len() < lim32(), !old(self).cached() ==> sums_fit(content(old(self).src(), old(self).n()).0, mv(bitmask), logical_offset as int)
    ensures final(self).rok(), final(self).recs() == old(self).recs(), !old(self).cached() ==> r is Ok && r->Ok_0 == sum_answer(old(self).src(), old(self).n(), mv(bitmask), logical_offset as int),
        old(self).cached() && r is Ok ==> r->Ok_0 == total(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None), zero_s())
//@start
    proof { if !self.cached() { header_values(self.src(), self.n()); let q = content(self.src(), self.n()).0; assert forall|k: int| 0 <= k <= q.len() implies isum(q, None, logical_offset as int, k) == #[trigger] isum(q, None, 0, k) by { unmasked(q, logical_offset as int, k, true); } if bitmask is Some && (forall|u: u32| !bitmask->0@.contains(u)) { none_sel(bitmask->0@, logical_offset as int, self.n()); } } }
//@enditem
/// what was compressed comes back: each record as the nearest multiple of 1/scale
pub proof fn round_trip(v: Seq<f64>, scale: u64, d: Seq<u8>)
    requires is_padded(image(quants(v, scale), scale), d), bounded(quants(v, scale)), scale < 0x1_0000_0000
    ensures valid(d, v.len() as int), decoded(d, v.len() as int) =~= Seq::new(v.len(), |i: int| unq(quant(v[i], scale), scale as u32))
{ image_chunk(quants(v, scale), scale, d); }
} // mod sd
} // verus!
fn main() {}
