//@include lib/prelude.rs
//@include lib/query.rs
pub mod env {
use super::*;
use std::sync::Arc;
// the input stream: only its position is modelled
pub trait Read: Sized { spec fn at(&self) -> int; }
pub trait Seek: Sized { }
impl<R: Read> Read for &mut R { open spec fn at(&self) -> int { (**self).at() } }
pub trait FileMetadataLike: Sized { }
#[verifier::external_body]
pub struct Metadata { x: u64 }
impl FileMetadataLike for Arc<Metadata> { }
pub struct NativeChunkFooter { pub l: u64 }
impl NativeChunkFooter { pub fn logical_offset(&self) -> (r: u64) ensures r == self.l { self.l } }
// one chunk of the file: its records (as read with a precision), where they start among the file's records, where its bytes start
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct GeneralChunkHandle<T: FileMetadataLike> { x: T }
impl<T: FileMetadataLike> GeneralChunkHandle<T> {
    pub uninterp spec fn recs(&self, precision: Option<u32>) -> Seq<f64>;
    pub uninterp spec fn first(&self) -> int;
    pub uninterp spec fn start(&self) -> int;
    pub uninterp spec fn count(&self) -> int;
    #[verifier::external_body]
    pub fn chunk_footer(&self) -> (r: &NativeChunkFooter) ensures r.l == self.first() { unimplemented!() }
    #[verifier::external_body]
    pub fn number_of_records(&self) -> (r: u64) ensures r == self.count() { unimplemented!() }
    #[verifier::external_body]
    pub fn logical_record_range_u32(&self) -> (r: std::ops::Range<u32>)
        requires self.first() + self.count() < lim32()
        ensures r.start == self.first(), r.end == self.first() + self.count() { unimplemented!() }
    #[verifier::external_body]
    pub fn seek_to_chunk<R: Read + Seek>(&self, input: &mut R) -> (r: decoder::Result<()>)
        ensures r is Ok ==> (*final(input)).at() == self.start() { unimplemented!() }
    #[verifier::external_body]
    pub fn make_chunk_reader<'a, R: Read>(&'a mut self, input: &'a mut R) -> (r: decoder::Result<super::cr::GeneralChunkReader<'a, T, &'a mut R>>)
        requires (*old(input)).at() == old(self).start()
        ensures r is Ok ==> r->Ok_0.whole(old(self), None), *final(self) == *old(self) { unimplemented!() }
}
// the codec's reader behind a chunk reader; its queries are the contracts of QueryExecutor (unit query)
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct GeneralChunkReaderInner<R: Read> { x: R }
impl<R: Read> GeneralChunkReaderInner<R> {
    pub uninterp spec fn recs(&self) -> Seq<f64>;
    #[verifier::external_body]
    pub fn materialize<W: Write>(&mut self, output: &mut W, bitmask: Option<&RoaringBitmap>, logical_offset: usize, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<()>)
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(), r is Ok ==> final(output).out() == old(output).out() + bytes(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None)) { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_materialize<W: Write>(&mut self, output: &mut W, predicate: Predicate, bitmask: Option<&RoaringBitmap>, logical_offset: usize, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<()>)
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(), r is Ok ==> final(output).out() == old(output).out() + bytes(chosen(old(self).recs(), mv(bitmask), logical_offset as int, Some(predicate))) { unimplemented!() }
    #[verifier::external_body]
    pub fn filter(&mut self, predicate: Predicate, bitmask: Option<&RoaringBitmap>, logical_offset: usize, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<RoaringBitmap>)
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(), r is Ok ==> (forall|k: u32| #[trigger] r->Ok_0@.contains(k) <==> hit(old(self).recs(), mv(bitmask), logical_offset as int, predicate, k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn sum(&mut self, bitmask: Option<&RoaringBitmap>, logical_offset: usize, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<f64>)
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(), r is Ok ==> r->Ok_0 == total(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None), zero_s()) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(&mut self, bitmask: Option<&RoaringBitmap>, logical_offset: usize, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<f64>)
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(), r is Ok ==> r->Ok_0 == least(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None), inf_s()) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(&mut self, bitmask: Option<&RoaringBitmap>, logical_offset: usize, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<f64>)
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(), r is Ok ==> r->Ok_0 == most(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None), ninf_s()) { unimplemented!() }
    #[verifier::external_body]
    pub fn distance_squared(&mut self, offset_in_chunk: usize, target: &[f64], timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<f64>)
        ensures final(self).recs() == old(self).recs(), r is Ok ==> r->Ok_0 == dist(old(self).recs(), offset_in_chunk as int, target@, overlap(old(self).recs(), offset_in_chunk as int, target@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn dot_product(&mut self, offset_in_chunk: usize, target: &[f64], timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<f64>)
        ensures final(self).recs() == old(self).recs(), r is Ok ==> r->Ok_0 == dot(old(self).recs(), offset_in_chunk as int, target@, overlap(old(self).recs(), offset_in_chunk as int, target@)) { unimplemented!() }
}
}
pub mod cr {
use super::*;
use super::env::*;
use super::decoder::Result;
//@item ebi/src/decoder/chunk_reader.rs :: struct GeneralChunkReader
//@enditem
impl<'handle, T: FileMetadataLike, R: Read> GeneralChunkReader<'handle, T, R> {
    pub closed spec fn recs(&self) -> Seq<f64> { self.reader.recs() }
    pub open spec fn off(&self) -> int { self.of().first() }
    pub open spec fn fits(&self) -> bool { self.off() + self.recs().len() <= lim32() }
    pub closed spec fn of(&self) -> GeneralChunkHandle<T> { *self.handle }
    pub open spec fn same(&self, o: &Self) -> bool { self.recs() == o.recs() && self.of() == o.of() }
    pub open spec fn whole(&self, h: &GeneralChunkHandle<T>, precision: Option<u32>) -> bool { self.of() == *h && self.recs() == h.recs(precision) }
    /// the reader is in the state make_chunk_reader leaves it in, with this precision set
    #[verifier::external_body]
    pub fn with_precision(&mut self, precision: u32)
        ensures forall|h: GeneralChunkHandle<T>| old(self).whole(&h, None) ==> final(self).whole(&h, Some(precision))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn segmented_execution_times(&self) -> SegmentedExecutionTimes { unimplemented!() }
}
//@item ebi/src/decoder/chunk_reader.rs :: impl<'handle, T: FileMetadataLike, R: Read> GeneralChunkReader<'handle, T, R>
//@only materialize, filter, filter_materialize, sum, min, max, distance_squared, dot_product, number_of_records
//@fn materialize ret=r
        requires old(self).fits()
        ensures final(self).same(old(self)), r is Ok ==> final(output).out() == old(output).out() + bytes(chosen(old(self).recs(), mv(bitmask), old(self).off(), None))
//@fn filter_materialize ret=r
        requires old(self).fits()
        ensures final(self).same(old(self)), r is Ok ==> final(output).out() == old(output).out() + bytes(chosen(old(self).recs(), mv(bitmask), old(self).off(), Some(predicate)))
//@fn filter ret=r
        requires old(self).fits()
        ensures final(self).same(old(self)), r is Ok ==> (forall|k: u32| #[trigger] r->Ok_0@.contains(k) <==> hit(old(self).recs(), mv(bitmask), old(self).off(), predicate, k))
//@fn sum ret=r
        requires old(self).fits()
        ensures final(self).same(old(self)), r is Ok ==> r->Ok_0 == total(chosen(old(self).recs(), mv(bitmask), old(self).off(), None), zero_s())
//@fn min ret=r
        requires old(self).fits()
        ensures final(self).same(old(self)), r is Ok ==> r->Ok_0 == least(chosen(old(self).recs(), mv(bitmask), old(self).off(), None), inf_s())
//@fn max ret=r
        requires old(self).fits()
        ensures final(self).same(old(self)), r is Ok ==> r->Ok_0 == most(chosen(old(self).recs(), mv(bitmask), old(self).off(), None), ninf_s())
//@fn distance_squared ret=r
        ensures final(self).same(old(self)), r is Ok ==> r->Ok_0 == dist(old(self).recs(), offset_in_chunk as int, target@, overlap(old(self).recs(), offset_in_chunk as int, target@))
//@fn dot_product ret=r
        ensures final(self).same(old(self)), r is Ok ==> r->Ok_0 == dot(old(self).recs(), offset_in_chunk as int, target@, overlap(old(self).recs(), offset_in_chunk as int, target@))
//@fn number_of_records ret=r
        ensures r == self.of().count()
//@enditem
}
pub mod dq {
use super::*;
use super::env::*;
use super::cr::*;
use std::sync::Arc;
type H = GeneralChunkHandle<Arc<Metadata>>;
//@item ebi/src/api/decoder.rs :: struct DecoderInput
//@enditem
//@item ebi/src/api/decoder.rs :: impl<R: Read + Seek> DecoderInput<R>
    pub closed spec fn r(&self) -> R { self.inner }
//@only reader_mut
//@fn reader_mut ret=r
    ensures *r == old(self).r(), final(self).r() == *final(r)
//@enditem
//@item ebi/src/api/decoder.rs :: struct DecoderOutput
//@enditem
//@item ebi/src/api/decoder.rs :: impl<W: Write> DecoderOutput<W>
    pub closed spec fn out(&self) -> Seq<u8> { self.inner.out() }
//@only writer_mut
//@fn writer_mut ret=r
    ensures (*r).out() == old(self).out(), final(self).out() == (*final(r)).out()
//@enditem
#[derive(Clone, Copy)]
//@item ebi/src/api/decoder.rs :: struct ChunkId
//@enditem
//@item ebi/src/api/decoder.rs :: impl ChunkId
    pub closed spec fn n(&self) -> int { self.0 as int }
//@only index
//@fn index ret=r
    ensures r == self.n()
//@enditem
//@item ebi/src/api/decoder.rs :: struct Decoder
//@rewritere Box<\[(.*)\]> => Vec<\1>
//@enditem
pub open spec fn on(id: Option<ChunkId>, i: int) -> bool { match id { Some(c) => c.n() == i, None => true } }
/// positions of the chunk meet the mask
pub open spec fn meets(m: Option<Set<u32>>, h: H) -> bool { match m { Some(s) => exists|k: u32| s.contains(k) && h.first() <= k < h.first() + h.count(), None => true } }
/// what the queries rely on: the directory's counts are those of the records, and positions fit 32 bits
pub open spec fn laid(hs: Seq<H>, p: Option<u32>) -> bool {
    forall|i: int| 0 <= i < hs.len() ==> (#[trigger] hs[i]).recs(p).len() == hs[i].count() && 0 <= hs[i].first() && hs[i].first() + hs[i].count() < lim32()
}
pub open spec fn picked(hs: Seq<H>, p: Option<u32>, m: Option<Set<u32>>, id: Option<ChunkId>, q: Option<Predicate>, n: int) -> Seq<f64> decreases n {
    if n <= 0 { Seq::empty() } else if on(id, n - 1) { picked(hs, p, m, id, q, n - 1) + chosen(hs[n - 1].recs(p), m, hs[n - 1].first(), q) } else { picked(hs, p, m, id, q, n - 1) }
}
pub open spec fn hits(hs: Seq<H>, p: Option<u32>, m: Option<Set<u32>>, id: Option<ChunkId>, q: Predicate, n: int, k: u32) -> bool decreases n {
    n > 0 && (hits(hs, p, m, id, q, n - 1, k) || (on(id, n - 1) && hit(hs[n - 1].recs(p), m, hs[n - 1].first(), q, k)))
}
pub open spec fn totals(hs: Seq<H>, p: Option<u32>, m: Option<Set<u32>>, id: Option<ChunkId>, n: int) -> f64 decreases n {
    if n <= 0 { zero_s() } else if on(id, n - 1) && meets(m, hs[n - 1]) { add_s(totals(hs, p, m, id, n - 1), total(chosen(hs[n - 1].recs(p), m, hs[n - 1].first(), None), zero_s())) } else { totals(hs, p, m, id, n - 1) }
}
pub open spec fn leasts(hs: Seq<H>, p: Option<u32>, m: Option<Set<u32>>, id: Option<ChunkId>, n: int) -> f64 decreases n {
    if n <= 0 { inf_s() } else if on(id, n - 1) && meets(m, hs[n - 1]) { min_s(leasts(hs, p, m, id, n - 1), least(chosen(hs[n - 1].recs(p), m, hs[n - 1].first(), None), inf_s())) } else { leasts(hs, p, m, id, n - 1) }
}
pub open spec fn mosts(hs: Seq<H>, p: Option<u32>, m: Option<Set<u32>>, id: Option<ChunkId>, n: int) -> f64 decreases n {
    if n <= 0 { ninf_s() } else if on(id, n - 1) && meets(m, hs[n - 1]) { max_s(mosts(hs, p, m, id, n - 1), most(chosen(hs[n - 1].recs(p), m, hs[n - 1].first(), None), ninf_s())) } else { mosts(hs, p, m, id, n - 1) }
}
proof fn none_chosen(s: Seq<f64>, m: Set<u32>, off: int, q: Option<Predicate>)
    requires 0 <= off, off + s.len() < lim32(), forall|k: u32| off <= k < off + s.len() ==> !m.contains(k)
    ensures chosen(s, Some(m), off, q) == Seq::<f64>::empty()
    decreases s.len()
{ if s.len() > 0 { none_chosen(s.drop_last(), m, off, q); assert(!m.contains((off + s.len() - 1) as u32)); } }
/// a chunk whose positions do not meet the mask adds nothing
proof fn skipped(hs: Seq<H>, p: Option<u32>, m: Option<Set<u32>>, id: Option<ChunkId>, q: Option<Predicate>, n: int)
    requires 0 < n <= hs.len(), laid(hs, p), !meets(m, hs[n - 1])
    ensures picked(hs, p, m, id, q, n) == picked(hs, p, m, id, q, n - 1), q is Some ==> forall|k: u32| hits(hs, p, m, id, q->0, n, k) == hits(hs, p, m, id, q->0, n - 1, k)
{
    let h = hs[n - 1];
    assert(h.recs(p).len() == h.count());
    none_chosen(h.recs(p), m->0, h.first(), q);
    assert(picked(hs, p, m, id, q, n - 1) + Seq::<f64>::empty() =~= picked(hs, p, m, id, q, n - 1));
}
proof fn bytes_cat(a: Seq<f64>, b: Seq<f64>)
    ensures bytes(a + b) == bytes(a) + bytes(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(bytes(b) =~= Seq::<u8>::empty()); assert(bytes(a) + bytes(b) =~= bytes(a)); }
    else { bytes_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(bytes(a + b) =~= bytes(a) + bytes(b)); }
}
// ---- a whole file: the chunks in order partition its records
pub open spec fn in_order(hs: Seq<H>, p: Option<u32>) -> bool {
    laid(hs, p) && (hs.len() > 0 ==> hs[0].first() == 0) && forall|i: int| 0 <= i && i + 1 < hs.len() ==> (#[trigger] hs[i]).first() + hs[i].count() == hs[i + 1].first()
}
pub open spec fn all(hs: Seq<H>, p: Option<u32>, n: int) -> Seq<f64> decreases n { if n <= 0 { Seq::empty() } else { all(hs, p, n - 1) + hs[n - 1].recs(p) } }
proof fn chosen_cat(a: Seq<f64>, b: Seq<f64>, m: Option<Set<u32>>, off: int, q: Option<Predicate>)
    ensures chosen(a + b, m, off, q) == chosen(a, m, off, q) + chosen(b, m, off + a.len(), q)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(chosen(a, m, off, q) + chosen(b, m, off + a.len(), q) =~= chosen(a, m, off, q)); }
    else { chosen_cat(a, b.drop_last(), m, off, q); assert((a + b).drop_last() =~= a + b.drop_last()); assert(chosen(a + b, m, off, q) =~= chosen(a, m, off, q) + chosen(b, m, off + a.len(), q)); }
}
proof fn all_len(hs: Seq<H>, p: Option<u32>, n: int)
    requires in_order(hs, p), 0 <= n <= hs.len()
    ensures n < hs.len() ==> all(hs, p, n).len() == hs[n].first(), n > 0 ==> all(hs, p, n).len() == hs[n - 1].first() + hs[n - 1].count()
    decreases n
{ if n > 0 { all_len(hs, p, n - 1); assert(hs[n - 1].recs(p).len() == hs[n - 1].count()); } }
/// without a chunk number, the records picked are those chosen from the whole file
pub proof fn whole_file_picked(hs: Seq<H>, p: Option<u32>, m: Option<Set<u32>>, q: Option<Predicate>, n: int)
    requires in_order(hs, p), 0 <= n <= hs.len()
    ensures picked(hs, p, m, None, q, n) == chosen(all(hs, p, n), m, 0, q)
    decreases n
{ if n > 0 { whole_file_picked(hs, p, m, q, n - 1); all_len(hs, p, n - 1); chosen_cat(all(hs, p, n - 1), hs[n - 1].recs(p), m, 0, q); } }
/// and the positions found are those of the whole file
pub proof fn whole_file_hits(hs: Seq<H>, p: Option<u32>, m: Option<Set<u32>>, q: Predicate, n: int, k: u32)
    requires in_order(hs, p), 0 <= n <= hs.len()
    ensures hits(hs, p, m, None, q, n, k) == hit(all(hs, p, n), m, 0, q, k)
    decreases n
{ if n > 0 { whole_file_hits(hs, p, m, q, n - 1, k); all_len(hs, p, n - 1); } }
//@item ebi/src/api/decoder.rs :: impl<R: Read + Seek> Decoder<R>
    pub closed spec fn hs(&self) -> Seq<H> { self.chunk_handles@ }
    pub closed spec fn prec(&self) -> Option<u32> { self.precision }
    pub open spec fn ok(&self) -> bool { laid(self.hs(), self.prec()) }
//@only materialize, filter, filter_materialize, sum, min, max, chunk_reader, chunk_reader_from_handle
//@rewritere self\.timer \+= (.*?); => timer_add(&mut self.timer, \1);
//@rewritere \((\w+) & (\w+)\)\.is_empty\(\) => bm_and(\1, \2).is_empty()
//@rewritere (\w+) \|= (\w+); => \1 = bm_or(\1, \2);
//@rewritere let mut result = 0\.0; => let mut result = fzero();
//@rewritere \bresult \+= (.*?); => result = fadd(result, \1);
//@rewrite f64::INFINITY => finf()
//@rewrite f64::NEG_INFINITY => fninf()
//@rewritere \bresult\.min\((.*?\?)\) => fmin(result, \1)
//@rewritere \bresult\.max\((.*?\?)\) => fmax(result, \1)
//@fn chunk_reader_from_handle ret=r
    ensures r is Ok ==> r->Ok_0.whole(&*old(chunk_handle), precision), *final(chunk_handle) == *old(chunk_handle)
//@fn chunk_reader ret=r
    requires 0 <= chunk_id.n() < old(self).hs().len()
    ensures r is Ok ==> r->Ok_0.whole(&old(self).hs()[chunk_id.n()], old(self).prec()), final(self).hs() == old(self).hs(), final(self).prec() == old(self).prec()
//@fn materialize ret=r
    requires old(self).ok()
    ensures final(self).hs() == old(self).hs(), final(self).prec() == old(self).prec(),
        r is Ok ==> final(output).out() == old(output).out() + bytes(picked(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, None, old(self).hs().len() as int))
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= chunk_handles@.len(), chunk_handles@ == old(self).hs(), self.precision == old(self).prec(),
        output.out() == old(output).out() + bytes(picked(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, None, vx_1 as int)),
    decreases chunk_handles@.len() - vx_1,
//@loopstart 1
    proof {
        assert(*chunk_handle == old(self).hs()[vx_1 - 1]);
        assert(chunk_handle.recs(old(self).prec()).len() == chunk_handle.count());
        if !meets(mv(bitmask), *chunk_handle) { skipped(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, None, vx_1 as int); }
        bytes_cat(picked(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, None, vx_1 - 1), chosen(chunk_handle.recs(old(self).prec()), mv(bitmask), chunk_handle.first(), None)); assert(forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] (a + (b + c)) =~= (a + b) + c);
    }
//@fn filter_materialize ret=r
    requires old(self).ok()
    ensures final(self).hs() == old(self).hs(), final(self).prec() == old(self).prec(),
        r is Ok ==> final(output).out() == old(output).out() + bytes(picked(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, Some(predicate), old(self).hs().len() as int))
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= chunk_handles@.len(), chunk_handles@ == old(self).hs(), self.precision == old(self).prec(),
        output.out() == old(output).out() + bytes(picked(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, Some(predicate), vx_1 as int)),
    decreases chunk_handles@.len() - vx_1,
//@loopstart 1
    proof {
        assert(*chunk_handle == old(self).hs()[vx_1 - 1]);
        assert(chunk_handle.recs(old(self).prec()).len() == chunk_handle.count());
        if !meets(mv(bitmask), *chunk_handle) { skipped(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, Some(predicate), vx_1 as int); }
        bytes_cat(picked(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, Some(predicate), vx_1 - 1), chosen(chunk_handle.recs(old(self).prec()), mv(bitmask), chunk_handle.first(), Some(predicate))); assert(forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] (a + (b + c)) =~= (a + b) + c);
    }
//@fn filter ret=r
    requires old(self).ok()
    ensures final(self).hs() == old(self).hs(), final(self).prec() == old(self).prec(),
        r is Ok ==> (forall|k: u32| #[trigger] r->Ok_0@.contains(k) <==> hits(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, predicate, old(self).hs().len() as int, k))
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= chunk_handles@.len(), chunk_handles@ == old(self).hs(), self.precision == old(self).prec(),
        forall|k: u32| #[trigger] result@.contains(k) <==> hits(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, predicate, vx_1 as int, k),
    decreases chunk_handles@.len() - vx_1,
//@loopstart 1
    proof {
        assert(*chunk_handle == old(self).hs()[vx_1 - 1]);
        assert(chunk_handle.recs(old(self).prec()).len() == chunk_handle.count());
        if !meets(mv(bitmask), *chunk_handle) { skipped(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, Some(predicate), vx_1 as int); }
        
    }
//@fn sum ret=r
    requires old(self).ok()
    ensures final(self).hs() == old(self).hs(), final(self).prec() == old(self).prec(),
        r is Ok ==> r->Ok_0 == totals(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, old(self).hs().len() as int)
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= chunk_handles@.len(), chunk_handles@ == old(self).hs(), self.precision == old(self).prec(),
        result == totals(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, vx_1 as int),
    decreases chunk_handles@.len() - vx_1,
//@loopstart 1
    proof {
        assert(*chunk_handle == old(self).hs()[vx_1 - 1]);
        assert(chunk_handle.recs(old(self).prec()).len() == chunk_handle.count());
        if !meets(mv(bitmask), *chunk_handle) { skipped(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, None, vx_1 as int); }
        
    }
//@fn min ret=r
    requires old(self).ok()
    ensures final(self).hs() == old(self).hs(), final(self).prec() == old(self).prec(),
        r is Ok ==> r->Ok_0 == leasts(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, old(self).hs().len() as int)
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= chunk_handles@.len(), chunk_handles@ == old(self).hs(), self.precision == old(self).prec(),
        result == leasts(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, vx_1 as int),
    decreases chunk_handles@.len() - vx_1,
//@loopstart 1
    proof {
        assert(*chunk_handle == old(self).hs()[vx_1 - 1]);
        assert(chunk_handle.recs(old(self).prec()).len() == chunk_handle.count());
        if !meets(mv(bitmask), *chunk_handle) { skipped(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, None, vx_1 as int); }
        
    }
//@fn max ret=r
    requires old(self).ok()
    ensures final(self).hs() == old(self).hs(), final(self).prec() == old(self).prec(),
        r is Ok ==> r->Ok_0 == mosts(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, old(self).hs().len() as int)
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= chunk_handles@.len(), chunk_handles@ == old(self).hs(), self.precision == old(self).prec(),
        result == mosts(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, vx_1 as int),
    decreases chunk_handles@.len() - vx_1,
//@loopstart 1
    proof {
        assert(*chunk_handle == old(self).hs()[vx_1 - 1]);
        assert(chunk_handle.recs(old(self).prec()).len() == chunk_handle.count());
        if !meets(mv(bitmask), *chunk_handle) { skipped(old(self).hs(), old(self).prec(), mv(bitmask), chunk_id, None, vx_1 as int); }
        
    }
//@enditem
}
fn main() {}
}
