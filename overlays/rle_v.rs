//@include lib/prelude.rs
//@include lib/float.rs
pub mod rl {
use super::*;
use std::mem::{size_of, size_of_val};
pub mod encoder { pub struct EncoderError { } pub type Result<T> = std::result::Result<T, EncoderError>; }
global size_of f64 == 8;
global size_of RunLengthHeader == 8;
pub open spec fn lim() -> int { 0x100_0000_0000_0000 }
// ---- the bytes of a double: 8 bytes that determine it (assumed of f64::to_le_bytes / from_le_bytes)
pub uninterp spec fn le(v: f64) -> Seq<u8>;
pub uninterp spec fn of_le(b: Seq<u8>) -> f64;
pub axiom fn le_len(v: f64) ensures le(v).len() == 8;
pub axiom fn le_back(v: f64) ensures of_le(le(v)) == v;
#[verifier::external_body]
fn f_le(v: f64) -> (r: [u8; 8]) ensures r@ == le(v) { v.to_le_bytes() }
#[verifier::external_body]
fn u8_le(v: u8) -> (r: [u8; 1]) ensures r@ == seq![v] { v.to_le_bytes() }
#[verifier::external_body]
fn same_bits(a: f64, b: f64) -> (r: bool) ensures r == (a == b) { a.to_bits() == b.to_bits() }
#[verifier::external_body]
pub fn f_of_le(b: &[u8]) -> (r: f64) requires b@.len() == 8 ensures r == of_le(b@) { f64::from_le_bytes(b.try_into().unwrap()) }
fn u8_of_le(b: &[u8]) -> (r: u8) requires b@.len() == 1 ensures r == b@[0] { b[0] }
#[verifier::external_body]
pub fn fzero() -> f64 { 0.0 }
// ---- what the fields stand for
pub open spec fn rep(v: f64, n: nat) -> Seq<f64> { Seq::new(n, |i: int| v) }
pub open spec fn field(b: Seq<u8>, k: int) -> Seq<f64> { rep(of_le(b.subrange(9 * k + 1, 9 * k + 9)), b[9 * k] as nat) }
/// the records of the first n fields
pub open spec fn expand(b: Seq<u8>, n: int) -> Seq<f64> decreases n { if n <= 0 { Seq::empty() } else { expand(b, n - 1) + field(b, n - 1) } }
pub proof fn expand_ext(b: Seq<u8>, c: Seq<u8>, n: int)
    requires 0 <= n, 9 * n <= b.len(), 9 * n <= c.len(), forall|i: int| 0 <= i < 9 * n ==> b[i] == c[i]
    ensures expand(b, n) == expand(c, n)
    decreases n
{
    if n > 0 {
        expand_ext(b, c, n - 1);
        assert(b.subrange(9 * (n - 1) + 1, 9 * (n - 1) + 9) =~= c.subrange(9 * (n - 1) + 1, 9 * (n - 1) + 9));
    }
}
pub proof fn expand_len(b: Seq<u8>, n: int)
    requires 0 <= n, 9 * n <= b.len(), nonzero(b)
    ensures expand(b, n).len() >= n
    decreases n
{ if n > 0 { expand_len(b, n - 1); assert(b[9 * (n - 1)] > 0); } }
/// every field stands for at least one record, so dropping fields shortens the records
pub open spec fn nonzero(b: Seq<u8>) -> bool { forall|k: int| 0 <= k && 9 * k + 9 <= b.len() ==> #[trigger] b[9 * k] > 0 }
//@item ebi/src/format/run_length.rs :: struct RunLengthHeader
//@enditem
//@item ebi/src/format/run_length.rs :: impl RunLengthHeader
    pub closed spec fn n(&self) -> u64 { self.number_of_fields }
//@fn number_of_fields ret=r
    ensures r == self.n()
//@fn set_number_of_fields
    ensures final(self).n() == number_of_fields
//@enditem
impl RunLengthHeader {
    #[verifier::external_body]
    fn to_le(&mut self) ensures *final(self) == *old(self) { self.number_of_fields = self.number_of_fields.to_le(); }
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.n() == 0 { RunLengthHeader { number_of_fields: 0 } }
}
//@item ebi/src/compressor/run_length.rs :: struct RunLengthCompressor
//@enditem
//@item ebi/src/compressor/run_length.rs :: const DEFAULT_CAPACITY
//@enditem
impl RunLengthCompressor {
    pub closed spec fn fields(&self) -> Seq<u8> { self.bytes@ }
    pub closed spec fn count(&self) -> int { self.header.n() as int }
    pub closed spec fn pending(&self) -> Seq<f64> { rep(self.previous_value, self.previous_run_count as nat) }
    pub closed spec fn ok(&self) -> bool {
        self.bytes@.len() == 9 * self.header.n() && self.total_bytes_in == 8 * self.recs().len() && self.recs().len() < lim() && nonzero(self.bytes@)
    }
    pub closed spec fn recs(&self) -> Seq<f64> { expand(self.bytes@, self.header.n() as int) + self.pending() }
}
pub trait Compressor: Sized {
    spec fn v(&self) -> Seq<f64>;
    spec fn good(&self) -> bool;
    fn compress(&mut self, input: &[f64]) -> (r: encoder::Result<()>)
        requires old(self).good(), input@.len() < lim()
        ensures r is Ok, final(self).good(), final(self).v() == input@;
    fn total_bytes_in(&self) -> (r: usize)
        requires self.good()
        ensures r == 8 * self.v().len();
    spec fn out(&self) -> int;
    fn total_bytes_buffered(&self) -> (r: usize)
        requires self.good()
        ensures r == self.out();
    spec fn closed_run(&self) -> bool;
    fn prepare(&mut self)
        requires old(self).good()
        ensures final(self).good(), final(self).v() == old(self).v(), final(self).out() == old(self).out(), final(self).closed_run();
    fn reset(&mut self)
        requires old(self).good()
        ensures final(self).good(), final(self).v() == Seq::<f64>::empty();
}
pub trait AppendableCompressor: Compressor {
    fn append_compress(&mut self, input: &[f64])
        requires old(self).good(), old(self).v().len() + input@.len() < lim()
        ensures final(self).good(), final(self).v() == old(self).v() + input@;
}
pub trait RewindableCompressor: AppendableCompressor {
    fn rewind(&mut self, n: usize) -> (r: bool)
        requires old(self).good()
        ensures final(self).good(),
            !old(self).closed_run() ==> r == (n <= old(self).v().len()),
            r ==> n <= old(self).v().len() && final(self).v() == old(self).v().take(old(self).v().len() - n),
            !r ==> final(self).v() == old(self).v();
}
//@item ebi/src/compressor/run_length.rs :: impl RunLengthCompressor
//@rewritere &(run_count)\.to_le_bytes\(\) => &u8_le(\1)
//@rewritere &(value)\.to_le_bytes\(\) => &f_le(\1)
//@rewritere Default::default\(\) => RunLengthHeader::default()
//@rewritere : 0\.0, => : fzero(),
//@fn new ret=r
    ensures r.ok(), r.recs() == Seq::<f64>::empty()
//@fn with_capacity ret=r
    ensures r.ok(), r.recs() == Seq::<f64>::empty()
//@end
    proof { }
//@fn add_field
    requires old(self).bytes@.len() == 9 * old(self).header.n(), old(self).header.n() < 0x1000_0000_0000_0000, run_count > 0, nonzero(old(self).bytes@)
    ensures final(self).bytes@.len() == 9 * final(self).header.n(), final(self).header.n() == old(self).header.n() + 1, nonzero(final(self).bytes@),
        expand(final(self).bytes@, final(self).header.n() as int) == expand(old(self).bytes@, old(self).header.n() as int) + rep(value, run_count as nat),
        final(self).total_bytes_in == old(self).total_bytes_in, final(self).previous_value == old(self).previous_value, final(self).previous_run_count == old(self).previous_run_count
//@end
    proof {
        le_len(value); le_back(value);
        let b = self.bytes@; let k = old(self).header.n() as int;
        assert(b == old(self).bytes@ + seq![run_count] + le(value));
        expand_ext(old(self).bytes@, b, k);
        assert(b.subrange(9 * k + 1, 9 * k + 9) =~= le(value));
        assert(b[9 * k] == run_count);
        assert forall|j: int| 0 <= j && 9 * j + 9 <= b.len() implies #[trigger] b[9 * j] > 0 by { if j < k { assert(b[9 * j] == old(self).bytes@[9 * j]); } }
    }
//@enditem
//@item ebi/src/compressor/run_length.rs :: impl Compressor for RunLengthCompressor
    open spec fn v(&self) -> Seq<f64> { self.recs() }
    open spec fn good(&self) -> bool { self.ok() }
    closed spec fn out(&self) -> int { 8 + self.bytes@.len() + if self.previous_run_count == 0 { 0int } else { 9 } }
    closed spec fn closed_run(&self) -> bool { self.previous_run_count == 0 }
//@skip buffers, execution_times
//@rewritere self\.previous_value\.to_le_bytes\(\) == value\.to_le_bytes\(\) => same_bits(self.previous_value, *value)
//@fn compress
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost inp = input@;
    let ghost was = old(self).recs();
//@loop 1 ix
    invariant vx_1 <= input@.len(), self.previous_run_count > 0, self.bytes@.len() == 9 * self.header.n(), nonzero(self.bytes@),
        self.total_bytes_in == 0, is_starting, input@ == inp.subrange(1, inp.len() as int), self.recs() =~= inp.take(vx_1 + 1),
    decreases input@.len() - vx_1,
//@loopstart 1
    proof {
        assert(input@[vx_1 - 1] == *value); expand_len(self.bytes@, self.header.n() as int);
        let k = inp.len() - input@.len() + vx_1;
        assert(inp.take(k) =~= inp.take(k - 1).push(*value));
        assert(rep(self.previous_value, (self.previous_run_count + 1) as nat) =~= self.pending().push(self.previous_value));
        let e = expand(self.bytes@, self.header.n() as int);
        assert(e + self.pending().push(self.previous_value) =~= self.recs().push(self.previous_value));
    }
//@loopend 1
//@fn total_bytes_buffered
//@start
    proof { expand_len(self.bytes@, self.header.n() as int); }
//@fn prepare
//@start
    proof { expand_len(self.bytes@, self.header.n() as int); }
//@fn reset
//@enditem
//@item ebi/src/compressor/run_length.rs :: impl AppendableCompressor for RunLengthCompressor
//@rewritere self\.previous_value\.to_le_bytes\(\) == value\.to_le_bytes\(\) => same_bits(self.previous_value, *value)
//@fn append_compress
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost inp = input@;
    let ghost was = old(self).recs();
//@loop 1 ix
    invariant vx_1 <= input@.len(), self.previous_run_count > 0, self.bytes@.len() == 9 * self.header.n(), nonzero(self.bytes@),
        self.total_bytes_in == 8 * was.len(), input@ == inp.subrange(inp.len() - input@.len(), inp.len() as int), was.len() + inp.len() < lim(), self.recs() =~= was + inp.take(inp.len() - input@.len() + vx_1),
    decreases input@.len() - vx_1,
//@loopstart 1
    proof {
        assert(input@[vx_1 - 1] == *value); expand_len(self.bytes@, self.header.n() as int);
        let k = inp.len() - input@.len() + vx_1;
        assert(was + inp.take(k) =~= (was + inp.take(k - 1)).push(*value)); assert(inp.take(k) =~= inp.take(k - 1).push(*value));
        assert(rep(self.previous_value, (self.previous_run_count + 1) as nat) =~= self.pending().push(self.previous_value));
        let e = expand(self.bytes@, self.header.n() as int);
        assert(e + self.pending().push(self.previous_value) =~= self.recs().push(self.previous_value));
    }
//@loopend 1
//@enditem
pub proof fn header_is_8() ensures vstd::layout::size_of::<RunLengthHeader>() == 8 { }
/// dropping the last records field by field
pub proof fn expand_take(b: Seq<u8>, n: int, m: int)
    requires 0 <= m <= n, 9 * n <= b.len()
    ensures expand(b, m).len() <= expand(b, n).len(), expand(b, n).take(expand(b, m).len() as int) == expand(b, m)
    decreases n - m
{
    if m < n { expand_take(b, n - 1, m); assert(expand(b, n).take(expand(b, m).len() as int) =~= expand(b, n - 1).take(expand(b, m).len() as int)); }
    else { assert(expand(b, n).take(expand(b, m).len() as int) =~= expand(b, m)); }
}
//@item ebi/src/compressor/run_length.rs :: impl RewindableCompressor for RunLengthCompressor
//@rewritere u8::from_le_bytes\((.*?)\.try_into\(\)\.unwrap\(\)\) => u8_of_le(&\1)
//@rewritere f64::from_le_bytes\((.*?)\.try_into\(\)\.unwrap\(\)\) => f_of_le(&\1)
//@fn rewind ret=r
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost was = old(self).recs();
    let ghost b = old(self).bytes@;
    let ghost f = old(self).header.n() as int;
    proof { expand_len(b, f); }
//@loop 1 ix
    invariant !previous_value_run_count_set, number_of_fields_to_rewind == vx_1, vx_1 <= vx_1_n + 1, *self == *old(self),
        vx_1 == 0 ==> remaining_records == n, vx_1 > 0 ==> remaining_records + (was.len() - expand(b, f - vx_1 + 1).len()) == n,
    decreases vx_1_n + 1 - vx_1,
//@loopstart 1
    proof {
        expand_take(b, f, f - vx_1 + 1);
        assert(was.take(expand(b, f).len() as int) =~= expand(b, f));
        if vx_1 == 1 {
            assert forall|k: nat| k <= run_count implies expand(b, f) + rep(value, (run_count - k) as nat) == #[trigger] was.take(was.len() - k) by { assert(expand(b, f) + rep(value, (run_count - k) as nat) =~= was.take(was.len() - k)); }
        } else {
            let m = f - vx_1 + 1;
            assert(field(b, m) == rep(value, run_count as nat)) by { assert(b.subrange(9 * m, 9 * m + 9).subrange(1, 9) =~= b.subrange(9 * m + 1, 9 * m + 9)); }
            expand_take(b, f, m + 1);
            let d = was.len() - expand(b, m + 1).len();
            assert(was.take(was.len() - d) =~= expand(b, m + 1)) by { assert(was.take(was.len() - d) =~= expand(b, f).take(was.len() - d)); }
            assert forall|k: nat| k <= run_count implies expand(b, m) + rep(value, (run_count - k) as nat) == #[trigger] was.take(was.len() - d - k) by {
                assert(was.take(was.len() - d - k) =~= was.take(was.len() - d).take(was.len() - d - k));
                assert(expand(b, m) + rep(value, (run_count - k) as nat) =~= expand(b, m + 1).take(was.len() - d - k));
            }
        }
    }
//@end
    proof {
        if r {
            let g = self.header.n() as int;
            expand_ext(b, self.bytes@, g);
            assert(self.recs() == was.take(was.len() - n)) by { if self.previous_run_count == 0 { assert(self.recs() =~= was.take(0)); } }
        }
    }
//@enditem
}
pub mod rd {
use super::*;
use super::rl::*;
use std::mem::size_of;
// the chunk's bytes as a stream (std::io::Read and Seek, assumed): exact reads deliver the next bytes or fail
pub enum SeekFrom { Start(u64) }
pub mod io { pub struct Error { } pub type Result<T> = std::result::Result<T, Error>; }
pub mod decoder {
    pub struct DecoderError { }
    pub type Result<T> = std::result::Result<T, DecoderError>;
}
#[verifier::external]
impl From<io::Error> for decoder::DecoderError { fn from(e: io::Error) -> Self { decoder::DecoderError { } } }
pub trait Read: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn at(&self) -> int;
    fn read_exact(&mut self, buf: &mut [u8; 9]) -> (r: decoder::Result<()>)
        ensures final(self).data() == old(self).data(), (r is Ok) == (0 <= old(self).at() && old(self).at() + 9 <= old(self).data().len()),
            r is Ok ==> final(self).at() == old(self).at() + 9 && final(buf)@ == old(self).data().subrange(old(self).at(), old(self).at() + 9);
}
pub trait Seek: Read {
    fn seek(&mut self, p: SeekFrom) -> (r: decoder::Result<u64>)
        ensures r is Ok, final(self).data() == old(self).data(), final(self).at() == p->Start_0;
}
//@include lib/timer.rs
//@item ebi/src/decoder/chunk_reader/run_length.rs :: struct RunLengthReaderImpl
//@enditem
impl<R: Read> RunLengthReaderImpl<R> {
    /// the fields of the chunk
    pub closed spec fn fields(&self) -> Seq<u8> { self.reader.data().subrange(8, self.reader.data().len() as int) }
    pub closed spec fn n(&self) -> int { self.header.n() as int }
    pub closed spec fn here(&self) -> int { self.reader.at() - 8 }
    pub closed spec fn nrec(&self) -> int { self.number_of_records as int }
    pub open spec fn recs(&self) -> Seq<f64> { expand(self.fields(), self.n()) }
    pub closed spec fn ok(&self) -> bool {
        self.reader.data().len() == 8 + 9 * self.header.n() && nonzero(self.fields()) && self.header.n() < 0x1000_0000_0000_0000 && self.number_of_records < 0x1000_0000_0000_0000
            && (self.decompressed is Some ==> self.decompressed->0@ == self.recs())
    }
    pub closed spec fn same(&self, o: &Self) -> bool { self.fields() == o.fields() && self.n() == o.n() }
}
//@item ebi/src/decoder/chunk_reader/run_length.rs :: impl<R: Read> RunLengthReaderImpl<R>
//@fn number_of_fields ret=r
    ensures r == self.n()
//@fn number_of_records ret=r
    ensures r == self.nrec()
//@enditem
pub trait Reader: Sized {
    spec fn all(&self) -> Seq<f64>;
    spec fn fine(&self) -> bool;
    fn header_size(&self) -> (r: usize) ensures r == 8;
    fn decompress(&mut self, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<&[f64]>)
        requires old(self).fine()
        ensures r is Ok, final(self).fine(), final(self).all() == old(self).all(), r->Ok_0@ == old(self).all();
}
//@item ebi/src/decoder/chunk_reader/run_length.rs :: impl<R: Read + Seek> Reader for RunLengthReaderImpl<R>
    open spec fn all(&self) -> Seq<f64> { self.recs() }
    open spec fn fine(&self) -> bool { self.ok() }
//@only decompress, header_size
//@rewritere (?s)type NativeHeader = .*?Self: 'a; =>
//@rewritere f64::from_le_bytes\((.*?)\.try_into\(\)\.unwrap\(\)\) => f_of_le(&\1)
//@fn header_size
//@start
    proof { header_is_8(); }
//@fn decompress
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1 ix
    invariant vx_1 <= vx_1_e, self.reader.data() == old(self).reader.data(), self.header == old(self).header, self.reader.at() == 8 + 9 * vx_1,
        decompressed@ =~= expand(old(self).fields(), vx_1 as int), self.decompressed is None, self.number_of_records == old(self).number_of_records,
    decreases vx_1_e - vx_1,
//@loop 2 ix
    invariant vx_2 <= vx_2_e, decompressed@ =~= expand(old(self).fields(), vx_1 - 1) + rep(value, vx_2 as nat),
    decreases vx_2_e - vx_2,
//@loopstart 2
    proof {
        let b = old(self).fields(); let m = vx_1 - 1;
        assert(buf@.subrange(1, 9) =~= b.subrange(9 * m + 1, 9 * m + 9)); assert(buf@[0] == b[9 * m]);
    }
//@loopend 1
    proof {
        let b = old(self).fields(); let m = vx_1 - 1;
        assert(buf@.subrange(1, 9) =~= b.subrange(9 * m + 1, 9 * m + 9)); assert(buf@[0] == b[9 * m]);
        assert(field(b, m) == rep(value, run_count as nat));
    }
//@enditem
//@item ebi/src/decoder/chunk_reader/run_length.rs :: struct RunLengthIteratorImpl
//@enditem
//@item ebi/src/decoder/chunk_reader/run_length.rs :: impl<'a, R: Read> RunLengthIteratorImpl<'a, R>
//@rewritere : 0\.0, => : fzero(),
//@fn new ret=r
    ensures r.src() == *old(reader), old(reader).ok() && old(reader).here() == 0 ==> r.ok() && r.pos() == 0
//@enditem
impl<'a, R: Read> RunLengthIteratorImpl<'a, R> {
    pub closed spec fn src(&self) -> RunLengthReaderImpl<R> { *self.reader }
    pub closed spec fn left(&self) -> int { self.current_run as int }
    pub closed spec fn done(&self) -> int { self.current_field as int }
    /// how many records were delivered
    pub closed spec fn pos(&self) -> int { expand(self.src().fields(), self.current_field as int).len() - self.current_run }
    pub closed spec fn ok(&self) -> bool {
        self.reader.ok() && self.current_field <= self.src().n() && self.src().here() == 9 * self.current_field
            && (self.current_run > 0 ==> self.current_field > 0 && self.current_run <= self.src().fields()[9 * (self.current_field - 1)]
                && self.current_value == of_le(self.src().fields().subrange(9 * (self.current_field - 1) + 1, 9 * (self.current_field - 1) + 9)))
    }
}
pub trait Iterator: Sized {
    type Item;
    spec fn steady(&self) -> bool;
    spec fn steps(&self, o: &Self, r: Option<Self::Item>) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).steady()
        ensures final(self).steps(old(self), r);
}
//@item ebi/src/decoder/chunk_reader/run_length.rs :: impl<R: Read> Iterator for RunLengthIteratorImpl<'_, R>
    open spec fn steady(&self) -> bool { self.ok() }
    open spec fn steps(&self, o: &Self, r: Option<Self::Item>) -> bool {
        self.src().same(&o.src()) && match r {
            None => o.pos() == o.src().recs().len(),
            Some(x) => x is Ok && self.ok() && 0 <= o.pos() < o.src().recs().len() && x->Ok_0 == o.src().recs()[o.pos()] && self.pos() == o.pos() + 1,
        }
    }
//@rewritere f64::from_le_bytes\((.*?)\.try_into\(\)\.unwrap\(\)\) => f_of_le(&\1)
//@fn next ret=r
//@start
    proof {
        let b = self.src().fields(); let c = self.current_field as int;
        expand_take(b, self.src().n(), c);
        if c < self.src().n() { expand_take(b, self.src().n(), c + 1); assert(b[9 * c] > 0); assert(b[9 * c] == self.reader.reader.data()[8 + 9 * c]); }
    }
//@end
    proof {
        let b = old(self).src().fields(); let c = self.current_field as int;
        if r is Some {
            let d = self.reader.reader.data();
            if old(self).current_run == 0 { assert(d.subrange(9 * c - 1, 9 * c + 8).subrange(1, 9) =~= b.subrange(9 * (c - 1) + 1, 9 * (c - 1) + 9)); }
            assert(expand(b, c) == expand(b, c - 1) + field(b, c - 1));
            expand_take(b, old(self).src().n(), c);
            assert(old(self).src().recs().take(expand(b, c).len() as int)[old(self).pos()] == old(self).src().recs()[old(self).pos()]);
        }
    }
//@enditem
//@item ebi/src/decoder/chunk_reader/run_length.rs :: impl<R: Read + Seek> Reader for RunLengthReaderImpl<R>
//@only decompress_iter
//@rewritere (?s)type NativeHeader = .*?Self: 'a; =>
//@rewritere Reader for RunLengthReaderImpl => RunLengthReaderImpl
//@rewritere Self::DecompressIterator<'_> => RunLengthIteratorImpl<'_, R>
//@fn decompress_iter ret=r
    requires old(self).ok()
    ensures r is Ok, r->Ok_0.ok(), r->Ok_0.pos() == 0, r->Ok_0.src().same(old(self))
//@enditem
}
fn main() {}
}
