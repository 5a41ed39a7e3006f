//@include lib/prelude.rs
//@include lib/timer.rs
//@include lib/files.rs
//@include lib/filesr.rs
pub mod fw {
use super::*;
use super::fm::*;
use super::fm::encoder::Result;
use super::fr::option_of;
use std::mem::size_of;
broadcast use {super::fm::pieces, super::fm::outs};
// ---- records
pub uninterp spec fn f64_of(s: Seq<u8>) -> f64;
pub open spec fn words(s: Seq<u8>) -> Seq<f64> { Seq::new((s.len() / 8) as nat, |i: int| f64_of(s.subrange(8 * i, 8 * i + 8))) }
pub proof fn words_split(s: Seq<u8>, m: int)
    requires 0 <= m <= s.len(), m % 8 == 0 || m == s.len()
    ensures words(s) == words(s.take(m)) + words(s.skip(m))
{
    let (a, b) = (s.take(m), s.skip(m));
    if m == s.len() {
        assert(a =~= s);
        assert(words(b).len() == 0);
        assert(words(s) =~= words(a) + words(b));
    } else {
        assert(words(a).len() == m / 8);
        assert forall|i: int| 0 <= i < words(s).len() implies #[trigger] words(s)[i] == (words(a) + words(b))[i] by {
            if i < m / 8 {
                assert(a.subrange(8 * i, 8 * i + 8) =~= s.subrange(8 * i, 8 * i + 8));
            } else {
                let j = i - m / 8;
                assert(b.subrange(8 * j, 8 * j + 8) =~= s.subrange(8 * i, 8 * i + 8));
            }
        }
        assert(words(s) =~= words(a) + words(b));
    }
}
global size_of f64 == 8;
/// the first n of the records in the bytes of b (a vector of doubles seen as bytes through a raw pointer)
#[verifier::external_body]
pub fn doubles(b: Vec<u8>, n: usize) -> (r: Vec<f64>)
    requires 8 * n <= b@.len()
    ensures r@ == words(b@.take(8 * n as int))
{ unimplemented!() }
/// buf.chunks_exact(8).map(|chunk| f64::from_le_bytes(chunk.try_into().unwrap())).collect()
#[verifier::external_body]
pub fn doubles_of(b: &Vec<u8>) -> (r: Vec<f64>)
    ensures r@ == words(b@)
{ unimplemented!() }
#[verifier::external_body]
pub fn zeroes(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
//@item ebi/src/encoder.rs :: fn read_less_or_equal
//@rewritere mut f: R => f: &mut R
//@rewritere (?s)let mut buf = vec!\[0\.0; \(n_bytes \+ 7\) / size_of::<f64>\(\)\];\s*let u8_slice = unsafe \{.*?\n    \}; => let mut u8_slice = zeroes(n_bytes);
//@rewritere f\.read\(&mut u8_slice\[(\w+)\.\.\]\) => f.read_from(&mut u8_slice, \1)
//@rewritere (\w+)\.kind\(\) == io::ErrorKind::Interrupted => \1.is_interrupted()
//@rewritere (\w+)\.kind\(\) == io::ErrorKind::UnexpectedEof => \1.is_unexpected_eof()
//@rewritere \be\.into\(\) => e
//@rewritere buf\.truncate\((.*)\);\s*Ok\(buf\) => let buf = doubles(u8_slice, \1); Ok(buf)
//@fn read_less_or_equal ret=r
    requires n_bytes < 0x1000_0000_0000_0000
    ensures r is Ok ==> r->Ok_0@ == words(old(f).ahead().take(least(n_bytes as int, old(f).ahead().len() as int)))
        && final(f).ahead() == old(f).ahead().skip(least(n_bytes as int, old(f).ahead().len() as int))
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@loop 1
    invariant_except_break
        n_read <= n_bytes, u8_slice@.len() == n_bytes, n_read <= old(f).ahead().len(),
        u8_slice@.take(n_read as int) == old(f).ahead().take(n_read as int),
        f.ahead() == old(f).ahead().skip(n_read as int),
    ensures
        n_read <= n_bytes, u8_slice@.len() == n_bytes, n_read <= old(f).ahead().len(),
        u8_slice@.take(n_read as int) == old(f).ahead().take(n_read as int),
        f.ahead() == old(f).ahead().skip(n_read as int),
        n_read == n_bytes || n_read == old(f).ahead().len(),
//@enditem
// ---- the codec of a chunk: what the properties of each codec give
#[verifier::external_body]
pub struct GenericCompressor { x: u64 }
/// b is a chunk written by the codec c for the records v
pub uninterp spec fn codes(c: CompressorConfig, b: Seq<u8>, v: Seq<f64>) -> bool;
pub open spec fn flat(s: Seq<&[u8]>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::<u8>::empty() } else { flat(s.drop_last()) + s.last()@ }
}
impl GenericCompressor {
    pub uninterp spec fn cfg(&self) -> CompressorConfig;
    pub uninterp spec fn recs(&self) -> Seq<f64>;
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn ready(&self) -> bool;
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body]
    pub fn compress(&mut self, input: &[f64]) -> (r: encoder::Result<()>)
        requires old(self).fresh()
        ensures final(self).cfg() == old(self).cfg(), r is Ok ==> final(self).recs() == input@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn total_bytes_in(&self) -> (r: usize)
        ensures r == 8 * self.recs().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn prepare(&mut self)
        ensures final(self).ready(), final(self).cfg() == old(self).cfg(), final(self).recs() == old(self).recs(),
            codes(final(self).cfg(), final(self).bytes(), final(self).recs()),
            final(self).bytes().len() <= 0x10_0000 * final(self).recs().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn buffers(&self) -> (r: Vec<&[u8]>)
        requires self.ready()
        ensures flat(r@) == self.bytes(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() <= self.bytes().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self)
        ensures final(self).fresh(), final(self).cfg() == old(self).cfg()
    { unimplemented!() }
}
impl CompressorConfig {
    #[verifier::external_body]
    pub fn build(&self) -> (r: GenericCompressor)
        ensures r.cfg() == *self
    { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        ensures self.le().len() <= 255,
            r is Ok ==> grew(old(w).st(), final(w).st(), seq![self.le().len() as u8] + self.le()),
            r is Err ==> torn(old(w).st(), final(w).st())
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Instant { x: u64 }
#[verifier::external_body]
pub struct Duration { x: u64 }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self) -> Duration { unimplemented!() }
}
#[verifier::external_body]
pub fn nanos_bytes(d: &Duration) -> (r: Vec<u8>) ensures r@.len() == 16 { unimplemented!() }
#[verifier::external_body]
pub fn version() -> [u16; 3] { unimplemented!() }
#[verifier::external_body]
pub fn magic() -> [u8; 4] { unimplemented!() }
#[verifier::external_body]
pub fn times_le(t: SegmentedExecutionTimes) -> SerializableSegmentedExecutionTimes { unimplemented!() }
/// the estimate ((n / 8) * 1.5).ceil() of the number of records
#[verifier::external_body]
pub fn estimate(n: usize) -> (r: usize)
    requires 0 < n < 0x100_0000_0000
    ensures 0 < r < 0x1000_0000_0000
{ unimplemented!() }
//@item ebi/src/encoder.rs :: impl From<&ChunkOption> for format::ChunkOption
//@rewritere impl From<&ChunkOption> for format::ChunkOption => impl format::ChunkOption
//@fn from ret=r
    ensures option_of(r) == *value
//@enditem
//@item ebi/src/encoder.rs :: struct FileWriter
//@enditem
//@item ebi/src/encoder.rs :: struct ChunkWriter
//@enditem
impl<R: Read> FileWriter<R> {
    pub closed spec fn inp(&self) -> R { self.input }
    pub closed spec fn opt(&self) -> ChunkOption { self.chunk_option }
    pub closed spec fn cfg(&self) -> CompressorConfig { self.compressor }
    /// the directory, and the entry the next chunk will get
    pub closed spec fn dir(&self) -> Seq<ChunkFooter> { self.chunk_footers@ }
    pub closed spec fn out(&self) -> int { self.total_bytes_out as int }
    pub closed spec fn took(&self) -> int { self.total_bytes_in as int }
    pub closed spec fn eof(&self) -> bool { self.reaches_eof }
    pub open spec fn ok(&self) -> bool {
        &&& self.dir().len() >= 1
        &&& self.dir().len() <= self.dir().last().logical_offset + 1
        &&& self.dir().last().physical_offset == 30 + self.out()
        &&& self.took() == 8 * self.dir().last().logical_offset
        &&& self.out() <= 0x10_0000 * self.dir().last().logical_offset
        &&& 8 * self.dir().last().logical_offset + self.inp().ahead().len() < 0x400_0000_0000
        &&& match self.opt() {
            ChunkOption::Full => true,
            ChunkOption::RecordCount(c) => 0 < c < 0x100_0000_0000,
            ChunkOption::ByteSizeBestEffort(c) => 0 < c < 0x100_0000_0000,
        }
    }
    pub open spec fn rest(&self, o: Self) -> bool { self.opt() == o.opt() && self.cfg() == o.cfg() }
    pub open spec fn kept(&self, o: Self) -> bool { self.rest(o) && self.inp() == o.inp() && self.dir() == o.dir() && self.out() == o.out() && self.took() == o.took() }
}
pub open spec fn foot(records: u64, t: Seq<ChunkFooter>, c: CompressorConfig) -> Seq<u8> {
    (le64(records) + le64(t.len() as u64)) + table_le(t) + (seq![c.le().len() as u8] + c.le())
}
/// a header whose footer offset is still zero
pub open spec fn blank(h: FileHeader, opt: ChunkOption, cfg: CompressorConfig) -> bool {
    &&& h.footer_offset == 0
    &&& h.le().len() == 30
    &&& config_le(h.config).len() == 12
    &&& h.config.compression_scheme == cfg.scheme()
    &&& option_of(h.config.chunk_option) == opt
}
pub open spec fn wrote_header(a: Out, b: Out, h: FileHeader, opt: ChunkOption, cfg: CompressorConfig) -> bool {
    grew(a, b, h.le()) && blank(h, opt, cfg)
}
//@item ebi/src/encoder.rs :: impl<R: Read> FileWriter<R>
//@skip chunk_writer
//@rewritere (?m)const MAGIC_NUMBER: .*;$ => 
//@rewritere \*Self::MAGIC_NUMBER => magic()
//@rewritere (?s)let version: \[u16; 3\] = \[.*?\.map\([^;]*; => let version: [u16; 3] = version();
//@rewritere self\.chunk_option\(\)\.into\(\) => format::ChunkOption::from(self.chunk_option())
//@rewritere mut f: W => f: &mut W
//@rewritere std::io::Seek => SeekW
//@rewritere \.to_le\(\)\.as_bytes\(\) => .as_bytes()
//@rewritere self\.chunk_footers\(\)\.as_bytes\(\) => table_bytes(self.chunk_footers())
//@rewritere (?s)cfg_if! \{\s*if #\[cfg\(target_endian = "little"\)\] \{(.*?)\} else \{.*?\n            \}\s*\} => \1;
//@rewritere serialize\(&mut (\w+)\) => serialize(\1)
//@rewritere timer\.into\(\) => times_le(timer)
//@rewritere &(\w+)\.to_le_bytes\(\) => u64_bytes(\1).as_slice()
//@rewritere &(\w+)\.as_nanos\(\)\.to_le_bytes\(\) => nanos_bytes(&\1).as_slice()
//@rewritere offset_of!\((\w+), (\w+)\) => offset_of_\1_\2()
//@rewritere &self\.chunk_footers\[\.\.(.*)\] => vstd::slice::slice_subrange(self.chunk_footers.as_slice(), 0, \1)
//@rewritere std::time::Duration => Duration
//@fn new ret=r
    requires input.ahead().len() < 0x400_0000_0000, match chunk_option {
            ChunkOption::Full => true,
            ChunkOption::RecordCount(c) => 0 < c < 0x100_0000_0000,
            ChunkOption::ByteSizeBestEffort(c) => 0 < c < 0x100_0000_0000,
        }
    ensures r.ok(), !r.eof(), r.inp() == input, r.opt() == chunk_option, r.cfg() == compressor,
        r.dir() == seq![ChunkFooter { physical_offset: 30, logical_offset: 0 }], r.out() == 0
//@start
    proof { sizes(); }
//@fn input ret=r
    ensures *r == self.inp()
//@fn input_mut ret=r
    ensures *r == old(self).inp(), final(self).inp() == *final(r), final(self).rest(*old(self)), final(self).dir() == old(self).dir(),
        final(self).out() == old(self).out(), final(self).took() == old(self).took(), final(self).eof() == old(self).eof()
//@fn file_header_size ret=r
    ensures r == 30
//@start
    proof { sizes(); }
//@fn total_bytes_out ret=r
    ensures r == self.out()
//@fn set_reaches_eof
    ensures final(self).kept(*old(self)), final(self).eof()
//@fn push_chunk_footer
    ensures final(self).rest(*old(self)), final(self).inp() == old(self).inp(), final(self).out() == old(self).out(), final(self).took() == old(self).took(),
        final(self).eof() == old(self).eof(), final(self).dir() == old(self).dir().push(chunk_footer)
//@fn n_chunks ret=r
    requires self.dir().len() >= 1
    ensures r == self.dir().len() - 1
//@fn footer_offset_slot_offset ret=r
    ensures r == 16
//@fn chunk_footers_with_next_chunk_footer ret=r
    ensures r@ == self.dir()
//@fn chunk_footers ret=r
    requires self.dir().len() >= 1
    ensures r@ == self.dir().drop_last()
//@fn chunk_option ret=r
    ensures *r == self.opt()
//@fn chunk_writer_with_compressor ret=r
    requires compressor is Some ==> compressor->0.cfg() == old(self).cfg()
    ensures old(self).eof() ==> r is None && *final(self) == *old(self),
        !old(self).eof() ==> r is Some && r->0.at_start(*old(self)) && *final(self) == r->0.after(),
//@fn increment_total_bytes_in_by
    requires old(self).took() + incremented < 0x1_0000_0000_0000_0000
    ensures final(self).rest(*old(self)), final(self).inp() == old(self).inp(), final(self).out() == old(self).out(), final(self).took() == old(self).took() + incremented,
        final(self).eof() == old(self).eof(), final(self).dir() == old(self).dir()
//@fn increment_total_bytes_out_by
    requires old(self).out() + incremented < 0x1_0000_0000_0000_0000
    ensures final(self).rest(*old(self)), final(self).inp() == old(self).inp(), final(self).out() == old(self).out() + incremented, final(self).took() == old(self).took(),
        final(self).eof() == old(self).eof(), final(self).dir() == old(self).dir()
//@fn write_header ret=r
    ensures *final(self) == *old(self), r is Err ==> torn(old(f).st(), final(f).st()),
        r is Ok ==> exists|h: FileHeader| #![trigger h.le()] wrote_header(old(f).st(), final(f).st(), h, old(self).opt(), old(self).cfg())
//@fn write_footer ret=r
    requires old(self).ok()
    ensures *final(self) == *old(self), r is Err ==> torn(old(f).st(), final(f).st()),
        r is Ok ==> exists|t: Seq<u8>| t.len() == 164 && #[trigger] grew(old(f).st(), final(f).st(), foot(old(self).dir().last().logical_offset, old(self).dir().drop_last(), old(self).cfg()) + t)
//@fn write_footer_offset ret=r
    requires old(self).ok()
    ensures *final(self) == *old(self), r is Err ==> torn(old(f).st(), final(f).st()),
        r is Ok ==> grew(old(f).st(), final(f).st(), le64((30 + old(self).out()) as u64))
//@start
    proof { sizes(); }
//@fn elapsed_time_slot_offset ret=r
    requires self.ok()
    ensures r == 30 + self.out() + 16 + 16 * (self.dir().len() - 1) + 1 + self.cfg().le().len()
//@start
    proof { sizes(); }
//@fn write_elapsed_time ret=r
    ensures r is Err ==> torn(old(f).st(), final(f).st()), r is Ok ==> exists|t: Seq<u8>| t.len() == 16 && #[trigger] grew(old(f).st(), final(f).st(), t)
//@enditem
impl<'a, R: Read> ChunkWriter<'a, R> {
    pub closed spec fn fw(&self) -> FileWriter<R> { *self.file_writer }
    #[verifier::prophetic]
    pub closed spec fn after(&self) -> FileWriter<R> { *final(self.file_writer) }
    pub closed spec fn c(&self) -> GenericCompressor { self.compressor }
    pub open spec fn at_start(&self, w: FileWriter<R>) -> bool { self.fw() == w && self.c().fresh() && self.c().cfg() == w.cfg() }
}
/// how much of the input a chunk takes
pub open spec fn share(o: ChunkOption, n: int, m: int) -> bool {
    match o {
        ChunkOption::Full => m == n,
        ChunkOption::RecordCount(c) => m == least(8 * c, n),
        ChunkOption::ByteSizeBestEffort(c) => least(8, n) <= m <= n && (m % 8 == 0 || m == n),
    }
}
pub proof fn shares(o: ChunkOption, s: Seq<u8>, m: int)
    requires share(o, s.len() as int, m), match o { ChunkOption::RecordCount(c) => c > 0, _ => true }
    ensures 0 <= m <= s.len(), words(s) == words(s.take(m)) + words(s.skip(m)), words(s.take(m)).len() == 0 ==> words(s).len() == 0
{
    words_split(s, m);
}
pub open spec fn next(d: ChunkFooter, b: Seq<u8>, v: Seq<f64>) -> ChunkFooter {
    ChunkFooter { physical_offset: (d.physical_offset + b.len()) as u64, logical_offset: (d.logical_offset + v.len()) as u64 }
}
pub open spec fn chunk_written<R: Read>(o: FileWriter<R>, n: FileWriter<R>, a: Out, z: Out, b: Seq<u8>, v: Seq<f64>) -> bool {
    &&& v.len() > 0
    &&& words(o.inp().ahead()) == v + words(n.inp().ahead())
    &&& n.inp().ahead().len() < o.inp().ahead().len()
    &&& match o.opt() {
        ChunkOption::Full => n.inp().ahead().len() == 0,
        ChunkOption::RecordCount(c) => v.len() <= c && (v.len() < c ==> n.inp().ahead().len() == 0),
        _ => true,
    }
    &&& codes(o.cfg(), b, v)
    &&& grew(a, z, b)
    &&& n.rest(o) && n.ok() && !n.eof()
    &&& n.out() == o.out() + b.len()
    &&& n.dir() == o.dir().push(next(o.dir().last(), b, v))
}
pub open spec fn nothing_left<R: Read>(o: FileWriter<R>, n: FileWriter<R>, a: Out, z: Out) -> bool {
    n.eof() && z == a && n.rest(o) && n.dir() == o.dir() && n.out() == o.out() && n.ok() && words(o.inp().ahead()).len() == 0
}
pub proof fn flat_len(s: Seq<&[u8]>, k: int)
    requires 0 <= k <= s.len()
    ensures flat(s.take(k)).len() <= flat(s).len()
    decreases s.len()
{
    if k < s.len() {
        flat_len(s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
    } else {
        assert(s.take(k) =~= s);
    }
}
pub proof fn flat_step(s: Seq<&[u8]>, k: int)
    requires 0 <= k < s.len()
    ensures flat(s.take(k + 1)) == flat(s.take(k)) + s[k]@
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
//@item ebi/src/encoder.rs :: impl<'a, R: Read> ChunkWriter<'a, R>
//@rewritere mut f: W => f: &mut W
//@rewritere (?s)buf\.chunks_exact\(size_of::<f64>\(\)\)\s*\.map\(\|chunk\| f64::from_le_bytes\(chunk\.try_into\(\)\.unwrap\(\)\)\)\s*\.collect::<Vec<f64>>\(\) => doubles_of(&buf)
//@rewritere as_mut_slice => as_slice
//@rewritere \(\(n as f64 / size_of::<f64>\(\) as f64\) \* 1\.5\)\.ceil\(\) as usize => estimate(n)
//@rewritere (?s)if let Some\(compression_timer\) = self\.compressor\.execution_times\(\) \{.*?\} => 
//@rewritere \.to_le\(\)\.as_bytes\(\) => .as_bytes()
//@fn new ret=r
    ensures r.fw() == *old(file_writer), r.c() == compressor, r.after() == *final(file_writer)
//@fn into_compressor ret=r
    ensures r == self.c(), self.after() == self.fw()
//@fn write ret=r
    requires old(self).fw().ok(), !old(self).fw().eof(), old(self).c().fresh(), old(self).c().cfg() == old(self).fw().cfg()
    ensures final(self).after() == old(self).after(), final(self).c().cfg() == old(self).c().cfg(),
        r is Err ==> torn(old(f).st(), final(f).st()),
        r is Ok ==> nothing_left(old(self).fw(), final(self).fw(), old(f).st(), final(f).st())
            || chunk_written(old(self).fw(), final(self).fw(), old(f).st(), final(f).st(), final(self).c().bytes(), final(self).c().recs())
//@start
    proof { sizes(); same(f.st()); }
//@attr
#[verifier::loop_isolation(false)]
//@loop 1 it=it
    invariant
        flat(it.seq()) == self.compressor.bytes(), total_bytes_out == flat(it.seq().take(it.index@)).len(),
        grew(old(f).st(), f.st(), flat(it.seq().take(it.index@))),
        it.seq().take(it.seq().len() as int) =~= it.seq(),
//@loopstart 1
    proof { flat_step(it.seq(), it.index@); flat_len(it.seq(), it.index@ + 1); }
//@enditem
}
fn main() {}
}
