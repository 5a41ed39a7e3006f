pub mod fr {
use super::*;
use super::fm::*;
use super::fm::decoder::Result;
use std::mem::size_of;
use std::sync::Arc;
broadcast use super::fm::pieces;
//@item ebi/src/format/native.rs :: struct NativeFileConfig
//@enditem
//@item ebi/src/format/native.rs :: struct NativeFileHeader
//@rewritere #\[getter\(skip\)\] => 
//@enditem
//@item ebi/src/format/native.rs :: struct NativeChunkFooter
//@rewritere #\[getter\(skip\)\] => 
//@enditem
//@item ebi/src/format/native.rs :: struct NativeFileFooter
//@rewritere #\[getter\(skip\)\] => 
//@enditem
// what derive_getters generates
impl NativeFileConfig { pub fn compression_scheme(&self) -> (r: &CompressionScheme) ensures *r == self.compression_scheme { &self.compression_scheme } }
impl NativeFileHeader {
    pub closed spec fn off(&self) -> u64 { self.footer_offset }
    pub closed spec fn conf(&self) -> NativeFileConfig { self.config }
    pub fn config(&self) -> (r: &NativeFileConfig) ensures *r == self.conf() { &self.config }
}
impl NativeFileFooter {
    pub closed spec fn records(&self) -> u64 { self.number_of_records }
    pub closed spec fn chunks(&self) -> u64 { self.number_of_chunks }
    pub closed spec fn table(&self) -> Seq<NativeChunkFooter> { self.chunk_footers@ }
    pub closed spec fn codec(&self) -> CompressorConfig { self.compressor_config }
    pub fn chunk_footers(&self) -> (r: &Vec<NativeChunkFooter>) ensures r@ == self.table() { &self.chunk_footers }
}
impl NativeChunkFooter {
    pub closed spec fn phys(&self) -> u64 { self.physical_offset }
    pub closed spec fn logi(&self) -> u64 { self.logical_offset }
}
#[verifier::external_body]
pub fn times(f: &FileFooter3) -> SegmentedExecutionTimes { unimplemented!() }
pub open spec fn option_of(o: format::ChunkOption) -> ChunkOption {
    match o.kind {
        ChunkOptionKind::Full => ChunkOption::Full,
        ChunkOptionKind::RecordCount => ChunkOption::RecordCount(o.value as usize),
        ChunkOptionKind::ByteSize => ChunkOption::ByteSizeBestEffort(o.value as usize),
    }
}
//@item ebi/src/format/native.rs :: impl NativeFileHeader
//@fn footer_offset ret=r
    ensures r == self.off()
//@enditem
//@item ebi/src/format/native.rs :: impl From<&FileHeader> for NativeFileHeader
//@rewritere impl From<&FileHeader> for NativeFileHeader => impl NativeFileHeader
//@fn from ret=r
    ensures r.off() == header.footer_offset, r.conf().field_type == header.config.field_type,
        r.conf().compression_scheme == header.config.compression_scheme, r.conf().chunk_option == option_of(header.config.chunk_option)
//@enditem
//@item ebi/src/format/native.rs :: impl From<&FileConfig> for NativeFileConfig
//@rewritere impl From<&FileConfig> for NativeFileConfig => impl NativeFileConfig
//@rewritere super::ChunkOptionKind => ChunkOptionKind
//@fn from ret=r
    ensures r.field_type == config.field_type, r.compression_scheme == config.compression_scheme, r.chunk_option == option_of(config.chunk_option)
//@enditem
//@item ebi/src/format/native.rs :: impl NativeChunkFooter
//@fn physical_offset ret=r
    ensures r == self.phys()
//@fn logical_offset ret=r
    ensures r == self.logi()
//@enditem
//@item ebi/src/format/native.rs :: impl From<&ChunkFooter> for NativeChunkFooter
//@rewritere impl From<&ChunkFooter> for NativeChunkFooter => impl NativeChunkFooter
//@fn from ret=r
    ensures r.phys() == footer.physical_offset, r.logi() == footer.logical_offset
//@enditem
/// chunk_footers.iter().map(NativeChunkFooter::from).collect()
fn natives(s: &[ChunkFooter]) -> (r: Vec<NativeChunkFooter>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).phys() == s@[i].physical_offset && r@[i].logi() == s@[i].logical_offset
{
    let mut v: Vec<NativeChunkFooter> = Vec::new();
    let mut i = 0usize;
    while i < s.len()
        invariant v@.len() == i, i <= s@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).phys() == s@[j].physical_offset && v@[j].logi() == s@[j].logical_offset,
        decreases s@.len() - i
    {
        v.push(NativeChunkFooter::from(&s[i]));
        i += 1;
    }
    v
}
//@item ebi/src/format/native.rs :: impl NativeFileFooter
//@only new, size, number_of_records, number_of_chunks
//@rewritere chunk_footers\.iter\(\)\.map\(NativeChunkFooter::from\)\.collect\(\) => natives(chunk_footers)
//@rewritere footer2\.execution_elapsed_times_nano_secs\.into\(\) => times(footer2)
//@fn new ret=r
    ensures r.records() == footer0.number_of_records, r.chunks() == footer0.number_of_chunks, r.codec() == compressor_config,
        r.table().len() == chunk_footers@.len(),
        forall|i: int| 0 <= i < r.table().len() ==> (#[trigger] r.table()[i]).phys() == chunk_footers@[i].physical_offset && r.table()[i].logi() == chunk_footers@[i].logical_offset
//@fn size ret=r
    requires self.table().len() < 0x100_0000_0000_0000
    ensures r == 16 + 16 * self.table().len() + 1 + self.codec().le().len() + 164, self.codec().le().len() <= 255
//@start
    proof { sizes(); }
//@fn number_of_records ret=r
    ensures r == self.records()
//@fn number_of_chunks ret=r
    ensures r == self.chunks()
//@enditem
// ---- what bytes a header and a footer are read from
pub open spec fn header_at(s: Seq<u8>, h: NativeFileHeader) -> bool {
    &&& s.len() >= 30
    &&& config_of(s.subrange(4, 16)) is Some
    &&& h.off() == at64(s, 16)
    &&& h.conf().compression_scheme == config_of(s.subrange(4, 16))->0.compression_scheme
    &&& h.conf().chunk_option == option_of(config_of(s.subrange(4, 16))->0.chunk_option)
}
pub open spec fn n_of(s: Seq<u8>) -> int { at64(s, 8) as int }
pub open spec fn footer_len(s: Seq<u8>) -> int { 16 + 16 * n_of(s) + 1 + s[16 + 16 * n_of(s)] + 164 }
pub open spec fn footer_at(s: Seq<u8>, scheme: CompressionScheme, f: NativeFileFooter) -> bool {
    let n = n_of(s);
    let c = s[16 + 16 * n] as int;
    &&& s.len() >= 16 + 16 * n + 1 + c + 164
    &&& f.records() == at64(s, 0)
    &&& f.chunks() == n
    &&& f.table().len() == n
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] f.table()[i]).phys() == at64(s, 16 + 16 * i) && f.table()[i].logi() == at64(s, 24 + 16 * i)
    &&& f.codec() == config_read(scheme, s.subrange(17 + 16 * n, 17 + 16 * n + c))
}
//@item ebi/src/decoder.rs :: struct FileReader
//@enditem
impl FileReader {
    pub closed spec fn h(&self) -> Option<NativeFileHeader> { self.header }
    pub closed spec fn f(&self) -> Option<NativeFileFooter> { self.footer }
}
//@item ebi/src/decoder.rs :: impl FileReader
//@skip metadata
//@rewritere self\.(header|footer)\.as_ref\(\)\.unwrap\(\) => match &self.\1 { Some(v) => v, None => vstd::pervasive::unreached() }
//@rewritere self\.(header|footer)\.as_ref\(\) => (match &self.\1 { Some(v) => Some(v), None => None })
//@rewritere PreconditionsNotMet\.into\(\) => PreconditionsNotMet
//@rewritere mut input: R\b => input: &mut R
//@rewritere \[\.\.\] => 
//@rewritere &mut buf\[\.\.config_size\] => &mut buf
//@rewritere buf\s*\.chunks_exact\(size_of::<ChunkFooter>\(\)\)\s*\.map\(ChunkFooter::from_le_bytes\)\s*\.collect::<Vec<_>>\(\) => chunk_footers_of(&buf)
//@rewritere &chunk_footers, => chunk_footers.as_slice(),
//@fn new ret=r
    ensures r.h() is None, r.f() is None
//@fn fetch_header ret=r
    ensures final(self).f() == old(self).f(), final(input).whole() == old(input).whole(),
        old(self).h() is Some ==> final(self).h() == old(self).h() && r is Ok && *final(input) == *old(input),
        old(self).h() is None && r is Ok ==> final(self).h() is Some && header_at(old(input).ahead(), final(self).h()->0),
        old(self).h() is None && r is Err ==> final(self).h() is None,
        r is Ok ==> *r->Ok_0 == final(self).h()->0,
//@start
    proof { sizes(); }
//@fn header ret=r
    ensures r is Some <==> self.h() is Some, r is Some ==> *r->0 == self.h()->0
//@fn seek_to_footer ret=r
    ensures *final(self) == *old(self), final(input).whole() == old(input).whole(),
        r is Ok ==> old(self).h() is Some && old(self).h()->0.off() >= 30,
        r is Ok && old(self).h()->0.off() <= old(input).whole().len() ==> final(input).ahead() == old(input).whole().skip(old(self).h()->0.off() as int),
        r is Ok && old(self).h()->0.off() > old(input).whole().len() ==> final(input).ahead().len() == 0,
//@start
    proof { sizes(); }
//@fn fetch_footer ret=r
    requires old(input).ahead().len() >= 16 ==> n_of(old(input).ahead()) < 0x100_0000_0000_0000
    ensures final(self).h() == old(self).h(), final(input).whole() == old(input).whole(),
        old(self).f() is Some ==> r is Ok && final(self).f() == old(self).f(),
        old(self).f() is None && r is Err ==> final(self).f() is None,
        old(self).f() is None && r is Ok ==> old(self).h() is Some && final(self).f() is Some
            && footer_at(old(input).ahead(), old(self).h()->0.conf().compression_scheme, final(self).f()->0),
        r is Ok ==> *r->Ok_0 == final(self).f()->0,
//@start
    proof { sizes(); }
//@fn footer ret=r
    ensures r is Some <==> self.f() is Some, r is Some ==> *r->0 == self.f()->0
//@fn into_metadata ret=r
    ensures r is Some <==> self.h() is Some && self.f() is Some, r is Some ==> r->0.hd() == self.h()->0 && r->0.ft() == self.f()->0
//@enditem
pub trait FileMetadataLike: Sized {
    spec fn hd(&self) -> NativeFileHeader;
    spec fn ft(&self) -> NativeFileFooter;
    fn header(&self) -> (r: &NativeFileHeader) ensures *r == self.hd();
    fn footer(&self) -> (r: &NativeFileFooter) ensures *r == self.ft();
}
//@item ebi/src/decoder.rs :: struct Metadata
//@enditem
//@item ebi/src/decoder.rs :: impl FileMetadataLike for Metadata
    closed spec fn hd(&self) -> NativeFileHeader { self.header }
    closed spec fn ft(&self) -> NativeFileFooter { self.footer }
//@enditem
//@item ebi/src/decoder.rs :: struct GeneralChunkHandle
//@enditem
/// the directory: offsets grow, byte offsets end at the footer, record numbers at the number of records
pub open spec fn ordered(h: NativeFileHeader, f: NativeFileFooter) -> bool {
    &&& f.table().len() == f.chunks()
    &&& forall|i: int, j: int| 0 <= i <= j < f.table().len() ==> (#[trigger] f.table()[i]).phys() <= (#[trigger] f.table()[j]).phys() && f.table()[i].logi() <= f.table()[j].logi()
    &&& forall|i: int| 0 <= i < f.table().len() ==> (#[trigger] f.table()[i]).phys() <= h.off() && f.table()[i].logi() <= f.records()
}
impl<T: FileMetadataLike> GeneralChunkHandle<T> {
    pub closed spec fn k(&self) -> int { self.chunk_index as int }
    pub closed spec fn h(&self) -> NativeFileHeader { self.file_metadata.hd() }
    pub closed spec fn f(&self) -> NativeFileFooter { self.file_metadata.ft() }
    /// the chunk exists and the directory is in order
    pub open spec fn ok(&self) -> bool { 0 <= self.k() < self.f().table().len() && self.f().table().len() < 0x100_0000_0000_0000 && ordered(self.h(), self.f()) }
    pub open spec fn from(&self) -> u64 { self.f().table()[self.k()].phys() }
    pub open spec fn to(&self) -> u64 { if self.k() + 1 < self.f().table().len() { self.f().table()[self.k() + 1].phys() } else { self.h().off() } }
    pub open spec fn lfrom(&self) -> u64 { self.f().table()[self.k()].logi() }
    pub open spec fn lto(&self) -> u64 { if self.k() + 1 < self.f().table().len() { self.f().table()[self.k() + 1].logi() } else { self.f().records() } }
}
//@item ebi/src/decoder.rs :: impl<T: FileMetadataLike> GeneralChunkHandle<T>
//@skip make_chunk_reader
//@fn new ret=r
    ensures r.k() == chunk_index, r.h() == file_metadata.hd(), r.f() == file_metadata.ft()
//@fn is_last_chunk ret=r
    requires self.ok()
    ensures r == (self.k() + 1 == self.f().table().len())
//@fn header ret=r
    ensures *r == self.h()
//@fn footer ret=r
    ensures *r == self.f()
//@fn chunk_footer ret=r
    requires self.ok()
    ensures *r == self.f().table()[self.k()]
//@fn chunk_index ret=r
    ensures r == self.k()
//@fn chunk_size ret=r
    requires self.ok()
    ensures r == self.to() - self.from()
//@fn physical_offset ret=r
    requires self.ok()
    ensures r == self.from()
//@fn logical_offset ret=r
    requires self.ok()
    ensures r == self.lfrom()
//@fn next_physical_offset ret=r
    requires self.ok()
    ensures r == self.to()
//@fn next_logical_offset ret=r
    requires self.ok()
    ensures r == self.lto()
//@fn number_of_records ret=r
    requires self.ok()
    ensures r == self.lto() - self.lfrom()
//@fn logical_record_range ret=r
    requires self.ok()
    ensures r.start == self.lfrom(), r.end == self.lto()
//@fn logical_record_range_u32 ret=r
    requires self.ok(), self.lto() < 0x1_0000_0000
    ensures r.start == self.lfrom(), r.end == self.lto()
//@fn seek_to_chunk ret=r
    requires self.ok()
    ensures final(input).whole() == old(input).whole(),
        r is Ok && self.from() <= old(input).whole().len() ==> final(input).ahead() == old(input).whole().skip(self.from() as int)
//@fn seek_to_chunk_end ret=r
    requires self.ok()
    ensures final(input).whole() == old(input).whole(),
        r is Ok && self.to() <= old(input).whole().len() ==> final(input).ahead() == old(input).whole().skip(self.to() as int)
//@enditem
//@item ebi/src/decoder.rs :: impl<T> FileMetadataLike for T where T: Deref<Target = Metadata>,
//@rewritere (?s)impl<T> FileMetadataLike for T\s*where\s*T: Deref<Target = Metadata>,? => impl FileMetadataLike for Arc<Metadata>
//@rewritere self\.deref\(\) => (**self)
    closed spec fn hd(&self) -> NativeFileHeader { (**self).hd() }
    closed spec fn ft(&self) -> NativeFileFooter { (**self).ft() }
//@enditem
pub trait Dup: FileMetadataLike { fn dup(&self) -> (r: Self) ensures r.hd() == self.hd(), r.ft() == self.ft(); }
impl Dup for Arc<Metadata> { fn dup(&self) -> Self { Arc::clone(self) } }
/// one handle per entry of the directory, in order
pub open spec fn one_each<T: FileMetadataLike>(v: Seq<GeneralChunkHandle<T>>, n: int, h: NativeFileHeader, f: NativeFileFooter) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).k() == i && v[i].h() == h && v[i].f() == f
}
//@item ebi/src/decoder.rs :: impl Metadata
//@only chunks_iter_with_mapping_metadata
//@rewritere <T: FileMetadataLike> => <T: Dup>
//@rewritere f: impl Fn\(\) -> T, => f: &T,
//@rewritere \bf\(\) => f.dup()
//@rewritere impl Iterator<Item = GeneralChunkHandle<T>> => Vec<GeneralChunkHandle<T>>
//@rewritere -> Vec<GeneralChunkHandle<T>> => -> (r: Vec<GeneralChunkHandle<T>>)
//@rewritere \(0\.\.n_chunks\)\s*\.map\(move \|i\| (.*)\)(?=\s*\}) => { let mut v: Vec<GeneralChunkHandle<T>> = Vec::new(); let mut i: usize = 0; while i < n_chunks invariant i <= n_chunks, one_each(v@, i as int, f.hd(), f.ft()) decreases n_chunks - i { v.push(\1); i += 1; } v }
//@fn chunks_iter_with_mapping_metadata
    requires f.hd() == self.hd(), f.ft() == self.ft()
    ensures one_each(r@, self.ft().chunks() as int, self.hd(), self.ft())
//@enditem
//@item ebi/src/api/decoder.rs :: struct DecoderInput
//@enditem
impl<R: Read + Seek> DecoderInput<R> {
    pub closed spec fn i(&self) -> R { self.inner }
}
//@item ebi/src/api/decoder.rs :: impl<R: Read + Seek> DecoderInput<R>
//@skip into_buffered
//@fn from_reader ret=r
    ensures r.i() == reader
//@fn reader ret=r
    ensures *r == self.i()
//@fn reader_mut ret=r
    ensures *r == old(self).i(), final(self).i() == *final(r)
//@enditem
//@item ebi/src/api/decoder.rs :: struct Decoder
//@rewritere Box<\[GeneralChunkHandle<Arc<Metadata>>\]> => Vec<GeneralChunkHandle<Arc<Metadata>>>
//@enditem
/// a file that opens: a whole header with the footer's offset in place, and a whole footer there
pub open spec fn opens(w: Seq<u8>, h: NativeFileHeader, f: NativeFileFooter) -> bool {
    &&& header_at(w, h)
    &&& 30 <= h.off() <= w.len()
    &&& footer_at(w.skip(h.off() as int), h.conf().compression_scheme, f)
}
/// the number of chunks a file names leaves room for the sizes computed from it
pub open spec fn sane(w: Seq<u8>) -> bool {
    w.len() >= 30 && 30 <= at64(w, 16) && at64(w, 16) + 16 <= w.len() ==> n_of(w.skip(at64(w, 16) as int)) < 0x100_0000_0000_0000
}
impl<R: Read + Seek> Decoder<R> {
    pub closed spec fn w(&self) -> Seq<u8> { self.input.i().whole() }
    pub closed spec fn h(&self) -> NativeFileHeader { self.file_metadata_ref.hd() }
    pub closed spec fn f(&self) -> NativeFileFooter { self.file_metadata_ref.ft() }
    pub closed spec fn hs(&self) -> Seq<GeneralChunkHandle<Arc<Metadata>>> { self.chunk_handles@ }
    pub open spec fn ok(&self) -> bool { opens(self.w(), self.h(), self.f()) && one_each(self.hs(), self.f().chunks() as int, self.h(), self.f()) }
}
//@item ebi/src/api/decoder.rs :: impl<R: Read + Seek> Decoder<R>
//@only new, with_precision, footer_size, total_file_size, total_chunk_size, header, footer, chunk_footers
//@rewritere (file_metadata_ref\s*\.chunks_iter_with_mapping_metadata\()\|\| Arc::clone\((&file_metadata_ref)\)\)\s*\.collect\(\) => \1\2)
//@rewritere Box<\[GeneralChunkHandle<Arc<Metadata>>\]> => Vec<GeneralChunkHandle<Arc<Metadata>>>
//@rewritere (?m)^\s*///.*$ => 
//@fn new ret=r
    requires input.i().ahead() == input.i().whole(), sane(input.i().whole())
    ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0.w() == input.i().whole()
//@fn with_precision
    ensures final(self).w() == old(self).w(), final(self).h() == old(self).h(), final(self).f() == old(self).f(), final(self).hs() == old(self).hs()
//@fn footer_size ret=r
    requires self.f().table().len() < 0x100_0000_0000_0000
    ensures r == 16 + 16 * self.f().table().len() + 1 + self.f().codec().le().len() + 164, self.f().codec().le().len() <= 255
//@fn total_file_size ret=r
    requires self.f().table().len() < 0x100_0000_0000_0000, self.h().off() < 0x100_0000_0000_0000
    ensures r == self.h().off() + 16 + 16 * self.f().table().len() + 1 + self.f().codec().le().len() + 164
//@fn total_chunk_size ret=r
    requires one_each(self.hs(), self.f().chunks() as int, self.h(), self.f()), ordered(self.h(), self.f()), self.f().table().len() < 0x100_0000_0000_0000
    ensures r == if self.f().table().len() == 0 { 0 } else { self.h().off() - self.f().table()[0].phys() }
//@fn header ret=r
    ensures *r == self.h()
//@fn footer ret=r
    ensures *r == self.f()
//@fn chunk_footers ret=r
    ensures r@ == self.f().table()
//@enditem
/// a file cut off at any byte does not open
proof fn cut(w: Seq<u8>, h: NativeFileHeader, f: NativeFileFooter, m: int, h2: NativeFileHeader, f2: NativeFileFooter)
    requires opens(w, h, f), w.len() == h.off() + footer_len(w.skip(h.off() as int)), 0 <= m < w.len(), opens(w.take(m), h2, f2)
    ensures false
{
    let c = w.take(m);
    let o = h.off() as int;
    assert(h2.off() == h.off());
    assert(c.skip(o) =~= w.skip(o).take(m - o));
    assert(n_of(c.skip(o)) == n_of(w.skip(o)));
}
}
