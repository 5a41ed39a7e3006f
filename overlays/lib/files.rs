pub mod fm {
use super::*;
use std::mem::size_of;
// one kind of error: which error it is plays no part
pub enum E { PreconditionsNotMet, Interrupted, UnexpectedEof, Other }
impl E {
    pub fn is_interrupted(&self) -> (r: bool) ensures r == (self is Interrupted) { match self { E::Interrupted => true, _ => false } }
    pub fn is_unexpected_eof(&self) -> (r: bool) ensures r == (self is UnexpectedEof) { match self { E::UnexpectedEof => true, _ => false } }
}
pub mod io { pub type Result<T> = core::result::Result<T, super::E>; 
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) } }
pub mod encoder { pub type Result<T> = core::result::Result<T, super::E>; }
pub mod decoder { pub type Result<T> = core::result::Result<T, super::E>; }
pub use E as DecoderError;
pub type R0<T> = core::result::Result<T, E>;
/// a buffer of bytes: a vector or an array
pub trait Buf: Sized { spec fn b(&self) -> Seq<u8>; }
impl Buf for Vec<u8> { open spec fn b(&self) -> Seq<u8> { self@ } }
impl<const N: usize> Buf for [u8; N] { open spec fn b(&self) -> Seq<u8> { self@ } }
/// an input of which `whole` is there and `ahead` is still to be read; any call may fail
pub trait Read: Sized {
    spec fn whole(&self) -> Seq<u8>;
    spec fn ahead(&self) -> Seq<u8>;
    fn read_exact<B: Buf>(&mut self, buf: &mut B) -> (r: io::Result<()>)
        ensures final(buf).b().len() == old(buf).b().len(), final(self).whole() == old(self).whole(),
            r is Ok ==> old(self).ahead().len() >= old(buf).b().len()
                && final(buf).b() == old(self).ahead().take(old(buf).b().len() as int)
                && final(self).ahead() == old(self).ahead().skip(old(buf).b().len() as int);
    /// read(&mut buf[from..]): some of what is ahead, nothing only at the end; an error takes nothing
    fn read_from(&mut self, buf: &mut Vec<u8>, from: usize) -> (r: io::Result<usize>)
        requires from <= old(buf)@.len()
        ensures final(buf)@.len() == old(buf)@.len(), final(buf)@.take(from as int) == old(buf)@.take(from as int), final(self).whole() == old(self).whole(),
            r is Ok ==> r->Ok_0 <= old(buf)@.len() - from && r->Ok_0 <= old(self).ahead().len()
                && (r->Ok_0 == 0 ==> from == old(buf)@.len() || old(self).ahead().len() == 0)
                && final(buf)@.take(from + r->Ok_0) == old(buf)@.take(from as int) + old(self).ahead().take(r->Ok_0 as int)
                && final(self).ahead() == old(self).ahead().skip(r->Ok_0 as int),
            r is Err ==> final(self).ahead() == old(self).ahead(),
            r is Err && r->Err_0 is UnexpectedEof ==> old(self).ahead().len() == 0;
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures final(self).whole() == old(self).whole(),
            r is Ok ==> final(buf)@ == old(buf)@ + old(self).ahead() && final(self).ahead().len() == 0;
}
pub trait Seek: Read {
    fn seek(&mut self, to: io::SeekFrom) -> (r: io::Result<u64>)
        ensures final(self).whole() == old(self).whole(),
            r is Ok && to is Start && to->Start_0 <= old(self).whole().len() ==> final(self).ahead() == old(self).whole().skip(to->Start_0 as int),
            r is Ok && to is Start && to->Start_0 > old(self).whole().len() ==> final(self).ahead().len() == 0;
}
pub broadcast proof fn sub_take(s: Seq<u8>, n: int, a: int, b: int)
    requires 0 <= a <= b <= n <= s.len()
    ensures #[trigger] s.take(n).subrange(a, b) == s.subrange(a, b)
{
    assert(s.take(n).subrange(a, b) =~= s.subrange(a, b));
}
pub broadcast proof fn sub_skip(s: Seq<u8>, n: int, a: int, b: int)
    requires 0 <= n <= s.len(), 0 <= a <= b <= s.len() - n
    ensures #[trigger] s.skip(n).subrange(a, b) == s.subrange(n + a, n + b)
{
    assert(s.skip(n).subrange(a, b) =~= s.subrange(n + a, n + b));
}
pub broadcast proof fn take_skip(s: Seq<u8>, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= s.len()
    ensures #[trigger] s.skip(n).take(m) == s.subrange(n, n + m)
{
    assert(s.skip(n).take(m) =~= s.subrange(n, n + m));
}
pub broadcast proof fn skip_skip(s: Seq<u8>, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= s.len()
    ensures #[trigger] s.skip(n).skip(m) == s.skip(n + m)
{
    assert(s.skip(n).skip(m) =~= s.skip(n + m));
}
pub broadcast proof fn sub_sub(s: Seq<u8>, n: int, m: int, a: int, b: int)
    requires 0 <= n <= m <= s.len(), 0 <= a <= b <= m - n
    ensures #[trigger] s.subrange(n, m).subrange(a, b) == s.subrange(n + a, n + b)
{
    assert(s.subrange(n, m).subrange(a, b) =~= s.subrange(n + a, n + b));
}
pub broadcast group pieces { sub_take, sub_skip, take_skip, skip_skip, sub_sub }
// ---- little-endian numbers
pub open spec fn le64(x: u64) -> Seq<u8> {
    seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8,
        ((x >> 32) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 48) & 0xff) as u8, ((x >> 56) & 0xff) as u8]
}
pub open spec fn un64(s: Seq<u8>) -> u64 {
    (s[0] as u64) | ((s[1] as u64) << 8) | ((s[2] as u64) << 16) | ((s[3] as u64) << 24)
        | ((s[4] as u64) << 32) | ((s[5] as u64) << 40) | ((s[6] as u64) << 48) | ((s[7] as u64) << 56)
}
pub open spec fn at64(s: Seq<u8>, k: int) -> u64 { un64(s.subrange(k, k + 8)) }
pub proof fn un_le(x: u64)
    ensures un64(le64(x)) == x
{
    assert(((((x & 0xff) as u8) as u64) | ((((x >> 8) & 0xff) as u8) as u64) << 8 | ((((x >> 16) & 0xff) as u8) as u64) << 16
        | ((((x >> 24) & 0xff) as u8) as u64) << 24 | ((((x >> 32) & 0xff) as u8) as u64) << 32 | ((((x >> 40) & 0xff) as u8) as u64) << 40
        | ((((x >> 48) & 0xff) as u8) as u64) << 48 | ((((x >> 56) & 0xff) as u8) as u64) << 56) == x) by (bit_vector);
}
pub proof fn zero64(s: Seq<u8>)
    requires s.len() == 8, s[0] == 0, s[1] == 0, s[2] == 0, s[3] == 0, s[4] == 0, s[5] == 0, s[6] == 0, s[7] == 0
    ensures un64(s) == 0
{
    assert((0u64 | (0u64 << 8) | (0u64 << 16) | (0u64 << 24) | (0u64 << 32) | (0u64 << 40) | (0u64 << 48) | (0u64 << 56)) == 0) by (bit_vector);
}
// ---- the parts of a file (ebi/src/format.rs); their bytes: unit format (Kani, for every value)
//@item ebi/src/time.rs :: struct SerializableSegmentedExecutionTimes
//@enditem
//@item ebi/src/format.rs :: enum FieldType
//@enditem
//@item ebi/src/format.rs :: enum ChunkOptionKind
//@enditem
//@item ebi/src/format.rs :: enum CompressionScheme
//@rewritere = \d+ => 
//@enditem
pub mod format {
use super::*;
pub use super::ChunkOptionKind;
//@item ebi/src/format.rs :: struct ChunkOption
//@enditem
}
//@item ebi/src/format.rs :: struct FileConfig
//@rewrite chunk_option: ChunkOption => chunk_option: format::ChunkOption
//@enditem
//@item ebi/src/format.rs :: struct FileHeader
//@enditem
//@item ebi/src/format.rs :: struct GeneralChunkHeader
//@enditem
//@item ebi/src/format.rs :: struct FileFooter0
//@enditem
//@item ebi/src/format.rs :: struct FileFooter3
//@enditem
//@item ebi/src/format.rs :: struct ChunkFooter
//@enditem
impl Clone for FieldType { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for FieldType { }
impl Clone for CompressionScheme { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for CompressionScheme { }
impl Clone for ChunkFooter { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for ChunkFooter { }
global size_of FileHeader == 30;
global size_of GeneralChunkHeader == 0;
global size_of FileFooter0 == 16;
global size_of FileFooter3 == 164;
global size_of ChunkFooter == 16;
pub proof fn sizes()
    ensures size_of::<FileHeader>() == 30, size_of::<GeneralChunkHeader>() == 0, size_of::<FileFooter0>() == 16, size_of::<FileFooter3>() == 164, size_of::<ChunkFooter>() == 16
{ }
//@item ebi/src/encoder.rs :: enum ChunkOption
//@enditem
impl Clone for ChunkOption { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for ChunkOption { }
/// what the twelve bytes of the configuration stand for (bytes 4 to 16 of the file), None if nothing
pub uninterp spec fn config_of(s: Seq<u8>) -> Option<FileConfig>;
// ---- the bytes of each part (as_bytes; to_le changes nothing on this machine)
pub uninterp spec fn config_le(c: FileConfig) -> Seq<u8>;
pub uninterp spec fn version_le(v: [u16; 3]) -> Seq<u8>;
pub uninterp spec fn tail_le(f: FileFooter3) -> Seq<u8>;
pub open spec fn table_le(t: Seq<ChunkFooter>) -> Seq<u8>
    decreases t.len()
{
    if t.len() == 0 { Seq::<u8>::empty() } else { table_le(t.drop_last()) + le64(t.last().physical_offset) + le64(t.last().logical_offset) }
}
impl FileHeader {
    pub open spec fn le(&self) -> Seq<u8> { self.magic_number@ + config_le(self.config) + le64(self.footer_offset) + version_le(self.version) }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8])
        ensures r@ == self.le(), config_le(self.config).len() == 12, version_le(self.version).len() == 6
    { unimplemented!() }
}
impl GeneralChunkHeader {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@.len() == 0 { unimplemented!() }
}
impl FileFooter0 {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == le64(self.number_of_records) + le64(self.number_of_chunks) { unimplemented!() }
}
impl FileFooter3 {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == tail_le(*self), r@.len() == 164 { unimplemented!() }
}
#[verifier::external_body]
pub fn table_bytes(t: &[ChunkFooter]) -> (r: &[u8]) ensures r@ == table_le(t@) { unimplemented!() }
#[verifier::external_body]
pub fn u64_bytes(x: u64) -> (r: Vec<u8>) ensures r@ == le64(x) { unimplemented!() }
#[verifier::external_body]
pub fn offset_of_FileHeader_footer_offset() -> (r: usize) ensures r == 16 { unimplemented!() }
#[verifier::external_body]
pub fn offset_of_FileFooter3_compression_elapsed_time_nano_secs() -> (r: usize) ensures r == 0 { unimplemented!() }
impl FileHeader {
    #[verifier::external_body]
    pub fn try_from_le_bytes<B: Buf>(bytes: &B) -> (r: R0<FileHeader>)
        requires bytes.b().len() >= 30
        ensures r is Ok <==> config_of(bytes.b().subrange(4, 16)) is Some,
            r is Ok ==> r->Ok_0.config == config_of(bytes.b().subrange(4, 16))->0 && r->Ok_0.footer_offset == at64(bytes.b(), 16)
    { unimplemented!() }
}
impl FileFooter0 {
    #[verifier::external_body]
    pub fn from_le_bytes<B: Buf>(bytes: &B) -> (r: FileFooter0)
        requires bytes.b().len() >= 16
        ensures r.number_of_records == at64(bytes.b(), 0), r.number_of_chunks == at64(bytes.b(), 8)
    { unimplemented!() }
}
pub uninterp spec fn tail_of(s: Seq<u8>) -> FileFooter3;
impl FileFooter3 {
    #[verifier::external_body]
    pub fn from_le_bytes<B: Buf>(bytes: &B) -> (r: FileFooter3)
        requires bytes.b().len() >= 164
        ensures r == tail_of(bytes.b().take(164))
    { unimplemented!() }
}
/// entry k of the chunk table s
pub open spec fn entry(s: Seq<u8>, k: int) -> ChunkFooter { ChunkFooter { physical_offset: at64(s, 16 * k), logical_offset: at64(s, 16 * k + 8) } }
impl ChunkFooter {
    #[verifier::external_body]
    fn from_le_bytes_at<B: Buf>(bytes: &B, k: usize) -> (r: ChunkFooter)
        requires bytes.b().len() >= 16 * (k + 1)
        ensures r == entry(bytes.b(), k as int)
    { unimplemented!() }
}
/// buf.chunks_exact(16).map(ChunkFooter::from_le_bytes).collect()
pub fn chunk_footers_of(buf: &Vec<u8>) -> (r: Vec<ChunkFooter>)
    ensures r@.len() == buf@.len() / 16, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == entry(buf@, i)
{
    let mut v = Vec::new();
    let mut i = 0usize;
    while i < buf.len() / 16
        invariant v@.len() == i, i <= buf@.len() / 16, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == entry(buf@, j),
        decreases buf@.len() / 16 - i
    {
        v.push(ChunkFooter::from_le_bytes_at(buf, i));
        i += 1;
    }
    v
}
#[verifier::external_body]
pub struct CompressorConfig { x: u64 }
impl Clone for CompressorConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for CompressorConfig { }
pub uninterp spec fn config_read(scheme: CompressionScheme, s: Seq<u8>) -> CompressorConfig;
impl CompressorConfig {
    pub uninterp spec fn scheme(&self) -> CompressionScheme;
    /// the configuration as stored, without its size byte
    pub uninterp spec fn le(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn compression_scheme(&self) -> (r: CompressionScheme) ensures r == self.scheme() { unimplemented!() }
    #[verifier::external_body]
    pub fn serialized_size(&self) -> (r: usize) ensures r == 1 + self.le().len(), r <= 256 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_le_bytes<B: Buf>(scheme: &CompressionScheme, bytes: &B) -> (r: CompressorConfig)
        ensures r == config_read(*scheme, bytes.b())
    { unimplemented!() }
}
// ---- what is written: a log of single bytes and where they go; an error may come after any of them
pub open spec fn run(p: int, b: Seq<u8>) -> Seq<(int, u8)> { Seq::new(b.len(), |i: int| (p + i, b[i])) }
pub proof fn runs(p: int, a: Seq<u8>, b: Seq<u8>)
    ensures run(p, a) + run(p + a.len(), b) == run(p, a + b)
{
    assert(run(p, a) + run(p + a.len(), b) =~= run(p, a + b));
}
pub struct Out { pub log: Seq<(int, u8)>, pub at: int }
pub trait Write: Sized {
    spec fn st(&self) -> Out;
    fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        ensures r is Ok ==> grew(old(self).st(), final(self).st(), b@),
            r is Err ==> torn(old(self).st(), final(self).st());
    fn flush(&mut self) -> (r: io::Result<()>)
        ensures final(self).st().log == old(self).st().log, r is Ok ==> final(self).st().at == old(self).st().at;
}
pub trait SeekW: Write {
    fn seek(&mut self, to: io::SeekFrom) -> (r: io::Result<u64>)
        ensures final(self).st().log == old(self).st().log, r is Ok && to is Start ==> final(self).st().at == to->Start_0;
}
pub open spec fn grew(a: Out, b: Out, s: Seq<u8>) -> bool { b.log == a.log + run(a.at, s) && b.at == a.at + s.len() }
pub open spec fn torn_by(a: Out, b: Out, s: Seq<u8>) -> bool { b.log == a.log + run(a.at, s) }
pub open spec fn torn(a: Out, b: Out) -> bool { exists|s: Seq<u8>| #[trigger] torn_by(a, b, s) }
pub broadcast proof fn grew2(a: Out, b: Out, c: Out, s: Seq<u8>, t: Seq<u8>)
    requires #[trigger] grew(a, b, s), #[trigger] grew(b, c, t)
    ensures grew(a, c, s + t)
{
    runs(a.at, s, t);
    assert(a.log + run(a.at, s) + run(a.at + s.len(), t) =~= a.log + (run(a.at, s) + run(a.at + s.len(), t)));
}
pub broadcast proof fn grew_torn(a: Out, b: Out, c: Out, s: Seq<u8>)
    requires #[trigger] grew(a, b, s), #[trigger] torn(b, c)
    ensures torn(a, c)
{
    let t = choose|t: Seq<u8>| #[trigger] torn_by(b, c, t);
    runs(a.at, s, t);
    assert(a.log + run(a.at, s) + run(a.at + s.len(), t) =~= a.log + (run(a.at, s) + run(a.at + s.len(), t)));
    assert(torn_by(a, c, s + t));
}
pub proof fn same(a: Out)
    ensures grew(a, a, Seq::<u8>::empty()), torn_by(a, a, Seq::<u8>::empty()), torn(a, a)
{
    assert(a.log + run(a.at, Seq::<u8>::empty()) =~= a.log);
}
pub broadcast group outs { grew2, grew_torn }
}
