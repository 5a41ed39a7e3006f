//@include timer.rs
pub mod time { pub use super::{SegmentKind, SegmentedExecutionTimes}; }
pub mod decoder { pub enum DecoderError { UnexpectedEndOfChunk, Other } pub type Result<T> = std::result::Result<T, DecoderError>; }
pub mod encoder { pub enum EncoderError { Other } pub type Result<T> = std::result::Result<T, EncoderError>; }
// Assumed on the standard library: a double and its bit pattern determine each other.
pub uninterp spec fn of_bits(b: u64) -> f64;
pub uninterp spec fn bits_of(v: f64) -> u64;
pub broadcast axiom fn bits_and_back(b: u64) ensures bits_of(#[trigger] of_bits(b)) == b;
pub broadcast axiom fn back_and_bits(v: f64) ensures of_bits(#[trigger] bits_of(v)) == v;
pub assume_specification [f64::to_bits] (v: f64) -> (r: u64) ensures r == bits_of(v);
pub assume_specification [f64::from_bits] (b: u64) -> (r: f64) ensures r == of_bits(b);
/// the reserved end marker: the canonical NaN
pub open spec fn marker() -> u64 { 0x7ff8000000000000u64 }
#[verifier::external_body]
pub fn fnan() -> (r: f64) ensures r == of_bits(marker()) { f64::NAN }
pub assume_specification [usize::next_multiple_of] (a: usize, b: usize) -> (r: usize)
    requires b > 0, a + b <= usize::MAX
    ensures r as int == (a as int + b as int - 1) / (b as int) * b as int;
/// each of a bit, an integer and a double series
pub open spec fn pats(s: Seq<f64>) -> Seq<u64> { Seq::new(s.len(), |i: int| bits_of(s[i])) }
pub open spec fn dbls(s: Seq<u64>) -> Seq<f64> { Seq::new(s.len(), |i: int| of_bits(s[i])) }
pub mod xs {
use super::*;
use super::bits::*;
use super::ext::*;
use super::tr::*;
use super::rd::*;
use std::marker::PhantomData;
/// an encoder as a machine: its initial state, the bits it writes for a value, the state after it
pub trait Coder: Sized {
    spec fn start() -> Self;
    spec fn code(&self, v: u64) -> Seq<bool>;
    spec fn after(&self, v: u64) -> Self;
}
/// a decoder as a machine: its initial state; whether a code stands at bit p of d; the value it gives (none: end of the series); where it ends; the state after it
pub trait Taker: Sized {
    spec fn dstart() -> Self;
    spec fn can(&self, d: Seq<u8>, p: int) -> bool;
    spec fn val(&self, d: Seq<u8>, p: int) -> Option<u64>;
    spec fn stop(&self, d: Seq<u8>, p: int) -> int;
    spec fn then(&self, d: Seq<u8>, p: int) -> Self;
}
//@item ebi/src/compressor/general_xor.rs :: trait XorEncoder
//@rewritere : Default => : Coder
//@rewritere w: W => w: &mut W
    /// the state is one the encoder can be in; the bits it counted so far
    spec fn einv(&self) -> bool;
    spec fn load(&self) -> int;
    /// the most bits a value takes; whether the size it reports for a value is that of its bits
    spec fn grow() -> int;
    spec fn exact() -> bool;
//@fn compress_float ret=r
    requires old(self).einv(), old(w).inv(), 0 <= old(self).load() < 0x2000_0000_0000_0000
    ensures final(self).einv(), *final(self) == old(self).after(bits), 0 <= final(self).load() <= old(self).load() + Self::grow(), final(w).inv(), final(w).bits() =~= old(w).bits() + old(self).code(bits), old(self).code(bits).len() <= Self::grow(), Self::exact() ==> r == old(self).code(bits).len()
//@fn close
    requires old(self).einv(), old(w).inv(), 0 <= old(self).load() < 0x2000_0000_0000_0000
    ensures final(self).einv(), final(w).inv(), 0 <= final(self).load(), final(w).bits() =~= old(w).bits() + old(self).code(marker()).push(false)
//@fn simulate_close ret=r
    requires self.einv(), 0 <= self.load() < 0x2000_0000_0000_0000
    ensures r == self.code(marker()).len() + 1, r <= Self::grow() + 1
//@fn reset
    ensures *final(self) == Self::start(), final(self).einv(), final(self).load() == 0
//@enditem
//@item ebi/src/decoder/chunk_reader/general_xor.rs :: trait XorDecoder
//@rewritere : Default => : Taker
//@rewritere r: R => r: &mut R
    // T::default()
    fn initial() -> (r: Self) ensures r == Self::dstart();
//@fn decompress_float ret=res
    requires (*old(r)).rinv(), old(self).can((*old(r)).data(), (*old(r)).pos())
    ensures (*final(r)).rinv(), (*final(r)).data() == (*old(r)).data(), res is Ok, (*final(r)).pos() == old(self).stop((*old(r)).data(), (*old(r)).pos()), *final(self) == old(self).then((*old(r)).data(), (*old(r)).pos()),
        match old(self).val((*old(r)).data(), (*old(r)).pos()) { Some(b) => res->Ok_0 == Some(of_bits(b)), None => res->Ok_0 is None }
//@fn reset
    ensures *final(self) == Self::dstart()
//@enditem
// ---- the bits of a series
pub open spec fn run<E: Coder>(e: E, s: Seq<u64>) -> E decreases s.len() { if s.len() == 0 { e } else { run(e, s.drop_last()).after(s.last()) } }
pub open spec fn stream<E: Coder>(e: E, s: Seq<u64>) -> Seq<bool> decreases s.len() { if s.len() == 0 { Seq::empty() } else { stream(e, s.drop_last()) + run(e, s.drop_last()).code(s.last()) } }
/// what is in a chunk: the codes of the records, of the end marker, and one bit
pub open spec fn image<E: Coder>(s: Seq<u64>) -> Seq<bool> { stream(E::start(), s) + run(E::start(), s).code(marker()).push(false) }
pub proof fn longer<E: Coder>(e: E, s: Seq<u64>, k: int)
    requires 0 <= k < s.len()
    ensures run(e, s.take(k + 1)) == run(e, s.take(k)).after(s[k]), stream(e, s.take(k + 1)) == stream(e, s.take(k)) + run(e, s.take(k)).code(s[k])
{ let t = s.take(k + 1); assert(t.drop_last() =~= s.take(k)); assert(t.last() == s[k]); }
pub proof fn prefix<E: Coder>(e: E, s: Seq<u64>, k: int)
    requires 0 <= k <= s.len()
    ensures stream(e, s.take(k)).len() <= stream(e, s).len(), forall|i: int| 0 <= i < stream(e, s.take(k)).len() ==> #[trigger] stream(e, s)[i] == stream(e, s.take(k))[i]
    decreases s.len() - k
{ if k < s.len() { longer(e, s, k); prefix(e, s, k + 1); let (a, b, c) = (stream(e, s), stream(e, s.take(k + 1)), stream(e, s.take(k))); assert forall|i: int| 0 <= i < c.len() implies #[trigger] a[i] == c[i] by { assert(b[i] == c[i]); } } else { assert(s.take(k) =~= s); } }
// ---- what a decoder makes of bytes
pub open spec fn gives<D: Taker>(dec: D, d: Seq<u8>, p: int, s: Seq<u64>) -> bool decreases s.len() {
    dec.can(d, p) && if s.len() == 0 { dec.val(d, p) is None } else { dec.val(d, p) == Some(s[0]) && gives(dec.then(d, p), d, dec.stop(d, p), s.drop_first()) }
}
pub proof fn one_series<D: Taker>(dec: D, d: Seq<u8>, p: int, a: Seq<u64>, b: Seq<u64>)
    requires gives(dec, d, p, a), gives(dec, d, p, b)
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 { one_series(dec.then(d, p), d, dec.stop(d, p), a.drop_first(), b.drop_first()); assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    else { assert(a =~= b); }
}
pub open spec fn good<D: Taker>(dec: D, d: Seq<u8>, p: int) -> bool { exists|s: Seq<u64>| #[trigger] gives(dec, d, p, s) }
pub open spec fn series<D: Taker>(dec: D, d: Seq<u8>, p: int) -> Seq<u64> { choose|s: Seq<u64>| #[trigger] gives(dec, d, p, s) }
pub proof fn series_is<D: Taker>(dec: D, d: Seq<u8>, p: int, s: Seq<u64>)
    requires gives(dec, d, p, s)
    ensures good(dec, d, p), series(dec, d, p) == s
{ one_series(dec, d, p, s, series(dec, d, p)); }
/// one record further
pub proof fn step_on<D: Taker>(dec: D, d: Seq<u8>, p: int)
    requires good(dec, d, p)
    ensures dec.can(d, p), match dec.val(d, p) { None => series(dec, d, p).len() == 0, Some(v) => series(dec, d, p).len() > 0 && v == series(dec, d, p)[0] && good(dec.then(d, p), d, dec.stop(d, p)) && series(dec.then(d, p), d, dec.stop(d, p)) == series(dec, d, p).drop_first() }
{ let s = series(dec, d, p); assert(gives(dec, d, p, s)); if s.len() > 0 { series_is(dec.then(d, p), d, dec.stop(d, p), s.drop_first()); } }
/// these bits stand at bit p of d
#[verifier::opaque]
pub open spec fn stands(d: Seq<u8>, p: int, c: Seq<bool>) -> bool { 0 <= p && p + c.len() <= 8 * d.len() && forall|i: int| 0 <= i < c.len() ==> #[trigger] bit_at(d, p + i) == c[i] }
/// encoder and decoder fit together
pub trait Pair<E: Coder, D: Taker> {
    spec fn sync(e: E, d: D) -> bool;
    /// the values that come back
    spec fn takes(v: u64) -> bool;
    proof fn begin() ensures Self::sync(E::start(), D::dstart());
    proof fn step(e: E, dec: D, d: Seq<u8>, p: int, v: u64)
        requires Self::sync(e, dec), Self::takes(v), stands(d, p, e.code(v))
        ensures dec.can(d, p), dec.val(d, p) == Some(v), dec.stop(d, p) == p + e.code(v).len(), Self::sync(e.after(v), dec.then(d, p));
    proof fn finish(e: E, dec: D, d: Seq<u8>, p: int)
        requires Self::sync(e, dec), stands(d, p, e.code(marker()))
        ensures dec.can(d, p), dec.val(d, p) is None;
}
pub open spec fn all_taken<E: Coder, D: Taker, P: Pair<E, D>>(s: Seq<u64>) -> bool { forall|i: int| 0 <= i < s.len() ==> P::takes(#[trigger] s[i]) }
pub open spec fn no_marker(s: Seq<u64>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != marker() }
/// what was encoded comes back: the same bit patterns, in order, then the end
pub proof fn round_trip<E: Coder, D: Taker, P: Pair<E, D>>(s: Seq<u64>, d: Seq<u8>)
    requires is_padded(image::<E>(s), d), all_taken::<E, D, P>(s)
    ensures good(D::dstart(), d, 0), series(D::dstart(), d, 0) == s
{ P::begin(); assert(s.take(0) =~= Seq::<u64>::empty()); assert(s.skip(0) =~= s); from_record::<E, D, P>(s, d, 0, D::dstart()); series_is(D::dstart(), d, 0, s); }
pub proof fn from_record<E: Coder, D: Taker, P: Pair<E, D>>(s: Seq<u64>, d: Seq<u8>, k: int, dec: D)
    requires is_padded(image::<E>(s), d), all_taken::<E, D, P>(s), 0 <= k <= s.len(), P::sync(run(E::start(), s.take(k)), dec)
    ensures gives(dec, d, stream(E::start(), s.take(k)).len() as int, s.skip(k))
    decreases s.len() - k
{
    let (all, st, e) = (image::<E>(s), stream(E::start(), s), run(E::start(), s.take(k)));
    let p = stream(E::start(), s.take(k)).len() as int;
    reveal(stands);
    if k < s.len() {
        longer(E::start(), s, k); prefix(E::start(), s, k + 1);
        let (t, c) = (stream(E::start(), s.take(k + 1)), e.code(s[k]));
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] bit_at(d, p + i) == c[i] by { assert(all[p + i] == st[p + i]); assert(st[p + i] == t[p + i]); assert(bit_at(d, p + i) == all[p + i]); }
        P::step(e, dec, d, p, s[k]);
        from_record::<E, D, P>(s, d, k + 1, dec.then(d, p));
        assert(s.skip(k).drop_first() =~= s.skip(k + 1)); assert(s.skip(k)[0] == s[k]);
    } else {
        assert(s.take(k) =~= s);
        let c = e.code(marker());
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] bit_at(d, p + i) == c[i] by { assert(all[p + i] == c[i]); assert(bit_at(d, p + i) == all[p + i]); }
        P::finish(e, dec, d, p);
    }
}
/// the integer that n bits at p give
pub open spec fn word(d: Seq<u8>, p: int, n: int) -> u64 { choose|v: u64| is_bits_value(d, p, n, v) }
pub broadcast proof fn word_read(d: Seq<u8>, p: int, n: int, v: u64)
    requires #[trigger] is_bits_value(d, p, n, v)
    ensures v == word(d, p, n)
{ u64_ext(v, word(d, p, n)); }
pub open spec fn room(d: Seq<u8>, p: int, n: int) -> bool { p + n <= 8 * d.len() }
/// the first part of what stands somewhere, and the rest
pub proof fn split(d: Seq<u8>, p: int, a: Seq<bool>, b: Seq<bool>)
    requires stands(d, p, a + b)
    ensures stands(d, p, a), stands(d, p + a.len(), b)
{
    reveal(stands);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] bit_at(d, p + i) == a[i] by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] bit_at(d, p + a.len() + i) == b[i] by { assert((a + b)[a.len() + i] == b[i]); assert(bit_at(d, p + (a.len() + i)) == b[i]); }
}
pub proof fn stands_word(d: Seq<u8>, p: int, v: u64, n: int)
    requires 0 <= n <= 64, stands(d, p, u64_bits(v, n as nat)), low(v, n) == v
    ensures is_bits_value(d, p, n, v), word(d, p, n) == v, room(d, p, n), 0 <= p
{
    reveal(stands);
    assert forall|i: int| 0 <= i < 64 implies #[trigger] b64(v, i) == (i < n && bit_at(d, p + n - 1 - i)) by {
        low_bits(v, n, i);
        if i < n { let j = n - 1 - i; assert(bit_at(d, p + j) == u64_bits(v, n as nat)[j]); }
    }
    word_read(d, p, n, v);
}
pub proof fn stands_bit(d: Seq<u8>, p: int, b: bool)
    requires stands(d, p, seq![b])
    ensures bit_at(d, p) == b, room(d, p, 1), 0 <= p
{ reveal(stands); assert(bit_at(d, p + 0) == seq![b][0]); }
/// a small number fits n bits
pub proof fn fits(v: u64, n: u32)
    requires n < 64, v < (1u64 << n)
    ensures low(v, n as int) == v
{ let k = 1u64 << n; let m = (k - 1) as u64; assert(v & m == v) by (bit_vector) requires n < 64, v < k, k == 1u64 << n, m == sub(k, 1); }
/// what is left of x without its leading and trailing zeros: it fits, and comes back
pub proof fn window(x: u64, l: u32, t: u32)
    requires x != 0, l <= vstd::std_specs::bits::u64_leading_zeros(x), t <= vstd::std_specs::bits::u64_trailing_zeros(x)
    ensures l + t < 64, low(x >> t, 64 - l - t) == x >> t, (x >> t) << t == x
{
    broadcast use {vstd::std_specs::bits::axiom_u64_leading_zeros, vstd::std_specs::bits::axiom_u64_trailing_zeros};
    let lz = vstd::std_specs::bits::u64_leading_zeros(x) as u32;
    let tz = vstd::std_specs::bits::u64_trailing_zeros(x) as u32;
    let a = (64 - lz) as u64;
    let b = (64 - tz) as u64;
    if lz > 0 { assert(x >> a == 0); }
    if tz > 0 { assert(x << b == 0); }
    assert(l + t < 64) by {
        if l + t >= 64 { assert(x == 0) by (bit_vector) requires lz > 0 && lz < 64 ==> x >> a == 0, tz > 0 && tz < 64 ==> x << b == 0, a == 64 - lz as u64, b == 64 - tz as u64, l <= lz < 64, t <= tz < 64, l + t >= 64; }
    }
    assert((x >> t) << t == x) by (bit_vector) requires tz > 0 ==> x << b == 0, b == 64 - tz as u64, t <= tz < 64;
    if l + t > 0 {
        let n = (64 - l - t) as u32;
        let k = 1u64 << n;
        assert(k >= 1) by (bit_vector) requires n < 64, k == 1u64 << n;
        let m = (k - 1) as u64;
        assert((x >> t) & m == x >> t) by (bit_vector) requires lz > 0 ==> x >> a == 0, a == 64 - lz as u64, l <= lz < 64, t < 64, n == 64 - l - t, n < 64, k == 1u64 << n, m == sub(k, 1);
    }
}
} // mod xs
pub mod gx {
use super::*;
use super::bits::*;
use super::ext::*;
use super::tr::*;
use super::rd::*;
use super::xs::*;
use std::marker::PhantomData;
global size_of f64 == 8;
pub proof fn eight() ensures vstd::layout::size_of::<f64>() == 8 { }
#[verifier::external_body]
pub fn empty() -> (r: &'static [u8]) ensures r@.len() == 0 { &[] }
//@item ebi/src/compressor/general_xor.rs :: struct GeneralXorCompressor
//@rewritere XorEncoder \+ Default => XorEncoder
//@enditem
impl<W: BitWrite, T: XorEncoder> GeneralXorCompressor<W, T> {
    pub closed spec fn out(&self) -> Seq<bool> { self.w.bits() }
    pub closed spec fn enc(&self) -> T { self.encoder }
    pub closed spec fn fed(&self) -> int { self.total_bytes_in as int }
    pub closed spec fn ok(&self) -> bool { self.w.inv() && self.encoder.einv() }
}
//@item ebi/src/compressor/general_xor.rs :: impl<W: BitWrite, T: XorEncoder> Compressor for GeneralXorCompressor<W, T>
//@rewritere Compressor for General => General
//@skip execution_times
//@rewritere super::MAX_BUFFERS => 5
//@rewritere const E: &\[u8\] = &\[\]; => let E: &[u8] = empty();
//@fn compress ret=r
    requires input@.len() < 0x10_0000_0000_0000, 0 <= T::grow() <= 256
    ensures r is Ok, final(self).ok(), final(self).fed() == 8 * input@.len(), final(self).enc() == run(T::start(), pats(input@)), final(self).out() =~= stream(T::start(), pats(input@)), 0 <= final(self).enc().load() <= 256 * input@.len()
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost s = pats(input@);
    proof { assert(s.take(0) =~= Seq::<u64>::empty()); assert(s.take(s.len() as int) =~= s); }
//@loop 1 ix
    invariant vx_1 <= input@.len(), self.ok(), self.encoder == run(T::start(), s.take(vx_1 as int)), self.w.bits() =~= stream(T::start(), s.take(vx_1 as int)), 0 <= self.encoder.load() <= 256 * vx_1, self.total_bytes_in == 8 * input@.len()
    decreases input@.len() - vx_1
//@loopstart 1
    proof { longer(T::start(), s, vx_1 - 1); }
//@fn total_bytes_in ret=r
    ensures r == self.fed()
//@fn total_bytes_buffered ret=r
    requires self.ok(), 0 <= T::grow() <= 256, self.out().len() < 0x1000_0000_0000_0000, 0 <= self.enc().load() < 0x2000_0000_0000_0000
    ensures r == ((self.out().len() + 7) / 8 * 8 + self.enc().code(marker()).len() + 1 + 7) / 8
//@fn prepare
    requires old(self).ok(), 0 <= old(self).enc().load() < 0x2000_0000_0000_0000
    ensures final(self).ok(), final(self).out() =~= old(self).out() + old(self).enc().code(marker()).push(false), final(self).fed() == old(self).fed()
//@fn buffers ret=r
    requires self.ok()
    ensures is_padded(self.out(), r[0]@), r[1]@.len() == 0, r[2]@.len() == 0, r[3]@.len() == 0, r[4]@.len() == 0
//@fn reset
    ensures final(self).ok(), final(self).out() == Seq::<bool>::empty(), final(self).fed() == 0, final(self).enc() == T::start(), final(self).enc().load() == 0
//@enditem
/// compressing and preparing leaves exactly the image of the series
pub proof fn makes_image<W: BitWrite, T: XorEncoder>(c: GeneralXorCompressor<W, T>, s: Seq<u64>)
    requires c.enc() == run(T::start(), s), c.out() == stream(T::start(), s)
    ensures c.out() + c.enc().code(marker()).push(false) == image::<T>(s)
{ }
// ---- the reader
// what BufferedBitReader<Vec<u8>> does (proved in unit bitread)
#[verifier::external_body]
pub struct BitReader { x: u64 }
impl BitRead2 for BitReader {
    uninterp spec fn rinv(&self) -> bool;
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn read_bit(&mut self) -> (r: Option<bool>) { unimplemented!() }
    #[verifier::external_body]
    fn read_byte(&mut self) -> (r: Option<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn read_bits(&mut self, n: u8) -> (r: Option<u64>) { unimplemented!() }
    #[verifier::external_body]
    fn peak_bits(&mut self, n: u8) -> (r: Option<u64>) { unimplemented!() }
}
impl BitReader {
    #[verifier::external_body]
    pub fn reset(&mut self) ensures (*old(self)).rinv() ==> (*final(self)).rinv(), (*final(self)).data() == (*old(self)).data(), (*final(self)).pos() == 0 { unimplemented!() }
}
//@item ebi/src/io/bit_read.rs :: impl<T: BitRead2> BitRead2 for &mut T
    open spec fn rinv(&self) -> bool { (**self).rinv() }
    open spec fn data(&self) -> Seq<u8> { (**self).data() }
    open spec fn pos(&self) -> int { (**self).pos() }
//@enditem
//@item ebi/src/decoder/chunk_reader/general_xor.rs :: struct GeneralXorDecompressIteratorImpl
//@enditem
impl<R: BitRead2, T: XorDecoder> GeneralXorDecompressIteratorImpl<R, T> {
    pub closed spec fn ok(&self) -> bool { self.bit_reader.rinv() && good(self.decoder, self.bit_reader.data(), self.bit_reader.pos()) }
    /// what it still yields
    pub closed spec fn rest(&self) -> Seq<u64> { series(self.decoder, self.bit_reader.data(), self.bit_reader.pos()) }
}
//@item ebi/src/decoder/chunk_reader/general_xor.rs :: impl<R: BitRead2, T: XorDecoder> GeneralXorDecompressIteratorImpl<R, T>
//@rewritere T::default\(\) => T::initial()
//@fn new ret=r
    requires bit_reader.rinv(), bit_reader.pos() == 0, good(T::dstart(), bit_reader.data(), 0)
    ensures r.ok(), r.rest() == series(T::dstart(), bit_reader.data(), 0)
//@enditem
//@item ebi/src/decoder/chunk_reader/general_xor.rs :: impl<R: BitRead2, T: XorDecoder> Iterator for GeneralXorDecompressIteratorImpl<R, T>
//@rewritere Iterator for General => General
//@rewritere type Item = decoder::Result<f64>; =>
//@rewritere Self::Item => decoder::Result<f64>
//@skip size_hint
//@fn next ret=r
    requires old(self).ok()
    ensures old(self).rest().len() > 0 ==> r is Some && r->Some_0 is Ok && r->Some_0->Ok_0 == of_bits(old(self).rest()[0]) && final(self).ok() && final(self).rest() == old(self).rest().drop_first(),
        old(self).rest().len() == 0 ==> r is None
//@start
    proof { step_on(self.decoder, self.bit_reader.data(), self.bit_reader.pos()); }
//@enditem
//@item ebi/src/decoder/chunk_reader/general_xor.rs :: struct GeneralXorReader
//@enditem
impl<T: XorDecoder> GeneralXorReader<T> {
    pub closed spec fn src(&self) -> Seq<u8> { self.bit_reader.data() }
    pub closed spec fn cached(&self) -> bool { self.decompressed_result is Some }
    /// a reader that was not decompressed yet holds a series its decoder understands
    pub closed spec fn rok(&self) -> bool { self.cached() || self.bit_reader.rinv() && good(T::dstart(), self.src(), 0) }
    pub closed spec fn recs(&self) -> Seq<f64> { if self.cached() { self.decompressed_result->0@ } else { dbls(series(T::dstart(), self.src(), 0)) } }
}
// iter.collect::<Result<Vec<f64>>>(): everything the iterator yields, in order
#[verifier::loop_isolation(false)]
pub fn collect_all<'a, T: XorDecoder>(it: GeneralXorDecompressIteratorImpl<&'a mut BitReader, T>) -> (r: decoder::Result<Vec<f64>>)
    requires it.ok()
    ensures r is Ok, r->Ok_0@ == dbls(it.rest())
{
    let ghost s = it.rest();
    let mut it = it;
    let mut v: Vec<f64> = Vec::new();
    loop
        invariant it.ok(), v@.len() + it.rest().len() == s.len(), v@ =~= dbls(s.take(v@.len() as int)), it.rest() =~= s.skip(v@.len() as int)
        decreases it.rest().len()
    {
        match it.next() {
            None => { proof { assert(s.take(v@.len() as int) =~= s); } return Ok(v); }
            Some(Ok(x)) => { v.push(x); }
            Some(Err(e)) => { return Err(e); }
        }
    }
}
pub type GeneralXorDecompressIterator<'a, T> = GeneralXorDecompressIteratorImpl<&'a mut BitReader, T>;
//@item ebi/src/decoder/chunk_reader/general_xor.rs :: impl<T: XorDecoder> Reader for GeneralXorReader<T>
//@rewritere Reader for General => General
//@skip read_header
//@rewritere type NativeHeader = \(\); =>
//@rewritere type DecompressIterator<'a>\s*= GeneralXorDecompressIterator<'a, T>\s*where\s*T: 'a; =>
//@rewritere Self::DecompressIterator<'_> => GeneralXorDecompressIteratorImpl<&mut BitReader, T>
//@rewritere Self::DecompressIterator:: => GeneralXorDecompressIteratorImpl::<&mut BitReader, T>::
//@rewritere self\.decompressed_result\.as_deref\(\) => match &self.decompressed_result { Some(v) => Some(v.as_slice()), None => None }
//@rewritere self\.decompressed_result\.as_ref\(\)\.unwrap\(\) => match &self.decompressed_result { Some(v) => v.as_slice(), None => vstd::pervasive::unreached() }
//@fn decompress_iter ret=r
    requires old(self).rok(), !old(self).cached()
    ensures r is Ok, r->Ok_0.ok(), r->Ok_0.rest() == series(T::dstart(), old(self).src(), 0), final(self).cached() == old(self).cached()
//@fn decompress ret=r
    requires old(self).rok()
    ensures r is Ok, r->Ok_0@ == old(self).recs(), final(self).rok(), final(self).recs() == old(self).recs()
//@fn set_decompress_result ret=r
    ensures final(self).cached(), final(self).recs() == data@, r@ == data@
//@fn decompress_result ret=r
    ensures *final(self) == *old(self), r is Some == old(self).cached(), r is Some ==> r->0@ == old(self).recs()
//@enditem
//@item ebi/src/decoder/chunk_reader.rs :: fn default_decompress
//@rewritere default_decompress => default_decompress<T: XorDecoder>
//@rewritere &mut impl Reader => &mut GeneralXorReader<T>
//@rewritere r\s*\.decompress_iter\(\)\?\s*\.collect::<decoder::Result<Vec<f64>>>\(\)\? => collect_all(r.decompress_iter()?)?
//@fn default_decompress ret=ret
    requires old(r).rok()
    ensures ret is Ok, ret->Ok_0@ == old(r).recs(), final(r).rok(), final(r).recs() == old(r).recs()
//@enditem
} // mod gx
