//@include lib/prelude.rs
//@include lib/bits.rs
//@include lib/ext.rs
//@include lib/bitwrite_trait.rs
//@include lib/bitread.rs
//@include lib/xor.rs
pub mod gg {
use super::*;
use super::bits::*;
use super::ext::*;
use super::tr::*;
use super::rd::*;
use super::xs::*;
use super::decoder::DecoderError;
use vstd::std_specs::bits::*;
broadcast use {super::xs::word_read, super::bits_and_back, super::back_and_bits, vstd::std_specs::bits::axiom_u64_leading_zeros, vstd::std_specs::bits::axiom_u64_trailing_zeros};
//@item ebi/src/compressor/gorilla.rs :: mod modified_tsz :: struct GorillaFloatEncoderState
//@enditem
//@item ebi/src/compressor/gorilla.rs :: mod modified_tsz :: impl GorillaFloatEncoderState
//@fn new ret=r
    ensures r == fresh()
//@enditem
//@item ebi/src/compressor/gorilla.rs :: mod modified_tsz :: struct GorillaFloatEncoder
//@enditem
impl GorillaFloatEncoder { pub closed spec fn st(&self) -> GorillaFloatEncoderState { self.state } }
pub open spec fn fresh() -> GorillaFloatEncoderState { GorillaFloatEncoderState { value_bits: 0, leading_zeroes: 64, trailing_zeroes: 64, first: true } }
/// the window of a difference: leading (at most 31) and trailing zeros
pub open spec fn lead(x: u64) -> u32 { if u64_leading_zeros(x) >= 32 { 31 } else { u64_leading_zeros(x) as u32 } }
pub open spec fn trail(x: u64) -> u32 { u64_trailing_zeros(x) as u32 }
pub open spec fn reuse(s: GorillaFloatEncoderState, x: u64) -> bool { lead(x) >= s.leading_zeroes && trail(x) >= s.trailing_zeroes }
pub open spec fn sane(s: GorillaFloatEncoderState) -> bool { s.leading_zeroes == 64 && s.trailing_zeroes == 64 || s.leading_zeroes <= 31 && s.trailing_zeroes <= 63 && s.leading_zeroes + s.trailing_zeroes <= 63 }
pub open spec fn g_next(s: GorillaFloatEncoderState, v: u64) -> Seq<bool> {
    let x = v ^ s.value_bits;
    if x == 0 { seq![false] }
    else if reuse(s, x) { seq![true] + (seq![false] + u64_bits(x >> s.trailing_zeroes, (64 - s.leading_zeroes - s.trailing_zeroes) as nat)) }
    else { seq![true] + (seq![true] + (u64_bits(lead(x) as u64, 5) + (u64_bits((64 - lead(x) - trail(x) - 1) as u64, 6) + u64_bits(x >> trail(x), (64 - lead(x) - trail(x)) as nat)))) }
}
pub open spec fn g_code(s: GorillaFloatEncoderState, v: u64) -> Seq<bool> { if s.first { u64_bits(v, 64) } else { g_next(s, v) } }
pub open spec fn g_after(s: GorillaFloatEncoderState, v: u64) -> GorillaFloatEncoderState {
    let x = v ^ s.value_bits;
    if s.first || x == 0 || reuse(s, x) { GorillaFloatEncoderState { value_bits: v, first: false, ..s } } else { GorillaFloatEncoderState { value_bits: v, leading_zeroes: lead(x), trailing_zeroes: trail(x), first: false } }
}
pub proof fn facts(s: GorillaFloatEncoderState, v: u64)
    requires sane(s)
    ensures sane(g_after(s, v)), g_code(s, v).len() <= 77, ({ let x = v ^ s.value_bits; x != 0 ==> lead(x) + trail(x) <= 63 && trail(x) <= 63 && (reuse(s, x) ==> s.leading_zeroes <= 31) })
{ let x = v ^ s.value_bits; if x != 0 { window(x, lead(x), trail(x)); } }
//@item ebi/src/compressor/gorilla.rs :: mod modified_tsz :: impl GorillaFloatEncoder
//@rewritere w: &mut impl BitWrite => w: &mut W
//@rewritere fn (write_first|write_next_value) => fn \1<W: BitWrite>
//@fn new ret=r
    ensures r.st() == fresh()
//@fn write_first ret=r
    requires old(w).inv()
    ensures final(w).inv(), final(w).bits() =~= old(w).bits() + u64_bits(value_bits, 64), r == 64, final(self).st().value_bits == value_bits, final(self).st().leading_zeroes == old(self).st().leading_zeroes, final(self).st().trailing_zeroes == old(self).st().trailing_zeroes
//@fn write_next_value ret=r
    requires old(w).inv(), sane(old(self).st()), !old(self).st().first
    ensures final(w).inv(), final(w).bits() =~= old(w).bits() + g_next(old(self).st(), value_bits), r == g_next(old(self).st(), value_bits).len(), final(self).st() == g_after(old(self).st(), value_bits)
//@start
    proof { facts(self.state, value_bits); }
//@enditem
//@item ebi/src/compressor/gorilla.rs :: mod modified_tsz :: impl GorillaFloatEncoder #1
//@rewritere w: &mut impl BitWrite => w: &mut W
//@rewritere fn (encode)\( => fn \1<W: BitWrite>(
//@fn encode ret=r
    requires old(w).inv(), sane(old(self).st())
    ensures final(w).inv(), final(w).bits() =~= old(w).bits() + g_code(old(self).st(), bits_of(value)), r == g_code(old(self).st(), bits_of(value)).len(), final(self).st() == g_after(old(self).st(), bits_of(value))
//@fn simulate_encode ret=r
    requires sane(self.st())
    ensures r == g_code(self.st(), value_bits).len()
//@start
    proof { facts(self.state, value_bits); }
//@fn reset
    ensures final(self).st() == fresh()
//@enditem
impl Coder for GorillaFloatEncoder {
    closed spec fn start() -> Self { GorillaFloatEncoder { state: fresh() } }
    closed spec fn code(&self, v: u64) -> Seq<bool> { g_code(self.state, v) }
    closed spec fn after(&self, v: u64) -> Self { GorillaFloatEncoder { state: g_after(self.state, v) } }
}
//@item ebi/src/compressor/gorilla.rs :: impl XorEncoder for modified_tsz::GorillaFloatEncoder
//@rewritere modified_tsz:: =>
//@rewritere mut w: W => w: &mut W
//@rewritere &mut w\b => w
//@rewritere crate::io::bit_write:: =>
//@rewritere f64::NAN => fnan()
    closed spec fn einv(&self) -> bool { sane(self.state) }
    closed spec fn load(&self) -> int { 0 }
    open spec fn grow() -> int { 77 }
    open spec fn exact() -> bool { true }
//@fn compress_float
//@start
    proof { facts(self.state, bits); }
//@fn close
//@start
    proof { facts(self.state, marker()); }
//@fn simulate_close
//@start
    proof { facts(self.state, marker()); }
//@enditem
// ---- decoder
//@item ebi/src/decoder/chunk_reader/gorilla.rs :: mod modified_tsz :: struct GorillaDecoder
//@enditem
pub closed spec fn first_d() -> GorillaDecoder { GorillaDecoder { value_bits: 0, leading_zeroes: 0, trailing_zeroes: 0, first: true, done: false } }
impl GorillaDecoder {
    /// the window in force for the code at p, where its digits start, and the code's end
    pub closed spec fn lz(&self, d: Seq<u8>, p: int) -> int { if bit_at(d, p + 1) { word(d, p + 2, 5) as u8 as int } else { self.leading_zeroes as int } }
    pub closed spec fn tz(&self, d: Seq<u8>, p: int) -> int { if bit_at(d, p + 1) { 64 - self.lz(d, p) - (word(d, p + 7, 6) as u8 + 1) } else { self.trailing_zeroes as int } }
    pub closed spec fn digits(&self, d: Seq<u8>, p: int) -> int { if bit_at(d, p + 1) { p + 13 } else { p + 2 } }
    pub closed spec fn n_can(&self, d: Seq<u8>, p: int) -> bool {
        room(d, p, 1) && (bit_at(d, p) ==> room(d, p, 2) && (bit_at(d, p + 1) ==> room(d, p, 13) && word(d, p + 2, 5) < 32 && word(d, p + 7, 6) < 64) && 0 <= self.tz(d, p) < 64 && self.lz(d, p) + self.tz(d, p) <= 64 && room(d, self.digits(d, p), 64 - self.lz(d, p) - self.tz(d, p)))
    }
    pub closed spec fn n_val(&self, d: Seq<u8>, p: int) -> u64 { if bit_at(d, p) { self.value_bits ^ (word(d, self.digits(d, p), 64 - self.lz(d, p) - self.tz(d, p)) << self.tz(d, p) as u8) } else { self.value_bits } }
    pub closed spec fn n_stop(&self, d: Seq<u8>, p: int) -> int { if bit_at(d, p) { self.digits(d, p) + 64 - self.lz(d, p) - self.tz(d, p) } else { p + 1 } }
    pub closed spec fn n_then(&self, d: Seq<u8>, p: int) -> Self { if bit_at(d, p) { GorillaDecoder { value_bits: self.n_val(d, p), leading_zeroes: self.lz(d, p) as u8, trailing_zeroes: self.tz(d, p) as u8, ..*self } } else { *self } }
    pub closed spec fn raw(&self, d: Seq<u8>, p: int) -> u64 { if self.first { word(d, p, 64) } else { self.n_val(d, p) } }
    pub closed spec fn raw_then(&self, d: Seq<u8>, p: int) -> Self { if self.first { GorillaDecoder { value_bits: word(d, p, 64), first: false, ..*self } } else { self.n_then(d, p) } }
}
//@item ebi/src/decoder/chunk_reader/gorilla.rs :: mod modified_tsz :: impl GorillaDecoder
//@rewritere const \{ f64::NAN\.to_bits\(\) \} => 0x7ff8000000000000
//@rewritere r: &mut impl BitRead2 => r: &mut R
//@rewritere fn (read_first_value|read_next_value) => fn \1<R: BitRead2>
//@rewritere #\[allow\(clippy::useless_conversion\)\] =>
//@rewritere (?s)r\s*\.read_bits\((\w+)\)\s*\.map\(\|(\w+)\| \{(.*?)\}\)\s*\.ok_or\(DecoderError::UnexpectedEndOfChunk\.into\(\)\) => match r.read_bits(\1) { Some(\2) => Ok({ \3 }), None => Err(DecoderError::UnexpectedEndOfChunk) }
//@rewritere (?s)r\s*\.read_bits\((\w+)\)\s*\.map\(\|(\w+)\| ([^|{]*?)\)\s*\.ok_or\(DecoderError::UnexpectedEndOfChunk\)\? => match r.read_bits(\1) { Some(\2) => \3, None => return Err(DecoderError::UnexpectedEndOfChunk) }
//@fn new ret=r
    ensures r == first_d()
//@fn read_first_value ret=res
    requires (*old(r)).rinv(), room((*old(r)).data(), (*old(r)).pos(), 64)
    ensures (*final(r)).rinv(), (*final(r)).data() == (*old(r)).data(), (*final(r)).pos() == (*old(r)).pos() + 64, res is Ok, res->Ok_0 == word((*old(r)).data(), (*old(r)).pos(), 64), *final(self) == (GorillaDecoder { value_bits: res->Ok_0, ..*old(self) })
//@fn read_next_value ret=res
    requires (*old(r)).rinv(), old(self).n_can((*old(r)).data(), (*old(r)).pos())
    ensures (*final(r)).rinv(), (*final(r)).data() == (*old(r)).data(), (*final(r)).pos() == old(self).n_stop((*old(r)).data(), (*old(r)).pos()), res is Ok, res->Ok_0 == old(self).n_val((*old(r)).data(), (*old(r)).pos()), *final(self) == old(self).n_then((*old(r)).data(), (*old(r)).pos())
//@enditem
//@item ebi/src/decoder/chunk_reader/gorilla.rs :: mod modified_tsz :: impl GorillaDecoder #1
//@rewritere mut r: impl BitRead2 => r: &mut R
//@rewritere fn next => fn next<R: BitRead2>
//@rewritere &mut r\b => r
//@fn next ret=res
    requires (*old(r)).rinv(), old(self).can((*old(r)).data(), (*old(r)).pos())
    ensures (*final(r)).rinv(), (*final(r)).data() == (*old(r)).data(), res is Ok, (*final(r)).pos() == old(self).stop((*old(r)).data(), (*old(r)).pos()), *final(self) == old(self).then((*old(r)).data(), (*old(r)).pos()),
        match old(self).val((*old(r)).data(), (*old(r)).pos()) { Some(b) => res->Ok_0 == Some(of_bits(b)), None => res->Ok_0 is None }
//@enditem
impl Taker for GorillaDecoder {
    closed spec fn dstart() -> Self { first_d() }
    closed spec fn can(&self, d: Seq<u8>, p: int) -> bool { self.done || if self.first { room(d, p, 64) } else { self.n_can(d, p) } }
    closed spec fn val(&self, d: Seq<u8>, p: int) -> Option<u64> { if self.done || self.raw(d, p) == marker() { None } else { Some(self.raw(d, p)) } }
    closed spec fn stop(&self, d: Seq<u8>, p: int) -> int { if self.done { p } else if self.first { p + 64 } else { self.n_stop(d, p) } }
    closed spec fn then(&self, d: Seq<u8>, p: int) -> Self { if self.done { *self } else if self.raw(d, p) == marker() { GorillaDecoder { done: true, ..self.raw_then(d, p) } } else { self.raw_then(d, p) } }
}
//@item ebi/src/decoder/chunk_reader/gorilla.rs :: impl XorDecoder for modified_tsz::GorillaDecoder
//@rewritere modified_tsz:: =>
//@rewritere r: R => r: &mut R
//@rewritere Self::default\(\) => Self::new()
    // Default::default() is Self::new()
    fn initial() -> (r: Self) { Self::new() }
//@enditem
pub struct Gorilla;
impl Pair<GorillaFloatEncoder, GorillaDecoder> for Gorilla {
    /// same last value; either no window yet, or the same one
    closed spec fn sync(e: GorillaFloatEncoder, d: GorillaDecoder) -> bool {
        let s = e.state;
        sane(s) && !d.done && s.first == d.first && (!s.first ==> s.value_bits == d.value_bits) && (s.leading_zeroes <= 31 ==> s.leading_zeroes == d.leading_zeroes && s.trailing_zeroes == d.trailing_zeroes)
    }
    open spec fn takes(v: u64) -> bool { v != marker() }
    proof fn begin() { }
    proof fn step(e: GorillaFloatEncoder, dec: GorillaDecoder, d: Seq<u8>, p: int, v: u64) { understood(e.state, dec, d, p, v); }
    proof fn finish(e: GorillaFloatEncoder, dec: GorillaDecoder, d: Seq<u8>, p: int) { understood(e.state, dec, d, p, marker()); }
}
/// the decoder reads what the encoder wrote
proof fn understood(s: GorillaFloatEncoderState, dec: GorillaDecoder, d: Seq<u8>, p: int, v: u64)
    requires Gorilla::sync(GorillaFloatEncoder { state: s }, dec), stands(d, p, g_code(s, v))
    ensures dec.can(d, p), dec.raw(d, p) == v, dec.stop(d, p) == p + g_code(s, v).len(), v != marker() ==> Gorilla::sync(GorillaFloatEncoder { state: g_after(s, v) }, dec.then(d, p))
{
    facts(s, v);
    if s.first { stands_word(d, p, v, 64); }
    else {
        let q = s.value_bits;
        let x = v ^ q;
        assert(q ^ x == v) by (bit_vector) requires x == v ^ q;
        if x == 0 { stands_bit(d, p, false); assert(q ^ 0 == q) by (bit_vector); }
        else if reuse(s, x) {
            let (t, n) = (s.trailing_zeroes, 64 - s.leading_zeroes - s.trailing_zeroes);
            window(x, s.leading_zeroes, t);
            let body = u64_bits(x >> t, n as nat);
            split(d, p, seq![true], seq![false] + body); split(d, p + 1, seq![false], body);
            stands_bit(d, p, true); stands_bit(d, p + 1, false); stands_word(d, p + 2, x >> t, n);
            let (y, a) = (x >> t, t as u8);
            assert(y << a == x) by (bit_vector) requires y << t == x, a == t, t < 64;
        } else {
            let (l, t) = (lead(x), trail(x));
            let n = 64 - l - t;
            window(x, l, t);
            let (b1, b2, b3) = (u64_bits(l as u64, 5), u64_bits((n - 1) as u64, 6), u64_bits(x >> t, n as nat));
            split(d, p, seq![true], seq![true] + (b1 + (b2 + b3))); split(d, p + 1, seq![true], b1 + (b2 + b3)); split(d, p + 2, b1, b2 + b3); split(d, p + 7, b2, b3);
            assert(1u64 << 5 == 32 && 1u64 << 6 == 64) by (bit_vector);
            fits(l as u64, 5); fits((n - 1) as u64, 6);
            stands_bit(d, p, true); stands_bit(d, p + 1, true); stands_word(d, p + 2, l as u64, 5); stands_word(d, p + 7, (n - 1) as u64, 6); stands_word(d, p + 13, x >> t, n);
            let (y, a) = (x >> t, t as u8);
            assert(y << a == x) by (bit_vector) requires y << t == x, a == t, t < 64;
        }
    }
}
/// P09: what Gorilla compressed comes back, in order, then the end
pub proof fn gorilla_round_trip(s: Seq<u64>, d: Seq<u8>)
    requires is_padded(image::<GorillaFloatEncoder>(s), d), no_marker(s)
    ensures good(GorillaDecoder::dstart(), d, 0), series(GorillaDecoder::dstart(), d, 0) == s
{ round_trip::<GorillaFloatEncoder, GorillaDecoder, Gorilla>(s, d); }
} // mod gg
} // verus!
fn main() {}
