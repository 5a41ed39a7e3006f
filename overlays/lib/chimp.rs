pub mod ch {
use super::*;
use super::bits::*;
use super::ext::*;
use super::tr::*;
use super::rd::*;
use super::xs::*;
use super::decoder::DecoderError;
use vstd::std_specs::bits::*;
broadcast use {super::xs::word_read, super::bits_and_back, super::back_and_bits, vstd::std_specs::bits::axiom_u64_leading_zeros, vstd::std_specs::bits::axiom_u64_trailing_zeros};
/// leading zeros rounded down to what three bits can say, and those three bits
pub open spec fn round(l: int) -> int { if l < 8 { 0 } else if l < 12 { 8 } else if l < 16 { 12 } else if l < 18 { 16 } else if l < 20 { 18 } else if l < 22 { 20 } else if l < 24 { 22 } else { 24 } }
pub open spec fn three(l: int) -> u64 { if l < 8 { 0 } else if l < 12 { 1 } else if l < 16 { 2 } else if l < 18 { 3 } else if l < 20 { 4 } else if l < 22 { 5 } else if l < 24 { 6 } else { 7 } }
pub open spec fn unthree(r: u64) -> int { if r == 0 { 0 } else if r == 1 { 8 } else if r == 2 { 12 } else if r == 3 { 16 } else if r == 4 { 18 } else if r == 5 { 20 } else if r == 6 { 22 } else { 24 } }
//@item ebi/src/compressor/chimp.rs :: struct ChimpEncoder
//@enditem
impl ChimpEncoder {
    pub closed spec fn cfirst(&self) -> bool { self.first }
    pub closed spec fn cval(&self) -> u64 { self.stored_val }
    pub closed spec fn clead(&self) -> u32 { self.stored_leading_zeros }
    pub closed spec fn csize(&self) -> int { self.size as int }
}
pub open spec fn lead(x: u64) -> u32 { round(u64_leading_zeros(x) as int) as u32 }
pub open spec fn trail(x: u64) -> u32 { u64_trailing_zeros(x) as u32 }
pub open spec fn rep(x: u64) -> u64 { three(lead(x) as int) }
pub open spec fn c_next(e: ChimpEncoder, v: u64) -> Seq<bool> {
    let x = e.cval() ^ v;
    if x == 0 { u64_bits(0, 2) }
    else if trail(x) > 6 { u64_bits(1, 2) + (u64_bits(rep(x), 3) + (u64_bits((64 - lead(x) - trail(x)) as u64, 6) + u64_bits(x >> trail(x), (64 - lead(x) - trail(x)) as nat))) }
    else if lead(x) == e.clead() { u64_bits(2, 2) + u64_bits(x, (64 - lead(x)) as nat) }
    else { u64_bits(3, 2) + (u64_bits(rep(x), 3) + u64_bits(x, (64 - lead(x)) as nat)) }
}
pub open spec fn c_code(e: ChimpEncoder, v: u64) -> Seq<bool> { if e.cfirst() { u64_bits(v, 64) } else { c_next(e, v) } }
pub open spec fn c_lead(e: ChimpEncoder, v: u64) -> u32 {
    let x = e.cval() ^ v;
    if e.cfirst() { e.clead() } else if x == 0 || trail(x) > 6 { 65 } else { lead(x) }
}
pub closed spec fn c_after(e: ChimpEncoder, v: u64) -> ChimpEncoder { ChimpEncoder { stored_val: v, first: false, stored_leading_zeros: c_lead(e, v), size: (e.size + c_code(e, v).len()) as usize } }
pub proof fn flags()
    ensures u64_bits(0, 2) == seq![false, false], u64_bits(1, 2) == seq![false, true], u64_bits(2, 2) == seq![true, false], u64_bits(3, 2) == seq![true, true]
{
    assert((0u64 >> 0u32) & 1 == 0 && (0u64 >> 1u32) & 1 == 0 && (1u64 >> 0u32) & 1 == 1 && (1u64 >> 1u32) & 1 == 0 && (2u64 >> 0u32) & 1 == 0 && (2u64 >> 1u32) & 1 == 1 && (3u64 >> 0u32) & 1 == 1 && (3u64 >> 1u32) & 1 == 1) by (bit_vector);
    assert(u64_bits(0, 2) =~= seq![false, false]); assert(u64_bits(1, 2) =~= seq![false, true]); assert(u64_bits(2, 2) =~= seq![true, false]); assert(u64_bits(3, 2) =~= seq![true, true]);
}
pub proof fn facts(e: ChimpEncoder, v: u64)
    ensures c_code(e, v).len() <= 77, ({ let x = e.cval() ^ v; x != 0 ==> lead(x) + trail(x) <= 63 && trail(x) <= 63 && lead(x) <= 24 && u64_leading_zeros(x) < 64 })
{ let x = e.cval() ^ v; if x != 0 { window(x, lead(x), trail(x)); } }
//@item ebi/src/compressor/chimp.rs :: impl ChimpEncoder
//@rewritere f64::NAN => fnan()
//@fn new ret=r
    ensures r.cfirst(), r.cval() == 0, r.csize() == 0, r == ChimpEncoder::start()
//@fn add_value
    requires old(w).inv(), old(self).csize() < 0x4000_0000_0000_0000
    ensures final(w).inv(), final(w).bits() =~= old(w).bits() + c_code(*old(self), bits_of(value)), *final(self) == c_after(*old(self), bits_of(value))
//@fn write_first
    requires old(w).inv(), old(self).cfirst(), old(self).csize() < 0x4000_0000_0000_0000
    ensures final(w).inv(), final(w).bits() =~= old(w).bits() + u64_bits(value, 64), *final(self) == c_after(*old(self), value)
//@fn close
    requires old(w).inv(), old(self).csize() < 0x4000_0000_0000_0000
    ensures final(w).inv(), final(w).bits() =~= old(w).bits() + c_code(*old(self), marker()).push(false), *final(self) == c_after(*old(self), marker())
//@fn compress_value
    requires old(w).inv(), !old(self).cfirst(), old(self).csize() < 0x4000_0000_0000_0000
    ensures final(w).inv(), final(w).bits() =~= old(w).bits() + c_next(*old(self), value), *final(self) == c_after(*old(self), value)
//@start
    proof { facts(*self, value); flags(); }
//@fn simulate_add_value ret=r
    requires self.csize() < 0x4000_0000_0000_0000
    ensures r == self.csize() + c_code(*self, bits_of(value)).len()
//@start
    proof { facts(*self, bits_of(value)); }
//@fn size ret=r
    ensures r == self.csize()
//@fn reset
    ensures *final(self) == ChimpEncoder::start()
//@enditem
impl Coder for ChimpEncoder {
    closed spec fn start() -> Self { ChimpEncoder { stored_leading_zeros: u32::MAX, stored_val: 0, first: true, size: 0 } }
    closed spec fn code(&self, v: u64) -> Seq<bool> { c_code(*self, v) }
    closed spec fn after(&self, v: u64) -> Self { c_after(*self, v) }
}
//@item ebi/src/compressor/chimp.rs :: impl XorEncoder for ChimpEncoder
//@rewritere mut w: W => w: &mut W
//@rewritere &mut w\b => w
//@rewritere f64::NAN => fnan()
    closed spec fn einv(&self) -> bool { true }
    closed spec fn load(&self) -> int { self.size as int }
    open spec fn grow() -> int { 77 }
    open spec fn exact() -> bool { true }
//@fn compress_float
//@start
    proof { facts(*self, bits); }
//@fn close
//@start
    proof { facts(*self, marker()); }
//@fn simulate_close
//@start
    proof { facts(*self, marker()); }
//@enditem
// ---- decoder
//@item ebi/src/decoder/chunk_reader/chimp.rs :: struct ChimpDecoder
//@enditem
impl ChimpDecoder {
    /// flag, window and end of the code at p
    pub closed spec fn flag(&self, d: Seq<u8>, p: int) -> u64 { word(d, p, 2) }
    pub closed spec fn lz(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 2 || self.flag(d, p) == 0 { self.stored_leading_zeros as int } else { unthree(word(d, p + 2, 3)) } }
    pub closed spec fn sig(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 1 { word(d, p + 5, 6) as int } else { 64 - self.lz(d, p) } }
    pub closed spec fn tz(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 1 { 64 - self.lz(d, p) - self.sig(d, p) } else { 0 } }
    pub closed spec fn digits(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 2 { p + 2 } else if self.flag(d, p) == 3 { p + 5 } else { p + 11 } }
    pub closed spec fn n_can(&self, d: Seq<u8>, p: int) -> bool {
        room(d, p, 2) && self.flag(d, p) < 4 && (self.flag(d, p) != 0 ==> room(d, p, self.digits(d, p) - p) && (self.flag(d, p) != 2 ==> word(d, p + 2, 3) < 8)
            && (self.flag(d, p) == 1 ==> word(d, p + 5, 6) < 64) && 0 <= self.lz(d, p) <= 64 && 0 < self.sig(d, p) <= 64 && 0 <= self.tz(d, p) < 64 && room(d, self.digits(d, p), self.sig(d, p)))
    }
    pub closed spec fn n_val(&self, d: Seq<u8>, p: int) -> u64 { if self.flag(d, p) == 0 { self.stored_val } else if self.flag(d, p) == 1 { self.stored_val ^ (word(d, self.digits(d, p), self.sig(d, p)) << self.tz(d, p) as u32) } else { self.stored_val ^ word(d, self.digits(d, p), self.sig(d, p)) } }
    pub closed spec fn n_stop(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 0 { p + 2 } else { self.digits(d, p) + self.sig(d, p) } }
    pub closed spec fn n_then(&self, d: Seq<u8>, p: int) -> Self {
        ChimpDecoder { stored_val: self.n_val(d, p), stored_leading_zeros: self.lz(d, p) as u32, stored_trailing_zeros: if self.flag(d, p) == 1 { self.tz(d, p) as u32 } else { self.stored_trailing_zeros }, first: self.first, end_of_stream: self.n_val(d, p) == marker() || self.end_of_stream }
    }
    pub closed spec fn raw(&self, d: Seq<u8>, p: int) -> u64 { if self.first { word(d, p, 64) } else { self.n_val(d, p) } }
    pub closed spec fn raw_then(&self, d: Seq<u8>, p: int) -> Self { if self.first { ChimpDecoder { stored_val: word(d, p, 64), first: false, end_of_stream: word(d, p, 64) == marker(), ..*self } } else { self.n_then(d, p) } }
}
//@item ebi/src/decoder/chunk_reader/chimp.rs :: impl ChimpDecoder
//@skip get_values
//@rewritere mut r: R => r: &mut R
//@fn new ret=r
    ensures r == ChimpDecoder::dstart()
//@fn read_value ret=res
    requires (*old(r)).rinv(), old(self).can((*old(r)).data(), (*old(r)).pos())
    ensures (*final(r)).rinv(), (*final(r)).data() == (*old(r)).data(), res is Ok, (*final(r)).pos() == old(self).stop((*old(r)).data(), (*old(r)).pos()), *final(self) == old(self).then((*old(r)).data(), (*old(r)).pos()),
        match old(self).val((*old(r)).data(), (*old(r)).pos()) { Some(b) => res->Ok_0 == Some(of_bits(b)), None => res->Ok_0 is None }
//@fn next_value ret=res
    requires (*old(r)).rinv(), old(self).n_can((*old(r)).data(), (*old(r)).pos())
    ensures (*final(r)).rinv(), (*final(r)).data() == (*old(r)).data(), res is Ok, (*final(r)).pos() == old(self).n_stop((*old(r)).data(), (*old(r)).pos()), *final(self) == old(self).n_then((*old(r)).data(), (*old(r)).pos())
//@fn reset
    ensures *final(self) == ChimpDecoder::dstart()
//@enditem
impl Taker for ChimpDecoder {
    closed spec fn dstart() -> Self { ChimpDecoder { stored_leading_zeros: u32::MAX, stored_trailing_zeros: 0, stored_val: 0, first: true, end_of_stream: false } }
    closed spec fn can(&self, d: Seq<u8>, p: int) -> bool { self.end_of_stream || if self.first { room(d, p, 64) } else { self.n_can(d, p) } }
    closed spec fn val(&self, d: Seq<u8>, p: int) -> Option<u64> { if self.end_of_stream || self.raw(d, p) == marker() { None } else { Some(self.raw(d, p)) } }
    closed spec fn stop(&self, d: Seq<u8>, p: int) -> int { if self.end_of_stream { p } else if self.first { p + 64 } else { self.n_stop(d, p) } }
    closed spec fn then(&self, d: Seq<u8>, p: int) -> Self { if self.end_of_stream { *self } else { self.raw_then(d, p) } }
}
//@item ebi/src/decoder/chunk_reader/chimp.rs :: impl XorDecoder for ChimpDecoder
//@rewritere r: R => r: &mut R
    // Default::default() is Self::new()
    fn initial() -> (r: Self) { Self::new() }
//@enditem
pub struct Chimp;
impl Pair<ChimpEncoder, ChimpDecoder> for Chimp {
    /// same last value; the window of the encoder, where it has one, is the decoder's
    closed spec fn sync(e: ChimpEncoder, d: ChimpDecoder) -> bool {
        !d.end_of_stream && e.first == d.first && (!e.first ==> e.stored_val == d.stored_val) && (e.stored_leading_zeros <= 24 ==> e.stored_leading_zeros == d.stored_leading_zeros)
    }
    open spec fn takes(v: u64) -> bool { v != marker() }
    proof fn begin() { }
    proof fn step(e: ChimpEncoder, dec: ChimpDecoder, d: Seq<u8>, p: int, v: u64) { understood(e, dec, d, p, v); }
    proof fn finish(e: ChimpEncoder, dec: ChimpDecoder, d: Seq<u8>, p: int) { understood(e, dec, d, p, marker()); }
}
/// the decoder reads what the encoder wrote
proof fn understood(e: ChimpEncoder, dec: ChimpDecoder, d: Seq<u8>, p: int, v: u64)
    requires Chimp::sync(e, dec), stands(d, p, c_code(e, v))
    ensures dec.can(d, p), dec.raw(d, p) == v, dec.stop(d, p) == p + c_code(e, v).len(), v != marker() ==> Chimp::sync(c_after(e, v), dec.then(d, p))
{
    facts(e, v);
    if e.first { stands_word(d, p, v, 64); }
    else {
        let q = e.stored_val;
        let x = q ^ v;
        assert(q ^ x == v) by (bit_vector) requires x == q ^ v;
        assert(1u64 << 2 == 4 && 1u64 << 3 == 8 && 1u64 << 6 == 64) by (bit_vector);
        fits(0, 2); fits(1, 2); fits(2, 2); fits(3, 2);
        if x == 0 { stands_word(d, p, 0, 2); assert(q ^ 0 == q) by (bit_vector); }
        else {
            let (l, t) = (lead(x), trail(x));
            fits(rep(x), 3);
            window(x, l, t); window(x, l, 0);
            assert(x >> 0u32 == x) by (bit_vector);
            let b3 = u64_bits(rep(x), 3);
            if t > 6 {
                let n = 64 - l - t;
                fits(n as u64, 6);
                let (b6, b) = (u64_bits(n as u64, 6), u64_bits(x >> t, n as nat));
                split(d, p, u64_bits(1, 2), b3 + (b6 + b)); split(d, p + 2, b3, b6 + b); split(d, p + 5, b6, b);
                stands_word(d, p, 1, 2); stands_word(d, p + 2, rep(x), 3); stands_word(d, p + 5, n as u64, 6); stands_word(d, p + 11, x >> t, n);
            } else if l == e.stored_leading_zeros {
                split(d, p, u64_bits(2, 2), u64_bits(x, (64 - l) as nat));
                stands_word(d, p, 2, 2); stands_word(d, p + 2, x, 64 - l);
            } else {
                split(d, p, u64_bits(3, 2), b3 + u64_bits(x, (64 - l) as nat)); split(d, p + 2, b3, u64_bits(x, (64 - l) as nat));
                stands_word(d, p, 3, 2); stands_word(d, p + 2, rep(x), 3); stands_word(d, p + 5, x, 64 - l);
            }
        }
    }
}
/// P10: what Chimp compressed comes back, in order, then the end
pub proof fn chimp_round_trip(s: Seq<u64>, d: Seq<u8>)
    requires is_padded(image::<ChimpEncoder>(s), d), no_marker(s)
    ensures good(ChimpDecoder::dstart(), d, 0), series(ChimpDecoder::dstart(), d, 0) == s
{ round_trip::<ChimpEncoder, ChimpDecoder, Chimp>(s, d); }
} // mod ch
