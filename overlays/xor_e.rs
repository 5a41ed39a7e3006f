//@include lib/prelude.rs
//@include lib/bits.rs
//@include lib/ext.rs
//@include lib/bitwrite_trait.rs
//@include lib/bitread.rs
//@include lib/xor.rs
//@include lib/chimp.rs
pub mod ex {
use super::*;
use super::bits::*;
use super::ext::*;
use super::tr::*;
use super::rd::*;
use super::xs::*;
use super::ch::{round, three, unthree, lead, trail, rep, flags};
use super::decoder::DecoderError;
use vstd::std_specs::bits::*;
broadcast use {super::xs::word_read, super::bits_and_back, super::back_and_bits, vstd::std_specs::bits::axiom_u64_leading_zeros, vstd::std_specs::bits::axiom_u64_trailing_zeros};
//@item ebi/src/compressor/elf.rs :: struct ElfXorEncoder
//@enditem
impl ElfXorEncoder {
    pub closed spec fn efirst(&self) -> bool { self.first }
    pub closed spec fn esize(&self) -> int { self.size as int }
    pub closed spec fn ok(&self) -> bool { self.stored_leading_zeros > 24 || self.stored_trailing_zeros <= 63 && self.stored_leading_zeros + self.stored_trailing_zeros <= 63 }
    pub closed spec fn reuse(&self, x: u64) -> bool { lead(x) == self.stored_leading_zeros && trail(x) >= self.stored_trailing_zeros }
    /// the digits of a difference between the two outermost ones (window l, t), without the last
    pub closed spec fn first_code(v: u64) -> Seq<bool> { let t = u64_trailing_zeros(v); if t < 64 { u64_bits(t as u64, 7) + u64_bits((v >> (t as u32)) >> 1u32, (63 - t) as nat) } else { u64_bits(64, 7) } }
    pub closed spec fn next_code(&self, v: u64) -> Seq<bool> {
        let x = self.stored_val ^ v;
        let n = 64 - lead(x) - trail(x);
        if x == 0 { u64_bits(1, 2) }
        else if self.reuse(x) { u64_bits(0, 2) + u64_bits(x >> self.stored_trailing_zeros, (64 - self.stored_leading_zeros - self.stored_trailing_zeros) as nat) }
        else if n <= 16 { u64_bits(2, 2) + (u64_bits(head4(rep(x), n as u64), 7) + u64_bits((x >> trail(x)) >> 1u32, (n - 1) as nat)) }
        else { u64_bits(3, 2) + (u64_bits(head6(rep(x), n as u64), 9) + u64_bits((x >> trail(x)) >> 1u32, (n - 1) as nat)) }
    }
    pub closed spec fn ecode(&self, v: u64) -> Seq<bool> { if self.first { Self::first_code(v) } else { self.next_code(v) } }
    pub closed spec fn eafter(&self, v: u64) -> Self {
        let x = self.stored_val ^ v;
        let size = (self.size + self.ecode(v).len()) as usize;
        if self.first || x == 0 || self.reuse(x) { ElfXorEncoder { stored_val: v, first: false, size: size, ..*self } } else { ElfXorEncoder { stored_val: v, first: false, stored_leading_zeros: lead(x), stored_trailing_zeros: trail(x), size: size } }
    }
}
pub open spec fn head4(r: u64, n: u64) -> u64 { (r << 4u32) | (n & 0xf) }
pub open spec fn head6(r: u64, n: u64) -> u64 { (r << 6u32) | (n & 0x3f) }
/// flag and head written as one word, or one after the other
pub proof fn joined(r: u32, n: u32)
    requires r < 8, n <= 64
    ensures u64_bits(((((0x2u32 << 3) | r) << 4) | (n & 0xf)) as u64, 9) == u64_bits(2, 2) + u64_bits(head4(r as u64, n as u64), 7),
        u64_bits(((((0x3u32 << 3) | r) << 6) | (n & 0x3f)) as u64, 11) == u64_bits(3, 2) + u64_bits(head6(r as u64, n as u64), 9)
{
    flags();
    let (a, b) = (((((0x2u32 << 3) | r) << 4) | (n & 0xf)) as u64, head4(r as u64, n as u64));
    assert forall|i: int| 0 <= i < 9 implies #[trigger] u64_bits(a, 9)[i] == (u64_bits(2, 2) + u64_bits(b, 7))[i] by {
        let s = (8 - i) as u32;
        assert((a >> s) & 1 == (if s < 7 { (b >> s) & 1 } else { (2u64 >> (s - 7) as u32) & 1 })) by (bit_vector) requires s < 9, r < 8, a == ((((0x2u32 << 3) | r) << 4) | (n & 0xf)) as u64, b == ((r as u64) << 4u32) | ((n as u64) & 0xf);
        if i < 2 { assert(u64_bits(2, 2)[i] == b64(2, 1 - i)); }
    }
    assert(u64_bits(a, 9) =~= u64_bits(2, 2) + u64_bits(b, 7));
    let (a, b) = (((((0x3u32 << 3) | r) << 6) | (n & 0x3f)) as u64, head6(r as u64, n as u64));
    assert forall|i: int| 0 <= i < 11 implies #[trigger] u64_bits(a, 11)[i] == (u64_bits(3, 2) + u64_bits(b, 9))[i] by {
        let s = (10 - i) as u32;
        assert((a >> s) & 1 == (if s < 9 { (b >> s) & 1 } else { (3u64 >> (s - 9) as u32) & 1 })) by (bit_vector) requires s < 11, r < 8, a == ((((0x3u32 << 3) | r) << 6) | (n & 0x3f)) as u64, b == ((r as u64) << 6u32) | ((n as u64) & 0x3f);
        if i < 2 { assert(u64_bits(3, 2)[i] == b64(3, 1 - i)); }
    }
    assert(u64_bits(a, 11) =~= u64_bits(3, 2) + u64_bits(b, 9));
}
/// two zero bits in front
pub proof fn padded(y: u64, n: int)
    requires 0 <= n <= 62, low(y, n) == y
    ensures u64_bits(y, (n + 2) as nat) == u64_bits(0, 2) + u64_bits(y, n as nat)
{
    flags();
    assert forall|i: int| 0 <= i < n + 2 implies #[trigger] u64_bits(y, (n + 2) as nat)[i] == (u64_bits(0, 2) + u64_bits(y, n as nat))[i] by { low_bits(y, n, n + 1 - i); }
    assert(u64_bits(y, (n + 2) as nat) =~= u64_bits(0, 2) + u64_bits(y, n as nat));
}
/// digits without the last, which is always one
pub proof fn odd(x: u64, l: u32)
    requires x != 0, l <= u64_leading_zeros(x)
    ensures ({ let t = trail(x); let y = x >> t; l + t <= 63 && t <= 63 && low(y >> 1u32, 63 - l - t) == y >> 1u32 && (((y >> 1u32) << 1u32) | 1) == y && y << t == x })
{
    let t = trail(x);
    window(x, l, t);
    let y = x >> t;
    assert(y & 1 == 1) by { let u = u64_trailing_zeros(x) as u64; assert((x >> u) & 1 == 1); assert(x >> u == x >> t) by (bit_vector) requires u == t as u64, t < 64; }
    assert((((y >> 1u32) << 1u32) | 1) == y) by (bit_vector) requires y & 1 == 1;
    let n = 64 - l - t;
    let z = y >> 1u32;
    if n < 64 {
        let (a, b) = (n as u32, (n - 1) as u32);
        let (ka, kb) = (1u64 << a, 1u64 << b);
        assert(ka >= 1 && kb >= 1) by (bit_vector) requires a < 64, b < 64, ka == 1u64 << a, kb == 1u64 << b;
        let (ma, mb) = ((ka - 1) as u64, (kb - 1) as u64);
        assert(z & mb == z) by (bit_vector) requires a < 64, b == a - 1, ka == 1u64 << a, kb == 1u64 << b, ma == sub(ka, 1), mb == sub(kb, 1), y & ma == y, z == y >> 1u32;
    } else {
        assert(1u64 << 63u32 == 0x8000_0000_0000_0000) by (bit_vector);
        let mb = (0x8000_0000_0000_0000u64 - 1) as u64;
        assert(z & mb == z) by (bit_vector) requires mb == 0x7fff_ffff_ffff_ffffu64, z == y >> 1u32;
    }
}
proof fn facts(e: ElfXorEncoder, v: u64)
    requires e.ok()
    ensures e.eafter(v).ok(), e.ecode(v).len() <= 77, u64_trailing_zeros(v) <= 64, u64_trailing_zeros(v) == 64 ==> v == 0,
        ({ let x = e.stored_val ^ v; x != 0 ==> lead(x) + trail(x) <= 63 && trail(x) <= 63 && lead(x) <= 24 && u64_leading_zeros(x) < 64 && rep(x) < 8
            && (e.reuse(x) ==> e.stored_leading_zeros + e.stored_trailing_zeros <= 63 && e.stored_trailing_zeros <= 63 && low(x >> e.stored_trailing_zeros, 64 - e.stored_leading_zeros - e.stored_trailing_zeros) == x >> e.stored_trailing_zeros
                && (e.stored_leading_zeros + e.stored_trailing_zeros >= 2 ==> u64_bits(x >> e.stored_trailing_zeros, (66 - e.stored_leading_zeros - e.stored_trailing_zeros) as nat) == u64_bits(0, 2) + u64_bits(x >> e.stored_trailing_zeros, (64 - e.stored_leading_zeros - e.stored_trailing_zeros) as nat))) })
{
    let x = e.stored_val ^ v;
    if x != 0 {
        window(x, lead(x), trail(x));
        if e.reuse(x) { let (l, t) = (e.stored_leading_zeros, e.stored_trailing_zeros); window(x, l, t); if l + t >= 2 { padded(x >> t, 64 - l - t); } }
    }
    if v != 0 { odd(v, 0); }
}
//@item ebi/src/compressor/elf.rs :: impl ElfXorEncoder
//@rewritere f64::NAN\.to_bits\(\) => 0x7ff8000000000000
//@rewritere mut w: W => w: &mut W
//@fn new ret=r
    ensures r == ElfXorEncoder::start(), r.ok()
//@fn write_first ret=r
    requires old(w).inv(), old(self).efirst(), old(self).ok(), old(self).esize() < 0x4000_0000_0000_0000
    ensures final(w).inv(), final(w).bits() =~= old(w).bits() + old(self).ecode(bits), r == old(self).ecode(bits).len(), *final(self) == old(self).eafter(bits)
//@start
    proof { facts(*self, bits); }
//@fn compress_float_inner ret=r
    requires old(w).inv(), !old(self).efirst(), old(self).ok(), old(self).esize() < 0x4000_0000_0000_0000
    ensures final(w).inv(), final(w).bits() =~= old(w).bits() + old(self).ecode(bits), r == old(self).ecode(bits).len(), *final(self) == old(self).eafter(bits)
//@start
    proof { facts(*self, bits); let q = self.stored_val; let x = q ^ bits; assert(q ^ bits == 0 ==> q == bits) by (bit_vector); if x != 0 { joined(rep(x) as u32, (64 - lead(x) - trail(x)) as u32); } }
//@fn simulate_compress_float ret=r
    requires self.ok()
    ensures r == self.ecode(bits).len()
//@start
    proof { facts(*self, bits); }
//@enditem
impl Coder for ElfXorEncoder {
    closed spec fn start() -> Self { ElfXorEncoder { stored_leading_zeros: u32::MAX, stored_trailing_zeros: u32::MAX, stored_val: 0, first: true, size: 0 } }
    closed spec fn code(&self, v: u64) -> Seq<bool> { self.ecode(v) }
    closed spec fn after(&self, v: u64) -> Self { self.eafter(v) }
}
//@item ebi/src/compressor/elf.rs :: impl XorEncoder for ElfXorEncoder
//@rewritere (?:mut )?w: W => w: &mut W
//@rewritere &mut w\b => w
    closed spec fn einv(&self) -> bool { self.ok() }
    closed spec fn load(&self) -> int { self.size as int }
    open spec fn grow() -> int { 77 }
    open spec fn exact() -> bool { true }
//@fn compress_float
//@start
    proof { facts(*self, bits); }
//@fn close
//@start
    proof { facts(*self, marker()); }
//@fn simulate_close
//@start
    proof { facts(*self, marker()); }
//@enditem
// ---- decoder
//@item ebi/src/decoder/chunk_reader/elf.rs :: struct ElfXorDecoder
//@enditem
impl ElfXorDecoder {
    pub closed spec fn flag(&self, d: Seq<u8>, p: int) -> u64 { word(d, p, 2) }
    pub closed spec fn fresh_window(&self, d: Seq<u8>, p: int) -> bool { self.flag(d, p) == 2 || self.flag(d, p) == 3 }
    pub closed spec fn head(&self, d: Seq<u8>, p: int) -> u32 { word(d, p + 2, if self.flag(d, p) == 2 { 7 } else { 9 }) as u32 }
    pub closed spec fn lz(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 2 { unthree((self.head(d, p) >> 4) as u64) } else if self.flag(d, p) == 3 { unthree((self.head(d, p) >> 6) as u64) } else { self.stored_leading_zeros as int } }
    pub closed spec fn center(&self, d: Seq<u8>, p: int) -> int {
        if self.flag(d, p) == 2 { let c = self.head(d, p) & 0xf; if c == 0 { 16 } else { c as int } }
        else if self.flag(d, p) == 3 { let c = self.head(d, p) & 0x3f; if c == 0 { 64 } else { c as int } }
        else { 64 - self.stored_leading_zeros - self.stored_trailing_zeros }
    }
    pub closed spec fn tz(&self, d: Seq<u8>, p: int) -> int { 64 - self.lz(d, p) - self.center(d, p) }
    pub closed spec fn digits(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 2 { p + 9 } else if self.flag(d, p) == 3 { p + 11 } else { p + 2 } }
    pub closed spec fn len(&self, d: Seq<u8>, p: int) -> int { if self.fresh_window(d, p) { self.center(d, p) - 1 } else { self.center(d, p) } }
    pub closed spec fn n_can(&self, d: Seq<u8>, p: int) -> bool {
        room(d, p, 2) && self.flag(d, p) < 4 && (self.flag(d, p) != 1 ==> (self.flag(d, p) == 2 ==> room(d, p, 9) && word(d, p + 2, 7) < 128) && (self.flag(d, p) == 3 ==> room(d, p, 11) && word(d, p + 2, 9) < 512)
            && 0 <= self.lz(d, p) <= 63 && 0 <= self.tz(d, p) <= 63 && 1 <= self.center(d, p) <= 64 && room(d, self.digits(d, p), self.len(d, p)))
    }
    pub closed spec fn n_val(&self, d: Seq<u8>, p: int) -> u64 {
        let w = word(d, self.digits(d, p), self.len(d, p));
        if self.flag(d, p) == 1 { self.stored_val } else if self.fresh_window(d, p) { (((w << 1u32) | 1) << self.tz(d, p) as u32) ^ self.stored_val } else { (w << self.tz(d, p) as u32) ^ self.stored_val }
    }
    pub closed spec fn n_stop(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 1 { p + 2 } else { self.digits(d, p) + self.len(d, p) } }
    pub closed spec fn n_end(&self, d: Seq<u8>, p: int) -> bool { self.flag(d, p) != 1 && self.n_val(d, p) == marker() }
    pub closed spec fn n_then(&self, d: Seq<u8>, p: int) -> Self {
        ElfXorDecoder { stored_val: if self.n_end(d, p) { self.stored_val } else { self.n_val(d, p) }, stored_leading_zeros: if self.fresh_window(d, p) { self.lz(d, p) as u32 } else { self.stored_leading_zeros },
            stored_trailing_zeros: if self.fresh_window(d, p) { self.tz(d, p) as u32 } else { self.stored_trailing_zeros }, first: self.first, end_of_stream: self.n_end(d, p) || self.end_of_stream }
    }
    pub closed spec fn f_tz(&self, d: Seq<u8>, p: int) -> u64 { word(d, p, 7) }
    pub closed spec fn f_can(&self, d: Seq<u8>, p: int) -> bool { room(d, p, 7) && (self.f_tz(d, p) < 64 ==> room(d, p + 7, 63 - self.f_tz(d, p))) && self.f_tz(d, p) < 128 }
    pub closed spec fn f_val(&self, d: Seq<u8>, p: int) -> u64 { if self.f_tz(d, p) < 64 { ((word(d, p + 7, 63 - self.f_tz(d, p)) << 1u32) | 1) << (self.f_tz(d, p) as u32) } else { 0 } }
    pub closed spec fn f_stop(&self, d: Seq<u8>, p: int) -> int { if self.f_tz(d, p) < 64 { p + 7 + 63 - self.f_tz(d, p) } else { p + 7 } }
    pub closed spec fn f_then(&self, d: Seq<u8>, p: int) -> Self { ElfXorDecoder { stored_val: self.f_val(d, p), first: false, end_of_stream: self.f_val(d, p) == marker() || self.end_of_stream, ..*self } }
}
//@item ebi/src/decoder/chunk_reader/elf.rs :: impl ElfXorDecoder
//@rewritere f64::NAN\.to_bits\(\) => 0x7ff8000000000000
//@fn new ret=r
    ensures r == ElfXorDecoder::dstart()
//@fn read_first ret=res
    requires (*old(r)).rinv(), old(self).f_can((*old(r)).data(), (*old(r)).pos())
    ensures (*final(r)).rinv(), (*final(r)).data() == (*old(r)).data(), res is Ok, (*final(r)).pos() == old(self).f_stop((*old(r)).data(), (*old(r)).pos()), *final(self) == old(self).f_then((*old(r)).data(), (*old(r)).pos()),
        ({ let b = old(self).f_val((*old(r)).data(), (*old(r)).pos()); if b == marker() { res->Ok_0 is None } else { res->Ok_0 == Some(of_bits(b)) } })
//@fn decompress_float_inner ret=res
    requires (*old(r)).rinv(), old(self).n_can((*old(r)).data(), (*old(r)).pos())
    ensures (*final(r)).rinv(), (*final(r)).data() == (*old(r)).data(), res is Ok, (*final(r)).pos() == old(self).n_stop((*old(r)).data(), (*old(r)).pos()), *final(self) == old(self).n_then((*old(r)).data(), (*old(r)).pos()),
        if old(self).n_end((*old(r)).data(), (*old(r)).pos()) { res->Ok_0 is None } else { res->Ok_0 == Some(of_bits(old(self).n_val((*old(r)).data(), (*old(r)).pos()))) }
//@start
    let ghost d0 = (*r).data();
    let ghost p0 = (*r).pos();
    proof { no_bits(d0, self.digits(d0, p0)); head_small(self.head(d0, p0)); }
//@enditem
pub proof fn no_bits(d: Seq<u8>, p: int) ensures word(d, p, 0) == 0, (0u64 << 1u32) | 1 == 1
{
    broadcast use super::bits::bit_lemmas;
    assert(is_bits_value(d, p, 0, 0)) by { assert forall|i: int| 0 <= i < 64 implies #[trigger] b64(0, i) == (i < 0 && bit_at(d, p + 0 - 1 - i)) by { } }
    assert((0u64 << 1u32) | 1 == 1) by (bit_vector);
}
pub proof fn head_small(h: u32) ensures h < 128 ==> h >> 4 < 8, h < 512 ==> h >> 6 < 8, h & 0xf < 16, h & 0x3f < 64
{ assert((h < 128 ==> h >> 4 < 8) && (h < 512 ==> h >> 6 < 8) && h & 0xf < 16 && h & 0x3f < 64) by (bit_vector); }
impl Taker for ElfXorDecoder {
    closed spec fn dstart() -> Self { ElfXorDecoder { stored_val: 0, stored_leading_zeros: u32::MAX, stored_trailing_zeros: u32::MAX, first: true, end_of_stream: false } }
    closed spec fn can(&self, d: Seq<u8>, p: int) -> bool { self.end_of_stream || if self.first { self.f_can(d, p) } else { self.n_can(d, p) } }
    closed spec fn val(&self, d: Seq<u8>, p: int) -> Option<u64> { if self.end_of_stream || (if self.first { self.f_val(d, p) == marker() } else { self.n_end(d, p) }) { None } else { Some(if self.first { self.f_val(d, p) } else { self.n_val(d, p) }) } }
    closed spec fn stop(&self, d: Seq<u8>, p: int) -> int { if self.end_of_stream { p } else if self.first { self.f_stop(d, p) } else { self.n_stop(d, p) } }
    closed spec fn then(&self, d: Seq<u8>, p: int) -> Self { if self.end_of_stream { *self } else if self.first { self.f_then(d, p) } else { self.n_then(d, p) } }
}
//@item ebi/src/decoder/chunk_reader/elf.rs :: impl XorDecoder for ElfXorDecoder
//@rewritere mut r: R => r: &mut R
//@rewritere &mut r\b => r
    // Default::default() is Self::new()
    fn initial() -> (r: Self) { Self::new() }
//@enditem
pub struct ElfXor;
impl Pair<ElfXorEncoder, ElfXorDecoder> for ElfXor {
    /// same last value; the window of the encoder, where it has one, is the decoder's
    closed spec fn sync(e: ElfXorEncoder, d: ElfXorDecoder) -> bool {
        e.ok() && !d.end_of_stream && e.first == d.first && (!e.first ==> e.stored_val == d.stored_val && e.stored_val != marker()) && (e.stored_leading_zeros <= 24 ==> e.stored_leading_zeros == d.stored_leading_zeros && e.stored_trailing_zeros == d.stored_trailing_zeros)
    }
    open spec fn takes(v: u64) -> bool { v != marker() }
    proof fn begin() { }
    proof fn step(e: ElfXorEncoder, dec: ElfXorDecoder, d: Seq<u8>, p: int, v: u64) { understood(e, dec, d, p, v); }
    proof fn finish(e: ElfXorEncoder, dec: ElfXorDecoder, d: Seq<u8>, p: int) { understood(e, dec, d, p, marker()); if !e.first { assert(e.stored_val ^ marker() != 0) by { let q = e.stored_val; assert(q ^ 0x7ff8000000000000u64 != 0) by (bit_vector) requires q != 0x7ff8000000000000u64; } } }
}
/// the decoder reads what the encoder wrote
proof fn understood(e: ElfXorEncoder, dec: ElfXorDecoder, d: Seq<u8>, p: int, v: u64)
    requires ElfXor::sync(e, dec), stands(d, p, e.ecode(v))
    ensures dec.can(d, p), (if e.first { dec.f_val(d, p) == v } else { dec.n_val(d, p) == v && ((e.stored_val ^ v) != 0 ==> dec.flag(d, p) != 1) }), dec.stop(d, p) == p + e.ecode(v).len(), v != marker() ==> ElfXor::sync(e.eafter(v), dec.then(d, p))
{
    facts(e, v);
    assert(1u64 << 2 == 4 && 1u64 << 7 == 128 && 1u64 << 9 == 512) by (bit_vector);
    if e.first {
        if v != 0 {
            odd(v, 0);
            let t = trail(v);
            let z = (v >> t) >> 1u32;
            fits(t as u64, 7);
            split(d, p, u64_bits(t as u64, 7), u64_bits(z, (63 - t) as nat));
            stands_word(d, p, t as u64, 7); stands_word(d, p + 7, z, 63 - t);
        } else { fits(64, 7); stands_word(d, p, 64, 7); }
    } else {
        let q = e.stored_val;
        let x = q ^ v;
        assert(x ^ q == v) by (bit_vector) requires x == q ^ v;
        fits(0, 2); fits(1, 2); fits(2, 2); fits(3, 2);
        if x == 0 { stands_word(d, p, 1, 2); assert(v == q) by (bit_vector) requires 0 == q ^ v; }
        else if e.reuse(x) {
            let (l, t) = (e.stored_leading_zeros, e.stored_trailing_zeros);
            window(x, l, t);
            split(d, p, u64_bits(0, 2), u64_bits(x >> t, (64 - l - t) as nat));
            stands_word(d, p, 0, 2); stands_word(d, p + 2, x >> t, 64 - l - t);
        } else {
            let (l, t) = (lead(x), trail(x));
            odd(x, l);
            let n = 64 - l - t;
            let z = (x >> t) >> 1u32;
            let b = u64_bits(z, (n - 1) as nat);
            let (r, m) = (rep(x), n as u64);
            if n <= 16 {
                let h = head4(r, m);
                assert(h < 128 && (h as u32) >> 4 == r as u32 && (h as u32) & 0xf == (if m == 16 { 0 } else { m as u32 })) by (bit_vector) requires r < 8, 1 <= m <= 16, h == (r << 4u32) | (m & 0xf);
                fits(h, 7);
                split(d, p, u64_bits(2, 2), u64_bits(h, 7) + b); split(d, p + 2, u64_bits(h, 7), b);
                stands_word(d, p, 2, 2); stands_word(d, p + 2, h, 7); stands_word(d, p + 9, z, n - 1);
            } else {
                let h = head6(r, m);
                assert(h < 512 && (h as u32) >> 6 == r as u32 && (h as u32) & 0x3f == (if m == 64 { 0 } else { m as u32 })) by (bit_vector) requires r < 8, 1 <= m <= 64, h == (r << 6u32) | (m & 0x3f);
                fits(h, 9);
                split(d, p, u64_bits(3, 2), u64_bits(h, 9) + b); split(d, p + 2, u64_bits(h, 9), b);
                stands_word(d, p, 3, 2); stands_word(d, p + 2, h, 9); stands_word(d, p + 11, z, n - 1);
            }
        }
    }
}
} // mod ex
// The decimal analysis and the restoring of erased digits: functions of their arguments, nothing more is assumed of them.
pub uninterp spec fn analysis(v: f64, last: i32) -> (u32, i32);
pub uninterp spec fn f_alpha(a: u32) -> u32;
pub uninterp spec fn restored(v: f64, beta: i32) -> f64;
pub mod compression_common { pub mod elf {
    use super::super::*;
    #[verifier::external_body]
    pub fn get_alpha_and_beta_star(v: f64, last_beta_star: i32) -> (r: (u32, i32)) ensures r == analysis(v, last_beta_star) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_f_alpha(alpha: u32) -> (r: u32) ensures r == f_alpha(alpha) { unimplemented!() }
    #[verifier::external_body]
    pub fn restore(v_prime: f64, beta_star: i32) -> (r: f64) ensures r == restored(v_prime, beta_star) { unimplemented!() }
} }
// IEEE comparisons in terms of bit patterns (assumed)
pub open spec fn is_zero(b: u64) -> bool { b & 0x7fff_ffff_ffff_ffff == 0 }
pub open spec fn is_inf(b: u64) -> bool { b & 0x7fff_ffff_ffff_ffff == 0x7ff0_0000_0000_0000 }
pub open spec fn is_nan(b: u64) -> bool { b & 0x7fff_ffff_ffff_ffff > 0x7ff0_0000_0000_0000 }
#[verifier::external_body]
pub fn fzero(v: f64) -> (r: bool) ensures r == is_zero(bits_of(v)) { v == 0.0 }
#[verifier::external_body]
pub fn finf(v: f64) -> (r: bool) ensures r == is_inf(bits_of(v)) { v.is_infinite() }
#[verifier::external_body]
pub fn fisnan(v: f64) -> (r: bool) ensures r == is_nan(bits_of(v)) { v.is_nan() }
#[verifier::external_body]
pub fn feq(a: f64, b: f64) -> (r: bool) ensures !is_zero(bits_of(b)) && !is_nan(bits_of(b)) ==> r == (bits_of(a) == bits_of(b)) { a == b }
// transmute between i32 and u32 is the two's complement cast (assumed)
pub uninterp spec fn tm<S, D>(s: S) -> D;
pub broadcast axiom fn tm_u32_i32(s: u32) ensures #[trigger] tm::<u32, i32>(s) == s as i32;
pub broadcast axiom fn tm_i32_u32(s: i32) ensures #[trigger] tm::<i32, u32>(s) == s as u32;
pub assume_specification<Src, Dst> [ std::mem::transmute::<Src, Dst> ] (x: Src) -> (r: Dst) ensures r == tm::<Src, Dst>(x);
pub mod ew {
use super::*;
use super::bits::*;
use super::ext::*;
use super::tr::*;
use super::rd::*;
use super::xs::*;
use super::ch::{ChimpEncoder, ChimpDecoder, Chimp, flags};
use super::ex::{ElfXorEncoder, ElfXorDecoder, ElfXor};
use super::compression_common::elf;
use super::decoder::DecoderError;
use std::mem;
broadcast use {super::xs::word_read, super::bits_and_back, super::back_and_bits, super::tm_u32_i32, super::tm_i32_u32};
/// a coder the wrapper is used on
pub trait BaseEncoder: XorEncoder { proof fn small() ensures 0 <= Self::grow() <= 80; }
impl BaseEncoder for ChimpEncoder { proof fn small() { } }
impl BaseEncoder for ElfXorEncoder { proof fn small() { } }
pub trait BasePair<E: XorEncoder, D: XorDecoder>: Pair<E, D> { proof fn all(v: u64) requires v != marker() ensures Self::takes(v); }
impl BasePair<ChimpEncoder, ChimpDecoder> for Chimp { proof fn all(v: u64) { } }
impl BasePair<ElfXorEncoder, ElfXorDecoder> for ElfXor { proof fn all(v: u64) { } }
/// which digits are erased: what is left, and the number of significant digits; none where they could not be restored
pub open spec fn plan(b: u64, last: i32) -> Option<(u64, i32)> {
    let (a, beta) = analysis(of_bits(b), last);
    let e = (b >> 52u32) & 0x7ff;
    let er = 52 - (f_alpha(a) + e - 1023);
    let mask = u64::MAX << (er as u32);
    if is_zero(b) || is_inf(b) || is_nan(b) || !(0 <= beta < 16) || e == 0 || !(4 < er <= 52) || !mask & b == 0 || bits_of(restored(of_bits(mask & b), beta)) != b { None } else { Some((mask & b, beta)) }
}
pub open spec fn kept(b: u64, last: i32) -> u64 { match plan(b, last) { Some((k, _)) => k, None => if is_nan(b) { marker() } else { b } } }
pub open spec fn lastly(b: u64, last: i32) -> i32 { match plan(b, last) { Some((_, beta)) => beta, None => last } }
pub open spec fn tag(b: u64, last: i32) -> Seq<bool> {
    match plan(b, last) { None => seq![true] + seq![false], Some((_, beta)) => if beta == last { seq![false] } else { seq![true] + (seq![true] + u64_bits(beta as u64, 4)) } }
}
//@item ebi/src/compressor/elf.rs :: struct ElfEncoderWrapper
//@rewritere T: XorEncoder => T: BaseEncoder
//@enditem
impl<T: BaseEncoder> ElfEncoderWrapper<T> {
    pub closed spec fn inner(&self) -> T { self.xor_encoder }
    pub closed spec fn wsize(&self) -> int { self.size as int }
    pub closed spec fn beta(&self) -> i32 { self.last_beta_star }
    pub closed spec fn wcode(&self, v: u64) -> Seq<bool> { tag(v, self.last_beta_star) + self.xor_encoder.code(kept(v, self.last_beta_star)) }
    pub closed spec fn wafter(&self, v: u64) -> Self { ElfEncoderWrapper { size: (self.size + tag(v, self.last_beta_star).len()) as usize, last_beta_star: lastly(v, self.last_beta_star), xor_encoder: self.xor_encoder.after(kept(v, self.last_beta_star)) } }
}
/// the tag of a new number of digits, as it is written
pub proof fn tag_word(beta: i32)
    requires 0 <= beta < 16
    ensures u64_bits((beta | 0x30) as u32 as u64, 6) == seq![true] + (seq![true] + u64_bits(beta as u64, 4))
{
    let (a, b) = ((beta | 0x30) as u32 as u64, beta as u64);
    assert forall|i: int| 0 <= i < 6 implies #[trigger] u64_bits(a, 6)[i] == (seq![true] + (seq![true] + u64_bits(b, 4)))[i] by {
        let s = (5 - i) as u32;
        assert((a >> s) & 1 == (if s < 4 { (b >> s) & 1 } else { 1 })) by (bit_vector) requires s < 6, 0 <= beta < 16, a == (beta | 0x30) as u32 as u64, b == beta as u64;
    }
    assert(u64_bits(a, 6) =~= seq![true] + (seq![true] + u64_bits(b, 4)));
}
/// what is left of a number that is not NaN is never the end marker
pub proof fn kept_is(b: u64, last: i32)
    ensures kept(b, last) == marker() ==> is_nan(b)
{
    if plan(b, last) is Some {
        let (a, beta) = analysis(of_bits(b), last);
        let e = (b >> 52u32) & 0x7ff;
        let er = 52 - (f_alpha(a) + e - 1023);
        let n = er as u32;
        let mask = u64::MAX << n;
        let k = mask & b;
        assert(k != 0x7ff8000000000000u64) by (bit_vector) requires n <= 52, k == (u64::MAX << n) & b, b & 0x7fff_ffff_ffff_ffff <= 0x7ff0_0000_0000_0000, b & 0x7fff_ffff_ffff_ffff != 0x7ff0_0000_0000_0000;
    } else if !is_nan(b) { assert(b != 0x7ff8000000000000u64) by (bit_vector) requires b & 0x7fff_ffff_ffff_ffff <= 0x7ff0_0000_0000_0000; }
}
pub proof fn nan_marker() ensures is_nan(marker()), kept(marker(), 0) == marker(), forall|last: i32| #[trigger] plan(marker(), last) is None
{ assert(0x7ff8000000000000u64 & 0x7fff_ffff_ffff_ffff > 0x7ff0_0000_0000_0000) by (bit_vector); }
//@item ebi/src/compressor/elf.rs :: impl<T: XorEncoder> ElfEncoderWrapper<T>
//@rewritere T: XorEncoder => T: BaseEncoder
//@skip new
//@rewritere mut w: W => w: &mut W
//@rewritere v == 0\.0 => fzero(v)
//@rewritere v\.is_infinite\(\) => finf(v)
//@rewritere v\.is_nan\(\) => fisnan(v)
//@rewritere f64::NAN\b => fnan()
//@rewritere \(0\.\.16\)\.contains\(&beta_star\) => (0 <= beta_star && beta_star < 16)
//@rewritere u64::MAX << erase_bits => u64::MAX << (erase_bits as u32)
//@rewritere elf::restore\((.*?), beta_star\) == v\b => feq(elf::restore(\1, beta_star), v)
//@fn add_value
    requires old(w).inv(), old(self).inner().einv(), 0 <= old(self).inner().load(), old(self).wsize() + old(self).inner().load() < 0x2000_0000_0000_0000
    ensures final(w).inv(), final(self).inner().einv(), final(w).bits() =~= old(w).bits() + old(self).wcode(bits_of(v)), *final(self) == old(self).wafter(bits_of(v)),
        old(self).wsize() <= final(self).wsize() <= old(self).wsize() + 6, 0 <= final(self).inner().load() <= old(self).inner().load() + T::grow(), old(self).wcode(bits_of(v)).len() <= T::grow() + 6
//@start
    proof {
        let b = bits_of(v);
        let (a, beta) = analysis(v, self.last_beta_star);
        if 0 <= beta < 16 { tag_word(beta); }
        flags();
        assert((b >> 52u64) & 0x7ff == (b >> 52u32) & 0x7ff && (b >> 52u32) & 0x7ff < 2048) by (bit_vector);
        let last = self.last_beta_star;
        assert(seq![true] + seq![false] =~= seq![true, false]);
        T::small();
    }
//@fn size ret=r
    ensures r == self.wsize()
//@enditem
impl<T: BaseEncoder> Coder for ElfEncoderWrapper<T> {
    closed spec fn start() -> Self { ElfEncoderWrapper { size: 0, last_beta_star: i32::MAX, xor_encoder: T::start() } }
    closed spec fn code(&self, v: u64) -> Seq<bool> { self.wcode(v) }
    closed spec fn after(&self, v: u64) -> Self { self.wafter(v) }
}
//@item ebi/src/compressor/elf.rs :: impl<T: XorEncoder> XorEncoder for ElfEncoderWrapper<T>
//@rewritere <T: XorEncoder> => <T: BaseEncoder>
//@rewritere (?:mut )?w: W => w: &mut W
    closed spec fn einv(&self) -> bool { self.xor_encoder.einv() && 0 <= self.xor_encoder.load() }
    closed spec fn load(&self) -> int { self.size as int + self.xor_encoder.load() }
    open spec fn grow() -> int { T::grow() + 6 }
    open spec fn exact() -> bool { false }
//@fn compress_float
//@start
    proof { T::small(); }
//@fn close
//@start
    proof { T::small(); nan_marker(); flags(); assert(seq![true] + seq![false] =~= seq![true, false]); }
//@fn simulate_close
//@start
    proof { T::small(); nan_marker(); }
//@enditem
// ---- decoder
//@item ebi/src/decoder/chunk_reader/elf.rs :: struct ElfDecoderWrapper
//@enditem
impl<T: XorDecoder> ElfDecoderWrapper<T> {
    pub closed spec fn inner(&self) -> T { self.xor_decoder }
    pub closed spec fn beta(&self) -> i32 { self.last_beta_star }
    /// where the code proper starts; whether digits are to be restored, and how many there are
    pub closed spec fn at(&self, d: Seq<u8>, p: int) -> int { if !bit_at(d, p) { p + 1 } else if !bit_at(d, p + 1) { p + 2 } else { p + 6 } }
    pub closed spec fn restores(&self, d: Seq<u8>, p: int) -> bool { !bit_at(d, p) || bit_at(d, p + 1) }
    pub closed spec fn digits(&self, d: Seq<u8>, p: int) -> i32 { if bit_at(d, p) && bit_at(d, p + 1) { word(d, p + 2, 4) as u32 as i32 } else { self.last_beta_star } }
    pub closed spec fn wcan(&self, d: Seq<u8>, p: int) -> bool { room(d, p, 1) && (bit_at(d, p) ==> room(d, p, 2) && (bit_at(d, p + 1) ==> room(d, p, 6))) && self.xor_decoder.can(d, self.at(d, p)) }
    pub closed spec fn wval(&self, d: Seq<u8>, p: int) -> Option<u64> { match self.xor_decoder.val(d, self.at(d, p)) { None => None, Some(b) => Some(if self.restores(d, p) { bits_of(restored(of_bits(b), self.digits(d, p))) } else { b }) } }
    pub closed spec fn wstop(&self, d: Seq<u8>, p: int) -> int { self.xor_decoder.stop(d, self.at(d, p)) }
    pub closed spec fn wthen(&self, d: Seq<u8>, p: int) -> Self { ElfDecoderWrapper { last_beta_star: self.digits(d, p), xor_decoder: self.xor_decoder.then(d, self.at(d, p)) } }
}
//@item ebi/src/decoder/chunk_reader/elf.rs :: impl<T: XorDecoder> ElfDecoderWrapper<T>
//@rewritere T::default\(\) => T::initial()
//@fn new ret=r
    ensures r == Self::dstart()
//@fn next_value ret=res
    requires (*old(r)).rinv(), old(self).wcan((*old(r)).data(), (*old(r)).pos())
    ensures (*final(r)).rinv(), (*final(r)).data() == (*old(r)).data(), res is Ok, (*final(r)).pos() == old(self).wstop((*old(r)).data(), (*old(r)).pos()), *final(self) == old(self).wthen((*old(r)).data(), (*old(r)).pos()),
        match old(self).wval((*old(r)).data(), (*old(r)).pos()) { Some(b) => res->Ok_0 == Some(of_bits(b)), None => res->Ok_0 is None }
//@fn recover_v_by_beta_star ret=res
    requires (*old(r)).rinv(), old(self).inner().can((*old(r)).data(), (*old(r)).pos())
    ensures (*final(r)).rinv(), (*final(r)).data() == (*old(r)).data(), res is Ok, (*final(r)).pos() == old(self).inner().stop((*old(r)).data(), (*old(r)).pos()),
        *final(self) == (ElfDecoderWrapper { last_beta_star: old(self).last_beta_star, xor_decoder: old(self).inner().then((*old(r)).data(), (*old(r)).pos()) }),
        match old(self).inner().val((*old(r)).data(), (*old(r)).pos()) { Some(b) => res->Ok_0 == Some(restored(of_bits(b), old(self).beta())), None => res->Ok_0 is None }
//@fn xor_decompress ret=res
    requires (*old(r)).rinv(), old(self).inner().can((*old(r)).data(), (*old(r)).pos())
    ensures (*final(r)).rinv(), (*final(r)).data() == (*old(r)).data(), res is Ok, (*final(r)).pos() == old(self).inner().stop((*old(r)).data(), (*old(r)).pos()),
        *final(self) == (ElfDecoderWrapper { last_beta_star: old(self).last_beta_star, xor_decoder: old(self).inner().then((*old(r)).data(), (*old(r)).pos()) }),
        match old(self).inner().val((*old(r)).data(), (*old(r)).pos()) { Some(b) => res->Ok_0 == Some(of_bits(b)), None => res->Ok_0 is None }
//@enditem
impl<T: XorDecoder> Taker for ElfDecoderWrapper<T> {
    closed spec fn dstart() -> Self { ElfDecoderWrapper { last_beta_star: i32::MAX, xor_decoder: T::dstart() } }
    closed spec fn can(&self, d: Seq<u8>, p: int) -> bool { self.wcan(d, p) }
    closed spec fn val(&self, d: Seq<u8>, p: int) -> Option<u64> { self.wval(d, p) }
    closed spec fn stop(&self, d: Seq<u8>, p: int) -> int { self.wstop(d, p) }
    closed spec fn then(&self, d: Seq<u8>, p: int) -> Self { self.wthen(d, p) }
}
//@item ebi/src/decoder/chunk_reader/elf.rs :: impl<T: XorDecoder> XorDecoder for ElfDecoderWrapper<T>
//@rewritere mut r: R => r: &mut R
//@rewritere &mut r\b => r
    // Default::default() is Self::new()
    fn initial() -> (r: Self) { Self::new() }
//@enditem
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(D)]
#[verifier::reject_recursive_types(P)]
pub struct ElfOn<E, D, P> { e: std::marker::PhantomData<E>, d: std::marker::PhantomData<D>, p: std::marker::PhantomData<P> }
impl<E: BaseEncoder, D: XorDecoder, P: BasePair<E, D>> Pair<ElfEncoderWrapper<E>, ElfDecoderWrapper<D>> for ElfOn<E, D, P> {
    closed spec fn sync(e: ElfEncoderWrapper<E>, d: ElfDecoderWrapper<D>) -> bool { e.last_beta_star == d.last_beta_star && P::sync(e.xor_encoder, d.xor_decoder) }
    open spec fn takes(v: u64) -> bool { !is_nan(v) }
    proof fn begin() { P::begin(); }
    proof fn step(e: ElfEncoderWrapper<E>, dec: ElfDecoderWrapper<D>, d: Seq<u8>, p: int, v: u64) {
        let k = kept(v, e.last_beta_star);
        kept_is(v, e.last_beta_star);
        P::all(k);
        tagged(e, dec, d, p, v);
        P::step(e.xor_encoder, dec.xor_decoder, d, dec.at(d, p), k);
    }
    proof fn finish(e: ElfEncoderWrapper<E>, dec: ElfDecoderWrapper<D>, d: Seq<u8>, p: int) {
        nan_marker();
        tagged(e, dec, d, p, marker());
        P::finish(e.xor_encoder, dec.xor_decoder, d, dec.at(d, p));
    }
}
/// the decoder reads the tag the encoder wrote
proof fn tagged<E: BaseEncoder, D: XorDecoder>(e: ElfEncoderWrapper<E>, dec: ElfDecoderWrapper<D>, d: Seq<u8>, p: int, v: u64)
    requires e.last_beta_star == dec.last_beta_star, stands(d, p, e.wcode(v))
    ensures dec.at(d, p) == p + tag(v, e.last_beta_star).len(), stands(d, dec.at(d, p), e.xor_encoder.code(kept(v, e.last_beta_star))), dec.digits(d, p) == lastly(v, e.last_beta_star), dec.restores(d, p) == plan(v, e.last_beta_star) is Some,
        room(d, p, 1) && (bit_at(d, p) ==> room(d, p, 2) && (bit_at(d, p + 1) ==> room(d, p, 6)))
{
    let last = e.last_beta_star;
    split(d, p, tag(v, last), e.xor_encoder.code(kept(v, last)));
    match plan(v, last) {
        None => { split(d, p, seq![true], seq![false]); stands_bit(d, p, true); stands_bit(d, p + 1, false); }
        Some((_, beta)) => {
            if beta == last { stands_bit(d, p, false); }
            else {
                split(d, p, seq![true], seq![true] + u64_bits(beta as u64, 4)); split(d, p + 1, seq![true], u64_bits(beta as u64, 4));
                stands_bit(d, p, true); stands_bit(d, p + 1, true);
                assert(1u64 << 4 == 16) by (bit_vector);
                fits(beta as u64, 4); stands_word(d, p + 2, beta as u64, 4);
                assert((beta as u64) as u32 as i32 == beta) by (bit_vector) requires 0 <= beta < 16;
            }
        }
    }
}
pub open spec fn no_nan(s: Seq<u64>) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_nan(#[trigger] s[i]) }
/// P11: what ELF compressed comes back, in order, then the end
pub proof fn elf_round_trip(s: Seq<u64>, d: Seq<u8>)
    requires is_padded(image::<ElfEncoderWrapper<ElfXorEncoder>>(s), d), no_nan(s)
    ensures good(ElfDecoderWrapper::<ElfXorDecoder>::dstart(), d, 0), series(ElfDecoderWrapper::<ElfXorDecoder>::dstart(), d, 0) == s
{ round_trip::<ElfEncoderWrapper<ElfXorEncoder>, ElfDecoderWrapper<ElfXorDecoder>, ElfOn<ElfXorEncoder, ElfXorDecoder, ElfXor>>(s, d); }
pub proof fn elf_on_chimp_round_trip(s: Seq<u64>, d: Seq<u8>)
    requires is_padded(image::<ElfEncoderWrapper<ChimpEncoder>>(s), d), no_nan(s)
    ensures good(ElfDecoderWrapper::<ChimpDecoder>::dstart(), d, 0), series(ElfDecoderWrapper::<ChimpDecoder>::dstart(), d, 0) == s
{ round_trip::<ElfEncoderWrapper<ChimpEncoder>, ElfDecoderWrapper<ChimpDecoder>, ElfOn<ChimpEncoder, ChimpDecoder, Chimp>>(s, d); }
} // mod ew
} // verus!
fn main() {}
