//@include lib/prelude.rs
//@include lib/bits.rs
//@include lib/ext.rs
//@include lib/bitwrite_trait.rs
//@include lib/bitread.rs
//@include lib/xor.rs
//@include lib/chimp.rs
pub mod cn {
use super::*;
use super::bits::*;
use super::ext::*;
use super::tr::*;
use super::rd::*;
use super::xs::*;
use super::gx::{BitReader, empty, eight};
use super::ch::{round, three, unthree, lead, trail, rep, flags};
use super::decoder::DecoderError;
use vstd::std_specs::bits::*;
broadcast use {super::xs::word_read, super::bits_and_back, super::back_and_bits, vstd::std_specs::bits::axiom_u64_leading_zeros, vstd::std_specs::bits::axiom_u64_trailing_zeros};
// what BufferedBitWriter does (proved in units bitwrite_a, bitwrite_b)
#[verifier::external_body]
pub struct BufferedBitWriter { x: u64 }
impl BitWrite for BufferedBitWriter {
    uninterp spec fn inv(&self) -> bool;
    uninterp spec fn bits(&self) -> Seq<bool>;
    #[verifier::external_body]
    fn write_bit(&mut self, bit: bool) { unimplemented!() }
    #[verifier::external_body]
    fn write_byte(&mut self, byte: u8) { unimplemented!() }
    #[verifier::external_body]
    fn write_bits(&mut self, bits: u64, num: u32) { unimplemented!() }
    #[verifier::external_body]
    fn set_cursor_at_in_bit(&mut self, bit_cursor: usize) { unimplemented!() }
    #[verifier::external_body]
    fn number_of_bits_written(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn as_slice(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn reset(&mut self) { unimplemented!() }
}
impl BufferedBitWriter {
    #[verifier::external_body]
    pub fn with_capacity(capacity: usize) -> (r: Self) ensures r.inv(), r.bits() == Seq::<bool>::empty() { unimplemented!() }
}
// slice::fill, and vec![0; n]
#[verifier::external_body]
pub fn refill<T: Copy>(v: &mut Vec<T>, x: T) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < final(v)@.len() ==> #[trigger] final(v)@[i] == x { v.fill(x) }
#[verifier::external_body]
pub fn filled<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { vec![x; n] }
/// debug_assert_eq!
pub fn same(a: usize, b: usize) requires a == b { }
pub assume_specification [u32::next_multiple_of] (a: u32, b: u32) -> (r: u32)
    requires b > 0, a + b <= u32::MAX
    ensures r as int == (a as int + b as int - 1) / (b as int) * b as int;
// ---- the encoder as a machine: a ring of the last 128 values, and where a value with given low bits was last seen
pub ghost struct En { pub ring: Seq<u64>, pub index: int, pub seen: Seq<usize>, pub lead: u32, pub first: bool }
pub open spec fn key(v: u64) -> int { (v & 0x3fff) as int }
impl En {
    pub open spec fn shape(&self) -> bool { self.ring.len() == 128 && self.seen.len() == 16384 && 0 <= self.index && (self.first ==> self.index == 0) }
    pub open spec fn ok(&self) -> bool { self.shape() && (forall|k: int| 0 <= k < 16384 ==> #[trigger] self.seen[k] <= self.index) }
    pub open spec fn hit(&self, v: u64) -> bool { let c = self.seen[key(v)]; self.index - c < 128 && trail(v ^ self.ring[c as int % 128]) > 13 }
    pub open spec fn base(&self, v: u64) -> int { if self.hit(v) { self.seen[key(v)] as int % 128 } else { self.index % 128 } }
    pub open spec fn diff(&self, v: u64) -> u64 { self.ring[self.base(v)] ^ v }
    pub open spec fn next_code(&self, v: u64) -> Seq<bool> {
        let x = self.diff(v);
        let n = 64 - lead(x) - trail(x);
        if x == 0 { u64_bits(0, 2) + u64_bits(self.base(v) as u64, 7) }
        else if self.hit(v) { u64_bits(1, 2) + (u64_bits(head(self.base(v) as u64, rep(x), n as u64), 16) + u64_bits(x >> trail(x), n as nat)) }
        else if lead(x) == self.lead { u64_bits(2, 2) + u64_bits(x, (64 - lead(x)) as nat) }
        else { u64_bits(3, 2) + (u64_bits(rep(x), 3) + u64_bits(x, (64 - lead(x)) as nat)) }
    }
}
pub open spec fn head(b: u64, r: u64, n: u64) -> u64 { (b << 9u32) | (r << 6u32) | n }
impl Coder for En {
    open spec fn start() -> Self { En { ring: Seq::new(128, |i: int| 0u64), index: 0, seen: Seq::new(16384, |i: int| 0usize), lead: u32::MAX, first: true } }
    open spec fn code(&self, v: u64) -> Seq<bool> { if self.first { u64_bits(v, 64) } else { self.next_code(v) } }
    open spec fn after(&self, v: u64) -> Self {
        if self.first { En { ring: self.ring.update(0, v), seen: self.seen.update(key(v), 0), first: false, ..*self } }
        else { let x = self.diff(v); En { ring: self.ring.update((self.index + 1) % 128, v), index: self.index + 1, seen: self.seen.update(key(v), (self.index + 1) as usize), lead: if x == 0 || self.hit(v) { 65 } else { lead(x) }, first: false } }
    }
}
pub proof fn key_small(v: u64) ensures 0 <= key(v) < 16384 { assert(v & 0x3fff < 16384) by (bit_vector); }
pub proof fn after_ok(e: En, v: u64)
    requires e.ok(), e.index < usize::MAX
    ensures e.after(v).ok()
{ key_small(v); let a = e.after(v); assert forall|k: int| 0 <= k < 16384 implies #[trigger] a.seen[k] <= a.index by { assert(e.seen[k] <= e.index); } }
/// flag and head written as one number, or one after the other
pub proof fn joined(b: u64, r: u64, n: u64)
    requires b < 128, r < 8, n < 64
    ensures u64_bits((512 * (128 + b) + 64 * r + n) as u64, 18) == u64_bits(1, 2) + u64_bits(head(b, r, n), 16), u64_bits(b, 9) == u64_bits(0, 2) + u64_bits(b, 7), head(b, r, n) < 65536, u64_bits((24 + r) as u64, 5) == u64_bits(3, 2) + u64_bits(r, 3)
{
    flags();
    let (a, h) = ((512 * (128 + b) + 64 * r + n) as u64, head(b, r, n));
    assert(h < 65536 && a == h | 65536) by (bit_vector) requires b < 128, r < 8, n < 64, h == (b << 9u32) | (r << 6u32) | n, a == 512 * (128 + b) + 64 * r + n;
    assert forall|i: int| 0 <= i < 18 implies #[trigger] u64_bits(a, 18)[i] == (u64_bits(1, 2) + u64_bits(h, 16))[i] by {
        let s = (17 - i) as u32;
        assert((a >> s) & 1 == (if s < 16 { (h >> s) & 1 } else { (1u64 >> (s - 16) as u32) & 1 })) by (bit_vector) requires s < 18, h < 65536, a == h | 65536;
        if i < 2 { assert(u64_bits(1, 2)[i] == b64(1, 1 - i)); }
    }
    assert(u64_bits(a, 18) =~= u64_bits(1, 2) + u64_bits(h, 16));
    assert forall|i: int| 0 <= i < 9 implies #[trigger] u64_bits(b, 9)[i] == (u64_bits(0, 2) + u64_bits(b, 7))[i] by {
        let s = (8 - i) as u32;
        assert((b >> s) & 1 == (if s < 7 { (b >> s) & 1 } else { (0u64 >> (s - 7) as u32) & 1 })) by (bit_vector) requires s < 9, b < 128;
        if i < 2 { assert(u64_bits(0, 2)[i] == b64(0, 1 - i)); }
    }
    assert(u64_bits(b, 9) =~= u64_bits(0, 2) + u64_bits(b, 7));
    let c = (24 + r) as u64;
    assert forall|i: int| 0 <= i < 5 implies #[trigger] u64_bits(c, 5)[i] == (u64_bits(3, 2) + u64_bits(r, 3))[i] by {
        let s = (4 - i) as u32;
        assert((c >> s) & 1 == (if s < 3 { (r >> s) & 1 } else { (3u64 >> (s - 3) as u32) & 1 })) by (bit_vector) requires s < 5, r < 8, c == 24 + r;
        if i < 2 { assert(u64_bits(3, 2)[i] == b64(3, 1 - i)); }
    }
    assert(u64_bits(c, 5) =~= u64_bits(3, 2) + u64_bits(r, 3));
}
pub proof fn facts(e: En, v: u64)
    requires e.shape()
    ensures e.code(v).len() <= 69, 0 <= e.base(v) < 128, ({ let x = e.diff(v); x != 0 ==> lead(x) + trail(x) <= 63 && trail(x) <= 63 && lead(x) <= 24 && u64_leading_zeros(x) < 64 && rep(x) < 8 && low(x >> trail(x), 64 - lead(x) - trail(x)) == x >> trail(x) && (e.hit(v) ==> trail(x) > 13) })
{ key_small(v); let x = e.diff(v); if e.hit(v) { let a = e.ring[e.base(v)]; assert(a ^ v == v ^ a) by (bit_vector); } if x != 0 { window(x, lead(x), trail(x)); } }
//@item ebi/src/compressor/chimp_n.rs :: struct ChimpNEncoder
//@rewritere <const N_PREVIOUS_VALUES: usize> =>
//@rewritere Box<\[(\w+)\]> => Vec<\1>
//@enditem
impl ChimpNEncoder {
    pub closed spec fn m(&self) -> En { En { ring: self.stored_values@, index: self.index as int, seen: self.indices@, lead: self.stored_leading_zeros, first: self.first } }
    pub closed spec fn out(&self) -> Seq<bool> { self.w.bits() }
    pub closed spec fn tally(&self) -> int { self.size as int }
    pub closed spec fn ok(&self) -> bool { self.w.inv() && self.m().ok() && self.current == self.index % 128 && self.index < 0x1000_0000_0000_0000 }
    pub closed spec fn ix(&self) -> int { self.index as int }
}
//@item ebi/src/compressor/chimp_n.rs :: impl<const N_PREVIOUS_VALUES: usize> ChimpNEncoder<N_PREVIOUS_VALUES>
//@rewritere impl<const N_PREVIOUS_VALUES: usize> ChimpNEncoder<N_PREVIOUS_VALUES> => impl ChimpNEncoder
//@rewritere \(N_PREVIOUS_VALUES as u64\)\.trailing_zeros\(\) => 7
//@rewritere \bN_PREVIOUS_VALUES\b => 128
//@rewritere const SET_LSB: u32 = (.*?); => exec const SET_LSB: u32 ensures Self::SET_LSB == 0x3fff { proof { assert(1u32 << 14 == 0x4000) by (bit_vector); } \1 }
//@rewritere vec!\[0; (.*?)\]\.into_boxed_slice\(\) => filled(0u64, \1)
//@rewritere vec!\[0usize; (.*?)\]\.into_boxed_slice\(\) => filled(0usize, \1)
//@rewritere self\.(\w+)\.fill\(0\) => refill(&mut self.\1, 0)
//@rewritere f64::NAN => fnan()
//@fn new ret=r
    ensures r.ok(), r.m() == En::start(), r.out() == Seq::<bool>::empty(), r.tally() == 0
//@fn with_capacity ret=r
    ensures r.ok(), r.m() == En::start(), r.out() == Seq::<bool>::empty(), r.tally() == 0
//@start
    proof { assert(1usize << 14 == 16384) by (bit_vector); }
//@end
    proof { assert(r.m().ring =~= En::start().ring); assert(r.m().seen =~= En::start().seen); }
//@fn add_value
    requires old(self).ok(), old(self).tally() < 0xffff_ff00, old(self).ix() < 0x0fff_ffff_ffff_ffff
    ensures final(self).ok(), final(self).m() == old(self).m().after(bits_of(value)), final(self).out() =~= old(self).out() + old(self).m().code(bits_of(value)), final(self).tally() == old(self).tally() + old(self).m().code(bits_of(value)).len(), final(self).ix() <= old(self).ix() + 1
//@fn write_first
    requires old(self).ok(), old(self).m().first, old(self).tally() < 0xffff_ff00
    ensures final(self).ok(), final(self).m() == old(self).m().after(value), final(self).out() =~= old(self).out() + u64_bits(value, 64), final(self).tally() == old(self).tally() + 64, final(self).ix() == old(self).ix()
//@start
    proof { key_small(value); after_ok(self.m(), value); }
//@fn close
    requires old(self).ok(), old(self).tally() < 0xffff_ff00, old(self).ix() < 0x0fff_ffff_ffff_ffff
    ensures final(self).ok(), final(self).out() =~= old(self).out() + old(self).m().code(marker()).push(false)
//@fn compress_value
    requires old(self).ok(), !old(self).m().first, old(self).tally() < 0xffff_ff00, old(self).ix() < 0x0fff_ffff_ffff_ffff
    ensures final(self).ok(), final(self).m() == old(self).m().after(value), final(self).out() =~= old(self).out() + old(self).m().next_code(value), final(self).tally() == old(self).tally() + old(self).m().next_code(value).len(), final(self).ix() == old(self).ix() + 1
//@start
    let ghost e = self.m();
    proof { key_small(value); after_ok(e, value); facts(e, value); let x = e.diff(value); let b = e.base(value) as u64; if x != 0 && e.hit(value) { joined(b, rep(x), (64 - lead(x) - trail(x)) as u64); } else { joined(b, if x != 0 { rep(x) } else { 0 }, 0); } flags(); assert(e.seen[key(value)] <= e.index); let q = e.ring[e.base(value)]; assert(q ^ value == value ^ q) by (bit_vector); }
//@fn simulate_add_value ret=r
    requires self.ok(), self.m().first ==> self.tally() == 0, self.tally() < 0xffff_ff00
    ensures r == self.tally() + self.m().code(bits_of(value)).len()
//@start
    proof { let v = bits_of(value); let e = self.m(); key_small(v); facts(e, v); assert(e.seen[key(v)] <= e.index); let q = e.ring[e.base(v)]; assert(q ^ v == v ^ q) by (bit_vector); }
//@fn size ret=r
    ensures r == self.tally()
//@fn get_out ret=r
    requires self.ok()
    ensures is_padded(self.out(), r@)
//@fn reset
    requires old(self).ok()
    ensures final(self).ok(), final(self).m() == En::start(), final(self).out() == Seq::<bool>::empty(), final(self).tally() == 0, final(self).ix() == 0
//@end
    proof { assert(self.m().ring =~= En::start().ring); assert(self.m().seen =~= En::start().seen); }
//@enditem
//@item ebi/src/compressor/chimp_n.rs :: struct ChimpNCompressor
//@rewritere <const N: usize> =>
//@rewritere ChimpNEncoder<N> => ChimpNEncoder
//@enditem
impl ChimpNCompressor {
    pub closed spec fn enc(&self) -> ChimpNEncoder { self.encoder }
    pub closed spec fn fed(&self) -> int { self.total_bytes_in as int }
}
//@item ebi/src/compressor/chimp_n.rs :: impl<const N: usize> ChimpNCompressor<N>
//@rewritere impl<const N: usize> ChimpNCompressor<N> => impl ChimpNCompressor
//@fn new ret=r
    ensures r.enc().ok(), r.enc().m() == En::start(), r.enc().out() == Seq::<bool>::empty(), r.enc().tally() == 0, r.fed() == 0
//@fn with_capacity ret=r
    ensures r.enc().ok(), r.enc().m() == En::start(), r.enc().out() == Seq::<bool>::empty(), r.enc().tally() == 0, r.fed() == 0
//@enditem
//@item ebi/src/compressor/chimp_n.rs :: impl<const N: usize> Compressor for ChimpNCompressor<N>
//@rewritere impl<const N: usize> Compressor for ChimpNCompressor<N> => impl ChimpNCompressor
//@skip execution_times
//@rewritere super::MAX_BUFFERS => 5
//@rewritere const E: &\[u8\] = &\[\]; => let E: &[u8] = empty();
//@rewritere debug_assert_eq!\( => same(
//@rewritere f64::NAN => fnan()
//@fn compress ret=r
    requires old(self).enc().ok(), input@.len() < 0x200_0000
    ensures r is Ok, final(self).enc().ok(), final(self).fed() == 8 * input@.len(), final(self).enc().m() == run(En::start(), pats(input@)), final(self).enc().out() =~= stream(En::start(), pats(input@)), final(self).enc().tally() == final(self).enc().out().len(), final(self).enc().tally() <= 69 * input@.len(), final(self).enc().m().first ==> final(self).enc().tally() == 0
//@attr
    #[verifier::loop_isolation(false)]
//@start
    let ghost s = pats(input@);
    proof { eight(); assert(s.take(0) =~= Seq::<u64>::empty()); assert(s.take(s.len() as int) =~= s); }
//@loop 1 ix
    invariant vx_1 <= input@.len(), self.encoder.ok(), self.encoder.m() == run(En::start(), s.take(vx_1 as int)), self.encoder.out() =~= stream(En::start(), s.take(vx_1 as int)), self.encoder.tally() == self.encoder.out().len(), self.encoder.tally() <= 69 * vx_1, self.encoder.ix() <= vx_1, self.total_bytes_in == 8 * input@.len(), self.encoder.m().first ==> vx_1 == 0
    decreases input@.len() - vx_1
//@loopstart 1
    proof { longer(En::start(), s, vx_1 - 1); facts(self.encoder.m(), s[vx_1 - 1]); }
//@fn total_bytes_in ret=r
    ensures r == self.fed()
//@fn total_bytes_buffered ret=r
    requires self.enc().ok(), self.enc().m().first ==> self.enc().tally() == 0, self.enc().tally() == self.enc().out().len(), self.enc().tally() < 0xffff_ff00
    ensures r == (self.enc().out().len() + self.enc().m().code(marker()).len() + 1 + 7) / 8
//@start
    proof { facts(self.encoder.m(), marker()); }
//@fn prepare
    requires old(self).enc().ok(), old(self).enc().tally() < 0xffff_ff00, old(self).enc().ix() < 0x0fff_ffff_ffff_ffff
    ensures final(self).enc().ok(), final(self).enc().out() =~= old(self).enc().out() + old(self).enc().m().code(marker()).push(false), final(self).fed() == old(self).fed()
//@fn buffers ret=r
    requires self.enc().ok()
    ensures is_padded(self.enc().out(), r[0]@), r[1]@.len() == 0, r[2]@.len() == 0, r[3]@.len() == 0, r[4]@.len() == 0
//@fn reset
    requires old(self).enc().ok()
    ensures final(self).enc().ok(), final(self).enc().m() == En::start(), final(self).enc().out() == Seq::<bool>::empty(), final(self).enc().tally() == 0, final(self).enc().ix() == 0, final(self).fed() == 0
//@enditem
// ---- the decoder as a machine
pub ghost struct Dn { pub ring: Seq<u64>, pub current: int, pub val: u64, pub lead: u32, pub tz: u32, pub first: bool, pub end: bool }
impl Dn {
    pub open spec fn ok(&self) -> bool { self.ring.len() == 128 && 0 <= self.current < 128 }
    pub open spec fn flag(&self, d: Seq<u8>, p: int) -> u64 { word(d, p, 2) }
    /// place in the ring, leading zeros, length and place of the digits of the code at p
    pub open spec fn at(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 0 { word(d, p + 2, 7) as int } else { ((word(d, p + 2, 16) >> 9u32) & 127) as int } }
    pub open spec fn lz(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 1 { unthree((word(d, p + 2, 16) >> 6u32) & 7) } else if self.flag(d, p) == 3 { unthree(word(d, p + 2, 3)) } else { self.lead as int } }
    pub open spec fn count(&self, d: Seq<u8>, p: int) -> int { let n = word(d, p + 2, 16) & 63; if n == 0 { 64 } else { n as int } }
    pub open spec fn sig(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 1 { self.count(d, p) } else { 64 - self.lz(d, p) } }
    pub open spec fn shift(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 1 { 64 - self.lz(d, p) - self.sig(d, p) } else { 0 } }
    pub open spec fn digits(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 2 { p + 2 } else if self.flag(d, p) == 3 { p + 5 } else { p + 18 } }
    pub open spec fn n_can(&self, d: Seq<u8>, p: int) -> bool {
        room(d, p, 2) && self.flag(d, p) < 4 && if self.flag(d, p) == 0 { room(d, p + 2, 7) && 0 <= self.at(d, p) < 128 } else {
            room(d, p, self.digits(d, p) - p) && (self.flag(d, p) == 3 ==> word(d, p + 2, 3) < 8) && 0 <= self.lz(d, p) < 64 && 0 <= self.shift(d, p) < 64 && 0 <= self.sig(d, p) <= 64 && room(d, self.digits(d, p), self.sig(d, p)) }
    }
    pub open spec fn n_val(&self, d: Seq<u8>, p: int) -> u64 {
        if self.flag(d, p) == 0 { self.ring[self.at(d, p)] } else if self.flag(d, p) == 1 { self.ring[self.at(d, p)] ^ (word(d, self.digits(d, p), self.sig(d, p)) << self.shift(d, p) as u32) }
        else { self.val ^ word(d, self.digits(d, p), self.sig(d, p)) }
    }
    pub open spec fn n_stop(&self, d: Seq<u8>, p: int) -> int { if self.flag(d, p) == 0 { p + 9 } else { self.digits(d, p) + self.sig(d, p) } }
    pub open spec fn n_end(&self, d: Seq<u8>, p: int) -> bool { self.flag(d, p) != 0 && self.n_val(d, p) == marker() }
    pub open spec fn n_then(&self, d: Seq<u8>, p: int) -> Self {
        let e = self.n_end(d, p);
        let c = if e { self.current } else { (self.current + 1) % 128 };
        Dn { ring: if e { self.ring } else { self.ring.update(c, self.n_val(d, p)) }, current: c, val: self.n_val(d, p), lead: self.lz(d, p) as u32, tz: if self.flag(d, p) == 1 { self.shift(d, p) as u32 } else { self.tz }, first: self.first, end: e || self.end }
    }
    pub open spec fn o_can(&self, d: Seq<u8>, p: int) -> bool { if self.first { room(d, p, 64) } else { self.n_can(d, p) } }
    pub open spec fn o_stop(&self, d: Seq<u8>, p: int) -> int { if self.first { p + 64 } else { self.n_stop(d, p) } }
    pub open spec fn o_then(&self, d: Seq<u8>, p: int) -> Self { if self.first { let v = word(d, p, 64); Dn { ring: self.ring.update(self.current, v), val: v, first: false, end: v == marker() || self.end, ..*self } } else { self.n_then(d, p) } }
}
impl Taker for Dn {
    open spec fn dstart() -> Self { Dn { ring: Seq::new(128, |i: int| 0u64), current: 0, val: 0, lead: u32::MAX, tz: 0, first: true, end: false } }
    open spec fn can(&self, d: Seq<u8>, p: int) -> bool { self.ok() && (self.end || self.o_can(d, p)) }
    open spec fn val(&self, d: Seq<u8>, p: int) -> Option<u64> { if self.end || self.o_then(d, p).end { None } else { Some(self.o_then(d, p).val) } }
    open spec fn stop(&self, d: Seq<u8>, p: int) -> int { if self.end { p } else { self.o_stop(d, p) } }
    open spec fn then(&self, d: Seq<u8>, p: int) -> Self { if self.end { *self } else { self.o_then(d, p) } }
}
//@item ebi/src/decoder/chunk_reader/chimp_n.rs :: struct ChimpNDecoder
//@rewritere const N_PREVIOUS_VALUES: usize, =>
//@rewritere Box<\[(\w+)\]> => Vec<\1>
//@enditem
impl<R: BitRead2> ChimpNDecoder<R> {
    pub closed spec fn m(&self) -> Dn { Dn { ring: self.stored_values@, current: self.current as int, val: self.stored_val, lead: self.stored_leading_zeros, tz: self.stored_trailing_zeros, first: self.first, end: self.end_of_stream } }
    pub closed spec fn src(&self) -> Seq<u8> { self.bit_reader.data() }
    pub closed spec fn at(&self) -> int { self.bit_reader.pos() }
    pub closed spec fn rok(&self) -> bool { self.bit_reader.rinv() }
}
pub proof fn small_words(t: u64)
    ensures (t >> 9u32) & 127 < 128, (t >> 6u32) & 7 < 8, (t >> 0u32) & 63 < 64, (t >> 0u32) & 63 == t & 63, 1u64 << 7u32 == 128, 1u64 << 3u32 == 8, 1u64 << 6u32 == 64
{ assert((t >> 9u32) & 127 < 128 && (t >> 6u32) & 7 < 8 && (t >> 0u32) & 63 < 64 && (t >> 0u32) & 63 == t & 63 && 1u64 << 7u32 == 128 && 1u64 << 3u32 == 8 && 1u64 << 6u32 == 64) by (bit_vector); }
//@item ebi/src/decoder/chunk_reader/chimp_n.rs :: impl<const N_PREVIOUS_VALUES: usize, R: BitRead2> ChimpNDecoder<N_PREVIOUS_VALUES, R>
//@rewritere const N_PREVIOUS_VALUES: usize, =>
//@rewritere ChimpNDecoder<N_PREVIOUS_VALUES, R> => ChimpNDecoder<R>
//@rewritere \(N_PREVIOUS_VALUES as u64\)\.trailing_zeros\(\) => 7
//@rewritere \bN_PREVIOUS_VALUES\b => 128
//@rewritere vec!\[0; (.*?)\]\.into_boxed_slice\(\) => filled(0u64, \1)
//@skip get_values
//@fn new ret=r
    requires bit_reader.rinv()
    ensures r.m() == Dn::dstart(), r.rok(), r.src() == bit_reader.data(), r.at() == bit_reader.pos()
//@end
    proof { assert(r.m().ring =~= Dn::dstart().ring); }
//@fn read_value ret=res
    requires old(self).rok(), old(self).m().can(old(self).src(), old(self).at())
    ensures final(self).rok(), final(self).src() == old(self).src(), res is Ok, final(self).at() == old(self).m().stop(old(self).src(), old(self).at()), final(self).m() == old(self).m().then(old(self).src(), old(self).at()),
        match old(self).m().val(old(self).src(), old(self).at()) { Some(b) => res->Ok_0 == Some(of_bits(b)), None => res->Ok_0 is None }
//@fn next ret=res
    requires old(self).rok(), old(self).m().ok(), !old(self).m().end, old(self).m().o_can(old(self).src(), old(self).at())
    ensures final(self).rok(), final(self).src() == old(self).src(), res is Ok, final(self).at() == old(self).m().o_stop(old(self).src(), old(self).at()), final(self).m() == old(self).m().o_then(old(self).src(), old(self).at())
//@fn next_value ret=res
    requires old(self).rok(), old(self).m().ok(), !old(self).m().end, !old(self).m().first, old(self).m().n_can(old(self).src(), old(self).at())
    ensures final(self).rok(), final(self).src() == old(self).src(), res is Ok, final(self).at() == old(self).m().n_stop(old(self).src(), old(self).at()), final(self).m() == old(self).m().n_then(old(self).src(), old(self).at())
//@start
    proof { small_words(word(self.src(), self.at() + 2, 16)); }
//@enditem
pub struct Chimp128;
impl Pair<En, Dn> for Chimp128 {
    open spec fn sync(e: En, d: Dn) -> bool {
        e.shape() && d.ok() && !d.end && e.first == d.first && e.ring == d.ring && d.current == e.index % 128 && (!e.first ==> d.val == e.ring[d.current]) && (e.lead <= 24 ==> e.lead == d.lead) && no_marker(e.ring)
    }
    open spec fn takes(v: u64) -> bool { v != marker() }
    proof fn begin() { }
    proof fn step(e: En, dec: Dn, d: Seq<u8>, p: int, v: u64) { understood(e, dec, d, p, v); }
    proof fn finish(e: En, dec: Dn, d: Seq<u8>, p: int) { understood(e, dec, d, p, marker()); }
}
/// the decoder reads what the encoder wrote
pub proof fn understood(e: En, dec: Dn, d: Seq<u8>, p: int, v: u64)
    requires Chimp128::sync(e, dec), stands(d, p, e.code(v))
    ensures dec.can(d, p), v == marker() ==> dec.val(d, p) is None, v != marker() ==> dec.val(d, p) == Some(v) && dec.stop(d, p) == p + e.code(v).len() && Chimp128::sync(e.after(v), dec.then(d, p))
{
    facts(e, v); key_small(v);
    if e.first { stands_word(d, p, v, 64); }
    else {
        let b = e.base(v);
        let q = e.ring[b];
        assert(q != marker());
        let x = q ^ v;
        assert(q ^ x == v) by (bit_vector) requires x == q ^ v;
        assert(x == 0 ==> q == v) by (bit_vector) requires x == q ^ v;
        assert(1u64 << 2 == 4 && 1u64 << 3 == 8 && 1u64 << 7 == 128 && 1u64 << 16 == 65536) by (bit_vector);
        fits(0, 2); fits(1, 2); fits(2, 2); fits(3, 2); fits(b as u64, 7);
        if x == 0 { split(d, p, u64_bits(0, 2), u64_bits(b as u64, 7)); stands_word(d, p, 0, 2); stands_word(d, p + 2, b as u64, 7); }
        else {
            let (l, t) = (lead(x), trail(x));
            fits(rep(x), 3);
            window(x, l, t); window(x, l, 0);
            assert(x >> 0u32 == x) by (bit_vector);
            if e.hit(v) {
                let n = 64 - l - t;
                let (bb, r, nn) = (b as u64, rep(x), n as u64);
                joined(bb, r, nn);
                let h = head(bb, r, nn);
                assert((h >> 9u32) & 127 == bb && (h >> 6u32) & 7 == r && h & 63 == nn) by (bit_vector) requires bb < 128, r < 8, nn < 64, h == (bb << 9u32) | (r << 6u32) | nn;
                fits(h, 16);
                let (b16, bs) = (u64_bits(h, 16), u64_bits(x >> t, n as nat));
                split(d, p, u64_bits(1, 2), b16 + bs); split(d, p + 2, b16, bs);
                stands_word(d, p, 1, 2); stands_word(d, p + 2, h, 16); stands_word(d, p + 18, x >> t, n);
            } else if l == e.lead {
                split(d, p, u64_bits(2, 2), u64_bits(x, (64 - l) as nat));
                stands_word(d, p, 2, 2); stands_word(d, p + 2, x, 64 - l);
            } else {
                let b3 = u64_bits(rep(x), 3);
                split(d, p, u64_bits(3, 2), b3 + u64_bits(x, (64 - l) as nat)); split(d, p + 2, b3, u64_bits(x, (64 - l) as nat));
                stands_word(d, p, 3, 2); stands_word(d, p + 2, rep(x), 3); stands_word(d, p + 5, x, 64 - l);
            }
        }
    }
    if v != marker() { assert(e.after(v).ring =~= dec.then(d, p).ring); }
}
/// P12: what Chimp128 compressed comes back, in order, then the end
pub proof fn chimp128_round_trip(s: Seq<u64>, d: Seq<u8>)
    requires is_padded(image::<En>(s), d), no_marker(s)
    ensures good(Dn::dstart(), d, 0), series(Dn::dstart(), d, 0) == s
{ round_trip::<En, Dn, Chimp128>(s, d); }
// ---- the chunk reader
//@item ebi/src/decoder/chunk_reader/chimp_n.rs :: struct ChimpNDecompressIteratorImpl
//@rewritere const N: usize, =>
//@rewritere ChimpNDecoder<N, R> => ChimpNDecoder<R>
//@enditem
impl<R: BitRead2> ChimpNDecompressIteratorImpl<R> {
    pub closed spec fn ok(&self) -> bool { self.decoder.rok() && good(self.decoder.m(), self.decoder.src(), self.decoder.at()) }
    /// what it still yields
    pub closed spec fn rest(&self) -> Seq<u64> { series(self.decoder.m(), self.decoder.src(), self.decoder.at()) }
}
//@item ebi/src/decoder/chunk_reader/chimp_n.rs :: impl<const N: usize, R: BitRead2> ChimpNDecompressIteratorImpl<N, R>
//@rewritere const N: usize, =>
//@rewritere <N, R> => <R>
//@fn new ret=r
    requires bit_reader.rinv(), bit_reader.pos() == 0, good(Dn::dstart(), bit_reader.data(), 0)
    ensures r.ok(), r.rest() == series(Dn::dstart(), bit_reader.data(), 0)
//@enditem
//@item ebi/src/decoder/chunk_reader/chimp_n.rs :: impl<const N: usize, R: BitRead2> Iterator for ChimpNDecompressIteratorImpl<N, R>
//@rewritere const N: usize, =>
//@rewritere Iterator for (\w+)<N, R> => \1<R>
//@rewritere type Item = decoder::Result<f64>; =>
//@rewritere Self::Item => decoder::Result<f64>
//@skip size_hint
//@fn next ret=r
    requires old(self).ok()
    ensures old(self).rest().len() > 0 ==> r is Some && r->Some_0 is Ok && r->Some_0->Ok_0 == of_bits(old(self).rest()[0]) && final(self).ok() && final(self).rest() == old(self).rest().drop_first(),
        old(self).rest().len() == 0 ==> r is None
//@start
    proof { step_on(self.decoder.m(), self.decoder.src(), self.decoder.at()); }
//@enditem
//@item ebi/src/decoder/chunk_reader/chimp_n.rs :: struct ChimpNReader
//@rewritere <const N: usize> =>
//@enditem
impl ChimpNReader {
    pub closed spec fn src(&self) -> Seq<u8> { self.bit_reader.data() }
    pub closed spec fn cached(&self) -> bool { self.decompressed_result is Some }
    pub closed spec fn rok(&self) -> bool { self.cached() || self.bit_reader.rinv() && good(Dn::dstart(), self.src(), 0) }
    pub closed spec fn recs(&self) -> Seq<f64> { if self.cached() { self.decompressed_result->0@ } else { dbls(series(Dn::dstart(), self.src(), 0)) } }
}
// iter.collect::<Result<Vec<f64>>>(): everything the iterator yields, in order
#[verifier::loop_isolation(false)]
pub fn collect_all<'a>(it: ChimpNDecompressIteratorImpl<&'a mut BitReader>) -> (r: decoder::Result<Vec<f64>>)
    requires it.ok()
    ensures r is Ok, r->Ok_0@ == dbls(it.rest())
{
    let ghost s = it.rest();
    let mut it = it;
    let mut v: Vec<f64> = Vec::new();
    loop
        invariant it.ok(), v@.len() + it.rest().len() == s.len(), v@ =~= dbls(s.take(v@.len() as int)), it.rest() =~= s.skip(v@.len() as int)
        decreases it.rest().len()
    {
        match it.next() {
            None => { proof { assert(s.take(v@.len() as int) =~= s); } return Ok(v); }
            Some(Ok(x)) => { v.push(x); }
            Some(Err(e)) => { return Err(e); }
        }
    }
}
//@item ebi/src/decoder/chunk_reader/chimp_n.rs :: impl<const N: usize> Reader for ChimpNReader<N>
//@rewritere impl<const N: usize> Reader for ChimpNReader<N> => impl ChimpNReader
//@skip read_header
//@rewritere crate::time:: => super::time::
//@rewritere type NativeHeader = \(\); =>
//@rewritere type DecompressIterator<'a>\s*= ChimpNDecompressIterator<'a, N>; =>
//@rewritere Self::DecompressIterator<'_> => ChimpNDecompressIteratorImpl<&mut BitReader>
//@rewritere self\.decompressed_result\.as_deref\(\) => match &self.decompressed_result { Some(v) => Some(v.as_slice()), None => None }
//@rewritere self\.decompressed_result\.as_ref\(\)\.unwrap\(\) => match &self.decompressed_result { Some(v) => v.as_slice(), None => vstd::pervasive::unreached() }
//@fn decompress_iter ret=r
    requires old(self).rok(), !old(self).cached()
    ensures r is Ok, r->Ok_0.ok(), r->Ok_0.rest() == series(Dn::dstart(), old(self).src(), 0), final(self).cached() == old(self).cached()
//@fn decompress ret=r
    requires old(self).rok()
    ensures r is Ok, r->Ok_0@ == old(self).recs(), final(self).rok(), final(self).recs() == old(self).recs()
//@fn set_decompress_result ret=r
    ensures final(self).cached(), final(self).recs() == data@, r@ == data@
//@fn decompress_result ret=r
    ensures *final(self) == *old(self), r is Some == old(self).cached(), r is Some ==> r->0@ == old(self).recs()
//@enditem
//@item ebi/src/decoder/chunk_reader.rs :: fn default_decompress
//@rewritere &mut impl Reader => &mut ChimpNReader
//@rewritere r\s*\.decompress_iter\(\)\?\s*\.collect::<decoder::Result<Vec<f64>>>\(\)\? => collect_all(r.decompress_iter()?)?
//@fn default_decompress ret=ret
    requires old(r).rok()
    ensures ret is Ok, ret->Ok_0@ == old(r).recs(), final(r).rok(), final(r).recs() == old(r).recs()
//@enditem
} // mod cn
} // verus!
fn main() {}
