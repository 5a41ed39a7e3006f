pub mod bp {
use super::*;
use super::lb::*;
broadcast use super::lb::lbit_lemmas;
//@item ebi/src/compression_common/buff.rs :: mod bit_packing :: const MAX_BITS
//@enditem
//@item ebi/src/compression_common/buff.rs :: mod bit_packing :: const BYTE_BITS
//@enditem
//@item ebi/src/compression_common/buff.rs :: mod bit_packing :: struct BitPack
//@enditem
pub open spec fn le32(s: Seq<u8>, i: int) -> int { s[i] + 256 * s[i + 1] + 65536 * s[i + 2] + 16777216 * s[i + 3] }
#[verifier::external_body]
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le32(b@, 0) { u32::from_le_bytes(b) }
pub trait TryIntoArray { spec fn v(&self) -> Seq<u8>; fn try_into_array(&self) -> (r: [u8; 4]) requires self.v().len() == 4 ensures r@ == self.v(); }
impl TryIntoArray for [u8] {
    open spec fn v(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn try_into_array(&self) -> (r: [u8; 4]) { self.try_into().unwrap() }
}
pub open spec fn lim() -> int { 0x100_0000_0000 }
impl<B> BitPack<B> {
    pub closed spec fn p(&self) -> int { self.cursor * 8 + self.bits }
    pub closed spec fn al(&self) -> bool { self.bits == 0 }
    pub closed spec fn b(&self) -> B { self.buff }
    pub closed spec fn pos_ok(&self) -> bool { self.bits < 8 && self.cursor <= lim() }
}
impl<'a> BitPack<&'a mut [u8]> {
    pub closed spec fn d(&self) -> Seq<u8> { (*self.buff)@ }
    pub closed spec fn ok(&self) -> bool { self.pos_ok() && self.d().len() < lim() }
    /// what the borrowed buffer holds when the borrow ends
    #[verifier::prophetic] pub closed spec fn fin(&self) -> Seq<u8> { final(self.buff)@ }
}
//@item ebi/src/compression_common/buff.rs :: mod bit_packing :: impl<B> BitPack<B>
//@fn new ret=r
    ensures r.p() == 0, r.b() == buff, r.al(), r.pos_ok()
//@fn sum_bits ret=r
    requires self.p() < 0x8000_0000_0000_0000
    ensures r == self.p()
//@enditem
//@item ebi/src/compression_common/buff.rs :: mod bit_packing :: impl BitPack<&mut [u8]>
//@fn write ret=r
    requires old(self).ok(), 0 < bits < lim()
    ensures final(self).ok(), final(self).fin() == old(self).fin(),
        bits <= 32 && old(self).p() + bits <= 8 * old(self).d().len() ==> r is Ok && final(self).p() == old(self).p() + bits
            && packed(old(self).d(), final(self).d(), old(self).p(), bits as int, value),
        !(bits <= 32 && old(self).p() + bits <= 8 * old(self).d().len()) ==> r == Err::<(), usize>(bits) && final(self).d() == old(self).d() && final(self).p() == old(self).p(),
//@start
    let ghost bits0 = bits;
    let ghost value0 = value;
//@loop 1
    invariant_except_break self.ok(), self.fin() == old(self).fin(), 0 < bits <= bits0 <= 32, self.p() + bits == old(self).p() + bits0, old(self).p() + bits0 <= 8 * self.d().len(),
        packed(old(self).d(), self.d(), old(self).p(), bits0 - bits, value0),
        forall|k: int| 0 <= k < 32 ==> #[trigger] l32(value, k) == (k < bits && l32(value0, k + (bits0 - bits))),
    ensures self.ok(), self.fin() == old(self).fin(), self.p() == old(self).p() + bits0, packed(old(self).d(), self.d(), old(self).p(), bits0 as int, value0),
    decreases bits
//@fn write_bits ret=r
    requires old(self).ok(), 0 < bits <= 8
    ensures final(self).ok(), final(self).fin() == old(self).fin(),
        old(self).p() + bits <= 8 * old(self).d().len() ==> r is Ok && final(self).p() == old(self).p() + bits
            && packed(old(self).d(), final(self).d(), old(self).p(), bits as int, value),
        !(old(self).p() + bits <= 8 * old(self).d().len()) ==> r == Err::<(), usize>(bits) && final(self).d() == old(self).d() && final(self).p() == old(self).p(),
//@start
    let ghost bits0 = bits;
    let ghost value0 = value;
//@loop 1
    invariant_except_break self.ok(), self.fin() == old(self).fin(), 0 < bits <= bits0 <= 32, self.p() + bits == old(self).p() + bits0, old(self).p() + bits0 <= 8 * self.d().len(),
        packed(old(self).d(), self.d(), old(self).p(), bits0 - bits, value0),
        forall|k: int| 0 <= k < 32 ==> #[trigger] l32(value, k) == (k < bits && l32(value0, k + (bits0 - bits))),
    ensures self.ok(), self.fin() == old(self).fin(), self.p() == old(self).p() + bits0, packed(old(self).d(), self.d(), old(self).p(), bits0 as int, value0),
    decreases bits
//@enditem
impl<'a> BitPack<&'a [u8]> {
    pub closed spec fn rd(&self) -> Seq<u8> { self.buff@ }
    pub closed spec fn rok(&self) -> bool { self.pos_ok() && self.rd().len() < lim() }
    pub broadcast proof fn reader_of(self)
        ensures #[trigger] self.rd() == self.b()@, self.al() ==> self.p() % 8 == 0
    { }
    pub broadcast proof fn reader_ok(self)
        requires self.pos_ok(), self.rd().len() < lim()
        ensures #[trigger] self.rok()
    { }
}
//@item ebi/src/compression_common/buff.rs :: mod bit_packing :: impl BitPack<&[u8]>
//@rewrite u32::from_le_bytes => u32_from_le_bytes
//@rewrite .try_into().unwrap() => .try_into_array()
//@fn read_u32 ret=r
    requires old(self).rok()
    ensures final(self).rok(), final(self).b() == old(self).b(), final(self).rd() == old(self).rd(),
        old(self).p() + 32 <= 8 * old(self).rd().len() ==> r is Ok && final(self).p() == old(self).p() + 32 && final(self).al() == old(self).al()
            && r->Ok_0 == le32(old(self).rd(), old(self).p() / 8),
        old(self).p() + 32 > 8 * old(self).rd().len() ==> r == Err::<u32, usize>(32) && final(self).p() == old(self).p(),
//@fn read ret=r
    requires old(self).rok(), 0 < bits < lim()
    ensures final(self).rok(), final(self).b() == old(self).b(), final(self).rd() == old(self).rd(),
        bits <= 32 && old(self).p() + bits <= 8 * old(self).rd().len() ==> r is Ok && final(self).p() == old(self).p() + bits
            && is_lvalue(old(self).rd(), old(self).p(), bits as int, r->Ok_0),
        !(bits <= 32 && old(self).p() + bits <= 8 * old(self).rd().len()) ==> r == Err::<u32, usize>(bits) && final(self).p() == old(self).p(),
//@start
    let ghost bits0 = bits;
//@loop 1
    invariant_except_break self.rok(), self.b() == old(self).b(), 0 < bits <= bits0 <= 32, self.p() + bits == old(self).p() + bits0, old(self).p() + bits0 <= 8 * self.rd().len(),
        bits_left == bits0 - bits,
        is_lvalue(self.rd(), old(self).p(), bits0 - bits, output),
    ensures self.rok(), self.b() == old(self).b(), self.p() == old(self).p() + bits0, is_lvalue(self.rd(), old(self).p(), bits0 as int, output),
    decreases bits
//@fn read_bits ret=r
    requires old(self).rok(), 0 < bits <= 8
    ensures final(self).rok(), final(self).b() == old(self).b(), final(self).rd() == old(self).rd(),
        old(self).p() + bits <= 8 * old(self).rd().len() ==> r is Ok && final(self).p() == old(self).p() + bits
            && is_lvalue(old(self).rd(), old(self).p(), bits as int, r->Ok_0 as u32),
        !(old(self).p() + bits <= 8 * old(self).rd().len()) ==> r == Err::<u8, usize>(bits) && final(self).p() == old(self).p(),
//@start
    let ghost bits0 = bits;
//@loop 1
    invariant_except_break self.rok(), self.b() == old(self).b(), 0 < bits <= bits0 <= 8, self.p() + bits == old(self).p() + bits0, old(self).p() + bits0 <= 8 * self.rd().len(),
        bits_left == bits0 - bits,
        is_lvalue(self.rd(), old(self).p(), bits0 - bits, output),
    ensures self.rok(), self.b() == old(self).b(), self.p() == old(self).p() + bits0, is_lvalue(self.rd(), old(self).p(), bits0 as int, output),
    decreases bits
//@fn read_byte ret=r
    requires old(self).rok(), old(self).al(), old(self).p() < 8 * old(self).rd().len()
    ensures final(self).rok(), final(self).b() == old(self).b(), final(self).rd() == old(self).rd(), final(self).al(), final(self).p() == old(self).p() + 8, r == Ok::<u8, usize>(old(self).rd()[old(self).p() / 8])
//@fn read_n_byte ret=r
    requires old(self).rok(), old(self).al(), old(self).p() + 8 * n <= 8 * old(self).rd().len()
    ensures final(self).rok(), final(self).b() == old(self).b(), final(self).rd() == old(self).rd(), final(self).al(), final(self).p() == old(self).p() + 8 * n,
        r is Ok, r->Ok_0@ == old(self).rd().subrange(old(self).p() / 8, old(self).p() / 8 + n)
//@fn skip_n_byte ret=r
    requires old(self).rok(), old(self).p() + 8 * n <= 8 * old(self).rd().len()
    ensures final(self).rok(), final(self).b() == old(self).b(), final(self).rd() == old(self).rd(), final(self).p() == old(self).p() + 8 * n, r is Ok, final(self).al() == old(self).al()
//@fn skip ret=r
    requires old(self).rok(), bits < 8 * lim()
    ensures final(self).rok(), final(self).b() == old(self).b(), final(self).rd() == old(self).rd(),
        (bits == 0 || old(self).p() + bits <= 8 * old(self).rd().len()) ==> r is Ok && final(self).p() == old(self).p() + bits,
        !(bits == 0 || old(self).p() + bits <= 8 * old(self).rd().len()) ==> r == Err::<(), usize>(bits) && final(self).p() == old(self).p()
//@enditem
impl BitPack<Vec<u8>> {
    pub closed spec fn vd(&self) -> Seq<u8> { self.buff@ }
    pub closed spec fn vok(&self) -> bool { self.pos_ok() && self.vd().len() < lim() }
}
//@item ebi/src/compression_common/buff.rs :: mod bit_packing :: impl Default for BitPack<Vec<u8>>
//@fn default ret=r
    ensures r.vok(), r.p() == 0, r.vd() == Seq::<u8>::empty()
//@enditem
//@item ebi/src/compression_common/buff.rs :: mod bit_packing :: impl BitPack<Vec<u8>>
//@fn with_capacity ret=r
    ensures r.vok(), r.p() == 0, r.vd() == Seq::<u8>::empty()
//@fn write ret=r
    requires old(self).vok(), 0 < bits < lim(), old(self).p() + bits < 8 * (lim() - 8)
    ensures final(self).vok(),
        bits <= 32 ==> r is Ok && final(self).p() == old(self).p() + bits && vpacked(old(self).vd(), final(self).vd(), old(self).p(), bits as int, value)
            && final(self).vd().len() == grown(old(self).vd().len() as int, old(self).p() + bits),
        bits > 32 ==> r == Err::<(), usize>(bits) && final(self).p() == old(self).p() && vpacked(old(self).vd(), final(self).vd(), old(self).p(), 0, value),
//@fn write_bits ret=r
    requires old(self).vok(), 0 < bits <= 8, old(self).p() + bits < 8 * (lim() - 8)
    ensures final(self).vok(),
        r is Ok && final(self).p() == old(self).p() + bits && vpacked(old(self).vd(), final(self).vd(), old(self).p(), bits as int, value),
        final(self).vd().len() == grown(old(self).vd().len() as int, old(self).p() + bits),
//@fn write_byte
    requires old(self).vok(), old(self).vd().len() + 1 < lim()
    ensures final(self).vok(), final(self).vd() == old(self).vd().push(value), final(self).p() == old(self).p()
//@fn finish_write_byte
    requires old(self).vok(), old(self).vd().len() + 1 < lim()
    ensures final(self).vok(), final(self).vd() == old(self).vd().push(0u8), final(self).p() == 8 * old(self).vd().len()
//@fn into_vec ret=r
    ensures r@ == self.vd(), self.vok() ==> r@.len() < lim()
//@enditem
/// the least number of bytes that keeps what is there and holds p bits
pub open spec fn grown(len: int, p: int) -> int { if 8 * len >= p { len } else { (p + 7) / 8 } }
/// d2 is d1, extended with zero bytes as far as needed for p + n bits, with the low n bits of v or-ed in at bit p
pub open spec fn vpacked(d1: Seq<u8>, d2: Seq<u8>, p: int, n: int, v: u32) -> bool {
    &&& d2.len() >= d1.len() && 8 * d2.len() >= p + n
    &&& forall|j: int, k: int| 0 <= j < d2.len() && 0 <= k < 8 ==> #[trigger] l8(d2[j], k) == ((j < d1.len() && l8(d1[j], k)) || (p <= 8 * j + k < p + n && l32(v, 8 * j + k - p)))
}
} // mod bp
