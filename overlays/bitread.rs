//@include lib/prelude.rs
//@include lib/bits.rs
//@include lib/bitread.rs
pub mod rdimp {
use super::*;
use super::bits::*;
use super::rd::*;
broadcast use super::bits::bit_lemmas;
pub open spec fn cursor(byte_pos: int, bit_pos: int) -> int { 8 * byte_pos + bit_pos }
//@item ebi/src/io/bit_read.rs :: struct BufferedBitReader
//@enditem
impl<T: AsRef<[u8]>> BufferedBitReader<T> {
    pub closed spec fn d(&self) -> Seq<u8> { self.buffer.spec_as_ref()@ }
    pub closed spec fn p(&self) -> int { cursor(self.byte_pos as int, self.bit_pos as int) }
    pub closed spec fn ok(&self) -> bool { self.bit_pos < 8 && self.d().len() < 0x1000_0000_0000_0000 }
}
//@item ebi/src/io/bit_read.rs :: impl<T: AsRef<[u8]>> BufferedBitReader<T>
//@fn new ret=r
        requires buffer.spec_as_ref()@.len() < 0x1000_0000_0000_0000
        ensures r.ok(), r.d() == buffer.spec_as_ref()@, r.p() == 0
//@fn reset
        ensures old(self).ok() ==> final(self).ok(), final(self).d() == old(self).d(), final(self).p() == 0
//@fn read_bit_unchecked ret=r
        requires old(self).ok(), old(self).p() < 8 * old(self).d().len()
        ensures final(self).ok(), final(self).d() == old(self).d(), final(self).p() == old(self).p() + 1,
            r == bit_at(old(self).d(), old(self).p())
//@fn read_byte_unchecked ret=r
        requires old(self).ok(), old(self).p() < 8 * old(self).d().len()
        ensures final(self).ok(), final(self).d() == old(self).d(), final(self).p() == old(self).p() + 8,
            forall|k: int| 0 <= k < 8 ==> #[trigger] b8(r, k) == (old(self).p() + k < 8 * old(self).d().len() && bit_at(old(self).d(), old(self).p() + k))
//@fn skip_bits
        requires old(self).ok(), old(self).p() + n < 0x1_0000_0000_0000_0000
        ensures final(self).ok(), final(self).d() == old(self).d(), final(self).p() == old(self).p() + n
//@enditem
//@item ebi/src/io/bit_read.rs :: impl<T: AsRef<[u8]>> BitRead2 for BufferedBitReader<T>
    closed spec fn rinv(&self) -> bool { self.ok() }
    closed spec fn data(&self) -> Seq<u8> { self.d() }
    closed spec fn pos(&self) -> int { self.p() }
//@fn read_bits
//@loop 1
            invariant self.ok(), self.d() == old(self).d(), remaining_bits <= n,
                self.p() == old(self).p() + n - remaining_bits,
                n == 0 || old(self).p() + n <= 8 * old(self).d().len(),
                is_bits_value(self.d(), old(self).p(), n - remaining_bits, result),
            decreases remaining_bits
//@loop 2 it=it
            invariant self.ok(), self.d() == old(self).d(), remaining_bits <= n,
                self.p() == old(self).p() + n - remaining_bits + it.index(),
                n == 0 || old(self).p() + n <= 8 * old(self).d().len(),
                is_bits_value(self.d(), old(self).p(), n - remaining_bits + it.index(), result),
//@enditem
} // mod rdimp
pub mod fwd {
use super::*;
use super::bits::*;
use super::rd::*;
//@item ebi/src/io/bit_read.rs :: impl<T: BitRead2> BitRead2 for &mut T
    open spec fn rinv(&self) -> bool { (**self).rinv() }
    open spec fn data(&self) -> Seq<u8> { (**self).data() }
    open spec fn pos(&self) -> int { (**self).pos() }
//@enditem
} // mod fwd
} // verus!
fn main() {}
