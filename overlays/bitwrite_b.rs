//@include lib/prelude.rs
//@include lib/bits.rs
//@include lib/bitwrite_trait.rs
pub mod imp {
use super::*;
use super::bits::*;
use super::tr::*;
broadcast use super::bits::bit_lemmas;
pub open spec fn w_inv(b: Seq<u8>, p: int) -> bool {
    &&& 1 <= p <= 8
    &&& b.len() == 0 ==> p == 8
    &&& forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < 8 && 8 * j + k >= 8 * b.len() - 8 + p ==> !#[trigger] b8(b[j], k)
}
pub open spec fn w_bits(b: Seq<u8>, p: int) -> Seq<bool> {
    Seq::new((8 * b.len() - 8 + p) as nat, |i: int| b8(b[i / 8], i % 8))
}
//@item ebi/src/io/bit_write.rs :: struct BufferedBitWriter
//@enditem
impl BufferedBitWriter {
    pub closed spec fn w_buf(&self) -> Seq<u8> { self.buffer@ }
}
//@item ebi/src/io/bit_write.rs :: impl BufferedBitWriter
//@fn new ret=r
        ensures r.inv(), r.bits() =~= Seq::<bool>::empty()
//@fn with_capacity ret=r
        ensures r.inv(), r.bits() =~= Seq::<bool>::empty()
//@fn from_vec ret=r
        ensures r.inv(), r.bits() =~= Seq::<bool>::empty()
//@fn close ret=r
        requires self.inv()
        ensures is_padded(self.bits(), r@)
//@enditem
//@item ebi/src/io/bit_write.rs :: impl Default for BufferedBitWriter
//@enditem
//@item ebi/src/io/bit_write.rs :: impl BitWrite for BufferedBitWriter
    closed spec fn inv(&self) -> bool { w_inv(self.buffer@, self.bit_pos as int) }
    closed spec fn bits(&self) -> Seq<bool> { w_bits(self.buffer@, self.bit_pos as int) }
//@fn set_cursor_at_in_bit
//@end
        proof {
            let o = old(self).buffer@;
            let n = self.buffer@;
            assert forall|j: int, k: int| 0 <= j < n.len() && 0 <= k < 8 && 8 * j + k < bit_cursor implies
                #[trigger] b8(n[j], k) == (j < o.len() && b8(o[j], k)) by { }
        }
//@enditem
} // mod imp
pub mod fwd {
use super::*;
use super::bits::*;
use super::tr::*;
//@item ebi/src/io/bit_write.rs :: impl<W: BitWrite> BitWrite for &mut W
    open spec fn inv(&self) -> bool { (**self).inv() }
    open spec fn bits(&self) -> Seq<bool> { (**self).bits() }
//@enditem
} // mod fwd
} // verus!
fn main() {}
