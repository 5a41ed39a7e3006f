pub mod tr {
use super::*;
use super::bits::*;
broadcast use super::bits::bit_lemmas;

pub open spec fn resized(s: Seq<bool>, n: nat) -> Seq<bool> { Seq::new(n, |i: int| i < s.len() && s[i]) }
pub open spec fn is_padded(s: Seq<bool>, b: Seq<u8>) -> bool {
  &&& 8 * b.len() - 8 < s.len() <= 8 * b.len()
  &&& forall|i: int| 0 <= i < 8 * b.len() ==> #[trigger] bit_at(b, i) == (i < s.len() && s[i])
}
//@item ebi/src/io/bit_write.rs :: trait BitWrite
    /// representation invariant and abstract view: the bits written so far, in order
    spec fn inv(&self) -> bool;
    spec fn bits(&self) -> Seq<bool>;
//@fn write_bit
        requires old(self).inv()
        ensures final(self).inv(), final(self).bits() =~= old(self).bits().push(bit)
//@fn write_byte
        requires old(self).inv()
        ensures final(self).inv(), final(self).bits() =~= old(self).bits() + u8_bits(byte)
//@fn write_bits
        requires old(self).inv(), num <= 64
        ensures final(self).inv(), final(self).bits() =~= old(self).bits() + u64_bits(bits, num as nat)
//@loop 1
            invariant self.inv(), remaining_bits <= num <= 64,
              self.bits() =~= old(self).bits() + u64_bits(bits, num as nat).take(num - remaining_bits),
            decreases remaining_bits
//@loop 2 it=it
            invariant self.inv(), remaining_bits < 8, remaining_bits <= num <= 64,
              forall|j: int| 0 <= j < remaining_bits ==> b64(remaining_bits_value, j) == b64(bits, j),
              self.bits() =~= old(self).bits() + u64_bits(bits, num as nat).take(num - remaining_bits + it.index()),
//@loopstart 2
            assert(b64(remaining_bits_value, i as int) == b64(bits, i as int));
//@fn set_cursor_at_in_bit
        requires old(self).inv()
        ensures final(self).inv(), final(self).bits() =~= resized(old(self).bits(), bit_cursor as nat)
//@fn number_of_bits_written ret=r
        requires self.inv(), self.bits().len() < 0x1000_0000_0000_0000
        ensures r == self.bits().len()
//@fn as_slice ret=r
        requires self.inv()
        ensures is_padded(self.bits(), r@)
//@fn reset
        ensures final(self).inv(), final(self).bits() =~= Seq::<bool>::empty()
//@enditem
} // mod tr
