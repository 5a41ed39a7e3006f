pub mod rd {
use super::*;
use super::bits::*;
use core::marker::PointeeSized;
broadcast use super::bits::bit_lemmas;

/// Assumed: `as_ref` is a pure function of the holder (it always exposes the same bytes).
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<U: PointeeSized>: PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsRef<U>;
    spec fn spec_as_ref(&self) -> &U;
    fn as_ref(&self) -> (r: &U) ensures r == self.spec_as_ref();
}

/// the value of the n bits starting at bit p of s, most significant first (only the last 64 count)
pub open spec fn is_bits_value(s: Seq<u8>, p: int, n: int, v: u64) -> bool {
    forall|i: int| 0 <= i < 64 ==> #[trigger] b64(v, i) == (i < n && bit_at(s, p + n - 1 - i))
}
/// the eight bits starting at bit p of s are those of b, most significant first
pub open spec fn byte_at(s: Seq<u8>, p: int, b: u8) -> bool { forall|k: int| 0 <= k < 8 ==> #[trigger] b8(b, k) == bit_at(s, p + k) }

//@item ebi/src/io/bit_read.rs :: trait BitRead2
    spec fn rinv(&self) -> bool;
    /// the bytes being read, and the cursor in bits from their start
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
//@fn read_bit ret=r
        requires old(self).rinv()
        ensures final(self).rinv(), final(self).data() == old(self).data(),
            old(self).pos() < 8 * old(self).data().len() ==> r == Some(bit_at(old(self).data(), old(self).pos())) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= 8 * old(self).data().len() ==> r is None && final(self).pos() == old(self).pos()
//@fn read_byte ret=r
        requires old(self).rinv()
        ensures final(self).rinv(), final(self).data() == old(self).data(),
            old(self).pos() + 8 <= 8 * old(self).data().len() ==> r is Some && final(self).pos() == old(self).pos() + 8
                && byte_at(old(self).data(), old(self).pos(), r->Some_0),
            old(self).pos() + 8 > 8 * old(self).data().len() ==> r is None && final(self).pos() == old(self).pos()
//@fn read_bits ret=r
        requires old(self).rinv()
        ensures final(self).rinv(), final(self).data() == old(self).data(),
            (n == 0 || old(self).pos() + n <= 8 * old(self).data().len()) ==> r is Some && final(self).pos() == old(self).pos() + n
                && is_bits_value(old(self).data(), old(self).pos(), n as int, r->Some_0),
            n > 0 && old(self).pos() + n > 8 * old(self).data().len() ==> r is None && final(self).pos() == old(self).pos(),
//@fn peak_bits ret=r
        requires old(self).rinv()
        ensures final(self).rinv(), final(self).data() == old(self).data(), final(self).pos() == old(self).pos(),
            (n == 0 || old(self).pos() + n <= 8 * old(self).data().len()) ==> r is Some
                && is_bits_value(old(self).data(), old(self).pos(), n as int, r->Some_0),
            n > 0 && old(self).pos() + n > 8 * old(self).data().len() ==> r is None,
//@enditem
} // mod rd
