//@include lib/prelude.rs
//@include lib/float.rs
pub mod pl {
use super::*;
use std::mem::{size_of, size_of_val};
pub mod encoder { pub struct EncoderError { } pub type Result<T> = std::result::Result<T, EncoderError>; }
//@item ebi/src/compressor/uncompressed.rs :: struct UncompressedCompressor
//@enditem
pub open spec fn lim() -> int { 0x100_0000_0000_0000 }
impl UncompressedCompressor {
    pub closed spec fn recs(&self) -> Seq<f64> { self.buffer@ }
    pub closed spec fn ok(&self) -> bool { self.total_bytes_in == 8 * self.buffer@.len() && self.buffer@.len() < lim() }
}
global size_of f64 == 8;
pub trait Compressor: Sized {
    spec fn v(&self) -> Seq<f64>;
    spec fn good(&self) -> bool;
    fn compress(&mut self, input: &[f64]) -> (r: encoder::Result<()>)
        requires old(self).good(), input@.len() < lim()
        ensures r is Ok, final(self).good(), final(self).v() == input@;
    fn total_bytes_in(&self) -> (r: usize)
        requires self.good()
        ensures r == 8 * self.v().len();
    fn total_bytes_buffered(&self) -> (r: usize)
        requires self.good()
        ensures r == 8 * self.v().len();
    fn prepare(&mut self)
        requires old(self).good()
        ensures final(self).good(), final(self).v() == old(self).v();
    fn reset(&mut self)
        requires old(self).good()
        ensures final(self).good(), final(self).v() == Seq::<f64>::empty();
}
pub trait AppendableCompressor: Compressor {
    fn append_compress(&mut self, input: &[f64])
        requires old(self).good(), old(self).v().len() + input@.len() < lim()
        ensures final(self).good(), final(self).v() == old(self).v() + input@;
}
pub trait RewindableCompressor: AppendableCompressor {
    fn rewind(&mut self, n: usize) -> (r: bool)
        requires old(self).good()
        ensures final(self).good(), r == (n <= old(self).v().len()),
            r ==> final(self).v() == old(self).v().take(old(self).v().len() - n),
            !r ==> final(self).v() == old(self).v();
}
//@item ebi/src/compressor/uncompressed.rs :: impl UncompressedCompressor
//@fn new ret=r
    ensures r.ok(), r.recs() == Seq::<f64>::empty()
//@enditem
//@item ebi/src/compressor/uncompressed.rs :: impl Compressor for UncompressedCompressor
    open spec fn v(&self) -> Seq<f64> { self.recs() }
    open spec fn good(&self) -> bool { self.ok() }
//@skip buffers, execution_times
//@fn compress
//@loop 1 it=it
    invariant self.buffer@ == input@.take(it.index@), self.total_bytes_in == 0, input@.len() < lim(),
//@enditem
//@item ebi/src/compressor/uncompressed.rs :: impl AppendableCompressor for UncompressedCompressor
//@fn append_compress
//@loop 1 it=it
    invariant self.buffer@ == old(self).buffer@ + input@.take(it.index@), self.total_bytes_in == old(self).total_bytes_in,
//@enditem
//@item ebi/src/compressor/uncompressed.rs :: impl RewindableCompressor for UncompressedCompressor
//@fn rewind
//@enditem
}
fn main() {}
}
