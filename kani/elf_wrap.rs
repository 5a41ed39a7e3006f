//@include lib/bitbuf.rs
//@append compressor/elf.rs
#[cfg(kani)]
pub mod vk {
    use super::*;
    pub fn any() -> ElfEncoderWrapper<super::super::super::verif_x::Raw> {
        ElfEncoderWrapper { size: kani::any(), last_beta_star: kani::any(), xor_encoder: Default::default() }
    }
    pub fn parts<T: XorEncoder>(e: &ElfEncoderWrapper<T>) -> (i32, usize) {
        (e.last_beta_star, e.size)
    }
}
//@new verif_x
// The wrapper is generic over the XOR coder; `Raw` stands for any coder that keeps its contract (P09-P11: the decoder returns
// exactly the word the encoder was given, and nothing after close).
use crate::compressor::general_xor::XorEncoder;
use crate::decoder::{self, chunk_reader::general_xor::XorDecoder, error::DecoderError};
use crate::io::bit_read::BitRead2;
use crate::io::bit_write::BitWrite;
#[derive(Default, Clone, Debug, PartialEq, PartialOrd)]
pub struct Raw;
const NAN: u64 = 0x7ff8000000000000;
impl XorEncoder for Raw {
    fn compress_float<W: BitWrite>(&mut self, mut w: W, bits: u64) -> usize {
        assert!(bits != NAN, "precondition of the XOR coders: not the end marker");
        w.write_bits(bits, 64);
        64
    }
    fn close<W: BitWrite>(&mut self, mut w: W) {
        w.write_bits(NAN, 64);
    }
    fn simulate_close(&self) -> usize {
        64
    }
    fn reset(&mut self) {}
}
impl XorDecoder for Raw {
    fn decompress_float<R: BitRead2>(&mut self, mut r: R) -> decoder::Result<Option<f64>> {
        let b = r.read_bits(64).ok_or(DecoderError::UnexpectedEndOfChunk)?;
        Ok(if b == NAN { None } else { Some(f64::from_bits(b)) })
    }
    fn reset(&mut self) {}
}
/// any outcome of the decimal analysis
pub fn any_analysis(_v: f64, _last: i32) -> (u32, i32) {
    (kani::any(), kani::any())
}
pub fn any_f_alpha(_alpha: u32) -> u32 {
    kani::any()
}
/// any function of its two arguments (deterministic: the same arguments give the same result)
// (the start value is of its own: Kani merges statics with constants of equal content)
pub static mut MEMO: (u64, Option<(u64, i32, u64)>) = (0x5eed_0000_1234_4321, None);
pub fn some_restore(v: f64, beta_star: i32) -> f64 {
    unsafe {
        if let Some((a, b, r)) = MEMO.1 {
            if a == v.to_bits() && b == beta_star {
                return f64::from_bits(r);
            }
        }
        let r: u64 = kani::any();
        MEMO.1 = Some((v.to_bits(), beta_star, r));
        f64::from_bits(r)
    }
}
//@append decoder/chunk_reader/elf.rs
#[cfg(kani)]
mod vk {
    use super::*;
    use crate::compressor::elf::{vk as e, ElfEncoderWrapper};
    use crate::compressor::general_xor::XorEncoder;
    use crate::verif_k::BitBuf;
    use crate::verif_x::{self, Raw};
    fn sync(enc: &ElfEncoderWrapper<Raw>, dec: &ElfDecoderWrapper<Raw>) -> bool {
        let (b, size) = e::parts(enc);
        b == dec.last_beta_star && (b == i32::MAX || (0..16).contains(&b)) && size < (1 << 60)
    }
    fn feed(enc: &mut ElfEncoderWrapper<Raw>, dec: &mut ElfDecoderWrapper<Raw>) {
        let x: u64 = kani::any();
        kani::assume(!f64::from_bits(x).is_nan());
        let mut b = BitBuf::new();
        enc.compress_float(&mut b, x);
        match dec.decompress_float(&mut b) {
            Ok(Some(y)) => assert!(y.to_bits() == x),
            _ => assert!(false),
        }
        assert!(b.pos == b.n);
        kani::assume(e::parts(enc).1 < (1 << 60));
        assert!(sync(enc, dec));
        kani::cover!(b.n == 65);
        kani::cover!(b.n == 66);
        kani::cover!(b.n == 70);
    }
    #[kani::proof]
    #[kani::stub(crate::compression_common::elf::get_alpha_and_beta_star, verif_x::any_analysis)]
    #[kani::stub(crate::compression_common::elf::get_f_alpha, verif_x::any_f_alpha)]
    #[kani::stub(crate::compression_common::elf::restore, verif_x::some_restore)]
    fn elf_wrap_step() {
        let mut enc = e::any();
        let mut dec = ElfDecoderWrapper::<Raw> { last_beta_star: kani::any(), xor_decoder: Raw };
        kani::assume(sync(&enc, &dec));
        feed(&mut enc, &mut dec);
    }
    #[kani::proof]
    fn elf_wrap_close() {
        let mut enc = e::any();
        let mut dec = ElfDecoderWrapper::<Raw> { last_beta_star: kani::any(), xor_decoder: Raw };
        kani::assume(sync(&enc, &dec));
        let mut b = BitBuf::new();
        let sim = enc.simulate_close();
        enc.close(&mut b);
        assert!(sim == b.n as usize);
        assert!(matches!(dec.decompress_float(&mut b), Ok(None)));
        XorEncoder::reset(&mut enc);
        assert!(enc == ElfEncoderWrapper::<Raw>::default());
        XorDecoder::reset(&mut dec);
        assert!(dec == ElfDecoderWrapper::<Raw>::default());
        assert!(sync(&ElfEncoderWrapper::default(), &ElfDecoderWrapper::default()));
        kani::cover!(true);
    }
}
