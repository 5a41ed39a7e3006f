//@include lib/bitbuf.rs
//@append compressor/elf.rs
#[cfg(kani)]
pub mod vk {
    use super::*;
    pub fn any() -> ElfXorEncoder {
        ElfXorEncoder { stored_leading_zeros: kani::any(), stored_trailing_zeros: kani::any(), stored_val: kani::any(), first: false, size: kani::any() }
    }
    /// (value, leading, trailing, first, size)
    pub fn parts(e: &ElfXorEncoder) -> (u64, u32, u32, bool, usize) {
        (e.stored_val, e.stored_leading_zeros, e.stored_trailing_zeros, e.first, e.size)
    }
}
//@append decoder/chunk_reader/elf.rs
#[cfg(kani)]
mod vk {
    use super::*;
    use crate::compressor::elf::{vk as e, ElfXorEncoder};
    use crate::compressor::general_xor::XorEncoder;
    use crate::verif_k::BitBuf;
    const NAN: u64 = 0x7ff8000000000000;
    fn any() -> ElfXorDecoder {
        ElfXorDecoder { stored_val: kani::any(), stored_leading_zeros: kani::any(), stored_trailing_zeros: kani::any(), first: false, end_of_stream: false }
    }
    fn sync(enc: &ElfXorEncoder, dec: &ElfXorDecoder) -> bool {
        let (v, l, t, first, size) = e::parts(enc);
        !first && !dec.first && !dec.end_of_stream && v == dec.stored_val && v != NAN && size < (1 << 60)
            && (l > 24 || (t <= 63 && l + t <= 63 && l == dec.stored_leading_zeros && t == dec.stored_trailing_zeros))
    }
    fn feed(enc: &mut ElfXorEncoder, dec: &mut ElfXorDecoder, x: u64) {
        let mut b = BitBuf::new();
        let sim = enc.simulate_compress_float(x);
        let n = enc.compress_float(&mut b, x);
        assert!(n == b.n as usize);
        assert!(sim == n);
        match dec.decompress_float(&mut b) {
            Ok(Some(y)) => assert!(y.to_bits() == x),
            _ => assert!(false),
        }
        assert!(b.pos == b.n);
        kani::assume(e::parts(enc).4 < (1 << 60));
        assert!(sync(enc, dec));
    }
    fn finish(enc: &mut ElfXorEncoder, dec: &mut ElfXorDecoder) {
        let mut b = BitBuf::new();
        let sim = enc.simulate_close();
        enc.close(&mut b);
        assert!(sim == b.n as usize);
        assert!(matches!(dec.decompress_float(&mut b), Ok(None)));
        assert!(b.pos <= b.n);
        assert!(matches!(dec.decompress_float(&mut b), Ok(None)));
        XorEncoder::reset(enc);
        assert!(*enc == ElfXorEncoder::new());
        XorDecoder::reset(dec);
        assert!(*dec == ElfXorDecoder::default());
    }
    #[kani::proof]
    fn elf_first() {
        let x: u64 = kani::any();
        kani::assume(x != NAN);
        feed(&mut ElfXorEncoder::default(), &mut ElfXorDecoder::default(), x);
        kani::cover!(true);
    }
    #[kani::proof]
    fn elf_step() {
        let (mut enc, mut dec) = (e::any(), any());
        kani::assume(sync(&enc, &dec));
        let x: u64 = kani::any();
        kani::assume(x != NAN);
        feed(&mut enc, &mut dec, x);
        kani::cover!(true);
    }
    #[kani::proof]
    fn elf_close() {
        let (mut enc, mut dec) = (e::any(), any());
        kani::assume(sync(&enc, &dec));
        finish(&mut enc, &mut dec);
        kani::cover!(true);
    }
    #[kani::proof]
    fn elf_close_empty() {
        finish(&mut ElfXorEncoder::default(), &mut ElfXorDecoder::default());
        kani::cover!(true);
    }
}
