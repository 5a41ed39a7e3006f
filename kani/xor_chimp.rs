//@include lib/bitbuf.rs
//@append compressor/chimp.rs
#[cfg(kani)]
pub mod vk {
    use super::*;
    pub fn any() -> ChimpEncoder {
        ChimpEncoder { stored_leading_zeros: kani::any(), stored_val: kani::any(), first: false, size: kani::any() }
    }
    /// (value, leading, first, size)
    pub fn parts(e: &ChimpEncoder) -> (u64, u32, bool, usize) {
        (e.stored_val, e.stored_leading_zeros, e.first, e.size)
    }
}
//@append decoder/chunk_reader/chimp.rs
#[cfg(kani)]
mod vk {
    use super::*;
    use crate::compressor::chimp::{vk as e, ChimpEncoder};
    use crate::compressor::general_xor::XorEncoder;
    use crate::verif_k::BitBuf;
    const NAN: u64 = 0x7ff8000000000000;
    fn any() -> ChimpDecoder {
        ChimpDecoder { stored_leading_zeros: kani::any(), stored_trailing_zeros: kani::any(), stored_val: kani::any(), first: false, end_of_stream: false }
    }
    // encoder and decoder agree: same last value; the encoder reuses a number of leading zeros only if the decoder has it
    fn sync(enc: &ChimpEncoder, dec: &ChimpDecoder) -> bool {
        let (v, l, first, size) = e::parts(enc);
        !first && !dec.first && !dec.end_of_stream && v == dec.stored_val && v != NAN && size < (1 << 60)
            && (l > 24 || l == dec.stored_leading_zeros)
    }
    fn feed(enc: &mut ChimpEncoder, dec: &mut ChimpDecoder, x: u64) {
        let mut b = BitBuf::new();
        let s0 = enc.size();
        let sim = enc.simulate_add_value(f64::from_bits(x));
        let n = enc.compress_float(&mut b, x);
        assert!(n == b.n as usize);
        assert!(enc.size() == s0 + n && sim == enc.size());
        match dec.decompress_float(&mut b) {
            Ok(Some(y)) => assert!(y.to_bits() == x),
            _ => assert!(false),
        }
        assert!(b.pos == b.n);
        kani::assume(enc.size() < (1 << 60));
        assert!(sync(enc, dec));
    }
    fn finish(enc: &mut ChimpEncoder, dec: &mut ChimpDecoder) {
        let mut b = BitBuf::new();
        let sim = enc.simulate_close();
        XorEncoder::close(enc, &mut b);
        assert!(sim == b.n as usize);
        assert!(matches!(dec.decompress_float(&mut b), Ok(None)));
        assert!(b.pos <= b.n);
        assert!(matches!(dec.decompress_float(&mut b), Ok(None)));
        XorEncoder::reset(enc);
        assert!(*enc == ChimpEncoder::new());
        XorDecoder::reset(dec);
        assert!(*dec == ChimpDecoder::default());
    }
    #[kani::proof]
    fn chimp_first() {
        let x: u64 = kani::any();
        kani::assume(x != NAN);
        feed(&mut ChimpEncoder::default(), &mut ChimpDecoder::default(), x);
        kani::cover!(true);
    }
    #[kani::proof]
    fn chimp_step() {
        let (mut enc, mut dec) = (e::any(), any());
        kani::assume(sync(&enc, &dec));
        let x: u64 = kani::any();
        kani::assume(x != NAN);
        feed(&mut enc, &mut dec, x);
        kani::cover!(true);
    }
    #[kani::proof]
    fn chimp_close() {
        let (mut enc, mut dec) = (e::any(), any());
        kani::assume(sync(&enc, &dec));
        finish(&mut enc, &mut dec);
        kani::cover!(true);
    }
    #[kani::proof]
    fn chimp_close_empty() {
        finish(&mut ChimpEncoder::default(), &mut ChimpDecoder::default());
        kani::cover!(true);
    }
}
