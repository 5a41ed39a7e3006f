//@include lib/bitbuf.rs
//@append compressor/gorilla.rs :: modified_tsz
    #[cfg(kani)]
    pub mod vk {
        use super::*;
        pub fn any() -> GorillaFloatEncoder {
            GorillaFloatEncoder { state: GorillaFloatEncoderState { value_bits: kani::any(), leading_zeroes: kani::any(), trailing_zeroes: kani::any(), first: false } }
        }
        /// (value, leading, trailing, first)
        pub fn parts(e: &GorillaFloatEncoder) -> (u64, u32, u32, bool) {
            (e.state.value_bits, e.state.leading_zeroes, e.state.trailing_zeroes, e.state.first)
        }
    }
//@append decoder/chunk_reader/gorilla.rs :: modified_tsz
    #[cfg(kani)]
    mod vk {
        use super::*;
        use crate::compressor::general_xor::XorEncoder;
        use crate::compressor::gorilla::modified_tsz::{vk as e, GorillaFloatEncoder};
        use crate::decoder::chunk_reader::general_xor::XorDecoder;
        use crate::verif_k::BitBuf;
        const NAN: u64 = 0x7ff8000000000000;
        fn any() -> GorillaDecoder {
            GorillaDecoder { value_bits: kani::any(), leading_zeroes: kani::any(), trailing_zeroes: kani::any(), first: false, done: false }
        }
        // encoder and decoder agree: same last value; either no window yet, or the same one
        fn sync(enc: &GorillaFloatEncoder, dec: &GorillaDecoder) -> bool {
            let (v, l, t, first) = e::parts(enc);
            !first && !dec.first && !dec.done && v == dec.value_bits && v != NAN
                && (l > 63 || (t <= 63 && l + t <= 63 && l as u64 == dec.leading_zeroes as u64 && t as u64 == dec.trailing_zeroes as u64))
        }
        fn feed(enc: &mut GorillaFloatEncoder, dec: &mut GorillaDecoder, x: u64) {
            let mut b = BitBuf::new();
            let sim = enc.simulate_encode(x);
            let n = enc.compress_float(&mut b, x);
            assert!(n == b.n as usize);
            assert!(sim == n);
            let r = dec.decompress_float(&mut b);
            match r {
                Ok(Some(y)) => assert!(y.to_bits() == x),
                _ => assert!(false),
            }
            assert!(b.pos == b.n);
            assert!(sync(enc, dec));
        }
        fn finish(enc: &mut GorillaFloatEncoder, dec: &mut GorillaDecoder) {
            let mut b = BitBuf::new();
            let sim = enc.simulate_close();
            enc.close(&mut b);
            assert!(sim == b.n as usize);
            assert!(matches!(dec.decompress_float(&mut b), Ok(None)));
            assert!(b.pos <= b.n);
            assert!(matches!(dec.decompress_float(&mut b), Ok(None)));
            enc.reset();
            assert!(*enc == GorillaFloatEncoder::new());
            XorDecoder::reset(dec);
            assert!(*dec == GorillaDecoder::default());
        }
        #[kani::proof]
        fn gorilla_first() {
            let x: u64 = kani::any();
            kani::assume(x != NAN);
            feed(&mut GorillaFloatEncoder::default(), &mut GorillaDecoder::default(), x);
            kani::cover!(true);
        }
        #[kani::proof]
        fn gorilla_step() {
            let (mut enc, mut dec) = (e::any(), any());
            kani::assume(sync(&enc, &dec));
            let x: u64 = kani::any();
            kani::assume(x != NAN);
            feed(&mut enc, &mut dec, x);
            kani::cover!(true);
        }
        #[kani::proof]
        fn gorilla_close() {
            let (mut enc, mut dec) = (e::any(), any());
            kani::assume(sync(&enc, &dec));
            finish(&mut enc, &mut dec);
            kani::cover!(true);
        }
        #[kani::proof]
        fn gorilla_close_empty() {
            finish(&mut GorillaFloatEncoder::default(), &mut GorillaDecoder::default());
            kani::cover!(true);
        }
    }
