//@new verif_f
// The byte layout of every fixed-size part of the file, for every value of every field.
use crate::compressor::CompressorConfig;
use crate::encoder;
use crate::format::deserialize::{FromLeBytes, TryFromLeBytes};
use crate::format::native::{NativeChunkFooter, NativeFileFooter, NativeFileHeader};
use crate::format::run_length::RunLengthHeader;
use crate::format::serialize::{AsBytes, ToLe};
use crate::format::*;
use crate::time::{SegmentedExecutionTimes, SerializableSegmentedExecutionTimes};

#[cfg(kani)]
mod h {
    use super::*;
    fn le(b: &[u8], at: usize, n: usize) -> u128 {
        let mut r = 0u128;
        let mut i = 0;
        while i < n {
            r |= (b[at + i] as u128) << (8 * i);
            i += 1;
        }
        r
    }
    fn option() -> (encoder::ChunkOption, u8, u64) {
        let v: u64 = kani::any();
        match kani::any::<u8>() {
            0 => (encoder::ChunkOption::RecordCount(v as usize), 1, v),
            1 => (encoder::ChunkOption::ByteSizeBestEffort(v as usize), 2, v),
            _ => (encoder::ChunkOption::Full, 0, 0),
        }
    }
    fn scheme(b: u8) -> Option<CompressionScheme> {
        use CompressionScheme::*;
        Some(match b {
            0 => Uncompressed,
            1 => RLE,
            2 => BUFF,
            3 => Gorilla,
            4 => Chimp,
            5 => Chimp128,
            6 => ElfOnChimp,
            7 => Elf,
            8 => DeltaSprintz,
            9 => Zstd,
            10 => Gzip,
            11 => Snappy,
            12 => FFIAlp,
            _ => return None,
        })
    }
    #[kani::proof]
    #[kani::unwind(31)]
    fn header_written() {
        let k: u8 = kani::any();
        kani::assume(k <= 12);
        let version: [u16; 3] = kani::any();
        let footer_offset: u64 = kani::any();
        let (o, kind, value) = option();
        let s = scheme(k).unwrap();
        let mut h = FileHeader { magic_number: *b"EBI1", version, footer_offset, config: FileConfig { field_type: FieldType::F64, chunk_option: (&o).into(), compression_scheme: s } };
        let b = h.to_le().as_bytes();
        assert!(b.len() == 30);
        assert!(b[0] == b'E' && b[1] == b'B' && b[2] == b'I' && b[3] == b'1');
        assert!(b[4] == 0 && b[5] == k && b[6] == kind);
        assert!(kind == 0 || le(b, 8, 8) == value as u128);
        assert!(le(b, 16, 8) == footer_offset as u128);
        assert!(le(b, 24, 2) == version[0] as u128 && le(b, 26, 2) == version[1] as u128 && le(b, 28, 2) == version[2] as u128);
        let r = match FileHeader::try_from_le_bytes(b) {
            Ok(r) => r,
            Err(_) => {
                assert!(false, "header read back");
                return;
            }
        };
        let n = NativeFileHeader::from(&r);
        assert!(*n.magic_number() == *b"EBI1" && *n.version() == version && n.footer_offset() == footer_offset);
        assert!(n.config().field_type == FieldType::F64 && n.config().compression_scheme == s && n.config().chunk_option == o);
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(31)]
    fn header_read() {
        let b: [u8; 30] = kani::any();
        match FileHeader::try_from_le_bytes(&b) {
            Err(_) => assert!(b[4] != 0 || b[5] > 12 || b[6] > 2),
            Ok(r) => {
                assert!(b[4] == 0 && b[5] <= 12 && b[6] <= 2);
                let n = NativeFileHeader::from(&r);
                let m = *n.magic_number();
                assert!(m[0] == b[0] && m[1] == b[1] && m[2] == b[2] && m[3] == b[3]);
                assert!(n.config().compression_scheme as u8 == b[5]);
                assert!(n.footer_offset() as u128 == le(&b, 16, 8));
                let v = *n.version();
                assert!(v[0] as u128 == le(&b, 24, 2) && v[1] as u128 == le(&b, 26, 2) && v[2] as u128 == le(&b, 28, 2));
                match n.config().chunk_option {
                    encoder::ChunkOption::Full => assert!(b[6] == 0),
                    encoder::ChunkOption::RecordCount(x) => assert!(b[6] == 1 && x as u128 == le(&b, 8, 8)),
                    encoder::ChunkOption::ByteSizeBestEffort(x) => assert!(b[6] == 2 && x as u128 == le(&b, 8, 8)),
                }
            }
        }
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn footer_counts() {
        let (r, c): (u64, u64) = kani::any();
        let mut f = FileFooter0 { number_of_records: r, number_of_chunks: c };
        let b = f.to_le().as_bytes();
        assert!(b.len() == 16 && le(b, 0, 8) == r as u128 && le(b, 8, 8) == c as u128);
        let g = FileFooter0::from_le_bytes(b);
        assert!({ g.number_of_records } == r && { g.number_of_chunks } == c);
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(34)]
    fn chunk_footers() {
        let (a, b, c, d): (u64, u64, u64, u64) = kani::any();
        let mut two = [ChunkFooter { physical_offset: a, logical_offset: b }, ChunkFooter { physical_offset: c, logical_offset: d }];
        two[0].to_le();
        two[1].to_le();
        let x = two[..].as_bytes();
        assert!(x.len() == 32 && le(x, 0, 8) == a as u128 && le(x, 8, 8) == b as u128 && le(x, 16, 8) == c as u128 && le(x, 24, 8) == d as u128);
        let y = ChunkFooter::from_le_bytes(&x[16..]);
        let n = NativeChunkFooter::from(&y);
        assert!(n.physical_offset() == c && n.logical_offset() == d);
        let y = ChunkFooter::from_le_bytes(&x[..16]);
        assert!({ y.physical_offset } == a && { y.logical_offset } == b);
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn footer_tail() {
        let t: [u128; 9] = kani::any();
        let elapsed: u128 = kani::any();
        let crc: u32 = kani::any();
        let mut f = FileFooter3 {
            compression_elapsed_time_nano_secs: elapsed,
            execution_elapsed_times_nano_secs: SerializableSegmentedExecutionTimes {
                io_read_nanos: t[0],
                io_write_nanos: t[1],
                xor_nanos: t[2],
                delta_nanos: t[3],
                quantization_nanos: t[4],
                bit_packing_nanos: t[5],
                compare_insert_nanos: t[6],
                sum_nanos: t[7],
                decompression_nanos: t[8],
            },
            crc,
        };
        let b = f.to_le().as_bytes();
        assert!(b.len() == 16 + 144 + 4);
        assert!(le(b, 0, 16) == elapsed && le(b, 160, 4) == crc as u128);
        let mut i = 0;
        while i < 9 {
            assert!(le(b, 16 + 16 * i, 16) == t[i]);
            i += 1;
        }
        let g = FileFooter3::from_le_bytes(b);
        assert!({ g.compression_elapsed_time_nano_secs } == elapsed && { g.crc } == crc);
        let x = g.execution_elapsed_times_nano_secs;
        assert!({ x.io_read_nanos } == t[0] && { x.io_write_nanos } == t[1] && { x.xor_nanos } == t[2] && { x.delta_nanos } == t[3]);
        assert!({ x.quantization_nanos } == t[4] && { x.bit_packing_nanos } == t[5] && { x.compare_insert_nanos } == t[6]);
        assert!({ x.sum_nanos } == t[7] && { x.decompression_nanos } == t[8]);
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn run_length_header() {
        let n: u64 = kani::any();
        let mut h = RunLengthHeader::default();
        assert!(h.number_of_fields() == 0);
        h.set_number_of_fields(n);
        let b = h.to_le().as_bytes();
        assert!(b.len() == 8 && le(b, 0, 8) == n as u128);
        assert!(RunLengthHeader::from_le_bytes(b).number_of_fields() == n);
        kani::cover!(true);
    }
    // a writer of at most 17 bytes
    struct Out {
        b: [u8; 17],
        n: usize,
    }
    impl std::io::Write for Out {
        fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
            let mut i = 0;
            while i < x.len() {
                self.b[self.n] = x[i];
                self.n += 1;
                i += 1;
            }
            Ok(x.len())
        }
        fn write_all(&mut self, x: &[u8]) -> std::io::Result<()> {
            self.write(x)?;
            Ok(())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    fn config(c: CompressorConfig, k: CompressionScheme, size: usize, a: u128, b: u128) {
        let mut o = Out { b: [0; 17], n: 0 };
        assert!(c.serialize(&mut o).is_ok());
        assert!(o.n == 1 + size && o.b[0] as usize == size && c.serialized_size() == o.n);
        match size {
            4 => assert!(le(&o.b, 1, 4) == a),
            8 => assert!(le(&o.b, 1, 8) == a),
            16 => assert!(le(&o.b, 1, 8) == a && le(&o.b, 9, 8) == b),
            _ => {}
        }
        assert!(c.compression_scheme() == k);
        assert!(CompressionScheme::from(&c) == k);
        let r = CompressorConfig::from_le_bytes(&k, &o.b[1..o.n]);
        assert!(r == c);
        kani::cover!(true);
    }
    macro_rules! cap {
        ($n:ident, $m:ident, $k:ident) => {
            #[kani::proof]
            #[kani::unwind(18)]
            fn $n() {
                let c: u64 = kani::any();
                config(CompressorConfig::$m().capacity(c).build().into(), CompressionScheme::$k, 8, c as u128, 0);
            }
        };
    }
    cap!(config_uncompressed, uncompressed, Uncompressed);
    cap!(config_rle, rle, RLE);
    cap!(config_gorilla, gorilla, Gorilla);
    cap!(config_chimp, chimp, Chimp);
    cap!(config_chimp128, chimp128, Chimp128);
    cap!(config_elf, elf, Elf);
    cap!(config_elf_on_chimp, elf_on_chimp, ElfOnChimp);
    #[kani::proof]
    #[kani::unwind(18)]
    fn config_buff() {
        let s: u64 = kani::any();
        let c: CompressorConfig = CompressorConfig::buff().scale(s).build().into();
        assert!(c.scale() == Some(s));
        config(c, CompressionScheme::BUFF, 8, s as u128, 0);
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn config_sprintz() {
        let (a, s): (u64, u64) = kani::any();
        let c: CompressorConfig = CompressorConfig::delta_sprintz().capacity(a).scale(s).build().into();
        assert!(c.scale() == Some(s));
        config(c, CompressionScheme::DeltaSprintz, 16, a as u128, s as u128);
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn config_zstd() {
        let l: i32 = kani::any();
        config(CompressorConfig::zstd().level(l).build().into(), CompressionScheme::Zstd, 4, l as u32 as u128, 0);
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn config_snappy() {
        config(CompressorConfig::snappy().build().into(), CompressionScheme::Snappy, 0, 0, 0);
    }
}
