//! Whole-system helpers shared by the suites: encode to memory, open, materialise.
use super::*;
use crate::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
use crate::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use crate::compressor::CompressorConfig;
use crate::encoder::ChunkOption;
use roaring::RoaringBitmap;
use std::io::Cursor;

pub type Dec = Decoder<Cursor<Vec<u8>>>;

pub fn encode(v: &[f64], opt: ChunkOption, cfg: CompressorConfig) -> Result<Vec<u8>, String> {
    let mut e = Encoder::new(EncoderInput::from_f64_slice(v), EncoderOutput::from_vec(Vec::new()), opt, cfg);
    e.encode().map_err(|e| format!("encode failed: {e:?}"))?;
    Ok(e.into_output().into_vec())
}
pub fn open(b: Vec<u8>) -> Result<Dec, String> {
    Decoder::new(DecoderInput::from_reader(Cursor::new(b))).map_err(|e| format!("open failed: {e:?}"))
}
pub fn floats(b: &[u8]) -> Vec<f64> {
    b.chunks(8).map(|c| f64::from_ne_bytes(c.try_into().expect("whole records"))).collect()
}
pub fn materialize(d: &mut Dec, mask: Option<&RoaringBitmap>, id: Option<usize>) -> Result<Vec<f64>, String> {
    let mut o = DecoderOutput::from_vec(Vec::new());
    d.materialize(&mut o, mask, id.map(ChunkId::new)).map_err(|e| format!("materialize failed: {e:?}"))?;
    Ok(floats(&o.into_writer().into_inner()))
}
pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
pub fn same(what: &str, got: &[f64], want: &[f64]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} values, expected {}", got.len(), want.len()));
    }
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        if a.to_bits() != b.to_bits() {
            return Err(format!("{what}: value {i} is {a:?} ({:#018x}), expected {b:?} ({:#018x})", a.to_bits(), b.to_bits()));
        }
    }
    Ok(())
}
/// the codecs that keep every double (except that the XOR family reserves the canonical NaN)
pub fn lossless(g: &mut G) -> (&'static str, CompressorConfig) {
    let cap = g.pick(&[0u64, 1, 64, 8192]);
    match g.below(10) {
        0 => ("uncompressed", CompressorConfig::uncompressed().capacity(cap).build().into()),
        1 => ("rle", CompressorConfig::rle().build().into()),
        2 => ("gorilla", CompressorConfig::gorilla().capacity(cap).build().into()),
        3 => ("chimp", CompressorConfig::chimp().capacity(cap).build().into()),
        4 => ("chimp128", CompressorConfig::chimp128().capacity(cap).build().into()),
        5 => ("elf", CompressorConfig::elf().capacity(cap).build().into()),
        6 => ("elf_on_chimp", CompressorConfig::elf_on_chimp().capacity(cap).build().into()),
        7 => ("zstd", CompressorConfig::zstd().build().into()),
        8 => ("gzip", CompressorConfig::gzip().build().into()),
        _ => ("snappy", CompressorConfig::snappy().build().into()),
    }
}
pub fn chunk_option(g: &mut G) -> ChunkOption {
    match g.below(4) {
        0 => ChunkOption::Full,
        1 => ChunkOption::ByteSizeBestEffort(g.range(1, 600)),
        _ => ChunkOption::RecordCount(g.range(1, 70)),
    }
}
pub const NAN: u64 = 0x7ff8000000000000;
/// one double, any bit pattern but the canonical NaN
pub fn any_double(g: &mut G) -> f64 {
    loop {
        let b = match g.below(10) {
            0 => g.pick(&[0u64, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 1, u64::MAX, 0x7ff8000000000001, 0xfff8000000000000]),
            1 => (g.u64() as i32 as f64).to_bits(),
            2 | 3 => decimal(g).to_bits(),
            4 => g.u64(),
            _ => g.word(),
        };
        if b != NAN {
            return f64::from_bits(b);
        }
    }
}
/// a short decimal of either sign
pub fn decimal(g: &mut G) -> f64 {
    let digits = g.range(1, 9);
    let d = g.range(0, digits.min(6)) as u32;
    let m = g.below(10u64.pow(digits as u32)) as f64;
    let v = m / 10f64.powi(d as i32);
    if g.bool() {
        -v
    } else {
        v
    }
}
/// a series of doubles: repeats, small changes, controlled xor shapes, jumps
pub fn series(g: &mut G, n: usize) -> Vec<f64> {
    let mode = g.below(6);
    let mut v: Vec<f64> = vec![];
    for i in 0..n {
        let x = if i == 0 {
            any_double(g)
        } else {
            let p = v[i - 1].to_bits();
            let pick = g.us(i);
            match if mode < 4 { mode } else { g.below(8) } {
                0 => any_double(g),
                1 => decimal(g),
                2 => f64::from_bits(p ^ shape(g)),
                3 => f64::from_bits(v[pick.max(i.saturating_sub(200))].to_bits() ^ if g.bool() { 0 } else { shape(g) }),
                4 => v[i - 1],
                5 => f64::from_bits(p.wrapping_add(g.below(4))),
                6 => f64::from_bits(v[pick].to_bits() ^ shape(g)),
                _ => decimal(g),
            }
        };
        v.push(if x.to_bits() == NAN { 0.5 } else { x });
    }
    v
}
/// a word with a chosen number of leading and trailing zeros
pub fn shape(g: &mut G) -> u64 {
    let lz = g.below(64);
    let tz = g.below(64 - lz);
    let w = 64 - lz - tz;
    let mut x = g.u64();
    if w < 64 {
        x &= (1u64 << w) - 1;
    }
    x |= 1;
    x |= 1u64 << (w - 1);
    x << tz
}
