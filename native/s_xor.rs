//! XOR codecs: Gorilla, Chimp, ELF (on its own XOR coder and on Chimp), Chimp128.
use super::sys::*;
use super::*;
use crate::compressor::general_xor::XorEncoder;
use crate::compressor::{chimp, chimp_n, elf, Compressor, CompressorConfig};
use crate::decoder::chunk_reader::general_xor::XorDecoder;
use crate::decoder::chunk_reader::{chimp as dchimp, chimp_n as dchimp_n, elf as delf};
use crate::encoder::ChunkOption;
use crate::io::bit_read::BufferedBitReader;
use crate::io::bit_write::{BitWrite, BufferedBitWriter};
use crate::time::SegmentedExecutionTimes;
use crate::vassert;

pub fn table(s: &str) -> Option<Vec<Test>> {
    Some(match s {
        "P09" => vec![("gorilla_file", |g| file(g, 0)), ("gorilla_compressor", |g| compressor(g, 0))],
        "P10" => vec![("chimp_stream", |g| stream::<chimp::ChimpEncoder, dchimp::ChimpDecoder>(g, &anys, true)), ("chimp_file", |g| file(g, 1)), ("chimp_compressor", |g| compressor(g, 1))],
        "P11" => vec![("elf_xor_stream", |g| stream::<elf::ElfXorEncoder, delf::ElfXorDecoder>(g, &anys, true)), ("elf_stream", |g| stream::<elf::ElfEncoderWrapper<elf::ElfXorEncoder>, delf::ElfDecoderWrapper<delf::ElfXorDecoder>>(g, &elfs, false)), ("elf_on_chimp_stream", |g| stream::<elf::ElfEncoderWrapper<chimp::ChimpEncoder>, delf::ElfDecoderWrapper<dchimp::ChimpDecoder>>(g, &elfs, false)), ("elf_file", |g| file(g, 2)), ("elf_on_chimp_file", |g| file(g, 3)), ("elf_compressor", |g| compressor(g, 2)), ("elf_on_chimp_compressor", |g| compressor(g, 3))],
        "P12" => vec![("chimp128_stream", chimp128_stream), ("chimp128_file", |g| file(g, 4)), ("chimp128_compressor", |g| compressor(g, 4))],
        _ => return None,
    })
}
fn anys(g: &mut G, n: usize) -> Vec<f64> {
    let mut v = series(g, n);
    // now and then a last value that differs from the end marker in a window of bits
    if n > 0 && g.chance(3) {
        let (hi, lo) = (g.below(64), g.below(64));
        let x = (u64::MAX >> hi) & (u64::MAX << lo) & (g.u64() | 1 << (63 - hi));
        if x != 0 {
            v[n - 1] = f64::from_bits(0x7ff8000000000000 ^ x);
        }
    }
    v
}
/// ELF turns every NaN into the reserved one
fn elfs(g: &mut G, n: usize) -> Vec<f64> {
    let mut v = if g.bool() { series(g, n) } else { decimals(g, n) };
    for x in v.iter_mut() {
        if x.is_nan() {
            *x = -1.25;
        }
    }
    v
}
fn decimals(g: &mut G, n: usize) -> Vec<f64> {
    let d = g.range(0, 8) as i32;
    let m = 10f64.powi(g.range(1, 9) as i32);
    (0..n)
        .map(|_| {
            let x = match g.below(8) {
                0 => 10f64.powi(-(g.below(8) as i32)),
                1 => format!("1e-{}", g.below(12)).parse::<f64>().unwrap(),
                2 => decimal(g),
                _ => {
                    let x = (g.below(1 << 40) as f64 / (1u64 << 40) as f64) * m;
                    format!("{x:.*}", d as usize).parse::<f64>().unwrap()
                }
            };
            if g.bool() {
                -x
            } else {
                x
            }
        })
        .collect()
}
fn hex(v: &[f64]) -> String {
    let s: Vec<String> = v.iter().map(|x| format!("{:#x}", x.to_bits())).collect();
    s.join(",")
}
/// `sized`: the encoder's return value is the number of bits it wrote
fn stream<E: XorEncoder, D: XorDecoder>(g: &mut G, gen: &dyn Fn(&mut G, usize) -> Vec<f64>, sized: bool) -> Result<(), String> {
    let mut e = E::default();
    let mut d = D::default();
    let mut w = BufferedBitWriter::new();
    for round in 0..2 {
        let n = g.len(90);
        let v = gen(g, n);
        g.note = format!("round {round}: {}", hex(&v));
        for x in &v {
            let before = w.number_of_bits_written();
            let r = e.compress_float(&mut w, x.to_bits());
            if sized {
                eq("bits reported by compress_float", r, w.number_of_bits_written() - before)?;
            }
        }
        let before = w.number_of_bits_written();
        let sim = e.simulate_close();
        e.close(&mut w);
        if sized || v.is_empty() {
            eq("bits reported by simulate_close", sim, w.number_of_bits_written() - before)?;
        }
        let mut r = BufferedBitReader::new(w.as_slice().to_vec());
        let mut out = vec![];
        loop {
            match d.decompress_float(&mut r) {
                Ok(Some(x)) => out.push(x),
                Ok(None) => break,
                Err(e) => return Err(format!("decoder error after {} values: {e:?}", out.len())),
            }
            vassert!(out.len() <= v.len(), "decoder returned more values than were written: {}", out.len());
        }
        same("stream", &out, &v)?;
        for _ in 0..if sized { 2 } else { 0 } {
            vassert!(matches!(d.decompress_float(&mut r), Ok(None)), "a decoder that reached the end did not stay there");
        }
        e.reset();
        d.reset();
        w.reset();
    }
    Ok(())
}
fn chimp128_stream(g: &mut G) -> Result<(), String> {
    let mut e = chimp_n::Chimp128Compressor::default();
    for round in 0..2 {
        let n = if g.chance(3) { g.range(100, 420) } else { g.len(90) };
        let v = anys(g, n);
        g.note = format!("round {round}: {}", hex(&v));
        e.compress(&v).map_err(|e| format!("{e:?}"))?;
        e.prepare();
        let b: Vec<u8> = e.buffers().concat();
        let mut d = dchimp_n::ChimpNDecoder::<128, _>::new(BufferedBitReader::new(b));
        let out = d.get_values().map_err(|e| format!("decoder error: {e:?}"))?;
        same("stream", &out, &v)?;
        for _ in 0..2 {
            vassert!(matches!(d.read_value(), Ok(None)), "a decoder that reached the end did not stay there");
        }
    }
    Ok(())
}
fn cfg(g: &mut G, k: u32) -> CompressorConfig {
    let c = g.pick(&[0u64, 1, 64, 8192]);
    match k {
        0 => CompressorConfig::gorilla().capacity(c).build().into(),
        1 => CompressorConfig::chimp().capacity(c).build().into(),
        2 => CompressorConfig::elf().capacity(c).build().into(),
        3 => CompressorConfig::elf_on_chimp().capacity(c).build().into(),
        _ => CompressorConfig::chimp128().capacity(c).build().into(),
    }
}
fn gen(g: &mut G, k: u32, n: usize) -> Vec<f64> {
    if k == 2 || k == 3 {
        elfs(g, n)
    } else {
        anys(g, n)
    }
}
fn file(g: &mut G, k: u32) -> Result<(), String> {
    let n = 1 + if k == 4 && g.chance(3) { g.range(100, 400) } else { g.len(150) };
    let v = gen(g, k, n);
    let codec = k;
    let c = cfg(g, k);
    let opt = chunk_option(g);
    g.note = format!("{opt:?} {c:?} {}", hex(&v));
    let mut d = open(encode(&v, opt, c)?)?;
    same("materialize", &materialize(&mut d, None, None)?, &v)?;
    // a chunk reader gives the same values however often and however it is asked
    let chunks: Vec<(usize, usize)> = d.chunk_footers().iter().map(|f| f.logical_offset() as usize).zip(d.chunk_footers().iter().map(|f| f.logical_offset() as usize).skip(1).chain([n])).collect();
    let id = g.us(chunks.len());
    let want = &v[chunks[id].0..chunks[id].1];
    let mut r = d.chunk_reader(crate::api::decoder::ChunkId::new(id)).map_err(|e| format!("{e:?}"))?;
    for _ in 0..g.range(0, 2) {
        let k = g.us(want.len() + 1);
        let mut it = r.inner_mut().decompress_iter().map_err(|e| format!("{e:?}"))?;
        if g.chance(4) {
            let got: Vec<f64> = it.by_ref().collect::<Result<Vec<f64>, _>>().map_err(|e| format!("{e:?}"))?;
            same("decompress_iter", &got, want)?;
            // ELF reads its next flag first
            for _ in 0..if codec == 2 || codec == 3 { 0 } else { 2 } {
                vassert!(it.next().is_none(), "an iterator that reached the end did not stay there");
            }
            continue;
        }
        let got: Vec<f64> = it.take(k).collect::<Result<Vec<f64>, _>>().map_err(|e| format!("{e:?}"))?;
        same("decompress_iter", &got, &want[..k])?;
    }
    let mut t = SegmentedExecutionTimes::new();
    for _ in 0..2 {
        let got = r.inner_mut().decompress(&mut t).map_err(|e| format!("{e:?}"))?;
        same("decompress", got, want)?;
    }
    Ok(())
}
fn compressor(g: &mut G, k: u32) -> Result<(), String> {
    let mut c = cfg(g, k).build();
    for _ in 0..g.range(1, 3) {
        let n = g.len(80);
        let v = gen(g, k, n);
        g.note = hex(&v);
        if g.bool() {
            c.reset();
            eq("bytes in after reset", c.total_bytes_in(), 0)?;
        }
        c.compress(&v).map_err(|e| format!("{e:?}"))?;
        eq("bytes in", c.total_bytes_in(), 8 * n)?;
        let est = c.total_bytes_buffered();
        c.prepare();
        let got: usize = c.buffers().iter().map(|b| b.len()).sum();
        // the estimate counts whole bytes already written plus the end marker
        vassert!(got <= est && est <= got + 1, "total_bytes_buffered says {est}, {got} bytes were produced");
    }
    Ok(())
}
