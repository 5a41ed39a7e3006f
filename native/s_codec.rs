//! Codecs other than the XOR family, at chunk level and through files, and the byte layout of the file.
use super::s_sys::{chunk_id, holds, inm, mask, span};
use super::sys::*;
use super::*;
use crate::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
use crate::compression_common::buff::precision_bound::PRECISION_MAP;
use crate::compressor::run_length::RunLengthCompressor;
use crate::compressor::sprintz::zigzag;
use crate::compressor::uncompressed::UncompressedCompressor;
use crate::compressor::{AppendableCompressor, Compressor, CompressorConfig, RewindableCompressor};
use crate::decoder::chunk_reader::sprintz::unzigzag;
use crate::decoder::query::{Predicate, Range, RangeValue};
use crate::decoder::{FileMetadataLike, FileReader};
use crate::encoder::{ChunkOption, FileWriter};
use crate::format::CompressionScheme;
use crate::time::SegmentedExecutionTimes;
use crate::vassert;
use roaring::RoaringBitmap;
use std::io::Cursor;

pub fn table(s: &str) -> Option<Vec<Test>> {
    Some(match s {
        "P14" => vec![("config_bytes", config_bytes), ("layout_written", layout_written), ("layout_read", layout_read)],
        "P21" => vec![("rle_histories", rle_histories), ("rle_file", rle_file)],
        "P22" => vec![("plain_histories", plain_histories), ("block_codecs", block_codecs)],
        "P23" => vec![("buff_round_trip", buff_round_trip), ("buff_large", buff_large)],
        "P24" => vec![("buff_filter", buff_filter), ("buff_aggregate", buff_aggregate), ("buff_reader", buff_reader)],
        "P25" => vec![("buff_precision", buff_precision)],
        "P26" => vec![("sprintz_round_trip", sprintz_round_trip), ("zigzag_inverse", zigzag_inverse)],
        "P27" => vec![("sprintz_filter", sprintz_filter), ("sprintz_aggregate", sprintz_aggregate), ("sprintz_reader", sprintz_reader)],
        _ => return None,
    })
}
fn show(v: &[f64]) -> String {
    let s: Vec<String> = v.iter().take(60).map(|x| format!("{x:?}")).collect();
    s.join(",")
}

// ---------------------------------------------------------------- P14
const NAMES: [(&str, u8); 12] = [
    ("uncompressed", 0),
    ("rle", 1),
    ("buff", 2),
    ("gorilla", 3),
    ("chimp", 4),
    ("chimp128", 5),
    ("elf_on_chimp", 6),
    ("elf", 7),
    ("sprintz", 8),
    ("zstd", 9),
    ("gzip", 10),
    ("snappy", 11),
];
/// (scheme byte, configuration, its bytes after the size byte)
fn config(g: &mut G) -> (u8, CompressorConfig, Vec<u8>) {
    let w = g.word();
    let cap = w.to_le_bytes().to_vec();
    let s = g.word();
    match g.below(11) {
        0 => (0, CompressorConfig::uncompressed().capacity(w).build().into(), cap),
        1 => (1, CompressorConfig::rle().capacity(w).build().into(), cap),
        2 => (2, CompressorConfig::buff().scale(s).build().into(), s.to_le_bytes().to_vec()),
        3 => (3, CompressorConfig::gorilla().capacity(w).build().into(), cap),
        4 => (4, CompressorConfig::chimp().capacity(w).build().into(), cap),
        5 => (5, CompressorConfig::chimp128().capacity(w).build().into(), cap),
        6 => (6, CompressorConfig::elf_on_chimp().capacity(w).build().into(), cap),
        7 => (7, CompressorConfig::elf().capacity(w).build().into(), cap),
        8 => (8, CompressorConfig::delta_sprintz().capacity(w).scale(s).build().into(), [cap, s.to_le_bytes().to_vec()].concat()),
        9 => {
            let l = s as i32;
            (9, CompressorConfig::zstd().level(l).build().into(), l.to_le_bytes().to_vec())
        }
        _ => (11, CompressorConfig::snappy().build().into(), vec![]),
    }
}
fn config_bytes(g: &mut G) -> Result<(), String> {
    let (k, c, want) = config(g);
    g.note = format!("{c:?}");
    let mut b = vec![];
    c.serialize(&mut b).map_err(|e| format!("{e:?}"))?;
    eq("serialized configuration", b.clone(), [vec![want.len() as u8], want].concat())?;
    eq("serialized_size", c.serialized_size(), b.len())?;
    eq("scheme", c.compression_scheme() as u8, k)?;
    eq("read back", CompressorConfig::from_le_bytes(&c.compression_scheme(), &b[1..]), c)?;
    eq("scale", c.scale().is_some(), k == 2 || k == 8)
}
fn le(b: &[u8], at: usize, n: usize) -> Result<u128, String> {
    let b = b.get(at..at + n).ok_or(format!("file too short for {n} bytes at {at}"))?;
    Ok(b.iter().rev().fold(0u128, |a, &x| a << 8 | x as u128))
}
fn small_config(g: &mut G) -> (u8, CompressorConfig, Vec<u8>) {
    let w = g.below(300);
    let cap = w.to_le_bytes().to_vec();
    let s = 10u64.pow(g.below(4) as u32);
    match g.below(4) {
        0 => (0, CompressorConfig::uncompressed().capacity(w).build().into(), cap),
        1 => (2, CompressorConfig::buff().scale(s).build().into(), s.to_le_bytes().to_vec()),
        2 => (5, CompressorConfig::chimp128().capacity(w).build().into(), cap),
        _ => (8, CompressorConfig::delta_sprintz().capacity(w).scale(s).build().into(), [cap, s.to_le_bytes().to_vec()].concat()),
    }
}
fn option_bytes(o: ChunkOption) -> (u8, u64) {
    match o {
        ChunkOption::Full => (0, 0),
        ChunkOption::RecordCount(n) => (1, n as u64),
        ChunkOption::ByteSizeBestEffort(n) => (2, n as u64),
    }
}
fn layout_written(g: &mut G) -> Result<(), String> {
    let (k, c, cb) = small_config(g);
    let o = chunk_option(g);
    let n = g.len(200);
    let v: Vec<f64> = (0..n).map(|_| g.below(100) as f64).collect();
    g.note = format!("{c:?} {o:?} n={n} {}", show(&v));
    let b = encode(&v, o, c)?;
    eq("magic number", b[..4].to_vec(), b"EBI1".to_vec())?;
    eq("field type", b[4], 0)?;
    eq("scheme byte", b[5], k)?;
    let (ok, ov) = option_bytes(o);
    eq("chunk option kind", b[6], ok)?;
    if ok != 0 {
        eq("chunk option value", le(&b, 8, 8)?, ov as u128)?;
    }
    for (i, p) in [env!("CARGO_PKG_VERSION_MAJOR"), env!("CARGO_PKG_VERSION_MINOR"), env!("CARGO_PKG_VERSION_PATCH")].iter().enumerate() {
        eq("version", le(&b, 24 + 2 * i, 2)?.to_string(), p.to_string())?;
    }
    let f = le(&b, 16, 8)? as usize;
    vassert!(f >= 30 && f <= b.len(), "footer offset {f} outside the file of {} bytes", b.len());
    eq("number of records", le(&b, f, 8)?, n as u128)?;
    let chunks = le(&b, f + 8, 8)? as usize;
    let d = open(b.clone())?;
    eq("number of chunks", d.chunk_footers().len(), chunks)?;
    for (i, c) in d.chunk_footers().iter().enumerate() {
        eq("physical offset", le(&b, f + 16 + 16 * i, 8)?, c.physical_offset() as u128)?;
        eq("logical offset", le(&b, f + 24 + 16 * i, 8)?, c.logical_offset() as u128)?;
    }
    let at = f + 16 + 16 * chunks;
    eq("configuration size", b.get(at).copied(), Some(cb.len() as u8))?;
    eq("configuration", b.get(at + 1..at + 1 + cb.len()).map(|x| x.to_vec()), Some(cb.clone()))?;
    let at = at + 1 + cb.len();
    let nanos = le(&b, at, 16)?;
    eq("elapsed time", d.footer().compression_elapsed_time_nano_secs(), nanos)?;
    vassert!(nanos > 0, "no elapsed time recorded");
    let t = *d.footer().segmented_execution_times();
    for (i, x) in [t.io_read(), t.io_write(), t.xor(), t.delta(), t.quantization(), t.bit_packing(), t.compare_insert(), t.sum(), t.decompression()].iter().enumerate() {
        eq(&format!("segment time {i}"), le(&b, at + 16 + 16 * i, 16)?, x.as_nanos())?;
    }
    eq("end of file", at + 16 + 144 + 4, b.len())
}
/// a file put together here, byte by byte, from the documented layout
fn layout_read(g: &mut G) -> Result<(), String> {
    let n = g.len(60);
    let per = g.range(1, 20);
    let v: Vec<f64> = (0..n).map(|_| f64::from_bits(g.word())).collect();
    let o = match g.below(3) {
        0 => ChunkOption::Full,
        1 => ChunkOption::RecordCount(g.word() as usize),
        _ => ChunkOption::ByteSizeBestEffort(g.word() as usize),
    };
    let (ok, ov) = option_bytes(o);
    let cap = g.word();
    let ver = [g.u64() as u16, g.u64() as u16, g.u64() as u16];
    let nanos = (g.u64() >> 20) as u128;
    let segs: Vec<u128> = (0..9).map(|_| (g.u64() >> g.below(60)) as u128).collect();
    let crc = g.u32();
    g.note = format!("{o:?} n={n} per={per} {}", show(&v));
    let mut b = b"EBI1".to_vec();
    b.extend([0, 0, ok, g.u64() as u8]);
    b.extend(ov.to_le_bytes());
    b.extend((30 + 8 * n as u64).to_le_bytes());
    for x in ver {
        b.extend(x.to_le_bytes());
    }
    for x in &v {
        b.extend(x.to_le_bytes());
    }
    let chunks = n.div_ceil(per);
    b.extend((n as u64).to_le_bytes());
    b.extend((chunks as u64).to_le_bytes());
    for i in 0..chunks {
        b.extend((30 + 8 * (i * per) as u64).to_le_bytes());
        b.extend(((i * per) as u64).to_le_bytes());
    }
    b.push(8);
    b.extend(cap.to_le_bytes());
    b.extend(nanos.to_le_bytes());
    for x in &segs {
        b.extend(x.to_le_bytes());
    }
    b.extend(crc.to_le_bytes());
    // bytes that stand for no field type, scheme or chunk option are rejected
    let (at, bad) = match g.below(3) {
        0 => (4, g.range(1, 255) as u8),
        1 => (5, g.range(13, 255) as u8),
        _ => (6, g.range(3, 255) as u8),
    };
    let mut w = b.clone();
    w[at] = bad;
    vassert!(open(w).is_err(), "byte {bad} at offset {at} of the header was accepted");
    let mut d = open(b)?;
    eq("magic number", *d.header().magic_number(), *b"EBI1")?;
    eq("version", *d.header().version(), ver)?;
    eq("chunk option", d.header().config().chunk_option, o)?;
    eq("footer offset", d.header().footer_offset(), 30 + 8 * n as u64)?;
    eq("configuration", *d.footer().compressor_config(), CompressorConfig::uncompressed().capacity(cap).build().into())?;
    eq("elapsed time", d.footer().compression_elapsed_time_nano_secs(), nanos)?;
    eq("elapsed duration", d.footer().compression_elapsed_time().as_nanos(), nanos)?;
    let t = *d.footer().segmented_execution_times();
    eq("segment times", [t.io_read(), t.io_write(), t.xor(), t.delta(), t.quantization(), t.bit_packing(), t.compare_insert(), t.sum(), t.decompression()].map(|x| x.as_nanos()).to_vec(), segs)?;
    eq("crc", d.footer().crc(), crc)?;
    eq("records", d.footer().number_of_records(), n as u64)?;
    same("records", &materialize(&mut d, None, None)?, &v)
}

// ---------------------------------------------------------------- P21, P22: compressors with histories
fn bytes_of<C: Compressor>(c: &C) -> Vec<u8> {
    c.buffers().concat()
}
fn rle_records(b: &[u8]) -> Result<Vec<f64>, String> {
    let n = le(b, 0, 8)? as usize;
    eq("run-length chunk size", b.len(), 8 + 9 * n)?;
    let mut v = vec![];
    for f in b[8..].chunks(9) {
        vassert!(f[0] > 0, "a run of no records");
        let x = f64::from_le_bytes(f[1..].try_into().unwrap());
        v.extend(std::iter::repeat(x).take(f[0] as usize));
    }
    Ok(v)
}
fn runs(g: &mut G, n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = vec![];
    let long = g.chance(3);
    while v.len() < n {
        let x = match g.below(6) {
            0 => g.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY]),
            1 => f64::from_bits(g.word()),
            2 if !v.is_empty() => f64::from_bits(v[v.len() - 1].to_bits() ^ 1),
            _ => g.below(3) as f64,
        };
        let k = if long { g.pick(&[1usize, 2, 254, 255, 256, 257, 510, 511]) } else { g.range(1, 6) };
        for _ in 0..k {
            v.push(x);
        }
    }
    v.truncate(n);
    v
}
fn check_in<C: Compressor>(c: &C, n: usize) -> Result<(), String> {
    eq("total_bytes_in", c.total_bytes_in(), 8 * n)
}
fn rle_histories(g: &mut G) -> Result<(), String> {
    let mut c = RunLengthCompressor::with_capacity(g.us(40));
    let mut want: Vec<f64> = vec![];
    let mut open = true; // not prepared since the last append
    for _ in 0..g.range(1, 8) {
        let n = g.len(1200).min(1 + g.us(1200));
        match g.below(7) {
            0 => {
                let v = runs(g, n);
                g.note += &format!(" compress({n})");
                c.compress(&v).map_err(|e| format!("{e:?}"))?;
                want = v;
                open = true;
            }
            1 | 2 => {
                let mut v = runs(g, n);
                if let (Some(l), true) = (want.last(), g.bool()) {
                    let k = g.us(v.len() + 1);
                    for x in v.iter_mut().take(k) {
                        *x = *l;
                    }
                }
                g.note += &format!(" append({n})");
                c.append_compress(&v);
                want.extend(v);
                open |= n > 0;
            }
            3 | 4 => {
                let k = if g.chance(6) { want.len() + g.us(3) } else { g.us(want.len() + 1) };
                g.note += &format!(" rewind({k})");
                let done = c.rewind(k);
                vassert!(!done || k <= want.len(), "rewind({k}) of {} records succeeded", want.len());
                vassert!(done || !open || k == 0 || k > want.len(), "rewind({k}) of {} records failed", want.len());
                if done {
                    want.truncate(want.len() - k);
                }
            }
            5 => {
                g.note += " prepare";
                c.prepare();
                open = false;
            }
            _ => {
                g.note += " reset";
                c.reset();
                want.clear();
                open = true;
            }
        }
        check_in(&c, want.len())?;
        let mut e = c.clone();
        let size = e.total_bytes_buffered();
        e.prepare();
        let b = bytes_of(&e);
        eq("total_bytes_buffered", size, b.len())?;
        eq("total_bytes_buffered after prepare", e.total_bytes_buffered(), b.len())?;
        same("records in the chunk", &rle_records(&b)?, &want)?;
        if want.is_empty() {
            open = true;
        }
    }
    Ok(())
}
fn rle_file(g: &mut G) -> Result<(), String> {
    let n = g.len(3000);
    let v = runs(g, n);
    let o = if g.bool() { ChunkOption::Full } else { ChunkOption::RecordCount(g.range(1, 900)) };
    g.note = format!("{o:?} n={n} {}", show(&v));
    let mut d = open(encode(&v, o, CompressorConfig::rle().build().into())?)?;
    same("materialize", &materialize(&mut d, None, None)?, &v)?;
    let m = mask(g, n);
    let want: Vec<f64> = (0..n).filter(|&i| inm(&m, i)).map(|i| v[i]).collect();
    same("materialize with mask", &materialize(&mut d, m.as_ref(), None)?, &want)
}
fn plain_histories(g: &mut G) -> Result<(), String> {
    let mut c = UncompressedCompressor::new(g.us(40));
    let mut want: Vec<f64> = vec![];
    for _ in 0..g.range(1, 8) {
        let n = g.len(60);
        let v = series(g, n);
        match g.below(6) {
            0 => {
                c.compress(&v).map_err(|e| format!("{e:?}"))?;
                want = v;
            }
            1 | 2 => {
                c.append_compress(&v);
                want.extend(v);
            }
            3 => {
                let k = if g.chance(6) { want.len() + g.us(3) } else { g.us(want.len() + 1) };
                eq(&format!("rewind({k}) of {} records", want.len()), c.rewind(k), k <= want.len())?;
                if k <= want.len() {
                    want.truncate(want.len() - k);
                }
            }
            4 => c.prepare(),
            _ => {
                c.reset();
                want.clear();
            }
        }
        check_in(&c, want.len())?;
        eq("total_bytes_buffered", c.total_bytes_buffered(), 8 * want.len())?;
        same("records in the chunk", &floats(&bytes_of(&c)), &want)?;
    }
    Ok(())
}
fn block_codecs(g: &mut G) -> Result<(), String> {
    let (name, cfg): (&str, CompressorConfig) = match g.below(4) {
        0 => ("zstd", CompressorConfig::zstd().level(g.range(1, 6) as i32).build().into()),
        1 => ("gzip", CompressorConfig::gzip().build().into()),
        2 => ("snappy", CompressorConfig::snappy().build().into()),
        _ => ("uncompressed", CompressorConfig::uncompressed().capacity(g.below(100)).build().into()),
    };
    let mut c = cfg.build();
    check_in(&c, 0)?;
    for k in 0..g.range(1, 3) {
        let n = g.len(900);
        let v = if g.bool() { runs(g, n) } else { (0..n).map(|_| f64::from_bits(g.word())).collect() };
        g.note = format!("{name} use {k} n={n} {}", show(&v));
        if g.chance(3) {
            c.reset();
            check_in(&c, 0)?;
        }
        c.compress(&v).map_err(|e| format!("{e:?}"))?;
        check_in(&c, n)?;
        let size = c.total_bytes_buffered();
        c.prepare();
        eq("total_bytes_buffered", size, bytes_of(&c).len())?;
        let mut d = open(encode(&v, ChunkOption::Full, cfg)?)?;
        same("materialize", &materialize(&mut d, None, None)?, &v)?;
        if n > 0 {
            let mut r = d.chunk_reader(ChunkId::new(0)).map_err(|e| format!("{e:?}"))?;
            let t = &mut SegmentedExecutionTimes::new();
            for _ in 0..g.range(1, 3) {
                if g.bool() {
                    let k = g.us(n + 1);
                    let mut it = r.inner_mut().decompress_iter().map_err(|e| format!("{e:?}"))?;
                    let got = it.by_ref().take(k).collect::<crate::decoder::Result<Vec<f64>>>().map_err(|e| format!("{e:?}"))?;
                    same("part of an iteration", &got, &v[..k])?;
                } else {
                    let got = r.inner_mut().decompress(t).map_err(|e| format!("{e:?}"))?.to_vec();
                    same("decompress", &got, &v)?;
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- decimals
/// integers q standing for q / scale
fn quanta(g: &mut G, n: usize, limit: i64) -> Vec<i64> {
    let m = match g.below(8) {
        0 => 1,
        1 => 2,
        2 => g.range(2, 300) as i64,
        3 => 1 << g.below(20),
        4 => 100_000,
        5 => 1_000_000_000,
        _ => limit,
    }
    .min(limit)
    .max(1);
    let base = if g.bool() { 0 } else { (g.u64() % (2 * limit as u64)) as i64 - limit };
    let walk = g.chance(3);
    let few = g.chance(4);
    let pool: Vec<i64> = (0..g.range(1, 6)).map(|_| (g.u64() % m as u64) as i64).collect();
    let mut p = base;
    (0..n)
        .map(|_| {
            let x = if few {
                base + g.pick(&pool)
            } else if walk {
                p += (g.u64() % 5) as i64 - 2;
                p
            } else {
                let x = (g.u64() % m as u64) as i64;
                base + if g.bool() { x } else { -x }
            };
            x.clamp(-limit, limit)
        })
        .collect()
}
fn value(q: i64, scale: u64) -> f64 {
    q as f64 / scale as f64
}
fn values(q: &[i64], scale: u64) -> Vec<f64> {
    q.iter().map(|&x| value(x, scale)).collect()
}
fn size(g: &mut G) -> usize {
    match g.below(10) {
        0 => 0,
        1 => 1,
        2 => g.range(30, 75),
        3 => g.range(0, 600),
        _ => g.len(150),
    }
}
fn option(g: &mut G) -> ChunkOption {
    match g.below(4) {
        0 => ChunkOption::Full,
        1 => ChunkOption::RecordCount(g.range(30, 200)),
        2 => ChunkOption::ByteSizeBestEffort(g.range(1, 900)),
        _ => ChunkOption::RecordCount(g.range(1, 90)),
    }
}
/// a predicate on the quanta, given as values within the scale
fn near(g: &mut G, q: &[i64], limit: i64) -> i64 {
    if q.is_empty() || g.chance(8) {
        return match g.below(4) {
            0 => 0,
            1 => limit,
            2 => -limit,
            _ => (g.u64() % (2 * limit as u64)) as i64 - limit,
        };
    }
    let x = match g.below(4) {
        0 => *q.iter().min().unwrap(),
        1 => *q.iter().max().unwrap(),
        _ => q[g.us(q.len())],
    };
    match g.below(8) {
        0 => x + 1,
        1 => x - 1,
        2 => -x,
        3 => x + (g.u64() % 2000) as i64 - 1000,
        _ => x,
    }
    .clamp(-limit, limit)
}
fn predicate(g: &mut G, q: &[i64], scale: u64, limit: i64) -> Predicate {
    let (a, b) = (near(g, q, limit), near(g, q, limit));
    let rv = |g: &mut G, x: i64| match g.below(5) {
        0 => RangeValue::None,
        1 | 2 => RangeValue::Inclusive(value(x, scale)),
        _ => RangeValue::Exclusive(value(x, scale)),
    };
    match g.below(6) {
        0 | 1 => Predicate::Eq(value(a, scale)),
        2 => Predicate::Ne(value(a, scale)),
        _ => {
            let (a, b) = if a > b && !g.chance(6) { (b, a) } else { (a, b) };
            let (a, b) = (rv(g, a), rv(g, b));
            Predicate::Range(Range::new(a, b))
        }
    }
}
fn stored_same(what: &str, got: &[f64], want: &[f64]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} values, expected {}", got.len(), want.len()));
    }
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        vassert!(a == b, "{what}: value {i} is {a:?}, expected {b:?}");
    }
    Ok(())
}
/// filter, filter_materialize and materialize of a file against the original (v) and stored (st) values
fn check_filter(g: &mut G, d: &mut Dec, v: &[f64], st: &[f64], p: Predicate) -> Result<(), String> {
    let n = v.len();
    let m = mask(g, n);
    let id = chunk_id(g, d);
    let s = span(d, id);
    g.note += &format!(" | {p:?} mask {m:?} chunk {id:?}");
    let want: Vec<u32> = s.clone().filter(|&i| inm(&m, i) && holds(&p, v[i])).map(|i| i as u32).collect();
    match g.below(4) {
        0 => {
            let want: Vec<f64> = s.filter(|&i| inm(&m, i)).map(|i| st[i]).collect();
            stored_same("materialize with mask", &materialize(d, m.as_ref(), id)?, &want)
        }
        1 => {
            let mut o = DecoderOutput::from_vec(Vec::new());
            d.filter_materialize(&mut o, p, m.as_ref(), id.map(ChunkId::new)).map_err(|e| format!("filter_materialize failed: {e:?}"))?;
            stored_same("filter_materialize", &floats(&o.into_writer().into_inner()), &want.iter().map(|&i| st[i as usize]).collect::<Vec<_>>())
        }
        _ => {
            let b = d.filter(p, m.as_ref(), id.map(ChunkId::new)).map_err(|e| format!("filter failed: {e:?}"))?;
            eq("filter", b.iter().collect::<Vec<_>>(), want)
        }
    }
}
fn check_aggregate(g: &mut G, d: &mut Dec, st: &[f64]) -> Result<(), String> {
    let m = mask(g, st.len());
    let id = chunk_id(g, d);
    let s = span(d, id);
    g.note += &format!(" | mask {m:?} chunk {id:?}");
    let sel: Vec<f64> = s.filter(|&i| inm(&m, i)).map(|i| st[i]).collect();
    let id = id.map(ChunkId::new);
    eq("min", d.min(m.as_ref(), id).map_err(|e| format!("{e:?}"))?, sel.iter().copied().fold(f64::INFINITY, f64::min))?;
    eq("max", d.max(m.as_ref(), id).map_err(|e| format!("{e:?}"))?, sel.iter().copied().fold(f64::NEG_INFINITY, f64::max))?;
    let sum = d.sum(m.as_ref(), id).map_err(|e| format!("{e:?}"))?;
    let (t, a) = (sel.iter().sum::<f64>(), sel.iter().map(|x| x.abs()).sum::<f64>());
    vassert!((sum - t).abs() <= a * 1e-12, "sum: got {sum:?}, expected {t:?}");
    Ok(())
}
/// several queries on one chunk reader, in any order
fn check_reader(g: &mut G, d: &mut Dec, q: &[i64], v: &[f64], st: &[f64], scale: u64, limit: i64) -> Result<(), String> {
    let k = d.chunk_footers().len();
    if k == 0 {
        return Ok(());
    }
    let id = g.us(k);
    let s = span(d, Some(id));
    let mut r = d.chunk_reader(ChunkId::new(id)).map_err(|e| format!("{e:?}"))?;
    for _ in 0..g.range(1, 5) {
        let m = mask(g, v.len());
        let sel: Vec<usize> = s.clone().filter(|&i| inm(&m, i)).collect();
        let mr = m.as_ref();
        match g.below(7) {
            0 => {
                let p = predicate(g, &q[s.clone()], scale, limit);
                g.note += &format!(" | filter {p:?} {m:?}");
                let b = r.filter(p, mr).map_err(|e| format!("filter failed: {e:?}"))?;
                eq("filter of a chunk reader", b.iter().collect::<Vec<_>>(), sel.iter().filter(|&&i| holds(&p, v[i])).map(|&i| i as u32).collect())?;
            }
            1 if !sel.is_empty() => {
                g.note += &format!(" | min {m:?}");
                eq("min of a chunk reader", r.min(mr).map_err(|e| format!("{e:?}"))?, sel.iter().map(|&i| st[i]).fold(f64::INFINITY, f64::min))?;
            }
            2 if !sel.is_empty() => {
                g.note += &format!(" | max {m:?}");
                eq("max of a chunk reader", r.max(mr).map_err(|e| format!("{e:?}"))?, sel.iter().map(|&i| st[i]).fold(f64::NEG_INFINITY, f64::max))?;
            }
            3 => {
                g.note += &format!(" | sum {m:?}");
                let got = r.sum(mr).map_err(|e| format!("{e:?}"))?;
                let (t, a) = (sel.iter().map(|&i| st[i]).sum::<f64>(), sel.iter().map(|&i| st[i].abs()).sum::<f64>());
                vassert!((got - t).abs() <= a * 1e-12, "sum of a chunk reader: got {got:?}, expected {t:?}");
            }
            4 => {
                g.note += " | iterate in part";
                let k = g.us(20);
                let mut it = r.inner_mut().decompress_iter().map_err(|e| format!("{e:?}"))?;
                let got = it.by_ref().take(k).collect::<crate::decoder::Result<Vec<f64>>>().map_err(|e| format!("{e:?}"))?;
                stored_same("part of an iteration", &got, &st[s.start..s.start + k.min(s.len())])?;
            }
            5 => {
                g.note += " | decompress";
                let got = r.inner_mut().decompress(&mut SegmentedExecutionTimes::new()).map_err(|e| format!("{e:?}"))?.to_vec();
                stored_same("decompress", &got, &st[s.clone()])?;
            }
            _ => {
                g.note += &format!(" | materialize {m:?}");
                let mut o = vec![];
                r.materialize(&mut o, mr).map_err(|e| format!("{e:?}"))?;
                stored_same("materialize of a chunk reader", &floats(&o), &sel.iter().map(|&i| st[i]).collect::<Vec<_>>())?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P23..P25: BUFF
struct Buff {
    d: u32,
    f: i32,
    scale: u64,
    limit: i64,
    q: Vec<i64>,
    v: Vec<f64>,
    st: Vec<f64>,
    o: ChunkOption,
}
impl Buff {
    fn cfg(&self) -> CompressorConfig {
        CompressorConfig::buff().scale(self.scale).build().into()
    }
}
fn stored(v: f64, f: i32) -> f64 {
    (v * 2f64.powi(f)).trunc() / 2f64.powi(f) + 0.0
}
fn buff(g: &mut G, sums: bool) -> Buff {
    let d = g.below(11) as u32;
    let f = PRECISION_MAP[d as usize] as i32;
    let scale = 10u64.pow(d);
    // |v| * 2^f < 2^62 (or a sum of 600 of them below 2^63)
    let whole = 62 - f - if sums { 12 } else { 0 };
    let limit = ((1u64 << whole.min(52)) as f64 * scale as f64).min(1e13) as i64 - 1;
    let limit = limit.max(1);
    let n = size(g);
    let q = quanta(g, n, limit);
    let v = values(&q, scale);
    let st = v.iter().map(|&x| stored(x, f)).collect();
    let o = option(g);
    g.note = format!("buff d={d} {o:?} n={n} {}", show(&v));
    Buff { d, f, scale, limit, q, v, st, o }
}
fn buff_check(g: &mut G, b: &Buff) -> Result<(), String> {
    let mut c = b.cfg().build();
    c.compress(&b.v).map_err(|e| format!("{e:?}"))?;
    if g.bool() {
        c.compress(&b.v).map_err(|e| format!("{e:?}"))?;
    }
    check_in(&c, b.v.len())?;
    let size = c.total_bytes_buffered();
    c.prepare();
    eq("total_bytes_buffered", size, bytes_of(&c).len())?;
    let mut d = open(encode(&b.v, b.o, b.cfg())?)?;
    let got = materialize(&mut d, None, None)?;
    stored_same("materialize", &got, &b.st)?;
    for (i, (x, &q)) in got.iter().zip(&b.q).enumerate() {
        vassert!((x - b.v[i]).abs() < 2f64.powi(-b.f), "value {i}: {x:?} is not within 2^-{} of {:?}", b.f, b.v[i]);
        vassert!((x * b.scale as f64).round() as i64 == q, "value {i}: {x:?} does not round to {q} / {}", b.scale);
    }
    Ok(())
}
fn buff_round_trip(g: &mut G) -> Result<(), String> {
    let b = buff(g, false);
    buff_check(g, &b)
}
fn buff_large(g: &mut G) -> Result<(), String> {
    let mut b = buff(g, false);
    // ends of the range in one chunk
    for _ in 0..g.range(1, 3) {
        let x = if g.bool() { b.limit } else { -b.limit };
        let i = g.us(b.q.len() + 1);
        b.q.insert(i, x);
    }
    b.v = values(&b.q, b.scale);
    b.st = b.v.iter().map(|&x| stored(x, b.f)).collect();
    g.note = format!("buff d={} {:?} {}", b.d, b.o, show(&b.v));
    buff_check(g, &b)
}
fn buff_filter(g: &mut G) -> Result<(), String> {
    let b = buff(g, false);
    let mut d = open(encode(&b.v, b.o, b.cfg())?)?;
    for _ in 0..g.range(1, 3) {
        let p = predicate(g, &b.q, b.scale, b.limit);
        check_filter(g, &mut d, &b.v, &b.st, p)?;
    }
    Ok(())
}
fn buff_aggregate(g: &mut G) -> Result<(), String> {
    let b = buff(g, true);
    let mut d = open(encode(&b.v, b.o, b.cfg())?)?;
    check_aggregate(g, &mut d, &b.st)
}
fn buff_reader(g: &mut G) -> Result<(), String> {
    let b = buff(g, true);
    let mut d = open(encode(&b.v, b.o, b.cfg())?)?;
    check_reader(g, &mut d, &b.q, &b.v, &b.st, b.scale, b.limit)
}
fn close_to(what: &str, got: &[f64], st: &[f64], f: i32, p: u32) -> Result<(), String> {
    eq(&format!("{what}: number of values"), got.len(), st.len())?;
    let pf = PRECISION_MAP[p as usize] as i32;
    for (i, (x, s)) in got.iter().zip(st).enumerate() {
        if pf >= f {
            vassert!(x == s, "{what}: precision {p}: value {i} is {x:?}, expected the stored {s:?}");
        }
        let e = s - x;
        vassert!(e >= 0.0 && e < 2f64.powi(-pf), "{what}: precision {p}: value {i} is {x:?}, stored {s:?}");
    }
    Ok(())
}
fn buff_precision(g: &mut G) -> Result<(), String> {
    let b = buff(g, true);
    let mut d = open(encode(&b.v, b.o, b.cfg())?)?;
    if g.bool() && !d.chunk_footers().is_empty() {
        let id = g.us(d.chunk_footers().len());
        let s = span(&d, Some(id));
        let mut r = d.chunk_reader(ChunkId::new(id)).map_err(|e| format!("{e:?}"))?;
        let t = &mut SegmentedExecutionTimes::new();
        if g.chance(3) {
            let got = r.inner_mut().decompress(t).map_err(|e| format!("{e:?}"))?.to_vec();
            stored_same("decompress", &got, &b.st[s.clone()])?;
        }
        for _ in 0..g.range(1, 4) {
            let p = g.below(13) as u32;
            r.with_precision(p);
            let got = r.inner_mut().decompress(t).map_err(|e| format!("{e:?}"))?.to_vec();
            close_to("decompress", &got, &b.st[s.clone()], b.f, p)?;
            if g.chance(3) {
                let pr = predicate(g, &b.q[s.clone()], b.scale, b.limit);
                let f = r.filter(pr, None).map_err(|e| format!("{e:?}"))?;
                eq("filter of a chunk reader with limited precision", f.iter().collect::<Vec<_>>(), s.clone().filter(|&i| holds(&pr, b.v[i])).map(|i| i as u32).collect())?;
            }
        }
        Ok(())
    } else {
        for _ in 0..g.range(1, 3) {
            let p = g.below(13) as u32;
            d.with_precision(p);
            close_to("materialize", &materialize(&mut d, None, None)?, &b.st, b.f, p)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- P26, P27: delta Sprintz
struct Spz {
    scale: u64,
    limit: i64,
    q: Vec<i64>,
    v: Vec<f64>,
    o: ChunkOption,
    cap: u64,
}
impl Spz {
    fn cfg(&self) -> CompressorConfig {
        CompressorConfig::delta_sprintz().scale(self.scale).capacity(self.cap).build().into()
    }
}
fn spz(g: &mut G) -> Spz {
    let scale = match g.below(5) {
        0 => 1,
        1 => g.range(1, 1000) as u64,
        2 => (1u64 << 32) - 1 - g.below(3),
        _ => 10u64.pow(g.below(10) as u32),
    };
    let limit = 1i64 << 49;
    let n = size(g);
    let q = quanta(g, n, limit);
    let v = values(&q, scale);
    let o = option(g);
    let cap = g.below(200);
    g.note = format!("sprintz scale={scale} {o:?} n={n} {}", show(&v));
    Spz { scale, limit, q, v, o, cap }
}
fn sprintz_round_trip(g: &mut G) -> Result<(), String> {
    let b = spz(g);
    let mut c = b.cfg().build();
    c.compress(&b.v).map_err(|e| format!("{e:?}"))?;
    if g.bool() {
        c.compress(&b.v).map_err(|e| format!("{e:?}"))?;
    }
    check_in(&c, b.v.len())?;
    let size = c.total_bytes_buffered();
    c.prepare();
    eq("total_bytes_buffered", size, bytes_of(&c).len())?;
    let mut d = open(encode(&b.v, b.o, b.cfg())?)?;
    stored_same("materialize", &materialize(&mut d, None, None)?, &b.v)?;
    if g.bool() {
        // any double is stored as the nearest multiple of 1/scale
        let v: Vec<f64> = (0..g.len(60)).map(|_| (g.u64() % 2_000_001) as f64 / 1000.0 - 1000.0 + (g.u64() % 1000) as f64 / 1e7).collect();
        g.note = format!("sprintz scale={} {}", b.scale, show(&v));
        let want: Vec<f64> = v.iter().map(|x| (x * b.scale as f64).round() / b.scale as f64).collect();
        let mut d = open(encode(&v, b.o, b.cfg())?)?;
        stored_same("materialize of unrounded values", &materialize(&mut d, None, None)?, &want)?;
    }
    Ok(())
}
fn zigzag_inverse(g: &mut G) -> Result<(), String> {
    let x = g.word();
    g.note = format!("{x:#x}");
    eq("unzigzag(zigzag(x))", unzigzag(zigzag(x as i64)), x as i64)?;
    eq("zigzag(unzigzag(x))", zigzag(unzigzag(x)), x)?;
    let a = (x as i64) >> g.range(1, 63);
    eq("zigzag", zigzag(a), if a < 0 { (-2 * a as i128 - 1) as u64 } else { 2 * a as u64 })
}
fn sprintz_filter(g: &mut G) -> Result<(), String> {
    let b = spz(g);
    let mut d = open(encode(&b.v, b.o, b.cfg())?)?;
    for _ in 0..g.range(1, 3) {
        let p = predicate(g, &b.q, b.scale, b.limit);
        check_filter(g, &mut d, &b.v, &b.v, p)?;
    }
    Ok(())
}
fn sprintz_aggregate(g: &mut G) -> Result<(), String> {
    let b = spz(g);
    let mut d = open(encode(&b.v, b.o, b.cfg())?)?;
    check_aggregate(g, &mut d, &b.v)
}
fn sprintz_reader(g: &mut G) -> Result<(), String> {
    let b = spz(g);
    let mut d = open(encode(&b.v, b.o, b.cfg())?)?;
    check_reader(g, &mut d, &b.q, &b.v, &b.v, b.scale, b.limit)
}
