//! The file as a whole: round trip, chunk directory, unfinished files, queries over lossless codecs.
use super::sys::*;
use super::*;
use crate::api::decoder::{Aggregation, AggregationKind, AggregationResult, ChunkId, Decoder, DecoderInput, DecoderOutput, Expr};
use crate::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use crate::compressor::CompressorConfig;
use crate::decoder::expr::Op;
use crate::decoder::query::{Predicate, PredicateImpl, Range, RangeImpl, RangeValue, RangeValueImpl};
use crate::decoder::{FileMetadataLike, FileReader};
use crate::encoder::{ChunkOption, FileWriter};
use crate::format::{self, CompressionScheme, FieldType};
use crate::time::SegmentedExecutionTimes;
use crate::vassert;
use roaring::RoaringBitmap;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

pub fn table(s: &str) -> Option<Vec<Test>> {
    Some(match s {
        "P13" => vec![("file_round_trip", file_round_trip), ("piecewise_input", piecewise_input), ("piecewise_decode", piecewise_decode)],
        "P15" => vec![("directory", directory), ("large_directory", large_directory), ("chunk_access", chunk_access), ("manual_writer", manual_writer)],
        "P16" => vec![("cut_file", cut_file), ("unfinished_write", unfinished_write), ("failing_output", failing_output)],
        "P17" => vec![("predicate_eval", predicate_eval), ("filter_queries", filter_queries), ("query_sequences", query_sequences)],
        "P18" => vec![("aggregates", aggregates), ("aggregate_masks", aggregates)],
        "P19" => vec![("distance_and_dot", distance_and_dot), ("nearest_vector", nearest_vector), ("matrix_product", matrix_product)],
        "P20" => vec![("expressions", expressions), ("aggregation_concat", aggregation_concat)],
        _ => return None,
    })
}

// ---------------------------------------------------------------- sources and sinks
/// hands out the bytes in arbitrary pieces, sometimes interrupted
pub struct Pieces {
    pub data: Vec<u8>,
    pub pos: usize,
    pub g: G,
    pub max: usize,
    pub interrupts: bool,
}
impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.g.chance(3) {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let left = self.data.len().saturating_sub(self.pos);
        let n = (1 + self.g.us(self.max)).min(left).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Pieces {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        match p {
            SeekFrom::Start(x) => self.pos = x as usize,
            SeekFrom::Current(d) => self.pos = (self.pos as i64 + d) as usize,
            SeekFrom::End(d) => self.pos = (self.data.len() as i64 + d) as usize,
        }
        Ok(self.pos as u64)
    }
}
/// accepts writes piecewise and stops after `limit` bytes have been written in total
pub struct Limited {
    pub out: Cursor<Vec<u8>>,
    pub left: usize,
    pub piece: usize,
}
impl Write for Limited {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = buf.len().min(self.left).min(self.piece);
        if n == 0 {
            return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
        }
        self.left -= n;
        self.out.write(&buf[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Limited {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.out.seek(p)
    }
}
fn raw(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn hex(v: &[f64]) -> String {
    let s: Vec<String> = v.iter().take(40).map(|x| format!("{:#x}", x.to_bits())).collect();
    s.join(",")
}
fn data(g: &mut G, name: &str, n: usize) -> Vec<f64> {
    let mut v = series(g, n);
    if name.starts_with("elf") {
        for x in v.iter_mut() {
            if x.is_nan() {
                *x = 2.5;
            }
        }
    }
    v
}
/// small integers: every sum and product below is exact
fn ints(g: &mut G, n: usize) -> Vec<f64> {
    let m = g.pick(&[2u64, 5, 100, 1000]);
    let neg = g.bool();
    (0..n).map(|_| g.below(m) as f64 - if neg { (m / 2) as f64 } else { 0.0 }).collect()
}
fn records(g: &mut G) -> usize {
    match g.below(12) {
        0 => 0,
        1 => 1,
        2 => g.range(0, 600),
        _ => g.len(200),
    }
}
fn write_with<R: Read>(input: R, opt: ChunkOption, cfg: CompressorConfig) -> Result<Vec<u8>, String> {
    let mut e = Encoder::new(EncoderInput::from_reader(input), EncoderOutput::from_vec(Vec::new()), opt, cfg);
    e.encode().map_err(|e| format!("encode failed: {e:?}"))?;
    Ok(e.into_output().into_vec())
}

// ---------------------------------------------------------------- P13
fn file_round_trip(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let v = data(g, name, n);
    g.note = format!("{name} {opt:?} n={n} {}", hex(&v));
    let b = encode(&v, opt, cfg)?;
    let mut d = open(b)?;
    same("materialize", &materialize(&mut d, None, None)?, &v)?;
    if g.bool() {
        same("materialize again", &materialize(&mut d, None, None)?, &v)?;
    }
    let mut it = vec![];
    for c in 0..d.chunk_footers().len() {
        let mut r = d.chunk_reader(ChunkId::new(c)).map_err(|e| format!("{e:?}"))?;
        let t = &mut SegmentedExecutionTimes::new();
        let take = g.us(20);
        let steps = g.range(1, 3);
        let mut last: Vec<f64> = vec![];
        for step in 0..steps {
            let k = g.below(3);
            if k == 0 {
                let mut i = r.inner_mut().decompress_iter().map_err(|e| format!("{e:?}"))?;
                for x in i.by_ref().take(take) {
                    x.map_err(|e| format!("{name}: chunk {c}: partial iteration: {e:?}"))?;
                }
            } else if k == 1 {
                last = r.inner_mut().decompress(t).map_err(|e| format!("{name}: chunk {c} step {step}: decompress: {e:?}"))?.to_vec();
            } else {
                last = r.inner_mut().decompress_iter().map_err(|e| format!("{e:?}"))?.collect::<crate::decoder::Result<Vec<f64>>>().map_err(|e| format!("{name}: chunk {c} step {step}: iterate: {e:?}"))?;
            }
        }
        let fin = r.inner_mut().decompress_iter().map_err(|e| format!("{e:?}"))?.collect::<crate::decoder::Result<Vec<f64>>>().map_err(|e| format!("{name}: chunk {c}: iterate: {e:?}"))?;
        if !last.is_empty() {
            same(&format!("{name}: chunk {c}: repeated decoding"), &fin, &last)?;
        }
        it.extend(fin);
    }
    same("chunk by chunk iteration", &it, &v)
}
fn piecewise_input(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let v = data(g, name, n);
    let seed = g.u64();
    let max = g.pick(&[1usize, 3, 8, 40, 1000]);
    let interrupts = g.bool();
    g.note = format!("{name} {opt:?} n={n} pieces of at most {max}, interrupts {interrupts} {}", hex(&v));
    let b = write_with(Pieces { data: raw(&v), pos: 0, g: G::new(seed, 10), max, interrupts }, opt, cfg)?;
    let mut d = open(b)?;
    same("materialize", &materialize(&mut d, None, None)?, &v)
}
fn piecewise_decode(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let v = data(g, name, n);
    let seed = g.u64();
    let max = g.pick(&[1usize, 3, 8, 40, 1000]);
    let interrupts = g.bool();
    g.note = format!("{name} {opt:?} n={n} pieces of at most {max}, interrupts {interrupts} {}", hex(&v));
    let b = encode(&v, opt, cfg)?;
    let r = Pieces { data: b, pos: 0, g: G::new(seed, 10), max, interrupts };
    let mut d = Decoder::new(DecoderInput::from_reader(r)).map_err(|e| format!("open failed: {e:?}"))?;
    let mut o = DecoderOutput::from_writer(Limited { out: Cursor::new(vec![]), left: usize::MAX, piece: g.range(1, 9) });
    d.materialize(&mut o, None, None).map_err(|e| format!("materialize failed: {e:?}"))?;
    same("materialize", &floats(&o.into_writer().out.into_inner()), &v)
}

// ---------------------------------------------------------------- P15
const HEADER: u64 = 30;
fn scheme(name: &str) -> CompressionScheme {
    match name {
        "uncompressed" => CompressionScheme::Uncompressed,
        "rle" => CompressionScheme::RLE,
        "gorilla" => CompressionScheme::Gorilla,
        "chimp" => CompressionScheme::Chimp,
        "chimp128" => CompressionScheme::Chimp128,
        "elf" => CompressionScheme::Elf,
        "elf_on_chimp" => CompressionScheme::ElfOnChimp,
        "zstd" => CompressionScheme::Zstd,
        "gzip" => CompressionScheme::Gzip,
        _ => CompressionScheme::Snappy,
    }
}
fn check_directory<T: FileMetadataLike>(m: &T, name: &str, opt: ChunkOption, cfg: CompressorConfig, n: usize, size: usize) -> Result<(), String> {
    let h = m.header();
    let f = m.footer();
    eq("magic number", *h.magic_number(), *b"EBI1")?;
    eq("version", *h.version(), [0, 1, 14].map(|x: u16| x))?;
    eq("field type", h.config().field_type, FieldType::F64)?;
    eq("chunk option", h.config().chunk_option, opt)?;
    eq("compression scheme", h.config().compression_scheme, scheme(name))?;
    eq("compressor configuration", *f.compressor_config(), cfg)?;
    eq("number_of_records", f.number_of_records(), n as u64)?;
    let cs = f.chunk_footers();
    eq("number_of_chunks", f.number_of_chunks(), cs.len() as u64)?;
    let per = match opt {
        ChunkOption::Full => n.max(1),
        ChunkOption::RecordCount(c) => c,
        ChunkOption::ByteSizeBestEffort(b) => (b as f64 / 8.0 * 1.5).ceil() as usize,
    };
    if !matches!(opt, ChunkOption::ByteSizeBestEffort(_)) {
        eq("chunks", cs.len(), n.div_ceil(per))?;
    }
    for (i, c) in cs.iter().enumerate() {
        if !matches!(opt, ChunkOption::ByteSizeBestEffort(_)) {
            eq(&format!("logical offset of chunk {i}"), c.logical_offset(), (i * per) as u64)?;
        }
        let next = cs.get(i + 1);
        vassert!(next.map_or(n as u64, |c| c.logical_offset()) > c.logical_offset(), "chunk {i} holds no records");
        vassert!(next.map_or(h.footer_offset(), |c| c.physical_offset()) > c.physical_offset(), "chunk {i} holds no bytes");
    }
    if let Some(c) = cs.first() {
        eq("first chunk's byte offset", c.physical_offset(), HEADER)?;
        eq("first chunk's record offset", c.logical_offset(), 0)?;
    } else {
        eq("footer offset of an empty file", h.footer_offset(), HEADER)?;
    }
    eq("file size", h.footer_offset() + f.size() as u64, size as u64)
}
fn directory(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let v = data(g, name, n);
    g.note = format!("{name} {opt:?} n={n} {}", hex(&v));
    directory_of(name, cfg, opt, v)
}
/// record numbers and byte offsets beyond 16 bits
fn large_directory(g: &mut G) -> Result<(), String> {
    let n = g.range(60_000, 200_000);
    let per = match g.below(4) { 0 => 65_536, 1 => 65_535, 2 => 32_768, _ => g.range(2_000, 70_000) };
    let opt = match g.below(3) { 0 => ChunkOption::ByteSizeBestEffort(per * 2), _ => ChunkOption::RecordCount(per) };
    g.note = format!("uncompressed {opt:?} values 0.0, 1.0, .. {}.0", n - 1);
    let v: Vec<f64> = (0..n).map(|i| i as f64).collect();
    directory_of("uncompressed", CompressorConfig::uncompressed().build().into(), opt, v)
}
fn directory_of(name: &str, cfg: CompressorConfig, opt: ChunkOption, v: Vec<f64>) -> Result<(), String> {
    let n = v.len();
    let b = encode(&v, opt, cfg)?;
    let size = b.len();
    let mut fr = FileReader::new();
    let mut c = Cursor::new(b.clone());
    fr.fetch_header(&mut c).map_err(|e| format!("{e:?}"))?;
    fr.seek_to_footer(&mut c).map_err(|e| format!("{e:?}"))?;
    fr.fetch_footer(&mut c).map_err(|e| format!("{e:?}"))?;
    eq("bytes after the footer", c.position(), size as u64)?;
    let m = fr.into_metadata().unwrap();
    check_directory(&m, name, opt, cfg, n, size)?;
    let hs: Vec<_> = m.chunks_iter().collect();
    let cs = m.footer().chunk_footers();
    eq("handles", hs.len(), cs.len())?;
    for (i, h) in hs.iter().enumerate() {
        let np = cs.get(i + 1).map_or(m.header().footer_offset(), |c| c.physical_offset());
        let nl = cs.get(i + 1).map_or(n as u64, |c| c.logical_offset());
        let (p, l) = (cs[i].physical_offset(), cs[i].logical_offset());
        eq("chunk_index", h.chunk_index(), i)?;
        eq("is_last_chunk", h.is_last_chunk(), i + 1 == cs.len())?;
        eq("chunk_size", h.chunk_size(), np - p)?;
        eq("physical_offset", h.physical_offset(), p)?;
        eq("logical_offset", h.logical_offset(), l)?;
        eq("next_physical_offset", h.next_physical_offset(), np)?;
        eq("next_logical_offset", h.next_logical_offset(), nl)?;
        eq("number_of_records", h.number_of_records(), nl - l)?;
        eq("logical_record_range", h.logical_record_range(), l..nl)?;
        eq("logical_record_range_u32", h.logical_record_range_u32(), l as u32..nl as u32)?;
        h.seek_to_chunk(&mut c).map_err(|e| format!("{e:?}"))?;
        eq("seek_to_chunk", c.position(), p)?;
        h.seek_to_chunk_end(&mut c).map_err(|e| format!("{e:?}"))?;
        eq("seek_to_chunk_end", c.position(), np)?;
    }
    let d = open(b)?;
    eq("total_file_size", d.total_file_size(), size as u64)?;
    eq("footer_size", d.footer_size(), size as u64 - d.header().footer_offset())?;
    eq("total_chunk_size", d.total_chunk_size(), d.header().footer_offset() - HEADER)
}
fn chunk_access(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let v = data(g, name, n);
    g.note = format!("{name} {opt:?} n={n} {}", hex(&v));
    let mut d = open(encode(&v, opt, cfg)?)?;
    let ls: Vec<usize> = d.chunk_footers().iter().map(|c| c.logical_offset() as usize).chain([n]).collect();
    let k = ls.len() - 1;
    for _ in 0..if k == 0 { 0 } else { 6 } {
        let i = g.us(k);
        let want = &v[ls[i]..ls[i + 1]];
        match g.below(3) {
            0 => same(&format!("chunk {i} by id"), &materialize(&mut d, None, Some(i))?, want)?,
            1 => {
                let mut r = d.chunk_reader(ChunkId::new(i)).map_err(|e| format!("{e:?}"))?;
                eq("number_of_records of the chunk reader", r.number_of_records(), want.len() as u64)?;
                eq("chunk_index of the chunk reader", r.chunk_index(), i)?;
                eq("is_last_chunk of the chunk reader", r.is_last_chunk(), i + 1 == k)?;
                same(&format!("chunk {i} by reader"), r.inner_mut().decompress(&mut SegmentedExecutionTimes::new()).map_err(|e| format!("{e:?}"))?, want)?
            }
            _ => {
                let mut r = d.chunk_reader(ChunkId::new(i)).map_err(|e| format!("{e:?}"))?;
                let mut o = vec![];
                r.materialize(&mut o, None).map_err(|e| format!("{e:?}"))?;
                same(&format!("chunk {i} materialized"), &floats(&o), want)?
            }
        }
    }
    Ok(())
}
/// the writer driven by hand, with a fresh or a handed-on compressor per chunk
fn manual_writer(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let v = data(g, name, n);
    let keep = g.bool();
    g.note = format!("{name} {opt:?} n={n} keep={keep} {}", hex(&v));
    let rawv = raw(&v);
    let mut w = FileWriter::new(&rawv[..], cfg, opt);
    let mut out = Cursor::new(Vec::new());
    w.write_header(&mut out).map_err(|e| format!("{e:?}"))?;
    eq("header size", out.get_ref().len(), w.file_header_size())?;
    let mut comp = None;
    let mut chunks = 0;
    vassert!(w.chunk_writer().is_some(), "the first chunk writer is missing");
    while let Some(mut c) = w.chunk_writer_with_compressor(comp.take()) {
        c.write(&mut out).map_err(|e| format!("{e:?}"))?;
        if keep {
            comp = Some(c.into_compressor());
        }
        chunks += 1;
        vassert!(chunks <= n + 2, "more chunks than records");
    }
    let foot = out.position();
    w.write_footer(&mut out, SegmentedExecutionTimes::new()).map_err(|e| format!("{e:?}"))?;
    let size = out.get_ref().len();
    let (a, b) = (w.footer_offset_slot_offset(), w.elapsed_time_slot_offset());
    out.set_position(a as u64);
    w.write_footer_offset(&mut out).map_err(|e| format!("{e:?}"))?;
    out.set_position(b as u64);
    w.write_elapsed_time(&mut out).map_err(|e| format!("{e:?}"))?;
    eq("length after filling the slots", out.get_ref().len(), size)?;
    let mut d = open(out.into_inner())?;
    eq("footer offset", d.header().footer_offset(), foot)?;
    check_directory(&MetaOf(&d), name, opt, cfg, n, size)?;
    vassert!(d.footer().compression_elapsed_time_nano_secs() > 0 && d.footer().compression_elapsed_time_nano_secs() < 1 << 62, "elapsed time {}", d.footer().compression_elapsed_time_nano_secs());
    same("materialize", &materialize(&mut d, None, None)?, &v)
}
struct MetaOf<'a>(&'a Dec);
impl FileMetadataLike for MetaOf<'_> {
    fn header(&self) -> &crate::format::native::NativeFileHeader {
        self.0.header()
    }
    fn footer(&self) -> &crate::format::native::NativeFileFooter {
        self.0.footer()
    }
}

// ---------------------------------------------------------------- P16
/// a complete file cut anywhere
fn cut_file(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let v = data(g, name, n);
    let mut b = encode(&v, opt, cfg)?;
    let cut = g.us(b.len());
    g.note = format!("{name} {opt:?} n={n} cut at {cut} of {}", b.len());
    b.truncate(cut);
    match Decoder::new(DecoderInput::from_reader(Cursor::new(b))) {
        Ok(_) => Err(format!("a file cut at byte {cut} opens as if it were complete")),
        Err(_) => Ok(()),
    }
}
/// the writer stops at any point before the footer offset is in place
fn unfinished_write(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let v = if g.bool() { data(g, name, n) } else { (0..n).map(|_| f64::from_bits(g.below(40))).collect() };
    let full = encode(&v, opt, cfg)?;
    let foot = u64::from_le_bytes(full[16..24].try_into().unwrap()) as usize;
    eq("footer offset slot", foot < full.len() && foot >= HEADER as usize, true)?;
    let cut = g.range(0, full.len());
    g.note = format!("{name} {opt:?} n={n} stopped after {cut} bytes");
    let mut b = full[..cut].to_vec();
    for x in b.iter_mut().skip(16).take(8) {
        *x = 0;
    }
    match Decoder::new(DecoderInput::from_reader(Cursor::new(b))) {
        Ok(_) => Err(format!("a file whose writing stopped after {cut} bytes opens as if it were complete")),
        Err(_) => Ok(()),
    }
}
fn failing_output(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let v = data(g, name, n);
    let full = encode(&v, opt, cfg)?;
    let left = g.range(0, full.len() + 30);
    g.note = format!("{name} {opt:?} n={n} output accepts {left} bytes of {}", full.len() + 24);
    let o = Limited { out: Cursor::new(vec![]), left, piece: g.range(1, 50) };
    let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_writer(o), opt, cfg);
    let r = e.encode();
    let b = e.into_output().into_inner().out.into_inner();
    if left >= full.len() + 24 {
        r.map_err(|e| format!("encode failed: {e:?}"))?;
        let mut d = open(b)?;
        return same("materialize", &materialize(&mut d, None, None)?, &v);
    }
    vassert!(r.is_err(), "encode reports success although the output took only {left} bytes");
    if left > full.len() {
        return Ok(()); // the eight bytes of the footer offset torn, or everything but the elapsed time in place
    }
    if b.len() >= 24 && u64::from_le_bytes(b[16..24].try_into().unwrap()) == u64::from_le_bytes(full[16..24].try_into().unwrap()) {
        return Ok(());
    }
    match Decoder::new(DecoderInput::from_reader(Cursor::new(b))) {
        Ok(_) => Err("a file whose writing failed opens as if it were complete".into()),
        Err(_) => Ok(()),
    }
}

// ---------------------------------------------------------------- P17
fn rv(g: &mut G, x: f64) -> RangeValue {
    match g.below(5) {
        0 => RangeValue::None,
        1 | 2 => RangeValue::Inclusive(x),
        _ => RangeValue::Exclusive(x),
    }
}
fn near(g: &mut G, v: &[f64]) -> f64 {
    if v.is_empty() || g.chance(6) {
        return any_double(g);
    }
    let x = v[g.us(v.len())];
    match g.below(8) {
        0 => f64::from_bits(x.to_bits().wrapping_add(1)),
        1 => f64::from_bits(x.to_bits().wrapping_sub(1)),
        2 => -x,
        3 => x + 1.0,
        _ => x,
    }
}
pub fn predicate(g: &mut G, v: &[f64]) -> Predicate {
    let (a, b) = (near(g, v), near(g, v));
    match g.below(5) {
        0 => Predicate::Eq(a),
        1 => Predicate::Ne(a),
        _ => {
            let (a, b) = if a > b && !g.chance(6) { (b, a) } else { (a, b) };
            Predicate::Range(Range::new(rv(g, a), rv(g, b)))
        }
    }
}
pub fn holds(p: &Predicate, x: f64) -> bool {
    match p {
        Predicate::Eq(a) => x == *a,
        Predicate::Ne(a) => !(x == *a),
        Predicate::Range(r) => {
            (match r.start {
                RangeValue::None => true,
                RangeValue::Inclusive(a) => x >= a,
                RangeValue::Exclusive(a) => x > a,
            }) && (match r.end {
                RangeValue::None => true,
                RangeValue::Inclusive(a) => x <= a,
                RangeValue::Exclusive(a) => x < a,
            })
        }
    }
}
fn predicate_eval(g: &mut G) -> Result<(), String> {
    let v = series(g, 20);
    let p = predicate(g, &v);
    for x in &v {
        g.note = format!("{p:?} on {x:?}");
        eq("eval", p.eval(*x), holds(&p, *x))?;
        // an increasing map keeps a predicate
        let (k, d) = (1i64 << g.below(20), g.below(1000) as i64);
        let q: PredicateImpl<i64> = match p {
            Predicate::Eq(a) => PredicateImpl::Eq(a as i32 as i64),
            Predicate::Ne(a) => PredicateImpl::Ne(a as i32 as i64),
            Predicate::Range(r) => PredicateImpl::Range(r.map(|a| a as i32 as i64)),
        };
        let y = *x as i32 as i64;
        eq("eval of the mapped predicate", q.map(|a| a * k + d).eval(y * k + d), q.eval(y))?;
    }
    Ok(())
}
pub fn mask(g: &mut G, n: usize) -> Option<RoaringBitmap> {
    let mut m = RoaringBitmap::new();
    match g.below(7) {
        0 | 1 => return None,
        2 => {}
        3 => {
            m.insert_range(0..n as u32 + 3);
        }
        4 => {
            let a = g.us(n + 2);
            let b = g.range(a, n + 2);
            m.insert_range(a as u32..b as u32);
        }
        5 => {
            for _ in 0..g.range(1, 4) {
                m.insert(g.us(n + 3) as u32);
            }
        }
        _ => {
            let k = g.range(1, 5) as u64;
            for i in 0..n as u32 + 2 {
                if g.chance(k) {
                    m.insert(i);
                }
            }
        }
    }
    if g.chance(5) {
        m.insert(u32::MAX - g.below(4) as u32);
    }
    Some(m)
}
pub fn inm(m: &Option<RoaringBitmap>, i: usize) -> bool {
    m.as_ref().is_none_or(|m| m.contains(i as u32))
}
/// record range covered by an optional chunk id
pub fn span<R: Read + Seek>(d: &Decoder<R>, id: Option<usize>) -> std::ops::Range<usize> {
    let n = d.footer().number_of_records() as usize;
    match id {
        None => 0..n,
        Some(i) => {
            let cs = d.chunk_footers();
            match cs.get(i) {
                None => 0..0,
                Some(c) => c.logical_offset() as usize..cs.get(i + 1).map_or(n, |c| c.logical_offset() as usize),
            }
        }
    }
}
pub fn chunk_id(g: &mut G, d: &Dec) -> Option<usize> {
    let k = d.chunk_footers().len();
    if g.bool() || k == 0 {
        None
    } else {
        Some(g.us(k + 1))
    }
}
pub fn check_filters(g: &mut G, d: &mut Dec, v: &[f64]) -> Result<(), String> {
    let n = v.len();
    let p = predicate(g, v);
    let m = mask(g, n);
    let id = chunk_id(g, d);
    let s = span(d, id);
    g.note += &format!(" | {p:?} mask {m:?} chunk {id:?}");
    let want: Vec<u32> = s.clone().filter(|&i| inm(&m, i) && holds(&p, v[i])).map(|i| i as u32).collect();
    match g.below(4) {
        0 => {
            let want: Vec<f64> = s.filter(|&i| inm(&m, i)).map(|i| v[i]).collect();
            same("materialize with mask", &materialize(d, m.as_ref(), id)?, &want)
        }
        1 => {
            let mut o = DecoderOutput::from_vec(Vec::new());
            d.filter_materialize(&mut o, p, m.as_ref(), id.map(ChunkId::new)).map_err(|e| format!("filter_materialize failed: {e:?}"))?;
            same("filter_materialize", &floats(&o.into_writer().into_inner()), &want.iter().map(|&i| v[i as usize]).collect::<Vec<_>>())
        }
        2 if id.is_some() && !s.is_empty() => {
            let mut r = d.chunk_reader(ChunkId::new(id.unwrap())).map_err(|e| format!("{e:?}"))?;
            let b = r.filter(p, m.as_ref()).map_err(|e| format!("filter failed: {e:?}"))?;
            eq("filter of a chunk reader", b.iter().collect::<Vec<_>>(), want.clone())?;
            let b = r.filter(p, m.as_ref()).map_err(|e| format!("filter failed: {e:?}"))?;
            eq("filter of a chunk reader, again", b.iter().collect::<Vec<_>>(), want)
        }
        _ => {
            let b = d.filter(p, m.as_ref(), id.map(ChunkId::new)).map_err(|e| format!("filter failed: {e:?}"))?;
            eq("filter", b.iter().collect::<Vec<_>>(), want)
        }
    }
}
fn filter_queries(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let v = if g.bool() { ints(g, n) } else { data(g, name, n) };
    g.note = format!("{name} {opt:?} n={n} {}", hex(&v));
    let mut d = open(encode(&v, opt, cfg)?)?;
    check_filters(g, &mut d, &v)
}
/// the result of one filter is the mask of the next query
fn query_sequences(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let v = ints(g, n);
    g.note = format!("{name} {opt:?} n={n} {}", hex(&v));
    let mut d = open(encode(&v, opt, cfg)?)?;
    let mut m: Option<RoaringBitmap> = None;
    let mut want: Vec<u32> = (0..n as u32).collect();
    for _ in 0..g.range(1, 4) {
        let p = predicate(g, &v);
        g.note += &format!(" | {p:?}");
        let r = d.filter(p, m.as_ref(), None).map_err(|e| format!("filter failed: {e:?}"))?;
        want.retain(|&i| holds(&p, v[i as usize]));
        eq("conjunction by masks", r.iter().collect::<Vec<_>>(), want.clone())?;
        m = Some(r);
    }
    let got = materialize(&mut d, m.as_ref(), None)?;
    same("materialize of the conjunction", &got, &want.iter().map(|&i| v[i as usize]).collect::<Vec<_>>())
}

// ---------------------------------------------------------------- P18
fn aggregates(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g);
    let mut v = ints(g, n);
    let exact = g.bool();
    if !exact {
        v = data(g, name, n);
        for x in v.iter_mut() {
            if !x.is_finite() || x.abs() > 1e100 {
                *x = if g.bool() { f64::INFINITY } else { 7.5 };
            }
        }
    }
    g.note = format!("{name} {opt:?} n={n} {}", hex(&v));
    let mut d = open(encode(&v, opt, cfg)?)?;
    let m = mask(g, n);
    let id = chunk_id(g, &d);
    let s = span(&d, id);
    g.note += &format!(" | mask {m:?} chunk {id:?}");
    let sel: Vec<f64> = s.filter(|&i| inm(&m, i)).map(|i| v[i]).collect();
    let id = id.map(ChunkId::new);
    let (mn, mx) = (sel.iter().copied().fold(f64::INFINITY, f64::min), sel.iter().copied().fold(f64::NEG_INFINITY, f64::max));
    eq("min", d.min(m.as_ref(), id).map_err(|e| format!("{e:?}"))?, mn)?;
    eq("max", d.max(m.as_ref(), id).map_err(|e| format!("{e:?}"))?, mx)?;
    let sum = d.sum(m.as_ref(), id).map_err(|e| format!("{e:?}"))?;
    if exact {
        eq("sum", sum, sel.iter().sum::<f64>() + 0.0)?;
    } else if sel.iter().all(|x| x.is_finite()) {
        let (t, a) = (sel.iter().sum::<f64>(), sel.iter().map(|x| x.abs()).sum::<f64>());
        vassert!((sum - t).abs() <= a * 1e-12, "sum: got {sum}, expected {t}");
    }
    if let Some(i) = id {
        if i.index() < d.chunk_footers().len() {
            let mut r = d.chunk_reader(i).map_err(|e| format!("{e:?}"))?;
            for k in 0..3 {
                match (k + g.us(2)) % 3 {
                    0 => eq("min of a chunk reader", r.min(m.as_ref()).map_err(|e| format!("{e:?}"))?, mn)?,
                    1 => eq("max of a chunk reader", r.max(m.as_ref()).map_err(|e| format!("{e:?}"))?, mx)?,
                    _ if exact => eq("sum of a chunk reader", r.sum(m.as_ref()).map_err(|e| format!("{e:?}"))?, sel.iter().sum::<f64>() + 0.0)?,
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P19
fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum()
}
fn distance_and_dot(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let n = records(g).max(1);
    let v = ints(g, n);
    let tl = g.len(40);
    let t = ints(g, tl);
    g.note = format!("{name} {opt:?} n={n} target of {}", t.len());
    let mut d = open(encode(&v, opt, cfg)?)?;
    let c = g.us(d.chunk_footers().len());
    let s = span(&d, Some(c));
    let w = &v[s];
    let off = g.us(w.len() + 3);
    let tail = &w[off.min(w.len())..];
    let mut r = d.chunk_reader(ChunkId::new(c)).map_err(|e| format!("{e:?}"))?;
    g.note += &format!(" chunk {c} offset {off} of {}", w.len());
    eq("distance_squared", r.distance_squared(off, &t).map_err(|e| format!("{e:?}"))? + 0.0, dist(tail, &t) + 0.0)?;
    eq("dot_product", r.dot_product(off, &t).map_err(|e| format!("{e:?}"))? + 0.0, tail.iter().zip(&t).map(|(a, b)| a * b).sum::<f64>() + 0.0)
}
fn nearest_vector(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let len = g.range(1, 12);
    let k = g.len(20);
    let extra = if g.chance(4) { g.us(len) } else { 0 };
    let v = ints(g, k * len + extra);
    let t = if k > 0 && g.bool() {
        let i = g.us(k);
        let mut t = v[i * len..(i + 1) * len].to_vec();
        if g.bool() {
            let j = g.us(len);
            t[j] += 1.0;
        }
        t
    } else {
        ints(g, len)
    };
    g.note = format!("{name} {opt:?} {k} vectors of {len} and {extra} more values; data {v:?} target {t:?}");
    let mut d = open(encode(&v, opt, cfg)?)?;
    let r = d.knn1(&t).map_err(|e| format!("knn1 failed: {e:?}"))?;
    let ds: Vec<f64> = v.chunks_exact(len).map(|a| dist(a, &t)).collect();
    let best = ds.iter().copied().fold(f64::INFINITY, f64::min);
    eq("distance of the nearest vector", r.distance, best)?;
    if k > 0 {
        vassert!(r.index < k, "nearest vector {} of {k}", r.index);
        eq("distance of the vector reported as nearest", ds[r.index], best)?;
    }
    Ok(())
}
fn matrix_product(g: &mut G) -> Result<(), String> {
    let (name, cfg) = lossless(g);
    let opt = chunk_option(g);
    let (rows, cols, tc) = (g.range(1, 5), g.range(1, 6), g.range(1, 5));
    let batch = g.range(1, 8);
    let bad = g.chance(8);
    let more = if bad { g.us(rows * cols) } else { 0 };
    let v = ints(g, rows * cols * batch + more);
    let t = ints(g, cols * tc);
    g.note = format!("{name} {opt:?} {batch} matrices {rows}x{cols} times {cols}x{tc}; data {v:?} target {t:?}");
    let mut d = open(encode(&v, opt, cfg)?)?;
    let kind = if g.chance(6) { g.range(1, 6) } else { 0 };
    let wrong_shape = kind != 0;
    let (ts, ms) = match kind {
        0 => ((cols, tc), (rows, cols)),
        1 => ((cols + 1, tc), (rows, cols)),
        2 => ((cols, tc + g.range(1, 3)), (rows, cols)),
        3 => ((cols, g.us(tc)), (rows, cols)),
        4 => ((cols, tc), (0, cols)),
        5 => ((0, 0), (rows, 0)),
        _ => ((cols * tc, 1), (rows, cols + cols * tc)),
    };
    g.note += &format!(" as {ts:?} with {ms:?}");
    let r = d.matmul(&t, ts, ms);
    if wrong_shape || v.len() % (rows * cols) != 0 {
        vassert!(r.is_err(), "matmul accepts shapes that do not fit");
        return Ok(());
    }
    let r = r.map_err(|e| format!("matmul failed: {e:?}"))?;
    let mut want = vec![];
    for m in v.chunks_exact(rows * cols) {
        for row in m.chunks_exact(cols) {
            for col in t.chunks_exact(cols) {
                want.push(row.iter().zip(col).map(|(a, b)| a * b).sum::<f64>());
            }
        }
    }
    eq("matmul", r.iter().map(|x| x + 0.0).collect::<Vec<_>>(), want.iter().map(|x| x + 0.0).collect())
}

// ---------------------------------------------------------------- P20
fn gen_expr(g: &mut G, k: usize, depth: usize) -> Expr {
    if depth == 0 || g.chance(4) {
        return Expr::Index(g.us(k));
    }
    let op = g.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div]);
    let l = if g.chance(4) { Expr::Literal(g.below(9) as f64 - 4.0) } else { gen_expr(g, k, depth - 1) };
    let r = if l.literal().is_none() && g.chance(4) { Expr::Literal(g.below(9) as f64 - 4.0) } else { gen_expr(g, k, depth - 1) };
    Expr::Binary { op, lhs: Box::new(l), rhs: Box::new(r) }
}
fn value(e: &Expr, row: &dyn Fn(usize) -> f64) -> f64 {
    match e {
        Expr::Literal(x) => *x,
        Expr::Index(i) => row(*i),
        Expr::Binary { op, lhs, rhs } => {
            let (a, b) = (value(lhs, row), value(rhs, row));
            match op {
                Op::Add => a + b,
                Op::Sub => a - b,
                Op::Mul => a * b,
                Op::Div => a / b,
            }
        }
    }
}
fn top(e: &Expr) -> Option<usize> {
    match e {
        Expr::Literal(_) => None,
        Expr::Index(i) => Some(*i),
        Expr::Binary { lhs, rhs, .. } => top(lhs).max(top(rhs)),
    }
}
fn close(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * scale.max(1.0)
}
fn expressions(g: &mut G) -> Result<(), String> {
    let n = records(g);
    let opt = match chunk_option(g) {
        ChunkOption::ByteSizeBestEffort(_) => ChunkOption::RecordCount(g.range(1, 70)),
        o => o,
    };
    let k = g.range(1, 3);
    let mut cols = vec![];
    let mut ds = vec![];
    for _ in 0..k {
        let (_, cfg) = lossless(g);
        let v = ints(g, n);
        ds.push(open(encode(&v, opt, cfg)?)?);
        cols.push(v);
    }
    if n == 0 {
        return Ok(());
    }
    let m = mask(g, n);
    let es: Vec<Expr> = (0..g.range(1, 3)).map(|_| gen_expr(g, k, 3)).collect();
    g.note = format!("{opt:?} n={n} {es:?} mask {m:?} data {cols:?}");
    let t = &mut SegmentedExecutionTimes::new();
    let vals = |e: &Expr, r: std::ops::Range<usize>| -> Vec<f64> { r.filter(|&i| inm(&m, i)).map(|i| value(e, &|c| cols[c][i])).collect() };
    for e in &es {
        eq("max_chunk_reader_index", e.max_chunk_reader_index(), top(e))?;
        // chunk by chunk
        let c = g.us(ds[0].chunk_footers().len());
        let s = span(&ds[0], Some(c));
        let mut rs = ds.iter_mut().map(|d| d.chunk_reader(ChunkId::new(c))).collect::<crate::decoder::Result<Vec<_>>>().map_err(|e| format!("{e:?}"))?;
        let got = e.compute_chunk(&mut rs, m.as_ref(), t).map_err(|e| format!("compute_chunk failed: {e:?}"))?;
        let want = vals(e, s);
        eq("values of a chunk", got.len(), want.len())?;
        for (a, b) in got.iter().zip(&want) {
            vassert!(a == b || (a.is_nan() && b.is_nan()), "compute_chunk: {a} instead of {b}");
        }
    }
    let kinds = [AggregationKind::Sum, AggregationKind::Min, AggregationKind::Max, AggregationKind::None];
    let mut ags = vec![];
    let mut want = vec![];
    for e in &es {
        let kind = g.pick(&kinds);
        if matches!(e, Expr::Index(_)) && kind == AggregationKind::None {
            continue;
        }
        let all = vals(e, 0..n);
        want.push(match kind {
            AggregationKind::None => all.clone(),
            AggregationKind::Sum => vec![all.iter().sum::<f64>(), all.iter().map(|x| x.abs()).sum::<f64>()],
            AggregationKind::Min => vec![all.iter().copied().fold(f64::INFINITY, f64::min), 0.0],
            AggregationKind::Max => vec![all.iter().copied().fold(f64::NEG_INFINITY, f64::max), 0.0],
        });
        ags.push(match kind {
            AggregationKind::Sum => Aggregation::sum(e.clone()),
            AggregationKind::Min => Aggregation::min(e.clone()),
            AggregationKind::Max => Aggregation::max(e.clone()),
            AggregationKind::None => Aggregation::none(e.clone()),
        });
    }
    let check = |r: &AggregationResult, w: &Vec<f64>| -> Result<(), String> {
        match r {
            AggregationResult::Array(a) => {
                eq("length of the computed column", a.len(), w.len())?;
                for (x, y) in a.iter().zip(w) {
                    vassert!(x == y || (x.is_nan() && y.is_nan()), "column value {x} instead of {y}");
                }
                Ok(())
            }
            AggregationResult::Scalar(x) => {
                vassert!(close(*x, w[0], w[1]) || w[1].is_infinite(), "aggregate {x} instead of {}", w[0]);
                eq("scalar()", r.scalar().map(f64::to_bits), Some(x.to_bits()))
            }
            AggregationResult::Integer(_) => Err("unexpected integer".into()),
        }
    };
    for (a, w) in ags.iter().zip(&want) {
        check(&a.compute(&mut ds, m.as_ref(), t).map_err(|e| format!("compute failed: {e:?}"))?, w)?;
    }
    let rs = Aggregation::compute_multiple(&ags, &mut ds, m.as_ref(), t).map_err(|e| format!("compute_multiple failed: {e:?}"))?;
    eq("results of compute_multiple", rs.len(), want.len())?;
    for (r, w) in rs.iter().zip(&want) {
        check(r, w)?;
    }
    Ok(())
}
fn aggregation_concat(g: &mut G) -> Result<(), String> {
    let n = g.len(40);
    let v = ints(g, n);
    let cut = g.us(v.len() + 1);
    g.note = format!("{v:?} cut {cut}");
    for kind in [AggregationKind::Sum, AggregationKind::Min, AggregationKind::Max, AggregationKind::None] {
        let mut r = AggregationResult::zero(kind);
        for part in [&v[..cut], &v[cut..]] {
            r.concat(kind.dispatch_on_vec(part.to_vec()).map_err(|e| format!("{e:?}"))?, kind).map_err(|e| format!("{e:?}"))?;
        }
        let whole = match kind {
            AggregationKind::None => AggregationResult::Array(v.clone()),
            AggregationKind::Sum => AggregationResult::Scalar(v.iter().sum::<f64>() + 0.0),
            AggregationKind::Min => AggregationResult::Scalar(v.iter().copied().fold(f64::INFINITY, f64::min)),
            AggregationKind::Max => AggregationResult::Scalar(v.iter().copied().fold(f64::NEG_INFINITY, f64::max)),
        };
        eq("two parts concatenated", r, whole)?;
        let mut a = AggregationResult::Scalar(1.0);
        vassert!(a.concat(AggregationResult::Array(vec![]), kind).is_err(), "scalar and array concatenate");
    }
    Ok(())
}
