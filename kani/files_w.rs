//@include lib/clock.rs
//@subst encoder.rs :: compressor::{Compressor, CompressorConfig, GenericCompressor} => compressor::CompressorConfig, verif_w::Coder as GenericCompressor
//@subst encoder.rs :: self.compressor.build() => GenericCompressor::of(&self.compressor)
//@new verif_w
// (Kani merges statics with constants of equal content: every static starts with a value of its own.)
// A stand-in for the codecs: takes any records, counts any number of input bytes, gives any five buffers.
use crate::compressor::CompressorConfig;
use crate::encoder;
use crate::time::SegmentedExecutionTimes;
pub const BIG: usize = 1 << 16;
pub static mut STORE: [u8; BIG] = [0xa1; BIG];
pub static mut LENS: [usize; 5] = [0xb1b2; 5];
pub static mut IN: usize = 0xc1c2c3;
pub static mut RESETS: usize = 0xd1d2d3;
pub static mut GOT: [u64; 4] = [0xe1e2; 4];
pub static mut NGOT: usize = 0xf1f2f3;
pub static mut PREPARED: u32 = 0x91929394;
pub struct Coder(pub u8);
impl Coder {
    pub fn of(_: &CompressorConfig) -> Self {
        Coder(7)
    }
    pub fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
        unsafe {
            NGOT = input.len();
            let mut i = 0;
            while i < 4 {
                if i < input.len() {
                    GOT[i] = input[i].to_bits();
                }
                i += 1;
            }
        }
        Ok(())
    }
    pub fn total_bytes_in(&self) -> usize {
        unsafe { IN }
    }
    pub fn total_bytes_buffered(&self) -> usize {
        unsafe { LENS[0] + LENS[1] + LENS[2] + LENS[3] + LENS[4] }
    }
    pub fn prepare(&mut self) {
        unsafe {
            PREPARED = 1;
        }
    }
    pub fn buffers(&self) -> [&[u8]; 5] {
        unsafe {
            assert!(PREPARED == 1, "the buffers are taken after they were prepared");
            let p = std::ptr::addr_of!(STORE) as *const u8;
            let s = |k: usize| std::slice::from_raw_parts(p.add(2 * k), LENS[k]);
            [s(0), s(1), s(2), s(3), s(4)]
        }
    }
    pub fn reset(&mut self) {
        unsafe {
            RESETS += 1;
        }
    }
    pub fn execution_times(&self) -> Option<&SegmentedExecutionTimes> {
        None
    }
}
//@append encoder.rs
#[cfg(kani)]
mod verif_h {
    use super::*;
    use crate::verif_w::*;
    use std::io::{Seek, SeekFrom};

    /// a writer that counts, and keeps up to ten bytes
    struct Spot {
        pos: usize,
        on: bool,
        got: [u8; 10],
    }
    impl Write for Spot {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            let n: usize = kani::any();
            kani::assume(n <= b.len() && (n > 0 || b.is_empty()));
            self.take(&b[..n]);
            Ok(n)
        }
        fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
            self.take(b);
            Ok(())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    impl Spot {
        fn take(&mut self, b: &[u8]) {
            if self.on {
                if b.len() > 0 {
                    self.got[self.pos] = b[0];
                }
                if b.len() > 1 {
                    self.got[self.pos + 1] = b[1];
                }
            }
            self.pos += b.len();
        }
    }
    struct No;
    impl Read for No {
        fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
            Ok(0)
        }
    }
    static mut ASKED: usize = 0x818283;
    static mut HAVE: [u64; 2] = [0x6162; 2];
    static mut NHAVE: usize = 0x717273;
    /// the contract of read_less_or_equal, proved below (bounded) : some records, at most the number asked for
    fn some_records<R: Read>(_f: R, n_bytes: usize) -> Result<Vec<f64>> {
        unsafe {
            ASKED = n_bytes;
            let mut v = Vec::new();
            if NHAVE > 0 {
                v.push(f64::from_bits(HAVE[0]));
            }
            if NHAVE > 1 {
                v.push(f64::from_bits(HAVE[1]));
            }
            Ok(v)
        }
    }
    fn setup(most: usize) -> usize {
        unsafe {
            let mut sum = 0;
            let mut k = 0;
            while k < 5 {
                LENS[k] = kani::any();
                kani::assume(LENS[k] <= most);
                sum += LENS[k];
                k += 1;
            }
            let b: [u8; 10] = kani::any();
            k = 0;
            while k < 10 {
                STORE[k] = b[k];
                k += 1;
            }
            IN = kani::any();
            kani::assume(IN < 1 << 60);
            HAVE = kani::any();
            sum
        }
    }
    fn writer(option: ChunkOption) -> FileWriter<No> {
        let total_bytes_in: usize = kani::any();
        let total_bytes_out: usize = kani::any();
        let logical_offset: u64 = kani::any();
        kani::assume(total_bytes_in < 1 << 60 && total_bytes_out < 1 << 60 && logical_offset < 1 << 60);
        let mut fw = FileWriter::new(No, CompressorConfig::rle().build().into(), option);
        fw.total_bytes_in = total_bytes_in;
        fw.total_bytes_out = total_bytes_out;
        fw.chunk_footers = Vec::with_capacity(4);
        fw.chunk_footers.push(ChunkFooter { physical_offset: kani::any(), logical_offset: kani::any() });
        fw.chunk_footers.push(ChunkFooter { physical_offset: 30 + total_bytes_out as u64, logical_offset });
        fw
    }
    fn clocked_step(option: ChunkOption, have: usize, w: &mut Spot) -> (FileWriter<No>, usize, ChunkFooter, ChunkFooter, Option<Result<()>>) {
        let mut fw = writer(option);
        unsafe {
            NHAVE = have;
        }
        let n0 = fw.chunk_footers.len();
        let last = fw.chunk_footers[n0 - 1];
        let first = fw.chunk_footers[0];
        let mut r = None;
        if let Some(mut cw) = fw.chunk_writer() {
            r = Some(cw.write(w));
            std::mem::forget(cw);
        }
        (fw, n0, first, last, r)
    }
    fn step(have: usize, content: bool) {
        let count: usize = kani::any();
        kani::assume(count < 1 << 59);
        let sum = setup(if content { 2 } else { BIG - 10 });
        let mut w = Spot { pos: 0, on: content, got: [0; 10] };
        let (mut fw, n0, first, last, r) = clocked_step(ChunkOption::RecordCount(count), have, &mut w);
        assert!(matches!(r, Some(Ok(()))), "a writer that has not reached the end hands out a chunk writer");
        std::mem::forget(r);
        let l0 = last.logical_offset;
        unsafe {
            assert!(RESETS > 0xd1d2d3, "the codec is reset before every chunk");
            assert!(ASKED == count * 8);
            if have == 0 {
                assert!(fw.reaches_eof && w.pos == 0 && fw.chunk_footers.len() == n0 && last.physical_offset == 30 + fw.total_bytes_out as u64);
                assert!(fw.chunk_writer().is_none());
            } else {
                assert!(NGOT == have && GOT[0] == HAVE[0] && (have < 2 || GOT[1] == HAVE[1]), "the codec gets the records read");
                if IN == 0 {
                    assert!(fw.reaches_eof && w.pos == 0 && fw.chunk_footers.len() == n0);
                } else {
                    assert!(!fw.reaches_eof);
                    assert!(w.pos == sum, "exactly the codec's bytes are written");
                    if content {
                        let mut p = 0;
                        let mut k = 0;
                        while k < 5 {
                            assert!(LENS[k] < 1 || w.got[p] == STORE[2 * k]);
                            assert!(LENS[k] < 2 || w.got[p + 1] == STORE[2 * k + 1], "the codec's buffers are written in order");
                            p += LENS[k];
                            k += 1;
                        }
                    }
                    assert!(fw.chunk_footers.len() == n0 + 1);
                    let (a, b) = (fw.chunk_footers[n0 - 1], fw.chunk_footers[n0]);
                    assert!(a == last && fw.chunk_footers[0] == first, "earlier entries of the directory stay");
                    let (ph, lo, lp) = (b.physical_offset, b.logical_offset, last.physical_offset);
                    assert!(ph == lp + sum as u64);
                    assert!(lo == l0 + (IN / 8) as u64);
                    assert!(ph == 30 + fw.total_bytes_out as u64, "the invariant holds again");
                }
            }
        }
        std::mem::forget(fw);
        kani::cover!(true);
    }
    /// one chunk, from every state of the writer: the next chunk starts right after this one and its first record's number is that of this chunk plus its records
    #[kani::proof]
    #[kani::unwind(11)]
    #[kani::stub(std::time::Instant::now, crate::verif_c::now)]
    #[kani::stub(std::time::Instant::elapsed, crate::verif_c::elapsed)]
    #[kani::stub(read_less_or_equal, some_records)]
    fn chunk_step() {
        step(1, false);
    }
    /// no records left
    #[kani::proof]
    #[kani::unwind(11)]
    #[kani::stub(std::time::Instant::now, crate::verif_c::now)]
    #[kani::stub(std::time::Instant::elapsed, crate::verif_c::elapsed)]
    #[kani::stub(read_less_or_equal, some_records)]
    fn chunk_none() {
        step(0, false);
    }
    /// the bytes of the chunk are the codec's buffers in order (bounded: buffers of up to two bytes)
    #[kani::proof]
    #[kani::unwind(11)]
    #[kani::stub(std::time::Instant::now, crate::verif_c::now)]
    #[kani::stub(std::time::Instant::elapsed, crate::verif_c::elapsed)]
    #[kani::stub(read_less_or_equal, some_records)]
    fn chunk_bytes() {
        step(2, true);
    }
    #[kani::proof]
    #[kani::stub(std::time::Instant::now, crate::verif_c::now)]
    fn new_writer() {
        let fw = FileWriter::new(No, CompressorConfig::rle().build().into(), ChunkOption::Full);
        assert!(fw.chunk_footers.len() == 1 && !fw.reaches_eof);
        let (p, l) = (fw.chunk_footers[0].physical_offset, fw.chunk_footers[0].logical_offset);
        assert!(p == 30 && l == 0 && fw.total_bytes_out == 0);
        kani::cover!(true);
    }

    /// hands out bytes in a few arbitrary pieces, interrupted at most once
    struct Src<'a> {
        data: &'a [u8; 16],
        pos: usize,
        end: usize,
        calls: u8,
        cuts: u8,
        stops: u8,
    }
    impl Read for Src<'_> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if self.stops > 0 && kani::any() {
                self.stops -= 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            let most = b.len().min(self.end - self.pos);
            let mut n: usize = kani::any();
            kani::assume(n <= most && (n > 0 || most == 0));
            if self.calls >= self.cuts {
                n = most;
            }
            self.calls += 1;
            b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
        fn read_to_end(&mut self, b: &mut Vec<u8>) -> io::Result<usize> {
            let n = self.end - self.pos;
            let mut i = 0;
            while i < n {
                b.push(self.data[self.pos + i]);
                i += 1;
            }
            self.pos = self.end;
            Ok(n)
        }
    }
    fn word(d: &[u8; 16], k: usize) -> u64 {
        u64::from_le_bytes(if k == 0 { [d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]] } else { [d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15]] })
    }
    fn pieces(n: usize, cuts: u8, stops: u8) {
        let data: [u8; 16] = kani::any();
        let avail: usize = kani::any();
        kani::assume(avail <= 16);
        let mut s = Src { data: &data, pos: 0, end: avail, calls: 0, cuts, stops };
        match read_less_or_equal(&mut s, n) {
            Ok(v) => {
                let m = n.min(avail);
                assert!(s.pos == m, "all that is there is read, and no more than asked for");
                assert!(v.len() == m / 8);
                if v.len() > 0 {
                    assert!(v[0].to_bits() == word(&data, 0));
                }
                if v.len() > 1 {
                    assert!(v[1].to_bits() == word(&data, 1));
                }
                std::mem::forget(v);
            }
            Err(_) => assert!(false, "an interruption is no error"),
        }
        kani::cover!(true);
    }
    /// bounded: up to 16 bytes, in up to three pieces
    #[kani::proof]
    #[kani::unwind(6)]
    fn records_in_pieces() {
        pieces(16, 2, 0);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn records_less_than_there_is() {
        pieces(8, 2, 0);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn records_interrupted() {
        pieces(8, 0, 1);
    }
    /// bounded: everything in one chunk, up to 16 bytes of input
    #[kani::proof]
    #[kani::unwind(18)]
    #[kani::stub(std::time::Instant::now, crate::verif_c::now)]
    #[kani::stub(std::time::Instant::elapsed, crate::verif_c::elapsed)]
    fn full_chunk() {
        let data: [u8; 16] = kani::any();
        full(&data, 16);
        full(&data, 13);
    }
    fn full(data: &[u8; 16], end: usize) {
        unsafe {
            LENS = [1, 0, 0, 0, 0];
            IN = 16;
        }
        let src = Src { data, pos: 0, end, calls: 0, cuts: 0, stops: 0 };
        let mut fw = FileWriter::new(src, CompressorConfig::rle().build().into(), ChunkOption::Full);
        let mut w = Spot { pos: 0, on: false, got: [0; 10] };
        if let Some(mut cw) = fw.chunk_writer() {
            assert!(cw.write(&mut w).is_ok());
            std::mem::forget(cw);
        } else {
            assert!(false);
        }
        unsafe {
            assert!(NGOT == end / 8 && GOT[0] == word(data, 0) && (end < 16 || GOT[1] == word(data, 1)));
        }
        std::mem::forget(fw);
        kani::cover!(true);
    }

    /// a file in memory
    struct Disk {
        buf: [u8; 400],
        pos: usize,
        len: usize,
    }
    impl Write for Disk {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.write_all(b)?;
            Ok(b.len())
        }
        fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
            self.buf[self.pos..self.pos + b.len()].copy_from_slice(b);
            self.pos += b.len();
            if self.pos > self.len {
                self.len = self.pos;
            }
            Ok(())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    impl Seek for Disk {
        fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
            Ok(self.pos as u64)
        }
    }
    fn u64_at(b: &[u8; 400], k: usize) -> u64 {
        u64::from_le_bytes([b[k], b[k + 1], b[k + 2], b[k + 3], b[k + 4], b[k + 5], b[k + 6], b[k + 7]])
    }
    fn footer(n: usize) {
        let mut fw = writer(ChunkOption::Full);
        let mut f = [(0u64, 0u64); 3];
        fw.chunk_footers = Vec::with_capacity(4);
        let mut k = 0;
        while k <= n {
            f[k] = (kani::any(), kani::any());
            fw.chunk_footers.push(ChunkFooter { physical_offset: f[k].0, logical_offset: f[k].1 });
            k += 1;
        }
        let mut d = Disk { buf: [0; 400], pos: 0, len: 0 };
        assert!(fw.write_footer(&mut d, SegmentedExecutionTimes::new()).is_ok());
        assert!(u64_at(&d.buf, 8) == n as u64, "number of chunks");
        assert!(u64_at(&d.buf, 0) == f[n].1, "number of records");
        k = 0;
        while k < n {
            assert!(u64_at(&d.buf, 16 + 16 * k) == f[k].0 && u64_at(&d.buf, 24 + 16 * k) == f[k].1, "directory");
            k += 1;
        }
        let conf = 1 + d.buf[16 + 16 * n] as usize;
        assert!(conf == fw.compressor.serialized_size());
        let offset = fw.elapsed_time_slot_offset() - 30 - fw.total_bytes_out;
        assert!(offset == 16 + 16 * n + conf, "where the elapsed time goes");
        assert!(d.len == offset + 16 + 144 + 4, "size of the footer");
        let mut o = Disk { buf: [0; 400], pos: 0, len: 0 };
        assert!(fw.write_footer_offset(&mut o).is_ok());
        assert!(o.len == 8 && u64_at(&o.buf, 0) == 30 + fw.total_bytes_out as u64);
        assert!(fw.footer_offset_slot_offset() == 16);
        std::mem::forget(fw);
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(10)]
    #[kani::stub(std::time::Instant::now, crate::verif_c::now)]
    #[kani::stub(std::time::Instant::elapsed, crate::verif_c::elapsed)]
    fn footer_none() {
        footer(0);
    }
    #[kani::proof]
    #[kani::unwind(10)]
    #[kani::stub(std::time::Instant::now, crate::verif_c::now)]
    #[kani::stub(std::time::Instant::elapsed, crate::verif_c::elapsed)]
    fn footer_two() {
        footer(2);
    }
    /// bounded: one chunk.  The offset of the footer becomes non-zero only when the file is complete.
    #[kani::proof]
    #[kani::unwind(11)]
    #[kani::stub(std::time::Instant::now, crate::verif_c::now)]
    #[kani::stub(std::time::Instant::elapsed, crate::verif_c::elapsed)]
    #[kani::stub(read_less_or_equal, one_then_none)]
    fn footer_offset_last() {
        unsafe {
            LENS = [3, 0, 2, 0, 1];
            IN = 8;
            NHAVE = 1;
            HAVE = kani::any();
        }
        let d = Head { pos: 0, len: 0, at: None };
        let mut e = crate::api::encoder::Encoder::new(
            crate::api::encoder::EncoderInput::from_reader(No),
            crate::api::encoder::EncoderOutput::from_writer(d),
            ChunkOption::RecordCount(1),
            CompressorConfig::rle().build(),
        );
        assert!(e.encode().is_ok());
        let d = e.into_output().into_inner();
        assert!(d.at == Some((36, d.len)), "the footer follows the chunks, and its offset is written when everything else is there");
        kani::cover!(true);
    }
    /// a file of which only the length and the first non-zero footer offset are kept
    struct Head {
        pos: usize,
        len: usize,
        at: Option<(u64, usize)>,
    }
    impl Write for Head {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.write_all(b)?;
            Ok(b.len())
        }
        fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
            if self.pos <= 16 && self.pos + b.len() >= 24 {
                let k = 16 - self.pos;
                let v = u64::from_le_bytes([b[k], b[k + 1], b[k + 2], b[k + 3], b[k + 4], b[k + 5], b[k + 6], b[k + 7]]);
                if v != 0 && self.at.is_none() {
                    self.at = Some((v, self.len));
                }
            } else {
                assert!(self.pos >= 24 || self.pos + b.len() <= 16, "the offset is written in one piece");
            }
            self.pos += b.len();
            if self.pos > self.len {
                self.len = self.pos;
            }
            Ok(())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    impl Seek for Head {
        fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
            match to {
                SeekFrom::Start(p) => self.pos = p as usize,
                SeekFrom::Current(d) => self.pos = (self.pos as i64 + d) as usize,
                SeekFrom::End(d) => self.pos = (self.len as i64 + d) as usize,
            }
            Ok(self.pos as u64)
        }
    }
    fn one_then_none<R: Read>(_f: R, _n: usize) -> Result<Vec<f64>> {
        unsafe {
            let mut v = Vec::with_capacity(1);
            if NHAVE > 0 {
                NHAVE -= 1;
                v.push(f64::from_bits(HAVE[0]));
            }
            Ok(v)
        }
    }
}
