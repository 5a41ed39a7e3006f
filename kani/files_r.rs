//@subst decoder.rs :: buf.resize( => crate::verif_r::resize(&mut buf,
//@subst format/native.rs :: footer2.execution_elapsed_times_nano_secs.into() => SegmentedExecutionTimes::new()
//@new verif_r
// A file whose bytes are arbitrary, read by position.
use std::io::{self, Read, Seek, SeekFrom};
/// a vector of the new length (without the loop of Vec::resize; the bytes are overwritten by the read that follows)
pub fn resize(v: &mut Vec<u8>, n: usize, x: u8) {
    *v = vec![x; n];
}
pub struct Bytes<'a> {
    pub b: &'a [u8],
    pub pos: u64,
}
impl Read for Bytes<'_> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        let n: usize = kani::any();
        let left = (self.b.len() as u64).saturating_sub(self.pos) as usize;
        kani::assume(n <= o.len() && n <= left && (n > 0 || o.is_empty() || left == 0));
        o[..n].copy_from_slice(&self.b[self.pos as usize..self.pos as usize + n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn read_exact(&mut self, o: &mut [u8]) -> io::Result<()> {
        let left = (self.b.len() as u64).saturating_sub(self.pos);
        if (o.len() as u64) > left {
            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
        }
        let p = self.pos as usize;
        o.copy_from_slice(&self.b[p..p + o.len()]);
        self.pos += o.len() as u64;
        Ok(())
    }
}
impl Seek for Bytes<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        match to {
            SeekFrom::Start(p) => self.pos = p,
            _ => assert!(false, "positions are counted from the start of the file"),
        }
        Ok(self.pos)
    }
}
//@append decoder.rs
#[cfg(kani)]
mod verif_h {
    use super::*;
    use crate::verif_r::Bytes;

    fn u64_at(b: &[u8], k: usize) -> u64 {
        u64::from_le_bytes([b[k], b[k + 1], b[k + 2], b[k + 3], b[k + 4], b[k + 5], b[k + 6], b[k + 7]])
    }
    fn header() -> (NativeFileHeader, u64) {
        let footer_offset: u64 = kani::any();
        let h = FileHeader {
            magic_number: *b"EBI1",
            version: [0; 3],
            footer_offset,
            config: crate::format::FileConfig {
                field_type: crate::format::FieldType::F64,
                chunk_option: (&crate::encoder::ChunkOption::Full).into(),
                compression_scheme: crate::format::CompressionScheme::Snappy,
            },
        };
        (NativeFileHeader::from(&h), footer_offset)
    }
    /// any header a file can start with: either an error, or the stream stands at the footer the header names, and a
    /// header that was never completed (offset zero) is an error
    #[kani::proof]
    #[kani::unwind(32)]
    fn footer_found() {
        let b: [u8; 30] = kani::any();
        let mut f = Bytes { b: &b, pos: 0 };
        let mut r = FileReader::new();
        match r.seek_to_footer(&mut f) {
            Ok(()) => assert!(false, "the header is needed first"),
            Err(e) => std::mem::forget(e),
        }
        assert!(f.pos == 0);
        match r.fetch_header(&mut f) {
            Ok(h) => {
                assert!(h.footer_offset() == u64_at(&b, 16));
                assert!(f.pos == 30);
            }
            Err(e) => {
                std::mem::forget(e);
                assert!(r.header().is_none());
                return;
            }
        }
        let x = r.seek_to_footer(&mut f);
        if u64_at(&b, 16) < 30 {
            assert!(x.is_err(), "a file that was not finished is rejected");
        } else {
            assert!(x.is_ok() && f.pos == u64_at(&b, 16));
        }
        std::mem::forget(x);
        kani::cover!(u64_at(&b, 16) >= 30);
    }
    /// a file cut inside its header is rejected
    #[kani::proof]
    #[kani::unwind(32)]
    fn header_cut() {
        let b: [u8; 30] = kani::any();
        let n: usize = kani::any();
        kani::assume(n < 30);
        let mut f = Bytes { b: &b[..n], pos: 0 };
        let mut r = FileReader::new();
        match r.fetch_header(&mut f) {
            Ok(_) => assert!(false, "a cut header is rejected"),
            Err(e) => std::mem::forget(e),
        }
        assert!(r.header().is_none() && r.metadata().is_none());
        kani::cover!(true);
    }
    /// bounded: one chunk
    #[kani::proof]
    #[kani::unwind(11)]
    fn footer_cut() {
        let mut b = [0u8; 197];
        b[8..16].copy_from_slice(&1u64.to_le_bytes());
        let n: usize = kani::any();
        kani::assume(n < 197);
        let (h, _) = header();
        let mut r = FileReader { header: Some(h), footer: None };
        let mut f = Bytes { b: &b[..n], pos: 0 };
        match r.fetch_footer(&mut f) {
            Ok(_) => assert!(false, "a cut footer is rejected"),
            Err(e) => std::mem::forget(e),
        }
        assert!(r.metadata().is_none());
        std::mem::forget(r);
        kani::cover!(true);
    }
    /// what a chunk handle reports, for directories of three chunks (bounded) with any increasing offsets
    #[kani::proof]
    #[kani::unwind(11)]
    fn handle() {
        let (h, footer_offset) = header();
        let p: [u64; 3] = kani::any();
        let l: [u64; 3] = kani::any();
        let records: u64 = kani::any();
        kani::assume(p[0] <= p[1] && p[1] <= p[2] && p[2] <= footer_offset);
        kani::assume(l[0] <= l[1] && l[1] <= l[2] && l[2] <= records);
        let mut cs = Vec::with_capacity(3);
        let mut k = 0;
        while k < 3 {
            cs.push(ChunkFooter { physical_offset: p[k], logical_offset: l[k] });
            k += 1;
        }
        let f3 = FileFooter3 { compression_elapsed_time_nano_secs: 0, execution_elapsed_times_nano_secs: crate::time::SegmentedExecutionTimes::new().into(), crc: 0 };
        let footer = NativeFileFooter::new(&FileFooter0 { number_of_records: records, number_of_chunks: 3 }, &cs[..], CompressorConfig::rle().build().into(), &f3);
        let m = MetadataRef { header: &h, footer: &footer };
        let i: usize = kani::any();
        kani::assume(i < 3);
        let c = GeneralChunkHandle::new(m, i);
        let (pn, ln) = if i == 2 { (footer_offset, records) } else { (p[i + 1], l[i + 1]) };
        assert!(c.chunk_index() == i && c.is_last_chunk() == (i == 2));
        assert!(c.physical_offset() == p[i] && c.next_physical_offset() == pn && c.chunk_size() == pn - p[i]);
        assert!(c.logical_offset() == l[i] && c.next_logical_offset() == ln && c.number_of_records() == ln - l[i]);
        assert!(c.logical_record_range() == (l[i]..ln));
        assert!(records > u32::MAX as u64 || c.logical_record_range_u32() == (l[i] as u32..ln as u32));
        assert!(c.chunk_footer().physical_offset() == p[i]);
        let mut f = Bytes { b: &[], pos: 0 };
        assert!(c.seek_to_chunk(&mut f).is_ok() && f.pos == p[i]);
        assert!(c.seek_to_chunk_end(&mut f).is_ok() && f.pos == pn);
        let mut n = 0;
        let mut it = m.chunks_iter();
        while let Some(x) = it.next() {
            assert!(x.chunk_index() == n);
            n += 1;
        }
        assert!(n == 3);
        kani::cover!(true);
    }
}
