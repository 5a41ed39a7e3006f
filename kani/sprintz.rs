//@include lib/bitbuf.rs
//@include lib/clock.rs
//@append compressor/sprintz.rs
#[cfg(kani)]
pub mod vk {
    pub use super::delta_impl::{delta_sprintz_compress_impl, zigzag_delta_num_bits};
}
//@append decoder/chunk_reader/sprintz.rs
#[cfg(kani)]
mod vk {
    use super::*;
    use crate::compressor::sprintz::{vk as e, zigzag};
    use crate::io::bit_write::BitWrite;
    use crate::verif_k::BitBuf;
    /// bits needed for a word
    fn width(z: u64) -> u32 {
        64 - z.leading_zeros()
    }
    #[kani::proof]
    fn zigzag_inverse() {
        let d: i64 = kani::any();
        let z = zigzag(d);
        assert!(unzigzag(z) == d);
        assert!(if d >= 0 { z as i128 == 2 * (d as i128) } else { z as i128 == -2 * (d as i128) - 1 });
        let u: u64 = kani::any();
        assert!(zigzag(unzigzag(u)) == u);
        kani::cover!(true);
    }
    // one record: any state of the iterator, any next value, any width that holds its difference
    #[kani::proof]
    fn record_step() {
        let (p, q): (i64, i64) = kani::any();
        kani::assume(p.checked_sub(q).is_some() && q.checked_sub(p).is_some());
        let w: u8 = kani::any();
        let z = zigzag(q - p);
        kani::assume(w <= 64 && width(z) <= w as u32);
        let mut b = BitBuf::new();
        b.write_bits(z, w as u32);
        b.write_bits(kani::any(), 3);
        let (n, i): (u64, u64) = kani::any();
        kani::assume(i < n);
        let scale: u32 = kani::any();
        kani::assume(scale == 1);
        let mut it = DeltaSprintzDecompressIteratorImpl { bit_reader: b, previous_value_quantized: p, scale, number_of_bits_needed: w, number_of_records: n, record_index: i };
        match it.next() {
            Some(Ok(v)) => assert!(v == q as f64),
            _ => assert!(false),
        }
        assert!(it.previous_value_quantized == q && it.record_index == i + 1 && it.number_of_records == n);
        assert!(it.number_of_bits_needed == w && it.scale == scale && it.bit_reader.pos == w as u32);
        if i + 1 == n {
            assert!(it.next().is_none());
        }
        kani::cover!(i + 1 == n);
    }
    // a stream that ends early is an error, not a value
    #[kani::proof]
    fn record_missing() {
        let w: u8 = kani::any();
        kani::assume(1 <= w && w <= 64);
        let mut b = BitBuf::new();
        b.write_bits(kani::any(), w as u32 - 1);
        let (n, i): (u64, u64) = kani::any();
        kani::assume(i < n);
        let mut it = DeltaSprintzDecompressIteratorImpl { bit_reader: b, previous_value_quantized: kani::any(), scale: 1, number_of_bits_needed: w, number_of_records: n, record_index: i };
        assert!(matches!(it.next(), Some(Err(_))));
        kani::cover!(true);
    }
    #[kani::proof]
    fn header_read() {
        let (q, s, w, n): (i64, u32, u8, u64) = kani::any();
        let mut b = BitBuf::new();
        b.write_bits(q as u64, 64);
        b.write_bits(s as u64, 32);
        b.write_byte(w);
        match DeltaSprintzDecompressIteratorImpl::new(b, n) {
            Ok(it) => {
                assert!(it.previous_value_quantized == q && it.scale == s && it.number_of_bits_needed == w && it.number_of_records == n && it.record_index == 0);
                assert!(it.bit_reader.pos == 104);
            }
            Err(_) => assert!(false),
        }
        kani::cover!(true);
    }
    // the differences and the width: any values (one to three of them)
    #[kani::proof]
    #[kani::unwind(5)]
    fn differences() {
        let q: [i64; 3] = kani::any();
        let n: usize = kani::any();
        kani::assume(1 <= n && n <= 3);
        kani::assume(q[0].checked_sub(q[1]).is_some() && q[1].checked_sub(q[0]).is_some() && q[1].checked_sub(q[2]).is_some() && q[2].checked_sub(q[1]).is_some());
        let mut out = Vec::new();
        let (first, w) = e::zigzag_delta_num_bits(q[..n].iter().copied(), &mut out);
        assert!(first == q[0] && out.len() == n && w <= 64);
        let mut p = q[0];
        let mut most = 0;
        let mut i = 0;
        while i < n {
            assert!(out[i] == zigzag(q[i] - p));
            p = q[i];
            let k = width(out[i]);
            most = if k > most { k } else { most };
            i += 1;
        }
        assert!(w as u32 == most);
        kani::cover!(n == 3);
    }
    #[kani::proof]
    #[kani::unwind(3)]
    fn no_values() {
        let mut out = Vec::new();
        let q: [i64; 0] = [];
        assert!(e::zigzag_delta_num_bits(q.iter().copied(), &mut out) == (0, 0));
        assert!(out.is_empty());
        kani::cover!(true);
    }
    // the whole stream of one or two records of integers
    #[kani::proof]
    #[kani::unwind(4)]
    #[kani::stub(std::time::Instant::now, crate::verif_c::now)]
    #[kani::stub(std::time::Instant::elapsed, crate::verif_c::elapsed)]
    fn stream() {
        let q: [i8; 2] = kani::any();
        let n: usize = kani::any();
        kani::assume(1 <= n && n <= 2);
        let v = [q[0] as f64, q[1] as f64];
        let mut b = BitBuf::new();
        let mut tmp = Vec::new();
        e::delta_sprintz_compress_impl(&v[..n], 1, &mut tmp, &mut b);
        let all = b.n;
        match DeltaSprintzDecompressIteratorImpl::new(b, n as u64) {
            Ok(mut it) => {
                assert!(matches!(it.next(), Some(Ok(x)) if x == v[0]));
                if n == 2 {
                    assert!(matches!(it.next(), Some(Ok(x)) if x == v[1]));
                }
                assert!(it.next().is_none());
                assert!(it.bit_reader.pos == all);
            }
            Err(_) => assert!(false),
        }
        kani::cover!(n == 2);
    }
}
