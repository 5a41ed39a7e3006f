//@include lib/bitbuf.rs
//@subst compressor/chimp_n.rs :: io::bit_write::{BitWrite as _, BufferedBitWriter} => io::bit_write::BitWrite as _, verif_k::BitBuf as BufferedBitWriter
//@subst compressor/chimp_n.rs :: indices: Box<[usize]> => indices: crate::verif_tab::Tab<usize, 2>
//@subst compressor/chimp_n.rs :: vec![0usize; 1 << (Self::THRESHOLD + 1)].into_boxed_slice() => crate::verif_tab::Tab::zeros(1 << (Self::THRESHOLD + 1))
//@subst compressor/chimp_n.rs :: stored_values: Box<[u64]> => stored_values: crate::verif_tab::Tab<u64, 4>
//@subst compressor/chimp_n.rs :: vec![0; N_PREVIOUS_VALUES].into_boxed_slice() => crate::verif_tab::Tab::zeros(N_PREVIOUS_VALUES)
//@subst decoder/chunk_reader/chimp_n.rs :: stored_values: Box<[u64]> => stored_values: crate::verif_tab::Tab<u64, 4>
//@subst decoder/chunk_reader/chimp_n.rs :: vec![0; N_PREVIOUS_VALUES].into_boxed_slice() => crate::verif_tab::Tab::zeros(N_PREVIOUS_VALUES)
//@new verif_tab
// Stand-in for a boxed slice: a total map given by S named slots and one value for all others.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct Tab<T, const S: usize> {
    pub len: usize,
    pub k: [usize; S],
    pub v: [T; S],
    pub rest: T,
}
impl<T: Copy + Default, const S: usize> Tab<T, S> {
    pub fn zeros(len: usize) -> Self {
        Tab { len, k: [0; S], v: [T::default(); S], rest: T::default() }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn fill(&mut self, v: T) {
        self.v = [v; S];
        self.rest = v;
    }
}
impl<T, const S: usize> std::ops::Index<usize> for Tab<T, S> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        assert!(i < self.len, "index out of bounds");
        let mut j = 0;
        while j < S {
            if i == self.k[j] {
                return &self.v[j];
            }
            j += 1;
        }
        &self.rest
    }
}
impl<T, const S: usize> std::ops::IndexMut<usize> for Tab<T, S> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        assert!(i < self.len, "index out of bounds");
        let mut j = 0;
        while j < S {
            if i == self.k[j] {
                return &mut self.v[j];
            }
            j += 1;
        }
        panic!("a slot that is not named is written")
    }
}
//@append compressor/chimp_n.rs
#[cfg(kani)]
pub mod vk {
    use super::*;
    pub const KEYS: usize = 1 << 14;
    pub struct Parts<'a> {
        pub w: &'a mut BufferedBitWriter,
        pub lead: u32,
        pub values: &'a crate::verif_tab::Tab<u64, 4>,
        pub first: bool,
        pub size: u32,
        pub indices: &'a crate::verif_tab::Tab<usize, 2>,
        pub index: usize,
        pub current: usize,
    }
    pub fn make(values: crate::verif_tab::Tab<u64, 4>, indices: crate::verif_tab::Tab<usize, 2>, index: usize, current: usize) -> ChimpNEncoder<128> {
        ChimpNEncoder { w: BufferedBitWriter::new(), stored_leading_zeros: kani::any(), stored_values: values, first: false, size: kani::any(), indices, index, current }
    }
    pub fn name(e: &mut ChimpNEncoder<128>, v: [usize; 4], k: [usize; 2]) {
        e.stored_values.k = v;
        e.indices.k = k;
    }
    pub fn parts(e: &mut ChimpNEncoder<128>) -> Parts<'_> {
        Parts { lead: e.stored_leading_zeros, first: e.first, size: e.size, index: e.index, current: e.current, values: &e.stored_values, indices: &e.indices, w: &mut e.w }
    }
}
//@append decoder/chunk_reader/chimp_n.rs
#[cfg(kani)]
mod vk {
    use super::*;
    use crate::compressor::chimp_n::{vk as e, ChimpNEncoder};
    use crate::verif_k::BitBuf;
    use crate::verif_tab::Tab;
    const NAN: u64 = 0x7ff8000000000000;
    type Enc = ChimpNEncoder<128>;
    type Dec = ChimpNDecoder<128, BitBuf>;
    // the invariant, for one slot j of the ring and one slot k of the index table (both arbitrary)
    fn sync(enc: &mut Enc, dec: &Dec, j: usize, k: usize) -> bool {
        let p = e::parts(enc);
        !p.first && !dec.first && !dec.end_of_stream && p.size < (1 << 30) && p.index < (1 << 60)
            && p.current < 128 && p.current == dec.current && p.index % 128 == p.current
            && p.values.len() == 128 && dec.stored_values.len() == 128 && p.indices.len() == e::KEYS
            && p.values[j] == dec.stored_values[j] && p.values[j] != NAN && p.indices[k] <= p.index
            && dec.stored_val == dec.stored_values[dec.current] && dec.stored_val != NAN
            && (p.lead > 24 || p.lead == dec.stored_leading_zeros)
    }
    // the slots of the ring the step may touch are named: the one the table points to, the current one, the next one, and j
    fn setup(a: usize, b: usize, j: usize) -> (Enc, Dec) {
        let idx = Tab { len: e::KEYS, k: [a, b], v: kani::any(), rest: kani::any() };
        let index: usize = kani::any();
        let v = Tab { len: 128, k: [idx[a] % 128, index % 128, index.wrapping_add(1) % 128, j], v: kani::any(), rest: kani::any() };
        let enc = e::make(v, idx, index, kani::any());
        let dec = ChimpNDecoder { bit_reader: BitBuf::new(), stored_leading_zeros: kani::any(), stored_trailing_zeros: kani::any(), stored_val: kani::any(),
            stored_values: v, current: kani::any(), first: false, end_of_stream: false };
        (enc, dec)
    }
    fn feed(enc: &mut Enc, dec: &mut Dec, x: u64) {
        let s0 = enc.size();
        let sim = enc.simulate_add_value(f64::from_bits(x));
        enc.add_value(f64::from_bits(x));
        let w = e::parts(enc).w;
        let n = w.n;
        dec.bit_reader = *w;
        assert!(enc.size() == s0 + n && sim == enc.size());
        match dec.read_value() {
            Ok(Some(y)) => assert!(y.to_bits() == x),
            _ => assert!(false),
        }
        assert!(dec.bit_reader.pos == n);
    }
    fn finish(enc: &mut Enc, dec: &mut Dec) {
        let s0 = enc.size();
        let sim = enc.simulate_add_value(f64::NAN) + 1;
        enc.close();
        dec.bit_reader = *e::parts(enc).w;
        assert!(sim == s0 + dec.bit_reader.n);
        assert!(matches!(dec.read_value(), Ok(None)));
        assert!(dec.bit_reader.pos <= dec.bit_reader.n);
        assert!(matches!(dec.read_value(), Ok(None)));
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn chimp128_first() {
        let x: u64 = kani::any();
        kani::assume(x != NAN);
        let (j, k): (usize, usize) = (kani::any(), kani::any());
        kani::assume(j < 128 && k < e::KEYS);
        let (mut enc, mut dec) = (Enc::new(), Dec::new(BitBuf::new()));
        e::name(&mut enc, [0, 1, 2, j], [(x as usize) % e::KEYS, k]);
        dec.stored_values.k = [0, 1, 2, j];
        feed(&mut enc, &mut dec, x);
        assert!(sync(&mut enc, &dec, j, k));
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn chimp128_step() {
        let x: u64 = kani::any();
        kani::assume(x != NAN);
        let (j, k): (usize, usize) = (kani::any(), kani::any());
        kani::assume(j < 128 && k < e::KEYS);
        let (mut enc, mut dec) = setup((x as usize) % e::KEYS, k, j);
        kani::assume(sync(&mut enc, &dec, j, k));
        kani::assume(e::parts(&mut enc).indices[(x as usize) % e::KEYS] <= e::parts(&mut enc).index);
        feed(&mut enc, &mut dec, x);
        kani::assume(enc.size() < (1 << 30) && e::parts(&mut enc).index < (1 << 60));
        assert!(sync(&mut enc, &dec, j, k));
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn chimp128_close() {
        let key = (NAN as usize) % e::KEYS;
        let (mut enc, mut dec) = setup(key, 0, 0);
        let a = e::parts(&mut enc).indices[key] % 128;
        kani::assume(sync(&mut enc, &dec, a, key));
        finish(&mut enc, &mut dec);
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn chimp128_close_empty() {
        let (mut enc, mut dec) = (Enc::new(), Dec::new(BitBuf::new()));
        e::name(&mut enc, [0, 1, 2, 3], [(NAN as usize) % e::KEYS, 0]);
        finish(&mut enc, &mut dec);
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn chimp128_reset() {
        let (mut enc, _) = setup(0, 1, 0);
        enc.reset();
        let f = Enc::new();
        let (k, j): (usize, usize) = (kani::any(), kani::any());
        kani::assume(j < 128 && k < e::KEYS);
        let p = e::parts(&mut enc);
        assert!(p.first && p.size == 0 && p.index == 0 && p.current == 0 && p.lead > 24 && p.w.n == 0);
        assert!(p.values[j] == 0 && p.indices[k] == 0);
        kani::cover!(true);
    }
}
