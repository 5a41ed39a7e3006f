//@new verif_k
// Stand-ins for the bit writer and reader: exactly the contracts proved of BufferedBitWriter and BufferedBitReader
// (P01, P03): a write appends the low bits, most significant first; a read takes the next bits or nothing.
use crate::io::bit_read::BitRead2;
use crate::io::bit_write::BitWrite;
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct BitBuf {
    pub acc: u128,
    pub n: u32,
    pub pos: u32,
}
impl BitBuf {
    pub fn new() -> Self {
        BitBuf { acc: 0, n: 0, pos: 0 }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
}
fn low(bits: u64, num: u32) -> u128 {
    if num == 0 {
        0
    } else {
        ((bits << (64 - num)) >> (64 - num)) as u128
    }
}
impl BitWrite for BitBuf {
    fn write_bit(&mut self, bit: bool) {
        assert!(self.n < 128);
        self.acc = (self.acc << 1) | (bit as u128);
        self.n += 1;
    }
    fn write_byte(&mut self, byte: u8) {
        self.write_bits(byte as u64, 8)
    }
    fn write_bits(&mut self, bits: u64, num: u32) {
        assert!(num <= 64, "precondition of write_bits: at most 64 bits");
        assert!(self.n + num <= 128);
        self.acc = (self.acc << num) | low(bits, num);
        self.n += num;
    }
    fn set_cursor_at_in_bit(&mut self, _bit_cursor: usize) {
        unreachable!()
    }
    fn number_of_bits_written(&self) -> usize {
        self.n as usize
    }
    fn as_slice(&self) -> &[u8] {
        unreachable!()
    }
    fn reset(&mut self) {
        *self = BitBuf::new();
    }
}
impl BitRead2 for BitBuf {
    fn read_bit(&mut self) -> Option<bool> {
        self.read_bits(1).map(|b| b == 1)
    }
    fn read_byte(&mut self) -> Option<u8> {
        self.read_bits(8).map(|b| b as u8)
    }
    fn read_bits(&mut self, n: u8) -> Option<u64> {
        assert!(n <= 64, "precondition of read_bits: at most 64 bits");
        let n = n as u32;
        if self.n - self.pos < n {
            return None;
        }
        let r = low((self.acc >> (self.n - self.pos - n)) as u64, n) as u64;
        self.pos += n;
        Some(r)
    }
    fn peak_bits(&mut self, n: u8) -> Option<u64> {
        let p = self.pos;
        let r = self.read_bits(n);
        self.pos = p;
        r
    }
}
