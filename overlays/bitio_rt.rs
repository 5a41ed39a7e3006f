//@include lib/prelude.rs
//@include lib/bits.rs
//@include lib/ext.rs
//@include lib/bitwrite_trait.rs
//@include lib/bitread.rs
pub mod rt {
use super::*;
use super::bits::*;
use super::tr::*;
use super::rd::*;
use super::ext::*;
broadcast use super::bits::bit_lemmas;

/// The n bits read back at position p are the n bits that were written there.
pub proof fn word_read_back(s: Seq<bool>, b: Seq<u8>, p: int, n: int, v: u64, r: u64)
    requires is_padded(s, b), 0 <= p, 0 <= n <= 64, p + n <= s.len(),
        forall|i: int| 0 <= i < n ==> #[trigger] s[p + i] == b64(v, n - 1 - i),
        is_bits_value(b, p, n, r),
    ensures r == low(v, n)
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] b64(r, i) == b64(low(v, n), i) by {
        low_bits(v, n, i);
        if i < n { assert(bit_at(b, p + n - 1 - i) == s[p + (n - 1 - i)]); }
    }
    u64_ext(r, low(v, n));
}
pub open spec fn width_sum(items: Seq<(u64, u32)>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { width_sum(items, k - 1) + items[k - 1].1 }
}
proof fn width_sum_mono(items: Seq<(u64, u32)>, a: int, b: int)
    requires 0 <= a <= b
    ensures 0 <= width_sum(items, a) <= width_sum(items, b)
    decreases b
{ if a < b { width_sum_mono(items, a, b - 1); } else if b > 0 { width_sum_mono(items, a - 1, b - 1); } }

/// item k of the list sits in s at its place
pub open spec fn placed(items: Seq<(u64, u32)>, s: Seq<bool>, k: int) -> bool {
    forall|j: int, i: int| 0 <= j < k && 0 <= i < items[j].1 ==> s[width_sum(items, j) + i] == #[trigger] b64(items[j].0, items[j].1 - 1 - i)
}

/// A client: any sequence of words of any widths, written and then read back with the real writer and reader (through
/// their contracts), yields exactly the words.
pub fn write_all<W: BitWrite>(w: &mut W, items: &Vec<(u64, u32)>)
    requires old(w).inv(), old(w).bits().len() == 0, forall|j: int| 0 <= j < items@.len() ==> (#[trigger] items@[j]).1 <= 64,
    ensures final(w).inv(), final(w).bits().len() == width_sum(items@, items@.len() as int), placed(items@, final(w).bits(), items@.len() as int)
{
    let mut k: usize = 0;
    while k < items.len()
        invariant w.inv(), k <= items@.len(), w.bits().len() == width_sum(items@, k as int), placed(items@, w.bits(), k as int),
            forall|j: int| 0 <= j < items@.len() ==> (#[trigger] items@[j]).1 <= 64,
        decreases items@.len() - k
    {
        let ghost before = w.bits();
        let (v, n) = items[k];
        w.write_bits(v, n);
        proof {
            assert forall|j: int, i: int| 0 <= j < k + 1 && 0 <= i < items@[j].1 implies w.bits()[width_sum(items@, j) + i] == #[trigger] b64(items@[j].0, items@[j].1 - 1 - i) by {
                width_sum_mono(items@, 0, j);
                if j < k { width_sum_mono(items@, j + 1, k as int); assert(width_sum(items@, j) + i < before.len()); }
            }
        }
        k += 1;
    }
}
pub fn read_all<R: BitRead2>(r: &mut R, items: &Vec<(u64, u32)>, Ghost(s): Ghost<Seq<bool>>)
    requires old(r).rinv(), old(r).pos() == 0, is_padded(s, old(r).data()), s.len() == width_sum(items@, items@.len() as int),
        placed(items@, s, items@.len() as int), forall|j: int| 0 <= j < items@.len() ==> (#[trigger] items@[j]).1 <= 64,
{
    let mut k: usize = 0;
    while k < items.len()
        invariant r.rinv(), r.data() == old(r).data(), k <= items@.len(), r.pos() == width_sum(items@, k as int), placed(items@, s, items@.len() as int),
            is_padded(s, r.data()), s.len() == width_sum(items@, items@.len() as int),
            forall|j: int| 0 <= j < items@.len() ==> (#[trigger] items@[j]).1 <= 64,
        decreases items@.len() - k
    {
        let (v, n) = items[k];
        proof {
            width_sum_mono(items@, 0, k as int);
            width_sum_mono(items@, k as int + 1, items@.len() as int);
            assert(width_sum(items@, k + 1) == width_sum(items@, k as int) + n);
            let p = r.pos();
            assert forall|i: int| 0 <= i < n implies #[trigger] s[p + i] == b64(v, n - 1 - i) by {
                assert(s[width_sum(items@, k as int) + i] == b64(items@[k as int].0, items@[k as int].1 - 1 - i));
            }
        }
        let ghost p = r.pos();
        let x = r.read_bits(n as u8);
        assert(x is Some);
        proof { word_read_back(s, r.data(), p, n as int, v, x->Some_0); }
        assert(x == Some(low(v, n as int)));
        k += 1;
    }
}
} // mod rt
} // verus!
fn main() {}
