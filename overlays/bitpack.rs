//@include lib/prelude.rs
//@include lib/lbits.rs
//@include lib/bp.rs
pub mod prt {
use super::*;
use super::lb::*;
use super::bp::*;
broadcast use super::lb::lbit_lemmas;
/// nothing is set at or after bit p
pub open spec fn clean(d: Seq<u8>, p: int) -> bool { forall|j: int, k: int| 0 <= j < d.len() && 0 <= k < 8 && 8 * j + k >= p ==> !#[trigger] l8(d[j], k) }
pub open spec fn is_low(v: u32, n: int, r: u32) -> bool { forall|i: int| 0 <= i < 32 ==> #[trigger] l32(r, i) == (i < n && l32(v, i)) }
pub open spec fn wsum(items: Seq<(u32, usize)>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { wsum(items, k - 1) + items[k - 1].1 }
}
proof fn wsum_mono(items: Seq<(u32, usize)>, a: int, b: int)
    requires 0 <= a <= b
    ensures 0 <= wsum(items, a) <= wsum(items, b)
    decreases b
{ if a < b { wsum_mono(items, a, b - 1); } else if b > 0 { wsum_mono(items, a - 1, b - 1); } }
pub open spec fn placed(items: Seq<(u32, usize)>, base: int, d: Seq<u8>, k: int) -> bool {
    forall|q: int, i: int| 0 <= q < k && 0 <= i < items[q].1 ==> lbit(d, base + wsum(items, q) + i) == #[trigger] l32(items[q].0, i)
}
pub open spec fn widths_ok(items: Seq<(u32, usize)>) -> bool {
    &&& forall|j: int| 0 <= j < items.len() ==> 0 < (#[trigger] items[j]).1 <= 32
    &&& wsum(items, items.len() as int) < lim()
}
/// A client: pack any list of values of widths 1..=32 ...
pub fn pack_all(w: &mut BitPack<Vec<u8>>, items: &Vec<(u32, usize)>)
    requires old(w).vok(), widths_ok(items@), clean(old(w).vd(), old(w).p()), 0 <= old(w).p() < lim(),
    ensures final(w).vok(), final(w).p() == old(w).p() + wsum(items@, items@.len() as int),
        8 * final(w).vd().len() >= final(w).p() || items@.len() == 0,
        placed(items@, old(w).p(), final(w).vd(), items@.len() as int)
{
    let mut k: usize = 0;
    let ghost base = w.p();
    while k < items.len()
        invariant w.vok(), k <= items@.len(), base == old(w).p(), 0 <= base < lim(), w.p() == base + wsum(items@, k as int), placed(items@, base, w.vd(), k as int), widths_ok(items@),
            clean(w.vd(), w.p()), k > 0 ==> 8 * w.vd().len() >= w.p(),
        decreases items@.len() - k
    {
        let ghost before = w.vd();
        let ghost p = w.p();
        let (v, n) = items[k];
        proof { wsum_mono(items@, k as int + 1, items@.len() as int); wsum_mono(items@, 0, k as int); assert(wsum(items@, k + 1) == wsum(items@, k as int) + n); }
        let r = w.write(v, n);
        assert(r is Ok);
        proof {
            assert forall|q: int, i: int| 0 <= q < k + 1 && 0 <= i < items@[q].1 implies lbit(w.vd(), base + wsum(items@, q) + i) == #[trigger] l32(items@[q].0, i) by {
                wsum_mono(items@, 0, q);
                let x = base + wsum(items@, q) + i;
                if q < k { wsum_mono(items@, q + 1, k as int); assert(wsum(items@, q + 1) == wsum(items@, q) + items@[q].1); assert(x < p);
                    assert(lbit(before, x) == l32(items@[q].0, i)); }
                assert(8 * (x / 8) + x % 8 == x);
                assert(l8(w.vd()[x / 8], x % 8) == ((x / 8 < before.len() && l8(before[x / 8], x % 8)) || (p <= x < p + n && l32(v, x - p))));
            }
        }
        k += 1;
    }
}
/// ... and read them back: every value comes back cut to its width.
pub fn unpack_all(r: &mut BitPack<&[u8]>, items: &Vec<(u32, usize)>)
    requires old(r).rok(), widths_ok(items@), 0 <= old(r).p() < lim(), placed(items@, old(r).p(), old(r).rd(), items@.len() as int),
        old(r).p() + wsum(items@, items@.len() as int) <= 8 * old(r).rd().len(),
{
    let mut k: usize = 0;
    let ghost base = r.p();
    while k < items.len()
        invariant r.rok(), r.b() == old(r).b(), r.rd() == old(r).rd(), k <= items@.len(), base == old(r).p(), r.p() == base + wsum(items@, k as int), widths_ok(items@),
            placed(items@, base, r.rd(), items@.len() as int), base + wsum(items@, items@.len() as int) <= 8 * r.rd().len(),
        decreases items@.len() - k
    {
        let ghost p = r.p();
        let (v, n) = items[k];
        proof { wsum_mono(items@, k as int + 1, items@.len() as int); assert(wsum(items@, k + 1) == wsum(items@, k as int) + n); }
        let x = r.read(n);
        assert(x is Ok);
        assert(is_low(v, n as int, x->Ok_0)) by {
            assert forall|i: int| 0 <= i < 32 implies #[trigger] l32(x->Ok_0, i) == (i < n && l32(v, i)) by {
                if i < n { assert(lbit(r.rd(), base + wsum(items@, k as int) + i) == l32(items@[k as int].0, i)); }
            }
        }
        k += 1;
    }
}
} // mod prt
} // verus!
fn main() {}
