// Bitmaps as sets, their members in order, and folds over the selected records.
pub mod mk {
use super::*;
pub open spec fn increasing(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
/// every member numbers one of n records from off
pub open spec fn within(m: Set<u32>, off: int, n: int) -> bool { forall|u: u32| #[trigger] m.contains(u) ==> off <= u < off + n }
pub open spec fn mwithin(m: Option<Set<u32>>, off: int, n: int) -> bool { m is Some ==> within(m->0, off, n) }
/// b lists the selected of the n records from off, in order, counted from 0
pub open spec fn lists(b: Seq<u32>, m: Set<u32>, off: int, n: int) -> bool {
    &&& increasing(b) && b.len() <= n
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < n && m.contains((off + b[i]) as u32)
    &&& forall|k: int| 0 <= k < n && m.contains((off + k) as u32) ==> #[trigger] b.contains(k as u32)
}
// bitmap.iter(): the members in increasing order (assumed of the roaring crate)
#[verifier::external_body]
pub fn members(b: &RoaringBitmap) -> (r: Vec<u32>) ensures increasing(r@), forall|u: u32| b@.contains(u) <==> #[trigger] r@.contains(u), forall|u: u32| #[trigger] b@.contains(u) ==> r@.contains(u) { unimplemented!() }
impl RoaringBitmap {
    #[verifier::external_body]
    pub fn len(&self) -> (r: u64) ensures forall|off: int, n: int| #[trigger] within(self@, off, n) && 0 <= off && 0 <= n && off + n <= lim32() ==> r == cnt(Some(self@), off, n) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<u32>::empty() { unimplemented!() }
    // keeps only what is above everything already there
    #[verifier::external_body]
    pub fn push(&mut self, i: u32) -> (r: bool) ensures (forall|u: u32| old(self)@.contains(u) ==> u < i) ==> final(self)@ == old(self)@.insert(i) { unimplemented!() }
}
#[verifier::external_body]
pub fn bm_first(b: &RoaringBitmap) -> (r: Option<u32>) ensures r is None ==> forall|u: u32| !b@.contains(u), r is Some ==> b@.contains(r->0) { unimplemented!() }
#[verifier::external_body]
pub fn bm_clone(b: &Option<RoaringBitmap>) -> (r: Option<RoaringBitmap>) ensures r is Some == b is Some, b is Some ==> r->0@ == b->0@ { unimplemented!() }
#[verifier::external_body]
pub fn bm_union(a: &mut RoaringBitmap, b: RoaringBitmap) ensures joined(final(a)@, old(a)@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn bm_meet(a: &mut RoaringBitmap, b: &RoaringBitmap) ensures forall|i: u32| #[trigger] final(a)@.contains(i) <==> (old(a)@.contains(i) && b@.contains(i)) { unimplemented!() }
#[verifier::external_body]
pub fn bm_minus(a: RoaringBitmap, b: RoaringBitmap) -> (r: RoaringBitmap) ensures forall|i: u32| #[trigger] r@.contains(i) <==> (a@.contains(i) && !b@.contains(i)) { unimplemented!() }
pub open spec fn joined(c: Set<u32>, a: Set<u32>, b: Set<u32>) -> bool { forall|i: u32| #[trigger] c.contains(i) <==> (a.contains(i) || b.contains(i)) }
// bitmap.iter().take_while(|&x| x < e), .skip_while(|&x| x < e): the members are in increasing order
pub fn take_below(b: &RoaringBitmap, e: u32) -> (r: Vec<u32>) ensures increasing(r@), forall|u: u32| #[trigger] r@.contains(u) <==> (b@.contains(u) && u < e)
{
    let v = members(b);
    let mut r: Vec<u32> = Vec::new();
    let mut i: usize = 0;
    while i < v.len() && v[i] < e
        invariant i <= v@.len(), r@ == v@.subrange(0, i as int), increasing(v@), forall|j: int| 0 <= j < i ==> #[trigger] v@[j] < e
        decreases v@.len() - i
    { r.push(v[i]); i += 1; assert(r@ =~= v@.subrange(0, i as int)); }
    proof {
        assert forall|u: u32| #[trigger] r@.contains(u) <==> (b@.contains(u) && u < e) by {
            if r@.contains(u) { let j = choose|j: int| 0 <= j < r@.len() && r@[j] == u; assert(v@[j] == u); assert(v@.contains(u)); }
            if b@.contains(u) && u < e { assert(v@.contains(u)); let j = choose|j: int| 0 <= j < v@.len() && v@[j] == u; if j >= i { assert(v@[i as int] >= e); assert(j == i || v@[i as int] < v@[j]); } assert(r@[j] == u); }
        }
    }
    r
}
pub fn skip_below(b: &RoaringBitmap, e: u32) -> (r: Vec<u32>) ensures increasing(r@), forall|u: u32| #[trigger] r@.contains(u) <==> (b@.contains(u) && u >= e)
{
    let v = members(b);
    let mut r: Vec<u32> = Vec::new();
    let mut i: usize = 0;
    while i < v.len() && v[i] < e
        invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> #[trigger] v@[j] < e
        decreases v@.len() - i
    { i += 1; }
    let ghost a = i as int;
    while i < v.len()
        invariant 0 <= a <= i <= v@.len(), r@ == v@.subrange(a, i as int)
        decreases v@.len() - i
    { r.push(v[i]); i += 1; assert(r@ =~= v@.subrange(a, i as int)); }
    proof {
        assert forall|u: u32| #[trigger] r@.contains(u) <==> (b@.contains(u) && u >= e) by {
            if r@.contains(u) { let j = choose|j: int| 0 <= j < r@.len() && r@[j] == u; assert(v@[a + j] == u); assert(v@.contains(u)); assert(v@[a] >= e); assert(j == 0 || v@[a] < v@[a + j]); }
            if b@.contains(u) && u >= e { assert(v@.contains(u)); let j = choose|j: int| 0 <= j < v@.len() && v@[j] == u; assert(j >= a); assert(r@[j - a] == u); }
        }
    }
    r
}
pub proof fn inc_bound(b: Seq<u32>, i: int)
    requires increasing(b), 0 <= i < b.len()
    ensures b[i] >= i, forall|j: int| 0 <= j < b.len() ==> b[j] >= j
{
    assert forall|j: int| 0 <= j < b.len() implies b[j] >= j by { inc_low(b, j); }
}
pub proof fn inc_low(b: Seq<u32>, j: int)
    requires increasing(b), 0 <= j < b.len()
    ensures b[j] >= j
    decreases j
{ if j > 0 { inc_low(b, j - 1); assert(b[j - 1] < b[j]); } }
/// bitmap.iter().map(|x| x - off): the selected records, counted from the start of the chunk
pub fn shifted(b: &RoaringBitmap, off: u32) -> (r: Vec<u32>)
    requires forall|u: u32| b@.contains(u) ==> u >= off
    ensures forall|n: int| within(b@, off as int, n) && 0 <= n && off + n <= lim32() ==> #[trigger] lists(r@, b@, off as int, n)
{
    let v = members(b);
    let mut r: Vec<u32> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), increasing(v@), forall|u: u32| b@.contains(u) <==> #[trigger] v@.contains(u), forall|u: u32| b@.contains(u) ==> u >= off, r@.len() == i, forall|j: int| 0 <= j < i ==> r@[j] + off == v@[j]
        decreases v@.len() - i
    {
        assert(v@.contains(v@[i as int]));
        r.push(v[i] - off);
        i += 1;
    }
    proof {
        assert forall|n: int| within(b@, off as int, n) && 0 <= n && off + n <= lim32() implies #[trigger] lists(r@, b@, off as int, n) by {
            assert forall|j: int| 0 <= j < r@.len() implies #[trigger] r@[j] < n && b@.contains((off + r@[j]) as u32) by { assert(v@.contains(v@[j])); assert(b@.contains(v@[j])); }
            assert forall|k: int| 0 <= k < n && b@.contains((off + k) as u32) implies #[trigger] r@.contains(k as u32) by {
                assert(v@.contains((off + k) as u32)); let j = choose|j: int| 0 <= j < v@.len() && v@[j] == (off + k) as u32; assert(r@[j] == k);
            }
            assert(increasing(r@)) by { assert forall|i: int, j: int| 0 <= i < j < r@.len() implies r@[i] < r@[j] by { assert(v@[i] < v@[j]); } }
            if r@.len() > 0 { inc_low(r@, r@.len() - 1); }
        }
    }
    r
}
/// how far the first j listed records reach
pub open spec fn reach(b: Seq<u32>, j: int) -> int { if j <= 0 { 0 } else { b[j - 1] + 1 } }
/// between two listed records (or after the last) nothing is selected
pub proof fn gap(b: Seq<u32>, m: Set<u32>, off: int, n: int, j: int)
    requires lists(b, m, off, n), 0 <= j <= b.len(), 0 <= off, off + n <= lim32()
    ensures 0 <= reach(b, j) <= n, forall|k: int| reach(b, j) <= k < (if j < b.len() { b[j] as int } else { n }) ==> !#[trigger] sel(Some(m), off + k),
        j < b.len() ==> reach(b, j) <= b[j] < n && sel(Some(m), off + b[j]) && reach(b, j + 1) == b[j] + 1
{
    if j < b.len() && j > 0 { assert(b[j - 1] < b[j]); }
    assert forall|k: int| reach(b, j) <= k < (if j < b.len() { b[j] as int } else { n }) implies !#[trigger] sel(Some(m), off + k) by {
        if m.contains((off + k) as u32) {
            assert(b.contains(k as u32));
            let i = choose|i: int| 0 <= i < b.len() && b[i] == k as u32;
            if i < j { assert(i == j - 1 || b[i] < b[j - 1]); } else { assert(i == j || b[j] < b[i]); }
        }
    }
}
/// the sum of the selected among the first k
pub open spec fn fsum(f: Seq<int>, m: Option<Set<u32>>, off: int, k: int) -> int decreases k {
    if k <= 0 { 0 } else { fsum(f, m, off, k - 1) + if sel(m, off + (k - 1)) { f[k - 1] } else { 0 } }
}
pub open spec fn cnt(m: Option<Set<u32>>, off: int, k: int) -> int decreases k {
    if k <= 0 { 0 } else { cnt(m, off, k - 1) + if sel(m, off + (k - 1)) { 1int } else { 0 } }
}
pub proof fn cnt_bound(m: Option<Set<u32>>, off: int, k: int) requires 0 <= k ensures 0 <= cnt(m, off, k) <= k, m is None ==> cnt(m, off, k) == k decreases k
{ if k > 0 { cnt_bound(m, off, k - 1); } }
pub proof fn fsum_skip(f: Seq<int>, m: Option<Set<u32>>, off: int, a: int, k: int)
    requires 0 <= a <= k, forall|i: int| a <= i < k ==> !#[trigger] sel(m, off + i)
    ensures fsum(f, m, off, k) == fsum(f, m, off, a)
    decreases k
{ if k > a { fsum_skip(f, m, off, a, k - 1); assert(!sel(m, off + (k - 1))); } }
/// after the last listed record nothing is added
pub broadcast proof fn fsum_done(f: Seq<int>, b: Seq<u32>, m: Set<u32>, off: int, n: int, j: int)
    requires #[trigger] lists(b, m, off, n), j == b.len(), 0 <= off, off + n <= lim32()
    ensures #[trigger] fsum(f, Some(m), off, reach(b, j)) == fsum(f, Some(m), off, n)
{ gap(b, m, off, n, j); fsum_skip(f, Some(m), off, reach(b, j), n); }
pub proof fn fsum_bound(f: Seq<int>, m: Option<Set<u32>>, off: int, k: int, hi: int)
    requires 0 <= k <= f.len(), 0 <= hi, forall|i: int| 0 <= i < k ==> 0 <= #[trigger] f[i] <= hi
    ensures 0 <= fsum(f, m, off, k) <= hi * k
    decreases k
{ if k > 0 { fsum_bound(f, m, off, k - 1, hi); assert(hi * (k - 1) + hi == hi * k) by (nonlinear_arith); } else { assert(hi * k == 0) by (nonlinear_arith) requires k == 0; } }
/// f + c * g = h, term by term
pub open spec fn linear(f: Seq<int>, g: Seq<int>, h: Seq<int>, c: int, k: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] h[i] == f[i] + c * g[i] }
pub proof fn fsum_linear(f: Seq<int>, g: Seq<int>, h: Seq<int>, c: int, m: Option<Set<u32>>, off: int, k: int)
    requires linear(f, g, h, c, k)
    ensures fsum(h, m, off, k) == fsum(f, m, off, k) + c * fsum(g, m, off, k)
    decreases k
{
    if k > 0 {
        fsum_linear(f, g, h, c, m, off, k - 1);
        let (a, b) = (fsum(g, m, off, k - 1), g[k - 1]);
        assert(h[k - 1] == f[k - 1] + c * g[k - 1]);
        assert(c * (a + b) == c * a + c * b) by (nonlinear_arith);
    } else { assert(c * 0 == 0); }
}
pub proof fn fsum_mono(f: Seq<int>, g: Seq<int>, m: Option<Set<u32>>, off: int, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] f[i] <= g[i]
    ensures fsum(f, m, off, k) <= fsum(g, m, off, k)
    decreases k
{ if k > 0 { fsum_mono(f, g, m, off, k - 1); assert(f[k - 1] <= g[k - 1]); } }
} // mod mk
