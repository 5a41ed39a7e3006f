//@include lib/prelude.rs
//@include lib/query.rs
pub mod q {
use super::*;
pub trait Reader {
    spec fn recs(&self) -> Seq<f64>;
    fn decompress(&mut self, timer: &mut SegmentedExecutionTimes) -> (r: decoder::Result<&[f64]>)
        ensures r is Ok ==> r->Ok_0@ == old(self).recs(), final(self).recs() == old(self).recs();
}
proof fn step(s: Seq<f64>, i: int)
    requires 0 <= i < s.len()
    ensures s.take(i + 1).drop_last() == s.take(i), s.take(i + 1).last() == s[i]
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
proof fn pushed(s: Seq<f64>, x: f64) ensures s.push(x).drop_last() == s, s.push(x).last() == x
{ assert(s.push(x).drop_last() =~= s); }
proof fn dist_sub(s: Seq<f64>, off: int, t: Seq<f64>, n: int)
    requires 0 <= off <= s.len(), n <= s.len() - off
    ensures dist(s.subrange(off, s.len() as int), 0, t, n) == dist(s, off, t, n), dot(s.subrange(off, s.len() as int), 0, t, n) == dot(s, off, t, n)
    decreases n
{ if n > 0 { dist_sub(s, off, t, n - 1); } }
proof fn beyond(s: Seq<f64>, off: int, t: Seq<f64>)
    requires off >= s.len()
    ensures overlap(s, off, t) == 0
{ }
//@item ebi/src/decoder/query.rs :: fn default_materialize
//@rewrite v.to_ne_bytes() => f_bytes(*v)
//@fn default_materialize ret=r
    requires logical_offset + old(reader).recs().len() <= lim32(),
    ensures final(reader).recs() == old(reader).recs(),
        r is Ok ==> final(output).out() == old(output).out() + bytes(chosen(old(reader).recs(), mv(bitmask), logical_offset as int, None)),
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= decompressed@.len(), decompressed@ == old(reader).recs(),
        output.out() == old(output).out() + bytes(chosen(decompressed@.take(vx_1 as int), mv(bitmask), logical_offset as int, None)),
    decreases decompressed@.len() - vx_1,
//@loopstart 1
    proof { step(decompressed@, vx_1 - 1); pushed(chosen(decompressed@.take(vx_1 - 1), mv(bitmask), logical_offset as int, None), *v); assert(forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] (a + (b + c)) =~= (a + b) + c); }
//@end
    proof { assert(old(reader).recs().take(old(reader).recs().len() as int) =~= old(reader).recs()); }
//@enditem
//@item ebi/src/decoder/query.rs :: fn default_filter_materialize
//@rewrite v.to_ne_bytes() => f_bytes(*v)
//@fn default_filter_materialize ret=r
    requires logical_offset + old(reader).recs().len() <= lim32(),
    ensures final(reader).recs() == old(reader).recs(),
        r is Ok ==> final(output).out() == old(output).out() + bytes(chosen(old(reader).recs(), mv(bitmask), logical_offset as int, Some(predicate))),
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= decompressed@.len(), decompressed@ == old(reader).recs(),
        output.out() == old(output).out() + bytes(chosen(decompressed@.take(vx_1 as int), mv(bitmask), logical_offset as int, Some(predicate))),
    decreases decompressed@.len() - vx_1,
//@loopstart 1
    proof { step(decompressed@, vx_1 - 1); pushed(chosen(decompressed@.take(vx_1 - 1), mv(bitmask), logical_offset as int, Some(predicate)), *v); assert(forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] (a + (b + c)) =~= (a + b) + c); }
//@end
    proof { assert(old(reader).recs().take(old(reader).recs().len() as int) =~= old(reader).recs()); }
//@enditem
//@item ebi/src/decoder/query.rs :: fn default_filter
//@fn default_filter ret=r
    requires logical_offset + old(reader).recs().len() <= lim32(),
    ensures final(reader).recs() == old(reader).recs(),
        r is Ok ==> forall|k: u32| #[trigger] r->Ok_0@.contains(k) <==> hit(old(reader).recs(), mv(bitmask), logical_offset as int, predicate, k),
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= decompressed@.len(), decompressed@ == old(reader).recs(),
        forall|k: u32| #[trigger] result@.contains(k) <==> hit(decompressed@, mv(bitmask), logical_offset as int, predicate, k) && k < logical_offset + vx_1,
    decreases decompressed@.len() - vx_1,
//@loopstart 1
    proof { step(decompressed@, vx_1 - 1);  }
//@enditem
//@item ebi/src/decoder/query.rs :: fn default_sum
//@rewritere let mut sum = 0\.0; => let mut sum = fzero();
//@rewritere (\w+) \+= (\*?\w+); => \1 = fadd(\1, \2);
//@fn default_sum ret=r
    requires logical_offset + old(reader).recs().len() <= lim32(),
    ensures final(reader).recs() == old(reader).recs(),
        r is Ok ==> r->Ok_0 == total(chosen(old(reader).recs(), mv(bitmask), logical_offset as int, None), zero_s()),
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= decompressed@.len(), decompressed@ == old(reader).recs(),
        sum == total(chosen(decompressed@.take(vx_1 as int), mv(bitmask), logical_offset as int, None), zero_s()),
    decreases decompressed@.len() - vx_1,
//@loopstart 1
    proof { step(decompressed@, vx_1 - 1); pushed(chosen(decompressed@.take(vx_1 - 1), mv(bitmask), logical_offset as int, None), *v); }
//@end
    proof { assert(old(reader).recs().take(old(reader).recs().len() as int) =~= old(reader).recs()); }
//@enditem
//@item ebi/src/decoder/query.rs :: fn default_min
//@rewrite f64::INFINITY => finf()
//@rewritere \b(\w+)\.min\((\*?\w+)\) => fmin(\1, \2)
//@fn default_min ret=r
    requires logical_offset + old(reader).recs().len() <= lim32(),
    ensures final(reader).recs() == old(reader).recs(),
        r is Ok ==> r->Ok_0 == least(chosen(old(reader).recs(), mv(bitmask), logical_offset as int, None), inf_s()),
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= decompressed@.len(), decompressed@ == old(reader).recs(),
        min == least(chosen(decompressed@.take(vx_1 as int), mv(bitmask), logical_offset as int, None), inf_s()),
    decreases decompressed@.len() - vx_1,
//@loopstart 1
    proof { step(decompressed@, vx_1 - 1); pushed(chosen(decompressed@.take(vx_1 - 1), mv(bitmask), logical_offset as int, None), *v); }
//@end
    proof { assert(old(reader).recs().take(old(reader).recs().len() as int) =~= old(reader).recs()); }
//@enditem
//@item ebi/src/decoder/query.rs :: fn default_max
//@rewrite f64::NEG_INFINITY => fninf()
//@rewritere \b(\w+)\.max\((\*?\w+)\) => fmax(\1, \2)
//@fn default_max ret=r
    requires logical_offset + old(reader).recs().len() <= lim32(),
    ensures final(reader).recs() == old(reader).recs(),
        r is Ok ==> r->Ok_0 == most(chosen(old(reader).recs(), mv(bitmask), logical_offset as int, None), ninf_s()),
//@attr
    #[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_1 <= decompressed@.len(), decompressed@ == old(reader).recs(),
        max == most(chosen(decompressed@.take(vx_1 as int), mv(bitmask), logical_offset as int, None), ninf_s()),
    decreases decompressed@.len() - vx_1,
//@loopstart 1
    proof { step(decompressed@, vx_1 - 1); pushed(chosen(decompressed@.take(vx_1 - 1), mv(bitmask), logical_offset as int, None), *v); }
//@end
    proof { assert(old(reader).recs().take(old(reader).recs().len() as int) =~= old(reader).recs()); }
//@enditem
//@item ebi/src/decoder/query.rs :: fn default_distance_squared
//@rewritere std::cmp::min\((.*?), (.*?)\) => umin(\1, \2)
//@rewritere (\w+\[\w+\.\.\])\s*\.iter\(\)\s*\.zip\((\w+)\)\s*\.map\(\|\(&(\w+), &\w+\)\| \((\w+) - (\w+)\) \* \((\w+) - (\w+)\)\)\s*\.sum\(\); => { let vx_a = &\1; let vx_b = \2; let vx_n = if vx_a.len() < vx_b.len() { vx_a.len() } else { vx_b.len() }; let mut vx_s = fsum_from(); let mut vx_i: usize = 0; while vx_i < vx_n invariant vx_n <= vx_a@.len(), vx_n <= vx_b@.len(), vx_i <= vx_n, vx_s == dist(vx_a@, 0, vx_b@, vx_i as int) decreases vx_n - vx_i { let \3 = vx_a[vx_i]; let b = vx_b[vx_i]; vx_s = fadd(vx_s, fmul(fsub(\4, \5), fsub(\6, \7))); vx_i += 1; } proof { dist_sub(decompressed@, offset_in_chunk as int, target@, vx_n as int); } vx_s };
//@fn default_distance_squared ret=r
    ensures final(reader).recs() == old(reader).recs(),
        r is Ok ==> r->Ok_0 == dist(old(reader).recs(), offset_in_chunk as int, target@, overlap(old(reader).recs(), offset_in_chunk as int, target@)),
//@enditem
//@item ebi/src/decoder/query.rs :: fn default_dot_product
//@rewritere std::cmp::min\((.*?), (.*?)\) => umin(\1, \2)
//@rewritere (\w+\[\w+\.\.\])\s*\.iter\(\)\s*\.zip\((\w+)\)\s*\.map\(\|\(&(\w+), &\w+\)\| (\w+) \* (\w+)\)\s*\.sum\(\); => { let vx_a = &\1; let vx_b = \2; let vx_n = if vx_a.len() < vx_b.len() { vx_a.len() } else { vx_b.len() }; let mut vx_s = fsum_from(); let mut vx_i: usize = 0; while vx_i < vx_n invariant vx_n <= vx_a@.len(), vx_n <= vx_b@.len(), vx_i <= vx_n, vx_s == dot(vx_a@, 0, vx_b@, vx_i as int) decreases vx_n - vx_i { let \3 = vx_a[vx_i]; let b = vx_b[vx_i]; vx_s = fadd(vx_s, fmul(\4, \5)); vx_i += 1; } proof { dist_sub(decompressed@, offset_in_chunk as int, target@, vx_n as int); } vx_s };
//@fn default_dot_product ret=r
    ensures final(reader).recs() == old(reader).recs(),
        r is Ok ==> r->Ok_0 == dot(old(reader).recs(), offset_in_chunk as int, target@, overlap(old(reader).recs(), offset_in_chunk as int, target@)),
//@enditem
//@item ebi/src/decoder/query.rs :: trait QueryExecutor
//@fn materialize ret=r
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(),
            r is Ok ==> final(output).out() == old(output).out() + bytes(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None))
//@fn filter_materialize ret=r
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(),
            r is Ok ==> final(output).out() == old(output).out() + bytes(chosen(old(self).recs(), mv(bitmask), logical_offset as int, Some(predicate)))
//@fn filter ret=r
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(),
            r is Ok ==> forall|k: u32| #[trigger] r->Ok_0@.contains(k) <==> hit(old(self).recs(), mv(bitmask), logical_offset as int, predicate, k)
//@fn sum ret=r
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(),
            r is Ok ==> r->Ok_0 == total(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None), zero_s())
//@fn min ret=r
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(),
            r is Ok ==> r->Ok_0 == least(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None), inf_s())
//@fn max ret=r
        requires logical_offset + old(self).recs().len() <= lim32(),
        ensures final(self).recs() == old(self).recs(),
            r is Ok ==> r->Ok_0 == most(chosen(old(self).recs(), mv(bitmask), logical_offset as int, None), ninf_s())
//@fn distance_squared ret=r
        ensures final(self).recs() == old(self).recs(),
            r is Ok ==> r->Ok_0 == dist(old(self).recs(), offset_in_chunk as int, target@, overlap(old(self).recs(), offset_in_chunk as int, target@))
//@fn dot_product ret=r
        ensures final(self).recs() == old(self).recs(),
            r is Ok ==> r->Ok_0 == dot(old(self).recs(), offset_in_chunk as int, target@, overlap(old(self).recs(), offset_in_chunk as int, target@))
//@enditem
}
fn main() {}
}
