// Stand-ins for what the queries use of other crates and modules; their contracts are assumed here
// (decompress: the codec properties; Predicate::eval: Kani unit predicate; RoaringBitmap: a set of u32).
//@include timer.rs
#[verifier::external_body]
pub struct RoaringBitmap { x: u64 }
impl View for RoaringBitmap { type V = Set<u32>; uninterp spec fn view(&self) -> Set<u32>; }
impl RoaringBitmap {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<u32>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, i: u32) -> (r: bool) ensures r == self@.contains(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: u32) -> (r: bool) ensures final(self)@ == old(self)@.insert(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (forall|i: u32| !self@.contains(i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_range(&mut self, w: std::ops::Range<u32>) -> (r: u64)
        ensures forall|i: u32| #[trigger] final(self)@.contains(i) <==> (old(self)@.contains(i) || w.start <= i < w.end) { unimplemented!() }
}
#[verifier::external_body]
pub fn bm_and(a: &RoaringBitmap, b: RoaringBitmap) -> (r: RoaringBitmap)
    ensures forall|i: u32| (#[trigger] r@.contains(i) <==> (a@.contains(i) && b@.contains(i))), forall|i: u32| #[trigger] a@.contains(i) && b@.contains(i) ==> r@.contains(i) { unimplemented!() }
#[verifier::external_body]
pub fn bm_or(a: RoaringBitmap, b: RoaringBitmap) -> (r: RoaringBitmap)
    ensures forall|i: u32| #[trigger] r@.contains(i) <==> (a@.contains(i) || b@.contains(i)) { unimplemented!() }
pub mod decoder { pub enum DecoderError { PreconditionsNotMet, UnexpectedEndOfChunk, Other } pub type Result<T> = std::result::Result<T, DecoderError>; }
// doubles: arithmetic stays uninterpreted, only which records enter and in which order is proved
pub uninterp spec fn add_s(a: f64, b: f64) -> f64;
pub uninterp spec fn sub_s(a: f64, b: f64) -> f64;
pub uninterp spec fn mul_s(a: f64, b: f64) -> f64;
pub uninterp spec fn min_s(a: f64, b: f64) -> f64;
pub uninterp spec fn max_s(a: f64, b: f64) -> f64;
pub uninterp spec fn zero_s() -> f64;
pub uninterp spec fn inf_s() -> f64;
pub uninterp spec fn ninf_s() -> f64;
pub uninterp spec fn sum_from_s() -> f64;
#[verifier::external_body]
pub fn fadd(a: f64, b: f64) -> (r: f64) ensures r == add_s(a, b) { a + b }
#[verifier::external_body]
pub fn fsub(a: f64, b: f64) -> (r: f64) ensures r == sub_s(a, b) { a - b }
#[verifier::external_body]
pub fn fmul(a: f64, b: f64) -> (r: f64) ensures r == mul_s(a, b) { a * b }
#[verifier::external_body]
pub fn fmin(a: f64, b: f64) -> (r: f64) ensures r == min_s(a, b) { a.min(b) }
#[verifier::external_body]
pub fn fmax(a: f64, b: f64) -> (r: f64) ensures r == max_s(a, b) { a.max(b) }
#[verifier::external_body]
pub fn fzero() -> (r: f64) ensures r == zero_s() { 0.0 }
#[verifier::external_body]
pub fn fsum_from() -> (r: f64) ensures r == sum_from_s() { [0.0f64; 0].iter().sum() }
#[verifier::external_body]
pub fn finf() -> (r: f64) ensures r == inf_s() { f64::INFINITY }
#[verifier::external_body]
pub fn fninf() -> (r: f64) ensures r == ninf_s() { f64::NEG_INFINITY }
// bytes of a double in memory order
pub uninterp spec fn ne(x: f64) -> Seq<u8>;
#[verifier::external_body]
pub fn f_bytes(x: f64) -> (r: [u8; 8]) ensures r@ == ne(x) { x.to_ne_bytes() }
#[verifier::external_body]
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { std::cmp::min(a, b) }
pub trait Write {
    spec fn out(&self) -> Seq<u8>;
    fn write_all(&mut self, b: &[u8]) -> (r: decoder::Result<()>)
        ensures r is Ok ==> final(self).out() == old(self).out() + b@;
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Predicate { x: u64 }
impl Predicate {
    pub uninterp spec fn holds(&self, x: f64) -> bool;
    #[verifier::external_body]
    pub fn eval(&self, x: f64) -> (r: bool) ensures r == self.holds(x) { unimplemented!() }
}
// ---- what the queries mean
pub open spec fn mv(m: Option<&RoaringBitmap>) -> Option<Set<u32>> { match m { Some(b) => Some(b@), None => None } }
pub open spec fn sel(m: Option<Set<u32>>, i: int) -> bool { match m { Some(s) => s.contains(i as u32), None => true } }
pub open spec fn lim32() -> int { 0x1_0000_0000 }
/// the records of s (numbered from off) that are selected by the mask and satisfy the predicate, in order
pub open spec fn chosen(s: Seq<f64>, m: Option<Set<u32>>, off: int, p: Option<Predicate>) -> Seq<f64> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let r = chosen(s.drop_last(), m, off, p);
        if sel(m, off + s.len() - 1) && (p is Some ==> p->0.holds(s.last())) { r.push(s.last()) } else { r }
    }
}
pub open spec fn bytes(s: Seq<f64>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { bytes(s.drop_last()) + ne(s.last()) }
}
pub open spec fn total(s: Seq<f64>, a: f64) -> f64 decreases s.len() { if s.len() == 0 { a } else { add_s(total(s.drop_last(), a), s.last()) } }
pub open spec fn least(s: Seq<f64>, a: f64) -> f64 decreases s.len() { if s.len() == 0 { a } else { min_s(least(s.drop_last(), a), s.last()) } }
pub open spec fn most(s: Seq<f64>, a: f64) -> f64 decreases s.len() { if s.len() == 0 { a } else { max_s(most(s.drop_last(), a), s.last()) } }
pub open spec fn hit(s: Seq<f64>, m: Option<Set<u32>>, off: int, p: Predicate, k: u32) -> bool {
    off <= k < off + s.len() && sel(m, k as int) && p.holds(s[k - off])
}
/// pairs of records from an offset with the target
pub open spec fn overlap(s: Seq<f64>, off: int, t: Seq<f64>) -> int {
    let l = if off >= s.len() { 0 } else { s.len() - off };
    if l < t.len() { l } else { t.len() as int }
}
pub open spec fn dist(s: Seq<f64>, off: int, t: Seq<f64>, n: int) -> f64 decreases n {
    if n <= 0 { sum_from_s() } else { add_s(dist(s, off, t, n - 1), mul_s(sub_s(s[off + n - 1], t[n - 1]), sub_s(s[off + n - 1], t[n - 1]))) }
}
pub open spec fn dot(s: Seq<f64>, off: int, t: Seq<f64>, n: int) -> f64 decreases n {
    if n <= 0 { sum_from_s() } else { add_s(dot(s, off, t, n - 1), mul_s(s[off + n - 1], t[n - 1])) }
}
