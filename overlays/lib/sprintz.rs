pub mod sp {
use super::*;
use super::bits::*;
use super::ext::*;
use super::rd::*;
use super::tr::*;
broadcast use super::bits::bit_lemmas;
/// zig-zag: 0, -1, 1, -2, 2, .. become 0, 1, 2, 3, 4, ..
pub open spec fn zz(d: int) -> u64 { (if d >= 0 { 2 * d } else { -2 * d - 1 }) as u64 }
pub open spec fn uz(u: u64) -> int { if u % 2 == 0 { u as int / 2 } else { -(u as int / 2) - 1 } }
pub proof fn zz_inverse(d: int) requires -0x8000_0000_0000_0000 <= d < 0x8000_0000_0000_0000 ensures uz(zz(d)) == d { }
/// the bound on quantized values within which no difference overflows
pub open spec fn lim() -> int { 0x2000_0000_0000_0000 }
pub open spec fn bounded(q: Seq<i64>) -> bool { forall|k: int| 0 <= k < q.len() ==> -lim() < #[trigger] q[k] < lim() }
pub open spec fn before(q: Seq<i64>, k: int) -> i64 { if k <= 0 { q[0] } else { q[k - 1] } }
pub open spec fn first(q: Seq<i64>) -> i64 { if q.len() == 0 { 0 } else { q[0] } }
/// the stored form of record k: the zig-zag of its difference to the record before (the first: to itself)
pub open spec fn code(q: Seq<i64>, k: int) -> u64 { zz(q[k] - before(q, k)) }
pub open spec fn codes(q: Seq<i64>) -> Seq<u64> { Seq::new(q.len(), |k: int| code(q, k)) }
pub open spec fn words(d: Seq<u8>, q: Seq<i64>, w: int) -> bool { forall|k: int| 0 <= k < q.len() ==> is_bits_value(d, 104 + w * k, w, #[trigger] code(q, k)) }
/// the bytes of a chunk that holds the quantized records q
#[verifier::opaque]
pub open spec fn schunk(d: Seq<u8>, q: Seq<i64>, scale: u64, w: int) -> bool {
    &&& 0 <= w <= 64 && scale < 0x1_0000_0000 && bounded(q)
    &&& 104 + w * q.len() <= 8 * d.len()
    &&& is_bits_value(d, 0, 64, first(q) as u64) && is_bits_value(d, 64, 32, scale) && byte_at(d, 96, w as u8)
    &&& words(d, q, w)
}
pub open spec fn is_content(d: Seq<u8>, n: int, c: (Seq<i64>, u64, int)) -> bool { c.0.len() == n && schunk(d, c.0, c.1, c.2) }
pub open spec fn valid(d: Seq<u8>, n: int) -> bool { exists|c: (Seq<i64>, u64, int)| #[trigger] is_content(d, n, c) }
pub open spec fn content(d: Seq<u8>, n: int) -> (Seq<i64>, u64, int) { choose|c: (Seq<i64>, u64, int)| #[trigger] is_content(d, n, c) }
pub proof fn one_value(d: Seq<u8>, p: int, n: int, a: u64, b: u64)
    requires is_bits_value(d, p, n, a), is_bits_value(d, p, n, b)
    ensures a == b
{ u64_ext(a, b); }
pub proof fn one_byte(a: u8, b: u8)
    requires forall|k: int| 0 <= k < 8 ==> b8(a, k) == b8(b, k)
    ensures a == b
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] b64(a as u64, i) == b64(b as u64, i) by { if i < 8 { assert(b8(a, 7 - i) == b8(b, 7 - i)); } }
    u64_ext(a as u64, b as u64);
}
/// the codes of q fit w bits
pub open spec fn fit(q: Seq<i64>, w: int) -> bool { forall|k: int| 0 <= k < q.len() ==> low(#[trigger] code(q, k), w) == code(q, k) }
pub proof fn record(d: Seq<u8>, q: Seq<i64>, scale: u64, w: int, k: int)
    requires schunk(d, q, scale, w), 0 <= k < q.len()
    ensures 0 <= w <= 64, is_bits_value(d, 104 + w * k, w, code(q, k)), -lim() < q[k] < lim(), -lim() < before(q, k) < lim(), uz(code(q, k)) == q[k] - before(q, k),
        104 + w * k + w <= 8 * d.len(), 0 <= w * k
{
    reveal(schunk);
    assert(w * k + w <= w * q.len() && 0 <= w * k) by (nonlinear_arith) requires 0 <= w, 0 <= k, k + 1 <= q.len();
    assert(is_bits_value(d, 104 + w * k, w, code(q, k)));
    assert(-lim() < before(q, k) < lim()) by { if k > 0 { assert(-lim() < q[k - 1] < lim()); } else { assert(-lim() < q[0] < lim()); } }
}
/// the bytes determine the records, the scale and the width
pub proof fn unique(d: Seq<u8>, n: int, a: (Seq<i64>, u64, int), b: (Seq<i64>, u64, int))
    requires is_content(d, n, a), is_content(d, n, b)
    ensures a == b
{
    reveal(schunk);
    one_value(d, 64, 32, a.1, b.1);
    one_value(d, 0, 64, first(a.0) as u64, first(b.0) as u64);
    assert forall|k: int| 0 <= k < 8 implies #[trigger] b8(a.2 as u8, k) == b8(b.2 as u8, k) by { assert(bit_at(d, 96 + k) == b8(a.2 as u8, k)); assert(b8(b.2 as u8, k) == bit_at(d, 96 + k)); }
    one_byte(a.2 as u8, b.2 as u8);
    assert(a.2 == b.2);
    let (x, y) = (first(a.0), first(b.0));
    assert(x == y) by (bit_vector) requires x as u64 == y as u64;
    same_upto(d, n, a.0, b.0, a.1, a.2, n);
    assert(a.0 =~= b.0);
}
pub proof fn same_upto(d: Seq<u8>, n: int, a: Seq<i64>, b: Seq<i64>, s: u64, w: int, k: int)
    requires schunk(d, a, s, w), schunk(d, b, s, w), a.len() == n, b.len() == n, 0 <= k <= n, n > 0 ==> a[0] == b[0]
    ensures forall|i: int| 0 <= i < k ==> a[i] == b[i]
    decreases k
{
    if k > 0 {
        same_upto(d, n, a, b, s, w, k - 1);
        record(d, a, s, w, k - 1); record(d, b, s, w, k - 1);
        one_value(d, 104 + w * (k - 1), w, code(a, k - 1), code(b, k - 1));
    }
}
/// bits written in one go are read back at their place
pub proof fn placed(s: Seq<bool>, b: Seq<u8>, p: int, n: int, v: u64)
    requires is_padded(s, b), 0 <= p, 0 <= n <= 64, p + n <= s.len(), low(v, n) == v,
        forall|i: int| 0 <= i < n ==> #[trigger] s[p + i] == b64(v, n - 1 - i),
    ensures is_bits_value(b, p, n, v)
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] b64(v, i) == (i < n && bit_at(b, p + n - 1 - i)) by {
        low_bits(v, n, i);
        if i < n { assert(bit_at(b, p + n - 1 - i) == s[p + (n - 1 - i)]); }
    }
}
/// the bits of the header and of the first k records
pub open spec fn header(q: Seq<i64>, scale: u64, w: int) -> Seq<bool> { u64_bits(first(q) as u64, 64) + u64_bits(scale, 32) + u8_bits(w as u8) }
pub open spec fn body(q: Seq<i64>, w: int, k: int) -> Seq<bool> decreases k {
    if k <= 0 { Seq::empty() } else { body(q, w, k - 1) + u64_bits(code(q, k - 1), w as nat) }
}
/// all bits that occur in the codes of the first k records, and the width they need
pub open spec fn union(q: Seq<i64>, k: int) -> u64 decreases k { if k <= 0 { 0 } else { union(q, k - 1) | code(q, k - 1) } }
pub open spec fn width(q: Seq<i64>) -> int { 64 - vstd::std_specs::bits::u64_leading_zeros(union(q, q.len() as int)) }
pub open spec fn image(q: Seq<i64>, scale: u64) -> Seq<bool> { header(q, scale, width(q)) + body(q, width(q), q.len() as int) }
pub broadcast proof fn body_none(q: Seq<i64>, w: int, k: int)
    requires w == 0
    ensures #[trigger] body(q, w, k) == Seq::<bool>::empty()
    decreases k
{ if k > 0 { body_none(q, w, k - 1); assert(body(q, w, k) =~= Seq::<bool>::empty()); } }
pub broadcast proof fn width_none(q: Seq<i64>)
    requires q.len() == 0
    ensures #[trigger] width(q) == 0
{ vstd::std_specs::bits::axiom_u64_leading_zeros(0); }
pub proof fn body_at(q: Seq<i64>, w: int, k: int)
    requires 0 <= w <= 64, 0 <= k
    ensures body(q, w, k).len() == w * k, forall|j: int, i: int| 0 <= j < k && 0 <= i < w ==> body(q, w, k)[w * j + i] == #[trigger] b64(code(q, j), w - 1 - i)
    decreases k
{
    if k > 0 {
        body_at(q, w, k - 1);
        let (s, t) = (body(q, w, k - 1), body(q, w, k));
        assert(w * k == w * (k - 1) + w && w * (k - 1) >= 0) by (nonlinear_arith) requires 0 < k, 0 <= w;
        assert forall|j: int, i: int| 0 <= j < k && 0 <= i < w implies t[w * j + i] == #[trigger] b64(code(q, j), w - 1 - i) by {
            if j < k - 1 { assert(w * j + i < w * (k - 1) && w * j >= 0) by (nonlinear_arith) requires 0 <= j < k - 1, 0 <= i < w; assert(t[w * j + i] == s[w * j + i]); }
            else { assert(t[w * (k - 1) + i] == u64_bits(code(q, k - 1), w as nat)[i]); }
        }
    }
}
/// a word covered by acc fits the bits acc needs
pub proof fn covered(c: u64, acc: u64, w: u8)
    requires c & acc == c, w <= 64, w < 64 ==> acc >> (w as u64) == 0
    ensures low(c, w as int) == c
{
    if w < 64 {
        let m = w as u32;
        assert(1u64 << m >= 1) by (bit_vector) requires m < 64;
        let one = 1u64 << m;
        let k = (one - 1) as u64;
        assert(c & k == c) by (bit_vector) requires c & acc == c, m < 64, acc >> (m as u64) == 0, one == 1u64 << m, k == sub(one, 1);
    }
}
pub proof fn union_covers(q: Seq<i64>, k: int)
    ensures forall|j: int| 0 <= j < k ==> #[trigger] code(q, j) & union(q, k) == code(q, j)
    decreases k
{
    if k > 0 {
        union_covers(q, k - 1);
        let (a, z) = (union(q, k - 1), code(q, k - 1));
        assert forall|j: int| 0 <= j < k implies #[trigger] code(q, j) & union(q, k) == code(q, j) by {
            let c = code(q, j);
            if j < k - 1 { assert(c & (a | z) == c) by (bit_vector) requires c & a == c; } else { assert(z & (a | z) == z) by (bit_vector); }
        }
    }
}
/// every code fits the width
pub proof fn width_fits(q: Seq<i64>) ensures 0 <= width(q) <= 64, fit(q, width(q))
{
    let acc = union(q, q.len() as int);
    vstd::std_specs::bits::axiom_u64_leading_zeros(acc);
    let w = width(q) as u8;
    assert(w < 64 ==> acc >> (w as u64) == 0);
    union_covers(q, q.len() as int);
    assert forall|k: int| 0 <= k < q.len() implies low(#[trigger] code(q, k), w as int) == code(q, k) by { covered(code(q, k), acc, w); }
}
/// the bytes of the image are a chunk that holds q
pub broadcast proof fn image_chunk(q: Seq<i64>, scale: u64, d: Seq<u8>)
    requires #[trigger] is_padded(image(q, scale), d), bounded(q), scale < 0x1_0000_0000
    ensures schunk(d, q, scale, width(q)), valid(d, q.len() as int), content(d, q.len() as int) == (q, scale, width(q))
{
    reveal(schunk);
    let w = width(q);
    let s = image(q, scale);
    width_fits(q);
    body_at(q, w, q.len() as int);
    assert(w * q.len() >= 0) by (nonlinear_arith) requires 0 <= w;
    assert forall|i: int| 0 <= i < 64 implies #[trigger] s[0 + i] == b64(first(q) as u64, 64 - 1 - i) by { }
    placed(s, d, 0, 64, first(q) as u64);
    assert(low(scale, 32) == scale) by { assert(scale & sub(1u64 << 32, 1) == scale) by (bit_vector) requires scale < 0x1_0000_0000; assert(1u64 << 32 == 0x1_0000_0000) by (bit_vector); }
    assert forall|i: int| 0 <= i < 32 implies #[trigger] s[64 + i] == b64(scale, 32 - 1 - i) by { assert(u64_bits(scale, 32)[i] == b64(scale, 31 - i)); }
    placed(s, d, 64, 32, scale);
    assert forall|k: int| 0 <= k < 8 implies #[trigger] b8(w as u8, k) == bit_at(d, 96 + k) by { assert(u8_bits(w as u8)[k] == b8(w as u8, k)); assert(s[96 + k] == b8(w as u8, k)); }
    assert forall|k: int| 0 <= k < q.len() implies is_bits_value(d, 104 + w * k, w, #[trigger] code(q, k)) by {
        assert(w * k + w <= w * q.len() && 0 <= w * k) by (nonlinear_arith) requires 0 <= w, 0 <= k, k + 1 <= q.len();
        assert(low(code(q, k), w) == code(q, k));
        assert forall|i: int| 0 <= i < w implies #[trigger] s[104 + w * k + i] == b64(code(q, k), w - 1 - i) by {
            assert(s[104 + (w * k + i)] == body(q, w, q.len() as int)[w * k + i]);
        }
        placed(s, d, 104 + w * k, w, code(q, k));
    }
    let c = (q, scale, w);
    assert(is_content(d, q.len() as int, c));
    unique(d, q.len() as int, c, content(d, q.len() as int));
}
pub proof fn content_is(d: Seq<u8>, n: int) requires valid(d, n) ensures is_content(d, n, content(d, n)) { }
/// what is read at a place is what is stored there
pub broadcast proof fn word_is(d: Seq<u8>, p: int, n: int, a: u64, b: u64)
    requires #[trigger] is_bits_value(d, p, n, a), #[trigger] is_bits_value(d, p, n, b)
    ensures a == b
{ u64_ext(a, b); }
pub broadcast proof fn byte_is(d: Seq<u8>, p: int, a: u8, b: u8)
    requires #[trigger] byte_at(d, p, a), #[trigger] byte_at(d, p, b)
    ensures a == b
{ assert forall|k: int| 0 <= k < 8 implies b8(a, k) == #[trigger] b8(b, k) by { assert(b8(a, k) == bit_at(d, p + k)); } one_byte(a, b); }
pub proof fn header_values(d: Seq<u8>, n: int)
    requires valid(d, n)
    ensures ({ let (q, s, w) = content(d, n);
        &&& q.len() == n && 0 <= w <= 64 && s < 0x1_0000_0000 && 104 <= 8 * d.len()
        &&& is_bits_value(d, 0, 64, first(q) as u64) && (first(q) as u64) as i64 == first(q) && is_bits_value(d, 64, 32, s)
        &&& byte_at(d, 96, w as u8) && (w as u8) as int == w && w * 0 == 0 && (n > 0 ==> before(q, 0) == first(q)) })
{
    content_is(d, n); reveal(schunk);
    let (q, s, w) = content(d, n);
    assert(w * q.len() >= 0) by (nonlinear_arith) requires 0 <= w;
    let f = first(q);
    assert((f as u64) as i64 == f) by (bit_vector);
}
pub proof fn next_record(d: Seq<u8>, n: int, k: int)
    requires valid(d, n), 0 <= k < n
    ensures ({ let (q, s, w) = content(d, n);
        &&& q.len() == n && 0 <= w <= 64 && 0 <= w * k && 104 + w * k + w <= 8 * d.len() && w * (k + 1) == w * k + w
        &&& is_bits_value(d, 104 + w * k, w, code(q, k)) && uz(code(q, k)) == q[k] - before(q, k) && -lim() < q[k] < lim() && -lim() < before(q, k) < lim() && before(q, k + 1) == q[k] && (w == 0 ==> q[k] == before(q, k)) })
{
    content_is(d, n);
    let (q, s, w) = content(d, n);
    record(d, q, s, w, k);
    assert(w * (k + 1) == w * k + w) by (nonlinear_arith);
    if w == 0 { u64_zero_ext(code(q, k)); }
}
} // mod sp
