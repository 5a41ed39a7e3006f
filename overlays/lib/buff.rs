// What a BUFF chunk means.
pub mod bl {
use super::*;
use super::lb::*;
use super::bp::*;
broadcast use super::lb::lbit_lemmas;
pub open spec fn flip_s(x: u8) -> u8 { x ^ 0x80u8 }
pub open spec fn l64(b: u64, k: int) -> bool { (b >> (k as u64)) & 1u64 == 1u64 }
/// the k-th byte column from the top of deltas of w bits: byte i is bits [w-8(k+1), w-8k) of delta i, sign flipped
pub open spec fn col_part(c: Seq<u8>, ds: Seq<u64>, w: int, k: int, m: int) -> bool {
    forall|i: int| 0 <= i < m ==> #[trigger] c[20 + k * ds.len() + i] == flip_s((ds[i] >> ((w - 8 * (k + 1)) as u64)) as u8)
}
#[verifier::opaque]
pub open spec fn col(c: Seq<u8>, ds: Seq<u64>, w: int, k: int) -> bool { col_part(c, ds, w, k, ds.len() as int) }
/// where the remaining bits start, in bits
pub open spec fn tail_at(n: int, w: int) -> int { 8 * (20 + (w / 8) * n) }
#[verifier::opaque]
pub open spec fn tail_part(c: Seq<u8>, ds: Seq<u64>, w: int, m: int) -> bool {
    forall|i: int, j: int| 0 <= i < m && 0 <= j < w % 8 ==> lbit(c, tail_at(ds.len() as int, w) + i * (w % 8) + j) == #[trigger] l64(ds[i], j)
}
pub open spec fn wide(d: u64, w: int) -> bool { d >> (w as u64) == 0 }
#[verifier::opaque]
pub open spec fn w32(s: Seq<u8>, i: int) -> int { le32(s, i) }
pub open spec fn hdr(c: Seq<u8>, base: i64, n: int, w: int, f: int) -> bool {
    c.len() >= 20 && w32(c, 0) + 0x1_0000_0000 * w32(c, 4) == (base as u64) as int && w32(c, 8) == n && w32(c, 12) == w && w32(c, 16) == f
}
pub open spec fn in_i64(x: int) -> bool { -0x8000_0000_0000_0000 <= x < 0x8000_0000_0000_0000 }
/// c is the chunk of the deltas ds from base, of w bits each, with f fractional bits
#[verifier::opaque]
pub open spec fn chunk(c: Seq<u8>, ds: Seq<u64>, base: i64, w: int, f: int) -> bool {
    &&& hdr(c, base, ds.len() as int, w, f) && 0 <= w < 64 && ds.len() < 0x1_0000_0000 && 0 <= f < 64
    &&& forall|k: int| 0 <= k < w / 8 ==> #[trigger] col(c, ds, w, k)
    &&& tail_part(c, ds, w, ds.len() as int)
    &&& 8 * c.len() >= tail_at(ds.len() as int, w) + ds.len() * (w % 8)
    &&& c.len() < lim()
    &&& forall|i: int| 0 <= i < ds.len() ==> wide(#[trigger] ds[i], w) && in_i64(base + ds[i])
}
/// the base is the least value
pub open spec fn tight(ds: Seq<u64>) -> bool { ds.len() > 0 ==> exists|i: int| 0 <= i < ds.len() && #[trigger] ds[i] == 0 }
pub proof fn l8_ext(a: u8, b: u8)
    requires forall|k: int| 0 <= k < 8 ==> #[trigger] l8(a, k) == l8(b, k)
    ensures a == b
{
    assert(l8(a, 0) == l8(b, 0) && l8(a, 1) == l8(b, 1) && l8(a, 2) == l8(b, 2) && l8(a, 3) == l8(b, 3) && l8(a, 4) == l8(b, 4) && l8(a, 5) == l8(b, 5) && l8(a, 6) == l8(b, 6) && l8(a, 7) == l8(b, 7));
    assert(a == b) by (bit_vector) requires
        ((a >> 0u32) & 1u8 == 1u8) == ((b >> 0u32) & 1u8 == 1u8), ((a >> 1u32) & 1u8 == 1u8) == ((b >> 1u32) & 1u8 == 1u8),
        ((a >> 2u32) & 1u8 == 1u8) == ((b >> 2u32) & 1u8 == 1u8), ((a >> 3u32) & 1u8 == 1u8) == ((b >> 3u32) & 1u8 == 1u8),
        ((a >> 4u32) & 1u8 == 1u8) == ((b >> 4u32) & 1u8 == 1u8), ((a >> 5u32) & 1u8 == 1u8) == ((b >> 5u32) & 1u8 == 1u8),
        ((a >> 6u32) & 1u8 == 1u8) == ((b >> 6u32) & 1u8 == 1u8), ((a >> 7u32) & 1u8 == 1u8) == ((b >> 7u32) & 1u8 == 1u8);
}
/// packing at bit p leaves the bytes that end at or before p as they are
pub proof fn packed_keeps(d1: Seq<u8>, d2: Seq<u8>, p: int, n: int, v: u32, j: int)
    requires vpacked(d1, d2, p, n, v), 0 <= j < d1.len(), 8 * j + 8 <= p
    ensures d2[j] == d1[j]
{
    assert forall|k: int| 0 <= k < 8 implies #[trigger] l8(d2[j], k) == l8(d1[j], k) by { }
    l8_ext(d2[j], d1[j]);
}
/// a 32-bit write at the byte boundary at the end appends the little-endian bytes
pub broadcast proof fn packed_le32(d1: Seq<u8>, d2: Seq<u8>, p: int, v: u32)
    requires #[trigger] vpacked(d1, d2, p, 32, v), d2.len() == d1.len() + 4, p == 8 * d1.len()
    ensures w32(d2, d1.len() as int) == v, same(d1, d2, d1.len() as int)
{
    reveal(w32);
    let a = d1.len() as int;
    assert forall|j: int| 0 <= j < d1.len() implies #[trigger] d2[j] == d1[j] by { packed_keeps(d1, d2, p, 32, v, j); }
    let (b0, b1, b2, b3) = (d2[a], d2[a + 1], d2[a + 2], d2[a + 3]);
    let x = (b0 as u32) | ((b1 as u32) << 8u32) | ((b2 as u32) << 16u32) | ((b3 as u32) << 24u32);
    assert forall|i: int| 0 <= i < 32 implies l32(x, i) == l32(v, i) by {
        let q = i / 8; let k = i % 8;
        assert(l8(d2[a + q], k) == ((a + q < d1.len() && l8(d1[a + q], k)) || (p <= 8 * (a + q) + k < p + 32 && l32(v, 8 * (a + q) + k - p))));
        assert(8 * (a + q) + k - p == i);
        assert(l8(d2[a + q], k) == l32(v, i));
        assert(l32((b0 as u32) | ((b1 as u32) << 8u32) | ((b2 as u32) << 16u32), i) == (l32((b0 as u32) | ((b1 as u32) << 8u32), i) || l32((b2 as u32) << 16u32, i)));
    }
    u32_ext(x, v);
    assert(x == add(add(b0 as u32, mul(256u32, b1 as u32)), add(mul(65536u32, b2 as u32), mul(16777216u32, b3 as u32)))) by (bit_vector)
        requires x == (b0 as u32) | ((b1 as u32) << 8u32) | ((b2 as u32) << 16u32) | ((b3 as u32) << 24u32);
}
pub open spec fn same(c: Seq<u8>, d: Seq<u8>, n: int) -> bool { n <= c.len() && n <= d.len() && forall|j: int| 0 <= j < n ==> #[trigger] c[j] == d[j] }
pub broadcast proof fn le32_ext(c: Seq<u8>, d: Seq<u8>, n: int, i: int)
    requires #[trigger] same(c, d, n), 0 <= i, i + 4 <= n
    ensures #[trigger] w32(d, i) == w32(c, i)
{ reveal(w32); assert(c[i] == d[i] && c[i + 1] == d[i + 1] && c[i + 2] == d[i + 2] && c[i + 3] == d[i + 3]); }
pub proof fn keep_all(d1: Seq<u8>, d2: Seq<u8>, p: int, n: int, v: u32, m: int)
    requires vpacked(d1, d2, p, n, v), 0 <= m <= d1.len(), 8 * m <= p
    ensures same(d1, d2, m)
{ assert forall|j: int| 0 <= j < m implies #[trigger] d1[j] == d2[j] by { packed_keeps(d1, d2, p, n, v, j); } }
pub proof fn col_same(c: Seq<u8>, d: Seq<u8>, ds: Seq<u64>, w: int, k: int)
    requires 0 <= k, col(c, ds, w, k), same(c, d, 20 + (k + 1) * ds.len())
    ensures col(d, ds, w, k)
{
    reveal(col);
    assert(k * ds.len() >= 0 && (k + 1) * ds.len() == k * ds.len() + ds.len()) by (nonlinear_arith) requires k >= 0;
    assert forall|i: int| 0 <= i < ds.len() implies #[trigger] d[20 + k * ds.len() + i] == flip_s((ds[i] >> ((w - 8 * (k + 1)) as u64)) as u8) by {
        assert(c[20 + k * ds.len() + i] == d[20 + k * ds.len() + i]);
    }
}
pub proof fn cols_same(c: Seq<u8>, d: Seq<u8>, ds: Seq<u64>, w: int, m: int)
    requires 0 <= m, forall|k: int| 0 <= k < m ==> #[trigger] col(c, ds, w, k), same(c, d, 20 + m * ds.len())
    ensures forall|k: int| 0 <= k < m ==> #[trigger] col(d, ds, w, k)
{
    assert forall|k: int| 0 <= k < m implies #[trigger] col(d, ds, w, k) by {
        assert((k + 1) * ds.len() <= m * ds.len()) by (nonlinear_arith) requires k + 1 <= m;
        assert(same(c, d, 20 + (k + 1) * ds.len()));
        col_same(c, d, ds, w, k);
    }
}
#[verifier::opaque]
pub open spec fn clean(d: Seq<u8>, p: int) -> bool { forall|j: int, k: int| 0 <= j < d.len() && 0 <= k < 8 && 8 * j + k >= p ==> !#[trigger] l8(d[j], k) }
pub broadcast proof fn clean_end(d: Seq<u8>, p: int)
    requires 8 * d.len() <= p
    ensures #[trigger] clean(d, p)
{ reveal(clean); }
pub broadcast proof fn clean_push(d: Seq<u8>, p: int)
    requires 8 * d.len() <= p
    ensures #[trigger] clean(d.push(0u8), p)
{ reveal(clean); }
pub broadcast proof fn tail_none(c: Seq<u8>, ds: Seq<u64>, w: int)
    ensures #[trigger] tail_part(c, ds, w, 0)
{ reveal(tail_part); }
pub broadcast proof fn push_same(c: Seq<u8>, x: u8)
    ensures same(c, #[trigger] c.push(x), c.len() as int)
{ }
pub broadcast proof fn col_push(c: Seq<u8>, x: u8, ds: Seq<u64>, w: int, k: int)
    requires 0 <= k, col(c, ds, w, k), 20 + (k + 1) * ds.len() <= c.len()
    ensures #[trigger] col(c.push(x), ds, w, k)
{ col_same(c, c.push(x), ds, w, k); }
// ---- reading
pub open spec fn is_chunk(c: Seq<u8>, t: (Seq<u64>, i64, int, int)) -> bool { chunk(c, t.0, t.1, t.2, t.3) }
pub open spec fn valid(c: Seq<u8>) -> bool { exists|t: (Seq<u64>, i64, int, int)| #[trigger] is_chunk(c, t) }
/// the deltas, base, bits per delta and fractional bits of a chunk
#[verifier::opaque]
pub open spec fn content(c: Seq<u8>) -> (Seq<u64>, i64, int, int) { choose|t: (Seq<u64>, i64, int, int)| #[trigger] is_chunk(c, t) }
pub proof fn content_is(c: Seq<u8>)
    requires valid(c)
    ensures chunk(c, content(c).0, content(c).1, content(c).2, content(c).3)
{ reveal(content); assert(is_chunk(c, content(c))); }
/// the low s bits cleared
pub open spec fn top(d: u64, s: int) -> u64 { (d >> (s as u64)) << (s as u64) }
pub proof fn top_first(d: u64, s: int)
    requires 0 <= s <= 55, wide(d, s + 8)
    ensures forall|r: u8, y: u64| r == (d >> (s as u64)) as u8 && y == s ==> #[trigger] ((r as u64) << y) == top(d, s)
{
    let y = s as u64; let z = (s + 8) as u64;
    assert((((d >> y) as u8) as u64) << y == (d >> y) << y) by (bit_vector) requires d >> z == 0, z == add(y, 8), y <= 55;
}
pub proof fn top_next(d: u64, s: int)
    requires 0 <= s <= 55
    ensures forall|r: u8, y: u64| r == (d >> (s as u64)) as u8 && y == s ==> top(d, s + 8) | #[trigger] ((r as u64) << y) == top(d, s)
{
    let y = s as u64; let z = (s + 8) as u64;
    assert(((d >> z) << z) | ((((d >> y) as u8) as u64) << y) == (d >> y) << y) by (bit_vector) requires z == add(y, 8), y <= 55;
}
pub proof fn top_zero(d: u64)
    ensures top(d, 0) == d
{ assert((d >> 0u64) << 0u64 == d) by (bit_vector); }
/// v holds the low r bits of d
pub proof fn low_is(d: u64, r: int, v: u32)
    requires 0 <= r < 8, forall|j: int| 0 <= j < 32 ==> #[trigger] l32(v, j) == (j < r && l64(d, j))
    ensures top(d, r) | (v as u64) == d, v == d % (1u64 << (r as u64)), r == 0 ==> v == 0
{
    let n = r as u32; let m = sub(1u32 << n, 1); let x = (d as u32) & m;
    one_shl_u32(n);
    assert forall|j: int| 0 <= j < 32 implies l32(x, j) == l32(v, j) by {
        l32_mask_u(n, j);
        assert(l32(x, j) == (l32(d as u32, j) && l32(m, j)));
        let s = j as u64; let s32 = j as u32; let u = d as u32;
        assert(((d >> s) & 1u64 == 1u64) == ((u >> s32) & 1u32 == 1u32)) by (bit_vector) requires u == d as u32, s == s32 as u64, s32 < 32;
    }
    u32_ext(x, v);
    let y = r as u64;
    assert(((d >> y) << y) | (x as u64) == d) by (bit_vector) requires x == (d as u32) & sub(1u32 << n, 1), y == n as u64, n < 8;
    assert(x == d % (1u64 << y) && 1u64 << y != 0) by (bit_vector) requires x == (d as u32) & sub(1u32 << n, 1), y == n as u64, n < 8;
    if r == 0 { assert(x == 0) by (bit_vector) requires x == (d as u32) & sub(1u32 << n, 1), n == 0; }
}
/// the bits read at the tail position of record i complete its delta
pub proof fn tail_val(c: Seq<u8>, ds: Seq<u64>, base: i64, w: int, f: int, i: int)
    requires chunk(c, ds, base, w, f), 0 <= i < ds.len()
    ensures forall|v: u32| #[trigger] is_lvalue(c, tail_at(ds.len() as int, w) + i * (w % 8), w % 8, v) ==> top(ds[i], w % 8) | (v as u64) == ds[i] && v == ds[i] % (1u64 << ((w % 8) as u64)) && (w < 8 ==> v as u64 == ds[i]),
        i * (w % 8) + w % 8 == (i + 1) * (w % 8), (i + 1) * (w % 8) <= ds.len() * (w % 8), 0 <= i * (w % 8),
        tail_at(ds.len() as int, w) + (i + 1) * (w % 8) <= 8 * c.len(), wide(ds[i], w), in_i64(base + ds[i]),
        ds[i] < 0x8000_0000_0000_0000
{
    reveal(chunk);
    let r = w % 8;
    assert(i * r + r == (i + 1) * r && (i + 1) * r <= ds.len() * r && 0 <= i * r) by (nonlinear_arith) requires 0 <= i < ds.len(), 0 <= r;
    let d = ds[i];
    let wu = w as u64;
    assert(wide(d, w));
    assert(d < 0x8000_0000_0000_0000u64) by (bit_vector) requires d >> wu == 0, wu < 64;
    assert forall|v: u32| #[trigger] is_lvalue(c, tail_at(ds.len() as int, w) + i * (w % 8), w % 8, v) implies top(ds[i], w % 8) | (v as u64) == ds[i] && v == ds[i] % (1u64 << ((w % 8) as u64)) && (w < 8 ==> v as u64 == ds[i]) by {
        reveal(tail_part);
        assert forall|j: int| 0 <= j < 32 implies #[trigger] l32(v, j) == (j < r && l64(d, j)) by {
            if j < r { assert(lbit(c, tail_at(ds.len() as int, w) + i * (w % 8) + j) == l64(ds[i], j)); }
        }
        low_is(d, r, v);
        if w < 8 {
            let x = v as u64;
            assert(x == d) by (bit_vector) requires d >> wu == 0, ((d >> wu) << wu) | x == d;
        }
    }
}
/// a chunk determines its deltas
pub proof fn top_eq(c: Seq<u8>, ds: Seq<u64>, es: Seq<u64>, w: int, i: int, k: int)
    requires 0 <= w < 64, ds.len() == es.len(), 0 <= i < ds.len(), 0 <= k <= w / 8, wide(ds[i], w), wide(es[i], w),
        forall|k: int| 0 <= k < w / 8 ==> #[trigger] col(c, ds, w, k), forall|k: int| 0 <= k < w / 8 ==> #[trigger] col(c, es, w, k),
    ensures ds[i] >> ((w - 8 * k) as u64) == es[i] >> ((w - 8 * k) as u64)
    decreases k
{
    if k > 0 {
        top_eq(c, ds, es, w, i, k - 1);
        assert(col(c, ds, w, k - 1) && col(c, es, w, k - 1));
        reveal(col);
        let q = k - 1;
        let (d, e) = (ds[i], es[i]);
        let y = (w - 8 * k) as u64; let z = (w - 8 * (k - 1)) as u64;
        assert(c[20 + q * ds.len() + i] == flip_s((d >> y) as u8));
        assert(c[20 + q * es.len() + i] == flip_s((e >> y) as u8));
        assert(d >> y == e >> y) by (bit_vector) requires d >> z == e >> z, z == add(y, 8), y < 56, ((d >> y) as u8) ^ 0x80u8 == ((e >> y) as u8) ^ 0x80u8;
    }
}
pub proof fn unique(c: Seq<u8>, ds: Seq<u64>, base: i64, w: int, f: int, es: Seq<u64>, b2: i64, w2: int, f2: int)
    requires chunk(c, ds, base, w, f), chunk(c, es, b2, w2, f2)
    ensures ds == es, base == b2, w == w2, f == f2
{
    reveal(chunk);
    let (x, y) = (base as u64, b2 as u64);
    assert(x == y);
    assert(base == b2) by (bit_vector) requires base as u64 == b2 as u64;
    assert forall|i: int| 0 <= i < ds.len() implies ds[i] == es[i] by {
        assert(wide(ds[i], w) && wide(es[i], w));
        top_eq(c, ds, es, w, i, w / 8);
        reveal(tail_part);
        let r = w % 8;
        let (d, e) = (ds[i], es[i]);
        assert forall|j: int| 0 <= j < r implies #[trigger] l64(d, j) == l64(e, j) by {
            assert(lbit(c, tail_at(ds.len() as int, w) + i * (w % 8) + j) == l64(ds[i], j));
            assert(lbit(c, tail_at(es.len() as int, w) + i * (w % 8) + j) == l64(es[i], j));
        }
        assert(r > 0 ==> l64(d, 0) == l64(e, 0)); assert(r > 1 ==> l64(d, 1) == l64(e, 1)); assert(r > 2 ==> l64(d, 2) == l64(e, 2)); assert(r > 3 ==> l64(d, 3) == l64(e, 3));
        assert(r > 4 ==> l64(d, 4) == l64(e, 4)); assert(r > 5 ==> l64(d, 5) == l64(e, 5)); assert(r > 6 ==> l64(d, 6) == l64(e, 6));
        let s = r as u64;
        assert(d == e) by (bit_vector) requires d >> s == e >> s, s < 8,
            s > 0 ==> ((d >> 0) & 1 == 1) == ((e >> 0) & 1 == 1), s > 1 ==> ((d >> 1) & 1 == 1) == ((e >> 1) & 1 == 1), s > 2 ==> ((d >> 2) & 1 == 1) == ((e >> 2) & 1 == 1),
            s > 3 ==> ((d >> 3) & 1 == 1) == ((e >> 3) & 1 == 1), s > 4 ==> ((d >> 4) & 1 == 1) == ((e >> 4) & 1 == 1), s > 5 ==> ((d >> 5) & 1 == 1) == ((e >> 5) & 1 == 1),
            s > 6 ==> ((d >> 6) & 1 == 1) == ((e >> 6) & 1 == 1);
    }
    assert(ds =~= es);
}
} // mod bl
