"""Theory of the payload: the blocks of all levels and what becomes of the samples (C12 - C16)."""

GRID = r'''
use vstd::arithmetic::power2::*;
// ---------------------------------------------------------------- levels
pub open spec fn p2(k: int) -> int { pow2(k as nat) as int }
pub open spec fn nch(h: Header) -> int { h.layers * h.channels }
pub open spec fn down(x: int, d: int) -> int { cdiv(x, p2(d)) }
/// the blocks of the level whose samples have distance 2^e, seen in the image scaled down by 2^d
pub open spec fn lv(h: Header, d: int, e: int) -> Lay {
    Lay { w: down(h.width as int, d), h: down(h.height as int, d), b: p2(e - d + h.block_size), n: nch(h), s: p2(e - d) }
}
/// the coarsest level
pub open spec fn small(h: Header, e: int) -> bool { 2 * p2(e) >= h.width && 2 * p2(e) >= h.height }
pub open spec fn top(h: Header, e: int) -> int decreases 40 - e { if e >= 29 || small(h, e) { e } else { top(h, e + 1) } }
pub open spec fn e0(h: Header) -> int { top(h, 0) }
/// number of blocks of a level
pub open spec fn nb(h: Header, e: int) -> int { total(lv(h, 0, e)) }
/// whether a block begins with the first sample of its channel
pub open spec fn dcf(h: Header, d: int, e: int, k: int) -> bool { e == e0(h) && bcol(lv(h, d, e), k) == 0 && brow(lv(h, d, e), k) == 0 }
pub proof fn lemma_p2(a: int, b: int)
    requires 0 <= a, 0 <= b,
    ensures p2(a) >= 1, p2(b) >= 1, p2(a + b) == p2(a) * p2(b), p2(a + 1) == 2 * p2(a), p2(0) == 1, p2(2) == 4, a <= b ==> p2(a) <= p2(b),
        p2(29) == 0x2000_0000, p2(30) == 0x4000_0000, p2(11) == 2048, p2(10) == 1024,
{
    lemma_pow2_pos(a as nat); lemma_pow2_pos(b as nat); lemma_pow2_adds(a as nat, b as nat); lemma_pow2_adds(a as nat, 1); lemma2_to64(); lemma2_to64_rest();
    if a < b { lemma_pow2_strictly_increases(a as nat, b as nat); }
}
/// shifts of powers of two
pub proof fn lemma_shl(e: usize, k: usize)
    requires e + k < 64,
    ensures (1usize << e) == p2(e as int), ((1usize << e) << k) == p2(e + k), (p2(e as int) as usize) << k == p2(e + k), p2(e + k) <= usize::MAX,
{
    vstd::bits::lemma_usize_pow2_no_overflow(e as nat); vstd::bits::lemma_usize_pow2_no_overflow((e + k) as nat);
    vstd::bits::lemma_usize_shl_is_mul(1, e);
    lemma_p2(e as int, k as int);
    vstd::bits::lemma_usize_shl_is_mul(p2(e as int) as usize, k);
}
pub proof fn lemma_shr(e: usize, k: usize)
    requires e < 64, k < 64,
    ensures k <= e ==> (p2(e as int) as usize) >> k == p2(e - k), k > e ==> (p2(e as int) as usize) >> k == 0,
{
    vstd::bits::lemma_usize_pow2_no_overflow(e as nat); vstd::bits::lemma_usize_pow2_no_overflow(k as nat);
    vstd::bits::lemma_usize_shr_is_div(p2(e as int) as usize, k);
    let x = p2(e as int); let y = p2(k as int);
    lemma_p2(e as int, k as int);
    if k <= e { let z = p2(e - k); lemma_p2(e - k, k as int); assert(x == z * y); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(z, y); assert((z * y) / y == z) by (nonlinear_arith) requires y > 0; }
    else { lemma_p2(e + 1, k as int); vstd::arithmetic::div_mod::lemma_basic_div(x, y); }
}
pub proof fn lemma_pw2(e: int) requires 0 <= e < 30, ensures pw(p2(e)), 1 <= p2(e) <= 0x2000_0000,
{ lemma_shl(e as usize, 0); let k = e as usize; assert(p2(e) == 1usize << k); lemma_p2(e, 29); }
pub proof fn lemma_top(h: Header, e: int)
    requires 0 <= e <= 29, hok(h),
    ensures e <= top(h, e) <= 29, small(h, top(h, e)),
    decreases 40 - e,
{ lemma_p2(e, 29); lemma_p2(29, 0); if !(e >= 29 || small(h, e)) { lemma_top(h, e + 1); } }
/// rounding up twice
pub proof fn lemma_down2(x: int, a: int, b: int)
    requires x > 0, a > 0, b > 0,
    ensures cdiv(cdiv(x, a), b) == cdiv(x, a * b), cdiv(x, a) >= 1, cdiv(x, a) <= x, cdiv(x, 1) == x, a * b > 0,
{
    assert(a * b > 0) by (nonlinear_arith) requires a > 0, b > 0;
    let q = cdiv(x, a);
    lemma_cdiv(x, a, 0); lemma_cdiv(x, 1, x); lemma_cdiv(x, 1, x - 1); lemma_cdiv(x, a, x);
    assert(x * a >= x) by (nonlinear_arith) requires x > 0, a >= 1;
    let u = cdiv(q, b); let v = cdiv(x, a * b);
    lemma_cdiv(q, b, u); lemma_cdiv(q, b, u - 1); lemma_cdiv(x, a * b, v); lemma_cdiv(x, a * b, v - 1);
    // u b >= q, (u - 1) b < q; v a b >= x, (v - 1) a b < x
    lemma_cdiv(x, a, u * b); lemma_cdiv(x, a, (u - 1) * b);
    assert(u * b * a == u * (a * b)) by (nonlinear_arith);
    assert((u - 1) * b * a == (u - 1) * (a * b)) by (nonlinear_arith);
    lemma_cdiv(x, a * b, u); lemma_cdiv(x, a * b, u - 1);
}
/// a level: the same blocks in the image and in the image scaled down
pub proof fn lemma_lv(h: Header, d: int, e: int)
    requires hok(h), 0 <= d <= e <= e0(h),
    ensures lay_ok(lv(h, d, e)), nx(lv(h, d, e)) == nx(lv(h, 0, e)), ny(lv(h, d, e)) == ny(lv(h, 0, e)), total(lv(h, d, e)) == nb(h, e),
        0 <= e <= 29, lv(h, 0, e).w == h.width, lv(h, 0, e).h == h.height, nb(h, e) * 4 <= usize::MAX, 1 <= nb(h, e), 1 <= nch(h),
        lv(h, d, e).n * (lv(h, d, e).w * lv(h, d, e).h) <= usize::MAX, lv(h, d, e).w <= h.width, lv(h, d, e).h <= h.height,
        nb(h, e) == nx(lv(h, 0, e)) * ny(lv(h, 0, e)) * h.layers * h.channels, 1 <= nx(lv(h, 0, e)), 1 <= ny(lv(h, 0, e)), nx(lv(h, 0, e)) * ny(lv(h, 0, e)) <= usize::MAX, nx(lv(h, 0, e)) * ny(lv(h, 0, e)) * h.layers <= usize::MAX, lv(h, d, e).b >= 4 * lv(h, d, e).s,
{
    lemma_top(h, 0);
    let w = h.width as int; let t = h.height as int; let bl = h.block_size as int; let n = nch(h);
    let l = lv(h, d, e); let f = lv(h, 0, e);
    lemma_p2(d, e - d + bl); lemma_p2(e - d, bl); lemma_p2(e - d, 29); lemma_p2(d, e - d); lemma_p2(e - d + bl, 59); lemma_p2(e + bl, 59); lemma_p2(29, 30); lemma_p2(e, bl); lemma_p2(bl, 2); lemma_p2(2, bl);
    lemma_p2(e, 2);
    lemma_pw2(e - d);
    assert(d + (e - d + bl) == e + bl);
    lemma_down2(w, p2(d), p2(e - d + bl)); lemma_down2(t, p2(d), p2(e - d + bl)); lemma_down2(w, 1, 1); lemma_down2(t, 1, 1);
    assert(p2(59) == 0x2000_0000 * 0x4000_0000);
    // the block size is a multiple of 2 s
    let q = p2(bl);
    assert(l.b == l.s * q);
    lemma_p2(bl - 2, 2); let z = p2(bl - 2);
    assert(q == z * 4);
    assert(l.b == (2 * l.s) * (2 * z)) by (nonlinear_arith) requires l.b == l.s * q, q == z * 4;
    assert(l.b >= 4 * l.s) by (nonlinear_arith) requires l.b == l.s * q, q == z * 4, z >= 1, l.s >= 1;
    reveal(mult); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(2 * z, 2 * l.s);
    assert((2 * z) * (2 * l.s) == (2 * l.s) * (2 * z)) by (nonlinear_arith);
    // sizes
    assert(n >= 1) by (nonlinear_arith) requires n == h.layers * h.channels, h.layers >= 1, h.channels >= 1;
    assert(n <= 65535 * 65535) by (nonlinear_arith) requires n == h.layers * h.channels, h.layers <= 65535, h.channels <= 65535;
    assert(l.w * l.h <= w * t) by (nonlinear_arith) requires 0 <= l.w <= w, 0 <= l.h <= t;
    assert(n * (w * t) == w * t * h.layers * h.channels) by (nonlinear_arith) requires n == h.layers * h.channels;
    assert(n * (l.w * l.h) <= n * (w * t)) by (nonlinear_arith) requires l.w * l.h <= w * t, n >= 0;
    let a = nx(f); let b = ny(f);
    lemma_cdiv(w, f.b, 0); lemma_cdiv(t, f.b, 0);
    lemma_cdiv(w, f.b, a - 1); lemma_cdiv(t, f.b, b - 1);
    assert(f.b >= 4) by (nonlinear_arith) requires f.b == p2(e) * q, q == z * 4, z >= 1, p2(e) >= 1;
    assert((a - 1) * f.b >= 4 * (a - 1)) by (nonlinear_arith) requires f.b >= 4, a >= 1;
    assert((b - 1) * f.b >= 4 * (b - 1)) by (nonlinear_arith) requires f.b >= 4, b >= 1;
    let c = a * b; let m = b * a;
    assert(c == m && c >= 1) by (nonlinear_arith) requires c == a * b, m == b * a, a >= 1, b >= 1;
    assert(4 * c * n <= usize::MAX) by {
        if a == 1 { assert(c == b) by (nonlinear_arith) requires c == a * b, a == 1; assert(4 * c * n <= 4 * 0x1000_0000 * (65535 * 65535)) by (nonlinear_arith) requires 1 <= c <= 0x1000_0000, 1 <= n <= 65535 * 65535; }
        else if b == 1 { assert(c == a) by (nonlinear_arith) requires c == a * b, b == 1; assert(4 * c * n <= 4 * 0x1000_0000 * (65535 * 65535)) by (nonlinear_arith) requires 1 <= c <= 0x1000_0000, 1 <= n <= 65535 * 65535; }
        else {
            assert(2 * a <= w && 2 * b <= t);
            assert(4 * c <= w * t) by (nonlinear_arith) requires c == a * b, 0 <= 2 * a <= w, 0 <= 2 * b <= t;
            assert(4 * c * n <= n * (w * t)) by (nonlinear_arith) requires 4 * c <= w * t, n >= 0;
        }
    }
    assert(n * m == c * h.layers * h.channels && n * m * 4 == 4 * c * n) by (nonlinear_arith) requires n == h.layers * h.channels, c == m;
    assert(n * m >= 1) by (nonlinear_arith) requires n >= 1, m >= 1;
    assert(c * h.layers >= c) by (nonlinear_arith) requires c >= 1, h.layers >= 1;
    assert(c * h.layers * h.channels >= c * h.layers) by (nonlinear_arith) requires c * h.layers >= 1, h.channels >= 1;
}
/// the next level has at most four times the blocks
pub proof fn lemma_four(h: Header, e: int)
    requires hok(h), 1 <= e <= e0(h),
    ensures nb(h, e - 1) <= 4 * nb(h, e),
{
    lemma_lv(h, 0, e); lemma_lv(h, 0, e - 1);
    let f = lv(h, 0, e); let g = lv(h, 0, e - 1);
    lemma_p2(e - 1 + h.block_size, 1);
    assert(f.b == 2 * g.b);
    let a = nx(f); let b = ny(f); let c = nx(g); let d = ny(g);
    lemma_cdiv(f.w, f.b, a); lemma_cdiv(f.h, f.b, b);
    assert((2 * a) * g.b == a * f.b && (2 * b) * g.b == b * f.b) by (nonlinear_arith) requires f.b == 2 * g.b;
    lemma_cdiv(g.w, g.b, 2 * a); lemma_cdiv(g.h, g.b, 2 * b);
    assert(c <= 2 * a && d <= 2 * b);
    assert(d * c <= (2 * b) * (2 * a)) by (nonlinear_arith) requires 1 <= c <= 2 * a, 1 <= d <= 2 * b;
    assert((2 * b) * (2 * a) == 4 * (b * a)) by (nonlinear_arith);
    let n = nch(h); let u = d * c; let v = b * a;
    assert(n * u <= 4 * (n * v)) by (nonlinear_arith) requires u <= 4 * v, n >= 0;
}
'''

BYTES = r'''
// ---------------------------------------------------------------- bytes and words
pub open spec fn le4(b: Seq<u8>, i: int) -> int { b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 0x100_0000 * b[i + 3] }
/// little-endian words of whole bytes
pub open spec fn words_of(b: Seq<u8>) -> Seq<u32> { Seq::new((b.len() / 4) as nat, |i: int| le4(b, 4 * i) as u32) }
pub proof fn lemma_words(b: Seq<u8>)
    requires b.len() >= 4,
    ensures words_of(b).len() > 0, words_of(b)[0] == le4(b, 0), words_of(b.skip(4)) =~= words_of(b).skip(1), 0 <= le4(b, 0) <= u32::MAX,
{
    assert forall|i: int| 0 <= i < words_of(b.skip(4)).len() implies words_of(b.skip(4))[i] == words_of(b).skip(1)[i] by { assert(4 * i + 4 == 4 * (i + 1)); }
}
/// the table at position p: sizes in bytes, and where the blocks begin
pub open spec fn sz(b: Seq<u8>, p: int, k: int) -> int { 4 * le4(b, p + 4 * k) }
pub open spec fn ssum(b: Seq<u8>, p: int, k: int) -> int decreases k { if k <= 0 { 0 } else { ssum(b, p, k - 1) + sz(b, p, k - 1) } }
pub open spec fn off(b: Seq<u8>, p: int, n: int, k: int) -> int { p + 4 * n + ssum(b, p, k) }
pub proof fn lemma_ssum(b: Seq<u8>, p: int, j: int, k: int)
    requires 0 <= j <= k,
    ensures 0 <= ssum(b, p, j) <= ssum(b, p, k) <= k * 0x4_0000_0000, j < k ==> ssum(b, p, j + 1) <= ssum(b, p, k),
    decreases k,
{
    assert(forall|i: int| 0 <= #[trigger] sz(b, p, i) <= 0x4_0000_0000);
    if k > 0 {
        assert(0 <= sz(b, p, k - 1) <= 0x4_0000_0000);
        if j < k { lemma_ssum(b, p, j, k - 1); } else { lemma_ssum(b, p, j - 1, k - 1); }
    }
}
/// the sizes depend on the table alone
pub proof fn lemma_ssum_same(a: Seq<u8>, b: Seq<u8>, p: int, k: int)
    requires forall|i: int| p <= i < p + 4 * k ==> a[i] == b[i],
    ensures ssum(a, p, k) == ssum(b, p, k),
    decreases k,
{ if k > 0 { lemma_ssum_same(a, b, p, k - 1); assert(sz(a, p, k - 1) == sz(b, p, k - 1)); } }
/// the words hold these bits, the last one is filled up with zeros
pub open spec fn holds_bits(w: Seq<u32>, bits: Seq<bool>) -> bool {
    &&& bits.len() <= 32 * w.len() < bits.len() + 32
    &&& wbits(w) =~= bits + zeros(32 * w.len() - bits.len())
}
'''

PAY = r'''
// ---------------------------------------------------------------- the payload
pub open spec fn cq(h: Header) -> int { let v = (h.quality + h.chroma_scale / 2) / (h.chroma_scale as int); if v < 1 { 1 } else { v } }
pub open spec fn bq(h: Header, chroma: bool) -> int { if chroma { cq(h) } else { h.quality as int } }
/// Turbo compares the quality with the distance of the samples, which is smaller in an image scaled down
pub open spec fn tq(q: int, d: int) -> int { if q * p2(if d < 11 { d } else { 11 }) < 2048 { q * p2(if d < 11 { d } else { 11 }) } else { 2048 } }
pub open spec fn cfg(h: Header, chroma: bool, d: int) -> Cf { Cf { sch: h.encoder, q: if h.encoder is Turbo { tq(bq(h, chroma), d) } else { bq(h, chroma) }, chroma: chroma } }
/// the code of block k of a level
pub open spec fn blkb(h: Header, isc: Seq<bool>, d: int, e: int, k: int, im: Seq<i16>) -> Seq<bool> {
    block(bgeo(lv(h, d, e), k), im, cfg(h, isc[chan(lv(h, d, e), k)], d), dcf(h, d, e, k))
}
/// the part of the payload from level e on that is there: tables that are complete, blocks that are complete
pub open spec fn lev_ok(b: Seq<u8>, p: int, h: Header, isc: Seq<bool>, d: int, e: int, im: Seq<i16>) -> bool {
    let n = nb(h, e);
    forall|k: int| 0 <= k < n && off(b, p, n, k + 1) <= b.len() ==> holds_bits(words_of(b.subrange(off(b, p, n, k), off(b, p, n, k + 1))), #[trigger] blkb(h, isc, d, e, k, im))
}
pub open spec fn part(b: Seq<u8>, p: int, h: Header, isc: Seq<bool>, d: int, e: int, im: Seq<i16>) -> bool decreases e - d + 1 {
    e < d || p + 4 * nb(h, e) > b.len() || lev_ok(b, p, h, isc, d, e, im) && part(b, off(b, p, nb(h, e), nb(h, e)), h, isc, d, e - 1, im)
}
/// what a decoder finds that looks at the tables only: None: too short; 0: complete; otherwise where to go on
pub open spec fn scan(b: Seq<u8>, p: int, poi: int, h: Header, d: int, e: int) -> Option<int> decreases e - d + 1 {
    let n = nb(h, e); let q = off(b, p, n, n);
    if e < d { Some(0) }
    else if p > b.len() { None }
    else if p + 4 * n > b.len() { Some(poi) }
    else if e <= d { if q <= b.len() { Some(0) } else { Some(q) } }
    else { scan(b, q, q + 16 * n, h, d, e - 1) }
}
/// where level e begins
pub open spec fn pos(b: Seq<u8>, h: Header, e: int) -> int decreases e0(h) - e { if e >= e0(h) { 0 } else { off(b, pos(b, h, e + 1), nb(h, e + 1), nb(h, e + 1)) } }
pub open spec fn present(b: Seq<u8>, h: Header, e: int, k: int) -> bool { pos(b, h, e) + 4 * nb(h, e) <= b.len() && off(b, pos(b, h, e), nb(h, e), k + 1) <= b.len() }
'''
