"""src/compress/mod.rs: the transforms around the payload, channel by channel (C01, C13), over the contracts of lifting and quantization."""
import re
from extract import Unit, Fn, stubs, proved
from units import header as H, header_common as HC, payload as P, quant as Q, lift_common as LC
from units.lifting_theory import BASE, lifted, renamed
F = 'src/compress/mod.rs'
PIECES = r'''
// ---------------------------------------------------------------- pieces of a slice
/// slice::chunks_mut
pub struct VxPieces<'a> { pub rest: &'a mut [i16], pub n: usize }
impl<'a> VxPieces<'a> {
    pub open spec fn cur(&self) -> Seq<i16> { self.rest@ }
    /// what will be there when all is done
    #[verifier::prophetic] pub open spec fn fin(&self) -> Seq<i16> { final(self.rest)@ }
    pub fn more(&self) -> (r: bool) ensures r == (self.cur().len() > 0) { self.rest.len() > 0 }
    pub fn get(&mut self) -> (c: &'a mut [i16])
        requires old(self).n > 0, old(self).cur().len() > 0,
        ensures final(self).n == old(self).n,
            c@.len() == (if old(self).cur().len() < old(self).n { old(self).cur().len() as int } else { old(self).n as int }),
            c@ == old(self).cur().take(c@.len() as int), final(self).cur() == old(self).cur().skip(c@.len() as int),
            old(self).fin() == final(c)@ + final(self).fin(),
    {
        let mut s: &mut [i16] = &mut [];
        std::mem::swap(&mut self.rest, &mut s);
        let m = if s.len() < self.n { s.len() } else { self.n };
        let (a, b) = s.split_at_mut(m);
        self.rest = b;
        a
    }
}
/// a chunk size of 0 panics
pub fn vx_pieces<'a>(s: &'a mut [i16], n: usize) -> (r: VxPieces<'a>)
    requires n > 0,
    ensures r.n == n, r.cur() == old(s)@, r.fin() == final(s)@,
{ VxPieces { rest: s, n: n } }
/// one behind the other
pub open spec fn cat(g: Seq<Seq<i16>>) -> Seq<i16> decreases g.len() { if g.len() == 0 { seq![] } else { cat(g.drop_last()) + g.last() } }
pub proof fn lemma_cat_push(g: Seq<Seq<i16>>, x: Seq<i16>, r: Seq<i16>)
    ensures cat(g.push(x)) == cat(g) + x, cat(g) + (x + r) == cat(g.push(x)) + r,
{
    assert(g.push(x).drop_last() =~= g);
    assert(cat(g) + (x + r) =~= (cat(g) + x) + r);
}
pub proof fn lemma_view_push(r: Seq<&mut [i16]>, q: Seq<&mut [i16]>)
    requires q.len() == r.len() + 1, forall|i: int| 0 <= i < r.len() ==> q[i] == r[i],
    ensures vw(q) == vw(r).push(q.last()@), vf(q) == vf(r).push(final(q.last())@),
{ assert(vw(q) =~= vw(r).push(q.last()@)); assert(vf(q) =~= vf(r).push(final(q.last())@)); }
pub proof fn lemma_strict(k: int, j: int, m: int)
    requires k * m < j * m, j * m < k * m + m, m > 0,
    ensures false,
{
    if j <= k { assert(j * m <= k * m) by (nonlinear_arith) requires j <= k, m > 0; }
    else { assert(j * m >= (k + 1) * m) by (nonlinear_arith) requires j >= k + 1, m > 0; assert((k + 1) * m == k * m + m) by (nonlinear_arith); }
}
/// chunks_mut(n).collect()
pub fn vx_rows<'a>(s: &'a mut [i16], n: usize) -> (r: Vec<&'a mut [i16]>)
    requires n > 0,
    ensures cat(vw(r@)) == old(s)@, cat(vf(r@)) == final(s)@,
        old(s).len() as int % n as int == 0 ==> rect(vw(r@), n as int) && r@.len() * n == old(s).len(),
{
    let ghost s0 = s@; let ghost whole = s0.len() as int % n as int == 0; let ghost m = n as int;
    let mut c = vx_pieces(s, n);
    let ghost fin = c.fin();
    let mut r: Vec<&'a mut [i16]> = Vec::new();
    proof { assert(vw(r@) =~= seq![]); assert(vf(r@) =~= seq![]); assert(cat(vw(r@)) + c.cur() =~= s0); assert(cat(vf(r@)) + c.fin() =~= fin); assert(0 * m == 0); }
    while c.more()
        invariant n > 0, c.n == n, m == n, cat(vw(r@)) + c.cur() == s0, cat(vf(r@)) + c.fin() == fin, whole == (s0.len() as int % m == 0),
            whole ==> rect(vw(r@), m) && r@.len() * m + c.cur().len() == s0.len(),
        decreases c.cur().len(),
    {
        let ghost r0 = r@; let ghost c0 = c.cur();
        let p = c.get();
        let ghost pv = p@; let ghost pf = final(p)@;
        proof {
            lemma_cat_push(vw(r0), pv, c.cur()); lemma_cat_push(vf(r0), pf, c.fin());
            assert(pv + c.cur() =~= c0);
            if whole {
                let k = r0.len() as int;
                if c0.len() < m {
                    let z = s0.len() as int;
                    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z, m);
                    let j = z / m;
                    assert(k * m < j * m && j * m < k * m + m) by (nonlinear_arith) requires z == m * j + 0, k * m + c0.len() == z, 0 < c0.len() < m;
                    lemma_strict(k, j, m);
                }
                assert((k + 1) * m == k * m + m) by (nonlinear_arith);
            }
        }
        r.push(p);
        proof {
            lemma_view_push(r0, r@);
            if whole { assert forall|y: int| 0 <= y < vw(r@).len() implies (#[trigger] vw(r@)[y]).len() == m by { if y < r0.len() { assert(vw(r@)[y] == vw(r0)[y]); } } }
        }
    }
    proof { assert(has_resolved(c)); assert(c.cur().len() == 0); assert(c.fin() =~= seq![]); assert(cat(vw(r@)) + c.cur() =~= cat(vw(r@))); assert(cat(vf(r@)) + c.fin() =~= cat(vf(r@))); }
    r
}
'''
THEORY = r'''
// ---------------------------------------------------------------- channels
/// the rows of a channel
pub open spec fn rows(s: Seq<i16>, w: int) -> Seq<Seq<i16>> { Seq::new((s.len() / w as nat) as nat, |y: int| s.subrange(y * w, y * w + w)) }
pub proof fn lemma_cat_len(g: Seq<Seq<i16>>, w: int)
    requires rect(g, w), w >= 0,
    ensures cat(g).len() == g.len() * w,
    decreases g.len(),
{
    if g.len() > 0 { lemma_cat_len(g.drop_last(), w); let n = g.len() as int; assert((n - 1) * w + w == n * w) by (nonlinear_arith); } else { assert(0 * w == 0); }
}
pub proof fn lemma_cat_at(g: Seq<Seq<i16>>, w: int, y: int)
    requires rect(g, w), w > 0, 0 <= y < g.len(),
    ensures y * w >= 0, y * w + w <= cat(g).len(), cat(g).subrange(y * w, y * w + w) == g[y],
    decreases g.len(),
{
    lemma_cat_len(g, w); lemma_cat_len(g.drop_last(), w);
    let n = g.len() as int; let d = g.drop_last();
    assert(y * w >= 0 && y * w + w <= n * w) by (nonlinear_arith) requires 0 <= y, y + 1 <= n, w > 0;
    assert((n - 1) * w + w == n * w) by (nonlinear_arith);
    if y < n - 1 {
        lemma_cat_at(d, w, y);
        assert(y * w + w <= (n - 1) * w) by (nonlinear_arith) requires y + 1 <= n - 1, w > 0;
        assert(cat(g).subrange(y * w, y * w + w) =~= cat(d).subrange(y * w, y * w + w));
    } else { assert(cat(g).subrange(y * w, y * w + w) =~= g[y]); }
}
pub proof fn lemma_rows_cat(g: Seq<Seq<i16>>, w: int)
    requires rect(g, w), w > 0,
    ensures rows(cat(g), w) =~= g,
{
    lemma_cat_len(g, w);
    let n = g.len() as int;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(n, w);
    assert(cat(g).len() as int / w == n) by { assert(n * w == w * n) by (nonlinear_arith); }
    assert forall|y: int| 0 <= y < n implies rows(cat(g), w)[y] == g[y] by { lemma_cat_at(g, w, y); }
}
'''
QG = r'''
pub open spec fn fwd(h: Header, g: Seq<Seq<i16>>, w: int) -> Seq<Seq<i16>> { if h.filter == Filter::Linear { lin_forward(g, w) } else { cub_forward(g, w) } }
pub open spec fn inv(h: Header, g: Seq<Seq<i16>>, w: int) -> Seq<Seq<i16>> { if h.filter == Filter::Linear { lin_inverse(g, w) } else { cub_inverse(g, w) } }
pub proof fn theorem_fwd(h: Header, g: Seq<Seq<i16>>, w: int)
    requires rect(g, w),
    ensures inv(h, fwd(h, g, w), w) == g, fwd(h, g, w).len() == g.len(), rect(fwd(h, g, w), w), inv(h, g, w).len() == g.len(), rect(inv(h, g, w), w),
{ lin_theorem_lift(g, w); cub_theorem_lift(g, w); }
pub proof fn lemma_fwd(h: Header, g: Seq<Seq<i16>>, w: int)
    ensures h.filter == Filter::Linear ==> fwd(h, g, w) == lin_forward(g, w) && inv(h, g, w) == lin_inverse(g, w), h.filter == Filter::Cubic ==> fwd(h, g, w) == cub_forward(g, w) && inv(h, g, w) == cub_inverse(g, w),
{ }
/// quantization and its inverse, from quality `ql` on
pub open spec fn qgrid(g: Seq<Seq<i16>>, w: int, ql: int, m: int) -> Seq<Seq<i16>> { Seq::new(g.len(), |y: int| Seq::new(w as nat, |x: int| qsample(g[y][x], qstep(g.len() as int, w, y, x, 1, ql, 0, m), m))) }
pub open spec fn dgrid(g: Seq<Seq<i16>>, w: int, ql: int, m: int) -> Seq<Seq<i16>> { Seq::new(g.len(), |y: int| Seq::new(w as nat, |x: int| dsample(g[y][x], qstep(g.len() as int, w, y, x, 1, ql, 0, m), m))) }
pub open spec fn qmax(h: Header) -> int { 1024 * (if h.quality == 1024 { 1int } else { 8 }) }
pub open spec fn ql(h: Header, chroma: bool) -> int {
    if chroma { let v = (h.quality + h.chroma_scale / 2) / h.chroma_scale as int; if v < 1 { 1 } else { v } } else { h.quality as int }
}
pub open spec fn wd(h: Header, d: int) -> int { ceil_shift(h.width as int, d) }
/// samples of a channel
pub open spec fn csz(h: Header, d: int) -> int { ceil_shift(h.width as int, d) * ceil_shift(h.height as int, d) }
/// what happens to the samples of one channel
pub open spec fn lq1(s: Seq<i16>, h: Header, chroma: bool) -> Seq<i16> { cat(qgrid(fwd(h, rows(s, wd(h, 0)), wd(h, 0)), wd(h, 0), ql(h, chroma), qmax(h))) }
pub open spec fn uq1(s: Seq<i16>, h: Header, chroma: bool, d: int) -> Seq<i16> { cat(inv(h, dgrid(rows(s, wd(h, d)), wd(h, d), ql(h, chroma) * pow2((if d < 13 { d } else { 13 }) as nat), qmax(h)), wd(h, d))) }
/// the first n channels
pub open spec fn lqn(a: Seq<i16>, h: Header, isc: Seq<bool>, n: int) -> Seq<i16> decreases n {
    if n <= 0 { seq![] } else { lqn(a, h, isc, n - 1) + lq1(a.subrange((n - 1) * csz(h, 0), n * csz(h, 0)), h, isc[n - 1]) }
}
pub open spec fn uqn(a: Seq<i16>, h: Header, isc: Seq<bool>, d: int, n: int) -> Seq<i16> decreases n {
    if n <= 0 { seq![] } else { uqn(a, h, isc, d, n - 1) + uq1(a.subrange((n - 1) * csz(h, d), n * csz(h, d)), h, isc[n - 1], d) }
}
pub open spec fn nch(h: Header) -> int { h.layers * h.channels }
/// what lies behind the channels stays
pub open spec fn lq(a: Seq<i16>, h: Header, isc: Seq<bool>) -> Seq<i16> { lqn(a, h, isc, nch(h)) + a.skip(nch(h) * csz(h, 0)) }
pub open spec fn uq(a: Seq<i16>, h: Header, isc: Seq<bool>, d: int) -> Seq<i16> { uqn(a, h, isc, d, nch(h)) + a.skip(nch(h) * csz(h, d)) }
pub proof fn lemma_lqn(a: Seq<i16>, h: Header, isc: Seq<bool>, n: int)
    ensures n <= 0 ==> lqn(a, h, isc, n) == Seq::<i16>::empty(), n > 0 ==> lqn(a, h, isc, n) == lqn(a, h, isc, n - 1) + lq1(a.subrange((n - 1) * csz(h, 0), n * csz(h, 0)), h, isc[n - 1]),
{ }
pub proof fn lemma_uqn(a: Seq<i16>, h: Header, isc: Seq<bool>, d: int, n: int)
    ensures n <= 0 ==> uqn(a, h, isc, d, n) == Seq::<i16>::empty(), n > 0 ==> uqn(a, h, isc, d, n) == uqn(a, h, isc, d, n - 1) + uq1(a.subrange((n - 1) * csz(h, d), n * csz(h, d)), h, isc[n - 1], d),
{ }
pub proof fn lemma_size(h: Header, d: int)
    requires hok(h), 0 <= d < 32,
    ensures 0 < wd(h, d) <= h.width < 0x4000_0000, 0 < ceil_shift(h.height as int, d) <= h.height < 0x4000_0000, 0 < csz(h, d) <= h.width * h.height, csz(h, d) % wd(h, d) == 0, csz(h, d) / wd(h, d) == ceil_shift(h.height as int, d),
        nch(h) * csz(h, d) <= h.width * h.height * h.layers * h.channels <= usize::MAX, nch(h) >= 1,
{
    lemma_pow2_pos(d as nat);
    let w = h.width as int; let k = h.height as int; let p = pow2(d as nat) as int;
    let a = ceil_shift(w, d); let b = ceil_shift(k, d);
    assert(a <= w && a >= 1) by (nonlinear_arith) requires a == (w + p - 1) / p, p >= 1, w >= 1;
    assert(b <= k && b >= 1) by (nonlinear_arith) requires b == (k + p - 1) / p, p >= 1, k >= 1;
    assert(0 < a * b <= w * k) by (nonlinear_arith) requires 0 < a <= w, 0 < b <= k;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(b, a);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(b, a);
    assert(b * a == a * b && a * b == a * b) by (nonlinear_arith);
    let l = h.layers as int; let c = h.channels as int; let x = a * b; let y = w * k;
    assert(l * c >= 1) by (nonlinear_arith) requires l >= 1, c >= 1;
    assert((l * c) * x <= (l * c) * y) by (nonlinear_arith) requires x <= y, l * c >= 1;
    assert((l * c) * y == y * l * c) by (nonlinear_arith);
}
/// state of the loop over the channels
pub proof fn lemma_at(a: Seq<i16>, cs: int, n: int, k: int)
    requires 0 <= n < k, cs > 0, a.len() >= k * cs,
    ensures 0 <= n * cs, n * cs + cs == (n + 1) * cs, (n + 1) * cs <= k * cs, a.skip(n * cs).len() >= cs,
        a.skip(n * cs).take(cs) == a.subrange((n + 1 - 1) * cs, (n + 1) * cs), a.skip(n * cs).skip(cs) == a.skip((n + 1) * cs),
{
    assert(n * cs + cs == (n + 1) * cs && 0 <= n * cs) by (nonlinear_arith) requires n >= 0, cs > 0;
    assert((n + 1) * cs <= k * cs) by (nonlinear_arith) requires n + 1 <= k, cs > 0;
    assert(a.skip(n * cs).take(cs) =~= a.subrange(n * cs, (n + 1) * cs));
    assert(a.skip(n * cs).skip(cs) =~= a.skip((n + 1) * cs));
}
pub proof fn lemma_more(len: int, cs: int, n: int, k: int)
    requires len >= k * cs, cs > 0, 0 <= n <= k, n * cs <= len, n * cs == len || n == k,
    ensures n == k,
{ if n < k { assert(n * cs < k * cs) by (nonlinear_arith) requires n < k, cs > 0; } }
pub proof fn lemma_shape(img: Seq<&mut [i16]>, chunk: Seq<i16>, h: Header, d: int)
    requires hok(h), 0 <= d < 32, chunk.len() == csz(h, d), cat(vw(img)) == chunk, rect(vw(img), wd(h, d)), img.len() * wd(h, d) == chunk.len(),
    ensures img_ok(img, wd(h, d)), vw(img) == rows(chunk, wd(h, d)), vw(img).len() == img.len(), vf(img).len() == img.len(), 0 < img.len() < 0x4000_0000, img.len() == ceil_shift(h.height as int, d),
{
    lemma_size(h, d); lemma_rows_cat(vw(img), wd(h, d));
    let n = img.len() as int; let w = wd(h, d);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(n, w);
    assert(n * w == w * n) by (nonlinear_arith);
}
pub proof fn lemma_q(img: Seq<&mut [i16]>, g: Seq<Seq<i16>>, w: int, q: int, m: int)
    requires rect(g, w), w >= 0, img.len() == g.len(), rect(vw(img), w), forall|y: int, x: int| 0 <= y < g.len() && 0 <= x < w ==> #[trigger] vw(img)[y][x] == qsample(g[y][x], qstep(g.len() as int, w, y, x, 1, q, 0, m), m),
    ensures vw(img) == qgrid(g, w, q, m),
{
    assert forall|y: int| 0 <= y < g.len() implies vw(img)[y] == qgrid(g, w, q, m)[y] by { assert(vw(img)[y].len() == w); assert(vw(img)[y] =~= qgrid(g, w, q, m)[y]); }
    assert(vw(img) =~= qgrid(g, w, q, m));
}
pub proof fn lemma_d(img: Seq<&mut [i16]>, g: Seq<Seq<i16>>, w: int, q: int, m: int)
    requires rect(g, w), w >= 0, img.len() == g.len(), rect(vw(img), w), forall|y: int, x: int| 0 <= y < g.len() && 0 <= x < w ==> #[trigger] vw(img)[y][x] == dsample(g[y][x], qstep(g.len() as int, w, y, x, 1, q, 0, m), m),
    ensures vw(img) == dgrid(g, w, q, m),
{
    assert forall|y: int| 0 <= y < g.len() implies vw(img)[y] == dgrid(g, w, q, m)[y] by { assert(vw(img)[y].len() == w); assert(vw(img)[y] =~= dgrid(g, w, q, m)[y]); }
    assert(vw(img) =~= dgrid(g, w, q, m));
}
pub proof fn lemma_grid(img: Seq<&mut [i16]>, g: Seq<Seq<i16>>, w: int, n: int)
    requires vw(img) == g, rect(g, w), g.len() == n, 0 <= w < 0x4000_0000, 0 < n < 0x4000_0000,
    ensures img.len() == n, img_ok(img, w), vf(img).len() == n,
{ }
pub proof fn lemma_done(img: Seq<&mut [i16]>)
    requires forall|y: int| 0 <= y < img.len() ==> has_resolved(#[trigger] img[y]),
    ensures vw(img) == vf(img),
{ assert(vw(img) =~= vf(img)); }
pub proof fn lemma_facts(h: Header)
    requires hok(h),
    ensures 1 <= h.quality <= 1024, 1 <= h.chroma_scale, ql(h, false) == h.quality, qmax(h) == 1024 * (if h.quality == 1024 { 1int } else { 8 }), 1 <= ql(h, true) <= 1024,
        ql(h, true) == ({ let v = (h.quality + h.chroma_scale / 2) / h.chroma_scale as int; if v < 1 { 1 } else { v } }),
{
    let q = h.quality as int; let s = h.chroma_scale as int;
    if s == 1 { assert((q + s / 2) / s == q) by (nonlinear_arith) requires s == 1, s / 2 == 0; }
    else { assert((q + s / 2) / s <= q) by (nonlinear_arith) requires q >= 1, s >= 2; }
}
pub proof fn lemma_params()
    ensures forall|q: int, n: int, m: int| #[trigger] params_ok(q, n, m) <== 1 <= q <= 0x100_0000 && 0 <= n <= 0x4000 && 1 <= m <= 0x4000,
{ }
pub proof fn lemma_lq1(s: Seq<i16>, h: Header, chroma: bool)
    ensures lq1(s, h, chroma) == cat(qgrid(fwd(h, rows(s, wd(h, 0)), wd(h, 0)), wd(h, 0), ql(h, chroma), qmax(h))),
{ }
pub proof fn lemma_uq1(s: Seq<i16>, h: Header, chroma: bool, d: int)
    ensures uq1(s, h, chroma, d) == cat(inv(h, dgrid(rows(s, wd(h, d)), wd(h, d), ql(h, chroma) * pow2((if d < 13 { d } else { 13 }) as nat), qmax(h)), wd(h, d))),
{ }
pub proof fn lemma_shl13(q: i32, d: usize)
    requires 0 < q <= 1024, d <= 13,
    ensures q << d == q * pow2(d as nat), 0 < q * pow2(d as nat) <= 0x80_0000,
{
    lemma_pow2_pos(d as nat);
    assert(0 < (q << d) && (q << d) <= 0x80_0000) by (bit_vector) requires 0 < q, q <= 1024, d <= 13;
    let u = q as u32;
    assert((q << d) as u32 == u << d && (u << d) <= 0x80_0000u32) by (bit_vector) requires u == q as u32, 0 < q, q <= 1024, d <= 13;
    lemma_u32_bits(u, d);
}
pub proof fn lemma_u32_bits(u: u32, d: usize)
    requires u <= 1024, d <= 13,
    ensures u << d == u * pow2(d as nat),
{
    let e = d as u32;
    assert(u << d == u << e) by (bit_vector) requires e == d as u32, d <= 13;
    lemma_pow2_strictly_increases_or(d as nat);
    assert(u * pow2(d as nat) <= u32::MAX) by (nonlinear_arith) requires u <= 1024, pow2(d as nat) <= 8192;
    vstd::bits::lemma_u32_shl_is_mul(u, e);
}
pub proof fn lemma_pow2_strictly_increases_or(d: nat)
    requires d <= 13,
    ensures pow2(d) <= 8192,
{ lemma2_to64(); if d < 13 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(d, 13); } }
'''
LOSSLESS = r'''
pub open spec fn lossless(h: Header, isc: Seq<bool>) -> bool { h.quality == 1024 && (h.chroma_scale == 1 || forall|i: int| 0 <= i < nch(h) ==> !#[trigger] isc[i]) }
pub proof fn lemma_cat_rows(s: Seq<i16>, w: int, k: int)
    requires w > 0, s.len() == k * w, k >= 0,
    ensures cat(rows(s, w)) == s, rect(rows(s, w), w), rows(s, w).len() == k,
    decreases k,
{
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, w);
    assert(k * w == w * k) by (nonlinear_arith);
    let g = rows(s, w);
    assert(g.len() == k);
    assert forall|y: int| 0 <= y < k implies (#[trigger] g[y]).len() == w by { assert(y * w + w <= k * w && y * w >= 0) by (nonlinear_arith) requires 0 <= y, y + 1 <= k, w > 0; }
    if k > 0 {
        assert((k - 1) * w + w == k * w && (k - 1) * w >= 0) by (nonlinear_arith) requires k >= 1, w > 0;
        let t = s.take((k - 1) * w);
        lemma_cat_rows(t, w, k - 1);
        assert forall|y: int| 0 <= y < k - 1 implies g.drop_last()[y] == rows(t, w)[y] by {
            assert(y * w + w <= (k - 1) * w && y * w >= 0) by (nonlinear_arith) requires 0 <= y, y + 1 <= k - 1, w > 0;
            assert(s.subrange(y * w, y * w + w) =~= t.subrange(y * w, y * w + w));
        }
        assert(g.drop_last() =~= rows(t, w));
        assert(cat(g) =~= s);
    } else { assert(0 * w == 0); assert(cat(g) =~= s); }
}
pub proof fn lemma_rows_len(s: Seq<i16>, h: Header, d: int)
    requires hok(h), 0 <= d < 32, s.len() == csz(h, d),
    ensures rect(rows(s, wd(h, d)), wd(h, d)), rows(s, wd(h, d)).len() == ceil_shift(h.height as int, d), cat(rows(s, wd(h, d))) == s, wd(h, d) > 0,
        csz(h, d) == rows(s, wd(h, d)).len() * wd(h, d),
{
    lemma_size(h, d);
    let k = ceil_shift(h.height as int, d); let w = wd(h, d);
    assert(k * w == w * k) by (nonlinear_arith);
    lemma_cat_rows(s, w, k);
}
pub proof fn lemma_len1(s: Seq<i16>, h: Header, chroma: bool, d: int)
    requires hok(h), 0 <= d < 32, s.len() == csz(h, d),
    ensures d == 0 ==> lq1(s, h, chroma).len() == s.len(), uq1(s, h, chroma, d).len() == s.len(),
{
    lemma_rows_len(s, h, d);
    let w = wd(h, d); let g = rows(s, w);
    theorem_fwd(h, g, w);
    if d == 0 { lemma_cat_len(qgrid(fwd(h, g, w), w, ql(h, chroma), qmax(h)), w); }
    let e = dgrid(g, w, ql(h, chroma) * pow2((if d < 13 { d } else { 13 }) as nat), qmax(h));
    assert(rect(e, w));
    theorem_fwd(h, e, w);
    lemma_cat_len(inv(h, e, w), w);
}
/// nothing is quantized at full quality
pub proof fn lemma_same(g: Seq<Seq<i16>>, w: int, q: int, m: int)
    requires rect(g, w), w >= 0, q >= m,
    ensures qgrid(g, w, q, m) == g, dgrid(g, w, q, m) == g,
{
    lemma_qstep_stop(g.len() as int, w, 1, q, 0, m);
    assert forall|y: int| 0 <= y < g.len() implies qgrid(g, w, q, m)[y] == g[y] && dgrid(g, w, q, m)[y] == g[y] by { assert(qgrid(g, w, q, m)[y] =~= g[y]); assert(dgrid(g, w, q, m)[y] =~= g[y]); }
    assert(qgrid(g, w, q, m) =~= g); assert(dgrid(g, w, q, m) =~= g);
}
pub proof fn lemma_lossless1(s: Seq<i16>, h: Header, chroma: bool)
    requires hok(h), s.len() == csz(h, 0), h.quality == 1024, h.chroma_scale == 1 || !chroma,
    ensures uq1(lq1(s, h, chroma), h, chroma, 0) == s, lq1(s, h, chroma).len() == s.len(),
{
    lemma_rows_len(s, h, 0); lemma_len1(s, h, chroma, 0);
    let w = wd(h, 0); let g = rows(s, w); let q = ql(h, chroma); let m = qmax(h);
    assert(q == 1024) by { if chroma { assert((1024int + 1int / 2) / 1int == 1024); } }
    lemma2_to64();
    assert(q * pow2(0) == 1024);
    theorem_fwd(h, g, w);
    let f = fwd(h, g, w);
    lemma_same(f, w, q, m);
    lemma_rows_cat(f, w);
    assert(lq1(s, h, chroma) == cat(f));
    assert(rows(cat(f), w) == f);
}
pub proof fn lemma_lens(a: Seq<i16>, h: Header, isc: Seq<bool>, d: int, n: int)
    requires hok(h), 0 <= d < 32, 0 <= n <= nch(h), a.len() >= nch(h) * csz(h, d),
    ensures d == 0 ==> lqn(a, h, isc, n).len() == n * csz(h, d), uqn(a, h, isc, d, n).len() == n * csz(h, d), 0 <= n * csz(h, d) <= nch(h) * csz(h, d),
    decreases n,
{
    hide(lq1); hide(uq1);
    lemma_size(h, d);
    let cs = csz(h, d);
    assert(0 <= n * cs <= nch(h) * cs) by (nonlinear_arith) requires 0 <= n <= nch(h), cs > 0;
    if n > 0 {
        lemma_at(a, cs, n - 1, nch(h));
        lemma_lens(a, h, isc, d, n - 1);
        let s = a.subrange((n - 1) * cs, n * cs);
        assert(s.len() == cs);
        lemma_len1(s, h, isc[n - 1], d);
    } else { assert(0 * cs == 0); }
}
pub proof fn lemma_total(a: Seq<i16>, h: Header, isc: Seq<bool>, d: int)
    requires hok(h), 0 <= d < 32, a.len() >= nch(h) * csz(h, d),
    ensures d == 0 ==> lq(a, h, isc).len() == a.len(), uq(a, h, isc, d).len() == a.len(),
{ lemma_size(h, d); lemma_lens(a, h, isc, d, nch(h)); }
/// the channels before the n-th do not depend on the others
pub proof fn lemma_chan(a: Seq<i16>, h: Header, isc: Seq<bool>, n: int, k: int)
    requires hok(h), 0 <= k < n <= nch(h), a.len() >= nch(h) * csz(h, 0),
    ensures 0 <= k * csz(h, 0), (k + 1) * csz(h, 0) <= lqn(a, h, isc, n).len(), lqn(a, h, isc, n).subrange(k * csz(h, 0), (k + 1) * csz(h, 0)) == lq1(a.subrange(k * csz(h, 0), (k + 1) * csz(h, 0)), h, isc[k]),
    decreases n,
{
    hide(lq1);
    lemma_size(h, 0);
    let cs = csz(h, 0);
    lemma_lens(a, h, isc, 0, n); lemma_lens(a, h, isc, 0, n - 1);
    lemma_at(a, cs, k, n);
    if k < n - 1 {
        lemma_chan(a, h, isc, n - 1, k);
        assert(lqn(a, h, isc, n).subrange(k * cs, (k + 1) * cs) =~= lqn(a, h, isc, n - 1).subrange(k * cs, (k + 1) * cs));
    } else {
        let s = lq1(a.subrange(k * cs, (k + 1) * cs), h, isc[k]);
        assert(lqn(a, h, isc, n).subrange(k * cs, (k + 1) * cs) =~= s);
    }
}
pub proof fn lemma_back(a: Seq<i16>, h: Header, isc: Seq<bool>, n: int)
    requires hok(h), 0 <= n <= nch(h), a.len() >= nch(h) * csz(h, 0), lossless(h, isc),
    ensures uqn(lq(a, h, isc), h, isc, 0, n) == a.take(n * csz(h, 0)), 0 <= n * csz(h, 0) <= a.len(),
    decreases n,
{
    hide(lq1); hide(uq1);
    lemma_size(h, 0);
    let cs = csz(h, 0); let b = lq(a, h, isc);
    lemma_lens(a, h, isc, 0, n); lemma_lens(a, h, isc, 0, nch(h));
    if n > 0 {
        lemma_back(a, h, isc, n - 1);
        lemma_chan(a, h, isc, nch(h), n - 1);
        lemma_at(a, cs, n - 1, nch(h));
        let k = n - 1; let s = a.subrange(k * cs, n * cs);
        assert(b.subrange(k * cs, n * cs) =~= lqn(a, h, isc, nch(h)).subrange(k * cs, (k + 1) * cs));
        lemma_lossless1(s, h, isc[k]);
        assert(a.take(k * cs) + s =~= a.take(n * cs));
    } else { assert(0 * cs == 0); assert(a.take(0) =~= seq![]); }
}
/// C01: what the transforms do to the samples is undone at full quality
pub proof fn theorem_lossless(a: Seq<i16>, h: Header, isc: Seq<bool>)
    requires hok(h), a.len() >= nch(h) * csz(h, 0), lossless(h, isc),
    ensures uq(lq(a, h, isc), h, isc, 0) == a, lq(a, h, isc).len() == a.len(),
{
    lemma_size(h, 0); lemma_total(a, h, isc, 0); lemma_back(a, h, isc, nch(h)); lemma_lens(a, h, isc, 0, nch(h));
    let n = nch(h) * csz(h, 0);
    assert(lq(a, h, isc).skip(n) =~= a.skip(n));
    assert(a.take(n) + a.skip(n) =~= a);
}
'''
def hst(names):
    out = stubs([c for c in H.C if c.path in ['Header::' + n for n in names]], 'header')
    for c in out: c.spec = c.spec.replace('valid(', 'hok(')
    return out
def transform(con, unit):
    out = stubs(con, unit)
    for c in out: c.spec = renamed(c.spec, unit)
    return out
HN = ['get_downsampled_width', 'get_downsampled_channel_size', 'get_boost', 'get_chroma_quality']
from units import lift_linear as LL, lift_cubic as LCU
TR = [transform([c for c in m.contracts if c.path in ('lift_' + n, 'unlift_' + n)], 'lift_' + n) for m, n in ((LL, 'linear'), (LCU, 'cubic'))]
QC = stubs([Q.contract('quantize', True), Q.contract('dequantize', False)], 'quant')
MID = {True: ('before', 'let quality =', 1, '''            proof { g1 = vw(image@); assert(g1 == fwd(h, g0, w)); lemma_grid(image@, g1, w, g0.len() as int); }'''),
    False: ('before', 'match header.filter', 1, '''            proof { g1 = vw(image@); let q = ql(h, isc[n]) * pow2((if d < 13 { d } else { 13 }) as nat); lemma_d(image@, g0, w, q, qmax(h)); theorem_fwd(h, g1, w); lemma_fwd(h, g1, w); assert(img_ok(image@, w)); }''')}
def main(name, lift):
    d = '0' if lift else 'downsampling as int'
    one = (lambda s: 'lq1(%s, h, isc[n])' % s) if lift else (lambda s: 'uq1(%s, h, isc[n], d)' % s)
    upto = (lambda a, n: 'lqn(%s, h, isc, %s)' % (a, n)) if lift else (lambda a, n: 'uqn(%s, h, isc, d, %s)' % (a, n))
    lem = (lambda n: 'lemma_lqn(a0, h, isc, %s);' % n) if lift else (lambda n: 'lemma_uqn(a0, h, isc, d, %s);' % n)
    spec = '''    requires hok(*header), %sold(aux_data).len() >= nch(*header) * csz(*header, %s), is_chroma.len() >= nch(*header),
    ensures final(aux_data)@ == %s''' % ('' if lift else 'downsampling < 32, ', d, 'lq(old(aux_data)@, *header, is_chroma@)' if lift else 'uq(old(aux_data)@, *header, is_chroma@, downsampling as int)')
    common = '''h == *header, hok(h), d == %s, 0 <= d < 32, isc == vx_h_is_chroma@, isc.len() >= nc, h == *vx_h_header, vx_h_downsampling == d, nc == nch(h), cs == csz(h, d), cs > 0, w == wd(h, d), 0 < w < 0x4000_0000, a0.len() >= nc * cs,
                1 <= boost <= 8, 1024 * boost == qmax(h), 1 <= chroma_quality <= 1024, chroma_quality == ql(h, true), 1 <= h.quality <= 1024, ql(h, false) == h.quality''' % d
    step = '''proof { lemma_at(a0, cs, n, nc); assert(chunk@.len() == cs); }''' 
    return Fn(name, None, spec, attrs='#[verifier::spinoff_prover]', entry=''.join('hide(%s); ' % x for x in ('qstep', 'cat', 'rows', 'csz', 'wd', 'vw', 'vf', 'nch', 'rect', 'hok', 'ql', 'qmax', 'fwd', 'inv', 'params_ok') + (('qgrid', 'qsample', 'lq1', 'lqn', 'lq') if lift else ('dgrid', 'dsample', 'uq1', 'uqn', 'uq'))) + '''
    let ghost h = *header; let ghost d = %s; let ghost isc = is_chroma@; let ghost nc = nch(h); let ghost cs = csz(h, d); let ghost w = wd(h, d); let ghost a0 = aux_data@; let ghost tgt = final(aux_data)@; let ghost n: int = 0;
    proof { lemma_size(h, d); lemma_facts(h); reveal(csz); reveal(wd); reveal(nch); }''' % d,
    loops=[dict(pre='let ghost tgt = vx_c0.fin(); let ghost mut n: int = 0; proof { %s assert(%s + vx_c0.fin() =~= vx_c0.fin()); assert(0 * cs == 0); assert(a0.skip(0) =~= a0); }' % (lem('0'), upto('a0', '0')),
        inv='''            invariant %s,
                vx_h_is_chroma@ == isc, 0 <= n <= nc, vx_n0 == n, vx_k0 == nc - n, n * cs <= a0.len(), vx_c0.n == cs, vx_c0.cur() == a0.skip(n * cs), tgt == %s + vx_c0.fin(),
            decreases nc - n''' % (common, upto('a0', 'n')),
        taken='let ghost ch = chunk@; let ghost chf = final(chunk)@; proof { lemma_at(a0, cs, n, nc); assert(ch.len() == cs); lemma_size(h, d); reveal(csz); reveal(wd); }',
        mapped='let ghost g0 = vw(vx_m0@); let ghost gf = vf(vx_m0@); proof { lemma_shape(vx_m0@, ch, h, d); theorem_fwd(h, g0, w); lemma_fwd(h, g0, w); assert(cat(gf) == chf); }',
        begin='''let ghost mut g1 = g0; proof { assert(QUALITY_MAX == 1024); lemma_params(); } %s''' % ('' if lift else '''proof { lemma_shl13(if is_chroma { chroma_quality } else { header.quality as i32 }, (if d < 13 { d } else { 13 }) as usize); assert(ql(h, isc[n]) == (if is_chroma { chroma_quality as int } else { header.quality as int })); }'''),
        end='''proof {
                %s
                assert(has_resolved(vx_m0)); assert forall|y: int| 0 <= y < vx_m0@.len() implies has_resolved(#[trigger] vx_m0@[y]) by { }
                lemma_done(vx_m0@);
                assert(vf(vx_m0@) == gf);
                n = n + 1;
                %s
            }''' % ('lemma_q(image@, g1, w, ql(h, isc[n]), qmax(h)); lemma_lq1(ch, h, isc[n]);' if lift else 'lemma_uq1(ch, h, isc[n], d);', lem('n')),
        post='proof { lemma_more(a0.len() as int, cs, n, nc); assert(has_resolved(vx_c0)); assert(vx_c0.fin() == vx_c0.cur()); reveal(nch); reveal(csz); reveal(%s); }' % ('lq' if lift else 'uq'))], hints=[MID[lift]])
CON = hst(HN) + TR[0] + TR[1] + QC + [main('lift_and_quantize', True), main('unlift_and_dequantize', False)]
ITEMS = P.HEAD + [('const', HC.H, 'QUALITY_MAX'), ('impl', HC.H, 'Header', HN)] + [('fn', 'src/lifting/%s.rs' % n, p + n) for n in ('linear', 'cubic') for p in ('lift_', 'unlift_')] + [('fn', 'src/quant/mod.rs', n) for n in ('quantize', 'dequantize')] + [
    ('fn', F, 'lift_and_quantize'), ('fn', F, 'unlift_and_dequantize')]
CEIL = re.search(r'(?m)^pub open spec fn ceil_shift.*\n', H.POST).group(0)
UNIT = Unit('auxd', ITEMS, CON, prelude='use vstd::arithmetic::power2::*;\n' + proved(BASE + Q.P, 'quant') + P.HSPEC + CEIL + lifted('lift_linear') + lifted('lift_cubic') + PIECES + THEORY + QG, post=LOSSLESS, mods=('bits', 'header', 'encode', 'io_x', 'lifting', 'quant'))
