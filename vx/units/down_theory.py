"""Theory of images that are scaled down (C15): the code of a block is the code of the block of the smaller image."""
DOWN = r'''
// ---------------------------------------------------------------- the image scaled down by 2^d: every 2^d-th row and column
pub open spec fn fine(h: Header, d: int, i: int) -> int {
    let w = down(h.width as int, d); let t = down(h.height as int, d);
    (i / (w * t)) * (h.width * h.height) + (i % (w * t) / w) * p2(d) * h.width + (i % (w * t) % w) * p2(d)
}
/// n samples, of which the first ones are the image scaled down
pub open spec fn dsub(h: Header, d: int, im: Seq<i16>, n: int) -> Seq<i16> { Seq::new(n as nat, |i: int| im[fine(h, d, i)]) }
pub proof fn lemma_fine(h: Header, d: int, c: int, y: int, x: int)
    requires 0 <= c, 0 <= y < down(h.height as int, d), 0 <= x < down(h.width as int, d),
    ensures ({ let w = down(h.width as int, d); let t = down(h.height as int, d); fine(h, d, c * (w * t) + y * w + x) == c * (h.width * h.height) + (y * p2(d)) * h.width + x * p2(d) }),
{
    let w = down(h.width as int, d); let t = down(h.height as int, d); let z = w * t;
    let r = y * w + x; let i = c * z + r;
    assert(0 <= r < z) by (nonlinear_arith) requires r == y * w + x, z == w * t, 0 <= y, y + 1 <= t, 0 <= x < w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, z, c, r);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r, w, y, x);
    assert(c * z + y * w + x == i);
}
// ---------------------------------------------------------------- multiples
pub proof fn lemma_mod_scale(a: int, b: int, f: int)
    requires b > 0, f > 0,
    ensures (a * f) % (b * f) == (a % b) * f,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    let q = a / b; let r = a % b;
    assert(a * f == q * (b * f) + r * f) by (nonlinear_arith) requires a == b * q + r;
    assert(0 <= r * f < b * f) by (nonlinear_arith) requires 0 <= r < b, f > 0;
    assert(b * f > 0) by (nonlinear_arith) requires b > 0, f > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a * f, b * f, q, r * f);
}
pub proof fn lemma_sel_scale(a: int, s: int, f: int)
    requires s > 0, f > 0,
    ensures sel(a * f, s * f) == sel(a, s), mult(a * f, s * f) == mult(a, s), b2(a * f, s * f) == b2(a, s), 2 * (s * f) == (2 * s) * f,
{
    reveal(sel); reveal(mult);
    assert(2 * (s * f) == (2 * s) * f) by (nonlinear_arith);
    lemma_mod_scale(a, 2 * s, f); lemma_mod_scale(a, s, f);
    let r = a % (2 * s);
    assert((r * f == s * f) == (r == s)) by (nonlinear_arith) requires f > 0;
    let t = a % s;
    assert((t * f == 0) == (t == 0)) by (nonlinear_arith) requires f > 0;
    let z = a - e2(sel(a, s), s);
    assert(z * f == a * f - e2(sel(a, s), s * f)) by (nonlinear_arith) requires z == a - e2(sel(a, s), s), e2(sel(a, s), s * f) == e2(sel(a, s), s) * f;
    lemma_mod_scale(z, 2 * (2 * s), f);
    let u = z % (2 * (2 * s));
    assert((u * f == (2 * s) * f) == (u == 2 * s)) by (nonlinear_arith) requires f > 0;
    assert(2 * (2 * (s * f)) == (2 * (2 * s)) * f) by (nonlinear_arith);
}
// ---------------------------------------------------------------- blocks
/// a position lies in the block if and only if its multiple does
pub open spec fn ext(a: int, b: int, f: int) -> bool { forall|v: int| v >= 0 ==> (#[trigger] (v * f) < a) == (v < b) }
/// g is the block c, seen in the image that is f times larger
pub open spec fn scaled(g: Geo, c: Geo, f: int) -> bool { f > 0 && c.s > 0 && g.s == c.s * f && ext(g.y1 - g.y0, c.y1 - c.y0, f) && ext(g.x1 - g.x0, c.x1 - c.x0, f) }
pub open spec fn same_val(g: Geo, m: Seq<i16>, c: Geo, n: Seq<i16>, f: int) -> bool { forall|v: int, u: int| #[trigger] inb(c, v, u) ==> val(g, m, v * f, u * f) == val(c, n, v, u) }
pub proof fn lemma_val(g: Geo, m: Seq<i16>, c: Geo, n: Seq<i16>, f: int, v: int, u: int, a: int, b: int)
    requires same_val(g, m, c, n, f), inb(c, v, u), a == v * f, b == u * f,
    ensures val(g, m, a, b) == val(c, n, v, u),
{}
pub proof fn lemma_ext(a: int, b: int, f: int, v: int, z: int) requires ext(a, b, f), v >= 0, z == v * f ensures (z < a) == (v < b) {}
pub proof fn lemma_anc_scale(a: int, s: int, size: int, c: int, f: int)
    requires f > 0, pw(s), s > 0, ext(size, c, f), 0 <= a < c, c < 0x4000_0000, mult(a, s),
    ensures anc(a * f, s * f, size) == anc(a, s, c) * f,
{
    lemma_anc(a, s, c); lemma_sel_scale(a, s, f);
    let b = e2(b2(a, s), 2 * s); let e = e2(sel(a, s), s); let p = a - b + e;
    assert(p * f == a * f - b * f + e * f) by (nonlinear_arith) requires p == a - b + e;
    assert(e2(b2(a, s), 2 * (s * f)) == b * f && e2(sel(a, s), s * f) == e * f) by { assert(0 * f == 0); }
    lemma_ext(size, c, f, p, p * f);
    assert((p - 2 * s) * f == p * f - 2 * (s * f)) by (nonlinear_arith);
}
pub proof fn lemma_touched_scale(v: int, u: int, s: int, f: int)
    requires s > 0, f > 0,
    ensures touched(v * f, u * f, s * f) == touched(v, u, s),
{ lemma_sel_scale(v, s, f); lemma_sel_scale(u, s, f); }
pub proof fn lemma_ctx_scale(g: Geo, m: Seq<i16>, c: Geo, n: Seq<i16>, f: int, y: int, x: int)
    requires scaled(g, c, f), same_val(g, m, c, n, f), geo_ok(c, n.len() as int), inb(c, y, x), touched(y, x, c.s),
    ensures ctx(g, m, y * f, x * f) == ctx(c, n, y, x),
{
    hide(val); hide(same_val); hide(inb); hide(ext); hide(anc); hide(acadd); hide(ctx_of); hide(known); hide(geo_ok); hide(touched);
    reveal(ctx);
    let s = c.s; let t = g.s; let xo = x + e2(!sel(x, s), s); let ya = anc(y, s, c.y1 - c.y0); let xa = anc(x, s, c.x1 - c.x0);
    let gh = g.y1 - g.y0; let gw = g.x1 - g.x0; let ch = c.y1 - c.y0; let cw = c.x1 - c.x0; let yf = y * f; let xf = x * f;
    lemma_ctx_reads(c, n.len() as int, y, x);
    lemma_inb(c, n.len() as int, y, x);
    lemma_anc_scale(y, s, gh, ch, f); lemma_anc_scale(x, s, gw, cw, f); lemma_sel_scale(y, s, f); lemma_sel_scale(x, s, f);
    lemma_val(g, m, c, n, f, ya, xa, ya * f, xa * f);
    let a0 = acadd(Acc { s: 0, q: 0, n: 0 }, val(c, n, ya, xa), 2);
    assert(acadd(Acc { s: 0, q: 0, n: 0 }, val(g, m, anc(yf, t, gh), anc(xf, t, gw)), 2) == a0);
    let xof = xf + e2(!sel(xf, t), t);
    assert(xof == xo * f) by (nonlinear_arith) requires xof == x * f + e2(!sel(x, s), s) * f, xo == x + e2(!sel(x, s), s), xf == x * f;
    lemma_ext(gw, cw, f, xo, xof);
    assert((y - s) * f == yf - t && (x - s) * f == xf - t && (y - 2 * s) * f == yf - 2 * t && (x - 2 * s) * f == xf - 2 * t && (y - 4 * s) * f == yf - 4 * t && (x - 4 * s) * f == xf - 4 * t && (x + 2 * s) * f == xf + 2 * t && (x + 4 * s) * f == xf + 4 * t) by (nonlinear_arith) requires t == s * f, yf == y * f, xf == x * f;
    assert((yf >= 2 * t) == (y >= 2 * s) && (xf >= 2 * t) == (x >= 2 * s) && (yf >= 4 * t) == (y >= 4 * s) && (xf >= 4 * t) == (x >= 4 * s)) by (nonlinear_arith) requires t == s * f, yf == y * f, xf == x * f, f > 0;
    lemma_ext(gw, cw, f, x + 2 * s, xf + 2 * t); lemma_ext(gw, cw, f, x + 4 * s, xf + 4 * t);
    if sel(y, s) && xo < cw { lemma_val(g, m, c, n, f, y - s, xo, yf - t, xof); if sel(x, s) { lemma_val(g, m, c, n, f, y, x - s, yf, xf - t); } }
    assert(ctx1(g, m, yf, xf) == ctx1(c, n, y, x));
    if y >= 2 * s && x >= 2 * s {
        lemma_val(g, m, c, n, f, y - 2 * s, x, yf - 2 * t, xf); lemma_val(g, m, c, n, f, y, x - 2 * s, yf, xf - 2 * t); lemma_val(g, m, c, n, f, y - 2 * s, x - 2 * s, yf - 2 * t, xf - 2 * t);
        if x + 2 * s < cw { lemma_val(g, m, c, n, f, y - 2 * s, x + 2 * s, yf - 2 * t, xf + 2 * t); }
        assert(ctx2(g, m, yf, xf, ctx1(c, n, y, x)) == ctx2(c, n, y, x, ctx1(c, n, y, x)));
        if y >= 4 * s && x >= 4 * s {
            lemma_val(g, m, c, n, f, y - 4 * s, x, yf - 4 * t, xf); lemma_val(g, m, c, n, f, y, x - 4 * s, yf, xf - 4 * t); lemma_val(g, m, c, n, f, y - 4 * s, x - 4 * s, yf - 4 * t, xf - 4 * t);
            if x + 4 * s < cw { lemma_val(g, m, c, n, f, y - 4 * s, x + 4 * s, yf - 4 * t, xf + 4 * t); }
        }
    }
}
pub proof fn lemma_inb(c: Geo, n: int, y: int, x: int)
    requires geo_ok(c, n), inb(c, y, x),
    ensures 0 <= y < c.y1 - c.y0 < 0x4000_0000, 0 <= x < c.x1 - c.x0 < 0x4000_0000, pw(c.s), c.s > 0,
{}
pub proof fn lemma_row_scale(g: Geo, m: Seq<i16>, c: Geo, n: Seq<i16>, f: int, y: int, x: int)
    requires scaled(g, c, f), same_val(g, m, c, n, f), geo_ok(c, n.len() as int), 0 <= y < c.y1 - c.y0, mult(y, c.s), x >= 0, x < c.x1 - c.x0 ==> touched(y, x, c.s),
    ensures row(g, m, y * f, x * f) == row(c, n, y, x),
    decreases (if x < c.x1 - c.x0 { c.x1 - c.x0 - x } else { 0 }),
{
    let s = c.s; let yf = y * f; let xf = x * f;
    lemma_ext(g.x1 - g.x0, c.x1 - c.x0, f, x, xf);
    assert(g.s > 0) by (nonlinear_arith) requires g.s == s * f, s > 0, f > 0;
    assert(xf >= 0) by (nonlinear_arith) requires xf == x * f, x >= 0, f > 0;
    if x < c.x1 - c.x0 {
        let d = if sel(y, s) { s } else { 2 * s };
        lemma_pw(s);
        lemma_sel_scale(y, s, f);
        assert(inb(c, y, x));
        lemma_val(g, m, c, n, f, y, x, yf, xf);
        lemma_ctx_scale(g, m, c, n, f, y, x);
        let z = if c.x1 - c.x0 - x > d { x + d } else { c.x1 - c.x0 };
        lemma_item(c, n, y, x, z, seq![]);
        assert((x + d) * f == xf + d * f) by (nonlinear_arith) requires xf == x * f;
        lemma_row_scale(g, m, c, n, f, y, x + d);
    }
}
pub proof fn lemma_rows_scale(g: Geo, m: Seq<i16>, c: Geo, n: Seq<i16>, f: int, y: int)
    requires scaled(g, c, f), same_val(g, m, c, n, f), geo_ok(c, n.len() as int), y >= 0, mult(y, c.s),
    ensures rows(g, m, y * f) == rows(c, n, y),
    decreases (if y < c.y1 - c.y0 { c.y1 - c.y0 - y } else { 0 }),
{
    let s = c.s; let yf = y * f;
    lemma_ext(g.y1 - g.y0, c.y1 - c.y0, f, y, yf);
    assert(g.s > 0) by (nonlinear_arith) requires g.s == s * f, s > 0, f > 0;
    if y < c.y1 - c.y0 {
        lemma_pw(s);
        lemma_sel_scale(y, s, f);
        let x = if sel(y, s) { 0 } else { s };
        lemma_rows(c, n, y, if c.y1 - c.y0 - y > s { y + s } else { c.y1 - c.y0 });
        assert(x * f == (if sel(y, s) { 0 } else { g.s })) by { assert(0 * f == 0); }
        lemma_row_scale(g, m, c, n, f, y, x);
        lemma_grid(y, s);
        assert((y + s) * f == yf + g.s) by (nonlinear_arith) requires yf == y * f, g.s == s * f;
        lemma_rows_scale(g, m, c, n, f, y + s);
    }
}
/// Turbo looks at the quality once
pub proof fn lemma_blk_q(a: Cf, b: Cf, rem: Seq<It>, c: (u32, u32), rc: u32, run: int)
    requires a.sch == b.sch, a.chroma == b.chroma, a.sch is Turbo || a.q == b.q,
    ensures blk(a, rem, c, rc, run) == blk(b, rem, c, rc, run),
    decreases rem.len(),
{
    if rem.len() > 0 {
        if rc != 0 && rem[0].v == 0 { lemma_blk_q(a, b, rem.skip(1), c, rc, run + 1); }
        else { lemma_blk_q(a, b, rem.skip(1), next_c(a, c, rc, rem[0]), next_rc(a, c, rc, rem[0]), 0); }
    }
}
pub proof fn lemma_rc0(h: Header, chroma: bool, d: int, s: int)
    requires hok(h), d >= 0, s >= 1,
    ensures rc0(cfg(h, chroma, 0), s * p2(d)) == rc0(cfg(h, chroma, d), s),
{
    let q = bq(h, chroma); let f = p2(d); let t = s * f;
    lemma_p2(d, 0); lemma_p2(0, 0);
    assert(1 <= q <= 1024) by { let v = (h.quality + h.chroma_scale / 2) / (h.chroma_scale as int); let z = h.chroma_scale as int; let w = h.quality as int; assert(v <= 1024) by (nonlinear_arith) requires v == (w + z / 2) / z, 1 <= w <= 1024, z >= 1; }
    assert(q * p2(0) == q);
    assert(q * t >= t) by (nonlinear_arith) requires q >= 1, t >= 0, t == s * f, s >= 1, f >= 1;
    assert(t >= s) by (nonlinear_arith) requires t == s * f, s >= 1, f >= 1;
    if d <= 11 {
        let z = q * f;
        assert(q * t == z * s) by (nonlinear_arith) requires t == s * f, z == q * f;
        if z >= 2048 { assert(z * s >= 2048) by (nonlinear_arith) requires z >= 2048, s >= 1; assert(2048 * s >= 2048) by (nonlinear_arith) requires s >= 1; }
    } else {
        lemma_p2(11, d - 11);
        lemma_p2(d - 11, 0);
        assert(f >= 2048) by (nonlinear_arith) requires f == 2048 * p2(d - 11), p2(d - 11) >= 1;
        assert(t >= 2048) by (nonlinear_arith) requires t == s * f, s >= 1, f >= 2048;
        assert(q * 2048 >= 2048) by (nonlinear_arith) requires q >= 1;
        assert(2048 * s >= 2048) by (nonlinear_arith) requires s >= 1;
    }
}
pub proof fn lemma_block_scale(g: Geo, m: Seq<i16>, c: Geo, n: Seq<i16>, f: int, a: Cf, b: Cf, dc: bool)
    requires scaled(g, c, f), same_val(g, m, c, n, f), geo_ok(c, n.len() as int), a.sch == b.sch, a.chroma == b.chroma, a.sch is Turbo || a.q == b.q, rc0(a, g.s) == rc0(b, c.s),
    ensures block(g, m, a, dc) == block(c, n, b, dc),
{
    lemma_start(c, n);
    assert(0 * f == 0);
    lemma_rows_scale(g, m, c, n, f, 0);
    lemma_blk_q(a, b, rows(c, n, 0), (0, 0), rc0(b, c.s), 0);
    lemma_ext(g.y1 - g.y0, c.y1 - c.y0, f, 0, 0); lemma_ext(g.x1 - g.x0, c.x1 - c.x0, f, 0, 0);
    if inb(c, 0, 0) { lemma_val(g, m, c, n, f, 0, 0, 0, 0); }
}
// ---------------------------------------------------------------- levels
pub proof fn lemma_ext1(o: int, b: int, w: int, f: int)
    requires f > 0, b > 0, o >= 0, w > 0,
    ensures ext(imin(o * f + b * f, w) - o * f, imin(o + b, cdiv(w, f)) - o, f),
{
    assert forall|v: int| v >= 0 implies (#[trigger] (v * f) < imin(o * f + b * f, w) - o * f) == (v < imin(o + b, cdiv(w, f)) - o) by {
        lemma_cdiv(w, f, o + v);
        assert((v * f < b * f) == (v < b)) by (nonlinear_arith) requires f > 0;
        assert((o + v) * f == o * f + v * f) by (nonlinear_arith);
    }
}
pub proof fn lemma_lv_scale(h: Header, d: int, e: int, k: int, im: Seq<i16>, n: int)
    requires hok(h), 0 <= d <= e <= e0(h), 0 <= k < nb(h, e), nch(h) * (down(h.width as int, d) * down(h.height as int, d)) <= n <= usize::MAX,
    ensures scaled(bgeo(lv(h, 0, e), k), bgeo(lv(h, d, e), k), p2(d)), same_val(bgeo(lv(h, 0, e), k), im, bgeo(lv(h, d, e), k), dsub(h, d, im, n), p2(d)), geo_ok(bgeo(lv(h, d, e), k), n),
        bcol(lv(h, 0, e), k) == bcol(lv(h, d, e), k), brow(lv(h, 0, e), k) == brow(lv(h, d, e), k), chan(lv(h, 0, e), k) == chan(lv(h, d, e), k),
{
    let l = lv(h, 0, e); let j = lv(h, d, e); let f = p2(d); let g = bgeo(l, k); let c = bgeo(j, k);
    lemma_lv(h, 0, e); lemma_lv(h, d, e);
    lemma_p2(d, e - d); lemma_p2(e - d + h.block_size, d); lemma_p2(e - d, 0); lemma_p2(0, 0);
    assert(p2(e) == p2(e - d) * f) by (nonlinear_arith) requires p2(e) == f * p2(e - d);
    assert(l.b == j.b * f);
    assert(cdiv(l.w, 1) == l.w && down(h.width as int, 0) == h.width && down(h.height as int, 0) == h.height);
    lemma_block(l, k, usize::MAX as int); lemma_block(j, k, n); lemma_pos(j, k); lemma_pos(l, k);
    let bc = bcol(j, k); let br = brow(j, k);
    assert(bc * l.b == (bc * j.b) * f && br * l.b == (br * j.b) * f) by (nonlinear_arith) requires l.b == j.b * f;
    assert(bc * j.b >= 0 && br * j.b >= 0) by (nonlinear_arith) requires bc >= 0, br >= 0, j.b > 0;
    lemma_ext1(c.x0, j.b, l.w, f); lemma_ext1(c.y0, j.b, l.h, f);
    let m = dsub(h, d, im, n);
    assert forall|v: int, u: int| #[trigger] inb(c, v, u) implies val(g, im, v * f, u * f) == val(c, m, v, u) by {
        let y = c.y0 + v; let x = c.x0 + u; let q = chan(j, k);
        lemma_at(c, n, y, x);
        lemma_fine(h, d, q, y, x);
        assert(y * f == g.y0 + v * f && x * f == g.x0 + u * f) by (nonlinear_arith) requires y == c.y0 + v, x == c.x0 + u, g.y0 == c.y0 * f, g.x0 == c.x0 * f;
        assert(l.w == h.width && l.h == h.height);
        assert(at(c, y, x) == q * (j.w * j.h) + y * j.w + x);
        assert(at(g, y * f, x * f) == q * (l.w * l.h) + (y * f) * l.w + x * f);
    }
}
/// the code of a block is the same
pub proof fn lemma_blkb(h: Header, isc: Seq<bool>, d: int, e: int, k: int, im: Seq<i16>, n: int)
    requires hok(h), 0 <= d <= e <= e0(h), 0 <= k < nb(h, e), nch(h) * (down(h.width as int, d) * down(h.height as int, d)) <= n <= usize::MAX,
    ensures blkb(h, isc, 0, e, k, im) == blkb(h, isc, d, e, k, dsub(h, d, im, n)),
{
    lemma_lv_scale(h, d, e, k, im, n);
    lemma_p2(e - d, 0);
    let ch = isc[chan(lv(h, d, e), k)];
    lemma_rc0(h, ch, d, p2(e - d));
    lemma_p2(0, 0); lemma_p2(d, e - d);
    assert(p2(e) == p2(e - d) * p2(d)) by (nonlinear_arith) requires p2(e) == p2(d) * p2(e - d);
    lemma_block_scale(bgeo(lv(h, 0, e), k), im, bgeo(lv(h, d, e), k), dsub(h, d, im, n), p2(d), cfg(h, ch, 0), cfg(h, ch, d), dcf(h, d, e, k));
}
/// a payload of an image is, as far as the levels that are left go, one of the image scaled down
pub proof fn lemma_part_down(b: Seq<u8>, p: int, h: Header, isc: Seq<bool>, d: int, e: int, im: Seq<i16>, n: int)
    requires hok(h), 0 <= d, d - 1 <= e <= e0(h), part(b, p, h, isc, 0, e, im), nch(h) * (down(h.width as int, d) * down(h.height as int, d)) <= n <= usize::MAX,
    ensures part(b, p, h, isc, d, e, dsub(h, d, im, n)),
    decreases e - d + 1,
{
    if e >= d && p + 4 * nb(h, e) <= b.len() {
        let m = nb(h, e); let s = dsub(h, d, im, n);
        assert forall|k: int| 0 <= k < m && off(b, p, m, k + 1) <= b.len() implies holds_bits(words_of(b.subrange(off(b, p, m, k), off(b, p, m, k + 1))), #[trigger] blkb(h, isc, d, e, k, s)) by {
            lemma_blkb(h, isc, d, e, k, im, n);
            assert(holds_bits(words_of(b.subrange(off(b, p, m, k), off(b, p, m, k + 1))), blkb(h, isc, 0, e, k, im)));
        }
        lemma_part_down(b, off(b, p, m, m), h, isc, d, e - 1, im, n);
    }
}
'''
