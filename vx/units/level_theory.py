"""Theory of one level: which samples its blocks hold (C12 - C15)."""
LEVEL = r'''
// ---------------------------------------------------------------- samples of the image and of a level
/// sample i is the one at row y, column x of channel c, and both are multiples of s
pub open spec fn spot(l: Lay, s: int, i: int, c: int, y: int, x: int) -> bool { 0 <= c < l.n && 0 <= y < l.h && 0 <= x < l.w && mult(y, s) && mult(x, s) && i == c * (l.w * l.h) + y * l.w + x }
pub open spec fn on(l: Lay, s: int, i: int) -> bool { exists|c: int, y: int, x: int| #[trigger] spot(l, s, i, c, y, x) }
/// sample i belongs to the level's part of the block
pub open spec fn mine(g: Geo, dc: bool, i: int) -> bool { exists|v: int, u: int| #[trigger] lvl(g, dc, v, u) && i == at(g, g.y0 + v, g.x0 + u) }
pub proof fn lemma_spot(l: Lay, s: int, t: int, i: int, c: int, y: int, x: int, e: int, v: int, u: int)
    requires 0 < l.w, 0 < l.h, spot(l, s, i, c, y, x), spot(l, t, i, e, v, u),
    ensures c == e, y == v, x == u,
{
    let z = l.w * l.h; let w = l.w;
    assert(0 <= y * w && y * w + w <= z && 0 <= v * w && v * w + w <= z) by (nonlinear_arith) requires z == w * l.h, 0 <= y, y + 1 <= l.h, 0 <= v, v + 1 <= l.h, w > 0;
    assert(c == e) by (nonlinear_arith) requires c * z < e * z + z, e * z < c * z + z, z > 0;
    let d = y - v;
    assert(d * w == u - x) by (nonlinear_arith) requires y * w + x == v * w + u, d == y - v;
    if d >= 1 { assert(d * w >= w) by (nonlinear_arith) requires d >= 1, w >= 0; }
    if d <= -1 { assert(d * w <= -w) by (nonlinear_arith) requires d <= -1, w >= 0; }
}
pub proof fn lemma_on_range(l: Lay, s: int, i: int)
    requires 0 < l.w, 0 < l.h, on(l, s, i),
    ensures 0 <= i < l.n * (l.w * l.h),
{
    let (c, y, x) = choose|c: int, y: int, x: int| #[trigger] spot(l, s, i, c, y, x);
    let z = l.w * l.h; let w = l.w;
    assert(0 <= y * w && y * w + w <= z) by (nonlinear_arith) requires z == w * l.h, 0 <= y, y + 1 <= l.h, w > 0;
    assert(0 <= c * z && c * z + z <= l.n * z) by (nonlinear_arith) requires 0 <= c, c + 1 <= l.n, z > 0;
}
/// where a sample of a block is
pub proof fn lemma_lvl_spot(l: Lay, k: int, dc: bool, v: int, u: int)
    requires lay_ok(l), 0 <= k < total(l), lvl(bgeo(l, k), dc, v, u), dc ==> bcol(l, k) == 0 && brow(l, k) == 0,
    ensures ({ let g = bgeo(l, k); let y = g.y0 + v; let x = g.x0 + u; let i = at(g, y, x); spot(l, l.s, i, chan(l, k), y, x) && 0 <= i < l.n * (l.w * l.h) && (spot(l, 2 * l.s, i, chan(l, k), y, x) ==> dc && y == 0 && x == 0) && (dc && v == 0 && u == 0 ==> spot(l, 2 * l.s, i, chan(l, k), 0, 0)) }),
{
    let g = bgeo(l, k); let s = l.s; let n = usize::MAX as int;
    lemma_block(l, k, n); lemma_pos(l, k); lemma_pw(s);
    let y = g.y0 + v; let x = g.x0 + u;
    lemma_at(g, n, y, x);
    lemma_shift(v, g.y0, s); lemma_shift(u, g.x0, s);
    let i = at(g, y, x);
    if dc && v == 0 && u == 0 {
        assert(0 * l.b == 0);
        assert(mult(0, s) && mult(0, 2 * s)) by { reveal(mult); }
    } else {
        assert(touched(v, u, s));
        lemma_mult_sel(u, s);
        lemma_grid(y, s); lemma_grid(x, s);
    }
    assert(spot(l, s, i, chan(l, k), y, x));
    lemma_on_range(l, s, i);
}
pub proof fn lemma_mine(l: Lay, k: int, dc: bool, i: int)
    requires lay_ok(l), 0 <= k < total(l), mine(bgeo(l, k), dc, i), dc ==> bcol(l, k) == 0 && brow(l, k) == 0,
    ensures on(l, l.s, i), 0 <= i < l.n * (l.w * l.h), on(l, 2 * l.s, i) ==> dc,
{
    let g = bgeo(l, k);
    let (v, u) = choose|v: int, u: int| #[trigger] lvl(g, dc, v, u) && i == at(g, g.y0 + v, g.x0 + u);
    lemma_lvl_spot(l, k, dc, v, u);
    let y = g.y0 + v; let x = g.x0 + u;
    assert(spot(l, l.s, i, chan(l, k), y, x));
    if on(l, 2 * l.s, i) {
        let (c, v2, u2) = choose|c: int, y: int, x: int| #[trigger] spot(l, 2 * l.s, i, c, y, x);
        lemma_spot(l, 2 * l.s, l.s, i, c, v2, u2, chan(l, k), y, x);
    }
}
/// no sample belongs to two blocks
pub proof fn lemma_mine_one(l: Lay, j: int, k: int, dj: bool, dk: bool, i: int)
    requires lay_ok(l), 0 <= j < total(l), 0 <= k < total(l), mine(bgeo(l, j), dj, i), mine(bgeo(l, k), dk, i),
    ensures j == k,
{
    let g = bgeo(l, j); let f = bgeo(l, k);
    let (v, u) = choose|v: int, u: int| #[trigger] lvl(g, dj, v, u) && i == at(g, g.y0 + v, g.x0 + u);
    let (y, x) = choose|v: int, u: int| #[trigger] lvl(f, dk, v, u) && i == at(f, f.y0 + v, f.x0 + u);
    lemma_disjoint(l, j, k, l.n * (l.w * l.h), g.y0 + v, g.x0 + u, f.y0 + y, f.x0 + x);
}
/// whether block k begins with the first sample of its channel, on the first level
pub open spec fn dck(l: Lay, first: bool, k: int) -> bool { first && bcol(l, k) == 0 && brow(l, k) == 0 }
/// every sample of the level belongs to a block of it, unless it is one of a coarser level
pub proof fn lemma_cover(l: Lay, first: bool, i: int) -> (k: int)
    requires lay_ok(l), on(l, l.s, i), on(l, 2 * l.s, i) ==> first && l.w <= 2 * l.s && l.h <= 2 * l.s,
    ensures 0 <= k < total(l), mine(bgeo(l, k), dck(l, first, k), i),
{
    let s = l.s;
    let (c, y, x) = choose|c: int, y: int, x: int| #[trigger] spot(l, s, i, c, y, x);
    lemma_partition(l, c, y, x);
    let k = choose|k: int| 0 <= k < total(l) && #[trigger] holds(l, k, c, y, x);
    let g = bgeo(l, k); let v = y - g.y0; let u = x - g.x0;
    lemma_block(l, k, usize::MAX as int); lemma_pos(l, k); lemma_pw(s);
    lemma_shift(v, g.y0, s); lemma_shift(u, g.x0, s);
    lemma_grid(y, s); lemma_grid(x, s); lemma_grid(v, s); lemma_grid(u, s);
    if mult(y, 2 * s) && mult(x, 2 * s) {
        assert(spot(l, 2 * s, i, c, y, x));
        assert(y == 0) by { if y > 0 { lemma_grid(y, 2 * s); } }
        assert(x == 0) by { if x > 0 { lemma_grid(x, 2 * s); } }
        assert(g.x0 == 0 && g.y0 == 0);
        let bc = bcol(l, k); let br = brow(l, k);
        assert(bc == 0) by (nonlinear_arith) requires bc * l.b == 0, l.b > 0;
        assert(br == 0) by (nonlinear_arith) requires br * l.b == 0, l.b > 0;
        assert(lvl(g, dck(l, first, k), v, u));
    } else {
        lemma_gap0(v, s); lemma_gap0(u, s);
        assert(touched(v, u, s));
        assert(lvl(g, dck(l, first, k), v, u));
    }
    k
}
pub proof fn lemma_gap0(a: int, s: int) requires s > 0, a >= 0, mult(a, s), ensures sel(a, s) == !mult(a, 2 * s) { lemma_grid(a, s); }
/// coarser samples are among the finer ones
pub proof fn lemma_on_half(l: Lay, s: int, i: int)
    requires s > 0, on(l, 2 * s, i),
    ensures on(l, s, i),
{
    let (c, y, x) = choose|c: int, y: int, x: int| #[trigger] spot(l, 2 * s, i, c, y, x);
    lemma_mult_half(y, s); lemma_mult_half(x, s);
    assert(spot(l, s, i, c, y, x));
}
/// at distance 1 there are all
pub proof fn lemma_on_one(l: Lay, i: int)
    requires 0 < l.w, 0 < l.h, 0 <= i < l.n * (l.w * l.h),
    ensures on(l, 1, i),
{
    let z = l.w * l.h;
    assert(z > 0) by (nonlinear_arith) requires z == l.w * l.h, l.w > 0, l.h > 0;
    let c = i / z; let r = i % z; let y = r / l.w; let x = r % l.w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, z);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, l.w);
    assert(c >= 0 && c < l.n) by (nonlinear_arith) requires i == z * c + r, 0 <= r < z, 0 <= i < l.n * z, z > 0;
    assert(y >= 0 && y < l.h) by (nonlinear_arith) requires r == l.w * y + x, 0 <= x < l.w, 0 <= r < l.w * l.h, l.w > 0;
    assert(z * c == c * z && l.w * y == y * l.w) by (nonlinear_arith);
    assert(mult(y, 1) && mult(x, 1)) by { reveal(mult); }
    assert(spot(l, 1, i, c, y, x));
}
// ---------------------------------------------------------------- blocks without code
pub proof fn lemma_enc_u_len(x: u32, pot: int) ensures enc_u(x, pot).len() > 0 { if 0 <= pot <= 24 && x >> (pot as u32) >= 12 && esc(pot) <= x && esc(pot) > 0 { assert(zeros(12).len() == 12); } }
pub proof fn lemma_enc_len(s: int, k: (bool, int), pot: int, x: u32)
    ensures enc_k(s, k).len() > 0, enc_u(x, pot).len() > 0, enc_i(s, pot).len() > 0, enc_s(s, pot).len() > 0,
{ lemma_enc_u_len(x, pot); lemma_enc_u_len(zz(s), pot); lemma_enc_u_len(uabs(s), pot); lemma_enc_u_len(zz(s), k.1); lemma_enc_u_len(uabs(s), k.1); }
pub proof fn lemma_blk_len(cf: Cf, rem: Seq<It>, c: (u32, u32), rc: u32, run: int)
    requires rem.len() > 0 || run != 0,
    ensures blk(cf, rem, c, rc, run).len() > 0 || run < 0,
    decreases rem.len(),
{
    if rem.len() == 0 { lemma_enc_len(0, (true, 0), rc as int, run as u32); }
    else if rc != 0 && rem[0].v == 0 { if run >= 0 { lemma_blk_len(cf, rem.skip(1), c, rc, run + 1); } }
    else {
        let s = sh(rem[0].v, rc); let u = used(cf, c, rem[0]);
        lemma_enc_len(s, kind(sq32(u.0), u.1 as int, cf.chroma), 1, 0);
        assert(code1(cf, c, rc, rem[0]).len() > 0);
    }
}
pub proof fn lemma_rows_some(g: Geo, m: Seq<i16>, y: int, v: int, u: int)
    requires g.s > 0, mult(y, g.s), 0 <= y <= v, inb(g, v, u), touched(v, u, g.s),
    ensures rows(g, m, y).len() > 0,
    decreases v - y,
{
    let s = g.s;
    lemma_grid(y, s);
    if y == v {
        let x = if sel(y, s) { 0 } else { s };
        if !sel(y, s) { assert(u >= s) by { if u < s { reveal(sel); vstd::arithmetic::div_mod::lemma_small_mod(u as nat, (2 * s) as nat); } } }
        assert(row(g, m, y, x).len() > 0);
    } else {
        lemma_gap(y, v, s);
        lemma_rows_some(g, m, y + s, v, u);
    }
}
/// a block whose code is empty holds no sample
pub proof fn lemma_empty(g: Geo, m: Seq<i16>, cf: Cf, dc: bool, i: int)
    requires geo_ok(g, m.len() as int), block(g, m, cf, dc).len() == 0, 
    ensures !mine(g, dc, i),
{
    if mine(g, dc, i) {
        let (v, u) = choose|v: int, u: int| #[trigger] lvl(g, dc, v, u) && i == at(g, g.y0 + v, g.x0 + u);
        if dc && inb(g, 0, 0) { lemma_enc_len(val(g, m, 0, 0) as int, (true, 4), 4, 0); }
        else {
            lemma_start(g, m);
            lemma_rows_some(g, m, 0, v, u);
            lemma_blk_len(cf, rows(g, m, 0), (0, 0), rc0(cf, g.s), 0);
        }
    }
}
'''
