"""Theory of reading the levels one after the other (C13, C14)."""
PASS = r'''
// ---------------------------------------------------------------- one level
pub open spec fn alter(l: Lay, first: bool, j: int, i: int) -> bool { exists|k: int| 0 <= k < j && #[trigger] mine(bgeo(l, k), dck(l, first, k), i) }
/// after j blocks of a level: a before it, m now; pres: which blocks are complete
pub open spec fn done(l: Lay, first: bool, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>, j: int, pres: Seq<bool>, hyp: bool) -> bool {
    &&& m.len() == a.len()
    &&& forall|i: int| 0 <= i < m.len() && #[trigger] m[i] != a[i] ==> alter(l, first, j, i)
    &&& hyp ==> forall|k: int, i: int| 0 <= k < j && #[trigger] mine(bgeo(l, k), dck(l, first, k), i) ==> m[i] == (if pres[k] { im[i] } else { a[i] })
}
pub proof fn lemma_done0(l: Lay, first: bool, a: Seq<i16>, im: Seq<i16>, pres: Seq<bool>, hyp: bool) ensures done(l, first, a, a, im, 0, pres, hyp) {}
pub proof fn lemma_framed(g: Geo, dc: bool, a: Seq<i16>, b: Seq<i16>, i: int)
    requires frame(g, dc, a, b), 0 <= i < a.len(), b[i] != a[i],
    ensures mine(g, dc, i),
{
    let (v, u) = choose|v: int, u: int| #[trigger] lvl(g, dc, v, u) && i == at(g, g.y0 + v, g.x0 + u);
    assert(lvl(g, dc, v, u) && i == at(g, g.y0 + v, g.x0 + u));
}
pub proof fn lemma_done_step(l: Lay, first: bool, a: Seq<i16>, m: Seq<i16>, n: Seq<i16>, im: Seq<i16>, j: int, pres: Seq<bool>, hyp: bool)
    requires lay_ok(l), 0 <= j < total(l), l.n * (l.w * l.h) <= m.len(), done(l, first, a, m, im, j, pres, hyp), frame(bgeo(l, j), dck(l, first, j), m, n),
        hyp ==> if pres[j] { decoded(bgeo(l, j), n, im, dck(l, first, j)) } else { n == m },
    ensures done(l, first, a, n, im, j + 1, pres, hyp),
{
    let g = bgeo(l, j); let dc = dck(l, first, j);
    assert forall|i: int| 0 <= i < n.len() && #[trigger] n[i] != a[i] implies alter(l, first, j + 1, i) by {
        if m[i] != a[i] { assert(alter(l, first, j, i)); let k = choose|k: int| 0 <= k < j && #[trigger] mine(bgeo(l, k), dck(l, first, k), i); assert(0 <= k < j + 1 && mine(bgeo(l, k), dck(l, first, k), i)); }
        else { lemma_framed(g, dc, m, n, i); assert(0 <= j < j + 1 && mine(bgeo(l, j), dck(l, first, j), i)); }
    }
    if hyp {
        assert forall|k: int, i: int| 0 <= k < j + 1 && #[trigger] mine(bgeo(l, k), dck(l, first, k), i) implies n[i] == (if pres[k] { im[i] } else { a[i] }) by {
            lemma_mine(l, k, dck(l, first, k), i);
            if k < j {
                if n[i] != m[i] { lemma_framed(g, dc, m, n, i); lemma_mine_one(l, k, j, dck(l, first, k), dc, i); }
            } else {
                if pres[j] { let (v, u) = choose|v: int, u: int| #[trigger] lvl(g, dc, v, u) && i == at(g, g.y0 + v, g.x0 + u); assert(val(g, n, v, u) == val(g, im, v, u)); }
                else {
                    if m[i] != a[i] { assert(alter(l, first, j, i)); let k2 = choose|k: int| 0 <= k < j && #[trigger] mine(bgeo(l, k), dck(l, first, k), i); lemma_mine_one(l, k2, j, dck(l, first, k2), dc, i); }
                }
            }
        }
    }
}
/// the blocks that are left when the data ends: missing, or without samples
pub proof fn lemma_done_rest(l: Lay, first: bool, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>, j: int, pres: Seq<bool>, hyp: bool)
    requires lay_ok(l), 0 <= j <= total(l), l.n * (l.w * l.h) <= m.len(), done(l, first, a, m, im, j, pres, hyp),
        hyp ==> forall|k: int, i: int| j <= k < total(l) && #[trigger] mine(bgeo(l, k), dck(l, first, k), i) ==> !pres[k],
    ensures done(l, first, a, m, im, total(l), pres, hyp),
{
    assert forall|i: int| 0 <= i < m.len() && #[trigger] m[i] != a[i] implies alter(l, first, total(l), i) by {
        assert(alter(l, first, j, i)); let k = choose|k: int| 0 <= k < j && #[trigger] mine(bgeo(l, k), dck(l, first, k), i);
    }
    if hyp {
        assert forall|k: int, i: int| 0 <= k < total(l) && #[trigger] mine(bgeo(l, k), dck(l, first, k), i) implies m[i] == (if pres[k] { im[i] } else { a[i] }) by {
            if k >= j {
                lemma_mine(l, k, dck(l, first, k), i);
                if m[i] != a[i] { assert(alter(l, first, j, i)); let k2 = choose|k: int| 0 <= k < j && #[trigger] mine(bgeo(l, k), dck(l, first, k), i); lemma_mine_one(l, k2, k, dck(l, first, k2), dck(l, first, k), i); }
            }
        }
    }
}
/// the samples of a level and of all coarser ones
pub open spec fn good(l: Lay, s: int, m: Seq<i16>, im: Seq<i16>) -> bool { forall|i: int| #[trigger] on(l, s, i) ==> m[i] == im[i] }
/// what the decoder of a block relies on
pub proof fn lemma_coarse(l: Lay, first: bool, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>, j: int, k: int, pres: Seq<bool>, hyp: bool, v: int, u: int)
    requires lay_ok(l), 0 <= j <= k < total(l), l.n * (l.w * l.h) <= m.len() <= usize::MAX, done(l, first, a, m, im, j, pres, hyp), l.b >= 4 * l.s,
        if first { l.w <= 2 * l.s && l.h <= 2 * l.s } else { good(l, 2 * l.s, a, im) },
        inb(bgeo(l, k), v, u), mult(v, 2 * l.s), mult(u, 2 * l.s), !(dck(l, first, k) && v == 0 && u == 0),
    ensures val(bgeo(l, k), m, v, u) == val(bgeo(l, k), im, v, u),
{
    let g = bgeo(l, k); let s = l.s;
    lemma_block(l, k, m.len() as int); lemma_pos(l, k); lemma_pw(s);
    let y = g.y0 + v; let x = g.x0 + u; let i = at(g, y, x);
    lemma_at(g, m.len() as int, y, x);
    let by = brow(l, k); let bx = bcol(l, k);
    if first {
        assert(by == 0) by (nonlinear_arith) requires by * l.b < l.h, l.h <= 2 * s, l.b >= 4 * s, by >= 0, s > 0;
        assert(bx == 0) by (nonlinear_arith) requires bx * l.b < l.w, l.w <= 2 * s, l.b >= 4 * s, bx >= 0, s > 0;
        if v > 0 { lemma_grid(v, 2 * s); } if u > 0 { lemma_grid(u, 2 * s); }
        assert(0 * l.b == 0);
        assert(false);
    } else {
        lemma_mult_add(v, g.y0, 2 * s); lemma_mult_add(u, g.x0, 2 * s);
        assert(spot(l, 2 * s, i, chan(l, k), y, x));
        assert(on(l, 2 * s, i));
        if m[i] != a[i] {
            assert(alter(l, first, j, i)); let k2 = choose|k: int| 0 <= k < j && #[trigger] mine(bgeo(l, k), dck(l, first, k), i);
            lemma_mine(l, k2, dck(l, first, k2), i);
        }
    }
}
pub proof fn lemma_mult_add(a: int, b: int, s: int) requires s > 0, mult(a, s), mult(b, s) ensures mult(a + b, s) { reveal(mult); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, s); let q = b / s; vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, a, s); assert(s * q + a == a + b); }
/// a complete level
pub proof fn lemma_level_good(l: Lay, first: bool, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>, pres: Seq<bool>)
    requires lay_ok(l), l.n * (l.w * l.h) <= m.len(), done(l, first, a, m, im, total(l), pres, true), forall|k: int| 0 <= k < total(l) ==> pres[k],
        if first { l.w <= 2 * l.s && l.h <= 2 * l.s } else { good(l, 2 * l.s, a, im) },
    ensures good(l, l.s, m, im),
{
    assert forall|i: int| #[trigger] on(l, l.s, i) implies m[i] == im[i] by {
        lemma_on_range(l, l.s, i);
        if on(l, 2 * l.s, i) && !first {
            if m[i] != a[i] { assert(alter(l, first, total(l), i)); let k2 = choose|k: int| 0 <= k < total(l) && #[trigger] mine(bgeo(l, k), dck(l, first, k), i); lemma_mine(l, k2, dck(l, first, k2), i); }
        } else {
            let k = lemma_cover(l, first, i);
            assert(mine(bgeo(l, k), dck(l, first, k), i));
        }
    }
}
// ---------------------------------------------------------------- all levels
pub proof fn lemma_dck(h: Header, d: int, e: int, k: int) ensures dcf(h, d, e, k) == dck(lv(h, d, e), e == e0(h), k) {}
/// complete blocks are decoded, the samples of the others are as before
pub open spec fn settled(b: Seq<u8>, h: Header, d: int, e: int, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>) -> bool {
    forall|f: int, k: int, i: int| e <= f <= e0(h) && 0 <= k < nb(h, f) && #[trigger] mine(bgeo(lv(h, d, f), k), dcf(h, d, f, k), i) ==> m[i] == (if present(b, h, f, k) { im[i] } else { a[i] })
}
/// the levels above e have been read: a at the beginning, m now
pub open spec fn head(b: Seq<u8>, h: Header, d: int, e: int, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>, hyp: bool) -> bool {
    &&& m.len() == a.len()
    &&& forall|i: int| 0 <= i < m.len() && #[trigger] m[i] != a[i] ==> e < e0(h) && on(lv(h, d, e + 1), lv(h, d, e + 1).s, i)
    &&& hyp ==> settled(b, h, d, e + 1, a, m, im)
    &&& hyp && e < e0(h) && pos(b, h, e) <= b.len() ==> good(lv(h, d, e + 1), lv(h, d, e + 1).s, m, im)
}
pub proof fn lemma_head0(b: Seq<u8>, h: Header, d: int, a: Seq<i16>, im: Seq<i16>, hyp: bool) ensures head(b, h, d, e0(h), a, a, im, hyp) {}
/// samples of coarser levels
pub proof fn lemma_on_up(h: Header, d: int, e: int, f: int, i: int)
    requires hok(h), 0 <= d <= e <= f <= e0(h), on(lv(h, d, f), lv(h, d, f).s, i),
    ensures on(lv(h, d, e), lv(h, d, e).s, i),
    decreases f - e,
{
    if e < f {
        lemma_on_next(h, d, f, i);
        lemma_p2(f - 1 - d, 0);
        lemma_on_half(lv(h, d, f - 1), lv(h, d, f - 1).s, i);
        lemma_on_up(h, d, e, f - 1, i);
    }
}
pub proof fn lemma_on_next(h: Header, d: int, f: int, i: int)
    requires 0 <= d < f,
    ensures on(lv(h, d, f), lv(h, d, f).s, i) == on(lv(h, d, f - 1), 2 * lv(h, d, f - 1).s, i), lv(h, d, f).s == 2 * lv(h, d, f - 1).s,
{
    lemma_p2(f - 1 - d, 0);
    let l = lv(h, d, f); let k = lv(h, d, f - 1);
    assert(l.s == 2 * k.s);
    if on(l, l.s, i) { let (c, y, x) = choose|c: int, y: int, x: int| #[trigger] spot(l, l.s, i, c, y, x); assert(spot(k, 2 * k.s, i, c, y, x)); }
    if on(k, 2 * k.s, i) { let (c, y, x) = choose|c: int, y: int, x: int| #[trigger] spot(k, 2 * k.s, i, c, y, x); assert(spot(l, l.s, i, c, y, x)); }
}
pub proof fn lemma_first(h: Header, d: int)
    requires hok(h), 0 <= d <= e0(h),
    ensures lv(h, d, e0(h)).w <= 2 * lv(h, d, e0(h)).s, lv(h, d, e0(h)).h <= 2 * lv(h, d, e0(h)).s,
{
    let e = e0(h); let l = lv(h, d, e);
    lemma_top(h, 0); lemma_p2(d, e - d);
    let u = 2 * l.s;
    assert(u * p2(d) == 2 * p2(e)) by (nonlinear_arith) requires u == 2 * l.s, p2(e) == p2(d) * l.s;
    lemma_cdiv(h.width as int, p2(d), u); lemma_cdiv(h.height as int, p2(d), u);
}
/// levels lie one behind the other
pub proof fn lemma_off(b: Seq<u8>, p: int, n: int, k: int)
    requires 0 <= k <= n,
    ensures p + 4 * n <= off(b, p, n, k) <= off(b, p, n, n), k < n ==> off(b, p, n, k) <= off(b, p, n, k + 1) <= off(b, p, n, n), off(b, p, n, 0) == p + 4 * n,
{ lemma_ssum(b, p, 0, k); lemma_ssum(b, p, k, n); if k < n { lemma_ssum(b, p, k, k + 1); lemma_ssum(b, p, k + 1, n); } }
pub proof fn lemma_pos_mono(b: Seq<u8>, h: Header, e: int, f: int)
    requires hok(h), -1 <= e < f <= e0(h),
    ensures pos(b, h, e) >= pos(b, h, f) + 4 * nb(h, f), pos(b, h, f) >= 0, forall|k: int| 0 <= k < nb(h, f) ==> #[trigger] off(b, pos(b, h, f), nb(h, f), k + 1) <= pos(b, h, e),
    decreases f - e,
{
    lemma_lv(h, 0, f);
    let p = pos(b, h, f); let n = nb(h, f);
    lemma_pos_nonneg(b, h, f);
    if e + 1 < f { lemma_pos_mono(b, h, e + 1, f); lemma_pos_mono(b, h, e, e + 1); lemma_lv(h, 0, e + 1); }
    else {
        lemma_off(b, p, n, n);
        assert forall|k: int| 0 <= k < n implies #[trigger] off(b, p, n, k + 1) <= pos(b, h, e) by { lemma_off(b, p, n, k + 1); }
    }
}
pub proof fn lemma_pos_nonneg(b: Seq<u8>, h: Header, e: int)
    requires hok(h), -1 <= e <= e0(h),
    ensures pos(b, h, e) >= 0,
    decreases e0(h) - e,
{ if e < e0(h) { lemma_pos_nonneg(b, h, e + 1); lemma_lv(h, 0, e + 1); lemma_off(b, pos(b, h, e + 1), nb(h, e + 1), nb(h, e + 1)); } }
pub proof fn lemma_head_step(b: Seq<u8>, h: Header, d: int, e: int, a: Seq<i16>, m: Seq<i16>, n: Seq<i16>, im: Seq<i16>, pres: Seq<bool>, hyp: bool)
    requires hok(h), 0 <= d <= e <= e0(h), lv(h, d, e).n * (lv(h, d, e).w * lv(h, d, e).h) <= a.len(), head(b, h, d, e, a, m, im, hyp), done(lv(h, d, e), e == e0(h), m, n, im, nb(h, e), pres, hyp),
        forall|k: int| 0 <= k < nb(h, e) ==> pres[k] == #[trigger] present(b, h, e, k), pos(b, h, e) <= b.len(),
    ensures head(b, h, d, e - 1, a, n, im, hyp),
{
    let l = lv(h, d, e); let first = e == e0(h);
    lemma_lv(h, d, e); lemma_first(h, d); lemma_pw(l.s);
    if !first { lemma_on_all(h, d, e + 1); }
    assert forall|i: int| 0 <= i < n.len() && #[trigger] n[i] != a[i] implies on(l, l.s, i) by {
        if m[i] != a[i] { lemma_on_up(h, d, e, e + 1, i); }
        else { assert(n[i] != m[i]); assert(alter(l, first, nb(h, e), i)); let k = choose|k: int| 0 <= k < nb(h, e) && #[trigger] mine(bgeo(l, k), dck(l, first, k), i); lemma_mine(l, k, dck(l, first, k), i); }
    }
    if hyp {
        assert forall|f: int, k: int, i: int| e <= f <= e0(h) && 0 <= k < nb(h, f) && #[trigger] mine(bgeo(lv(h, d, f), k), dcf(h, d, f, k), i) implies n[i] == (if present(b, h, f, k) { im[i] } else { a[i] }) by {
            let lf = lv(h, d, f);
            lemma_lv(h, d, f);
            lemma_dck(h, d, f, k);
            lemma_mine(lf, k, dcf(h, d, f, k), i);
            if f > e {
                assert(m[i] == (if present(b, h, f, k) { im[i] } else { a[i] }));
                if n[i] != m[i] {
                    assert(alter(l, first, nb(h, e), i)); let k2 = choose|k: int| 0 <= k < nb(h, e) && #[trigger] mine(bgeo(l, k), dck(l, first, k), i); lemma_mine(l, k2, dck(l, first, k2), i);
                    lemma_on_up(h, d, e + 1, f, i);
                    lemma_on_next(h, d, e + 1, i);
                }
            } else {
                assert(pres[k] == present(b, h, e, k));
                assert(mine(bgeo(l, k), dck(l, first, k), i));
                assert(n[i] == (if pres[k] { im[i] } else { m[i] }));
                if m[i] != a[i] { lemma_on_next(h, d, e + 1, i); assert(on(l, 2 * l.s, i)); }
            }
        }
        if pos(b, h, e - 1) <= b.len() {
            lemma_pos_mono(b, h, e - 1, e);
            assert forall|k: int| 0 <= k < total(l) implies pres[k] by { assert(present(b, h, e, k)); }
            if !first {
                assert forall|i: int| #[trigger] on(l, 2 * l.s, i) implies m[i] == im[i] by { lemma_on_next(h, d, e + 1, i); }
            }
            lemma_level_good(l, first, m, n, im, pres);
        }
    }
}
pub proof fn lemma_on_all(h: Header, d: int, f: int)
    requires hok(h), 0 <= d < f <= e0(h),
    ensures forall|i: int| on(lv(h, d, f), lv(h, d, f).s, i) == #[trigger] on(lv(h, d, f - 1), 2 * lv(h, d, f - 1).s, i),
{ assert forall|i: int| on(lv(h, d, f), lv(h, d, f).s, i) == #[trigger] on(lv(h, d, f - 1), 2 * lv(h, d, f - 1).s, i) by { lemma_on_next(h, d, f, i); } }
/// levels that aren't there
pub proof fn lemma_head_end(b: Seq<u8>, h: Header, d: int, e: int, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>)
    requires hok(h), 0 <= d <= e0(h), d - 1 <= e <= e0(h), lv(h, d, e0(h)).n * (lv(h, d, e0(h)).w * lv(h, d, e0(h)).h) <= a.len(), head(b, h, d, e, a, m, im, true),
        e >= d ==> pos(b, h, e) + 4 * nb(h, e) > b.len(),
    ensures settled(b, h, d, d, a, m, im),
        e == d - 1 && pos(b, h, e) <= b.len() ==> forall|i: int| 0 <= i < lv(h, d, d).n * (lv(h, d, d).w * lv(h, d, d).h) ==> #[trigger] m[i] == im[i],
{
    assert forall|f: int, k: int, i: int| d <= f <= e0(h) && 0 <= k < nb(h, f) && #[trigger] mine(bgeo(lv(h, d, f), k), dcf(h, d, f, k), i) implies m[i] == (if present(b, h, f, k) { im[i] } else { a[i] }) by {
        if f <= e {
            let l = lv(h, d, f);
            lemma_lv(h, d, f); lemma_dck(h, d, f, k); lemma_mine(l, k, dcf(h, d, f, k), i);
            if f < e { lemma_pos_mono(b, h, f, e); }
            assert(!present(b, h, f, k)) by { lemma_lv(h, 0, f); }
            if m[i] != a[i] {
                lemma_on_up(h, d, f + 1, e + 1, i);
                lemma_on_next(h, d, f + 1, i);
            }
        }
    }
    if e == d - 1 && pos(b, h, e) <= b.len() {
        let l = lv(h, d, d);
        lemma_lv(h, d, d);
        lemma_p2(0, 0);
        assert forall|i: int| 0 <= i < l.n * (l.w * l.h) implies #[trigger] m[i] == im[i] by { lemma_on_one(l, i); }
    }
}
'''
