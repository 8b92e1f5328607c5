"""Theory shared by the two lifting units (C07): a pass adds to every second sample (row) a function of the others;
the pass with the negated divider takes it away again.  The unit supplies
  hd(c, x, s, d)       what a horizontal pass adds to sample x of row c
  vd(img, y, x, s, d)  what a vertical pass adds to sample x of row y
and proves for them: they depend on unselected samples only and are odd in d."""

BASE = r'''
/// contents of the rows when the borrow of each of them ends
#[verifier::prophetic]
pub open spec fn vf(img: Seq<&mut [i16]>) -> Seq<Seq<i16>> { Seq::new(img.len(), |y: int| final(img[y])@) }
pub proof fn lemma_vf(a: Seq<&mut [i16]>, b: Seq<&mut [i16]>, k: int)
    requires a.len() == b.len(), forall|y: int| 0 <= y < a.len() && y != k ==> b[y] == a[y], 0 <= k < a.len() ==> final(b[k])@ == final(a[k])@,
    ensures vf(a) == vf(b),
{ assert(vf(a) =~= vf(b)); }
// ---------------------------------------------------------------- arithmetic
pub open spec fn w16(x: int) -> i16 { ((x + 32768) % 65536 - 32768) as i16 }
pub open spec fn wadd(a: i16, b: int) -> i16 { w16(a + b) }
pub proof fn lemma_wadd(a: i16, b: int)
    ensures -32768 <= (a + b + 32768) % 65536 - 32768 <= 32767, wadd(wadd(a, b), -b) == a,
        -98304 <= a + b <= 98303 ==> wadd(a, b) == (if a + b > 32767 { a + b - 65536 } else if a + b < -32768 { a + b + 65536 } else { a + b }),
        forall|c: int| #[trigger] wadd(a, c) == wadd(a, b) <== (c - b) % 65536 == 0,
{
    assert forall|c: int| (c - b) % 65536 == 0 implies #[trigger] wadd(a, c) == wadd(a, b) by {
        let k = (c - b) / 65536;
        assert(a + c + 32768 == (a + b + 32768) + 65536 * k);
        vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, a + b + 32768, 65536);
    }
    let r = (a + b + 32768) % 65536 - 32768;
    let k = (a + b + 32768) / 65536;
    assert(r - b == a - 65536 * k);
    assert(w16(a + b) == r);
    assert(r - b + 32768 == 65536 * (-k) + (a + 32768));
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-k, a + 32768, 65536);
}
pub proof fn lemma_tdiv_neg(a: int, d: int)
    requires d != 0,
    ensures tdiv(a, -d) == -tdiv(a, d),
{ reveal(tdiv); }
#[verifier::opaque]
pub open spec fn mult(x: int, s: int) -> bool { x % s == 0 }
/// every second multiple of s
#[verifier::opaque]
pub open spec fn sel(y: int, s: int) -> bool { y % (2 * s) == s }
pub proof fn lemma_sel(z: int, s: int)
    requires s > 0, z >= 0, sel(z, s),
    ensures sel(z + 2 * s, s), z >= s, !sel(z - s, s), forall|y: int| z < y < z + 2 * s ==> !#[trigger] sel(y, s),
{
    reveal(sel);
    let q = z / (2 * s);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z, 2 * s);
    assert(q >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(z, 2 * s); }
    assert(z == q * (2 * s) + s) by (nonlinear_arith) requires z == (2 * s) * q + s;
    assert(z >= s) by (nonlinear_arith) requires z == q * (2 * s) + s, q >= 0, s > 0;
    assert(z + 2 * s == (q + 1) * (2 * s) + s) by (nonlinear_arith) requires z == q * (2 * s) + s;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(z + 2 * s, 2 * s, q + 1, s);
    assert(z - s == q * (2 * s) + 0);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(z - s, 2 * s, q, 0);
    assert forall|y: int| z < y < z + 2 * s implies !#[trigger] sel(y, s) by {
        let j = y - z;
        if j < s { assert(y == q * (2 * s) + (s + j)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y, 2 * s, q, s + j); }
        else {
            assert(y == (q + 1) * (2 * s) + (j - s)) by (nonlinear_arith) requires z == q * (2 * s) + s, j == y - z;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y, 2 * s, q + 1, j - s);
        }
    }
}
pub proof fn lemma_sel_before(z: int, s: int)
    requires s > 0, z >= 0, sel(z, s),
    ensures forall|y: int| z - s <= y < z ==> !#[trigger] sel(y, s),
{
    reveal(sel);
    let q = z / (2 * s);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z, 2 * s);
    assert forall|y: int| z - s <= y < z implies !#[trigger] sel(y, s) by {
        assert(y == q * (2 * s) + (y - z + s)) by (nonlinear_arith) requires z == (2 * s) * q + s;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y, 2 * s, q, y - z + s);
    }
}
pub proof fn lemma_sel_start(s: int)
    requires s > 0,
    ensures sel(s, s), forall|y: int| 0 <= y < s ==> !#[trigger] sel(y, s),
{
    reveal(sel);
    vstd::arithmetic::div_mod::lemma_small_mod(s as nat, (2 * s) as nat);
    assert forall|y: int| 0 <= y < s implies !#[trigger] sel(y, s) by { vstd::arithmetic::div_mod::lemma_small_mod(y as nat, (2 * s) as nat); }
}
/// neighbours at odd distances of a selected sample are not selected
pub proof fn lemma_sel_nb(z: int, s: int)
    requires s > 0, z >= 0, sel(z, s),
    ensures z >= s, !sel(z - s, s), !sel(z + s, s), !sel(z + 3 * s, s), z >= 3 * s ==> !sel(z - 3 * s, s),
{
    reveal(sel);
    lemma_sel(z, s);
    lemma_sel(z + 2 * s, s);
    if z >= 3 * s {
        let q = z / (2 * s);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z, 2 * s);
        assert(z - 3 * s == (q - 1) * (2 * s) + 0) by (nonlinear_arith) requires z == (2 * s) * q + s;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(z - 3 * s, 2 * s, q - 1, 0);
    }
}
/// block of 2 s indices that starts at a multiple of 2 s
pub proof fn lemma_sel_block(p: int, s: int)
    requires s > 0, p >= 0, p % (2 * s) == 0,
    ensures sel(p + s, s), (p + 2 * s) % (2 * s) == 0, forall|y: int| p <= y < p + 3 * s && y != p + s ==> !#[trigger] sel(y, s),
{
    reveal(sel);
    let q = p / (2 * s);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, 2 * s);
    assert(p + s == q * (2 * s) + s) by (nonlinear_arith) requires p == (2 * s) * q + 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p + s, 2 * s, q, s);
    assert(p + 2 * s == (q + 1) * (2 * s) + 0) by (nonlinear_arith) requires p == (2 * s) * q + 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p + 2 * s, 2 * s, q + 1, 0);
    assert forall|y: int| p <= y < p + 3 * s && y != p + s implies !#[trigger] sel(y, s) by {
        if y < p + s { assert(y == q * (2 * s) + (y - p)) by (nonlinear_arith) requires p == (2 * s) * q + 0; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y, 2 * s, q, y - p); }
        else { lemma_sel(p + s, s); }
    }
}
pub proof fn lemma_mult(z: int, s: int)
    requires s > 0, z >= 0, mult(z, s),
    ensures mult(z + s, s), forall|y: int| z < y < z + s ==> !#[trigger] mult(y, s),
{
    reveal(mult);
    let q = z / s;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z, s);
    assert(z + s == (q + 1) * s + 0) by (nonlinear_arith) requires z == s * q + 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(z + s, s, q + 1, 0);
    assert forall|y: int| z < y < z + s implies !#[trigger] mult(y, s) by {
        assert(y == q * s + (y - z)) by (nonlinear_arith) requires z == s * q + 0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y, s, q, y - z);
    }
}
pub proof fn lemma_mult0(s: int)
    requires s > 0,
    ensures mult(0, s),
{ reveal(mult); vstd::arithmetic::div_mod::lemma_small_mod(0, s as nat); }
'''

PASSES = r'''
// ---------------------------------------------------------------- passes
/// horizontal pass: updates the samples s, 3s, 5s, ...
pub open spec fn hp(c: Seq<i16>, s: int, d: int) -> Seq<i16> { Seq::new(c.len(), |x: int| if sel(x, s) { wadd(c[x], hd(c, x, s, d)) } else { c[x] }) }
/// the same, starting at sample `off`
pub open spec fn hpo(c: Seq<i16>, off: int, s: int, d: int) -> Seq<i16> { c.take(off) + hp(c.skip(off), s, d) }
pub open spec fn vrow(img: Seq<Seq<i16>>, y: int, s: int, d: int) -> Seq<i16> {
    Seq::new(img[y].len(), |x: int| if mult(x, s) { wadd(img[y][x], vd(img, y, x, s, d)) } else { img[y][x] })
}
/// vertical pass: updates the rows s, 3s, 5s, ...
pub open spec fn vp(img: Seq<Seq<i16>>, s: int, d: int) -> Seq<Seq<i16>> { Seq::new(img.len(), |y: int| if sel(y, s) { vrow(img, y, s, d) } else { img[y] }) }
pub open spec fn vpo(img: Seq<Seq<i16>>, off: int, s: int, d: int) -> Seq<Seq<i16>> { img.take(off) + vp(img.skip(off), s, d) }

pub proof fn lemma_hp_inv(c: Seq<i16>, s: int, d: int)
    requires s > 0, d != 0,
    ensures hp(hp(c, s, d), s, -d) =~= c,
{
    let e = hp(c, s, d);
    assert forall|x: int| 0 <= x < c.len() implies hp(e, s, -d)[x] == c[x] by {
        if sel(x, s) { lemma_hd(c, e, x, s, d); lemma_wadd(c[x], hd(c, x, s, d)); }
    }
}
pub proof fn lemma_hpo_inv(c: Seq<i16>, off: int, s: int, d: int)
    requires s > 0, d != 0, 0 <= off <= c.len(),
    ensures hpo(hpo(c, off, s, d), off, s, -d) =~= c,
{
    lemma_hp_inv(c.skip(off), s, d);
    let e = hpo(c, off, s, d);
    assert(e.skip(off) =~= hp(c.skip(off), s, d));
    assert(e.take(off) =~= c.take(off));
}
pub open spec fn rect(img: Seq<Seq<i16>>, w: int) -> bool { forall|y: int| 0 <= y < img.len() ==> (#[trigger] img[y]).len() == w }
pub proof fn lemma_vp_inv(img: Seq<Seq<i16>>, w: int, s: int, d: int)
    requires s > 0, d != 0, rect(img, w),
    ensures vp(vp(img, s, d), s, -d) =~= img, rect(vp(img, s, d), w),
{
    let e = vp(img, s, d);
    assert forall|y: int| 0 <= y < img.len() implies vp(e, s, -d)[y] == img[y] by {
        if sel(y, s) {
            let r = vp(e, s, -d)[y];
            assert forall|x: int| 0 <= x < w implies r[x] == img[y][x] by {
                if mult(x, s) { lemma_vd(img, e, w, y, x, s, d); lemma_wadd(img[y][x], vd(img, y, x, s, d)); }
            }
            assert(r =~= img[y]);
        }
    }
}
pub proof fn lemma_vpo_inv(img: Seq<Seq<i16>>, w: int, off: int, s: int, d: int)
    requires s > 0, d != 0, rect(img, w), 0 <= off <= img.len(),
    ensures vpo(vpo(img, off, s, d), off, s, -d) =~= img, rect(vpo(img, off, s, d), w),
{
    assert(rect(img.skip(off), w));
    lemma_vp_inv(img.skip(off), w, s, d);
    let e = vpo(img, off, s, d);
    assert(e.skip(off) =~= vp(img.skip(off), s, d));
    assert(e.take(off) =~= img.take(off));
}
// ---------------------------------------------------------------- levels; H1, H2, V1, V2: dividers of the forward passes
pub open spec fn hfwd(c: Seq<i16>, s: int) -> Seq<i16> { hpo(hpo(c, 0, s, %(H1)s), s, s, %(H2)s) }
pub open spec fn hinv(c: Seq<i16>, s: int) -> Seq<i16> { hpo(hpo(c, s, s, -(%(H2)s)), 0, s, -(%(H1)s)) }
pub open spec fn vfwd(g: Seq<Seq<i16>>, s: int) -> Seq<Seq<i16>> { vpo(vpo(g, 0, s, %(V1)s), s, s, %(V2)s) }
pub open spec fn vinv(g: Seq<Seq<i16>>, s: int) -> Seq<Seq<i16>> { vpo(vpo(g, s, s, -(%(V2)s)), 0, s, -(%(V1)s)) }
pub open spec fn hrows(g: Seq<Seq<i16>>, s: int) -> Seq<Seq<i16>> { Seq::new(g.len(), |y: int| if mult(y, s) { hfwd(g[y], s) } else { g[y] }) }
pub open spec fn hrows_inv(g: Seq<Seq<i16>>, s: int) -> Seq<Seq<i16>> { Seq::new(g.len(), |y: int| if mult(y, s) { hinv(g[y], s) } else { g[y] }) }
pub open spec fn level(g: Seq<Seq<i16>>, h: int, w: int, s: int) -> Seq<Seq<i16>> {
    let a = if s < w { hrows(g, s) } else { g };
    if s < h { vfwd(a, s) } else { a }
}
pub open spec fn unlevel(g: Seq<Seq<i16>>, h: int, w: int, s: int) -> Seq<Seq<i16>> {
    let a = if s < h { vinv(g, s) } else { g };
    if s < w { hrows_inv(a, s) } else { a }
}
pub open spec fn lift_from(g: Seq<Seq<i16>>, h: int, w: int, s: int) -> Seq<Seq<i16>>
    decreases (if s >= h && s >= w { 0 } else if h >= w { h - s } else { w - s }),
{
    if s <= 0 || s >= h && s >= w { g } else { lift_from(level(g, h, w, s), h, w, 2 * s) }
}
pub open spec fn unlift_from(g: Seq<Seq<i16>>, h: int, w: int, s: int) -> Seq<Seq<i16>> decreases s {
    if s <= 0 { g } else { unlift_from(unlevel(g, h, w, s), h, w, s / 2) }
}
/// coarsest step
pub open spec fn top(h: int, w: int, s: int) -> int
    decreases (if 2 * s < h || 2 * s < w { if h >= w { h - s } else { w - s } } else { 0 }),
{
    if s > 0 && (2 * s < h || 2 * s < w) { top(h, w, 2 * s) } else { s }
}
pub proof fn lemma_lift_step(g: Seq<Seq<i16>>, h: int, w: int, s: int)
    ensures s > 0 && (s < h || s < w) ==> lift_from(g, h, w, s) == lift_from(level(g, h, w, s), h, w, 2 * s) && level(g, h, w, s) == (if s < h { vfwd(if s < w { hrows(g, s) } else { g }, s) } else { if s < w { hrows(g, s) } else { g } }),
        !(s > 0 && (s < h || s < w)) ==> lift_from(g, h, w, s) == g,
{ }
pub proof fn lemma_unlift_step(g: Seq<Seq<i16>>, h: int, w: int, s: int)
    ensures s > 0 ==> unlift_from(g, h, w, s) == unlift_from(unlevel(g, h, w, s), h, w, s / 2) && unlevel(g, h, w, s) == (if s < w { hrows_inv(if s < h { vinv(g, s) } else { g }, s) } else { if s < h { vinv(g, s) } else { g } }),
        s <= 0 ==> unlift_from(g, h, w, s) == g,
{ }
pub proof fn lemma_top_step(h: int, w: int, s: int)
    ensures top(h, w, s) == (if s > 0 && (2 * s < h || 2 * s < w) { top(h, w, 2 * s) } else { s }),
{ }
pub proof fn lemma_row_inv(c: Seq<i16>, s: int)
    requires 0 < s <= c.len(),
    ensures hinv(hfwd(c, s), s) =~= c, hfwd(hinv(c, s), s) =~= c, hfwd(c, s).len() == c.len(), hinv(c, s).len() == c.len(),
{
    let a = hpo(c, 0, s, %(H1)s);
    lemma_hpo_inv(c, 0, s, %(H1)s);
    lemma_hpo_inv(a, s, s, %(H2)s);
    let b = hpo(c, s, s, -(%(H2)s));
    lemma_hpo_inv(c, s, s, -(%(H2)s));
    lemma_hpo_inv(b, 0, s, -(%(H1)s));
}
pub proof fn lemma_level_inv(g: Seq<Seq<i16>>, h: int, w: int, s: int)
    requires rect(g, w), g.len() == h, s > 0,
    ensures unlevel(level(g, h, w, s), h, w, s) =~= g, level(unlevel(g, h, w, s), h, w, s) =~= g,
        rect(level(g, h, w, s), w), rect(unlevel(g, h, w, s), w), level(g, h, w, s).len() == h, unlevel(g, h, w, s).len() == h,
{
    // forward, then back
    let a = if s < w { hrows(g, s) } else { g };
    if s < w {
        assert forall|y: int| 0 <= y < h implies hrows_inv(a, s)[y] == g[y] && (#[trigger] a[y]).len() == w by { lemma_row_inv(g[y], s); }
        assert(hrows_inv(a, s) =~= g);
    }
    assert(rect(a, w));
    if s < h {
        lemma_vpo_inv(a, w, 0, s, %(V1)s);
        lemma_vpo_inv(vpo(a, 0, s, %(V1)s), w, s, s, %(V2)s);
        assert(vinv(vfwd(a, s), s) =~= a);
    }
    // back, then forward
    let b = if s < h { vinv(g, s) } else { g };
    if s < h {
        lemma_vpo_inv(g, w, s, s, -(%(V2)s));
        lemma_vpo_inv(vpo(g, s, s, -(%(V2)s)), w, 0, s, -(%(V1)s));
        assert(vfwd(b, s) =~= g);
    }
    assert(rect(b, w));
    if s < w {
        let e = hrows_inv(b, s);
        assert forall|y: int| 0 <= y < h implies hrows(e, s)[y] == b[y] && (#[trigger] e[y]).len() == w by { lemma_row_inv(b[y], s); }
        assert(hrows(e, s) =~= b);
    }
}
pub proof fn lemma_vinv_rect(g: Seq<Seq<i16>>, w: int, s: int)
    requires rect(g, w), s > 0,
    ensures s < g.len() ==> rect(vinv(g, s), w) && vinv(g, s).len() == g.len() && rect(vfwd(g, s), w) && vfwd(g, s).len() == g.len(),
{
    if s < g.len() {
        lemma_vpo_inv(g, w, s, s, -(%(V2)s)); lemma_vpo_inv(vpo(g, s, s, -(%(V2)s)), w, 0, s, -(%(V1)s));
        lemma_vpo_inv(g, w, 0, s, %(V1)s); lemma_vpo_inv(vpo(g, 0, s, %(V1)s), w, s, s, %(V2)s);
    }
}
/// C07: inverse after forward
pub proof fn lemma_roundtrip(g: Seq<Seq<i16>>, h: int, w: int, s: int)
    requires rect(g, w), g.len() == h, s > 0, s == 1 || s < h || s < w,
    ensures unlift_from(lift_from(g, h, w, s), h, w, top(h, w, s)) =~= unlift_from(g, h, w, s / 2),
    decreases (if 2 * s < h || 2 * s < w { if h >= w { h - s } else { w - s } } else { 0 }),
{
    lemma_level_inv(g, h, w, s);
    let g2 = level(g, h, w, s);
    if 2 * s < h || 2 * s < w {
        lemma_roundtrip(g2, h, w, 2 * s);
        assert(lift_from(g, h, w, s) == lift_from(g2, h, w, 2 * s));
        assert(top(h, w, s) == top(h, w, 2 * s));
        assert((2 * s) / 2 == s);
        assert(unlift_from(g2, h, w, s) == unlift_from(unlevel(g2, h, w, s), h, w, s / 2));
    } else {
        assert(top(h, w, s) == s);
        if s < h || s < w {
            assert(lift_from(g2, h, w, 2 * s) == g2);
            assert(lift_from(g, h, w, s) == lift_from(g2, h, w, 2 * s));
            assert(unlift_from(g2, h, w, s) == unlift_from(unlevel(g2, h, w, s), h, w, s / 2));
        } else {
            assert(lift_from(g, h, w, s) == g);
            assert(unlevel(g, h, w, s) == g);
            assert(unlift_from(g, h, w, s) == unlift_from(g, h, w, s / 2));
        }
    }
}
pub open spec fn pow2(s: int) -> bool decreases s { s == 1 || (s > 1 && s %% 2 == 0 && pow2(s / 2)) }
/// C07: forward after inverse
pub proof fn lemma_roundtrip2(g: Seq<Seq<i16>>, h: int, w: int, s: int)
    requires rect(g, w), g.len() == h, pow2(s), s < h || s < w || s == 1,
    ensures lift_from(unlift_from(g, h, w, s), h, w, 1) =~= lift_from(g, h, w, 2 * s),
    decreases s,
{
    lemma_level_inv(g, h, w, s);
    let b = unlevel(g, h, w, s);
    assert(unlift_from(g, h, w, s) == unlift_from(b, h, w, s / 2));
    if s == 1 {
        assert(unlift_from(b, h, w, 0) == b);
        if !(s < h || s < w) { assert(b == g); }
    } else {
        lemma_roundtrip2(b, h, w, s / 2);
        assert(2 * (s / 2) == s);
        assert(lift_from(b, h, w, s) == lift_from(level(b, h, w, s), h, w, 2 * s));
    }
}
pub proof fn lemma_top(h: int, w: int, s: int)
    requires pow2(s), s == 1 || s < h || s < w,
    ensures pow2(top(h, w, s)), top(h, w, s) >= s, 2 * top(h, w, s) >= h, 2 * top(h, w, s) >= w, top(h, w, s) == 1 || top(h, w, s) < h || top(h, w, s) < w,
    decreases (if 2 * s < h || 2 * s < w { if h >= w { h - s } else { w - s } } else { 0 }),
{
    if 2 * s < h || 2 * s < w { assert(pow2(2 * s)); lemma_top(h, w, 2 * s); }
}
pub open spec fn forward(g: Seq<Seq<i16>>, w: int) -> Seq<Seq<i16>> { lift_from(g, g.len() as int, w, 1) }
pub open spec fn inverse(g: Seq<Seq<i16>>, w: int) -> Seq<Seq<i16>> { unlift_from(g, g.len() as int, w, top(g.len() as int, w, 1)) }
pub proof fn lemma_lift_len(g: Seq<Seq<i16>>, h: int, w: int, s: int)
    requires rect(g, w), g.len() == h, s > 0,
    ensures lift_from(g, h, w, s).len() == h, rect(lift_from(g, h, w, s), w),
    decreases (if s >= h && s >= w { 0 } else if h >= w { h - s } else { w - s }),
{
    if s < h || s < w { lemma_level_inv(g, h, w, s); lemma_lift_len(level(g, h, w, s), h, w, 2 * s); }
}
pub proof fn lemma_unlift_len(g: Seq<Seq<i16>>, h: int, w: int, s: int)
    requires rect(g, w), g.len() == h,
    ensures unlift_from(g, h, w, s).len() == h, rect(unlift_from(g, h, w, s), w),
    decreases s,
{
    if s > 0 { lemma_level_inv(g, h, w, s); lemma_unlift_len(unlevel(g, h, w, s), h, w, s / 2); }
}
/// C07
pub proof fn theorem_lift_invertible(g: Seq<Seq<i16>>, w: int)
    requires rect(g, w),
    ensures inverse(forward(g, w), w) =~= g, forward(inverse(g, w), w) =~= g,
{
    let h = g.len() as int;
    lemma_lift_len(g, h, w, 1);
    lemma_roundtrip(g, h, w, 1);
    assert(unlift_from(g, h, w, 0) == g);
    lemma_top(h, w, 1);
    let t = top(h, w, 1);
    lemma_roundtrip2(g, h, w, t);
    assert(lift_from(g, h, w, 2 * t) == g);
    lemma_unlift_len(g, h, w, t);
}
/// what users of the transform need (unit auxd)
pub proof fn theorem_lift(g: Seq<Seq<i16>>, w: int)
    requires rect(g, w),
    ensures inverse(forward(g, w), w) == g, forward(g, w).len() == g.len(), rect(forward(g, w), w), inverse(g, w).len() == g.len(), rect(inverse(g, w), w),
{
    let h = g.len() as int;
    theorem_lift_invertible(g, w);
    lemma_lift_len(g, h, w, 1);
    lemma_unlift_len(g, h, w, top(h, w, 1));
}
/// contents of the rows
pub open spec fn vw(img: Seq<&mut [i16]>) -> Seq<Seq<i16>> { Seq::new(img.len(), |y: int| img[y]@) }
pub open spec fn img_ok(img: Seq<&mut [i16]>, w: int) -> bool { 0 < img.len() <= 0x4000_0000 && 0 <= w <= 0x4000_0000 && rect(vw(img), w) }
'''

import re
def lifted(name):
    """the transform of a lifting unit, known by its theorem"""
    t = re.search(r'(?s)/// what users of the transform need.*?\n(pub proof fn theorem_lift\b.*?\n)\{\n', PASSES).group(1)
    t = '#[verifier::external_body] /* proved in unit %s */ ' % name + t + '{ }\n'
    f = ''.join('pub uninterp spec fn %s(g: Seq<Seq<i16>>, w: int) -> Seq<Seq<i16>>;\n' % x for x in ('forward', 'inverse'))
    return renamed(f + t, name)
def renamed(t, name):
    for x in ('forward', 'inverse', 'theorem_lift'): t = re.sub(r'\b%s\(' % x, '%s_%s(' % (name[5:8], x), t)
    return t
