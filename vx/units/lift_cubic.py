"""src/lifting/cubic.rs with src/lifting/mod.rs (C07)."""
from extract import Unit, Fn
from units import chunks as CH
from units.lift_common import *
from units.lifting_theory import BASE, PASSES
F, M = 'src/lifting/cubic.rs', 'src/lifting/mod.rs'

DELTA = r"""
pub open spec fn med(a: int, b: int, c: int) -> int { if a <= b { if b <= c { b } else if a <= c { c } else { a } } else { if a <= c { a } else if b <= c { c } else { b } } }
pub open spec fn rf(num: int, denom: int) -> int { if num < 0 { tdiv(num - tdiv(denom, 2), denom) } else { tdiv(num + tdiv(denom, 2), denom) } }
/// interpolation between c1 and c2
pub open spec fn cub(c0: i16, c1: i16, c2: i16, c3: i16) -> int { med(rf(-c0 + 9 * (c1 + c2) - c3, 16), c1 as int, c2 as int) }
pub proof fn lemma_cub(c0: i16, c1: i16, c2: i16, c3: i16, d: int)
    requires d == 1 || d == -1 || d == 2 || d == -2,
    ensures -32768 <= cub(c0, c1, c2, c3) <= 32767, -32768 <= tdiv(cub(c0, c1, c2, c3), d) <= 32768,
        d == 1 ==> tdiv(cub(c0, c1, c2, c3), d) <= 32767, d == 2 ==> tdiv(cub(c0, c1, c2, c3), d) <= 32767, d == -2 ==> tdiv(cub(c0, c1, c2, c3), d) <= 32767,
{
    let m = cub(c0, c1, c2, c3);
    lemma_div_i16(m as i16, d as i16);
    if d == 1 { lemma_tdiv1(m); }
}
pub proof fn lemma_tdiv1(m: int) ensures tdiv(m, 1) == m { reveal(tdiv); }
pub open spec fn hd(c: Seq<i16>, x: int, s: int, d: int) -> int {
    let c1 = c[x - s];
    let c2 = if x + s < c.len() { c[x + s] } else { c1 };
    let c0 = if x >= 3 * s { c[x - 3 * s] } else { c1 };
    let c3 = if x + 3 * s < c.len() { c[x + 3 * s] } else { c2 };
    tdiv(cub(c0, c1, c2, c3), d)
}
pub open spec fn vd(img: Seq<Seq<i16>>, y: int, x: int, s: int, d: int) -> int {
    let c1 = img[y - s][x];
    let c2 = if y + s < img.len() { img[y + s][x] } else { c1 };
    let c0 = if y >= 3 * s { img[y - 3 * s][x] } else { c1 };
    let c3 = if y + 3 * s < img.len() { img[y + 3 * s][x] } else { c2 };
    tdiv(cub(c0, c1, c2, c3), d)
}
pub proof fn lemma_hd(c: Seq<i16>, e: Seq<i16>, x: int, s: int, d: int)
    requires s > 0, d != 0, 0 <= x < c.len(), sel(x, s), e.len() == c.len(), forall|y: int| 0 <= y < c.len() && !sel(y, s) ==> c[y] == e[y],
    ensures hd(e, x, s, -d) == -hd(c, x, s, d),
{
    lemma_sel_nb(x, s);
    let c1 = c[x - s];
    let c2 = if x + s < c.len() { c[x + s] } else { c1 };
    let c0 = if x >= 3 * s { c[x - 3 * s] } else { c1 };
    let c3 = if x + 3 * s < c.len() { c[x + 3 * s] } else { c2 };
    lemma_tdiv_neg(cub(c0, c1, c2, c3), d);
}
pub proof fn lemma_vd(img: Seq<Seq<i16>>, e: Seq<Seq<i16>>, w: int, y: int, x: int, s: int, d: int)
    requires s > 0, d != 0, 0 <= y < img.len(), sel(y, s), e.len() == img.len(), forall|k: int| 0 <= k < img.len() && !sel(k, s) ==> img[k] == e[k],
    ensures vd(e, y, x, s, -d) == -vd(img, y, x, s, d),
{
    lemma_sel_nb(y, s);
    let c1 = img[y - s][x];
    let c2 = if y + s < img.len() { img[y + s][x] } else { c1 };
    let c0 = if y >= 3 * s { img[y - 3 * s][x] } else { c1 };
    let c3 = if y + 3 * s < img.len() { img[y + 3 * s][x] } else { c2 };
    lemma_tdiv_neg(cub(c0, c1, c2, c3), d);
}
"""
ROW = r"""
/// what the update of one group does
pub open spec fn row_done(l: Seq<&mut [i16]>, m0: Seq<&mut [i16]>, m1: Seq<&mut [i16]>, t: Seq<&mut [i16]>, q: Seq<&mut [i16]>, n: Seq<&mut [i16]>, s: int, d: int) -> bool {
    m1[0]@.len() == m0[0]@.len() && forall|x: int| 0 <= x < m0[0]@.len() ==> #[trigger] m1[0]@[x] == (if mult(x, s) { wadd(m0[0]@[x], rdelta(l, t, q, n, x, d)) } else { m0[0]@[x] })
}
pub open spec fn rdelta(l: Seq<&mut [i16]>, t: Seq<&mut [i16]>, q: Seq<&mut [i16]>, n: Seq<&mut [i16]>, x: int, d: int) -> int {
    let c1 = l[0]@[x];
    let c2 = if t.len() > 0 { t[0]@[x] } else { c1 };
    let c0 = if q.len() > 0 { q[0]@[x] } else { c1 };
    let c3 = if n.len() > 0 { n[0]@[x] } else { c2 };
    tdiv(cub(c0, c1, c2, c3), d)
}
pub proof fn lemma_nb(s0: Seq<&mut [i16]>, p: int, s: int, w: int, q: Seq<&mut [i16]>, n: Seq<&mut [i16]>)
    requires rect(vw(s0), w), s > 0, 0 <= p < s0.len(), p == 0 && q.len() == 0 || p >= 2 * s && q.len() > 0 && q[0] == s0[p - 2 * s],
        n.len() > 0 <==> s0.skip(p).len() > 4 * s, n.len() > 0 ==> n[0] == s0.skip(p)[4 * s],
    ensures q.len() > 0 ==> q[0]@.len() == w, n.len() > 0 ==> n[0]@.len() == w && n[0] == s0[p + 4 * s], n.len() > 0 <==> p + 4 * s < s0.len(),
{
    if q.len() > 0 { assert(vw(s0)[p - 2 * s].len() == w); }
    if n.len() > 0 { assert(vw(s0)[p + 4 * s].len() == w); }
}
pub proof fn lemma_cubic_h(c: Seq<i16>, x: int, s: int, d: int, c0: i16, c1: i16, c2: i16, c3: i16)
    requires c1 == c[x - s], c2 == (if x + s < c.len() { c[x + s] } else { c1 }), c0 == (if x >= 3 * s { c[x - 3 * s] } else { c1 }), c3 == (if x + 3 * s < c.len() { c[x + 3 * s] } else { c2 }),
    ensures hd(c, x, s, d) == tdiv(cub(c0, c1, c2, c3), d),
{ }
"""
DIV = {'H1': '-1', 'H2': '2', 'V1': '-1', 'V2': '2'}
CUB = {'@MIDDLE@': 'chunks.middle', '@LEFT@': 'chunks.left', '@RIGHT@': 'chunks.right',
       '@MORE@': ' lemma_nb(s0, p, s, w, q0, n0); assert(l0[0] == s0[p]);',
       '@PRE@': 'let ghost q0 = chunks.prev_left@; let ghost n0 = chunks.next_right@; ',
       '@EXTRAINV@': ', vx_itN.wf(), vx_itN.cur().len() > 0 ==> (pre.len() == 0 && vx_itN.prev().len() == 0 || pre.len() >= 2 * s && vx_itN.prev().len() > 0 && vx_itN.prev()[0] == s0[pre.len() - 2 * s])',
       '@QP@': ', q: Seq<&mut [i16]>, n: Seq<&mut [i16]>',
       '@QR@': "\n        &&& (p == 0 && q.len() == 0 || p >= 2 * s && q.len() > 0 && q[0] == s0[p - 2 * s]) && (n.len() > 0 <==> p + 4 * s < s0.len()) && (n.len() > 0 ==> n[0] == s0[p + 4 * s])",
       '@QA@': ', q, n',
       '@QH@': """
        if q.len() > 0 { assert(q[0]@ == a0[p - 2 * s]); assert(a0[p - 2 * s].len() == w); }
        if n.len() > 0 { assert(n[0]@ == a0[p + 4 * s]); assert(a0[p + 4 * s].len() == w); }
        assert forall|x: int| 0 <= x < w implies m1[0]@[x] == vrow(a0, p + s, s, d)[x] by { assert(rdelta(l, t, q, n, x, d) == vd(a0, p + s, x, s, d)); }""",
       '@QC@': ', q0, n0'}

HC = r"""x < n ==> ({ let z = x - off; let k = c0s.skip(off); c1 == k[z - s] && c2 == (if z + s < k.len() { k[z + s] } else { c1 }) && c0 == (if z >= 3 * s { k[z - 3 * s] } else { c1 }) })"""
HINV = r"""        invariant
            column@.len() == n, c0s.len() == n, s == step, 0 < s < n <= 0x4000_0000, off == 0 || off == s, off + s <= x <= n + 2 * s, sel(x - off, s), d == divider, TAIL
            divider == 1 || divider == -1 || divider == 2 || divider == -2,
            HC,
            forall|y: int| 0 <= y < n ==> #[trigger] column@[y] == (if y < x { hval(c0s, off, s, d, y) } else { c0s[y] }),
        decreases n + 2 * s - x""".replace('HC', HC)
HBEGIN = r"""        let ghost x0 = x as int; let ghost k = c0s.skip(off); let ghost (o0, o1, o2) = (c0, c1, c2);
        let ghost o3 = if x0 - off + 3 * s < k.len() { k[x0 - off + 3 * s] } else { c2 };
        proof {
            lemma_sel(x0 - off, s); lemma_sel_nb(x0 - off, s);
            lemma_cubic_h(k, x0 - off, s, d, o0, o1, o2, o3);
            lemma_cub(o0, o1, o2, o3, d);
            lemma_wadd(c0s[x0], hd(k, x0 - off, s, d));
            lemma_neg32768(); lemma_wadd(c0s[x0], -32768);
            if x0 + 3 * s < n { assert(column@[x0 + 3 * s] == c0s[x0 + 3 * s]); assert(k[x0 - off + 3 * s] == c0s[x0 + 3 * s]); }
            assert(column@[x0] == c0s[x0]);
        }"""
HEND = r"""        proof {
            let e = hd(k, x0 - off, s, d);
            assert(column@[x0] == wadd(c0s[x0], e)) by { reveal(tdiv); reveal(wadd); let m = cub(o0, o1, o2, o3); if d == 1 { assert(e == tdiv(m, 1)); } else if d == 2 { assert(e == tdiv(m, 2)); } else if d == -1 { assert(e == tdiv(m, -1)); } else { assert(e == tdiv(m, -2)); } }
            assert forall|y: int| 0 <= y < n implies #[trigger] column@[y] == (if y < x { hval(c0s, off, s, d, y) } else { c0s[y] }) by {
                if x0 < y < x0 + 2 * s { assert(!sel(y - off, s)); }
            }
        }"""
contracts = CH.D_CONTRACTS + [
    Fn('median', 'r', '''    ensures r == med(a as int, b as int, c as int)'''),
    Fn('round_fraction', 'r', '''    requires denom == 16, -0x10_0000 <= num <= 0x10_0000,
    ensures r == rf(num as int, denom as int)''', entry='proof { reveal(tdiv); }'),
    Fn('cubic', 'r', '''    ensures r == cub(c0, c1, c2, c3)'''),
    Fn('horizontal_lifting_base', None, """    requires 0 < step < old(column)@.len() <= 0x4000_0000, divider == 1 || divider == -1 || divider == 2 || divider == -2,
        c0_column_start == 0 && c2_step_multiplier == 2 && step_start_multiplier == 1 || c0_column_start == step && c2_step_multiplier == 3 && step_start_multiplier == 2,
    ensures final(column)@ =~= hpo(old(column)@, c0_column_start as int, step as int, divider as int)""",
      entry="""    hide(hd); hide(wadd); hide(cub); let ghost c0s = column@; let ghost s = step as int; let ghost off = c0_column_start as int; let ghost n = c0s.len() as int; let ghost d = divider as int;
    proof {
        assert(c2_step_multiplier * step == off + 2 * s) by (nonlinear_arith) requires c2_step_multiplier == 2 && off == 0 || c2_step_multiplier == 3 && off == s, s == step;
        assert(step_start_multiplier * step == off + s) by (nonlinear_arith) requires step_start_multiplier == 1 && off == 0 || step_start_multiplier == 2 && off == s, s == step;
        lemma_sel_start(s);
        let k = c0s.skip(off);
        assert(k[0] == c0s[off]);
        if off + 2 * s < n { assert(k[2 * s] == c0s[off + 2 * s]); }
    }""",
      loops=[dict(inv=HINV.replace('TAIL', 'n > 3 * s,'), begin=HBEGIN, end=HEND), dict(inv=HINV.replace('TAIL', 'x + 3 * s >= n,'), begin=HBEGIN, end=HEND)],
      exit="""proof { lemma_hpo(c0s, off, s, d); }"""),
    hrow('horizontal_lift', 'hfwd'), hrow('horizontal_unlift', 'hinv'),
    Fn('vertical_lifting_base', None, """    requires old(chunks).left@.len() > 0, old(chunks).middle@.len() > 0, 0 < step <= 0x4000_0000, old(chunks).middle@[0]@.len() <= 0x4000_0000,
        divider == 1 || divider == -1 || divider == 2 || divider == -2,
        ({ let w = old(chunks).middle@[0]@.len(); let c = old(chunks);
        &&& c.left@[0]@.len() == w && (c.right@.len() > 0 ==> c.right@[0]@.len() == w)
        &&& (c.prev_left@.len() > 0 ==> c.prev_left@[0]@.len() == w) && (c.next_right@.len() > 0 ==> c.next_right@[0]@.len() == w) }),
    ensures final(chunks).middle@.len() == old(chunks).middle@.len(), forall|i: int| 1 <= i < old(chunks).middle@.len() ==> final(chunks).middle@[i] == old(chunks).middle@[i], final(final(chunks).middle@[0])@ == final(old(chunks).middle@[0])@,
        final(final(chunks).middle)@ == final(old(chunks).middle)@, final(chunks).left == old(chunks).left, final(chunks).right == old(chunks).right,
        row_done(old(chunks).left@, old(chunks).middle@, final(chunks).middle@, old(chunks).right@, old(chunks).prev_left@, old(chunks).next_right@, step as int, divider as int)""",
      entry="""    hide(wadd); hide(cub); let ghost mm = chunks.middle@; let ghost m0 = chunks.middle@[0]@; let ghost s = step as int; let ghost n = m0.len() as int; let ghost (gl, gt, gq, gn) = (chunks.left@, chunks.right@, chunks.prev_left@, chunks.next_right@);
    let ghost d = divider as int; proof { lemma_mult0(s); }""",
      loops=[dict(inv="""        invariant
            s == step, 0 < s <= 0x4000_0000, n <= 0x4000_0000, m0.len() == n, mult(x as int, s), 0 <= x <= n + s, d == divider,
            chunks.middle@.len() == mm.len(), mm.len() > 0, forall|i: int| 1 <= i < mm.len() ==> chunks.middle@[i] == mm[i], chunks.middle@[0]@.len() == n, m0 == mm[0]@,
            final(chunks.middle@[0])@ == final(mm[0])@, final(chunks.middle)@ == final(old(chunks).middle)@, chunks.left == old(chunks).left, chunks.right == old(chunks).right,
            chunks.left@ == gl, chunks.right@ == gt, chunks.prev_left@ == gq, chunks.next_right@ == gn, gl.len() > 0, gl[0]@.len() == n,
            gt.len() > 0 ==> gt[0]@.len() == n, gq.len() > 0 ==> gq[0]@.len() == n, gn.len() > 0 ==> gn[0]@.len() == n,
            divider == 1 || divider == -1 || divider == 2 || divider == -2,
            forall|k: int| 0 <= k < n ==> #[trigger] chunks.middle@[0]@[k] == (if k < x && mult(k, s) { wadd(m0[k], rdelta(gl, gt, gq, gn, k, d)) } else { m0[k] }),
        decreases n + s - x""",
        begin="""        let ghost x0 = x as int;
        let ghost o1 = gl[0]@[x0]; let ghost o2 = if gt.len() > 0 { gt[0]@[x0] } else { o1 }; let ghost o0 = if gq.len() > 0 { gq[0]@[x0] } else { o1 }; let ghost o3 = if gn.len() > 0 { gn[0]@[x0] } else { o2 };
        proof {
            lemma_mult(x0, s);
            lemma_cub(o0, o1, o2, o3, d);
            lemma_wadd(m0[x0], rdelta(gl, gt, gq, gn, x0, d));
            lemma_neg32768(); lemma_wadd(m0[x0], -32768);
            assert(chunks.middle@[0]@[x0] == m0[x0]);
        }""",
        end="""        proof {
            let e = rdelta(gl, gt, gq, gn, x0, d); let m = cub(o0, o1, o2, o3);
            assert(chunks.middle@[0]@[x0] == wadd(m0[x0], e)) by { reveal(tdiv); reveal(wadd); if d == 1 { assert(e == tdiv(m, 1)); } else if d == 2 { assert(e == tdiv(m, 2)); } else if d == -1 { assert(e == tdiv(m, -1)); } else { assert(e == tdiv(m, -2)); } }
            assert forall|k: int| x0 < k < x implies !#[trigger] mult(k, s) by { }
        }""")]),
    vertical('vertical_lift', (False, '-1'), (True, '2'), CUB),
    vertical('vertical_unlift', (True, '-2'), (False, '1'), CUB),
    LIFT, Fn('unlift', None, UNLIFT.spec, UNLIFT.entry, UNLIFT.loops, [(a, b, c, d % DIV) for a, b, c, d in UNLIFT.hints], exit=UNLIFT.exit), HINT,
    Fn('lift_cubic', None, LIFT.spec), Fn('unlift_cubic', None, UNLIFT.spec),
]
ITEMS = CH.D_ITEMS + [('fn', F, n) for n in ('median', 'round_fraction', 'cubic', 'horizontal_lifting_base', 'horizontal_lift', 'horizontal_unlift', 'vertical_lifting_base', 'vertical_lift', 'vertical_unlift')] + [
    ('fn', M, 'get_hint_do_parallel'), ('fn', M, 'lift'), ('fn', M, 'unlift'), ('fn', F, 'lift_cubic'), ('fn', F, 'unlift_cubic')]
LV = '// ---------------------------------------------------------------- levels'
UNIT = Unit('lift_cubic', ITEMS, contracts, prelude=BASE + DELTA + PASSES.split(LV)[0] + '// ---- levels' + PASSES.split(LV)[1] % DIV + ROW + filled(EXTRA, CUB) + NEG, opt={'drop_fn_params': True})
