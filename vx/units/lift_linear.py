"""src/lifting/linear.rs with src/lifting/mod.rs (C07)."""
from extract import Unit, Fn
from units import chunks as CH
from units.lift_common import *
from units.lifting_theory import BASE, PASSES
F, M = 'src/lifting/linear.rs', 'src/lifting/mod.rs'

DELTA = r'''
/// horizontal pass: half of the sum of the neighbours (the single neighbour at the edge) divided by d
pub open spec fn hd(c: Seq<i16>, x: int, s: int, d: int) -> int {
    if x + s < c.len() { tdiv(w16(c[x - s] + c[x + s]) as int, 2 * d) } else { tdiv(c[x - s] as int, d) }
}
pub open spec fn vd(img: Seq<Seq<i16>>, y: int, x: int, s: int, d: int) -> int {
    let c1 = img[y - s][x];
    let c2 = if y + s < img.len() { img[y + s][x] } else { c1 };
    tdiv(w16(c1 + c2) as int, d)
}
pub proof fn lemma_hd(c: Seq<i16>, e: Seq<i16>, x: int, s: int, d: int)
    requires s > 0, d != 0, 0 <= x < c.len(), sel(x, s), e.len() == c.len(), forall|y: int| 0 <= y < c.len() && !sel(y, s) ==> c[y] == e[y],
    ensures hd(e, x, s, -d) == -hd(c, x, s, d),
{
    lemma_sel_nb(x, s);
    lemma_tdiv_neg(c[x - s] as int, d);
    if x + s < c.len() { lemma_tdiv_neg(w16(c[x - s] + c[x + s]) as int, 2 * d); }
}
pub proof fn lemma_vd(img: Seq<Seq<i16>>, e: Seq<Seq<i16>>, w: int, y: int, x: int, s: int, d: int)
    requires s > 0, d != 0, 0 <= y < img.len(), sel(y, s), e.len() == img.len(), forall|k: int| 0 <= k < img.len() && !sel(k, s) ==> img[k] == e[k],
    ensures vd(e, y, x, s, -d) == -vd(img, y, x, s, d),
{
    lemma_sel_nb(y, s);
    let c1 = img[y - s][x];
    let c2 = if y + s < img.len() { img[y + s][x] } else { c1 };
    lemma_tdiv_neg(w16(c1 + c2) as int, d);
}
'''
ROW = r'''
/// what the update of one group does
pub open spec fn row_done(l: Seq<&mut [i16]>, m0: Seq<&mut [i16]>, m1: Seq<&mut [i16]>, t: Seq<&mut [i16]>, s: int, d: int) -> bool {
    m1[0]@.len() == m0[0]@.len() && forall|x: int| 0 <= x < m0[0]@.len() ==> #[trigger] m1[0]@[x] == (if mult(x, s) {
            let c1 = l[0]@[x]; let c2 = if t.len() > 0 { t[0]@[x] } else { c1 };
            wadd(m0[0]@[x], tdiv(w16(c1 + c2) as int, d)) } else { m0[0]@[x] })
}
'''
DIV = {'H1': '-1', 'H2': '2', 'V1': '-2', 'V2': '4'}

LIN = {'@MIDDLE@': 'middle', '@LEFT@': 'left', '@RIGHT@': 'right', '@MORE@': '', '@EXTRAINV@': '', '@PRE@': '', '@QP@': '', '@QR@': '', '@QA@': '', '@QH@': '', '@QC@': ''}
contracts = CH.O_CONTRACTS + [
    Fn('horizontal_lifting_base', None, '''    requires 0 < step < old(column)@.len() <= 0x4000_0000, step_multiplier == 1 || step_multiplier == 2, divider == 1 || divider == -1 || divider == 2 || divider == -2,
    ensures final(column)@ =~= hpo(old(column)@, (step_multiplier - 1) * step, step as int, divider as int)''',
      entry='''    hide(hd); hide(wadd); let ghost c0 = column@; let ghost s = step as int; let ghost off = (step_multiplier - 1) * step; let ghost n = c0.len() as int; let ghost d = divider as int;
    proof {
        assert(step * step_multiplier <= 2 * step) by (nonlinear_arith) requires step_multiplier == 1 || step_multiplier == 2;
        assert(off == if step_multiplier == 1 { 0 } else { s }) by (nonlinear_arith) requires step_multiplier == 1 || step_multiplier == 2, off == (step_multiplier - 1) * step, s == step;
        assert(step * step_multiplier == off + s) by (nonlinear_arith) requires step_multiplier == 1 || step_multiplier == 2, off == (step_multiplier - 1) * step, s == step;
        lemma_sel_start(s);
    }''',
      loops=[dict(inv='''        invariant
            column@.len() == n, c0.len() == n, s == step, 0 < s < n <= 0x4000_0000, off == 0 || off == s, off + s <= x <= n + 2 * s, sel(x - off, s), d == divider,
            divider == 1 || divider == -1 || divider == 2 || divider == -2,
            forall|y: int| 0 <= y < n ==> #[trigger] column@[y] == (if y < x { hval(c0, off, s, d, y) } else { c0[y] }),
        decreases n + 2 * s - x''',
        begin='''        let ghost x0 = x as int;
        proof {
            lemma_sel(x0 - off, s);
            assert(column@[x0 - s] == c0[x0 - s]); assert(column@[x0 + s] == c0[x0 + s]); assert(column@[x0] == c0[x0]);
            lemma_wadd(c0[x0 - s], c0[x0 + s] as int);
        }''',
        end='''        proof {
            let k = c0.skip(off); assert(k[x0 - off - s] == c0[x0 - s]); assert(k[x0 - off + s] == c0[x0 + s]); assert(k[x0 - off] == c0[x0]);
            let m = w16(c0[x0 - s] + c0[x0 + s]);
            assert(hd(k, x0 - off, s, d) == tdiv(m as int, 2 * d)) by { reveal(hd); }
            lemma_div_i16(m, (2 * d) as i16);
            lemma_wadd(c0[x0], hd(k, x0 - off, s, d));
            let e = hd(k, x0 - off, s, d);
            assert(column@[x0] == wadd(c0[x0], e)) by { reveal(tdiv); reveal(wadd); if d == 1 { assert(e == tdiv(m as int, 2)); } else if d == 2 { assert(e == tdiv(m as int, 4)); } else if d == -1 { assert(e == tdiv(m as int, -2)); } else { assert(e == tdiv(m as int, -4)); } }
            assert(column@[x0] == wadd(c0[x0], hd(k, x0 - off, s, d)));
            assert forall|y: int| 0 <= y < n implies #[trigger] column@[y] == (if y < x { hval(c0, off, s, d, y) } else { c0[y] }) by {
                if x0 < y < x0 + 2 * s { assert(!sel(y - off, s)); }
            }
        }''')],
      hints=[('before', 'if x < column.len()', 1, '''    let ghost x0 = x as int;
    proof {
        lemma_sel(x0 - off, s);
        if x0 < n {
            let k = c0.skip(off); assert(k[x0 - off - s] == c0[x0 - s]); assert(k[x0 - off] == c0[x0]);
            assert(column@[x0 - s] == c0[x0 - s]); assert(column@[x0] == c0[x0]);
            assert(hd(k, x0 - off, s, d) == tdiv(c0[x0 - s] as int, d)) by { reveal(hd); }
            lemma_div_i16(c0[x0 - s], d as i16);
            lemma_wadd(c0[x0], hd(k, x0 - off, s, d));
            lemma_neg32768();
            lemma_wadd(c0[x0], -32768);
        }
    }''')],
      exit='''proof {
        lemma_hpo(c0, off, s, d);
        let c1 = column@;
        if x < n {
            let e = hd(c0.skip(off), x - off, s, d);
            assert(c1[x as int] == wadd(c0[x as int], e)) by { reveal(tdiv); reveal(wadd); let m = c0[x - s] as int; if d == 1 { assert(e == tdiv(m, 1)); } else if d == 2 { assert(e == tdiv(m, 2)); } else if d == -1 { assert(e == tdiv(m, -1)); } else { assert(e == tdiv(m, -2)); } }
        }
        assert forall|y: int| 0 <= y < n implies column@[y] == hval(c0, off, s, d, y) by {
            if x < y { assert(!sel(y - off, s)); }
        }
    }'''),
    hrow('horizontal_lift', 'hfwd'), hrow('horizontal_unlift', 'hinv'),
    Fn('vertical_lifting_base', None, '''    requires left@.len() > 0, old(middle)@.len() > 0, 0 < step <= 0x4000_0000, old(middle)@[0]@.len() <= 0x4000_0000,
        divider == 2 || divider == -2 || divider == 4 || divider == -4,
        left@[0]@.len() == old(middle)@[0]@.len(), right@.len() > 0 ==> right@[0]@.len() == old(middle)@[0]@.len(),
    ensures final(middle)@.len() == old(middle)@.len(), forall|i: int| 1 <= i < old(middle)@.len() ==> final(middle)@[i] == old(middle)@[i], final(final(middle)@[0])@ == final(old(middle)@[0])@,
        row_done(left@, old(middle)@, final(middle)@, right@, step as int, divider as int)''',
      entry='    let ghost m0 = middle@[0]@; let ghost s = step as int; let ghost n = m0.len() as int; let ghost l0 = left@[0]@; proof { lemma_mult0(s); }',
      loops=[dict(inv='''        invariant
            s == step, 0 < s <= 0x4000_0000, middle_value@.len() == n, m0.len() == n, n <= 0x4000_0000, mult(x as int, s), 0 <= x <= n + s, left@.len() > 0, left@[0]@ == l0, l0.len() == n,
            right@.len() > 0 ==> right@[0]@.len() == n,
            divider == 2 || divider == -2 || divider == 4 || divider == -4,
            forall|k: int| 0 <= k < n ==> #[trigger] middle_value@[k] == (if k < x && mult(k, s) { let c1 = l0[k]; let c2 = if right@.len() > 0 { right@[0]@[k] } else { c1 };
                wadd(m0[k], tdiv(w16(c1 + c2) as int, divider as int)) } else { m0[k] }),
        decreases n + s - x''',
        begin='''        let ghost x0 = x as int;
        proof {
            lemma_mult(x0, s);
            let c1 = l0[x0]; let c2 = if right@.len() > 0 { right@[0]@[x0] } else { c1 };
            lemma_wadd(c1, c2 as int); lemma_div_i16(w16(c1 + c2), divider); lemma_wadd(m0[x0], tdiv(w16(c1 + c2) as int, divider as int));
            assert(middle_value@[x0] == m0[x0]);
        }''',
        end='''        proof {
            let c1 = l0[x0]; let c2 = if right@.len() > 0 { right@[0]@[x0] } else { c1 }; let m = w16(c1 + c2) as int; let e = tdiv(m, divider as int);
            assert(middle_value@[x0] == wadd(m0[x0], e)) by { reveal(tdiv); if divider == 2 { assert(e == tdiv(m, 2)); } else if divider == 4 { assert(e == tdiv(m, 4)); } else if divider == -2 { assert(e == tdiv(m, -2)); } else { assert(e == tdiv(m, -4)); } }
            assert forall|k: int| x0 < k < x implies !#[trigger] mult(k, s) by { }
        }''')]),
    vertical('vertical_lift', (False, '-2'), (True, '4'), LIN),
    vertical('vertical_unlift', (True, '-4'), (False, '2'), LIN),
    LIFT, Fn('unlift', None, UNLIFT.spec, UNLIFT.entry, UNLIFT.loops, [(a, b, c, d % DIV) for a, b, c, d in UNLIFT.hints], exit=UNLIFT.exit), HINT,
    Fn('lift_linear', None, LIFT.spec), Fn('unlift_linear', None, UNLIFT.spec),
]
ITEMS = CH.O_ITEMS + [('fn', F, n) for n in ('horizontal_lifting_base', 'horizontal_lift', 'horizontal_unlift', 'vertical_lifting_base', 'vertical_lift', 'vertical_unlift')] + [
    ('fn', M, 'get_hint_do_parallel'), ('fn', M, 'lift'), ('fn', M, 'unlift'), ('fn', F, 'lift_linear'), ('fn', F, 'unlift_linear')]
UNIT = Unit('lift_linear', ITEMS, contracts, prelude=BASE + DELTA + (PASSES.split('// ---------------------------------------------------------------- levels')[0]) + '// ---- levels' + (PASSES.split('// ---------------------------------------------------------------- levels')[1] % DIV) + ROW + filled(EXTRA, LIN) + NEG, opt={'drop_fn_params': True})
