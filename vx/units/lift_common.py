"""What the two lifting units share besides lifting_theory: loops over groups of rows, the drivers of src/lifting/mod.rs."""
from extract import Unit, Fn
M = 'src/lifting/mod.rs'

# one pass of exclusive groups of rows; the groups before are in `pre`, updated, the groups after in vx_itN.cur(), unchanged
INV = """            invariant_except_break
                tgt == pre + vx_itN.fin(), vx_itN.cur().len() > 0 ==> vx_itN.step() == step,
                pre.len() + vx_itN.cur().len() == s0.len(), vx_itN.cur() == s0.skip(pre.len() as int),
                vx_itN.cur().len() > 0 ==> sel(pre.len() + s, s)@EXTRAINV@,
            invariant
                s == step, 0 < s <= 0x4000_0000, rect(vw(s0), w), 0 <= w <= 0x4000_0000, pre.len() <= s0.len(),
                vw(pre) == vp(vw(s0), s, @D@).take(pre.len() as int), vf(pre) == vf(s0).take(pre.len() as int),
            ensures tgt == pre, pre.len() == s0.len(),
            decreases vx_itN.cur().len()"""
BEGIN = """
            let ghost p = pre.len() as int; let ghost m0 = @MIDDLE@@; let ghost l0 = @LEFT@@; let ghost t0 = @RIGHT@@; @PRE@
            proof { lemma_group(s0, p, s, w, l0, m0, t0);@MORE@ }"""
END = """
            proof {
                let m1 = @MIDDLE@@;
                let last = vx_itN.cur().len() == 0;
                lemma_pass(s0, pre, l0, m0, m1, t0@QC@, s, @D@, w, last);
                lemma_assoc(pre, l0, m1, t0, vx_itN.fin());
                pre = pre + l0 + m1 + (if last { t0 } else { seq![] });
                if last { assert(s0.skip(s0.len() as int) == vx_itN.cur()); } else { lemma_skip(s0, p, s); lemma_sel(p + s, s); }
            }"""
def filled(t, names):
    for k, v in names.items(): t = t.replace(k, v)
    return t
def fill(t, n, d, names):
    for k, v in names.items(): t = t.replace(k, v)
    return t.replace('@D@', d).replace('vx_itN', 'vx_it%d' % n)

def vertical(name, first, second, names):
    """first, second: (starts at row step?, divider)"""
    loops = []
    for n, (off, d) in enumerate((first, second)):
        o = 'step as int' if off else '0'
        loops.append(dict(
            setup='let ghost im%d = image@; let ghost g%d = vw(im%d); proof { lemma_dims(im%d, w); lemma_sel_start(step as int); }' % (n, n, n, n),
            pre=fill('let ghost s = step as int; let ghost s0 = vx_itN.cur(); let ghost mut pre: Seq<&mut [i16]> = seq![]; let ghost tgt = vx_itN.fin(); proof { lemma_pass_start(imN_, s0, %s, s, @D@, w); }'.replace('imN_', 'im%d' % n) % o, n, d, names),
            inv=fill(INV, n, d, names), begin=fill(BEGIN, n, d, names), end=fill(END, n, d, names),
            post="""proof { lemma_pass_end(im%d, s0, image@, pre, %s, s, %s, w); lemma_vpo_inv(g%d, w, %s, s, %s); }""" % (n, o, d, n, o, d)))
    return Fn(name, None, """    requires 0 < step < old(image)@.len(), exists|w: int| img_ok(old(image)@, w),
    ensures ({ let g = vw(old(image)@); vw(final(image)@) =~= %s(g, step as int) && final(image)@.len() == old(image)@.len() }), vf(final(image)@) == vf(old(image)@)""" % ('vfwd' if 'unlift' not in name else 'vinv'),
        entry='hide(vp); hide(vpo); hide(vd); hide(vrow); hide(vw); hide(vf); let ghost w = choose|w: int| img_ok(image@, w); proof { lemma_dims(image@, w); }', loops=loops)

EXTRA = r'''
pub proof fn lemma_rect_skip(g: Seq<Seq<i16>>, w: int, off: int)
    requires rect(g, w), 0 <= off <= g.len(),
    ensures rect(g.skip(off), w), g.skip(0) =~= g,
{ }
/// one step of a vertical pass: a group that stays, a group whose first row is updated, and at the end a group that stays
pub proof fn lemma_vstep(a0: Seq<Seq<i16>>, pre: Seq<Seq<i16>>, l: Seq<Seq<i16>>, m0: Seq<Seq<i16>>, m1: Seq<Seq<i16>>, t: Seq<Seq<i16>>, s: int, d: int, last: bool)
    requires
        s > 0, ({ let p = pre.len() as int;
        &&& sel(p + s, s) && p + s < a0.len() && pre =~= vp(a0, s, d).take(p)
        &&& l =~= a0.subrange(p, p + s) && 0 < m0.len() <= s && p + s + m0.len() + t.len() <= a0.len() && t.len() <= s
        &&& m0 =~= a0.subrange(p + s, p + s + m0.len()) && m1.len() == m0.len() && m1[0] =~= vrow(a0, p + s, s, d) && m1.skip(1) =~= m0.skip(1)
        &&& t =~= a0.subrange(p + s + m0.len(), p + s + m0.len() + t.len()) }),
    ensures ({ let r = pre + l + m1 + (if last { t } else { seq![] }); r =~= vp(a0, s, d).take(r.len() as int) }),
{
    let p = pre.len() as int;
    let r = pre + l + m1 + (if last { t } else { seq![] });
    let v = vp(a0, s, d);
    lemma_sel(p + s, s); lemma_sel_before(p + s, s);
    assert forall|y: int| 0 <= y < r.len() implies r[y] == v[y] by {
        if y < p { assert(pre[y] == v[y]); }
        else if y < p + s { assert(r[y] == l[y - p]); assert(!sel(y, s)); }
        else if y == p + s { assert(r[y] == m1[0]); }
        else if y < p + s + m1.len() { assert(r[y] == m1.skip(1)[y - p - s - 1]); assert(m0.skip(1)[y - p - s - 1] == a0[y]); assert(!sel(y, s)); }
        else { assert(r[y] == t[y - p - s - m1.len()]); assert(!sel(y, s)); }
    }
}
pub proof fn lemma_dims(im: Seq<&mut [i16]>, w: int)
    requires rect(vw(im), w), im.len() > 0,
    ensures im[0]@.len() == w, vw(im).len() == im.len(), forall|y: int| 0 <= y < im.len() ==> #[trigger] im[y]@.len() == w,
{
    assert forall|y: int| 0 <= y < im.len() implies #[trigger] im[y]@.len() == w by { assert(vw(im)[y].len() == w); }
}
/// what one step of the iterator hands out
pub proof fn lemma_group(s0: Seq<&mut [i16]>, p: int, s: int, w: int, l: Seq<&mut [i16]>, m: Seq<&mut [i16]>, t: Seq<&mut [i16]>)
    requires rect(vw(s0), w), s > 0, 0 <= p, p + s < s0.len(), ({ let c = s0.skip(p);
        &&& l == c.subrange(0, s) && m == c.subrange(s, if c.len() < 2 * s { c.len() as int } else { 2 * s })
        &&& t == c.subrange(if c.len() < 2 * s { c.len() as int } else { 2 * s }, if c.len() < 3 * s { c.len() as int } else { 3 * s }) }),
    ensures l.len() == s, 0 < m.len() <= s, t.len() <= s, t.len() > 0 ==> m.len() == s, p + s + m.len() + t.len() <= s0.len(),
        p + s + m.len() + t.len() == s0.len() || t.len() == s && p + 3 * s < s0.len(),
        forall|i: int| 0 <= i < s ==> l[i] == s0[p + i], forall|i: int| 0 <= i < m.len() ==> m[i] == s0[p + s + i], forall|i: int| 0 <= i < t.len() ==> t[i] == s0[p + 2 * s + i],
        l[0]@.len() == w, m[0]@.len() == w, t.len() > 0 ==> t[0]@.len() == w,
{
    assert(vw(s0)[p].len() == w); assert(vw(s0)[p + s].len() == w);
    if t.len() > 0 { assert(vw(s0)[p + 2 * s].len() == w); }
}
pub proof fn lemma_pass(s0: Seq<&mut [i16]>, pre: Seq<&mut [i16]>, l: Seq<&mut [i16]>, m0: Seq<&mut [i16]>, m1: Seq<&mut [i16]>, t: Seq<&mut [i16]>@QP@, s: int, d: int, w: int, last: bool)
    requires
        s > 0, rect(vw(s0), w), ({ let p = pre.len() as int;@QR@
        &&& sel(p + s, s) && p + s < s0.len() && vw(pre) == vp(vw(s0), s, d).take(p)
        &&& l.len() == s && 0 < m0.len() <= s && p + s + m0.len() + t.len() <= s0.len() && t.len() <= s && (t.len() > 0 ==> m0.len() == s)
        &&& (t.len() > 0 || p + s + m0.len() == s0.len())
        &&& forall|i: int| 0 <= i < s ==> l[i] == s0[p + i]
        &&& forall|i: int| 0 <= i < m0.len() ==> m0[i] == s0[p + s + i]
        &&& forall|i: int| 0 <= i < t.len() ==> t[i] == s0[p + 2 * s + i] }),
        m1.len() == m0.len(), forall|i: int| 1 <= i < m0.len() ==> m1[i] == m0[i], row_done(l, m0, m1, t@QA@, s, d), final(m1[0])@ == final(m0[0])@, vf(pre) == vf(s0).take(pre.len() as int),
    ensures ({ let r = pre + l + m1 + (if last { t } else { seq![] }); vw(r) == vp(vw(s0), s, d).take(r.len() as int) && vf(r) == vf(s0).take(r.len() as int) }),
{
    let p = pre.len() as int;
    let a0 = vw(s0);
    let x3 = if last { t } else { seq![] };
    let r = pre + l + m1 + x3;
    assert(m1[0]@ =~= vrow(a0, p + s, s, d)) by {
        assert(a0[p + s].len() == w); assert(a0[p].len() == w);
        assert(m0[0]@ == a0[p + s]);
        assert(l[0]@ == a0[p]);
        if t.len() > 0 { assert(t[0]@ == a0[p + 2 * s]); }@QH@
    }
    assert(vw(m1).skip(1) =~= vw(m0).skip(1)) by { assert forall|i: int| 1 <= i < m0.len() implies m1[i] == m0[i] by {} }
    assert(vw(l) =~= a0.subrange(p, p + s));
    assert(vw(m0) =~= a0.subrange(p + s, p + s + m0.len()));
    assert(vw(t) =~= a0.subrange(p + s + m0.len(), p + s + m0.len() + t.len()));
    lemma_vstep(a0, vw(pre), vw(l), vw(m0), vw(m1), vw(t), s, d, last);
    assert(vw(r) =~= vw(pre) + vw(l) + vw(m1) + (if last { vw(t) } else { seq![] }));
    assert forall|y: int| 0 <= y < r.len() implies vf(r)[y] == vf(s0)[y] by {
        if y < p { assert(vf(pre)[y] == vf(s0).take(p)[y]); }
        else if y < p + s { assert(r[y] == l[y - p]); }
        else if y == p + s { assert(r[y] == m1[0]); }
        else if y < p + s + m1.len() { assert(r[y] == m1[y - p - s]); assert(m1[y - p - s] == m0[y - p - s]); }
        else { assert(r[y] == t[y - p - s - m1.len()]); }
    }
    assert(vf(r) =~= vf(s0).take(r.len() as int));
}
pub proof fn lemma_assoc(pre: Seq<&mut [i16]>, l: Seq<&mut [i16]>, m: Seq<&mut [i16]>, t: Seq<&mut [i16]>, f: Seq<&mut [i16]>)
    ensures pre + (l + m + t) == pre + l + m + t, pre + (l + m + f) == pre + l + m + seq![] + f, pre + l + m + t + seq![] == pre + l + m + t,
{
    assert(pre + (l + m + t) =~= pre + l + m + t);
    assert(pre + (l + m + f) =~= pre + l + m + seq![] + f);
    assert(pre + l + m + t + seq![] =~= pre + l + m + t);
}
pub proof fn lemma_skip(s0: Seq<&mut [i16]>, p: int, s: int)
    requires 0 <= p, s > 0, p + 2 * s <= s0.len(),
    ensures s0.skip(p).skip(2 * s) == s0.skip(p + 2 * s),
{ assert(s0.skip(p).skip(2 * s) =~= s0.skip(p + 2 * s)); }
pub proof fn lemma_pass_start(im: Seq<&mut [i16]>, s0: Seq<&mut [i16]>, off: int, s: int, d: int, w: int)
    requires rect(vw(im), w), 0 <= off <= im.len(), s > 0, s0.len() > 0 ==> s0 =~= im.skip(off),
    ensures rect(vw(s0), w), s0.skip(0) == s0, vw(seq![]) == vp(vw(s0), s, d).take(0), vf(seq![]) == vf(s0).take(0), sel(s, s), forall|f: Seq<&mut [i16]>| #[trigger] (Seq::<&mut [i16]>::empty() + f) == f,
{
    assert(s0.skip(0) =~= s0);
    lemma_sel_start(s);
    assert(vw(seq![]) =~= vp(vw(s0), s, d).take(0)); assert(vf(seq![]) =~= vf(s0).take(0));
    assert forall|f: Seq<&mut [i16]>| #[trigger] (Seq::<&mut [i16]>::empty() + f) == f by { assert(Seq::<&mut [i16]>::empty() + f =~= f); }
    assert forall|y: int| 0 <= y < s0.len() implies (#[trigger] vw(s0)[y]).len() == w by { assert(vw(im)[off + y].len() == w); assert(s0[y] == im[off + y]); }
}
pub proof fn lemma_pass_end(im: Seq<&mut [i16]>, s0: Seq<&mut [i16]>, im2: Seq<&mut [i16]>, pre: Seq<&mut [i16]>, off: int, s: int, d: int, w: int)
    requires rect(vw(im), w), 0 <= off <= im.len(), s > 0, im2.len() == im.len(), im2.take(off) =~= im.take(off),
        im.len() - off > s ==> s0 =~= im.skip(off) && im2.skip(off) =~= pre && pre.len() == s0.len() && vw(pre) == vp(vw(s0), s, d).take(pre.len() as int) && vf(pre) == vf(s0).take(pre.len() as int),
        im.len() - off <= s ==> im2.skip(off) =~= im.skip(off),
    ensures vw(im2) == vpo(vw(im), off, s, d), vf(im2) == vf(im),
{
    let g = vw(im);
    assert(im =~= im.take(off) + im.skip(off)); assert(im2 =~= im2.take(off) + im2.skip(off));
    assert(vw(im.skip(off)) =~= g.skip(off));
    assert(vw(im.take(off)) =~= g.take(off));
    assert forall|y: int| 0 <= y < im.len() implies vf(im2)[y] == vf(im)[y] by {
        if y < off { assert(im2.take(off)[y] == im2[y]); assert(im.take(off)[y] == im[y]); }
        else {
            assert(im2.skip(off)[y - off] == im2[y]); assert(im.skip(off)[y - off] == im[y]);
            if im.len() - off > s { assert(vf(pre)[y - off] == vf(s0).take(pre.len() as int)[y - off]); }
        }
    }
    assert(vf(im2) =~= vf(im));
    if im.len() - off > s {
        let v = vp(g.skip(off), s, d);
        assert(v.take(pre.len() as int) =~= v);
        assert(vw(im2) =~= vw(im2.take(off)) + vw(im2.skip(off)));
    } else {
        lemma_short(g.skip(off), s, d);
        assert(g =~= g.take(off) + g.skip(off));
    }
}
/// a pass over at most s rows changes nothing
pub proof fn lemma_short(g: Seq<Seq<i16>>, s: int, d: int)
    requires s > 0,
    ensures g.len() <= s ==> vp(g, s, d) =~= g,
{ lemma_sel_start(s); }
'''

def hrow(name, spec):
    return Fn(name, None, '''    requires 0 < step < old(column)@.len() <= 0x4000_0000,
    ensures final(column)@ =~= %s(old(column)@, step as int)''' % spec)

def driver(fwd, spec, entry=''):
    one = '%s' % ('hfwd' if fwd else 'hinv')
    rows = 'hrows' if fwd else 'hrows_inv'
    inner = dict(inv='''            invariant
                vf(image@) == vf(old(image)@), vx_sN == step, 0 < step <= 0x4000_0000, step < w, w <= 0x4000_0000, image@.len() == h, 0 < h <= 0x4000_0000, b0.len() == h, rect(b0, w),
                vx_nN <= h, vx_nN == h || mult(vx_nN as int, step as int),
                forall|y: int| 0 <= y < h ==> (#[trigger] vw(image@)[y]) == (if y < vx_nN { %s(b0, step as int)[y] } else { b0[y] }),
            decreases h - vx_nN''' % rows,
        begin='proof { assert(vw(image@)[vx_iN as int] == b0[vx_iN as int]); assert(b0[vx_iN as int].len() == w); lemma_mult(vx_iN as int, step as int); } let ghost bi = image@;',
        end='''proof {
                assert forall|y: int| 0 <= y < h implies (#[trigger] vw(image@)[y]) == (if y < vx_nN { %s(b0, step as int)[y] } else { b0[y] }) by {
                    let _ = vw(bi)[y];
                    if y == vx_iN { } else { assert(image@[y] == bi[y]); }
                }
                lemma_vf(bi, image@, vx_iN as int);
            }''' % rows,
        setup='let ghost b0 = vw(image@); proof { lemma_mult0(step as int); }', post='proof { assert(vw(image@) =~= %s(b0, step as int)); }' % rows)
    return inner
def sub(l, n): return {k: v.replace('vx_sN', 'vx_s%d' % n).replace('vx_nN', 'vx_n%d' % n).replace('vx_iN', 'vx_i%d' % n) for k, v in l.items()}

LIFT = Fn('lift', None, '''    requires exists|w: int| img_ok(old(image)@, w),
    ensures vf(final(image)@) == vf(old(image)@), forall|w: int| img_ok(old(image)@, w) ==> vw(final(image)@) =~= #[trigger] forward(vw(old(image)@), w)''',
    entry='hide(hp); hide(hpo); hide(vp); hide(vpo); hide(vrow); hide(hfwd); hide(hinv); hide(vfwd); hide(vinv); hide(lift_from); hide(unlift_from); hide(top); hide(level); hide(unlevel); let ghost w = choose|w: int| img_ok(image@, w); let ghost h = image@.len() as int; let ghost g0 = vw(image@); proof { assert(g0[0].len() == w); }',
    loops=[dict(inv='''        invariant
            vf(image@) == vf(old(image)@), image@.len() == h, 0 < h <= 0x4000_0000, 0 <= w <= 0x4000_0000, rect(vw(image@), w), 0 < step <= 0x8000_0000,
            lift_from(vw(image@), h, w, step as int) == lift_from(g0, h, w, 1),
        decreases (if step >= h && step >= w { 0 } else if h >= w { h - step } else { w - step })''',
        begin='let ghost a0 = vw(image@); proof { assert(a0[0].len() == w); lemma_level_inv(a0, h, w, step as int); lemma_lift_step(a0, h, w, step as int); }',
        end='proof { assert(vw(image@) == level(a0, h, w, step as int / 2)); }'),
        sub(driver(True, ''), 1)],
    exit='''proof {
        assert(vw(image@)[0].len() == w);
        lemma_lift_step(vw(image@), h, w, step as int);
        assert forall|w2: int| img_ok(old(image)@, w2) implies vw(image@) =~= #[trigger] forward(vw(old(image)@), w2) by { assert(g0[0].len() == w2); }
    }''',
    hints=[('before', 'if step < image.len()', 1, 'proof { assert(img_ok(image@, w)) by { if step < w { assert forall|y: int| 0 <= y < h implies (#[trigger] vw(image@)[y]).len() == w by { lemma_row_inv(a0[y], step as int); } } } assert(vw(image@) == (if step < w { hrows(a0, step as int) } else { a0 })); }'),])
UNLIFT = Fn('unlift', None, '''    requires exists|w: int| img_ok(old(image)@, w),
    ensures vf(final(image)@) == vf(old(image)@), forall|w: int| img_ok(old(image)@, w) ==> vw(final(image)@) =~= #[trigger] inverse(vw(old(image)@), w)''',
    entry='hide(hp); hide(hpo); hide(vp); hide(vpo); hide(vrow); hide(hfwd); hide(hinv); hide(vfwd); hide(vinv); hide(lift_from); hide(unlift_from); hide(top); hide(level); hide(unlevel); let ghost w = choose|w: int| img_ok(image@, w); let ghost h = image@.len() as int; let ghost g0 = vw(image@); proof { assert(g0[0].len() == w); }',
    loops=[dict(inv='''        invariant
            image@ == old(image)@, image@.len() == h, 0 < h <= 0x4000_0000, 0 <= w <= 0x4000_0000, g0 == vw(image@), rect(g0, w), 0 < step <= 0x4000_0000, top(h, w, step as int) == top(h, w, 1),
        decreases (if 2 * step < h || 2 * step < w { if h >= w { h - step } else { w - step } } else { 0 })''', begin='proof { assert(g0[0].len() == w); lemma_top_step(h, w, step as int); }', post='proof { assert(g0[0].len() == w); lemma_top_step(h, w, step as int); }'),
        dict(inv='''        invariant
            vf(image@) == vf(old(image)@), image@.len() == h, 0 < h <= 0x4000_0000, 0 <= w <= 0x4000_0000, rect(vw(image@), w), 0 <= step <= 0x4000_0000,
            unlift_from(vw(image@), h, w, step as int) == unlift_from(g0, h, w, top(h, w, 1)),
        decreases step''',
        begin='let ghost a0 = vw(image@); let ghost st = step as int; proof { assert(a0[0].len() == w); assert(img_ok(image@, w)); lemma_level_inv(a0, h, w, step as int); lemma_unlift_step(a0, h, w, step as int); }',
        end='proof { assert(vw(image@) == unlevel(a0, h, w, st)); }'),
        sub(driver(False, ''), 2)],
    exit='''proof {
        lemma_unlift_step(vw(image@), h, w, step as int);
        assert forall|w2: int| img_ok(old(image)@, w2) implies vw(image@) =~= #[trigger] inverse(vw(old(image)@), w2) by { assert(g0[0].len() == w2); }
    }''',
    hints=[('before', 'if step < image[0].len()', 1, 'proof { assert(vw(image@) == (if st < h { vinv(a0, st) } else { a0 })); lemma_vinv_rect(a0, w, st); assert(vw(image@)[0].len() == w); }')])

HINT = Fn('get_hint_do_parallel', None, '''    requires image@.len() > 0, image@.len() <= 0x4000_0000, image@[0]@.len() <= 0x4000_0000''',
    entry='proof { assert(image@.len() * image@[0]@.len() <= 0x4000_0000 * 0x4000_0000) by (nonlinear_arith) requires image@.len() <= 0x4000_0000, image@[0]@.len() <= 0x4000_0000; }')

NEG = r'''
pub open spec fn hval(c: Seq<i16>, off: int, s: int, d: int, y: int) -> i16 { if y >= off && sel(y - off, s) { wadd(c[y], hd(c.skip(off), y - off, s, d)) } else { c[y] } }
pub proof fn lemma_hpo(c: Seq<i16>, off: int, s: int, d: int)
    requires 0 <= off <= c.len(),
    ensures hpo(c, off, s, d).len() == c.len(), forall|y: int| 0 <= y < c.len() ==> #[trigger] hpo(c, off, s, d)[y] == hval(c, off, s, d, y),
{
    assert forall|y: int| 0 <= y < c.len() implies #[trigger] hpo(c, off, s, d)[y] == hval(c, off, s, d, y) by { if y >= off { assert(c.skip(off)[y - off] == c[y]); } }
}
pub proof fn lemma_div_i16(a: i16, d: i16)
    requires d == 1 || d == -1 || d == 2 || d == -2 || d == 4 || d == -4,
    ensures d == 1 ==> tdiv(a as int, 1) == a, d == -1 ==> tdiv(a as int, -1) == -a, -32768 <= tdiv(a as int, d as int) <= 32768, d != -1 ==> tdiv(a as int, d as int) <= 32767,
{ reveal(tdiv); let e = tdiv(a as int, d as int); if d == 1 { assert(e == a); } else if d == -1 { assert(e == -a); } else if d == 2 { lemma_tdiv_b(a as int, 2); } else if d == -2 { lemma_tdiv_b(a as int, -2); } else if d == 4 { lemma_tdiv_b(a as int, 4); } else { lemma_tdiv_b(a as int, -4); } }
pub proof fn lemma_tdiv_b(a: int, d: int) requires d != 0, ensures d >= 0 && a >= 0 || d < 0 && a < 0 ==> 0 <= tdiv(a, d), d >= 0 && a < 0 || d < 0 && a >= 0 ==> tdiv(a, d) <= 0, (d <= -2 || 2 <= d) ==> 2 * tdiv(a, d) <= (if a >= 0 { a } else { -a }) && -2 * tdiv(a, d) <= (if a >= 0 { a } else { -a }) { reveal(tdiv); let p = if a >= 0 { a } else { -a }; let q = if d > 0 { d } else { -d }; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, q); let r = p / q; assert(p / q >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(p, q); } if q >= 2 { assert(2 * r <= p) by (nonlinear_arith) requires p == q * r + p % q, p % q >= 0, r >= 0, q >= 2; } }

pub proof fn lemma_neg32768() ensures 32768i32 as i16 == -32768i16 { assert(32768i32 as i16 == -32768i16) by (bit_vector); }
'''
