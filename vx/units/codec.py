"""src/encode/mod.rs: contexts and block encoder/decoder (C06), over the contracts of units bits and golomb; src/processing/image.rs: access to a block (C12)."""
from extract import Unit, Fn, stubs, proved
from units import bits as B, golomb as G
from units.codec_theory import BASE, TOUCHED, lemma, CHUNK, CTX, CODE
F = 'src/encode/mod.rs'
I = 'src/processing/image.rs'
SQ = [(r'fn square<T: num_traits::ops::wrapping::WrappingMul \+ Copy>\(t: T\) -> \(r: T::Output\)', 'fn square(t: u32) -> (r: u32)', 1), (r'wrapping_mul\(&t\)', 'wrapping_mul(t)', 1)]
AT = [(r'&\*self\.data_ptr\.add\(index\)', 'vx_at(&self.data_ptr, index)', 1)]
ATM = [(r'&mut \*self\.data_ptr\.add\(index\)', 'vx_at_mut(&mut self.data_ptr, index)', 1)]
TY = [(r'let mut run = (-?\d+);', r'let mut run: i32 = \1;', 1), (r'let mut context = \(0, 0\);', 'let mut context: (u32, u32) = (0, 0);', 1), (r'let mut run_coder =(?!=)', 'let mut run_coder: u32 =', 1)]
IMG = [(r'&image\b', '&*image')]
SAME = 'geo(*final(self)) == geo(*old(self)), final(self).data_len == old(self).data_len'
ACC = '(Acc { s: %s as int, q: %s as int, n: %s as int })'
def acc(f): return ACC % (f % 'sum', f % 'sum2', f % 'count')
ACCESS = [
    Fn('ImageChunkMut::is_owned_zone', 'r', '        ensures r == own(geo(*self), y as int, x as int)'),
    Fn('ImageChunkMut::is_writeable_zone', 'r', '''        requires chunk_ok(*self), own(geo(*self), y as int, x as int),
        ensures r == (y == self.y_range.0 && x == self.x_range.0 || touched(y as int, x as int, self.step as int))''', entry='''
        proof {
            let s = self.step as int; lemma_pw(s);
            if mult(y as int, s) { lemma_bits(y as int, s); }
            lemma_mod_mult(y as int, s);
            lemma_mod_sel(x as int, s);
            assert((2 * s) as usize == 2 * s);
        }'''),
    Fn('ImageChunkMut::get_unchecked', 'r', '''        requires chunk_ok(*self), own(geo(*self), y as int, x as int),
        ensures *r == mem(self.data_ptr)[at(geo(*self), y as int, x as int)]''', entry='        proof { lemma_at(geo(*self), mem(self.data_ptr).len() as int, y as int, x as int); }', subst=AT),
    Fn('ImageChunkMut::get_unchecked_mut', 'r', '''        requires chunk_ok(*old(self)), own(geo(*old(self)), y as int, x as int), y == old(self).y_range.0 && x == old(self).x_range.0 || touched(y as int, x as int, old(self).step as int),
        ensures %s, chunk_ok(*final(self)), *r == mem(old(self).data_ptr)[at(geo(*old(self)), y as int, x as int)], mem(final(self).data_ptr) == mem(old(self).data_ptr).update(at(geo(*old(self)), y as int, x as int), *final(r))''' % SAME,
       entry='        proof { lemma_at(geo(*self), mem(self.data_ptr).len() as int, y as int, x as int); }', subst=ATM),
]
def pts(k, d, w):
    v = ['val(g, m, y - %d * s, x as int)' % d, 'val(g, m, y as int, x - %d * s)' % d, 'val(g, m, y - %d * s, x - %d * s)' % (d, d)]
    return ('assert(points@.len() == 3); ' + ''.join('assert(pv(g, m, points@[%d]) == %s); ' % (i, v[i]) for i in range(3))
        + 'assert(adds(%s, g, m, points@, 3) == acadd(acadd(acadd(%s, %s, %d), %s, %d), %s, %d)) by { reveal_with_fuel(adds, 4); }' % (k, k, v[0], w[0], v[1], w[1], v[2], w[2])
        + ' assert(%s == adds(%s, g, m, points@, 3)); lemma_add(adds(%s, g, m, points@, 3), 0i16, 0);' % (acc('%s'), k, k))
def ptloop(k, a, n): return dict(post='proof { %s }' % (pts('a1', 2, (4, 4, 2)) if k == 0 else pts('a2', 4, (2, 2, 1))), inv='''invariant vx_n%d <= 3, points@.len() == 3, acc_ok(%s), %s.n <= 18, g == geo(*image), m == mem(image.data_ptr), chunk_ok(*image), ptsok(g, points@), w3(points@),
                %s == adds(%s, g, m, points@, vx_n%d as int), acc_ok(adds(%s, g, m, points@, vx_n%d as int)), adds(%s, g, m, points@, vx_n%d as int).n <= %s.n + 4 * vx_n%d,
            decreases 3 - vx_n%d''' % (k, a, a, acc('%s'), a, k, a, k, a, k, a, k, k),
    begin='''let ghost j = vx_n%d - 1; proof { reveal_with_fuel(adds, 2); assert(points@[j] == *p); assert(ptok(g, points@[j])); assert(0 <= points@[j].2 <= 4); lemma_add(adds(%s, g, m, points@, j), pv(g, m, points@[j]), points@[j].2 as int); }''' % (k, a))
CTXF = [
    Fn('square', 'r', '    ensures r == sq32(t)', subst=SQ, entry='    proof { }'),
    Fn('add_context', None, '''    requires acc_ok(%s), 0 <= w <= 4, *old(count) + w <= 32,
    ensures %s == acadd(%s, x, w as int), acc_ok(%s), *final(count) == *old(count) + w''' % (acc('*old(%s)'), acc('*final(%s)'), acc('*old(%s)'), acc('*final(%s)')), entry='    proof { lemma_add(%s, x, w as int); let t = mag(x as int); if t < 4096 { assert(0 <= t * t < 0x100_0000) by (nonlinear_arith) requires 0 <= t < 4096; } }' % acc('*%s'), hints=[('before', '* sum2 +=', 1, '    assert(sq32(if x < 4096 { x } else { 4096u32 }) == sq4(x as int)) by { if x < 4096 { assert(x * x < 0x100_0000) by (nonlinear_arith) requires x < 4096; } else { assert(4096 * 4096 == 0x100_0000); } }')]),
    Fn('get_context', 'r', '''    requires chunk_ok(*image), inb(geo(*image), y as int, x as int), touched(y as int, x as int, image.step as int),
    ensures r == ctx(geo(*image), mem(image.data_ptr), y as int, x as int), ctx_ok(r), r.0 <= 0x8_0001''', attrs='#[verifier::spinoff_prover]', entry='''    hide(touched); hide(known); hide(adds); hide(at); hide(acadd); hide(anc); hide(chunk_ok); hide(geo_ok); hide(ctx1); hide(ctx2); hide(ctx4); hide(ctx_acc); hide(b2);
    let ghost g = geo(*image); let ghost m = mem(image.data_ptr); let ghost s = g.s;
    proof {
        lemma_chunk(*image); lemma_pw(s); lemma_ctx_reads(g, m.len() as int, y as int, x as int); lemma_bits(y as int, s); lemma_bits(x as int, s);
        lemma_anc(y as int, s, g.y1 - g.y0); lemma_anc(x as int, s, g.x1 - g.x0); lemma_ctx_n(g, m, y as int, x as int);
    }
    ''', loops=[ptloop(0, 'a1', 0), ptloop(1, 'a2', 1)],
       hints=[
        ('before', 'let mut count = 0u32', 1, '    proof { reveal(anc); assert(px == g.x0 + anc(x as int, s, g.x1 - g.x0)); assert(py == g.y0 + anc(y as int, s, g.y1 - g.y0)); }'),
        ('before', 'if y >= skip * 2', 1, '    let ghost a1 = ctx1(g, m, y as int, x as int); proof { reveal(ctx1); } assert(%s == a1); assert(a1.n <= 6);' % acc('%s')),
        ('before', 'for p in & points', 1, '    assert(ptsok(g, points@)) by { assert(ptok(g, points@[0]) && ptok(g, points@[1]) && ptok(g, points@[2])); } assert(adds(a1, g, m, points@, 0) == a1) by { reveal_with_fuel(adds, 1); }'),
        ('before', 'if y >= skip * 4', 1, '        let ghost a2 = ctx2(g, m, y as int, x as int, a1); proof { reveal(ctx2); } assert(%s == a2); assert(a2.n <= 18);' % acc('%s')),
        ('before', 'for p in & points', 2, '    assert(ptsok(g, points@)) by { assert(ptok(g, points@[0]) && ptok(g, points@[1]) && ptok(g, points@[2])); } assert(adds(a2, g, m, points@, 0) == a2) by { reveal_with_fuel(adds, 1); }'),
        ('before', 'sum * 16', 1, '    proof { reveal(ctx); reveal(ctx_acc); reveal(ctx4); let a = ctx_acc(g, m, y as int, x as int); assert(%s == a); lemma_ctx_of(a); assert(ctx_of(a).0 == (a.s * 16 + a.n / 2) / a.n); }' % acc('%s')),
       ]),
]
SC = """    requires %s, context.1 <= 0x1000_0010,
    ensures final(stream).end() == old(stream).end(), """
CFX = 'Cf { sch: scheme, q: q as int, chroma: is_chroma }'
HIDE = 'hide(blk); hide(rows); hide(row); hide(code1); hide(next_c); hide(next_rc); hide(touched); hide(chunk_ok); hide(geo_ok); hide(kind); hide(at);'
def enc_bits(x): return 'b1 + blk(cf, rows(g, m, 0), (0, 0), rc0(cf, g.s), 0) =~= stream.bits() + blk(cf, %s, context, run_coder, run as int)' % x
ENCI = """stream.wwf(), stream.end() == old(stream).end(), g == geo(*image), m == mem(image.data_ptr), chunk_ok(*image), 0 <= q <= 2048, cf == (CFX), step == g.s, 0 < step <= 0x2000_0000, x_range == (g.x0 as i32, g.x1 as i32), y_range == (g.y0 as i32, g.y1 as i32), 0 <= g.x0 <= g.x1 < 0x4000_0000, 0 <= g.y0 <= g.y1 < 0x4000_0000, sizex == g.x1 - g.x0, sizey == g.y1 - g.y0,
                0 <= run, run_coder <= 4, scheme is Turbo ==> run_coder <= 1, context.1 <= 0x1000_0010, context.0 <= 0x8_0010, run_coder == 0 ==> run == 0,""".replace('CFX', CFX)
DECI = """stream.rwf(), stream.end() == old(stream).end(), g == geo(*image), m == mem(old(image).data_ptr), image.data_len == old(image).data_len, g == geo(*old(image)), frame(g, has_dc, m, mem(image.data_ptr)), mem(image.data_ptr).len() == m.len(), chunk_ok(*image), 0 <= q <= 2048, cf == (CFX), step == g.s, 0 < step <= 0x2000_0000, x_range == (g.x0 as i32, g.x1 as i32), y_range == (g.y0 as i32, g.y1 as i32), 0 <= g.x0 <= g.x1 < 0x4000_0000, 0 <= g.y0 <= g.y1 < 0x4000_0000, sizex == g.x1 - g.x0, sizey == g.y1 - g.y0,
                geo_ok(g, m.len() as int), hyp == coded(g, m, im, cf, has_dc, old(stream).rest(), tail), hyp ==> im.len() == m.len(), run_coder <= 4, scheme is Turbo ==> run_coder <= 1, context.1 <= 0x1000_0010,""".replace('CFX', CFX)
CODEC = [
    Fn('encode_s', 'r', SC % 'old(stream).wwf(), -0x4000_0000 < s < 0x4000_0000' + 'r is Ok ==> final(stream).wwf() && final(stream).bits() =~= old(stream).bits() + enc_k(s as int, kind(sum_sq, context.1 as int, is_chroma))'),
    Fn('get_s', 'r', SC % 'old(stream).rwf()' + """match dec_k(old(stream).rest(), kind(sum_sq, context.1 as int, is_chroma)) {
        None => r is Err,
        Some((v, n)) => r matches Ok(w) && w == v && final(stream).rwf() && final(stream).rest() =~= old(stream).rest().skip(n) && n <= old(stream).rest().len(),
    }"""),
    Fn('get_run_coder_fast', 'r', '    ensures r == rc_fast(context, s as int, run_coder), run_coder <= 4 ==> r <= 4'),
    Fn('get_run_coder', 'r', '    requires context.1 <= 0x1000_0010,\n    ensures r == rc_ctx(context, s as int, q as int, run_coder, sum_sq), run_coder <= 4 ==> r <= 4'),
    Fn('encode', 'r', """    requires old(stream).wwf(), chunk_ok(*image), 0 <= q <= 2048, (image.y_range.1 - image.y_range.0) * (image.x_range.1 - image.x_range.0) <= i32::MAX,
    ensures final(stream).end() == old(stream).end(), r is Ok ==> final(stream).wwf() && final(stream).bits() == old(stream).bits() + block(geo(*image), mem(image.data_ptr), CFX, has_dc)""".replace('CFX', CFX), subst=IMG + TY,
       attrs='#[verifier::spinoff_prover]',
       entry='    ' + HIDE + """
    let ghost g = geo(*image); let ghost m = mem(image.data_ptr); let ghost cf = CFX; let ghost b0 = stream.bits();
    proof { lemma_chunk(*image); lemma_q_step(image.step as int, q as int); }""".replace('CFX', CFX),
       hints=[
        ('before', 'Ok(())', -1, """    proof { lemma_blk0(cf, context, run_coder, run as int); lemma_rows_end(g, m); assert(stream.bits() =~= tot); }"""),
        ('before', 'let mut context', 1, '    let ghost b1 = stream.bits();'),
        ('before', 'for y in', 1, """    let ghost tot = b1 + blk(cf, rows(g, m, 0), (0, 0), rc0(cf, g.s), 0);
    proof { assert(b1 =~= b0 + (if has_dc && inb(g, 0, 0) { enc_s(val(g, m, 0, 0) as int, 4) } else { seq![] })); assert(tot =~= b0 + block(g, m, cf, has_dc)); lemma_rows_len(g, m, 0); lemma_start(g, m); assert(run_coder == rc0(cf, g.s)); }"""),
        ('before', 'context = (', 2, '            proof { lemma_sq(t); lemma_sq(if t < 4096 { t } else { 4096 }); }'),
        ('before', 'run = 0;', 1, "                let ghost sb1 = stream.bits();"),
        ('before', 'continue', 2, """                proof { reveal(code1); reveal(next_c); reveal(next_rc); lemma_cat(sb, pre, code1(cf, c0, r0, it), nx); assert(stream.bits() =~= sb + pre + code1(cf, c0, r0, it)); }"""),
       ],
       loops=[
        dict(inv="""        invariant vx_e0 == sizey, vx_s0 == step, %s
                tot == stream.bits() + blk(cf, rows(g, m, vx_n0 as int), context, run_coder, run as int), run + rows(g, m, vx_n0 as int).len() <= i32::MAX, 0 <= vx_n0, vx_n0 < sizey ==> mult(vx_n0 as int, g.s),
            decreases vx_e0 - vx_n0""" % ENCI, begin="""
            let ghost rest = rows(g, m, vx_n0 as int);
            proof { lemma_chunk(*image); lemma_bits(y as int, g.s); lemma_rows(g, m, y as int, vx_n0 as int); }"""),
        dict(inv="""            invariant vx_e1 == sizex, vx_s1 == x_step, x_step == (if sel(y as int, g.s) { g.s } else { 2 * g.s }), %s
                tot == stream.bits() + blk(cf, row(g, m, y as int, vx_n1 as int) + rest, context, run_coder, run as int), run + (row(g, m, y as int, vx_n1 as int) + rest).len() <= i32::MAX, 0 <= y < sizey, mult(y as int, g.s), vx_n1 >= 0, vx_n1 < sizex ==> touched(y as int, vx_n1 as int, g.s),
            decreases vx_e1 - vx_n1""" % ENCI, begin="""
            let ghost rem = row(g, m, y as int, x as int) + rest; let ghost it = rem[0]; let ghost c0 = context; let ghost r0 = run_coder; let ghost run0 = run; let ghost sb = stream.bits();
            let ghost pre: Seq<bool> = if r0 != 0 { enc_u(run as u32, r0 as int) } else { seq![] };
            let ghost nx = blk(cf, rem.skip(1), next_c(cf, c0, r0, it), next_rc(cf, c0, r0, it), 0);
            proof { lemma_step16(c0); lemma_item(g, m, y as int, x as int, vx_n1 as int, rest); lemma_blk1(cf, rem, context, run_coder, run as int); lemma_cat(sb, pre, code1(cf, c0, r0, it), nx); }""",
            end="""            proof { reveal(code1); reveal(next_c); reveal(next_rc); assert(stream.bits() =~= sb + pre + code1(cf, c0, r0, it)); }""",
            post="        proof { lemma_row_end(g, m, y as int, vx_n1 as int, rest); }"),
       ]),
    Fn('decode', 'r', """    requires old(stream).rwf(), chunk_ok(*old(image)), 0 <= q <= 2048,
    ensures final(stream).end() == old(stream).end(), r is Ok ==> final(stream).rwf(), SAME, chunk_ok(*final(image)), frame(geo(*old(image)), has_dc, mem(old(image).data_ptr), mem(final(image).data_ptr)),
        coded(geo(*old(image)), mem(old(image).data_ptr), im, CFX, has_dc, old(stream).rest(), tail) ==> r is Ok && final(stream).rest() == tail && decoded(geo(*old(image)), mem(final(image).data_ptr), im, has_dc)""".replace('CFX', CFX).replace('SAME', SAME.replace('self', 'image')),
       subst=IMG + TY + [(r'\bmut image: ImageChunkMut', 'image: &mut ImageChunkMut', 1), (r'is_chroma: bool,\s*\) ->', 'is_chroma: bool,\n    Ghost(im): Ghost<Seq<i16>>, Ghost(tail): Ghost<Seq<bool>>,\n) ->', 1)],
       attrs='#[verifier::spinoff_prover]',
       entry='    ' + HIDE.replace('hide(blk); ', '') + """ hide(left); hide(agree); hide(frame); hide(coded); hide(decoded); hide(read1);
    let ghost g = geo(*image); let ghost m = mem(image.data_ptr); let ghost cf = CFX; let ghost hyp = coded(g, m, im, cf, has_dc, stream.rest(), tail);
    proof { lemma_chunk(*image); lemma_q_step(image.step as int, q as int); lemma_frame0(g, has_dc, m); if hyp && has_dc && inb(g, 0, 0) { lemma_coded_dc(g, m, im, cf, has_dc, stream.rest(), tail); } }""".replace('CFX', CFX),
       hints=[
        ('before', 'Ok(())', -1, """    proof { lemma_rows_end(g, im); if hyp { lemma_left_end(cf, context, run_coder, run as int, stream.rest(), tail); } }"""),
        ('before', 'let mut context', 1, """    proof { if has_dc && inb(g, 0, 0) { lemma_at(g, m.len() as int, g.y0, g.x0); lemma_frame1(g, has_dc, m, m, 0, 0, mem(image.data_ptr)[at(g, g.y0, g.x0)]); }
        if hyp { lemma_coded0(g, m, mem(image.data_ptr), im, cf, has_dc, old(stream).rest(), stream.rest(), tail); } lemma_start(g, m); }"""),
        ('before', 'for y in', 1, """    proof { assert(run_coder == rc0(cf, g.s)); lemma_rows_len(g, im, 0); }"""),
        ('before', 'run = unsigned_decode', 1, """                proof { if hyp { lemma_left_run(cf, rem, context, run_coder, stream.rest(), tail); } }"""),
        ('before', 'if run <= 0', 1, """            let ghost c0 = context; let ghost r0 = run_coder; let ghost run0 = run; let ghost rest0 = stream.rest();
            proof { lemma_step16(c0); if hyp { lemma_left_pos(cf, rem, c0, r0, run0 as int, rest0, tail); if run <= 0 { lemma_ctx_ok(g, im, y as int, x as int); lemma_left_read(cf, rem, c0, r0, run0 as int, rest0, tail); lemma_ctx_agree(g, cur, im, y as int, x as int); reveal(read1); } else { lemma_left_zero(cf, rem, c0, r0, run0 as int, rest0, tail); } } }"""),
        ('before', 'context = (', 2, '            proof { lemma_sq(t); lemma_sq(if t < 4096 { t } else { 4096 }); }'),
       ],
       loops=[
        dict(inv="""        invariant vx_e0 == sizey, vx_s0 == step, %s
                hyp ==> stream.rest().len() >= 0 && left(cf, rows(g, im, vx_n0 as int), context, run_coder, run as int, stream.rest(), tail) && rows(g, im, vx_n0 as int).len() <= i32::MAX && agree(g, mem(image.data_ptr), im, vx_n0 as int, 0), 0 <= vx_n0, vx_n0 < sizey ==> mult(vx_n0 as int, g.s),
            decreases vx_e0 - vx_n0""" % DECI, post='    proof { if hyp { lemma_decoded(g, mem(image.data_ptr), im, has_dc, vx_n0 as int); } }', begin="""
            let ghost rest = rows(g, im, vx_n0 as int);
            proof { lemma_chunk(*image); lemma_bits(y as int, g.s); lemma_rows(g, im, y as int, vx_n0 as int); if hyp { lemma_agree_start(g, mem(image.data_ptr), im, y as int); } }"""),
        dict(inv="""            invariant vx_e1 == sizex, vx_s1 == x_step, x_step == (if sel(y as int, g.s) { g.s } else { 2 * g.s }), %s
                hyp ==> left(cf, row(g, im, y as int, vx_n1 as int) + rest, context, run_coder, run as int, stream.rest(), tail) && (row(g, im, y as int, vx_n1 as int) + rest).len() <= i32::MAX && agree(g, mem(image.data_ptr), im, y as int, vx_n1 as int),
                0 <= y < sizey, mult(y as int, g.s), vx_n1 >= 0, vx_n1 < sizex ==> touched(y as int, vx_n1 as int, g.s),
            decreases vx_e1 - vx_n1""" % DECI, begin="""
            let ghost cur = mem(image.data_ptr); let ghost rem = row(g, im, y as int, x as int) + rest; let ghost it = rem[0];
            proof { lemma_abs(g, m.len() as int, y as int, x as int); lemma_item(g, im, y as int, x as int, vx_n1 as int, rest); }""",
            end="""            proof { lemma_frame1(g, has_dc, m, cur, y as int, x as int, s as i16); if hyp { if run0 <= 0 { reveal(next_c); reveal(next_rc); assert(context == next_c(cf, c0, r0, it)); assert(run_coder == next_rc(cf, c0, r0, it)); assert(stream.rest() == rest0.skip((read1(cf, c0, it, rest0)->0).1)); assert(left(cf, rem.skip(1), context, run_coder, run as int, stream.rest(), tail)); } lemma_agree_step(g, cur, im, y as int, x as int, vx_n1 as int, s as i16); } }""",
            post="        proof { lemma_row_end(g, im, y as int, vx_n1 as int, rest); if hyp { lemma_agree_row(g, mem(image.data_ptr), im, y as int, vx_n1 as int, vx_n0 as int); } }"),
       ]),
]
EXTRA = r'''
/// loops
/// the samples of a block that its level holds
pub open spec fn lvl(g: Geo, dc: bool, v: int, u: int) -> bool { inb(g, v, u) && (touched(v, u, g.s) || dc && v == 0 && u == 0) }
/// only samples of the level change
pub open spec fn frame(g: Geo, dc: bool, a: Seq<i16>, b: Seq<i16>) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() && #[trigger] b[k] != a[k] ==> exists|v: int, u: int| #[trigger] lvl(g, dc, v, u) && k == at(g, g.y0 + v, g.x0 + u)
}
pub proof fn lemma_frame0(g: Geo, dc: bool, a: Seq<i16>) ensures frame(g, dc, a, a) {}
pub proof fn lemma_frame1(g: Geo, dc: bool, a: Seq<i16>, b: Seq<i16>, v: int, u: int, s: i16)
    requires frame(g, dc, a, b), lvl(g, dc, v, u), geo_ok(g, a.len() as int),
    ensures frame(g, dc, a, b.update(at(g, g.y0 + v, g.x0 + u), s)),
{ lemma_at(g, a.len() as int, g.y0 + v, g.x0 + u); }
/// the bits are the code of the level of im in this block followed by tail, and the coarser samples have been decoded
pub open spec fn coded(g: Geo, m: Seq<i16>, im: Seq<i16>, cf: Cf, dc: bool, bits: Seq<bool>, tail: Seq<bool>) -> bool {
    &&& im.len() == m.len() && (g.y1 - g.y0) * (g.x1 - g.x0) <= i32::MAX
    &&& bits == block(g, im, cf, dc) + tail
    &&& forall|v: int, u: int| inb(g, v, u) && mult(v, 2 * g.s) && mult(u, 2 * g.s) && !(dc && v == 0 && u == 0) ==> val(g, m, v, u) == #[trigger] val(g, im, v, u)
}
pub open spec fn decoded(g: Geo, m: Seq<i16>, im: Seq<i16>, dc: bool) -> bool { forall|v: int, u: int| #[trigger] lvl(g, dc, v, u) ==> val(g, m, v, u) == val(g, im, v, u) }
pub proof fn lemma_coded_dc(g: Geo, m: Seq<i16>, im: Seq<i16>, cf: Cf, dc: bool, bits: Seq<bool>, tail: Seq<bool>)
    requires coded(g, m, im, cf, dc, bits, tail), dc && inb(g, 0, 0),
    ensures sdec(bits, 4) matches Some((v, n)) && v == val(g, im, 0, 0) && n <= bits.len() && bits.skip(n) == blk(cf, rows(g, im, 0), (0, 0), rc0(cf, g.s), 0) + tail,
{
    let e = enc_s(val(g, im, 0, 0) as int, 4); let t = blk(cf, rows(g, im, 0), (0, 0), rc0(cf, g.s), 0) + tail;
    assert(bits =~= e + t);
    lemma_s_round(val(g, im, 0, 0) as int, 4, t);
    assert(bits.skip(e.len() as int) =~= t);
}
pub proof fn lemma_coded0(g: Geo, m: Seq<i16>, n: Seq<i16>, im: Seq<i16>, cf: Cf, dc: bool, bits: Seq<bool>, rest: Seq<bool>, tail: Seq<bool>)
    requires coded(g, m, im, cf, dc, bits, tail), geo_ok(g, m.len() as int),
        if dc && inb(g, 0, 0) { n == m.update(at(g, g.y0, g.x0), val(g, im, 0, 0)) && rest == blk(cf, rows(g, im, 0), (0, 0), rc0(cf, g.s), 0) + tail } else { n == m && rest == bits },
    ensures left(cf, rows(g, im, 0), (0, 0), rc0(cf, g.s), -1, rest, tail), agree(g, n, im, 0, 0), rows(g, im, 0).len() <= i32::MAX, im.len() == m.len(),
{
    lemma_rows_len(g, im, 0);
    assert(rest =~= blk(cf, rows(g, im, 0), (0, 0), rc0(cf, g.s), 0) + tail);
    assert forall|v: int, u: int| inb(g, v, u) && #[trigger] known(g.s, 0, 0, v, u) implies val(g, n, v, u) == val(g, im, v, u) by {
        lemma_touched_pos(v, u, g.s);
        lemma_at(g, m.len() as int, g.y0 + v, g.x0 + u);
        if dc && inb(g, 0, 0) { lemma_at(g, m.len() as int, g.y0, g.x0); if !(v == 0 && u == 0) { if at(g, g.y0 + v, g.x0 + u) == at(g, g.y0, g.x0) { lemma_at_inj(g, m.len() as int, g.y0 + v, g.x0 + u, g.y0, g.x0); } } }
        assert(val(g, im, v, u) == val(g, im, v, u));
    }
}
pub proof fn lemma_touched_pos(v: int, u: int, s: int) requires v >= 0, u >= 0, s > 0, ensures !before(0, 0, v, u) {}
pub proof fn lemma_agree_start(g: Geo, m: Seq<i16>, im: Seq<i16>, y: int)
    requires agree(g, m, im, y, 0), g.s > 0, y >= 0,
    ensures agree(g, m, im, y, if sel(y, g.s) { 0 } else { g.s }),
{
    let x = if sel(y, g.s) { 0 } else { g.s };
    assert forall|v: int, u: int| inb(g, v, u) && #[trigger] known(g.s, y, x, v, u) implies val(g, m, v, u) == val(g, im, v, u) by {
        if v == y && !sel(y, g.s) && 0 <= u < g.s { reveal(sel); reveal(mult); vstd::arithmetic::div_mod::lemma_small_mod(u as nat, g.s as nat); vstd::arithmetic::div_mod::lemma_small_mod(u as nat, (2 * g.s) as nat); }
        assert(known(g.s, y, 0, v, u));
    }
}
pub proof fn lemma_agree_step(g: Geo, m: Seq<i16>, im: Seq<i16>, y: int, x: int, z: int, s: i16)
    requires agree(g, m, im, y, x), geo_ok(g, m.len() as int), m.len() == im.len(), inb(g, y, x), touched(y, x, g.s), s == val(g, im, y, x), x < z,
        z <= x + (if sel(y, g.s) { g.s } else { 2 * g.s }),
    ensures agree(g, m.update(at(g, g.y0 + y, g.x0 + x), s), im, y, z),
{
    lemma_pw(g.s);
    let n = m.update(at(g, g.y0 + y, g.x0 + x), s);
    lemma_at(g, m.len() as int, g.y0 + y, g.x0 + x);
    assert forall|v: int, u: int| inb(g, v, u) && #[trigger] known(g.s, y, z, v, u) implies val(g, n, v, u) == val(g, im, v, u) by {
        lemma_at(g, m.len() as int, g.y0 + v, g.x0 + u);
        if v == y && u == x { } else {
            if at(g, g.y0 + v, g.x0 + u) == at(g, g.y0 + y, g.x0 + x) { lemma_at_inj(g, m.len() as int, g.y0 + v, g.x0 + u, g.y0 + y, g.x0 + x); }
            if v == y && x < u && touched(v, u, g.s) {
                lemma_mult_sel(x, g.s); lemma_mult_sel(u, g.s);
                lemma_gap(x, u, g.s); lemma_grid(x, g.s);
                if !sel(y, g.s) && u < z { assert(u == x + g.s); assert(sel(u, g.s) == !sel(x, g.s)); }
                assert(before(y, z, v, u) ==> false);
            }
            assert(known(g.s, y, x, v, u));
        }
    }
}
pub proof fn lemma_agree_row(g: Geo, m: Seq<i16>, im: Seq<i16>, y: int, x: int, z: int)
    requires agree(g, m, im, y, x), x >= g.x1 - g.x0, g.s > 0, mult(y, g.s), y >= 0, z <= y + g.s,
    ensures agree(g, m, im, z, 0),
{
    assert forall|v: int, u: int| inb(g, v, u) && #[trigger] known(g.s, z, 0, v, u) implies val(g, m, v, u) == val(g, im, v, u) by {
        if v > y && touched(v, u, g.s) { lemma_gap(y, v, g.s); }
        assert(known(g.s, y, x, v, u));
    }
}
pub proof fn lemma_decoded(g: Geo, m: Seq<i16>, im: Seq<i16>, dc: bool, y: int)
    requires agree(g, m, im, y, 0), y >= g.y1 - g.y0, g.s > 0,
    ensures decoded(g, m, im, dc),
{
    assert forall|v: int, u: int| #[trigger] lvl(g, dc, v, u) implies val(g, m, v, u) == val(g, im, v, u) by {
        if v == 0 && u == 0 { lemma_start(g, m); assert(mult(0, 2 * g.s)) by { reveal(mult); } }
        assert(known(g.s, y, 0, v, u));
    }
}
pub proof fn lemma_left_pos(cf: Cf, rem: Seq<It>, c: (u32, u32), rc: u32, run: int, rest: Seq<bool>, tail: Seq<bool>)
    requires left(cf, rem, c, rc, run, rest, tail), ensures run >= -1, run >= 0 ==> rc != 0 {}
/// the access is one of the block's own samples
pub proof fn lemma_abs(g: Geo, n: int, y: int, x: int)
    requires geo_ok(g, n), inb(g, y, x), touched(y, x, g.s),
    ensures touched(g.y0 + y, g.x0 + x, g.s),
{ lemma_pw(g.s); lemma_shift(y, g.y0, g.s); lemma_shift(x, g.x0, g.s); }
pub proof fn lemma_ctx_ok(g: Geo, m: Seq<i16>, y: int, x: int) ensures ctx_ok(ctx(g, m, y, x)), ctx(g, m, y, x).0 <= 0x8_0001
{
    hide(val); hide(acadd); hide(acc_ok); hide(anc);
    reveal(ctx);
    let s = g.s; let xo = x + e2(!sel(x, s), s);
    let z = Acc { s: 0, q: 0, n: 0 };
    lemma_accs(z, val(g, m, anc(y, s, g.y1 - g.y0), anc(x, s, g.x1 - g.x0)), 2);
    let a0 = acadd(z, val(g, m, anc(y, s, g.y1 - g.y0), anc(x, s, g.x1 - g.x0)), 2);
    lemma_accs(a0, val(g, m, y - s, xo), 2);
    lemma_accs(acadd(a0, val(g, m, y - s, xo), 2), val(g, m, y, x - s), 2);
    let a = ctx1(g, m, y, x);
    assert(acc_ok(a) && a.n <= 6);
    lemma_accs(a, val(g, m, y - 2 * s, x), 4); let b1 = acadd(a, val(g, m, y - 2 * s, x), 4);
    lemma_accs(b1, val(g, m, y, x - 2 * s), 4); let b2 = acadd(b1, val(g, m, y, x - 2 * s), 4);
    lemma_accs(b2, val(g, m, y - 2 * s, x - 2 * s), 2); let b3 = acadd(b2, val(g, m, y - 2 * s, x - 2 * s), 2);
    lemma_accs(b3, val(g, m, y - 2 * s, x + 2 * s), 2);
    let b = ctx2(g, m, y, x, a);
    assert(acc_ok(b) && b.n <= 18);
    lemma_accs(b, val(g, m, y - 4 * s, x), 2); let c1 = acadd(b, val(g, m, y - 4 * s, x), 2);
    lemma_accs(c1, val(g, m, y, x - 4 * s), 2); let c2 = acadd(c1, val(g, m, y, x - 4 * s), 2);
    lemma_accs(c2, val(g, m, y - 4 * s, x - 4 * s), 1); let c3 = acadd(c2, val(g, m, y - 4 * s, x - 4 * s), 1);
    lemma_accs(c3, val(g, m, y - 4 * s, x + 4 * s), 1);
    lemma_ctx_n(g, m, y, x);
    lemma_ctx_of(ctx_acc(g, m, y, x));
}
pub proof fn lemma_accs(a: Acc, v: i16, w: int)
    ensures a == (Acc { s: 0, q: 0, n: 0 }) ==> acc_ok(a), (a == (Acc { s: 0, q: 0, n: 0 }) || acc_ok(a)) && 0 <= w <= 4 && a.n + w <= 32 ==> acc_ok(acadd(a, v, w)), acadd(a, v, w).n == a.n + w,
{ if acc_ok(a) && 0 <= w <= 4 && a.n + w <= 32 { lemma_add(a, v, w); } }
pub proof fn lemma_left_end(cf: Cf, c: (u32, u32), rc: u32, run: int, rest: Seq<bool>, tail: Seq<bool>)
    requires left(cf, seq![], c, rc, run, rest, tail), ensures rest == tail,
{ assert(Seq::<It>::empty().skip(0) =~= seq![]); if run == -1 { assert(rest =~= tail); } else { assert(rest =~= tail); } }
pub proof fn lemma_q_step(s: int, q: int)
    requires 0 < s, 0 <= q <= 2048,
    ensures s < 2048 ==> 0 <= q * s <= 0x40_0000,
{ if s < 2048 { assert(0 <= q * s <= 2048 * 2048) by (nonlinear_arith) requires 0 <= q <= 2048, 0 < s < 2048; } }
pub proof fn lemma_start(g: Geo, m: Seq<i16>) requires g.s > 0, ensures mult(0, g.s) { reveal(mult); }
pub proof fn lemma_blk0(cf: Cf, c: (u32, u32), rc: u32, run: int) ensures blk(cf, seq![], c, rc, run) == (if run != 0 { enc_u(run as u32, rc as int) } else { seq![] }) {}
pub proof fn lemma_blk1(cf: Cf, rem: Seq<It>, c: (u32, u32), rc: u32, run: int)
    requires rem.len() > 0,
    ensures blk(cf, rem, c, rc, run) == (if rc != 0 && rem[0].v == 0 { blk(cf, rem.skip(1), c, rc, run + 1) }
        else { (if rc != 0 { enc_u(run as u32, rc as int) } else { seq![] }) + (code1(cf, c, rc, rem[0]) + blk(cf, rem.skip(1), next_c(cf, c, rc, rem[0]), next_rc(cf, c, rc, rem[0]), 0)) }),
{}
pub proof fn lemma_cat(a: Seq<bool>, b: Seq<bool>, c: Seq<bool>, d: Seq<bool>) ensures a + (b + (c + d)) == (a + b + c) + d { assert(a + (b + (c + d)) =~= (a + b + c) + d); }
pub proof fn lemma_sq(t: u32) ensures t <= 4096 ==> sq32(t) == t * t && t * t <= 0x100_0000 && sq32(t) == sq4(t as int) { if t <= 4096 { assert(0 <= t * t <= 0x100_0000) by (nonlinear_arith) requires 0 <= t <= 4096; if t == 4096 { assert(t * t == 0x100_0000); } } }
/// past the last row
pub proof fn lemma_rows_end(g: Geo, m: Seq<i16>) ensures forall|y: int| y >= g.y1 - g.y0 ==> #[trigger] rows(g, m, y) == Seq::<It>::empty() {}
pub proof fn lemma_step16(c: (u32, u32)) ensures c.0 >> 4u32 == c.0 / 16, forall|x: u32| #[trigger] (x >> 4u32) == x / 16 { assert(forall|x: u32| #[trigger] (x >> 4u32) == x / 16) by (bit_vector); }
/// one sample of a row
pub proof fn lemma_item(g: Geo, m: Seq<i16>, y: int, x: int, z: int, rest: Seq<It>)
    requires g.s > 0, 0 <= x < g.x1 - g.x0, touched(y, x, g.s), y >= 0, ({ let d = if sel(y, g.s) { g.s } else { 2 * g.s }; z == (if g.x1 - g.x0 - x > d { x + d } else { g.x1 - g.x0 }) }),
    ensures ({ let r = row(g, m, y, x) + rest; r.len() > 0 && r[0] == (It { v: val(g, m, y, x) as int, c: ctx(g, m, y, x) }) && r.skip(1) == row(g, m, y, z) + rest && r.len() == 1 + (row(g, m, y, z) + rest).len() }),
        z < g.x1 - g.x0 ==> touched(y, z, g.s), x < z,
{
    let s = g.s; let d = if sel(y, s) { s } else { 2 * s };
    lemma_mult_sel(x, s); lemma_mult_sel(y, s);
    lemma_grid(x, s); lemma_grid(y, s);
    assert(row(g, m, y, z) =~= row(g, m, y, x + d));
    assert((row(g, m, y, x) + rest).skip(1) =~= row(g, m, y, z) + rest);
    if z < g.x1 - g.x0 { assert(mult(z, s)); }
}
pub proof fn lemma_mult_sel(x: int, s: int) requires s > 0, x >= 0, ensures sel(x, s) ==> mult(x, s) { if sel(x, s) { lemma_sel_mult(x, s); } }
/// end of a row
pub proof fn lemma_row_end(g: Geo, m: Seq<i16>, y: int, x: int, rest: Seq<It>) requires x >= g.x1 - g.x0, ensures row(g, m, y, x) + rest == rest { assert(row(g, m, y, x) + rest =~= rest); }
pub proof fn lemma_rows(g: Geo, m: Seq<i16>, y: int, z: int)
    requires g.s > 0, 0 <= y < g.y1 - g.y0, mult(y, g.s), z == (if g.y1 - g.y0 - y > g.s { y + g.s } else { g.y1 - g.y0 }),
    ensures rows(g, m, y) == row(g, m, y, if sel(y, g.s) { 0 } else { g.s }) + rows(g, m, z), z < g.y1 - g.y0 ==> mult(z, g.s),
        touched(y, if sel(y, g.s) { 0 } else { g.s }, g.s),
{
    let s = g.s;
    lemma_grid(y, s); lemma_start(g, m); lemma_grid(0, s); lemma_mult_sel(s, s);
    assert(sel(0, s) == false) by { reveal(sel); }
    assert(rows(g, m, z) =~= rows(g, m, y + s));
}
pub open spec fn ptok(g: Geo, p: (i32, i32, i32)) -> bool { own(g, p.0 as int, p.1 as int) }
pub open spec fn ptsok(g: Geo, p: Seq<(i32, i32, i32)>) -> bool { forall|i: int| 0 <= i < p.len() ==> ptok(g, #[trigger] p[i]) }
pub open spec fn w3(p: Seq<(i32, i32, i32)>) -> bool { forall|i: int| 0 <= i < p.len() ==> 0 <= (#[trigger] p[i]).2 <= 4 }
pub open spec fn pv(g: Geo, m: Seq<i16>, p: (i32, i32, i32)) -> i16 { m[at(g, p.0 as int, p.1 as int)] }
pub open spec fn adds(a: Acc, g: Geo, m: Seq<i16>, p: Seq<(i32, i32, i32)>, k: int) -> Acc decreases k { if k <= 0 { a } else { acadd(adds(a, g, m, p, k - 1), pv(g, m, p[k - 1]), p[k - 1].2 as int) } }
pub proof fn lemma_mod_mult(y: int, s: int) requires s > 0, ensures (y % s == 0) == mult(y, s) { reveal(mult); }
pub proof fn lemma_mod_sel(x: int, s: int)
    requires s > 0, x >= 0,
    ensures ((x + s) % (2 * s) == 0) == sel(x, s), (x % s == 0) == mult(x, s), 2 * s - s == s,
{
    reveal(sel); reveal(mult);
    let u = 2 * s; let q = x / u; let r = x % u;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, u);
    if r < s { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + s, u, q, r + s); }
    else { assert(u * (q + 1) == u * q + u) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + s, u, q + 1, r - s); }
}
'''
POST = r"""
/// C12: the code of a block is a function of the samples of the block alone
pub open spec fn same_own(g: Geo, m: Seq<i16>, n: Seq<i16>) -> bool { forall|v: int, u: int| inb(g, v, u) ==> #[trigger] val(g, m, v, u) == val(g, n, v, u) }
pub proof fn lemma_row_own(g: Geo, m: Seq<i16>, n: Seq<i16>, y: int, x: int)
    requires geo_ok(g, m.len() as int), same_own(g, m, n), 0 <= y < g.y1 - g.y0, mult(y, g.s), x >= 0, x < g.x1 - g.x0 ==> touched(y, x, g.s),
    ensures row(g, m, y, x) == row(g, n, y, x),
    decreases (if x < g.x1 - g.x0 { g.x1 - g.x0 - x } else { 0 }),
{
    if x < g.x1 - g.x0 {
        let d = if sel(y, g.s) { g.s } else { 2 * g.s };
        lemma_pw(g.s);
        let z = if g.x1 - g.x0 - x > d { x + d } else { g.x1 - g.x0 };
        lemma_item(g, m, y, x, z, seq![]);
        assert(agree(g, m, n, y, x));
        lemma_ctx_agree(g, m, n, y, x);
        assert(val(g, m, y, x) == val(g, n, y, x));
        lemma_row_own(g, m, n, y, x + d);
    }
}
pub proof fn lemma_rows_own(g: Geo, m: Seq<i16>, n: Seq<i16>, y: int)
    requires geo_ok(g, m.len() as int), same_own(g, m, n), y >= 0, mult(y, g.s),
    ensures rows(g, m, y) == rows(g, n, y),
    decreases (if y < g.y1 - g.y0 { g.y1 - g.y0 - y } else { 0 }),
{
    if y < g.y1 - g.y0 {
        lemma_rows(g, m, y, if g.y1 - g.y0 - y > g.s { y + g.s } else { g.y1 - g.y0 });
        lemma_row_own(g, m, n, y, if sel(y, g.s) { 0 } else { g.s });
        lemma_grid(y, g.s);
        lemma_rows_own(g, m, n, y + g.s);
    }
}
pub proof fn lemma_block_own(g: Geo, m: Seq<i16>, n: Seq<i16>, cf: Cf, dc: bool)
    requires geo_ok(g, m.len() as int), same_own(g, m, n),
    ensures block(g, m, cf, dc) == block(g, n, cf, dc),
{
    lemma_start(g, m); lemma_pw(g.s);
    lemma_rows_own(g, m, n, 0);
    if inb(g, 0, 0) { assert(val(g, m, 0, 0) == val(g, n, 0, 0)); }
}
/// C06 as a client of the contracts: a block is encoded, a block of the same geometry whose coarser samples are equal is decoded
/// from these bits, whatever follows them
pub fn block_round_trip<W: BitsWriter, R: BitsReader>(image: &ImageChunkMut<'_, i16>, w: &mut W, out: &mut ImageChunkMut<'_, i16>, scheme: Encoder, q: i32, has_dc: bool, is_chroma: bool, vx_open: impl Fn(Ghost<Seq<bool>>) -> R, Ghost(tail): Ghost<Seq<bool>>) -> (r: io::Result<()>)
    requires
        old(w).wwf(), old(w).bits() == Seq::<bool>::empty(), chunk_ok(*image), chunk_ok(*old(out)), 0 <= q <= 2048, (image.y_range.1 - image.y_range.0) * (image.x_range.1 - image.x_range.0) <= i32::MAX,
        geo(*image) == geo(*old(out)), mem(image.data_ptr).len() == mem(old(out).data_ptr).len(),
        forall|v: int, u: int| inb(geo(*image), v, u) && mult(v, 2 * image.step as int) && mult(u, 2 * image.step as int) && !(has_dc && v == 0 && u == 0) ==> val(geo(*image), mem(old(out).data_ptr), v, u) == #[trigger] val(geo(*image), mem(image.data_ptr), v, u),
        // some way to read what the writer wrote, and then tail
        forall|t: Ghost<Seq<bool>>| call_requires(vx_open, (t,)),
        forall|t: Ghost<Seq<bool>>, b: R| call_ensures(vx_open, (t,), b) ==> b.rwf() && b.rest() == t@,
    ensures r is Ok ==> decoded(geo(*image), mem(final(out).data_ptr), mem(image.data_ptr), has_dc) && frame(geo(*image), has_dc, mem(old(out).data_ptr), mem(final(out).data_ptr)),
{
    hide(block); hide(decoded); hide(frame); hide(chunk_ok);
    let ghost im = mem(image.data_ptr); let ghost cf = Cf { sch: scheme, q: q as int, chroma: is_chroma };
    encode(image, w, scheme, q, has_dc, is_chroma)?;
    let mut rd = vx_open(Ghost(w.bits() + tail));
    proof { assert(w.bits() =~= block(geo(*image), im, cf, has_dc)); assert(coded(geo(*image), mem(out.data_ptr), im, cf, has_dc, rd.rest(), tail)); }
    let d = decode(out, &mut rd, scheme, q, has_dc, is_chroma, Ghost(im), Ghost(tail));
    assert(d is Ok && rd.rest() == tail);
    d
}
"""
UNIT = Unit('codec', [
    ('struct', B.F, 'BitsIOWriter'), ('struct', B.F, 'BitsIOReader'),
] + B.TRAIT_ITEMS + [
    ('fn', G.F, x) for x in ()] + [
    ('enum', 'src/header/mod.rs', 'Encoder', 'eq'),
    ('struct', I, 'ImageChunkMut'),
    ('impl', I, 'ImageChunkMut', ['get_unchecked', 'get_unchecked_mut', 'is_writeable_zone', 'is_owned_zone']),
    ('fn', F, 'square'), ('fn', F, 'add_context'), ('fn', F, 'get_context'),
    ('fn', F, 'encode_s'), ('fn', F, 'get_s'), ('fn', F, 'get_run_coder_fast'), ('fn', F, 'get_run_coder'), ('fn', F, 'encode'), ('fn', F, 'decode'),
] + [('fn', F, n) for n in G.SPECS], B.traits() + stubs(G.contracts(), 'golomb') + ACCESS + CTXF + CODEC,
  prelude=proved(B.THEORY, 'bits') + B.TRAITS_IO + proved(G.THEORY, 'golomb') + BASE + TOUCHED + ''.join(lemma(n) for n in ('lemma_mult_half', 'lemma_sel_mult', 'lemma_and')) + CHUNK + CTX + CODE + EXTRA, post=POST, opt=dict(gets=False))
