"""src/quant/mod.rs (C08)."""
from extract import Unit, Fn
from units.lifting_theory import BASE
F = 'src/quant/mod.rs'

P = r'''
/// contents of the rows
pub open spec fn vw(img: Seq<&mut [i16]>) -> Seq<Seq<i16>> { Seq::new(img.len(), |y: int| img[y]@) }
pub open spec fn rect(img: Seq<Seq<i16>>, w: int) -> bool { forall|y: int| 0 <= y < img.len() ==> (#[trigger] img[y]).len() == w }
pub open spec fn img_ok(img: Seq<&mut [i16]>, w: int) -> bool { 0 < img.len() <= 0x4000_0000 && 0 <= w <= 0x4000_0000 && rect(vw(img), w) }
/// the detail samples of the level with distance s between samples: one coordinate is an odd multiple of s
pub open spec fn touched(y: int, x: int, s: int) -> bool { mult(y, s) && (if sel(y, s) { mult(x, s) } else { sel(x, s) }) }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
/// the quality step with which sample (y, x) is scaled, from the level s on; 0: never
pub open spec fn qstep(h: int, w: int, y: int, x: int, s: int, quality: int, minq: int, m: int) -> int
    decreases (if s < h { h - s } else { 0 }),
{
    if s <= 0 || s >= h || s >= w { 0 } else {
        let q = imax(imax(minq, 1), quality);
        if q >= m { 0 } else if touched(y, x, s) { q } else { qstep(h, w, y, x, 2 * s, imin(m, 2 * quality), minq, m) }
    }
}
pub open spec fn qv(v: int, q: int, m: int) -> int { tdiv(v * q, m) }
pub open spec fn dv(v: int, q: int, m: int) -> int { tdiv(if v < 0 { v * m - m / 2 } else if v > 0 { v * m + m / 2 } else { 0 }, q) }
pub open spec fn qsample(v: i16, q: int, m: int) -> i16 { if q == 0 { v } else { qv(v as int, q, m) as i16 } }
pub open spec fn dsample(v: i16, q: int, m: int) -> i16 { if q == 0 { v } else { (dv(v as int, q, m) as i32) as i16 } }
pub open spec fn params_ok(quality: int, minq: int, m: int) -> bool { 1 <= quality <= 0x100_0000 && 0 <= minq <= 0x4000 && 1 <= m <= 0x4000 }

/// a coarser level consists of multiples of the finer distances
pub proof fn lemma_mult_half(x: int, s: int)
    requires s > 0, x >= 0, mult(x, 2 * s),
    ensures mult(x, s), !sel(x, s),
{
    reveal(mult); reveal(sel);
    let q = x / (2 * s);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, 2 * s);
    assert(x == (2 * q) * s + 0) by (nonlinear_arith) requires x == (2 * s) * q + 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, s, 2 * q, 0);
}
pub proof fn lemma_sel_mult(x: int, s: int)
    requires s > 0, x >= 0, sel(x, s),
    ensures mult(x, s),
{
    reveal(mult); reveal(sel);
    let q = x / (2 * s);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, 2 * s);
    assert(x == (2 * q + 1) * s + 0) by (nonlinear_arith) requires x == (2 * s) * q + s;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, s, 2 * q + 1, 0);
}
/// a sample off the grid of a level is not touched from there on
pub proof fn lemma_off_grid(h: int, w: int, y: int, x: int, s: int, quality: int, minq: int, m: int)
    requires s > 0, x >= 0, y >= 0, !(mult(y, s) && mult(x, s)),
    ensures qstep(h, w, y, x, s, quality, minq, m) == 0,
    decreases (if s < h { h - s } else { 0 }),
{
    if sel(x, s) { lemma_sel_mult(x, s); }
    if !(s >= h || s >= w) && imax(imax(minq, 1), quality) < m {
        if mult(y, 2 * s) { lemma_mult_half(y, s); }
        if mult(x, 2 * s) { lemma_mult_half(x, s); }
        lemma_off_grid(h, w, y, x, 2 * s, imin(m, 2 * quality), minq, m);
    }
}
/// levels are disjoint
pub proof fn lemma_once(h: int, w: int, y: int, x: int, s: int, quality: int, minq: int, m: int)
    requires s > 0, x >= 0, y >= 0, touched(y, x, s),
    ensures qstep(h, w, y, x, 2 * s, quality, minq, m) == 0,
{
    if mult(y, 2 * s) { lemma_mult_half(y, s); }
    if mult(x, 2 * s) { lemma_mult_half(x, s); }
    lemma_off_grid(h, w, y, x, 2 * s, quality, minq, m);
}
pub proof fn lemma_qstep_range(h: int, w: int, y: int, x: int, s: int, quality: int, minq: int, m: int)
    ensures 0 <= qstep(h, w, y, x, s, quality, minq, m), qstep(h, w, y, x, s, quality, minq, m) == 0 || qstep(h, w, y, x, s, quality, minq, m) < m,
    decreases (if s < h { h - s } else { 0 }),
{
    if s > 0 && s < h && s < w && imax(imax(minq, 1), quality) < m && !touched(y, x, s) { lemma_qstep_range(h, w, y, x, 2 * s, imin(m, 2 * quality), minq, m); }
}
pub proof fn lemma_and(y: usize, s: usize, k: usize)
    requires k < 40, s == (1usize << k), mult(y as int, s as int),
    ensures ((y & s) != 0) == sel(y as int, s as int), s > 0,
{
    reveal(mult); reveal(sel);
    assert(s > 0) by (bit_vector) requires k < 40, s == (1usize << k);
    assert(((y & s) != 0) == ((y >> k) & 1 == 1)) by (bit_vector) requires k < 40, s == (1usize << k);
    let j = y >> k;
    assert((j & 1 == 1) == (j % 2 == 1)) by (bit_vector);
    vstd::bits::lemma_usize_shr_is_div(y, k);
    vstd::bits::lemma_usize_pow2_no_overflow(k as nat);
    vstd::bits::lemma_usize_shl_is_mul(1, k);
    assert(s as int == vstd::arithmetic::power2::pow2(k as nat) as int);
    let sj = s as int;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y as int, sj);
    let i = (j / 2) as int; let r = (j % 2) as int;
    assert(y == (2 * sj) * i + sj * r) by (nonlinear_arith) requires y == sj * j + 0, j == 2 * i + r;
    if r == 1 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y as int, 2 * sj, i, sj); }
    else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y as int, 2 * sj, i, 0); }
}
pub proof fn lemma_shl1(k: usize, s: usize)
    requires k < 32, s == (1usize << k), s < 0x4000_0000,
    ensures 2 * s == (1usize << (k + 1) as usize), s > 0, k < 31,
{
    assert((1usize << (k + 1) as usize) == 2 * (1usize << k)) by (bit_vector) requires k < 32;
    assert(s > 0) by (bit_vector) requires k < 32, s == (1usize << k);
    assert(k == 31 ==> (1usize << k) == 0x8000_0000) by (bit_vector);
}
pub proof fn lemma_tdiv_mag(a: int, d: int)
    requires d > 0,
    ensures a >= 0 ==> 0 <= tdiv(a, d) && tdiv(a, d) * d <= a < tdiv(a, d) * d + d, a <= 0 ==> tdiv(a, d) <= 0 && tdiv(a, d) * d >= a > tdiv(a, d) * d - d,
{
    reveal(tdiv);
    let p = if a >= 0 { a } else { -a };
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, d);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(p, d);
    let r = p / d;
    assert(d * r == r * d) by (nonlinear_arith);
    assert((-r) * d == -(r * d)) by (nonlinear_arith);
}
pub proof fn lemma_qv(v: int, q: int, m: int)
    requires 0 < q < m, -32768 <= v <= 32767,
    ensures v >= 0 ==> 0 <= qv(v, q, m) <= v, v <= 0 ==> v <= qv(v, q, m) <= 0,
{
    let t = qv(v, q, m);
    assert(v >= 0 ==> v * q >= 0) by (nonlinear_arith) requires q > 0;
    assert(v <= 0 ==> v * q <= 0) by (nonlinear_arith) requires q > 0;
    lemma_tdiv_mag(v * q, m);
    if v >= 0 { assert(t <= v) by (nonlinear_arith) requires t * m <= v * q, 0 < q < m, v >= 0; }
    else { assert(t >= v) by (nonlinear_arith) requires t * m >= v * q, 0 < q < m, v <= 0; }
}
/// C08: what quantizing and dequantizing do to one sample
pub proof fn theorem_sample(v: i16, q: int, m: int)
    requires 0 <= q, q < m || q == 0, 1 <= m <= 0x4000, -0x4000 <= v <= 0x4000,
    ensures ({ let t = qsample(v, q, m); let r = dsample(t, q, m);
        &&& (v >= 0 ==> 0 <= t <= v) && (v <= 0 ==> v <= t <= 0)
        &&& (q == 0 ==> t == v && r == v)
        &&& (q > 0 ==> t == tdiv(v * q, m))
        &&& (t > 0 ==> r > 0) && (t < 0 ==> r < 0) && (t == 0 ==> r == 0)
        &&& (q > 0 ==> -(m / q + 1) <= r - v <= m / q + 1) }),
{
    if q > 0 {
        lemma_qv(v as int, q, m);
        let t = qv(v as int, q, m);
        let c = if v >= 0 { v as int } else { -v };
        let a = if t >= 0 { t } else { -t };
        assert(v * q >= 0 <==> v >= 0) by (nonlinear_arith) requires q > 0;
        lemma_tdiv_mag(v * q, m);
        assert((-v) * q == -(v * q) && (-t) * m == -(t * m)) by (nonlinear_arith);
        assert(a * m <= c * q && c * q < a * m + m);
        // r: magnitude
        let e = a * m + m / 2;
        let b = e / q;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(e, q);
        assert(b * q <= e < b * q + q) by (nonlinear_arith) requires e == q * b + e % q, 0 <= e % q < q;
        let mq = m / q;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, q);
        assert(m < mq * q + q) by (nonlinear_arith) requires m == q * mq + m % q, m % q < q;
        assert(b - c <= mq + 1) by (nonlinear_arith) requires b * q <= e, e == a * m + m / 2, a * m <= c * q, m < mq * q + q, q > 0, m >= 1;
        assert(c - b <= mq + 1) by (nonlinear_arith) requires e < b * q + q, e == a * m + m / 2, c * q < a * m + m, m < mq * q + q, q > 0, m >= 1;
        assert(b >= 0) by (nonlinear_arith) requires e < b * q + q, e >= 0, q > 0;
        assert(mq <= 0x4000) by (nonlinear_arith) requires m == q * mq + m % q, m % q >= 0, q >= 1, m <= 0x4000, mq >= 0;
        assert(a * m >= m || a == 0) by (nonlinear_arith) requires a >= 0, m >= 1;
        if a > 0 { assert(b >= 1) by (nonlinear_arith) requires e < b * q + q, e == a * m + m / 2, a * m >= m, m > q, m >= 1, q > 0; }
        assert(b <= 0x7fff) by (nonlinear_arith) requires b * q <= e, e == a * m + m / 2, a * m <= c * q, c <= 0x4000, q >= 1, m <= 0x4000, 2 * (m / 2) <= m;
        if t > 0 { assert(dv(t, q, m) == b) by { reveal(tdiv); } }
        else if t < 0 { assert(t * m - m / 2 == -e); assert(dv(t, q, m) == -b) by { reveal(tdiv); lemma_tdiv_mag(-e, q); } }
        else { assert(dv(t, q, m) == 0) by { reveal(tdiv); vstd::arithmetic::div_mod::lemma_div_of0(q); } lemma_zero(c, q, m, mq); }
    }
}
pub proof fn lemma_zero(c: int, q: int, m: int, mq: int)
    requires c * q < m, m < mq * q + q, q > 0,
    ensures c <= mq + 1,
{ assert(c <= mq) by (nonlinear_arith) requires c * q < mq * q + q, q > 0; }
/// C08
pub proof fn theorem_quantization(h: int, w: int, quality: int, minq: int, m: int, y: int, x: int, v: i16)
    requires params_ok(quality, minq, m), -0x4000 <= v <= 0x4000,
    ensures ({ let q = qstep(h, w, y, x, 1, quality, minq, m); let t = qsample(v, q, m); let r = dsample(t, q, m);
        &&& (v >= 0 ==> 0 <= t <= v) && (v <= 0 ==> v <= t <= 0)
        &&& (q == 0 ==> t == v && r == v) && (q > 0 ==> t == tdiv(v * q, m))
        &&& (t > 0 ==> r > 0) && (t < 0 ==> r < 0) && (t == 0 ==> r == 0)
        &&& (q > 0 ==> -(m / q + 1) <= r - v <= m / q + 1) }),
{
    lemma_qstep_range(h, w, y, x, 1, quality, minq, m);
    theorem_sample(v, qstep(h, w, y, x, 1, quality, minq, m), m);
}
/// state between levels
pub open spec fn mid(c: i16, o: i16, q0: int, q1: int, m: int, quant: bool) -> bool {
    c == o && q0 == q1 || q0 > 0 && q1 == 0 && c == (if quant { qsample(o, q0, m) } else { dsample(o, q0, m) })
}
pub open spec fn lv(c: i16, on: bool, q: int, m: int, quant: bool) -> i16 { if !on { c } else if quant { qsample(c, q, m) } else { dsample(c, q, m) } }
pub proof fn lemma_level(h: int, w: int, y: int, x: int, s: int, ql: int, quality: int, minq: int, m: int, c: i16, o: i16, quant: bool)
    requires 0 < s < h, s < w, x >= 0, y >= 0, imax(imax(minq, 1), ql) < m,
        mid(c, o, qstep(h, w, y, x, 1, quality, minq, m), qstep(h, w, y, x, s, ql, minq, m), m, quant),
    ensures mid(lv(c, touched(y, x, s), imax(imax(minq, 1), ql), m, quant), o, qstep(h, w, y, x, 1, quality, minq, m), qstep(h, w, y, x, 2 * s, imin(m, 2 * ql), minq, m), m, quant),
{
    if touched(y, x, s) { lemma_once(h, w, y, x, s, imin(m, 2 * ql), minq, m); }
    else if qstep(h, w, y, x, s, ql, minq, m) == 0 { }
}
'''
def contract(name, quant):
    f = 'qsample' if quant else 'dsample'
    b = 'true' if quant else 'false'
    MID = '(forall|y: int, x: int| 0 <= y < h && 0 <= x < w ==> mid(#[trigger] vw(image@)[y][x], g0[y][x], qstep(h, w, y, x, 1, ql0, minq, m), qstep(h, w, y, x, skip as int, quality as int, minq, m), m, %s))' % b
    return Fn(name, None, '''    requires params_ok(quality as int, min_quality as int, max_quality as int), exists|w: int| img_ok(old(image)@, w),
    ensures final(image)@.len() == old(image)@.len(), vf(final(image)@) == vf(old(image)@),
        forall|w: int| #[trigger] img_ok(old(image)@, w) ==> rect(vw(final(image)@), w) && forall|y: int, x: int| 0 <= y < old(image)@.len() && 0 <= x < w ==>
            #[trigger] vw(final(image)@)[y][x] == %s(vw(old(image)@)[y][x], qstep(old(image)@.len() as int, w, y, x, 1, quality as int, min_quality as int, max_quality as int), max_quality as int)''' % f,
    entry='''hide(qstep); hide(touched); hide(qv); hide(dv); hide(w16); let ghost w = choose|w: int| img_ok(image@, w); let ghost h = image@.len() as int; let ghost g0 = vw(image@); let ghost ql0 = quality as int; let ghost minq = min_quality as int; let ghost m = max_quality as int; let ghost mut k = 0usize;
    proof { assert(g0[0].len() == w); assert(image@.len() * image@[0]@.len() <= 0x4000_0000 * 0x4000_0000) by (nonlinear_arith) requires image@.len() <= 0x4000_0000, image@[0]@.len() <= 0x4000_0000; assert(1usize << 0usize == 1usize) by (bit_vector); lemma_qstep_end(h, w, minq, m); }''',
    loops=[dict(inv='''        invariant_except_break
            %s,
        invariant
            vf(image@) == vf(old(image)@), image@.len() == h, 0 < h <= 0x4000_0000, 0 <= w <= 0x4000_0000, rect(vw(image@), w), rect(g0, w), g0.len() == h, img_ok(old(image)@, w), g0 == vw(old(image)@), params_ok(ql0, minq, m), 1 <= quality <= 0x100_0000, minq == min_quality, m == max_quality,
            k < 32, skip == (1usize << k), 0 < skip <= 0x8000_0000, image@[0]@.len() == w,
            forall|y: int, x: int, s: int, ql: int| (s >= h || s >= w) ==> #[trigger] qstep(h, w, y, x, s, ql, minq, m) == 0,
        ensures forall|y: int, x: int| 0 <= y < h && 0 <= x < w ==> #[trigger] vw(image@)[y][x] == %s(g0[y][x], qstep(h, w, y, x, 1, ql0, minq, m), m),
        decreases (if skip < h { h - skip } else { 0 })''' % (MID, f),
        begin='''let ghost s = skip as int; let ghost ql = quality as int; let ghost b0 = vw(image@); proof { assert(b0[0].len() == w); lemma_shl1(k, skip); lemma_qstep_stop(h, w, s, ql, minq, m); assert(vw(image@) == b0); }''',
        end='''proof {
            assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w implies mid(#[trigger] vw(image@)[y][x], g0[y][x], qstep(h, w, y, x, 1, ql0, minq, m), qstep(h, w, y, x, skip as int, quality as int, minq, m), m, %s) by {
                let _ = b0[y][x];
                lemma_level(h, w, y, x, s, ql, ql0, minq, m, b0[y][x], g0[y][x], %s);
            }
            k = (k + 1) as usize; assert(vw(image@)[0].len() == w);
        }''' % (b, b),
        post=''),
    dict(setup='proof { lemma_mult0(s); }', inv='''            invariant
                vf(image@) == vf(old(image)@), vx_s1 == skip, s == skip, 0 < s, s < h, s < w, image@.len() == h, 0 < h <= 0x4000_0000, w <= 0x4000_0000, b0.len() == h, rect(b0, w), rect(vw(image@), w), k < 32, skip == (1usize << k), q == imax(imax(minq, 1), ql), 0 < q < m, m <= 0x4000, m == max_quality,
                vx_n1 <= h, vx_n1 == h || mult(vx_n1 as int, s),
                forall|y: int, x: int| 0 <= y < h && 0 <= x < w ==> #[trigger] vw(image@)[y][x] == lv(b0[y][x], y < vx_n1 && touched(y, x, s), q as int, m, %s),
            decreases h - vx_n1''' % b,
        begin='''let ghost y0 = vx_i1 as int; proof { lemma_mult(y0, s); lemma_and(vx_i1, skip, k); assert(vw(image@)[y0].len() == w); } let ghost bi = image@;''',
        end='''proof {
                assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w implies #[trigger] vw(image@)[y][x] == lv(b0[y][x], y < vx_n1 && touched(y, x, s), q as int, m, %s) by {
                    let _ = vw(bi)[y][x];
                    if y == y0 { assert(bi[y]@[x] == b0[y][x]); lemma_touched(y0, x, s); } else { assert(image@[y] == bi[y]); if y0 < y < vx_n1 { lemma_not_mult(y, x, s); } }
                }
                assert forall|y: int| 0 <= y < h implies (#[trigger] vw(image@)[y]).len() == w by { assert(vw(bi)[y].len() == w); if y != y0 { assert(image@[y] == bi[y]); } }
                lemma_vf(bi, image@, y0);
            }''' % b,
        post='proof { }'),
    dict(setup='let ghost c0 = column@; let ghost xs = x_step as int; proof { assert(c0.len() == w); lemma_sel_start(s); lemma_mult0(s); }', inv='''                invariant
                    vx_s2 == xs, s > 0, xs == s || xs == 2 * s, column@.len() == c0.len(), c0.len() <= 0x4000_0000, 0 < q < m, m <= 0x4000, m == max_quality,
                    vx_n2 < column@.len() ==> (if xs == s { mult(vx_n2 as int, s) } else { sel(vx_n2 as int, s) }),
                    forall|x: int| 0 <= x < c0.len() ==> #[trigger] column@[x] == lv(c0[x], x < vx_n2 && (if xs == s { mult(x, s) } else { sel(x, s) }), q as int, m, %s),
                decreases c0.len() - vx_n2''' % b,
        begin='''let ghost x0 = vx_i2 as int; let ghost ci = column@; let ghost v = c0[x0] as int;
                proof {
                    assert(ci[x0] == c0[x0]);
                    if xs == s { lemma_mult(x0, s); } else { lemma_sel(x0, s); }
                    lemma_products(v, q as int, m);
                }''',
        end='''proof {
                    assert(column@[x0] == %s(c0[x0], q as int, m)) by { reveal(qv); reveal(dv); reveal(w16); reveal(tdiv); }
                    assert forall|x: int| 0 <= x < c0.len() implies #[trigger] column@[x] == lv(c0[x], x < vx_n2 && (if xs == s { mult(x, s) } else { sel(x, s) }), q as int, m, %s) by { let _ = ci[x]; }
                }''' % (f, b)),
    ])
P += r'''
pub proof fn lemma_qstep_end(h: int, w: int, minq: int, m: int)
    ensures forall|y: int, x: int, s: int, ql: int| (s >= h || s >= w) ==> #[trigger] qstep(h, w, y, x, s, ql, minq, m) == 0,
{ }
pub proof fn lemma_qstep_stop(h: int, w: int, s: int, ql: int, minq: int, m: int)
    ensures forall|y: int, x: int| imax(imax(minq, 1), ql) >= m ==> #[trigger] qstep(h, w, y, x, s, ql, minq, m) == 0,
{ }
pub proof fn lemma_touched(y: int, x: int, s: int)
    requires mult(y, s),
    ensures touched(y, x, s) == (if sel(y, s) { mult(x, s) } else { sel(x, s) }),
{ }
pub proof fn lemma_not_mult(y: int, x: int, s: int)
    requires !mult(y, s),
    ensures !touched(y, x, s),
{ }
pub proof fn lemma_products(v: int, q: int, m: int)
    requires -32768 <= v <= 32767, 0 < q < m <= 0x4000,
    ensures -0x2000_0000 <= v * q <= 0x2000_0000, -0x2000_0000 <= v * m <= 0x2000_0000, -32768 <= qv(v, q, m) <= 32767, -0x2000_4000 <= dv(v, q, m) <= 0x2000_4000,
{
    assert(-0x2000_0000 <= v * q <= 0x2000_0000) by (nonlinear_arith) requires -32768 <= v <= 32767, 0 < q <= 0x4000;
    assert(-0x2000_0000 <= v * m <= 0x2000_0000) by (nonlinear_arith) requires -32768 <= v <= 32767, 0 < m <= 0x4000;
    lemma_qv(v, q, m);
    let e = if v < 0 { v * m - m / 2 } else if v > 0 { v * m + m / 2 } else { 0 };
    lemma_tdiv_mag(e, q);
    let t = tdiv(e, q);
    assert(e >= 0 ==> t <= e) by (nonlinear_arith) requires e >= 0 ==> t * q <= e && t >= 0, q >= 1;
    assert(e <= 0 ==> t >= e) by (nonlinear_arith) requires e <= 0 ==> t * q >= e && t <= 0, q >= 1;
}
'''
UNIT = Unit('quant', [('fn', F, 'quantize'), ('fn', F, 'dequantize')], [contract('quantize', True), contract('dequantize', False)], prelude=BASE + P)
