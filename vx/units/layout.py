"""C11: interleaved and planar layouts."""
from extract import Unit, Fn
from units.color_common import *
TH = r'''
pub open spec fn inskip(skip: Seq<usize>, c: int) -> bool { exists|i: int| 0 <= i < skip.len() && #[trigger] skip[i] == c }
/// how many of the channels below c are skipped
pub open spec fn nskip(skip: Seq<usize>, c: int) -> int decreases c { if c <= 0 { 0 } else { nskip(skip, c - 1) + (if inskip(skip, c - 1) { 1int } else { 0 }) } }
pub open spec fn plane(skip: Seq<usize>, c: int) -> int { c - nskip(skip, c) }
pub proof fn lemma_plane(skip: Seq<usize>, c: int, d: int)
    requires 0 <= c <= d,
    ensures 0 <= plane(skip, c) <= plane(skip, d) <= d, c < d && !inskip(skip, c) ==> plane(skip, c) < plane(skip, d), plane(skip, d) - plane(skip, c) <= d - c,
    decreases d,
{
    if c < d { lemma_plane(skip, c, d - 1); } else if c > 0 { lemma_plane(skip, c - 1, c - 1); }
}
pub open spec fn conv_ch<T>(f: spec_fn(Seq<T>, int, int, int) -> Seq<T>, o: Seq<T>, layer: int, base: int, n: int) -> Seq<T> decreases n {
    if n <= 0 { o } else { f(conv_ch(f, o, layer, base, n - 1), layer, base, n - 1) }
}
pub open spec fn conv_all<T>(f: spec_fn(Seq<T>, int, int, int) -> Seq<T>, o: Seq<T>, skip: Seq<usize>, cs: int, c: int) -> Seq<T> decreases c {
    if c <= 0 { o } else {
        let p = conv_all(f, o, skip, cs, c - 1);
        if inskip(skip, c - 1) { p } else { conv_ch(f, p, c - 1, plane(skip, c - 1) * cs, cs) }
    }
}
pub open spec fn step_ok(a: int, b: int, i: int, channels: int, planes: int, cs: int) -> bool {
    0 <= a < channels && 0 <= i < cs && 0 <= b && b + cs <= planes * cs
}
// ---------------------------------------------------------------- interleaved -> planar
pub open spec fn f_planar<T: Into<i16>>(inp: Seq<T>, channels: int, boost: i16) -> spec_fn(Seq<i16>, int, int, int) -> Seq<i16> {
    |o: Seq<i16>, a: int, b: int, i: int| o.update(b + i, (val(inp[a + i * channels]) * boost) as i16)
}
pub open spec fn boosted<T: Into<i16>>(x: T, boost: i16) -> i16 { (val(x) * boost) as i16 }
pub proof fn lemma_planar_ch<T: Into<i16>>(inp: Seq<T>, channels: int, boost: i16, o: Seq<i16>, a: int, b: int, n: int)
    requires 0 <= n, 0 <= b, b + n <= o.len(),
    ensures ({ let r = conv_ch(f_planar(inp, channels, boost), o, a, b, n);
        r.len() == o.len() && (forall|i: int| 0 <= i < n ==> #[trigger] r[b + i] == boosted(inp[a + i * channels], boost))
        && (forall|j: int| 0 <= j < o.len() && !(b <= j < b + n) ==> #[trigger] r[j] == o[j]) }),
    decreases n,
{
    if n > 0 {
        lemma_planar_ch(inp, channels, boost, o, a, b, n - 1);
        let p = conv_ch(f_planar(inp, channels, boost), o, a, b, n - 1);
        let r = conv_ch(f_planar(inp, channels, boost), o, a, b, n);
        assert(r == p.update(b + n - 1, (val(inp[a + (n - 1) * channels]) * boost) as i16));
        assert forall|i: int| 0 <= i < n implies #[trigger] r[b + i] == boosted(inp[a + i * channels], boost) by { if i < n - 1 { assert(r[b + i] == p[b + i]); } }
    }
}
pub open spec fn is_planar<T: Into<i16>>(r: Seq<i16>, o: Seq<i16>, inp: Seq<T>, channels: int, boost: i16, skip: Seq<usize>, cs: int, c: int) -> bool {
    r.len() == o.len()
    && (forall|d: int, i: int| 0 <= d < c && !inskip(skip, d) && 0 <= i < cs ==> #[trigger] r[plane(skip, d) * cs + i] == boosted(inp[d + i * channels], boost))
    && (forall|j: int| plane(skip, c) * cs <= j < o.len() ==> #[trigger] r[j] == o[j])
}
pub proof fn lemma_mul_le(a: int, b: int, s: int)
    requires a <= b, s >= 0,
    ensures a * s <= b * s, b > a ==> a * s + s <= b * s,
{
    assert(a * s <= b * s) by (nonlinear_arith) requires a <= b, s >= 0;
    if b > a { assert((a + 1) * s <= b * s) by (nonlinear_arith) requires a + 1 <= b, s >= 0; assert((a + 1) * s == a * s + s) by (nonlinear_arith); }
}
pub proof fn lemma_planar_all<T: Into<i16>>(inp: Seq<T>, channels: int, boost: i16, o: Seq<i16>, skip: Seq<usize>, cs: int, c: int)
    requires 0 <= c, cs >= 0, plane(skip, c) * cs <= o.len(),
    ensures is_planar(conv_all(f_planar(inp, channels, boost), o, skip, cs, c), o, inp, channels, boost, skip, cs, c),
    decreases c,
{
    if c > 0 {
        let f = f_planar(inp, channels, boost);
        lemma_plane(skip, c - 1, c);
        lemma_mul_le(plane(skip, c - 1), plane(skip, c), cs);
        lemma_planar_all(inp, channels, boost, o, skip, cs, c - 1);
        let p = conv_all(f, o, skip, cs, c - 1);
        let r = conv_all(f, o, skip, cs, c);
        let b = plane(skip, c - 1) * cs;
        if !inskip(skip, c - 1) {
            lemma_planar_ch(inp, channels, boost, p, c - 1, b, cs);
            assert(b >= 0) by (nonlinear_arith) requires b == plane(skip, c - 1) * cs, plane(skip, c - 1) >= 0, cs >= 0;
            assert forall|d: int, i: int| 0 <= d < c && !inskip(skip, d) && 0 <= i < cs implies #[trigger] r[plane(skip, d) * cs + i] == boosted(inp[d + i * channels], boost) by {
                if d < c - 1 {
                    lemma_plane(skip, d, c - 1);
                    lemma_mul_le(plane(skip, d), plane(skip, c - 1), cs);
                    assert(0 <= plane(skip, d) * cs) by (nonlinear_arith) requires plane(skip, d) >= 0, cs >= 0;
                    assert(r[plane(skip, d) * cs + i] == p[plane(skip, d) * cs + i]);
                } else { assert(r[b + i] == boosted(inp[c - 1 + i * channels], boost)); }
            }
            assert forall|j: int| plane(skip, c) * cs <= j < o.len() implies #[trigger] r[j] == o[j] by { assert(r[j] == p[j]); }
        } else {
            assert(r == p);
        }
    } else { assert(plane(skip, 0) == 0); assert(plane(skip, 0) * cs == 0) by (nonlinear_arith) requires plane(skip, 0) == 0; }
}
// ---------------------------------------------------------------- planar -> interleaved
pub open spec fn f_inter<T: NumCast>(inp: Seq<i16>, channels: int, boost: i16) -> spec_fn(Seq<T>, int, int, int) -> Seq<T> {
    |o: Seq<T>, a: int, b: int, i: int| o.update(a + i * channels, unboost::<T>(inp[b + i], boost))
}
pub proof fn lemma_pos(a: int, i: int, d: int, k: int, channels: int, cs: int)
    requires 0 <= a < channels, 0 <= d < channels, 0 <= i, 0 <= k,
    ensures a + i * channels == d + k * channels ==> a == d && i == k, 0 <= a + i * channels, i < cs ==> a + i * channels < cs * channels,
{
    if i < k { assert(k * channels >= i * channels + channels) by (nonlinear_arith) requires k >= i + 1, channels > 0; }
    if k < i { assert(i * channels >= k * channels + channels) by (nonlinear_arith) requires i >= k + 1, channels > 0; }
    assert(0 <= i * channels) by (nonlinear_arith) requires i >= 0, channels > 0;
    if i < cs { assert(i * channels + channels <= cs * channels) by (nonlinear_arith) requires i + 1 <= cs, channels > 0; }
}
pub proof fn lemma_inter_ch<T: NumCast>(inp: Seq<i16>, channels: int, boost: i16, o: Seq<T>, a: int, b: int, n: int)
    requires 0 <= a < channels, 0 <= n, n * channels <= o.len(),
    ensures ({ let r = conv_ch(f_inter(inp, channels, boost), o, a, b, n);
        r.len() == o.len() && (forall|i: int| 0 <= i < n ==> #[trigger] r[a + i * channels] == unboost::<T>(inp[b + i], boost))
        && (forall|j: int| 0 <= j < o.len() && (forall|i: int| 0 <= i < n ==> j != #[trigger] (a + i * channels)) ==> #[trigger] r[j] == o[j]) }),
    decreases n,
{
    if n > 0 {
        lemma_mul_le(n - 1, n, channels);
        lemma_inter_ch(inp, channels, boost, o, a, b, n - 1);
        let p = conv_ch(f_inter(inp, channels, boost), o, a, b, n - 1);
        let r = conv_ch(f_inter(inp, channels, boost), o, a, b, n);
        assert(r == p.update(a + (n - 1) * channels, unboost::<T>(inp[b + n - 1], boost)));
        lemma_pos(a, n - 1, a, n - 1, channels, n);
        assert forall|i: int| 0 <= i < n implies #[trigger] r[a + i * channels] == unboost::<T>(inp[b + i], boost) by {
            lemma_pos(a, i, a, n - 1, channels, n);
            if i < n - 1 { assert(r[a + i * channels] == p[a + i * channels]); }
        }
        assert forall|j: int| 0 <= j < o.len() && (forall|i: int| 0 <= i < n ==> j != #[trigger] (a + i * channels)) implies #[trigger] r[j] == o[j] by {
            assert(j != a + (n - 1) * channels);
            assert(r[j] == p[j]);
        }
    }
}
pub open spec fn is_inter<T: NumCast>(r: Seq<T>, o: Seq<T>, inp: Seq<i16>, channels: int, boost: i16, skip: Seq<usize>, cs: int, c: int) -> bool {
    r.len() == o.len()
    && (forall|d: int, i: int| 0 <= d < c && !inskip(skip, d) && 0 <= i < cs ==> #[trigger] r[d + i * channels] == unboost::<T>(inp[plane(skip, d) * cs + i], boost))
    && (forall|d: int, i: int| 0 <= d < channels && (inskip(skip, d) || d >= c) && 0 <= i < cs ==> #[trigger] r[d + i * channels] == o[d + i * channels])
    && (forall|j: int| cs * channels <= j < o.len() ==> #[trigger] r[j] == o[j])
}
pub proof fn lemma_inter_all<T: NumCast>(inp: Seq<i16>, channels: int, boost: i16, o: Seq<T>, skip: Seq<usize>, cs: int, c: int)
    requires 0 <= c <= channels, cs >= 0, cs * channels <= o.len(),
    ensures is_inter(conv_all(f_inter(inp, channels, boost), o, skip, cs, c), o, inp, channels, boost, skip, cs, c),
    decreases c,
{
    if c > 0 {
        let f = f_inter::<T>(inp, channels, boost);
        lemma_inter_all(inp, channels, boost, o, skip, cs, c - 1);
        let p = conv_all(f, o, skip, cs, c - 1);
        let r = conv_all(f, o, skip, cs, c);
        let b = plane(skip, c - 1) * cs;
        if !inskip(skip, c - 1) {
            lemma_inter_ch(inp, channels, boost, p, c - 1, b, cs);
            assert forall|d: int, i: int| 0 <= d < channels && d != c - 1 && 0 <= i < cs implies #[trigger] r[d + i * channels] == p[d + i * channels] by {
                assert forall|k: int| 0 <= k < cs implies d + i * channels != #[trigger] (c - 1 + k * channels) by { lemma_pos(d, i, c - 1, k, channels, cs); }
                lemma_pos(d, i, d, i, channels, cs);
            }
            assert forall|j: int| cs * channels <= j < o.len() implies #[trigger] r[j] == o[j] by {
                assert forall|k: int| 0 <= k < cs implies j != #[trigger] (c - 1 + k * channels) by { lemma_pos(c - 1, k, c - 1, k, channels, cs); }
                assert(0 <= cs * channels) by (nonlinear_arith) requires cs >= 0, channels >= 0;
                assert(r[j] == p[j]);
            }
            assert forall|d: int, i: int| 0 <= d < c && !inskip(skip, d) && 0 <= i < cs implies #[trigger] r[d + i * channels] == unboost::<T>(inp[plane(skip, d) * cs + i], boost) by {
                if d < c - 1 { assert(r[d + i * channels] == p[d + i * channels]); } else { assert(r[c - 1 + i * channels] == unboost::<T>(inp[b + i], boost)); }
            }
            assert forall|d: int, i: int| 0 <= d < channels && (inskip(skip, d) || d >= c) && 0 <= i < cs implies #[trigger] r[d + i * channels] == o[d + i * channels] by {
                assert(r[d + i * channels] == p[d + i * channels]);
            }
        } else {
            assert(r == p);
        }
    }
}
pub open spec fn exact<T: Into<i16>>(x: T, boost: i16) -> bool { i16::MIN <= val(x) * boost <= i16::MAX }
'''
CONV_SPEC = '''    requires channels > 0, skip_channels.len() >= 0,
        plane(skip_channels@, channels as int) * (len / channels) <= usize::MAX, <usize as PartialEqSpec>::obeys_eq_spec(),
        len <= isize::MAX,
        forall|o: &mut [T], a: usize, b: usize, i: usize| o.len() == old(output).len() && step_ok(a as int, b as int, i as int, channels as int, plane(skip_channels@, channels as int), len as int / channels as int)
            ==> #[trigger] func.requires((o, a, b, i)),
        forall|o: &mut [T], a: usize, b: usize, i: usize| #[trigger] func.ensures((o, a, b, i), ()) && o.len() == old(output).len() && step_ok(a as int, b as int, i as int, channels as int, plane(skip_channels@, channels as int), len as int / channels as int)
            ==> final(o)@ == f(o@, a as int, b as int, i as int) && final(o)@.len() == o@.len(),
    ensures final(output)@ == conv_all(f, old(output)@, skip_channels@, len as int / channels as int, channels as int)'''
CONV_KEEP = '''        invariant channels > 0, channel_size == len as int / channels as int, <usize as PartialEqSpec>::obeys_eq_spec(), len <= isize::MAX,
            plane(skip_channels@, channels as int) * channel_size <= usize::MAX, output.len() == olen,
            forall|o: &mut [T], a: usize, b: usize, i: usize| o.len() == olen && step_ok(a as int, b as int, i as int, channels as int, plane(skip_channels@, channels as int), channel_size as int)
                ==> #[trigger] func.requires((o, a, b, i)),
            forall|o: &mut [T], a: usize, b: usize, i: usize| #[trigger] func.ensures((o, a, b, i), ()) && o.len() == olen && step_ok(a as int, b as int, i as int, channels as int, plane(skip_channels@, channels as int), channel_size as int)
                ==> final(o)@ == f(o@, a as int, b as int, i as int) && final(o)@.len() == o@.len(),
'''
C = [CUT, LAYER,
    Fn('convert_between_interleaved_and_planar', None, CONV_SPEC, params=', Ghost(f): Ghost<spec_fn(Seq<T>, int, int, int) -> Seq<T>>', entry='''
    let ghost o0 = output@; let ghost olen = output.len();
    proof { assert(len as int / channels as int <= len) by (nonlinear_arith) requires channels > 0, len >= 0; assert(len as int / channels as int >= 0) by (nonlinear_arith) requires channels > 0, len >= 0; }''', loops=[
        dict(inv=CONV_KEEP + '''            vx_n0 <= channels, vx_e0 == channels, skipped == nskip(skip_channels@, vx_n0 as int), skipped <= vx_n0,
            output@ == conv_all(f, o0, skip_channels@, channel_size as int, vx_n0 as int),
        decreases channels - vx_n0''', begin='''
            proof {
                assert(inskip(skip_channels@, c as int) <==> exists|i: int| 0 <= i < skip_channels@.len() && (#[trigger] skip_channels@[i]).eq_spec(&c));
                lemma_plane(skip_channels@, c as int, c as int); lemma_plane(skip_channels@, c + 1, channels as int); lemma_plane(skip_channels@, c as int, c + 1);
                lemma_mul_le(plane(skip_channels@, c as int), plane(skip_channels@, channels as int), channel_size as int);
                assert(plane(skip_channels@, c as int) * channel_size >= 0) by (nonlinear_arith) requires plane(skip_channels@, c as int) >= 0, channel_size >= 0;
                assert(c as int / channels as int == 0 && c as int % channels as int == c) by { vstd::arithmetic::div_mod::lemma_small_mod(c as nat, channels as nat); vstd::arithmetic::div_mod::lemma_basic_div(c as int, channels as int); }
                assert(0 * (channel_size as int) * channels == 0) by (nonlinear_arith);
            }
            let ghost oc = output@;'''),
        dict(inv=CONV_KEEP + '''            c < channels, layer == c, dest_base == plane(skip_channels@, c as int) * channel_size, dest_base + channel_size <= plane(skip_channels@, channels as int) * channel_size,
            output@ == conv_ch(f, oc, layer as int, dest_base as int, i as int), '''),
    ]),
    Fn('interleaved_to_planar', None, '''    requires channels > 0, vals_ok::<T>(), input.len() <= isize::MAX, <usize as PartialEqSpec>::obeys_eq_spec(),
        plane(skip_channels@, channels as int) * (input.len() as int / channels as int) <= old(output).len(),
        forall|i: int| 0 <= i < input.len() ==> exact(#[trigger] input@[i], boost),
    ensures is_planar(final(output)@, old(output)@, input@, channels as int, boost, skip_channels@, input.len() as int / channels as int, channels as int)''',
    entry='    let ghost cs = input.len() as int / channels as int; let ghost olen = output.len(); proof { lemma_planar_all(input@, channels as int, boost, output@, skip_channels@, cs, channels as int);\n'
          '        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(input.len() as int, channels as int); assert(cs * channels <= input.len()) by (nonlinear_arith) requires input.len() == channels * cs + input.len() as int % channels as int, input.len() as int % channels as int >= 0; }',
    subst=[(r'\},\s*\);', '}, Ghost(f_planar(input@, channels as int, boost)));')],
    closures=[('''requires old(output).len() == olen, step_ok(layer as int, dest_base as int, i as int, channels as int, plane(skip_channels@, channels as int), cs)
            ensures final(output)@ == f_planar(input@, channels as int, boost)(old(output)@, layer as int, dest_base as int, i as int)''', 'proof { lemma_pos(layer as int, i as int, layer as int, i as int, channels as int, cs); assert(i * channels >= 0) by (nonlinear_arith); }')]),
    Fn('planar_to_interleaved', None, '''    requires channels > 0, num_ok::<T>(), boost > 0, old(output).len() <= isize::MAX, <usize as PartialEqSpec>::obeys_eq_spec(),
        plane(skip_channels@, channels as int) * (old(output).len() as int / channels as int) <= input.len(),
    ensures is_inter(final(output)@, old(output)@, input@, channels as int, boost, skip_channels@, old(output).len() as int / channels as int, channels as int)''',
    entry='    let ghost cs = output.len() as int / channels as int; let ghost olen = output.len();\n'
          '    proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(output.len() as int, channels as int); assert(cs * channels <= output.len()) by (nonlinear_arith) requires output.len() == channels * cs + output.len() as int % channels as int, output.len() as int % channels as int >= 0;\n'
          '        lemma_inter_all(input@, channels as int, boost, output@, skip_channels@, cs, channels as int); }',
    subst=[(r'\},\s*\);', '}, Ghost(f_inter(input@, channels as int, boost)));')],
    closures=[('''requires old(output).len() == olen, step_ok(layer as int, dest_base as int, i as int, channels as int, plane(skip_channels@, channels as int), cs)
            ensures final(output)@ == f_inter::<T>(input@, channels as int, boost)(old(output)@, layer as int, dest_base as int, i as int)''', 'proof { lemma_pos(layer as int, i as int, layer as int, i as int, channels as int, cs); assert(i * channels >= 0) by (nonlinear_arith); reveal(tdiv); let v = input@[dest_base + i]; if v >= 0 {} else {} }')]),
]
POST = r'''
/// C11 as a client of the contracts: there and back
pub fn layout_roundtrip<T: Into<i16> + Copy + NumCast>(x: &[T], channels: usize, boost: i16, planar: &mut [i16], back: &mut [T], skip: &[usize])
    requires channels > 0, vals_ok::<T>(), num_ok::<T>(), 1 <= boost <= 128, x.len() <= isize::MAX, old(back).len() == x.len(), <usize as PartialEqSpec>::obeys_eq_spec(),
        plane(skip@, channels as int) * (x.len() as int / channels as int) <= old(planar).len(),
        forall|i: int| 0 <= i < x.len() ==> 0 <= val(#[trigger] x@[i]) <= 255 && T::num(val(x@[i])) == Some(x@[i]),
    ensures final(back).len() == x.len(),
        forall|c: int, i: int| 0 <= c < channels && 0 <= i < x.len() as int / channels as int ==> #[trigger] final(back)@[c + i * channels] == (if inskip(skip@, c) { old(back)@[c + i * channels] } else { x@[c + i * channels] }),
        forall|j: int| (x.len() as int / channels as int) * channels <= j < x.len() ==> #[trigger] final(back)@[j] == old(back)@[j],
{
    let ghost cs = x.len() as int / channels as int;
    proof { assert forall|i: int| 0 <= i < x.len() implies exact(#[trigger] x@[i], boost) by { let v = val(x@[i]); assert(0 <= v * boost <= 255 * 128) by (nonlinear_arith) requires 0 <= v <= 255, 1 <= boost <= 128; } }
    interleaved_to_planar(x, channels, boost, planar, skip);
    planar_to_interleaved(planar, channels, boost, back, skip);
    proof {
        assert forall|c: int, i: int| 0 <= c < channels && 0 <= i < cs && !inskip(skip@, c) implies #[trigger] back@[c + i * channels] == x@[c + i * channels] by {
            lemma_pos(c, i, c, i, channels as int, cs);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x.len() as int, channels as int);
            assert(cs * channels <= x.len()) by (nonlinear_arith) requires x.len() == channels * cs + x.len() as int % channels as int, x.len() as int % channels as int >= 0;
            let e = x@[c + i * channels]; let v = val(e);
            assert(planar@[plane(skip@, c) * cs + i] == boosted(e, boost));
            assert(0 <= v * boost <= 255 * 128) by (nonlinear_arith) requires 0 <= v <= 255, 1 <= boost <= 128;
            reveal(tdiv);
            assert((v * boost) / (boost as int) == v) by (nonlinear_arith) requires boost > 0;
            assert(unboost::<T>(boosted(e, boost), boost) == e);
        }
    }
}
'''
UNIT = Unit('layout', [('fn', F, 'get_layer'), ('fn', F, 'cut_with_u8'), ('fn', F, 'convert_between_interleaved_and_planar'), ('fn', F, 'interleaved_to_planar'), ('fn', F, 'planar_to_interleaved')],
    C, prelude=PRE + TH, post=POST)
