"""C09: color transforms forward and back."""
from extract import Unit, Fn
from units.color_common import *
H = 'src/header/mod.rs'
TH = r'''
// ---------------------------------------------------------------- arithmetic modulo 2^16
pub open spec fn w16(x: int) -> i16 { ((x + 32768) % 65536 - 32768) as i16 }
pub proof fn lemma_w16(x: int)
    ensures -32768 <= (x + 32768) % 65536 - 32768 <= 32767, exists|k: int| #[trigger] (k * 65536) + w16(x) == x, -32768 <= x <= 32767 ==> w16(x) == x,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x + 32768, 65536);
    assert(((x + 32768) / 65536) * 65536 + w16(x) == x);
}
pub proof fn lemma_w16_shift(x: int, k: int)
    ensures w16(k * 65536 + x) == w16(x),
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, x + 32768, 65536);
    assert(65536 * k + (x + 32768) == k * 65536 + x + 32768);
}
pub proof fn lemma_mulw(x: int, f: int)
    ensures w16(w16(x) * f) == w16(x * f),
{
    lemma_w16(x);
    let k = choose|k: int| #[trigger] (k * 65536) + w16(x) == x;
    assert(x * f == (k * f) * 65536 + w16(x) * f) by (nonlinear_arith) requires k * 65536 + w16(x) == x;
    lemma_w16_shift(w16(x) * f, k * f);
}
/// the boosted factor on the sample is the factor on the boosted sample
pub proof fn lemma_boosted(v: int, f: int, b: int)
    ensures w16(v * w16(f * b)) == w16(w16(v * b) * f),
{
    lemma_mulw(f * b, v); lemma_mulw(v * b, f);
    assert(w16(f * b) * v == v * w16(f * b)) by (nonlinear_arith);
    assert((f * b) * v == (v * b) * f) by (nonlinear_arith);
}
pub proof fn lemma_addsub(t: i16, c: i16)
    ensures w16(w16(t + c) - t) == c, w16(w16(c + t) - t) == c,
{
    lemma_w16(t + c); lemma_w16(c as int);
    let k = choose|k: int| #[trigger] (k * 65536) + w16(t + c) == t + c;
    lemma_w16_shift(c as int, -k);
    assert(w16(t + c) - t == -k * 65536 + c);
}
// ---------------------------------------------------------------- planes
pub open spec fn pl<T>(a: Seq<T>, cs: int, c: int, i: int) -> T { a[c * cs + i] }
pub proof fn lemma_in(cs: int, nch: int, c: int, i: int)
    requires 0 <= c < nch, 0 <= i < cs,
    ensures 0 <= c * cs, c * cs + cs <= nch * cs, 0 <= c * cs + i < nch * cs,
{
    assert(0 <= c * cs) by (nonlinear_arith) requires 0 <= c, 0 <= cs;
    assert(c * cs + cs <= nch * cs) by (nonlinear_arith) requires c + 1 <= nch, 0 <= cs;
}
pub proof fn lemma_apart(cs: int, c: int, i: int, d: int, k: int)
    requires 0 <= i < cs, 0 <= k < cs, c * cs + i == d * cs + k,
    ensures c == d, i == k,
{
    if c < d { assert(d * cs >= c * cs + cs) by (nonlinear_arith) requires d >= c + 1, cs >= 0; }
    if d < c { assert(c * cs >= d * cs + cs) by (nonlinear_arith) requires c >= d + 1, cs >= 0; }
}
/// only element x = (d, i) is written
pub proof fn lemma_wr(pre: Seq<i16>, post: Seq<i16>, cs: int, nch: int, d: int, i: int, x: int)
    requires 0 <= d < nch, 0 <= i < cs, x == d * cs + i, nch * cs <= pre.len(), pre.len() == post.len(), forall|j: int| 0 <= j < pre.len() && j != x ==> post[j] == pre[j],
    ensures forall|c: int, q: int| 0 <= c < nch && 0 <= q < cs && (c != d || q != i) ==> #[trigger] pl(post, cs, c, q) == pl(pre, cs, c, q), pl(post, cs, d, i) == post[x], pl(pre, cs, d, i) == pre[x],
{
    assert forall|c: int, q: int| 0 <= c < nch && 0 <= q < cs && (c != d || q != i) implies #[trigger] pl(post, cs, c, q) == pl(pre, cs, c, q) by {
        lemma_in(cs, nch, c, q);
        if c * cs + q == x { lemma_apart(cs, c, q, d, i); }
    }
}
// ---------------------------------------------------------------- what a program does to the channels of one pixel
pub open spec fn sum_px(fs: Seq<ChannelTransformFactor>, n: int, v: Seq<i16>) -> i16 decreases n {
    if n <= 0 { 0 } else { w16(sum_px(fs, n - 1, v) + w16(v[fs[n - 1].src_channel as int] * (fs[n - 1].factor as i16))) }
}
pub open spec fn fwd_step(t: ChannelTransform, v: Seq<i16>) -> Seq<i16> {
    v.update(t.dest_channel as int, w16(tdiv(sum_px(t.channel_factors@, t.channel_factors@.len() as int, v) as int, (t.denominator as i16) as int) + v[t.dest_channel as int]))
}
pub open spec fn inv_step(t: ChannelTransform, v: Seq<i16>) -> Seq<i16> {
    v.update(t.dest_channel as int, w16(v[t.dest_channel as int] - tdiv(sum_px(t.channel_factors@, t.channel_factors@.len() as int, v) as int, (t.denominator as i16) as int)))
}
pub open spec fn fwd_px(ts: Seq<ChannelTransform>, k: int, v: Seq<i16>) -> Seq<i16> decreases k {
    if k <= 0 { v } else { fwd_step(ts[k - 1], fwd_px(ts, k - 1, v)) }
}
pub open spec fn inv_px(ts: Seq<ChannelTransform>, k: int, v: Seq<i16>) -> Seq<i16> decreases k {
    if k <= 0 { v } else { inv_px(ts, k - 1, inv_step(ts[k - 1], v)) }
}
/// the transforms n-1 down to k have been undone
pub open spec fn inv_from(ts: Seq<ChannelTransform>, k: int, n: int, v: Seq<i16>) -> Seq<i16> decreases n - k {
    if k >= n { v } else { inv_step(ts[k], inv_from(ts, k + 1, n, v)) }
}
/// channels in range, denominators positive i16
pub open spec fn sane(ts: Seq<ChannelTransform>, nch: int) -> bool {
    forall|k: int| 0 <= k < ts.len() ==> sane_t(#[trigger] ts[k], nch)
}
pub open spec fn sane_t(t: ChannelTransform, nch: int) -> bool {
    t.dest_channel < nch && 1 <= t.denominator <= 32767 && (forall|j: int| 0 <= j < t.channel_factors@.len() ==> (#[trigger] t.channel_factors@[j]).src_channel < nch)
}
pub open spec fn no_self(t: ChannelTransform) -> bool { forall|j: int| 0 <= j < t.channel_factors@.len() ==> (#[trigger] t.channel_factors@[j]).src_channel != t.dest_channel }
pub open spec fn reversible(ts: Seq<ChannelTransform>, nch: int) -> bool {
    sane(ts, nch) && (forall|k: int| 0 <= k < ts.len() ==> no_self(#[trigger] ts[k])) && (forall|k: int, j: int| 0 <= k < j < ts.len() ==> (#[trigger] ts[k]).dest_channel != (#[trigger] ts[j]).dest_channel)
}
pub open spec fn done(ts: Seq<ChannelTransform>, c: int, k: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] ts[j]).dest_channel == c }
pub proof fn lemma_sum_same(t: ChannelTransform, n: int, v: Seq<i16>, x: i16)
    requires no_self(t), n <= t.channel_factors@.len(), t.dest_channel < v.len(), forall|j: int| 0 <= j < t.channel_factors@.len() ==> (#[trigger] t.channel_factors@[j]).src_channel < v.len(),
    ensures sum_px(t.channel_factors@, n, v.update(t.dest_channel as int, x)) == sum_px(t.channel_factors@, n, v),
    decreases n,
{
    if n > 0 {
        lemma_sum_same(t, n - 1, v, x);
        let f = t.channel_factors@[n - 1];
        assert(v.update(t.dest_channel as int, x)[f.src_channel as int] == v[f.src_channel as int]);
    }
}
pub proof fn lemma_inv_step(t: ChannelTransform, v: Seq<i16>)
    requires no_self(t), sane_t(t, v.len() as int),
    ensures inv_step(t, fwd_step(t, v)) =~= v,
{
    let n = t.channel_factors@.len() as int;
    let s = sum_px(t.channel_factors@, n, v);
    let u = fwd_step(t, v);
    lemma_sum_same(t, n, v, u[t.dest_channel as int]);
    assert(u =~= v.update(t.dest_channel as int, u[t.dest_channel as int]));
    let q = tdiv(s as int, (t.denominator as i16) as int);
    lemma_tdiv(s, t.denominator as i16);
    lemma_addsub(q as i16, v[t.dest_channel as int]);
}
pub proof fn lemma_tdiv(s: i16, d: i16)
    requires d > 0,
    ensures -32768 <= tdiv(s as int, d as int) <= 32767, tdiv(s as int, d as int) == (if s >= 0 { s as int / d as int } else { -((-s as int) / d as int) }),
{
    reveal(tdiv);
    let a = if s >= 0 { s as int } else { -s as int };
    assert(0 <= a / d as int <= a) by (nonlinear_arith) requires a >= 0, d >= 1;
}
pub proof fn lemma_len(ts: Seq<ChannelTransform>, k: int, v: Seq<i16>)
    ensures fwd_px(ts, k, v).len() == v.len(),
    decreases k,
{ if k > 0 { lemma_len(ts, k - 1, v); } }
pub proof fn lemma_inv_fwd(ts: Seq<ChannelTransform>, k: int, v: Seq<i16>)
    requires reversible(ts, v.len() as int), 0 <= k <= ts.len(),
    ensures inv_px(ts, k, fwd_px(ts, k, v)) =~= v,
    decreases k,
{
    if k > 0 {
        lemma_len(ts, k - 1, v);
        lemma_inv_step(ts[k - 1], fwd_px(ts, k - 1, v));
        lemma_inv_fwd(ts, k - 1, v);
    }
}
pub proof fn lemma_inv_from(ts: Seq<ChannelTransform>, k: int, n: int, v: Seq<i16>)
    requires 0 <= k <= n,
    ensures inv_px(ts, k, inv_from(ts, k, n, v)) == inv_px(ts, n, v), inv_from(ts, k, n, v).len() == v.len(),
    decreases n - k,
{
    if k < n {
        lemma_inv_from(ts, k + 1, n, v);
        assert(inv_px(ts, k + 1, inv_from(ts, k + 1, n, v)) == inv_px(ts, k, inv_step(ts[k], inv_from(ts, k + 1, n, v))));
    }
}
// ---------------------------------------------------------------- the whole image
pub open spec fn vec0<T: Into<i16>>(image: Seq<T>, g: spec_fn(int, int, int) -> int, channels: int, cs: int, cii: int, boost: int, nch: int, i: int) -> Seq<i16> {
    Seq::new(nch as nat, |c: int| w16(val(image[g(c, channels, cs) + i * cii]) * boost))
}
pub open spec fn col(a: Seq<i16>, cs: int, nch: int, i: int) -> Seq<i16> { Seq::new(nch as nat, |c: int| pl(a, cs, c, i)) }
pub open spec fn zero(a: Seq<i16>, cs: int, nch: int) -> bool { forall|c: int, i: int| 0 <= c < nch && 0 <= i < cs ==> #[trigger] pl(a, cs, c, i) == 0 }
/// state after k transforms, with the first m channels that no transform writes copied
pub open spec fn fwd_state(a: Seq<i16>, ts: Seq<ChannelTransform>, k: int, v: spec_fn(int) -> Seq<i16>, cs: int, nch: int, i: int, m: int) -> bool {
    forall|c: int| 0 <= c < nch ==> #[trigger] pl(a, cs, c, i) == (if done(ts, c, k) || c < m { fwd_px(ts, k, v(i))[c] } else { 0 })
}
pub proof fn lemma_not_done(ts: Seq<ChannelTransform>, c: int, k: int, v: Seq<i16>)
    requires !done(ts, c, k), 0 <= k <= ts.len(), 0 <= c < v.len(),
    ensures fwd_px(ts, k, v)[c] == v[c],
    decreases k,
{
    if k > 0 {
        assert(!done(ts, c, k - 1)) by { if done(ts, c, k - 1) { let j = choose|j: int| 0 <= j < k - 1 && (#[trigger] ts[j]).dest_channel == c; assert(0 <= j < k && ts[j].dest_channel == c); } }
        lemma_not_done(ts, c, k - 1, v);
        lemma_len(ts, k - 1, v);
        assert(ts[k - 1].dest_channel != c);
    }
}
pub proof fn lemma_ct(ts: Seq<ChannelTransform>, nch: int, k: int)
    requires reversible(ts, nch), 0 <= k < ts.len(),
    ensures sane_t(ts[k], nch), no_self(ts[k]), !done(ts, ts[k].dest_channel as int, k), ts[k].dest_channel < nch, 1 <= ts[k].denominator <= 32767,
{
    let d = ts[k].dest_channel as int;
    if done(ts, d, k) { let j = choose|j: int| 0 <= j < k && (#[trigger] ts[j]).dest_channel == d; assert(ts[j].dest_channel != ts[k].dest_channel); }
}
pub proof fn lemma_cf(t: ChannelTransform, nch: int, j: int)
    requires sane_t(t, nch), no_self(t), 0 <= j < t.channel_factors@.len(),
    ensures t.channel_factors@[j].src_channel < nch, t.channel_factors@[j].src_channel != t.dest_channel,
{}
pub proof fn lemma_done(ts: Seq<ChannelTransform>, c: int, k: int)
    requires 0 <= k < ts.len(),
    ensures done(ts, c, k + 1) == (done(ts, c, k) || ts[k].dest_channel == c),
{
    if done(ts, c, k) { let j = choose|j: int| 0 <= j < k && (#[trigger] ts[j]).dest_channel == c; assert(0 <= j < k + 1 && ts[j].dest_channel == c); }
    if ts[k].dest_channel == c { assert(0 <= k < k + 1 && ts[k].dest_channel == c); }
    if done(ts, c, k + 1) { let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] ts[j]).dest_channel == c; if j < k { assert(done(ts, c, k)); } }
}
pub open spec fn fwd_all(a: Seq<i16>, ts: Seq<ChannelTransform>, k: int, v: spec_fn(int) -> Seq<i16>, cs: int, nch: int, m: int) -> bool { forall|i: int| 0 <= i < cs ==> #[trigger] fwd_state(a, ts, k, v, cs, nch, i, m) }
pub open spec fn others(a: Seq<i16>, b: Seq<i16>, cs: int, nch: int, d: int) -> bool { forall|c: int, i: int| 0 <= c < nch && 0 <= i < cs && c != d ==> #[trigger] pl(a, cs, c, i) == pl(b, cs, c, i) }
pub open spec fn sums(a: Seq<i16>, ts: Seq<ChannelTransform>, k: int, n: int, v: spec_fn(int) -> Seq<i16>, cs: int, from: int, to: int) -> bool { forall|q: int| from <= q < to ==> #[trigger] pl(a, cs, ts[k].dest_channel as int, q) == sum_px(ts[k].channel_factors@, n, fwd_px(ts, k, v(q))) }
pub open spec fn outs(a: Seq<i16>, ts: Seq<ChannelTransform>, k: int, c: int, v: spec_fn(int) -> Seq<i16>, cs: int, to: int) -> bool { forall|q: int| 0 <= q < to ==> #[trigger] pl(a, cs, c, q) == fwd_px(ts, k, v(q))[c] }
/// after the last write of transform k
pub proof fn lemma_next_state(a0: Seq<i16>, a: Seq<i16>, ts: Seq<ChannelTransform>, k: int, v: spec_fn(int) -> Seq<i16>, cs: int, nch: int)
    requires 0 <= k < ts.len(), fwd_all(a0, ts, k, v, cs, nch, 0), others(a, a0, cs, nch, ts[k].dest_channel as int), outs(a, ts, k + 1, ts[k].dest_channel as int, v, cs, cs), forall|i: int| (#[trigger] v(i)).len() == nch, 0 <= ts[k].dest_channel < nch,
    ensures fwd_all(a, ts, k + 1, v, cs, nch, 0),
{
    let d = ts[k].dest_channel as int;
    assert forall|i: int| 0 <= i < cs implies #[trigger] fwd_state(a, ts, k + 1, v, cs, nch, i, 0) by {
        assert(fwd_state(a0, ts, k, v, cs, nch, i, 0));
        lemma_len(ts, k, v(i));
        assert forall|c: int| 0 <= c < nch implies #[trigger] pl(a, cs, c, i) == (if done(ts, c, k + 1) || c < 0 { fwd_px(ts, k + 1, v(i))[c] } else { 0 }) by {
            lemma_done(ts, c, k);
            if c != d { assert(pl(a, cs, c, i) == pl(a0, cs, c, i)); }
        }
    }
}
pub proof fn lemma_start_state(a: Seq<i16>, ts: Seq<ChannelTransform>, k: int, v: spec_fn(int) -> Seq<i16>, cs: int, nch: int)
    requires 0 <= k < ts.len(), fwd_all(a, ts, k, v, cs, nch, 0), !done(ts, ts[k].dest_channel as int, k), 0 <= ts[k].dest_channel < nch,
    ensures sums(a, ts, k, 0, v, cs, 0, cs),
{
    let d = ts[k].dest_channel as int;
    assert forall|i: int| 0 <= i < cs implies #[trigger] pl(a, cs, d, i) == sum_px(ts[k].channel_factors@, 0, fwd_px(ts, k, v(i))) by { assert(fwd_state(a, ts, k, v, cs, nch, i, 0)); }
}
pub proof fn lemma_copy_state(a0: Seq<i16>, a: Seq<i16>, ts: Seq<ChannelTransform>, v: spec_fn(int) -> Seq<i16>, cs: int, nch: int, c: int)
    requires 0 <= c < nch, fwd_all(a0, ts, ts.len() as int, v, cs, nch, c), others(a, a0, cs, nch, c), forall|i: int| (#[trigger] v(i)).len() == nch,
        !done(ts, c, ts.len() as int) ==> outs(a, ts, 0, c, v, cs, cs), done(ts, c, ts.len() as int) ==> a == a0,
    ensures fwd_all(a, ts, ts.len() as int, v, cs, nch, c + 1),
{
    let k = ts.len() as int;
    assert forall|i: int| 0 <= i < cs implies #[trigger] fwd_state(a, ts, k, v, cs, nch, i, c + 1) by {
        assert(fwd_state(a0, ts, k, v, cs, nch, i, c));
        if !done(ts, c, k) { lemma_not_done(ts, c, k, v(i)); }
        assert forall|e: int| 0 <= e < nch implies #[trigger] pl(a, cs, e, i) == (if done(ts, e, k) || e < c + 1 { fwd_px(ts, k, v(i))[e] } else { 0 }) by {
            if e != c { assert(pl(a, cs, e, i) == pl(a0, cs, e, i)); } else if !done(ts, c, k) { assert(pl(a, cs, c, i) == fwd_px(ts, 0, v(i))[c]); }
        }
    }
}
/// channel d of pixel i is written, d is what the transform sums up
pub proof fn lemma_wr_keep(pre: Seq<i16>, post: Seq<i16>, a0: Seq<i16>, cs: int, nch: int, d: int, i: int, x: int)
    requires 0 <= d < nch, 0 <= i < cs, x == d * cs + i, nch * cs <= pre.len(), pre.len() == post.len(), forall|j: int| 0 <= j < pre.len() && j != x ==> post[j] == pre[j], others(pre, a0, cs, nch, d),
    ensures others(post, a0, cs, nch, d), pl(post, cs, d, i) == post[x], pl(pre, cs, d, i) == pre[x], forall|q: int| 0 <= q < cs && q != i ==> #[trigger] pl(post, cs, d, q) == pl(pre, cs, d, q),
{ lemma_wr(pre, post, cs, nch, d, i, x); }
pub proof fn lemma_sums_wr(pre: Seq<i16>, post: Seq<i16>, ts: Seq<ChannelTransform>, k: int, j: int, v: spec_fn(int) -> Seq<i16>, cs: int, i: int)
    requires 0 <= i < cs, sums(pre, ts, k, j, v, cs, i, cs), sums(pre, ts, k, j + 1, v, cs, 0, i), forall|q: int| 0 <= q < cs && q != i ==> #[trigger] pl(post, cs, ts[k].dest_channel as int, q) == pl(pre, cs, ts[k].dest_channel as int, q),
        pl(post, cs, ts[k].dest_channel as int, i) == sum_px(ts[k].channel_factors@, j + 1, fwd_px(ts, k, v(i))),
    ensures sums(post, ts, k, j, v, cs, i + 1, cs), sums(post, ts, k, j + 1, v, cs, 0, i + 1),
{
    let d = ts[k].dest_channel as int;
    assert forall|q: int| i + 1 <= q < cs implies #[trigger] pl(post, cs, d, q) == sum_px(ts[k].channel_factors@, j, fwd_px(ts, k, v(q))) by { assert(pl(post, cs, d, q) == pl(pre, cs, d, q)); }
    assert forall|q: int| 0 <= q < i + 1 implies #[trigger] pl(post, cs, d, q) == sum_px(ts[k].channel_factors@, j + 1, fwd_px(ts, k, v(q))) by { if q < i { assert(pl(post, cs, d, q) == pl(pre, cs, d, q)); } }
}
pub proof fn lemma_outs_wr(pre: Seq<i16>, post: Seq<i16>, ts: Seq<ChannelTransform>, k: int, c: int, v: spec_fn(int) -> Seq<i16>, cs: int, i: int)
    requires 0 <= i < cs, outs(pre, ts, k, c, v, cs, i), forall|q: int| 0 <= q < cs && q != i ==> #[trigger] pl(post, cs, c, q) == pl(pre, cs, c, q), pl(post, cs, c, i) == fwd_px(ts, k, v(i))[c],
    ensures outs(post, ts, k, c, v, cs, i + 1),
{ assert forall|q: int| 0 <= q < i + 1 implies #[trigger] pl(post, cs, c, q) == fwd_px(ts, k, v(q))[c] by { if q < i { assert(pl(post, cs, c, q) == pl(pre, cs, c, q)); } } }
pub proof fn lemma_sums_tail(a: Seq<i16>, b: Seq<i16>, ts: Seq<ChannelTransform>, k: int, n: int, v: spec_fn(int) -> Seq<i16>, cs: int, i: int)
    requires 0 <= i < cs, sums(a, ts, k, n, v, cs, i, cs), forall|q: int| 0 <= q < cs && q != i ==> #[trigger] pl(b, cs, ts[k].dest_channel as int, q) == pl(a, cs, ts[k].dest_channel as int, q),
    ensures sums(b, ts, k, n, v, cs, i + 1, cs), pl(a, cs, ts[k].dest_channel as int, i) == sum_px(ts[k].channel_factors@, n, fwd_px(ts, k, v(i))),
{ assert forall|q: int| i + 1 <= q < cs implies #[trigger] pl(b, cs, ts[k].dest_channel as int, q) == sum_px(ts[k].channel_factors@, n, fwd_px(ts, k, v(q))) by { assert(pl(b, cs, ts[k].dest_channel as int, q) == pl(a, cs, ts[k].dest_channel as int, q)); } }
/// the value added by factor j to the sum
pub proof fn lemma_sum_next(ts: Seq<ChannelTransform>, k: int, j: int, v: Seq<i16>)
    requires 0 <= k < ts.len(), 0 <= j,
    ensures sum_px(ts[k].channel_factors@, j + 1, v) == w16(sum_px(ts[k].channel_factors@, j, v) + w16(v[ts[k].channel_factors@[j].src_channel as int] * (ts[k].channel_factors@[j].factor as i16))),
{}
/// channel c has been transformed already
pub proof fn lemma_src(a: Seq<i16>, a0: Seq<i16>, ts: Seq<ChannelTransform>, k: int, v: spec_fn(int) -> Seq<i16>, cs: int, nch: int, c: int, i: int, d: int)
    requires fwd_all(a0, ts, k, v, cs, nch, 0), others(a, a0, cs, nch, d), c != d, 0 <= c < nch, 0 <= i < cs, done(ts, c, k),
    ensures a[c * cs + i] == fwd_px(ts, k, v(i))[c],
{ assert(fwd_state(a0, ts, k, v, cs, nch, i, 0)); assert(pl(a, cs, c, i) == pl(a0, cs, c, i)); }
/// channel c has not
pub proof fn lemma_src_raw(ts: Seq<ChannelTransform>, k: int, v: Seq<i16>, c: int, x: i16, f: i16, b: int)
    requires !done(ts, c, k), 0 <= k <= ts.len(), 0 <= c < v.len(), v[c] == w16(x * b),
    ensures w16(x * w16(f * b)) == w16(fwd_px(ts, k, v)[c] * f),
{ lemma_not_done(ts, c, k, v); lemma_boosted(x as int, f as int, b); }
pub proof fn lemma_luma(ts: Seq<ChannelTransform>, k: int, v: Seq<i16>, nch: int)
    requires 0 <= k < ts.len(), sane_t(ts[k], nch), !done(ts, ts[k].dest_channel as int, k), v.len() == nch,
    ensures ({ let d = ts[k].dest_channel as int; let s = sum_px(ts[k].channel_factors@, ts[k].channel_factors@.len() as int, fwd_px(ts, k, v)); let q = tdiv(s as int, (ts[k].denominator as i16) as int);
        -32768 <= q <= 32767 && q == (if s >= 0 { s as int / (ts[k].denominator as i16) as int } else { -((-s as int) / (ts[k].denominator as i16) as int) }) && fwd_px(ts, k + 1, v)[d] == w16(q + v[d]) }),
{
    let d = ts[k].dest_channel as int; let s = sum_px(ts[k].channel_factors@, ts[k].channel_factors@.len() as int, fwd_px(ts, k, v));
    lemma_not_done(ts, d, k, v); lemma_len(ts, k, v); lemma_tdiv(s, ts[k].denominator as i16);
}
pub proof fn lemma_all_px(a: Seq<i16>, ts: Seq<ChannelTransform>, v: spec_fn(int) -> Seq<i16>, cs: int, nch: int, i: int)
    requires fwd_all(a, ts, ts.len() as int, v, cs, nch, nch), v(i).len() == nch, 0 <= i < cs,
    ensures col(a, cs, nch, i) =~= fwd_px(ts, ts.len() as int, v(i)),
{
    let k = ts.len() as int;
    assert(fwd_state(a, ts, k, v, cs, nch, i, nch)); lemma_len(ts, k, v(i));
    assert forall|c: int| 0 <= c < nch implies col(a, cs, nch, i)[c] == fwd_px(ts, k, v(i))[c] by { assert(pl(a, cs, c, i) == fwd_px(ts, k, v(i))[c]); }
}
pub proof fn lemma_init(a: Seq<i16>, ts: Seq<ChannelTransform>, v: spec_fn(int) -> Seq<i16>, cs: int, nch: int)
    requires zero(a, cs, nch), ensures fwd_all(a, ts, 0, v, cs, nch, 0), forall|c: int| !(#[trigger] done(ts, c, 0)),
{ assert forall|i: int| 0 <= i < cs implies #[trigger] fwd_state(a, ts, 0, v, cs, nch, i, 0) by {} }
pub proof fn lemma_others(a: Seq<i16>, cs: int, nch: int, d: int) ensures others(a, a, cs, nch, d) {}
pub proof fn lemma_sums_empty(a: Seq<i16>, ts: Seq<ChannelTransform>, k: int, n: int, v: spec_fn(int) -> Seq<i16>, cs: int) ensures sums(a, ts, k, n, v, cs, 0, 0) {}
pub proof fn lemma_outs_empty(ts: Seq<ChannelTransform>, k: int, c: int, v: spec_fn(int) -> Seq<i16>, cs: int) ensures forall|a: Seq<i16>| #[trigger] outs(a, ts, k, c, v, cs, 0) {}
pub proof fn lemma_px0(ts: Seq<ChannelTransform>, v: Seq<i16>) ensures fwd_px(ts, 0, v) == v {}
pub proof fn lemma_sum_at(a: Seq<i16>, ts: Seq<ChannelTransform>, k: int, n: int, v: spec_fn(int) -> Seq<i16>, cs: int, i: int)
    requires 0 <= i < cs, sums(a, ts, k, n, v, cs, i, cs), ensures a[ts[k].dest_channel * cs + i] == sum_px(ts[k].channel_factors@, n, fwd_px(ts, k, v(i))),
{ assert(pl(a, cs, ts[k].dest_channel as int, i) == sum_px(ts[k].channel_factors@, n, fwd_px(ts, k, v(i)))); }
pub open spec fn hsize(h: Header) -> int { h.channels as int * h.layers as int }
/// positions of interleaved samples
pub open spec fn pos(c: int, i: int, channels: int, cs: int) -> int { layer_of(c, channels, cs) + i * channels }
pub proof fn lemma_pos(c: int, i: int, channels: int, layers: int, cs: int)
    requires 0 <= c < channels * layers, 0 <= i < cs, channels > 0,
    ensures 0 <= pos(c, i, channels, cs) < channels * layers * cs, 0 <= layer_of(c, channels, cs) <= channels * layers * cs, pos(c, i, channels, cs) == channels * ((c / channels) * cs + i) + c % channels,
        0 <= c / channels < layers, 0 <= c % channels < channels, 0 <= i * channels <= channels * layers * cs,
{
    let l = c / channels; let m = c % channels;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, channels);
    assert(0 <= l) by (nonlinear_arith) requires l == c / channels, c >= 0, channels > 0;
    assert(l < layers) by (nonlinear_arith) requires channels * l <= c, c < channels * layers, channels > 0;
    assert(l * cs * channels + m + i * channels == channels * (l * cs + i) + m) by (nonlinear_arith);
    assert(0 <= l * cs && l * cs + cs <= layers * cs) by (nonlinear_arith) requires 0 <= l, l + 1 <= layers, cs >= 0;
    let r = l * cs + i;
    assert(channels * r + channels <= channels * (layers * cs)) by (nonlinear_arith) requires r + 1 <= layers * cs, channels > 0;
    assert(channels * (layers * cs) == channels * layers * cs) by (nonlinear_arith);
    assert(0 <= channels * r) by (nonlinear_arith) requires r >= 0, channels > 0;
    assert(0 <= i * channels <= channels * r) by (nonlinear_arith) requires 0 <= i <= r, channels > 0;
    assert(0 <= l * cs * channels) by (nonlinear_arith) requires l * cs >= 0, channels > 0;
}
pub proof fn lemma_pos_apart(c: int, i: int, d: int, k: int, channels: int, layers: int, cs: int)
    requires 0 <= c < channels * layers, 0 <= d < channels * layers, 0 <= i < cs, 0 <= k < cs, channels > 0, pos(c, i, channels, cs) == pos(d, k, channels, cs),
    ensures c == d, i == k,
{
    lemma_pos(c, i, channels, layers, cs); lemma_pos(d, k, channels, layers, cs);
    let a = (c / channels) * cs + i; let b = (d / channels) * cs + k;
    if a < b { assert(channels * b >= channels * a + channels) by (nonlinear_arith) requires b >= a + 1, channels > 0; }
    if b < a { assert(channels * a >= channels * b + channels) by (nonlinear_arith) requires a >= b + 1, channels > 0; }
    lemma_apart(cs, c / channels, i, d / channels, k);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, channels); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, channels);
}
'''
G = 'Ghost(g): Ghost<spec_fn(int, int, int) -> int>'
# facts that every loop of transform_base keeps
KEEP = '''
            cs == channel_size, nch == channels * header.layers, channels == header.channels, 0 < cs <= isize::MAX, nch * cs <= aux.len(), boost == boost_of(*header), aux.len() == alen,
            reversible(self.channel_transforms@, nch), is_channel_transformed.len() == nch, ts == self.channel_transforms@, vals_ok::<T>(), nch <= 0xffff_ffff, layout_ok(image@, g, channel_layer, channels as int, cs, channels_in_index as int, nch),
            v == (|i: int| vec0(image@, g, channels as int, cs, channels_in_index as int, boost as int, nch, i)),
'''
FLAGS = 'forall|c: int| 0 <= c < nch ==> #[trigger] is_channel_transformed@[c] == done(ts, c, %s),'
CT = '''k == vx_n0 - 1, 0 <= k < ts.len(), *channel_transform == ts[k], d == ts[k].dest_channel, d < nch, dest_base == d * cs, sane_t(ts[k], nch), no_self(ts[k]), !done(ts, d, k), 1 <= ts[k].denominator <= 32767, n == ts[k].channel_factors@.len(),
            fwd_all(a0, ts, k, v, cs, nch, 0), aux.len() == a0.len(), others(aux@, a0, cs, nch, d),'''
CF = '''j == vx_n1 - 1, 0 <= j < n, *channel_factor == ts[k].channel_factors@[j], sc == channel_factor.src_channel, sc < nch, sc != d, sums(aux@, ts, k, j, v, cs, i as int, cs), sums(aux@, ts, k, j + 1, v, cs, 0, i as int),'''
IN = 'let ghost pre = aux@; proof { lemma_in(cs, nch, %s, i as int); lemma_in(cs, nch, d, i as int); '
TB = Fn('ColorTransformProgram::transform_base', None, '''    requires
        reversible(self.channel_transforms@, hsize(*header)), vals_ok::<T>(), header.channels >= 1, header.layers >= 1, 0 < header.channel_size <= isize::MAX,
        image.len() == hsize(*header) * header.channel_size, old(aux).len() >= image.len(),
        zero(old(aux)@, header.channel_size as int, hsize(*header)),
        layout_ok(image@, g, channel_layer, header.channels as int, header.channel_size as int, channels_in_index as int, hsize(*header)),
    ensures
        forall|i: int| 0 <= i < header.channel_size ==> col(final(aux)@, header.channel_size as int, hsize(*header), i)
            =~= #[trigger] fwd_px(self.channel_transforms@, self.channel_transforms@.len() as int, vec0(image@, g, header.channels as int, header.channel_size as int, channels_in_index as int, boost_of(*header), hsize(*header), i)),
        final(aux).len() == old(aux).len()''', params=', ' + G, entry='''
    hide(reversible); hide(layout_ok); hide(fwd_all); hide(others); hide(sums); hide(outs); hide(sane_t); hide(no_self); hide(done); hide(fwd_px); hide(sum_px); hide(w16);
    let ghost cs = header.channel_size as int; let ghost nch = hsize(*header); let ghost ts = self.channel_transforms@; let ghost alen = aux.len();
    let ghost v = |i: int| vec0(image@, g, header.channels as int, cs, channels_in_index as int, boost_of(*header), nch, i);
    proof {
        let a = header.channels as int; let b = header.layers as int;
        assert(1 <= a * b <= 0xfffe_0001) by (nonlinear_arith) requires 1 <= a <= 0xffff, 1 <= b <= 0xffff;
        lemma_init(aux@, ts, v, cs, nch);
    }''', exit='''
    proof {
        let k = ts.len() as int;
        assert forall|i: int| 0 <= i < cs implies col(aux@, cs, nch, i) =~= #[trigger] fwd_px(ts, k, vec0(image@, g, header.channels as int, cs, channels_in_index as int, boost_of(*header), nch, i)) by {
            lemma_all_px(aux@, ts, v, cs, nch, i);
            assert(v(i) == vec0(image@, g, header.channels as int, cs, channels_in_index as int, boost_of(*header), nch, i));
        }
    }''', loops=[
    dict(inv='invariant 0 <= vx_n0 <= ts.len(), fwd_all(aux@, ts, vx_n0 as int, v, cs, nch, 0),' + KEEP + FLAGS % 'vx_n0 as int' + 'decreases ts.len() - vx_n0', begin='''
            let ghost k = vx_n0 - 1; let ghost d = channel_transform.dest_channel as int; let ghost a0 = aux@; let ghost n = channel_transform.channel_factors@.len() as int;
            proof { lemma_ct(ts, nch, k); lemma_in(cs, nch, d, 0); lemma_start_state(aux@, ts, k, v, cs, nch); lemma_others(aux@, cs, nch, d); lemma_outs_empty(ts, k + 1, d, v, cs);
                lemma_layout(image@, g, channel_layer, channels as int, cs, channels_in_index as int, nch, channel_transform.dest_channel, channels, channel_size); reveal(w16); }''', end='''
            proof {
                assert forall|c: int| 0 <= c < nch implies #[trigger] is_channel_transformed@[c] == done(ts, c, k + 1) by { lemma_done(ts, c, k); }
                lemma_next_state(a0, aux@, ts, k, v, cs, nch);
            }'''),
    dict(inv='invariant 0 <= vx_n1 <= n, ' + KEEP + CT + FLAGS % 'k' + 'sums(aux@, ts, k, vx_n1 as int, v, cs, 0, cs), decreases n - vx_n1', begin='''
                let ghost j = vx_n1 - 1; let ghost sc = channel_factor.src_channel as int;
                proof { lemma_cf(ts[k], nch, j); lemma_in(cs, nch, sc, 0); lemma_in(cs, nch, d, 0); lemma_layout(image@, g, channel_layer, channels as int, cs, channels_in_index as int, nch, channel_factor.src_channel, channels, channel_size); lemma_sums_empty(aux@, ts, k, j + 1, v, cs); reveal(w16); }'''),
    dict(inv='invariant ' + KEEP + CT + FLAGS % 'k' + CF + 'done(ts, sc, k),', begin='''
                ''' + IN % 'sc' + 'lemma_src(aux@, a0, ts, k, v, cs, nch, sc, i as int, d); lemma_sum_next(ts, k, j, fwd_px(ts, k, v(i as int))); }', end='''
                proof { lemma_wr_keep(pre, aux@, a0, cs, nch, d, i as int, dest_base + i); lemma_sums_tail(pre, aux@, ts, k, j, v, cs, i as int); reveal(w16); lemma_sums_wr(pre, aux@, ts, k, j, v, cs, i as int); }'''),
    dict(inv='invariant ' + KEEP + CT + FLAGS % 'k' + CF + '!done(ts, sc, k), layer == g(sc, channels as int, cs), boosted_factor == w16((channel_factor.factor as i16) * boost),', begin='''
                ''' + IN % 'sc' + '''lemma_at(image@, g, channel_layer, channels as int, cs, channels_in_index as int, nch, sc, i as int);
                    lemma_src_raw(ts, k, v(i as int), sc, val(image@[g(sc, channels as int, cs) + i * channels_in_index]), channel_factor.factor as i16, boost as int); lemma_sum_next(ts, k, j, fwd_px(ts, k, v(i as int))); }''', end='''
                proof { lemma_wr_keep(pre, aux@, a0, cs, nch, d, i as int, dest_base + i); lemma_sums_tail(pre, aux@, ts, k, j, v, cs, i as int); reveal(w16); lemma_sums_wr(pre, aux@, ts, k, j, v, cs, i as int); }'''),
    dict(inv='invariant ' + KEEP + CT + FLAGS % 'k' + '''layer == g(d, channels as int, cs), sums(aux@, ts, k, n, v, cs, i as int, cs), outs(aux@, ts, k + 1, d, v, cs, i as int),''', begin='''
                ''' + IN % 'd' + '''lemma_at(image@, g, channel_layer, channels as int, cs, channels_in_index as int, nch, d, i as int); lemma_luma(ts, k, v(i as int), nch); lemma_sum_at(pre, ts, k, n, v, cs, i as int); }''', end='''
                proof { lemma_wr_keep(pre, aux@, a0, cs, nch, d, i as int, dest_base + i); lemma_sums_tail(pre, aux@, ts, k, n, v, cs, i as int); reveal(w16); lemma_outs_wr(pre, aux@, ts, k + 1, d, v, cs, i as int); }'''),
    dict(inv='invariant 0 <= vx_n5 <= nch, vx_s5 == 1, fwd_all(aux@, ts, ts.len() as int, v, cs, nch, vx_n5 as int),' + KEEP + FLAGS % 'ts.len() as int' + 'decreases nch - vx_n5', begin='''
            let ghost a0 = aux@; proof { lemma_in(cs, nch, vx_i5 as int, 0); lemma_others(aux@, cs, nch, vx_i5 as int); lemma_layout(image@, g, channel_layer, channels as int, cs, channels_in_index as int, nch, vx_i5, channels, channel_size); lemma_outs_empty(ts, 0, vx_i5 as int, v, cs); }''', end='''
            proof { lemma_copy_state(a0, aux@, ts, v, cs, nch, channel as int); }'''),
    dict(inv='invariant ' + KEEP + '''channel < nch, dest_base == channel * cs, layer == g(channel as int, channels as int, cs), a0.len() == aux.len(), others(aux@, a0, cs, nch, channel as int), outs(aux@, ts, 0, channel as int, v, cs, i as int),''', begin='''
                let ghost pre = aux@; proof { lemma_in(cs, nch, channel as int, i as int); lemma_at(image@, g, channel_layer, channels as int, cs, channels_in_index as int, nch, channel as int, i as int); }''', end='''
                proof { lemma_wr_keep(pre, aux@, a0, cs, nch, channel as int, i as int, dest_base + i); lemma_px0(ts, v(i as int)); reveal(w16); lemma_outs_wr(pre, aux@, ts, 0, channel as int, v, cs, i as int); }'''),
    ])
LAYOUT = r'''
pub open spec fn boost_of(h: Header) -> int { if h.quality == 1024 { 1int } else { 8 } }
pub open spec fn layout_ok<T, F: Fn(usize, usize, usize) -> usize>(image: Seq<T>, g: spec_fn(int, int, int) -> int, f: F, channels: int, cs: int, cii: int, nch: int) -> bool {
    cii >= 0
    && (forall|c: usize, n: usize, s: usize| c < nch && n == channels && s == cs ==> #[trigger] f.requires((c, n, s)))
    && (forall|c: usize, n: usize, s: usize, r: usize| #[trigger] f.ensures((c, n, s), r) && c < nch && n == channels && s == cs ==> r == g(c as int, n as int, s as int))
    && (forall|c: int, i: int| 0 <= c < nch && 0 <= i < cs ==> 0 <= #[trigger] at(g, channels, cs, cii, c, i) < image.len() && 0 <= i * cii <= usize::MAX && at(g, channels, cs, cii, c, i) <= usize::MAX)
}
pub open spec fn at(g: spec_fn(int, int, int) -> int, channels: int, cs: int, cii: int, c: int, i: int) -> int { g(c, channels, cs) + i * cii }
pub proof fn lemma_at<T, F: Fn(usize, usize, usize) -> usize>(image: Seq<T>, g: spec_fn(int, int, int) -> int, f: F, channels: int, cs: int, cii: int, nch: int, c: int, i: int)
    requires layout_ok(image, g, f, channels, cs, cii, nch), 0 <= c < nch, 0 <= i < cs,
    ensures 0 <= g(c, channels, cs) + i * cii < image.len(), 0 <= i * cii <= usize::MAX, g(c, channels, cs) + i * cii <= usize::MAX,
{ assert(0 <= at(g, channels, cs, cii, c, i)); }
pub proof fn lemma_layout<T, F: Fn(usize, usize, usize) -> usize>(image: Seq<T>, g: spec_fn(int, int, int) -> int, f: F, channels: int, cs: int, cii: int, nch: int, c: usize, n: usize, s: usize)
    requires layout_ok(image, g, f, channels, cs, cii, nch), c < nch, n == channels, s == cs,
    ensures f.requires((c, n, s)), forall|r: usize| #[trigger] f.ensures((c, n, s), r) ==> r == g(c as int, channels, cs),
{}
'''
BACKTH = r"""
pub open spec fn g_inter() -> spec_fn(int, int, int) -> int { |c: int, channels: int, cs: int| layer_of(c, channels, cs) }
pub open spec fn g_planar() -> spec_fn(int, int, int) -> int { |c: int, channels: int, cs: int| c * cs }
pub proof fn lemma_inter_ok<T>(image: Seq<T>, channels: int, layers: int, cs: int)
    requires channels >= 1, layers >= 1, cs > 0, image.len() == channels * layers * cs, image.len() <= isize::MAX,
    ensures forall|c: int, i: int| 0 <= c < channels * layers && 0 <= i < cs ==> 0 <= #[trigger] at(g_inter(), channels, cs, channels, c, i) < image.len() && 0 <= i * channels <= usize::MAX && at(g_inter(), channels, cs, channels, c, i) <= usize::MAX,
        forall|c: int| 0 <= c < channels * layers ==> #[trigger] layer_of(c, channels, cs) <= usize::MAX,
{
    assert forall|c: int, i: int| 0 <= c < channels * layers && 0 <= i < cs implies 0 <= #[trigger] at(g_inter(), channels, cs, channels, c, i) < image.len() && 0 <= i * channels <= usize::MAX && at(g_inter(), channels, cs, channels, c, i) <= usize::MAX by { lemma_pos(c, i, channels, layers, cs); }
    assert forall|c: int| 0 <= c < channels * layers implies #[trigger] layer_of(c, channels, cs) <= usize::MAX by { lemma_pos(c, 0, channels, layers, cs); }
}
pub proof fn lemma_planar_ok<T>(image: Seq<T>, channels: int, nch: int, cs: int)
    requires cs > 0, nch >= 1, image.len() == nch * cs, image.len() <= isize::MAX,
    ensures forall|c: int, i: int| 0 <= c < nch && 0 <= i < cs ==> 0 <= #[trigger] at(g_planar(), channels, cs, 1, c, i) < image.len() && 0 <= i * 1 <= usize::MAX && at(g_planar(), channels, cs, 1, c, i) <= usize::MAX,
{
    assert forall|c: int, i: int| 0 <= c < nch && 0 <= i < cs implies 0 <= #[trigger] at(g_planar(), channels, cs, 1, c, i) < image.len() && 0 <= i * 1 <= usize::MAX && at(g_planar(), channels, cs, 1, c, i) <= usize::MAX by { lemma_in(cs, nch, c, i); }
}
/// the transforms from the last one down to k have been undone in every pixel
pub open spec fn undone(a: Seq<i16>, a0: Seq<i16>, ts: Seq<ChannelTransform>, k: int, cs: int, nch: int) -> bool {
    forall|i: int| 0 <= i < cs ==> #[trigger] col(a, cs, nch, i) == inv_from(ts, k, ts.len() as int, col(a0, cs, nch, i))
}
pub open spec fn temps(t: Seq<i16>, a: Seq<i16>, ct: ChannelTransform, n: int, cs: int, nch: int, from: int, to: int) -> bool { forall|q: int| from <= q < to ==> #[trigger] t[q] == sum_px(ct.channel_factors@, n, col(a, cs, nch, q)) }
pub proof fn lemma_undone_start(a: Seq<i16>, ts: Seq<ChannelTransform>, cs: int, nch: int) ensures undone(a, a, ts, ts.len() as int, cs, nch) {}
pub proof fn lemma_undone_at(a: Seq<i16>, a0: Seq<i16>, ts: Seq<ChannelTransform>, cs: int, nch: int, i: int)
    requires undone(a, a0, ts, 0, cs, nch), 0 <= i < cs, ensures col(a, cs, nch, i) == inv_px(ts, ts.len() as int, col(a0, cs, nch, i))
{ lemma_inv_from(ts, 0, ts.len() as int, col(a0, cs, nch, i)); assert(col(a, cs, nch, i) == inv_from(ts, 0, ts.len() as int, col(a0, cs, nch, i))); }
pub proof fn lemma_sane(t: ChannelTransform, nch: int) requires sane_t(t, nch), ensures t.dest_channel < nch, 1 <= t.denominator <= 32767 {}
pub proof fn lemma_sane_f(t: ChannelTransform, nch: int, j: int) requires sane_t(t, nch), 0 <= j < t.channel_factors@.len(), ensures t.channel_factors@[j].src_channel < nch {}
pub proof fn lemma_temps_start(a: Seq<i16>, ct: ChannelTransform, cs: int, nch: int) requires cs >= 0, ensures temps(Seq::new(cs as nat, |i: int| 0i16), a, ct, 0, cs, nch, 0, cs), forall|t: Seq<i16>| t.len() == cs && (forall|q: int| 0 <= q < cs ==> t[q] == 0) ==> #[trigger] temps(t, a, ct, 0, cs, nch, 0, cs) {}
pub proof fn lemma_temps_empty(a: Seq<i16>, ct: ChannelTransform, n: int, cs: int, nch: int) ensures forall|t: Seq<i16>| #[trigger] temps(t, a, ct, n, cs, nch, 0, 0) {}
pub proof fn lemma_temps_at(t: Seq<i16>, a: Seq<i16>, ct: ChannelTransform, n: int, cs: int, nch: int, i: int)
    requires temps(t, a, ct, n, cs, nch, i, cs), i < cs, ensures t[i] == sum_px(ct.channel_factors@, n, col(a, cs, nch, i)) {}
pub proof fn lemma_temps_wr(pre: Seq<i16>, post: Seq<i16>, a: Seq<i16>, ct: ChannelTransform, j: int, cs: int, nch: int, i: int)
    requires 0 <= i < cs, pre.len() == cs, temps(pre, a, ct, j, cs, nch, i, cs), temps(pre, a, ct, j + 1, cs, nch, 0, i), 0 <= j < ct.channel_factors@.len(), 0 <= ct.channel_factors@[j].src_channel < nch,
        post == pre.update(i, w16(pre[i] + w16(a[ct.channel_factors@[j].src_channel * cs + i] * (ct.channel_factors@[j].factor as i16)))),
    ensures temps(post, a, ct, j, cs, nch, i + 1, cs), temps(post, a, ct, j + 1, cs, nch, 0, i + 1),
{
    assert(col(a, cs, nch, i)[ct.channel_factors@[j].src_channel as int] == pl(a, cs, ct.channel_factors@[j].src_channel as int, i));
    assert(pre[i] == sum_px(ct.channel_factors@, j, col(a, cs, nch, i)));
    assert forall|q: int| 0 <= q < i + 1 implies #[trigger] post[q] == sum_px(ct.channel_factors@, j + 1, col(a, cs, nch, q)) by { if q < i { assert(post[q] == pre[q]); } }
    assert forall|q: int| i + 1 <= q < cs implies #[trigger] post[q] == sum_px(ct.channel_factors@, j, col(a, cs, nch, q)) by { assert(post[q] == pre[q]); }
}
pub proof fn lemma_temps_tail(pre: Seq<i16>, post: Seq<i16>, a: Seq<i16>, ct: ChannelTransform, n: int, cs: int, nch: int, i: int)
    requires 0 <= i < cs, temps(pre, a, ct, n, cs, nch, i, cs), forall|q: int| i < q < cs ==> #[trigger] post[q] == pre[q],
    ensures temps(post, a, ct, n, cs, nch, i + 1, cs),
{ assert forall|q: int| i + 1 <= q < cs implies #[trigger] post[q] == sum_px(ct.channel_factors@, n, col(a, cs, nch, q)) by { assert(post[q] == pre[q]); } }
pub proof fn lemma_inv_at(a: Seq<i16>, t: ChannelTransform, cs: int, nch: int, i: int)
    requires sane_t(t, nch), 0 <= i < cs,
    ensures inv_step(t, col(a, cs, nch, i))[t.dest_channel as int] == w16(pl(a, cs, t.dest_channel as int, i) - tdiv(sum_px(t.channel_factors@, t.channel_factors@.len() as int, col(a, cs, nch, i)) as int, (t.denominator as i16) as int)),
{}
pub proof fn lemma_undone_next(a0: Seq<i16>, a: Seq<i16>, s0: Seq<i16>, ts: Seq<ChannelTransform>, k: int, cs: int, nch: int)
    requires 0 <= k < ts.len(), undone(a0, s0, ts, k + 1, cs, nch), sane_t(ts[k], nch), 0 <= nch,
        forall|c: int, q: int| 0 <= c < nch && 0 <= q < cs && c != ts[k].dest_channel ==> #[trigger] pl(a, cs, c, q) == pl(a0, cs, c, q), forall|q: int| 0 <= q < cs ==> #[trigger] pl(a, cs, ts[k].dest_channel as int, q) == inv_step(ts[k], col(a0, cs, nch, q))[ts[k].dest_channel as int],
    ensures undone(a, s0, ts, k, cs, nch),
{
    assert forall|i: int| 0 <= i < cs implies #[trigger] col(a, cs, nch, i) == inv_from(ts, k, ts.len() as int, col(s0, cs, nch, i)) by {
        assert(col(a0, cs, nch, i) == inv_from(ts, k + 1, ts.len() as int, col(s0, cs, nch, i)));
        let r = inv_step(ts[k], col(a0, cs, nch, i));
        assert forall|c: int| 0 <= c < nch implies col(a, cs, nch, i)[c] == r[c] by { if c != ts[k].dest_channel { assert(pl(a, cs, c, i) == pl(a0, cs, c, i)); } else { assert(pl(a, cs, c, i) == r[c]); } }
        assert(col(a, cs, nch, i) =~= r);
    }
}
pub proof fn lemma_div_i16(x: i16, b: i16)
    requires b > 0,
    ensures x >= 0 ==> 0 <= x as int / b as int <= x, x < 0 ==> 0 <= (-(x as int)) / b as int <= -(x as int),
{
    let y = x as int; let d = b as int;
    if y >= 0 { assert(0 <= y / d <= y) by (nonlinear_arith) requires y >= 0, d >= 1; } else { assert(0 <= (-y) / d <= -y) by (nonlinear_arith) requires y < 0, d >= 1; }
}
"""
GETS = [
    Fn('Header::get_boost', 'r', '        ensures r == boost_of(*self)'),
    Fn('Header::get_channel_size', 'r', '        ensures r == self.channel_size'),
]

TRANS = '''    requires
        reversible(self.channel_transforms@, hsize(*header)), vals_ok::<T>(), header.channels >= 1, header.layers >= 1, 0 < header.channel_size <= isize::MAX,
        image.len() == hsize(*header) * header.channel_size, old(aux).len() >= image.len(), image.len() <= isize::MAX,
        zero(old(aux)@, header.channel_size as int, hsize(*header)),
    ensures
        forall|i: int| 0 <= i < header.channel_size ==> col(final(aux)@, header.channel_size as int, hsize(*header), i)
            =~= #[trigger] fwd_px(self.channel_transforms@, self.channel_transforms@.len() as int, vec0(image@, %s, header.channels as int, header.channel_size as int, %s, boost_of(*header), hsize(*header), i)),
        final(aux).len() == old(aux).len()'''
TRI = Fn('ColorTransformProgram::transform_and_to_planar', None, TRANS % ('g_inter()', 'header.channels as int'), subst=[(r'get_layer,\s*\)', 'get_layer, Ghost(g_inter()))')], entry='''
    proof { lemma_inter_ok(image@, header.channels as int, header.layers as int, header.channel_size as int); }''')
TRP = Fn('ColorTransformProgram::transform', None, TRANS % ('g_planar()', '1'), closures=[('''requires channel < nch, channel_size == cs, cs <= isize::MAX, nch * cs <= isize::MAX
            ensures r == channel * channel_size''', 'proof { lemma_in(cs, nch, channel as int, 0); }', 'usize')],
    subst=[(r'\},?\s*\)\s*;\s*\}\s*$', '}, Ghost(g_planar())); }')], entry='''
    let ghost cs = header.channel_size as int; let ghost nch = hsize(*header);
    proof { let a = header.channels as int; let b = header.layers as int; assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 1; lemma_planar_ok(image@, header.channels as int, nch, cs); }''')
DB = Fn('ColorTransformProgram::detransform_base', 'r', '''    requires sane(self.channel_transforms@, hsize(*header)), channel_size > 0, hsize(*header) * channel_size <= old(aux).len(), old(aux).len() <= old(image).len(), old(image).len() <= isize::MAX,
    ensures
        final(image)@ == final(r.0)@ + old(image)@.skip(old(aux).len() as int), r.0@ == old(image)@.take(old(aux).len() as int), r.0.len() == old(aux).len(), r.1 == boost_of(*header), final(aux).len() == old(aux).len(),
        undone(final(aux)@, old(aux)@, self.channel_transforms@, 0, channel_size as int, hsize(*header)), forall|j: int| hsize(*header) * channel_size <= j < old(aux).len() ==> #[trigger] final(aux)@[j] == old(aux)@[j]''', entry='''
    hide(undone); hide(temps); hide(sane_t); hide(inv_step);
    let ghost cs = channel_size as int; let ghost nch = hsize(*header); let ghost ts = self.channel_transforms@; let ghost s0 = aux@; let ghost image0 = image@;
    proof { lemma_undone_start(aux@, ts, cs, nch); }''', loops=[
    dict(inv='''invariant 0 <= vx_n0 <= ts.len(), ts == self.channel_transforms@, cs == channel_size, cs > 0, nch == hsize(*header), nch * cs <= aux.len(), aux.len() == s0.len(), aux.len() <= isize::MAX, sane(ts, nch), undone(aux@, s0, ts, vx_n0 as int, cs, nch), forall|j: int| nch * cs <= j < s0.len() ==> #[trigger] aux@[j] == s0[j]
            decreases vx_n0''', begin='''
            let ghost k = vx_n0 as int; let ghost d = channel_transform.dest_channel as int; let ghost a0 = aux@; let ghost n = channel_transform.channel_factors@.len() as int;
            proof { assert(sane_t(ts[k], nch)); lemma_sane(ts[k], nch); lemma_in(cs, nch, d, 0); lemma_temps_start(a0, ts[k], cs, nch); }''', end='''
            proof { lemma_undone_next(a0, aux@, s0, ts, k, cs, nch); }'''),
    dict(inv='''invariant 0 <= vx_n1 <= n, *channel_transform == ts[k], n == ts[k].channel_factors@.len(), cs == channel_size, cs > 0, nch * cs <= aux.len(), aux.len() <= isize::MAX, sane_t(ts[k], nch), aux@ == a0, transform_temp.len() == cs, temps(transform_temp@, a0, ts[k], vx_n1 as int, cs, nch, 0, cs),
            decreases n - vx_n1''', begin='''
                let ghost j = vx_n1 - 1; let ghost sc = channel_factor.src_channel as int;
                proof { lemma_sane_f(ts[k], nch, j); lemma_in(cs, nch, sc, 0); lemma_temps_empty(a0, ts[k], j + 1, cs, nch); }''', end='''
                proof { }'''),
    dict(inv='''invariant *channel_transform == ts[k], 0 <= j < n, n == ts[k].channel_factors@.len(), cs == channel_size, cs > 0, nch * cs <= aux.len(), aux.len() <= isize::MAX, aux@ == a0, transform_temp.len() == cs, *channel_factor == ts[k].channel_factors@[j], sc == channel_factor.src_channel, sc < nch,
            temps(transform_temp@, a0, ts[k], j, cs, nch, i as int, cs), temps(transform_temp@, a0, ts[k], j + 1, cs, nch, 0, i as int),''', begin='''
                    let ghost pre = transform_temp@; proof { lemma_in(cs, nch, sc, i as int); lemma_temps_at(pre, a0, ts[k], j, cs, nch, i as int); }''', end='''
                    proof { lemma_temps_wr(pre, transform_temp@, a0, ts[k], j, cs, nch, i as int); }'''),
    dict(inv='''invariant *channel_transform == ts[k], 0 <= k < ts.len(), n == ts[k].channel_factors@.len(), d == ts[k].dest_channel, d < nch, dest_base == d * cs, cs == channel_size, cs > 0, nch * cs <= aux.len(), aux.len() == a0.len(), aux.len() <= isize::MAX, transform_temp.len() == cs, 1 <= ts[k].denominator <= 32767, sane_t(ts[k], nch),
            temps(transform_temp@, a0, ts[k], n, cs, nch, i as int, cs), forall|c: int, q: int| 0 <= c < nch && 0 <= q < cs && (c != d || q >= i) ==> #[trigger] pl(aux@, cs, c, q) == pl(a0, cs, c, q), forall|q: int| 0 <= q < i ==> #[trigger] pl(aux@, cs, d, q) == inv_step(ts[k], col(a0, cs, nch, q))[d],
            forall|j: int| nch * cs <= j < a0.len() ==> #[trigger] aux@[j] == a0[j],''', begin='''
                let ghost pre = aux@; let ghost tpre = transform_temp@; proof { lemma_in(cs, nch, d, i as int); lemma_temps_at(tpre, a0, ts[k], n, cs, nch, i as int); lemma_tdiv(tpre[i as int], ts[k].denominator as i16); assert(pl(aux@, cs, d, i as int) == pl(a0, cs, d, i as int)); }''', end='''
                proof { lemma_wr(pre, aux@, cs, nch, d, i as int, dest_base + i); lemma_temps_tail(tpre, transform_temp@, a0, ts[k], n, cs, nch, i as int); lemma_inv_at(a0, ts[k], cs, nch, i as int);
                    assert(pl(aux@, cs, d, i as int) == inv_step(ts[k], col(a0, cs, nch, i as int))[d]); }'''),
    ])
BACK = '''    requires sane(self.channel_transforms@, hsize(*header)), channel_size > 0, hsize(*header) * channel_size <= old(aux).len(), old(aux).len() <= old(image).len(), old(image).len() <= isize::MAX, header.channels >= 1, num_ok::<T>(),
    ensures final(image).len() == old(image).len(), final(aux).len() == old(aux).len(), undone(final(aux)@, old(aux)@, self.channel_transforms@, 0, channel_size as int, hsize(*header)),
        %s,
        forall|j: int| %s <= j < old(image).len() ==> #[trigger] final(image)@[j] == old(image)@[j],'''
DI = Fn('ColorTransformProgram::detransform_and_to_interleaved', None, BACK % ('''forall|c: int, i: int| 0 <= c < hsize(*header) && 0 <= i < channel_size ==> final(image)@[#[trigger] pos(c, i, header.channels as int, channel_size as int)] == unboost::<T>(pl(final(aux)@, channel_size as int, c, i), boost_of(*header) as i16)''', 'hsize(*header) * channel_size'), entry='''
    let ghost cs = channel_size as int; let ghost nch = hsize(*header); let ghost i0 = image@; let ghost aux0 = aux@; let ghost ly = header.layers as int;
    proof { let a = header.channels as int; assert(0 <= a * ly <= 0xfffe_0001) by (nonlinear_arith) requires 1 <= a <= 0xffff, 0 <= ly <= 0xffff; }''', exit='''
    proof {
        assert forall|d: int, q: int| 0 <= d < nch && 0 <= q < cs implies image@[#[trigger] pos(d, q, header.channels as int, cs)] == unboost::<T>(pl(aux@, cs, d, q), boost_of(*header) as i16) && 0 <= pos(d, q, header.channels as int, cs) < nch * cs by { lemma_pos(d, q, channels as int, ly, cs); }
    }''', loops=[
    dict(inv='''invariant cs == channel_size, 0 < cs, nch == hsize(*header), ly == header.layers, channels == header.channels, channels >= 1, nch * cs <= aux.len(), aux.len() == image.len(), image.len() <= isize::MAX, boost == boost_of(*header), num_ok::<T>(), image.len() <= i0.len(), nch == channels * ly, nch <= 0xffff_ffff,
            forall|d: int, i: int| 0 <= d < c && 0 <= i < cs ==> image@[#[trigger] pos(d, i, channels as int, cs)] == unboost::<T>(pl(aux@, cs, d, i), boost), forall|j: int| nch * cs <= j < image.len() ==> #[trigger] image@[j] == i0[j],''', begin='''
            proof { lemma_pos(c as int, 0, channels as int, ly, cs); assert(channel_size <= isize::MAX) by { lemma_in(cs, nch, 0, 0); } }'''),
    dict(inv='''invariant cs == channel_size, 0 < cs, nch == hsize(*header), ly == header.layers, channels == header.channels, channels >= 1, nch * cs <= aux.len(), aux.len() == image.len(), image.len() <= isize::MAX, boost == boost_of(*header), num_ok::<T>(), image.len() <= i0.len(), nch == channels * ly, c < nch, layer == layer_of(c as int, channels as int, cs),
            forall|d: int, q: int| 0 <= d < c && 0 <= q < cs ==> image@[#[trigger] pos(d, q, channels as int, cs)] == unboost::<T>(pl(aux@, cs, d, q), boost), forall|j: int| nch * cs <= j < image.len() ==> #[trigger] image@[j] == i0[j],
            forall|q: int| 0 <= q < i ==> image@[#[trigger] pos(c as int, q, channels as int, cs)] == unboost::<T>(pl(aux@, cs, c as int, q), boost),''', begin='''
                let ghost pre = image@; proof { lemma_pos(c as int, i as int, channels as int, ly, cs); lemma_in(cs, nch, c as int, i as int); let x = pl(aux@, cs, c as int, i as int); reveal(tdiv); if x >= 0 {} else {}; lemma_div_i16(x, boost); }''', end='''
                proof {
                    assert forall|d: int, q: int| ((0 <= d < c && 0 <= q < cs) || (d == c && 0 <= q < i)) implies image@[#[trigger] pos(d, q, channels as int, cs)] == unboost::<T>(pl(aux@, cs, d, q), boost) by {
                        lemma_pos(d, q, channels as int, ly, cs);
                        if pos(d, q, channels as int, cs) == layer + i * channels { lemma_pos_apart(d, q, c as int, i as int, channels as int, ly, cs); }
                    }
                }'''),
    ])
DP = Fn('ColorTransformProgram::detransform', None, BACK % ('''forall|j: int| 0 <= j < old(aux).len() ==> #[trigger] final(image)@[j] == unboost::<T>(final(aux)@[j], boost_of(*header) as i16)''', 'old(aux).len()'), entry='''
    let ghost i0 = image@;''', loops=[
    dict(inv='''invariant 0 <= vx_n0 <= aux.len(), aux.len() == image.len(), image.len() <= isize::MAX, boost == boost_of(*header), num_ok::<T>(), image.len() <= i0.len(),
            forall|j: int| 0 <= j < vx_n0 ==> #[trigger] image@[j] == unboost::<T>(aux@[j], boost),
            decreases aux.len() - vx_n0''', begin='''
            proof { let x = aux@[vx_i0 as int]; reveal(tdiv); if x >= 0 {} else {}; lemma_div_i16(x, boost); }'''),
    ])
POST = r'''
pub proof fn lemma_pos_onto(j: int, channels: int, layers: int, cs: int) -> (r: (int, int))
    requires 0 <= j < channels * layers * cs, channels > 0, cs > 0, layers > 0,
    ensures 0 <= r.0 < channels * layers, 0 <= r.1 < cs, pos(r.0, r.1, channels, cs) == j,
{
    let q = j / channels; let m = j % channels; let l = q / cs; let i = q % cs; let c = l * channels + m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, channels);
    assert(q >= 0) by (nonlinear_arith) requires q == j / channels, j >= 0, channels > 0;
    assert(q < layers * cs) by (nonlinear_arith) requires channels * q <= j, j < channels * layers * cs, channels > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, cs);
    assert(l >= 0) by (nonlinear_arith) requires l == q / cs, q >= 0, cs > 0;
    assert(l < layers) by (nonlinear_arith) requires cs * l <= q, q < layers * cs, cs > 0;
    assert(0 <= l * channels && c < channels * layers) by (nonlinear_arith) requires 0 <= l, l + 1 <= layers, channels > 0, 0 <= m < channels, c == l * channels + m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c, channels, l, m);
    assert(l * cs * channels + m + i * channels == channels * (cs * l + i) + m) by (nonlinear_arith);
    (c, i)
}
pub open spec fn pixel<T: Into<i16> + NumCast>(x: T) -> bool { 0 <= val(x) <= 255 && T::num(val(x)) == Some(x) }
pub proof fn lemma_exact<T: Into<i16> + NumCast>(x: T, boost: i16)
    requires pixel(x), boost == 1 || boost == 8,
    ensures unboost::<T>(w16(val(x) * boost), boost) == x,
{
    let v = val(x) as int; reveal(tdiv);
    lemma_w16(v * boost);
}
pub proof fn lemma_there_and_back(a: Seq<i16>, a0: Seq<i16>, ts: Seq<ChannelTransform>, cs: int, nch: int, i: int, v: Seq<i16>)
    requires undone(a, a0, ts, 0, cs, nch), col(a0, cs, nch, i) =~= fwd_px(ts, ts.len() as int, v), reversible(ts, nch), v.len() == nch, 0 <= i < cs,
    ensures col(a, cs, nch, i) == v, forall|c: int| 0 <= c < nch ==> #[trigger] pl(a, cs, c, i) == v[c],
{
    lemma_undone_at(a, a0, ts, cs, nch, i); lemma_inv_fwd(ts, ts.len() as int, v);
    assert(col(a, cs, nch, i) == v);
    assert forall|c: int| 0 <= c < nch implies #[trigger] pl(a, cs, c, i) == v[c] by { assert(col(a, cs, nch, i)[c] == pl(a, cs, c, i)); }
}
pub proof fn lemma_rev_sane(ts: Seq<ChannelTransform>, nch: int) requires reversible(ts, nch), ensures sane(ts, nch) {}
/// C09 as a client of the contracts
pub fn color_roundtrip_interleaved<T: Into<i16> + Copy + NumCast>(p: &ColorTransformProgram, image: &[T], header: &Header, aux: &mut [i16], back: &mut [T])
    requires reversible(p.channel_transforms@, hsize(*header)), vals_ok::<T>(), num_ok::<T>(), header.channels >= 1, header.layers >= 1, 0 < header.channel_size <= isize::MAX, image.len() == hsize(*header) * header.channel_size,
        old(aux).len() >= image.len(), old(back).len() >= old(aux).len(), old(back).len() <= isize::MAX, zero(old(aux)@, header.channel_size as int, hsize(*header)), forall|j: int| 0 <= j < image.len() ==> pixel(#[trigger] image@[j]),
    ensures final(back).len() == old(back).len(), forall|j: int| 0 <= j < image.len() ==> #[trigger] final(back)@[j] == image@[j],
{
    hide(reversible); hide(undone); hide(sane);
    let ghost cs = header.channel_size as int; let ghost nch = hsize(*header); let ghost n = header.channels as int; let ghost ts = p.channel_transforms@;
    proof { lemma_rev_sane(ts, nch); }
    p.transform_and_to_planar(image, header, aux);
    let ghost a0 = aux@;
    p.detransform_and_to_interleaved(aux, header, header.channel_size, back);
    proof {
        assert forall|j: int| 0 <= j < image.len() implies #[trigger] back@[j] == image@[j] by {
            let (c, i) = lemma_pos_onto(j, n, header.layers as int, cs);
            let v = vec0(image@, g_inter(), n, cs, n, boost_of(*header), nch, i);
            assert(col(a0, cs, nch, i) =~= fwd_px(ts, ts.len() as int, v));
            lemma_there_and_back(aux@, a0, ts, cs, nch, i, v);
            assert(pl(aux@, cs, c, i) == v[c]);
            assert(v[c] == w16(val(image@[pos(c, i, n, cs)]) * boost_of(*header)));
            lemma_exact(image@[j], boost_of(*header) as i16);
        }
    }
}
pub fn color_roundtrip_planar<T: Into<i16> + Copy + NumCast>(p: &ColorTransformProgram, image: &[T], header: &Header, aux: &mut [i16], back: &mut [T])
    requires reversible(p.channel_transforms@, hsize(*header)), vals_ok::<T>(), num_ok::<T>(), header.channels >= 1, header.layers >= 1, 0 < header.channel_size <= isize::MAX, image.len() == hsize(*header) * header.channel_size,
        old(aux).len() >= image.len(), old(back).len() >= old(aux).len(), old(back).len() <= isize::MAX, zero(old(aux)@, header.channel_size as int, hsize(*header)), forall|j: int| 0 <= j < image.len() ==> pixel(#[trigger] image@[j]),
    ensures final(back).len() == old(back).len(), forall|j: int| 0 <= j < image.len() ==> #[trigger] final(back)@[j] == image@[j],
{
    hide(reversible); hide(undone); hide(sane);
    let ghost cs = header.channel_size as int; let ghost nch = hsize(*header); let ghost n = header.channels as int; let ghost ts = p.channel_transforms@;
    proof { lemma_rev_sane(ts, nch); }
    p.transform(image, header, aux);
    let ghost a0 = aux@;
    p.detransform(aux, header, header.channel_size, back);
    proof {
        assert forall|j: int| 0 <= j < image.len() implies #[trigger] back@[j] == image@[j] by {
            let c = j / cs; let i = j % cs;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, cs);
            assert(0 <= c < nch && c * cs + i == j) by (nonlinear_arith) requires c == j / cs, j == cs * c + i, 0 <= i < cs, 0 <= j < nch * cs;
            let v = vec0(image@, g_planar(), n, cs, 1, boost_of(*header), nch, i);
            assert(col(a0, cs, nch, i) =~= fwd_px(ts, ts.len() as int, v));
            lemma_there_and_back(aux@, a0, ts, cs, nch, i, v);
            assert(pl(aux@, cs, c, i) == v[c]);
            assert(v[c] == w16(val(image@[c * cs + i * 1]) * boost_of(*header)));
            lemma_exact(image@[j], boost_of(*header) as i16);
        }
    }
}
'''
UNIT = Unit('color', [
    ('enum', H, 'Filter', 'prim'), ('enum', H, 'Quantization', 'prim'), ('enum', H, 'Encoder', 'prim'), ('enum', H, 'Intent', 'prim'), ('const', H, 'QUALITY_MAX'), ('struct', H, 'Header'),
    ('impl', H, 'Header', ['get_boost', 'get_channel_size']),
    ('fn', F, 'get_layer'), ('fn', F, 'cut_with_u8'),
    ('struct', F, 'ChannelTransformFactor'), ('struct', F, 'ChannelTransform'), ('struct', F, 'ColorTransformProgram'),
    ('impl', F, 'ColorTransformProgram', ['transform_base', 'transform_and_to_planar', 'transform', 'detransform_base', 'detransform_and_to_interleaved', 'detransform']),
], [CUT, LAYER, TB, TRI, TRP, DB, DI, DP] + GETS, prelude=PRE + TH + LAYOUT + BACKTH, post=POST)
