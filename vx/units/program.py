"""src/color_transform: the color transform program on the wire (C10), over the contracts of units bits and golomb."""
from extract import Unit, Fn, stubs, proved
from units import bits as B, golomb as G
F = 'src/color_transform/mod.rs'
PRE = r'''
pub enum DecompressError { IOErr(io::Error), Unsupported, Underflow, Malformed, TypeMismatch }
impl core::convert::From<io::Error> for DecompressError {
    fn from(e: io::Error) -> (r: Self) ensures r == DecompressError::IOErr(e) { DecompressError::IOErr(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for DecompressError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> DecompressError { DecompressError::IOErr(e) }
}
// the struct derives Clone over two integers
impl Clone for ChannelTransformFactor {
    fn clone(&self) -> (r: Self) ensures r == *self { ChannelTransformFactor { src_channel: self.src_channel, factor: self.factor } }
}
/// what a transform and a program are, apart from the vectors that hold them
pub struct TV { pub dest: int, pub fs: Seq<(int, int)>, pub den: int, pub chroma: bool }
pub open spec fn fv(f: ChannelTransformFactor) -> (int, int) { (f.src_channel as int, f.factor as int) }
pub open spec fn fvs(fs: Seq<ChannelTransformFactor>) -> Seq<(int, int)> { fs.map_values(|f: ChannelTransformFactor| fv(f)) }
pub open spec fn tv(t: ChannelTransform) -> TV { TV { dest: t.dest_channel as int, fs: fvs(t.channel_factors@), den: t.denominator as int, chroma: t.is_chroma } }
pub open spec fn tvs(ts: Seq<ChannelTransform>) -> Seq<TV> { ts.map_values(|t: ChannelTransform| tv(t)) }
pub open spec fn bv(b: ChannelTransformBuilder) -> TV { TV { dest: b.dest_channel as int, fs: fvs(b.channel_factors@), den: b.denominator as int, chroma: b.is_chroma } }
/// programs that have a wire form
pub open spec fn wire_t(t: TV, nch: int) -> bool {
    0 <= t.dest < nch && 1 <= t.den <= 32767 && (forall|j: int| 0 <= j < t.fs.len() ==> 0 <= (#[trigger] t.fs[j]).0 < nch && i32::MIN <= t.fs[j].1 <= i32::MAX)
}
pub open spec fn wire_p(ts: Seq<TV>, nch: int) -> bool { forall|k: int| 0 <= k < ts.len() ==> wire_t(#[trigger] ts[k], nch) }
/// the reversible class of C09
pub open spec fn rev_p(ts: Seq<TV>) -> bool {
    (forall|k: int, j: int| 0 <= k < ts.len() && 0 <= j < ts[k].fs.len() ==> (#[trigger] ts[k].fs[j]).0 != ts[k].dest) && (forall|k: int, j: int| 0 <= k < j < ts.len() ==> (#[trigger] ts[k]).dest != (#[trigger] ts[j]).dest)
}
// ---------------------------------------------------------------- the wire form
pub open spec fn enc_fs(fs: Seq<(int, int)>, n: int) -> Seq<bool> decreases n { if n <= 0 { seq![] } else { enc_fs(fs, n - 1) + enc_s(fs[n - 1].0, 2) + enc_s(fs[n - 1].1, 2) } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn enc_t(t: TV) -> Seq<bool> { enc_s(t.dest, 2) + enc_fs(t.fs, t.fs.len() as int) + enc_s(-1, 2) + enc_s(t.den, 2) + enc_s(b2i(t.chroma), 2) }
pub open spec fn enc_ts(ts: Seq<TV>, n: int) -> Seq<bool> decreases n { if n <= 0 { seq![] } else { enc_ts(ts, n - 1) + enc_t(ts[n - 1]) } }
pub open spec fn enc_p(ts: Seq<TV>) -> Seq<bool> { enc_ts(ts, ts.len() as int) + enc_s(-1, 2) }
/// chroma flags after n transforms
pub open spec fn flags(ts: Seq<TV>, n: int, c: Seq<bool>) -> Seq<bool> decreases n { if n <= 0 { c } else { flags(ts, n - 1, c).update(ts[n - 1].dest, ts[n - 1].chroma) } }
/// factors at position o of s, after those in fs: all factors and the position behind them, None when there are none to make out
pub open spec fn pf(s: Seq<bool>, o: int, nch: int, fs: Seq<(int, int)>) -> Option<(Seq<(int, int)>, int)> decreases s.len() - o {
    match sdec(s.skip(o), 2) {
        None => None,
        Some((c, n)) => if c < 0 { Some((fs, o + n)) } else if c >= nch { None } else {
            match sdec(s.skip(o + n), 2) {
                None => None,
                Some((f, m)) => if n <= 0 || m <= 0 || o + n + m > s.len() { None } else { pf(s, o + n + m, nch, fs.push((c as int, f as int))) },
            }
        },
    }
}
/// one transform
pub open spec fn pt(s: Seq<bool>, o: int, dest: int, nch: int) -> Option<(TV, int)> {
    match pf(s, o, nch, seq![]) {
        None => None,
        Some((fs, p)) => match sdec(s.skip(p), 2) {
            None => None,
            Some((d, n)) => if d <= 0 || d > 32767 { None } else {
                match sdec(s.skip(p + n), 2) {
                    None => None,
                    Some((c, m)) => Some((TV { dest, fs, den: d as int, chroma: c != 0 }, p + n + m)),
                }
            },
        },
    }
}
pub open spec fn pp(s: Seq<bool>, o: int, nch: int, ts: Seq<TV>, ch: Seq<bool>) -> Option<(Seq<TV>, Seq<bool>, int)> decreases s.len() - o {
    match sdec(s.skip(o), 2) {
        None => None,
        Some((c, n)) => if c < 0 { Some((ts, ch, o + n)) } else if c >= nch { None } else {
            match pt(s, o + n, c as int, nch) {
                None => None,
                Some((t, e)) => if e <= o || e > s.len() { None } else { pp(s, e, nch, ts.push(t), ch.update(c as int, t.chroma)) },
            }
        },
    }
}
pub proof fn lemma_sdec_len(s: Seq<bool>)
    ensures sdec(s, 2) matches Some((v, n)) ==> 0 < n <= s.len(),
{ lemma_udec_len(s, 2); }
pub proof fn lemma_pf_len(s: Seq<bool>, o: int, nch: int, fs: Seq<(int, int)>)
    requires 0 <= o <= s.len(),
    ensures pf(s, o, nch, fs) matches Some((r, e)) ==> o < e <= s.len(),
    decreases s.len() - o,
{
    lemma_sdec_len(s.skip(o));
    match sdec(s.skip(o), 2) { Some((c, n)) => if 0 <= c < nch { lemma_sdec_len(s.skip(o + n)); match sdec(s.skip(o + n), 2) { Some((f, m)) => lemma_pf_len(s, o + n + m, nch, fs.push((c as int, f as int))), None => {} } }, None => {} }
}
pub proof fn lemma_pt_len(s: Seq<bool>, o: int, dest: int, nch: int)
    requires 0 <= o <= s.len(),
    ensures pt(s, o, dest, nch) matches Some((t, e)) ==> o < e <= s.len(),
{
    lemma_pf_len(s, o, nch, seq![]);
    match pf(s, o, nch, seq![]) { Some((fs, p)) => { lemma_sdec_len(s.skip(p)); match sdec(s.skip(p), 2) { Some((d, n)) => lemma_sdec_len(s.skip(p + n)), None => {} } }, None => {} }
}
/// whatever is read is in range
pub proof fn lemma_pf_range(s: Seq<bool>, o: int, nch: int, fs: Seq<(int, int)>)
    requires forall|j: int| 0 <= j < fs.len() ==> 0 <= (#[trigger] fs[j]).0 < nch && i32::MIN <= fs[j].1 <= i32::MAX,
    ensures pf(s, o, nch, fs) matches Some((r, e)) ==> forall|j: int| 0 <= j < r.len() ==> 0 <= (#[trigger] r[j]).0 < nch && i32::MIN <= r[j].1 <= i32::MAX,
    decreases s.len() - o,
{
    match sdec(s.skip(o), 2) { Some((c, n)) => if 0 <= c < nch { match sdec(s.skip(o + n), 2) { Some((f, m)) => if n > 0 && m > 0 && o + n + m <= s.len() { lemma_pf_range(s, o + n + m, nch, fs.push((c as int, f as int))) }, None => {} } }, None => {} }
}
pub proof fn lemma_pp_range(s: Seq<bool>, o: int, nch: int, ts: Seq<TV>, ch: Seq<bool>)
    requires wire_p(ts, nch),
    ensures pp(s, o, nch, ts, ch) matches Some((r, c, e)) ==> wire_p(r, nch) && c.len() == ch.len(),
    decreases s.len() - o,
{
    match sdec(s.skip(o), 2) { Some((c, n)) => if 0 <= c < nch {
        lemma_pf_range(s, o + n, nch, seq![]);
        match pt(s, o + n, c as int, nch) { Some((t, e)) => if o < e <= s.len() { lemma_pp_range(s, e, nch, ts.push(t), ch.update(c as int, t.chroma)); }, None => {} }
    }, None => {} }
}
// ---------------------------------------------------------------- what was written is read
pub open spec fn at_pos(s: Seq<bool>, o: int, e: Seq<bool>) -> bool { 0 <= o && o + e.len() <= s.len() && s.subrange(o, o + e.len()) =~= e }
pub proof fn lemma_at_split(s: Seq<bool>, o: int, a: Seq<bool>, b: Seq<bool>)
    requires at_pos(s, o, a + b), ensures at_pos(s, o, a), at_pos(s, o + a.len(), b),
{
    let w = s.subrange(o, o + (a + b).len());
    assert(s.subrange(o, o + a.len()) =~= a) by { assert forall|i: int| 0 <= i < a.len() implies s[o + i] == a[i] by { assert(w[i] == (a + b)[i]); } }
    assert(s.subrange(o + a.len(), o + a.len() + b.len()) =~= b) by { assert forall|i: int| 0 <= i < b.len() implies s[o + a.len() + i] == b[i] by { assert(w[a.len() + i] == (a + b)[a.len() + i]); } }
}
pub proof fn lemma_at_s(s: Seq<bool>, o: int, x: int)
    requires at_pos(s, o, enc_s(x, 2)), i32::MIN <= x <= i32::MAX,
    ensures sdec(s.skip(o), 2) == Some((x as i32, enc_s(x, 2).len() as int)), 0 < enc_s(x, 2).len(),
{
    let e = enc_s(x, 2);
    lemma_s_round(x, 2, s.skip(o + e.len()));
    assert(s.skip(o) =~= e + s.skip(o + e.len()));
    lemma_sdec_len(s.skip(o));
}
pub proof fn lemma_fs_cons(fs: Seq<(int, int)>, n: int)
    requires 0 < n <= fs.len(),
    ensures enc_fs(fs, n) =~= (enc_s(fs[0].0, 2) + enc_s(fs[0].1, 2)) + enc_fs(fs.skip(1), n - 1),
    decreases n,
{
    if n > 1 { lemma_fs_cons(fs, n - 1); assert(fs.skip(1)[n - 2] == fs[n - 1]); } else { assert(enc_fs(fs, 0) =~= seq![]); assert(enc_fs(fs.skip(1), 0) =~= seq![]); }
}
pub proof fn lemma_ts_cons(ts: Seq<TV>, n: int)
    requires 0 < n <= ts.len(),
    ensures enc_ts(ts, n) =~= enc_t(ts[0]) + enc_ts(ts.skip(1), n - 1),
    decreases n,
{
    if n > 1 { lemma_ts_cons(ts, n - 1); assert(ts.skip(1)[n - 2] == ts[n - 1]); } else { assert(enc_ts(ts, 0) =~= seq![]); assert(enc_ts(ts.skip(1), 0) =~= seq![]); }
}
pub proof fn lemma_fs_round(s: Seq<bool>, o: int, nch: int, fs: Seq<(int, int)>, acc: Seq<(int, int)>)
    requires at_pos(s, o, enc_fs(fs, fs.len() as int) + enc_s(-1, 2)), nch <= i32::MAX, forall|j: int| 0 <= j < fs.len() ==> 0 <= (#[trigger] fs[j]).0 < nch && i32::MIN <= fs[j].1 <= i32::MAX,
    ensures pf(s, o, nch, acc) == Some((acc + fs, o + enc_fs(fs, fs.len() as int).len() + enc_s(-1, 2).len())),
    decreases fs.len(),
{
    let n = fs.len() as int;
    if n == 0 {
        assert(enc_fs(fs, n) + enc_s(-1, 2) =~= enc_s(-1, 2)); lemma_at_s(s, o, -1); assert(acc + fs =~= acc);
    } else {
        lemma_fs_cons(fs, n);
        let a = enc_s(fs[0].0, 2); let b = enc_s(fs[0].1, 2); let t = fs.skip(1); let r = enc_fs(t, n - 1) + enc_s(-1, 2);
        assert(enc_fs(fs, n) + enc_s(-1, 2) =~= a + (b + r));
        lemma_at_split(s, o, a, b + r); lemma_at_split(s, o + a.len(), b, r);
        lemma_at_s(s, o, fs[0].0); lemma_at_s(s, o + a.len(), fs[0].1);
        assert forall|j: int| 0 <= j < t.len() implies 0 <= (#[trigger] t[j]).0 < nch && i32::MIN <= t[j].1 <= i32::MAX by { assert(t[j] == fs[j + 1]); }
        lemma_fs_round(s, o + a.len() + b.len(), nch, t, acc.push(fs[0]));
        assert(acc.push(fs[0]) + t =~= acc + fs);
        assert((fs[0].0, fs[0].1) == fs[0]);
    }
}
pub proof fn lemma_t_round(s: Seq<bool>, o: int, nch: int, t: TV)
    requires at_pos(s, o, enc_t(t)), wire_t(t, nch), nch <= i32::MAX,
    ensures sdec(s.skip(o), 2) == Some((t.dest as i32, enc_s(t.dest, 2).len() as int)), pt(s, o + enc_s(t.dest, 2).len(), t.dest, nch) == Some((t, o + enc_t(t).len())), enc_t(t).len() > 0,
{
    let a = enc_s(t.dest, 2); let b = enc_fs(t.fs, t.fs.len() as int) + enc_s(-1, 2); let c = enc_s(t.den, 2); let d = enc_s(b2i(t.chroma), 2);
    assert(enc_t(t) =~= a + (b + (c + d)));
    lemma_at_split(s, o, a, b + (c + d)); lemma_at_split(s, o + a.len(), b, c + d); lemma_at_split(s, o + a.len() + b.len(), c, d);
    lemma_at_s(s, o, t.dest); lemma_fs_round(s, o + a.len(), nch, t.fs, seq![]);
    assert(Seq::<(int, int)>::empty() + t.fs =~= t.fs);
    lemma_at_s(s, o + a.len() + b.len(), t.den); lemma_at_s(s, o + a.len() + b.len() + c.len(), b2i(t.chroma));
}
pub proof fn lemma_flags_cons(ts: Seq<TV>, n: int, c: Seq<bool>)
    requires 0 < n <= ts.len(),
    ensures flags(ts, n, c) == flags(ts.skip(1), n - 1, c.update(ts[0].dest, ts[0].chroma)),
    decreases n,
{ if n > 1 { lemma_flags_cons(ts, n - 1, c); assert(ts.skip(1)[n - 2] == ts[n - 1]); } else { assert(flags(ts, 0, c) == c); } }
pub proof fn lemma_flags_len(ts: Seq<TV>, n: int, c: Seq<bool>) ensures flags(ts, n, c).len() == c.len(), decreases n, { if n > 0 { lemma_flags_len(ts, n - 1, c); } }
pub proof fn lemma_p_round(s: Seq<bool>, o: int, nch: int, ts: Seq<TV>, acc: Seq<TV>, ch: Seq<bool>)
    requires at_pos(s, o, enc_p(ts)), wire_p(ts, nch), nch <= i32::MAX,
    ensures pp(s, o, nch, acc, ch) == Some((acc + ts, flags(ts, ts.len() as int, ch), o + enc_p(ts).len())),
    decreases ts.len(),
{
    let n = ts.len() as int;
    if n == 0 { assert(enc_p(ts) =~= enc_s(-1, 2)); lemma_at_s(s, o, -1); assert(acc + ts =~= acc); }
    else {
        lemma_ts_cons(ts, n);
        let a = enc_t(ts[0]); let t = ts.skip(1);
        assert(enc_p(ts) =~= a + enc_p(t));
        lemma_at_split(s, o, a, enc_p(t));
        lemma_t_round(s, o, nch, ts[0]);
        assert forall|k: int| 0 <= k < t.len() implies wire_t(#[trigger] t[k], nch) by { assert(t[k] == ts[k + 1]); }
        lemma_p_round(s, o + a.len(), nch, t, acc.push(ts[0]), ch.update(ts[0].dest, ts[0].chroma));
        lemma_flags_cons(ts, n, ch);
        assert(acc.push(ts[0]) + t =~= acc + ts);
    }
}
pub proof fn lemma_pp_len(s: Seq<bool>, o: int, nch: int, ts: Seq<TV>, ch: Seq<bool>)
    requires 0 <= o <= s.len(),
    ensures pp(s, o, nch, ts, ch) matches Some((r, c, e)) ==> o < e <= s.len(),
    decreases s.len() - o,
{
    lemma_sdec_len(s.skip(o));
    match sdec(s.skip(o), 2) { Some((c, n)) => if 0 <= c < nch { match pt(s, o + n, c as int, nch) { Some((t, e)) => if o < e <= s.len() { lemma_pp_len(s, e, nch, ts.push(t), ch.update(c as int, t.chroma)); }, None => {} } }, None => {} }
}
pub open spec fn b0e(a: Seq<bool>, b: Seq<bool>) -> bool { a == b }
pub proof fn lemma_wire_t(t: TV, nch: int) requires wire_t(t, nch), ensures 0 <= t.dest < nch, 1 <= t.den <= 32767 {}
pub proof fn lemma_wire_f(t: TV, nch: int, j: int) requires wire_t(t, nch), 0 <= j < t.fs.len(), ensures 0 <= t.fs[j].0 < nch && i32::MIN <= t.fs[j].1 <= i32::MAX {}
pub proof fn lemma_fvs(fs: Seq<ChannelTransformFactor>) ensures fvs(fs).len() == fs.len(), forall|j: int| 0 <= j < fs.len() ==> #[trigger] fvs(fs)[j] == fv(fs[j]) {}
// ---------------------------------------------------------------- words
pub proof fn lemma_wbits_inj(a: Seq<u32>, b: Seq<u32>)
    requires wbits(a) =~= wbits(b), ensures a =~= b,
{
    assert(wbits(a).len() == 32 * a.len() && wbits(b).len() == 32 * b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        let x = a[i]; let y = b[i];
        assert forall|k: u32| k < 32 implies #[trigger] ((x >> k) & 1u32) == (y >> k) & 1u32 by {
            let q = 32 * i + 31 - k;
            assert(wbits(a)[q] == wbits(b)[q]); assert(q / 32 == i && q % 32 == 31 - k);
            assert((x >> k) & 1u32 <= 1 && (y >> k) & 1u32 <= 1) by (bit_vector);
        }
        assert(x == y) by { bv_same(x, y); }
    }
}
pub proof fn bv_same(x: u32, y: u32) requires forall|k: u32| k < 32 ==> #[trigger] ((x >> k) & 1u32) == (y >> k) & 1u32, ensures x == y,
{
    if x != y {
        bv_same_n(x, y, 32);
    }
}
pub proof fn bv_same_n(x: u32, y: u32, n: u32) requires n <= 32, forall|k: u32| k < 32 ==> #[trigger] ((x >> k) & 1u32) == (y >> k) & 1u32, ensures n < 32 ==> x & sub(1u32 << n, 1) == y & sub(1u32 << n, 1), n == 32 ==> x == y, decreases n,
{
    if n == 0 { assert(x & sub(1u32 << 0u32, 1) == y & sub(1u32 << 0u32, 1)) by (bit_vector); }
    else {
        let m = (n - 1) as u32;
        bv_same_n(x, y, m);
        assert((x >> m) & 1u32 == (y >> m) & 1u32);
        if n < 32 { assert(x & sub(1u32 << n, 1) == y & sub(1u32 << n, 1)) by (bit_vector) requires n < 32, n > 0, m == sub(n, 1), x & sub(1u32 << m, 1) == y & sub(1u32 << m, 1), (x >> m) & 1u32 == (y >> m) & 1u32; }
        else { assert(x == y) by (bit_vector) requires m == 31, x & sub(1u32 << m, 1) == y & sub(1u32 << m, 1), (x >> m) & 1u32 == (y >> m) & 1u32; }
    }
}
pub proof fn lemma_wbits_skip(w: Seq<u32>, k: int)
    requires 0 <= k <= w.len(), ensures wbits(w).skip(32 * k) =~= wbits(w.skip(k)),
{ assert forall|i: int| 0 <= i < 32 * (w.len() - k) implies wbits(w).skip(32 * k)[i] == wbits(w.skip(k))[i] by { assert((i + 32 * k) / 32 == i / 32 + k && (i + 32 * k) % 32 == i % 32); } }
/// words taken by n bits
pub open spec fn word_count(n: int) -> int { (n + 31) / 32 }
'''
PRESETS = ['yuv444_to_yuv444', 'rgb_to_yuv', 'bgr_to_a710', 'rgb_to_a710']
BI = ['with_dest_channel', 'set_chroma', 'add_channel_factor', 'set_denominator', 'build']
BUILDER = [
    Fn('ChannelTransformBuilder::with_dest_channel', 'r', '        ensures bv(r) == (TV { dest: dest_channel as int, fs: seq![], den: 1, chroma: false })', entry='        proof { assert(fvs(Seq::<ChannelTransformFactor>::empty()) =~= seq![]); }\n'),
    Fn('ChannelTransformBuilder::set_chroma', 'r', '        ensures bv(*r) == (TV { chroma: true, ..bv(*old(self)) }), *final(self) == *final(r)'),
    Fn('ChannelTransformBuilder::add_channel_factor', 'r', '        ensures bv(*r) == (TV { fs: bv(*old(self)).fs.push((src_channel as int, factor as int)), ..bv(*old(self)) }), *final(self) == *final(r)',
       entry='''
        proof { let f = ChannelTransformFactor { src_channel, factor }; assert(fvs(self.channel_factors@.push(f)) =~= fvs(self.channel_factors@).push(fv(f))); }'''),
    Fn('ChannelTransformBuilder::set_denominator', 'r', '        requires denominator > 0,\n        ensures bv(*r) == (TV { den: denominator as int, ..bv(*old(self)) }), *final(self) == *final(r)'),
    Fn('ChannelTransformBuilder::build', 'r', '        ensures tv(r) == bv(*self)'),
]
SUB = [(r'impl io::(Write|Read)\b', r'impl \1BytesExt', 1), (r'BitsIO(Writer|Reader)::new\(&mut buffer\)', r'BitsIO\1::new(buffer)', 1)]
PROG = [
    Fn('ColorTransformProgram::new', 'r', '        ensures tvs(r.channel_transforms@) == Seq::<TV>::empty()'),
    Fn('ColorTransformProgram::add_channel_transform', 'r', '        ensures tvs((*r).channel_transforms@) == tvs(old(self).channel_transforms@).push(tv(channel_transform)), *final(self) == *final(r)'),
    Fn('ColorTransformProgram::encode', 'r', '''        requires wire_p(tvs(self.channel_transforms@), channels as int), channels <= i32::MAX, old(buffer).wok(),
        ensures r matches Ok(f) ==> ({ let ts = tvs(self.channel_transforms@);
            f@ =~= flags(ts, ts.len() as int, Seq::new(channels as nat, |i: int| false)) && final(buffer).wok() && final(buffer).id() == old(buffer).id()
            && exists|pad: int| 0 <= pad < 32 && wbits(final(buffer).words()) =~= wbits(old(buffer).words()) + enc_p(ts) + #[trigger] zeros(pad) })''', attrs='#[verifier::spinoff_prover]', subst=SUB, entry='''
        hide(enc_s); hide(wire_t); hide(fvs);
        let ghost w0 = wbits(buffer.words()); let ghost end = (final(buffer).words(), final(buffer).wok(), final(buffer).id(), buffer.id()); let ghost ts = tvs(self.channel_transforms@); let ghost none = Seq::new(channels as nat, |i: int| false);''', loops=[
        dict(inv='''invariant 0 <= vx_n0 <= self.channel_transforms.len(), ts == tvs(self.channel_transforms@), wire_p(ts, channels as int), channels <= i32::MAX, stream.wwf(), stream.end() == end, stream.bits() == w0 + enc_ts(ts, vx_n0 as int), w0 == wbits(old(buffer).words()), is_chroma@ == flags(ts, vx_n0 as int, none), is_chroma.len() == channels, none.len() == channels,
            decreases self.channel_transforms.len() - vx_n0''', begin='''
            let ghost k = vx_n0 - 1; let ghost t = ts[k];
            proof { assert(t == tv(self.channel_transforms@[k])); assert(*channel_transform == self.channel_transforms@[k]); lemma_wire_t(t, channels as int); lemma_flags_len(ts, k, none); lemma_fvs(channel_transform.channel_factors@); assert(b0e(stream.bits(), w0 + enc_ts(ts, k))); }
            let ghost b0 = w0 + enc_ts(ts, k); let ghost b1 = b0 + enc_s(t.dest, 2);''', end='''
            proof { assert(stream.bits() =~= w0 + enc_ts(ts, k + 1)) by {
                let a = enc_s(t.dest, 2); let b = enc_fs(t.fs, t.fs.len() as int); let c = enc_s(-1, 2); let d = enc_s(t.den, 2); let e = enc_s(b2i(t.chroma), 2);
                assert(stream.bits() =~= ((((w0 + enc_ts(ts, k)) + a) + b) + c + d) + e);
                assert(enc_t(t) =~= a + b + c + d + e);
                assert(enc_ts(ts, k + 1) == enc_ts(ts, k) + enc_t(t));
            } }'''),
        dict(inv='''invariant 0 <= vx_n1 <= t.fs.len(), *channel_transform == self.channel_transforms@[k], t == tv(*channel_transform), wire_t(t, channels as int), channels <= i32::MAX, t.fs.len() == channel_transform.channel_factors.len(), stream.wwf(), stream.end() == end, stream.bits() == b1 + enc_fs(t.fs, vx_n1 as int),
            decreases t.fs.len() - vx_n1''', begin='''
                let ghost j = vx_n1 - 1;
                proof { lemma_fvs(channel_transform.channel_factors@); lemma_wire_f(t, channels as int, j); assert(t.fs[j] == fv(*channel_factor)); }''', end='''
                proof { let p = enc_fs(t.fs, j); assert(stream.bits() =~= (b1 + p) + enc_s(t.fs[j].0, 2) + enc_s(t.fs[j].1, 2)); assert(enc_fs(t.fs, j + 1) == p + enc_s(t.fs[j].0, 2) + enc_s(t.fs[j].1, 2)); }'''),
        ], hints=[('after', 'stream . flush_write_word', 1, '''
        proof {
            let pad = stream.bits().len() - (w0 + enc_p(ts)).len();
            assert(stream.bits() =~= wbits(stream.write_stream.words()));
            assert(stream.bits() =~= w0 + enc_p(ts) + zeros(pad));
        }''')]),
    Fn('ColorTransformProgram::decode', 'r', '''        ensures final(is_chroma).len() == old(is_chroma).len(), match pp(wbits(old(buffer).words()), 0, old(is_chroma).len() as int, seq![], old(is_chroma)@) {
            None => r is Err,
            Some((ts, ch, e)) => r matches Ok(p) && tvs(p.channel_transforms@) =~= ts && final(is_chroma)@ =~= ch && 0 < e && word_count(e) <= old(buffer).words().len() && final(buffer).words() =~= old(buffer).words().skip(word_count(e)) && final(buffer).behind() == old(buffer).behind(),
        }''', attrs='#[verifier::spinoff_prover]', subst=SUB, entry='''
        hide(sdec); hide(fvs);
        let ghost w0 = buffer.words(); let ghost r0 = wbits(w0); let ghost end = (final(buffer).words(), final(buffer).behind()); let ghost bh = buffer.behind(); let ghost nch = is_chroma.len() as int; let ghost ch0 = is_chroma@; let ghost mut off = 0int;
        proof { lemma_pp_len(r0, 0, nch, seq![], ch0); assert(r0.skip(0) =~= r0); }''', loops=[
        dict(inv='''invariant_except_break pp(r0, 0, nch, seq![], ch0) == pp(r0, off, nch, tvs(color_transform_program.channel_transforms@), is_chroma@),
                invariant stream.rwf(), stream.end() == end, stream.behind() == bh, ch0 == old(is_chroma)@, w0 == old(buffer).words(), is_chroma.len() == nch, nch == old(is_chroma).len(), r0 == wbits(w0), nch <= usize::MAX, 0 <= off <= r0.len(), stream.rest() =~= r0.skip(off), r0 == wbits(w0),
                        ensures pp(r0, 0, nch, seq![], ch0) == Some((tvs(color_transform_program.channel_transforms@), is_chroma@, off)),
            decreases r0.len() - off''', begin='''
            let ghost o1 = off; let ghost ts = tvs(color_transform_program.channel_transforms@); let ghost ch = is_chroma@; let ghost d1 = sdec(r0.skip(off), 2);
            proof { lemma_sdec_len(r0.skip(off)); if d1 is Some { off = off + (d1->0).1; assert(r0.skip(o1).skip((d1->0).1) =~= r0.skip(off)); } }
            let ghost o2 = off;''', end='''
            proof { lemma_pt_len(r0, o2, dest_channel as int, nch); }'''),
        dict(inv='''invariant_except_break pf(r0, o2, nch, seq![]) == pf(r0, off, nch, bv(channel_transform_builder).fs),
                invariant stream.rwf(), stream.end() == end, stream.behind() == bh, ch0 == old(is_chroma)@, w0 == old(buffer).words(), is_chroma.len() == nch, nch == old(is_chroma).len(), r0 == wbits(w0), nch <= usize::MAX, 0 <= o1 < o2 <= off <= r0.len(), stream.rest() =~= r0.skip(off), is_chroma@ == ch, ts == tvs(color_transform_program.channel_transforms@), d1 == sdec(r0.skip(o1), 2), d1 == Some((dest_channel as i32, o2 - o1)), dest_channel <= i32::MAX, 0 <= dest_channel < nch,
                pp(r0, 0, nch, seq![], ch0) == pp(r0, o1, nch, ts, ch), bv(channel_transform_builder) == (TV { dest: dest_channel as int, fs: bv(channel_transform_builder).fs, den: 1, chroma: false }),
                        ensures pf(r0, o2, nch, seq![]) == Some((bv(channel_transform_builder).fs, off)),
            decreases r0.len() - off''', begin='''
                let ghost f1 = sdec(r0.skip(off), 2); let ghost p1 = off; let ghost fs = bv(channel_transform_builder).fs;
                proof { lemma_sdec_len(r0.skip(off)); if f1 is Some { off = off + (f1->0).1; assert(r0.skip(p1).skip((f1->0).1) =~= r0.skip(off)); } }'''),
        ], hints=[
        ('before', 'let factor = signed_decode', 1, '''
                let ghost f2 = sdec(r0.skip(off), 2); let ghost p2 = off;
                proof { lemma_sdec_len(r0.skip(off)); if f2 is Some { off = off + (f2->0).1; assert(r0.skip(p2).skip((f2->0).1) =~= r0.skip(off)); } }'''),
        ('before', 'let denominator = signed_decode', 1, '''
            let ghost q = off; let ghost g1 = sdec(r0.skip(off), 2);
            proof { lemma_sdec_len(r0.skip(off)); if g1 is Some { off = off + (g1->0).1; assert(r0.skip(q).skip((g1->0).1) =~= r0.skip(off)); } }'''),
        ('before', 'let channel_is_chroma = signed_decode', 1, '''
            let ghost q2 = off; let ghost g2 = sdec(r0.skip(off), 2);
            proof { lemma_sdec_len(r0.skip(off)); if g2 is Some { off = off + (g2->0).1; assert(r0.skip(q2).skip((g2->0).1) =~= r0.skip(off)); } }'''),
        ('before', 'stream . flush_read_word', 1, '''
        let ghost pend = stream.pending() as int; let ghost k = word_count(off);
        proof {
            assert(stream.rest().len() == pend + 32 * stream.read_stream.words().len());
            assert(off + pend + 32 * stream.read_stream.words().len() == 32 * w0.len());
            assert(off + pend == 32 * k && 0 <= k <= w0.len());
            lemma_wbits_skip(w0, k);
            assert(r0.skip(off).skip(pend) =~= r0.skip(32 * k));
        }'''),
        ('after', 'stream . flush_read_word', 1, '''
        proof { assert(stream.rest() =~= wbits(stream.read_stream.words())); lemma_wbits_inj(stream.read_stream.words(), w0.skip(k)); }'''),
        ]),
] + [Fn('ColorTransformProgram::' + n, 'r', '        ensures wire_p(tvs(r.channel_transforms@), 3), rev_p(tvs(r.channel_transforms@))', entry='        hide(fvs);', exit='') for n in PRESETS]
POST = r'''
/// what the words of an encoded program must be for the reader: the bits of the program, then less than one word of zeros
pub open spec fn written(ts: Seq<TV>, ws: Seq<u32>) -> bool { exists|pad: int| 0 <= pad < 32 && wbits(ws) =~= enc_p(ts) + #[trigger] zeros(pad) }
/// what encode appends to the words w0
pub proof fn lemma_written(ts: Seq<TV>, w0: Seq<u32>, w: Seq<u32>)
    requires exists|pad: int| 0 <= pad < 32 && wbits(w) =~= wbits(w0) + enc_p(ts) + #[trigger] zeros(pad),
    ensures w.len() >= w0.len(), w.take(w0.len() as int) == w0, written(ts, w.skip(w0.len() as int)), w.len() - w0.len() == word_count(enc_p(ts).len() as int),
{
    let pad = choose|pad: int| 0 <= pad < 32 && wbits(w) =~= wbits(w0) + enc_p(ts) + #[trigger] zeros(pad);
    let n = w0.len() as int;
    assert(wbits(w).len() == 32 * w.len() && wbits(w0).len() == 32 * n && zeros(pad).len() == pad);
    assert(w =~= w.take(n) + w.skip(n));
    lemma_wbits_take(w.take(n), w.skip(n));
    assert(wbits(w.take(n)).len() == 32 * n);
    assert(wbits(w.take(n)) =~= wbits(w).take(32 * n));
    assert(wbits(w).take(32 * n) =~= wbits(w0));
    lemma_wbits_inj(w.take(n), w0);
    assert(wbits(w.skip(n)) =~= wbits(w).skip(32 * n));
    assert(wbits(w).skip(32 * n) =~= enc_p(ts) + zeros(pad));
}
pub proof fn lemma_written_len(ts: Seq<TV>, a: Seq<u32>)
    requires written(ts, a), ensures a.len() == word_count(enc_p(ts).len() as int),
{
    let pad = choose|pad: int| 0 <= pad < 32 && wbits(a) =~= enc_p(ts) + #[trigger] zeros(pad);
    assert(wbits(a).len() == 32 * a.len() && zeros(pad).len() == pad);
}
/// there is one such sequence of words
pub proof fn lemma_written_one(ts: Seq<TV>, a: Seq<u32>, b: Seq<u32>)
    requires written(ts, a), written(ts, b),
    ensures a == b,
{
    let p = choose|pad: int| 0 <= pad < 32 && wbits(a) =~= enc_p(ts) + #[trigger] zeros(pad);
    let q = choose|pad: int| 0 <= pad < 32 && wbits(b) =~= enc_p(ts) + #[trigger] zeros(pad);
    assert(wbits(a).len() == 32 * a.len() && zeros(p).len() == p && wbits(b).len() == 32 * b.len() && zeros(q).len() == q);
    lemma_wbits_inj(a, b);
}
/// it is read as the program, whatever follows
pub proof fn lemma_reads(ts: Seq<TV>, ws: Seq<u32>, tail: Seq<u32>, nch: int, none: Seq<bool>)
    requires written(ts, ws), wire_p(ts, nch), nch <= i32::MAX, none.len() == nch,
    ensures pp(wbits(ws + tail), 0, nch, seq![], none) == Some((ts, flags(ts, ts.len() as int, none), enc_p(ts).len() as int)), word_count(enc_p(ts).len() as int) == ws.len(),
{
    let s = wbits(ws + tail);
    let pad = choose|pad: int| 0 <= pad < 32 && wbits(ws) =~= enc_p(ts) + #[trigger] zeros(pad);
    lemma_wbits_take(ws, tail);
    assert(s =~= enc_p(ts) + zeros(pad) + wbits(tail));
    assert(s.subrange(0, enc_p(ts).len() as int) =~= enc_p(ts));
    lemma_p_round(s, 0, nch, ts, seq![], none);
    assert(Seq::<TV>::empty() + ts =~= ts);
    lemma_written_len(ts, ws);
}
/// C10, writing half, as a client of encode's contract
pub fn program_writes<W: WriteBytesExt>(p: &ColorTransformProgram, w: &mut W, n: usize) -> (r: io::Result<Vec<bool>>)
    requires wire_p(tvs(p.channel_transforms@), n as int), n <= i32::MAX, old(w).words() == Seq::<u32>::empty(), old(w).wok(),
    ensures r matches Ok(f) ==> written(tvs(p.channel_transforms@), final(w).words()) && f@ =~= flags(tvs(p.channel_transforms@), tvs(p.channel_transforms@).len() as int, Seq::new(n as nat, |i: int| false)),
{
    hide(wire_t); hide(enc_s); hide(sdec); hide(fvs);
    let e = p.encode(n, w);
    proof {
        assert(wbits(Seq::<u32>::empty()) =~= seq![]);
        if e is Ok {
            let ts = tvs(p.channel_transforms@);
            let pad = choose|pad: int| 0 <= pad < 32 && wbits(w.words()) =~= wbits(Seq::<u32>::empty()) + enc_p(ts) + #[trigger] zeros(pad);
            assert(Seq::<bool>::empty() + enc_p(ts) =~= enc_p(ts));
            assert(wbits(w.words()) =~= enc_p(ts) + zeros(pad));
        }
    }
    e
}
/// C10, reading half, as a client of decode's contract: whatever follows the written words, decode returns an equal program, sets
/// exactly the flags the writer reported, and leaves exactly what followed
pub fn program_reads_back<R: ReadBytesExt>(r: &mut R, flags_: &mut [bool], Ghost(ts): Ghost<Seq<TV>>, Ghost(ws): Ghost<Seq<u32>>, Ghost(tail): Ghost<Seq<u32>>)
    requires old(flags_).len() <= i32::MAX, wire_p(ts, old(flags_).len() as int), written(ts, ws), old(r).words() =~= ws + tail, forall|i: int| 0 <= i < old(flags_).len() ==> !(#[trigger] old(flags_)@[i]),
{
    hide(wire_t); hide(enc_s); hide(sdec); hide(fvs); hide(pp);
    let ghost fl = flags(ts, ts.len() as int, Seq::new(flags_.len() as nat, |i: int| false));
    proof {
        assert(r.words() =~= ws + tail);
        lemma_reads(ts, ws, tail, flags_.len() as int, flags_@);
        assert(flags_@ =~= Seq::new(flags_.len() as nat, |i: int| false));
        assert((ws + tail).skip(ws.len() as int) =~= tail);
    }
    let d = ColorTransformProgram::decode(r, flags_);
    assert(d is Ok);
    if let Ok(q) = d { assert(tvs(q.channel_transforms@) =~= ts); assert(flags_@ =~= fl); assert(r.words() =~= tail); }
}
pub proof fn lemma_wbits_take(a: Seq<u32>, b: Seq<u32>) ensures wbits(a + b) =~= wbits(a) + wbits(b),
{ assert forall|i: int| 0 <= i < 32 * (a.len() + b.len()) implies wbits(a + b)[i] == (wbits(a) + wbits(b))[i] by { if i >= 32 * a.len() { assert((i - 32 * a.len()) / 32 == i / 32 - a.len() && (i - 32 * a.len()) % 32 == i % 32); } } }
/// C10 for any words: an error or a program in range
pub fn program_read_any<R: ReadBytesExt>(r: &mut R, flags_: &mut [bool])
{
    proof { lemma_pp_range(wbits(r.words()), 0, flags_.len() as int, seq![], flags_@); }
    let ghost n = flags_.len() as int;
    let d = ColorTransformProgram::decode(r, flags_);
    if let Ok(q) = d { assert(wire_p(tvs(q.channel_transforms@), n)); }
}
'''
UNIT = Unit('program', [
    ('struct', B.F, 'BitsIOWriter'), ('struct', B.F, 'BitsIOReader'),
] + B.TRAIT_ITEMS + [
    ('impl', B.F, 'BitsIOWriter', ['new']), ('impl', B.F, 'BitsIOWriter@BitsWriter', ['put_bits', 'flush_write_word'], B.W_IMPL),
    ('impl', B.F, 'BitsIOReader', ['new']), ('impl', B.F, 'BitsIOReader@BitsReader', ['get_bits', 'get_zeros', 'flush_read_word'], B.R_IMPL),
    ('fn', G.F, 'signed_code'), ('fn', G.F, 'signed_decode'),
    ('struct', F, 'ChannelTransformFactor'), ('struct', F, 'ChannelTransform'), ('struct', F, 'ChannelTransformBuilder'), ('struct', F, 'ColorTransformProgram'),
    ('impl', F, 'ChannelTransformBuilder', BI),
    ('impl', F, 'ColorTransformProgram', ['new', 'add_channel_transform', 'encode', 'decode'] + PRESETS),
], B.traits() + stubs([c for c in B.contracts[len(B.traits()):] if c.path != 'BitsIOReader::next_u32'], 'bits') + stubs([c for c in G.contracts() if c.path in ('signed_code', 'signed_decode')], 'golomb') + BUILDER + PROG,
  post=POST, prelude=proved(B.THEORY, 'bits') + B.TRAITS_IO + proved(G.THEORY, 'golomb') + PRE)
