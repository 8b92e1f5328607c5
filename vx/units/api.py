"""src/lib.rs: compress_simple and decompress_simple (C01, C12 - C16), over the contracts of the header (unit header_wire), of the program (unit program), of the color
transforms (unit color) and of the wrappers (unit auxio)."""
import re
from extract import Unit, Fn, stubs, proved
from units import header as H, header_common as HC, header_wire as W, payload as P, auxd as A, auxio as X, decomp as D, comp as C, program as G, color as K, color_common as KC, bits as B, golomb as U
from units.comp_theory import BYTES
F, L = 'src/color_transform/mod.rs', 'src/lib.rs'
spec, lem = X.spec, X.lem
IO = r'''
pub mod io {
    use vstd::prelude::*;
    #[derive(Debug)]
    pub struct Error { pub x: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
    /// what unit header_wire says of sources and sinks of bytes
    pub trait Read { spec fn rem(&self) -> Seq<u8>; }
    pub trait Write { spec fn out(&self) -> Seq<u8>; spec fn space(&self) -> int; #[verifier::prophetic] spec fn id(&self) -> (nat, Seq<u8>); }
}
/// what unit program says of sources and sinks of words
pub trait ReadBytesExt { spec fn words(&self) -> Seq<u32>; spec fn behind(&self) -> Seq<u8>; }
pub trait WriteBytesExt { spec fn words(&self) -> Seq<u32>; spec fn wok(&self) -> bool; #[verifier::prophetic] spec fn id(&self) -> (nat, Seq<u8>); }
// ASSUMED: byteorder and std read little-endian integers from a byte slice, and fail if and only if it is too short
impl ReadBytesExt for &[u8] {
    open spec fn words(&self) -> Seq<u32> { words_of(self@) }
    open spec fn behind(&self) -> Seq<u8> { self@.skip(self@.len() as int / 4 * 4) }
}
impl io::Read for &[u8] { open spec fn rem(&self) -> Seq<u8> { self@ } }
// ASSUMED: byteorder and std write little-endian integers to a byte slice, and fail if and only if it is full
/// a `&mut [u8]` that is written through io::Write: what was written and what is left, as one slice and a position
pub struct VxSink<'a> { pub buf: &'a mut [u8], pub pos: usize }
impl<'a> VxSink<'a> {
    pub open spec fn left(&self) -> int { self.buf@.len() - self.pos }
    /// what is left of the slice
    pub fn len(&self) -> (r: usize)
        requires self.pos <= self.buf.len(),
        ensures r == self.left(),
    { self.buf.len() - self.pos }
    pub fn rest(self) -> (r: &'a mut [u8])
        requires self.pos <= self.buf.len(),
        ensures r@ == old(self.buf)@.skip(self.pos as int), final(self.buf)@ == old(self.buf)@.take(self.pos as int) + final(r)@,
    { let p = self.pos; let (a, b) = self.buf.split_at_mut(p); b }
}
impl<'a> WriteBytesExt for VxSink<'a> {
    open spec fn words(&self) -> Seq<u32> { words_of(self.buf@.take(self.pos as int)) }
    open spec fn wok(&self) -> bool { self.pos <= self.buf.len() && self.pos % 4 == 0 }
    #[verifier::prophetic] open spec fn id(&self) -> (nat, Seq<u8>) { (self.buf@.len(), final(self.buf)@) }
}
impl<'a> io::Write for VxSink<'a> {
    open spec fn out(&self) -> Seq<u8> { self.buf@.take(self.pos as int) }
    open spec fn space(&self) -> int { self.buf@.len() - self.pos }
    #[verifier::prophetic] open spec fn id(&self) -> (nat, Seq<u8>) { (self.buf@.len(), final(self.buf)@) }
}
// ASSUMED: std converts a u8 to the i16 of the same value (Into is the blanket implementation over From)
pub axiom fn axiom_u8() ensures vals_ok::<u8>(), forall|x: u8| #[trigger] val::<u8>(x) == x as i16;
pub proof fn lemma_area(h: Header) ensures area(h) == h.width * h.height {}
// ASSUMED: num_traits converts an i16 in range to a u8
impl NumCast for u8 {
    open spec fn num(x: i16) -> Option<u8> { if 0 <= x <= 255 { Some(x as u8) } else { None } }
    #[verifier::external_body]
    fn from(x: i16) -> (r: Option<u8>) { unimplemented!() }
}
'''
HFROM = r'''
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for HeaderErr {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> HeaderErr { HeaderErr::IOErr(e) }
}
'''
WIRE = r'''
// ---------------------------------------------------------------- what unit header_wire defines and proves
pub uninterp spec fn wire(h: Header) -> Seq<u8>;
pub uninterp spec fn readable(b: Seq<u8>) -> bool;
pub uninterp spec fn parsed(b: Seq<u8>) -> Header;
''' + spec(W.UNIT.prelude, 'wire_ok') + spec(HC.PRE, 'same') + ''.join('#[verifier::external_body] /* proved in unit header_wire */ ' + lem(W.POST, n).replace(' valid(', ' hok(') for n in ('lemma_parse', 'lemma_wire_len'))
TVS = r'''
// ---------------------------------------------------------------- what unit program defines and proves
pub struct TV { pub dest: int, pub fs: Seq<(int, int)>, pub den: int, pub chroma: bool }
''' + ''.join(spec(G.PRE, n) for n in ('fv', 'fvs', 'tv', 'tvs', 'wire_t', 'wire_p', 'flags', 'word_count')) + r'''
pub uninterp spec fn wbits(w: Seq<u32>) -> Seq<bool>;
pub uninterp spec fn zeros(n: int) -> Seq<bool>;
pub uninterp spec fn enc_p(ts: Seq<TV>) -> Seq<bool>;
pub uninterp spec fn pp(s: Seq<bool>, o: int, nch: int, ts: Seq<TV>, ch: Seq<bool>) -> Option<(Seq<TV>, Seq<bool>, int)>;
''' + spec(G.POST, 'written') + ''.join('#[verifier::external_body] /* proved in unit program */ ' + lem(G.POST, n) for n in ('lemma_written', 'lemma_written_len', 'lemma_written_one', 'lemma_reads')) + ''.join(
    '#[verifier::external_body] /* proved in unit program */ ' + re.sub(r'    decreases [^\n]*\n', '', lem(G.PRE, n)) for n in ('lemma_pp_range',)) + \
    '#[verifier::external_body] /* proved in unit program */ pub proof fn lemma_flags_len(ts: Seq<TV>, n: int, c: Seq<bool>) ensures flags(ts, n, c).len() == c.len(), { }\n'
AUX = X.DEFS.split('pub proof fn lemma_sizes')[0].replace('use vstd::arithmetic::power2::*;\n', '')
SIZES = 'pub proof fn lemma_sizes' + X.DEFS.split('pub proof fn lemma_sizes')[1]
COLOR = proved(KC.PRE + K.TH + K.LAYOUT + K.BACKTH + K.POST.split('/// C09 as a client')[0], 'color')
LEM = r'''
// ---------------------------------------------------------------- the bytes of a file
pub proof fn lemma_le4_inj(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i, i + 4 <= a.len(), i + 4 <= b.len(), le4(a, i) as u32 == le4(b, i) as u32,
    ensures a[i] == b[i], a[i + 1] == b[i + 1], a[i + 2] == b[i + 2], a[i + 3] == b[i + 3],
{ lemma_le4_range(a, i); lemma_le4_range(b, i); }
pub proof fn lemma_words_inj(a: Seq<u8>, b: Seq<u8>)
    requires words_of(a) == words_of(b), a.len() % 4 == b.len() % 4, a.skip(a.len() as int / 4 * 4) == b.skip(b.len() as int / 4 * 4),
    ensures a == b,
{
    assert(words_of(a).len() == a.len() as int / 4 && words_of(b).len() == b.len() as int / 4);
    assert(a.len() == b.len());
    let n = a.len() as int / 4 * 4;
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        if i < n { let k = i / 4; assert(words_of(a)[k] == words_of(b)[k]); assert(words_of(a)[k] == le4(a, 4 * k) as u32); assert(words_of(b)[k] == le4(b, 4 * k) as u32); lemma_le4_inj(a, b, 4 * k); }
        else { assert(a.skip(n)[i - n] == b.skip(n)[i - n]); }
    }
    assert(a =~= b);
}
pub proof fn lemma_le4_range(a: Seq<u8>, i: int) requires 0 <= i, i + 4 <= a.len(), ensures 0 <= le4(a, i) <= u32::MAX {}
pub proof fn lemma_words_part(a: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= a.len() as int / 4,
    ensures words_of(a.subrange(4 * i, 4 * j)) == words_of(a).subrange(i, j), words_of(a).len() == a.len() as int / 4,
{
    let x = words_of(a.subrange(4 * i, 4 * j)); let y = words_of(a).subrange(i, j);
    assert(x.len() == y.len());
    assert forall|k: int| 0 <= k < x.len() implies x[k] == y[k] by { assert(le4(a.subrange(4 * i, 4 * j), 4 * k) == le4(a, 4 * (i + k))); }
    assert(x =~= y);
}
pub open spec fn none(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| false) }
pub open spec fn isc_of(ts: Seq<TV>, h: Header) -> Seq<bool> { flags(ts, ts.len() as int, none(nch(h))) }
/// number of words of the encoded program
pub open spec fn kw(ts: Seq<TV>) -> int { word_count(enc_p(ts).len() as int) }
/// header, program, payload of the planar samples a
pub open spec fn file(b: Seq<u8>, h: Header, ts: Seq<TV>, a: Seq<i16>) -> bool {
    kw(ts) >= 0 && b.len() >= 32 + 4 * kw(ts) && b.take(32) == wire(h) && written(ts, words_of(b.subrange(32, 32 + 4 * kw(ts))))
    && upto(b.skip(32 + 4 * kw(ts)), h, isc_of(ts, h), -1, lq(a, h, isc_of(ts, h)))
}
/// a are the transformed samples of the image
pub open spec fn planar(a: Seq<i16>, image: Seq<u8>, h: Header, ts: Seq<ChannelTransform>) -> bool {
    a.len() == isize_(h, 0) && forall|i: int| 0 <= i < h.channel_size ==> col(a, h.channel_size as int, hsize(h), i)
        =~= #[trigger] fwd_px(ts, ts.len() as int, vec0(image, g_inter(), h.channels as int, h.channel_size as int, h.channels as int, boost_of(h), hsize(h), i))
}
pub proof fn lemma_hsize(h: Header)
    requires hok(h),
    ensures hsize(h) == nch(h), nch(h) >= 1, isize_(h, 0) == nch(h) * h.channel_size, h.channel_size >= 1, isize_(h, 0) == h.image_size,
{
    lemma_sizes(h, 0);
    assert(h.channels * h.layers == h.layers * h.channels) by (nonlinear_arith);
    assert(h.layers * h.channels >= 1) by (nonlinear_arith) requires h.layers >= 1, h.channels >= 1;
    assert(h.width * h.height >= 1) by (nonlinear_arith) requires h.width >= 1, h.height >= 1;
    let z = h.width * h.height;
    assert(z * h.layers * h.channels == (h.layers * h.channels) * z) by (nonlinear_arith);
}
pub proof fn lemma_kw(ts: Seq<TV>) ensures kw(ts) >= 0 {}
/// header and program in place
pub proof fn lemma_front(b1: Seq<u8>, b2: Seq<u8>, p: int, ts: Seq<TV>, h: Header)
    requires b1.len() == b2.len(), 32 <= b1.len(), 0 <= p <= b1.len(), p % 4 == 0, b1.take(32) == wire(h),
        exists|pad: int| 0 <= pad < 32 && wbits(words_of(b2.take(p))) =~= wbits(words_of(b1.take(32))) + enc_p(ts) + #[trigger] zeros(pad),
    ensures p == 32 + 4 * kw(ts), b2.take(32) == wire(h), written(ts, words_of(b2.subrange(32, 32 + 4 * kw(ts)))), kw(ts) >= 0,
{
    let w0 = words_of(b1.take(32)); let w = words_of(b2.take(p));
    lemma_written(ts, w0, w);
    assert(w0.len() == 8 && w.len() == p / 4);
    lemma_words_part(b2.take(p), 0, 8); lemma_words_part(b2.take(p), 8, p / 4);
    let z = 0int;
    assert(b2.take(p).subrange(4 * z, 32) =~= b2.take(32));
    assert(w.subrange(0, 8) =~= w.take(8));
    assert(b1.take(32).skip(32) =~= b2.take(32).skip(32));
    lemma_words_inj(b1.take(32), b2.take(32));
    assert(b2.take(p).subrange(32, 4 * (p / 4)) =~= b2.subrange(32, p));
    assert(w.subrange(8, p / 4) =~= w.skip(8));
}
/// the payload behind them
pub proof fn lemma_file(b2: Seq<u8>, p: int, ts: Seq<TV>, h: Header, a: Seq<i16>)
    requires p == 32 + 4 * kw(ts), p <= b2.len(), b2.take(32) == wire(h), written(ts, words_of(b2.subrange(32, 32 + 4 * kw(ts)))), kw(ts) >= 0,
    ensures forall|x: Seq<u8>, n: int| 0 <= n <= x.len() && #[trigger] upto(x.take(n), h, isc_of(ts, h), -1, lq(a, h, isc_of(ts, h))) ==> file((b2.take(p) + x).take(p + n), h, ts, a),
{
    assert forall|x: Seq<u8>, n: int| 0 <= n <= x.len() && #[trigger] upto(x.take(n), h, isc_of(ts, h), -1, lq(a, h, isc_of(ts, h))) implies file((b2.take(p) + x).take(p + n), h, ts, a) by {
        let f = (b2.take(p) + x).take(p + n);
        assert(f.take(32) =~= b2.take(32));
        assert(f.subrange(32, p) =~= b2.subrange(32, p));
        assert(f.skip(p) =~= x.take(n));
    }
}
// ---------------------------------------------------------------- a program that was read back
pub proof fn lemma_fs_same(a: Seq<ChannelTransformFactor>, b: Seq<ChannelTransformFactor>, n: int, v: Seq<i16>)
    requires fvs(a) == fvs(b), 0 <= n <= a.len(),
    ensures a.len() == b.len(), sum_px(a, n, v) == sum_px(b, n, v),
    decreases n,
{
    assert(fvs(a).len() == a.len() && fvs(b).len() == b.len());
    if n > 0 { lemma_fs_same(a, b, n - 1, v); assert(fvs(a)[n - 1] == fv(a[n - 1]) && fvs(b)[n - 1] == fv(b[n - 1])); }
}
pub proof fn lemma_ts_same(a: Seq<ChannelTransform>, b: Seq<ChannelTransform>, k: int, v: Seq<i16>)
    requires tvs(a) == tvs(b), 0 <= k <= a.len(),
    ensures a.len() == b.len(), inv_from(a, k, a.len() as int, v) == inv_from(b, k, b.len() as int, v),
    decreases a.len() - k,
{
    assert(tvs(a).len() == a.len() && tvs(b).len() == b.len());
    if k < a.len() {
        lemma_ts_same(a, b, k + 1, v);
        let u = inv_from(a, k + 1, a.len() as int, v);
        assert(tvs(a)[k] == tv(a[k]) && tvs(b)[k] == tv(b[k]));
        lemma_fs_same(a[k].channel_factors@, b[k].channel_factors@, a[k].channel_factors@.len() as int, u);
    }
}
pub proof fn lemma_undone_same(f: Seq<i16>, x: Seq<i16>, a: Seq<ChannelTransform>, b: Seq<ChannelTransform>, cs: int, n: int)
    requires tvs(a) == tvs(b), undone(f, x, a, 0, cs, n),
    ensures undone(f, x, b, 0, cs, n),
{
    assert forall|i: int| 0 <= i < cs implies #[trigger] col(f, cs, n, i) == inv_from(b, 0, b.len() as int, col(x, cs, n, i)) by { lemma_ts_same(a, b, 0, col(x, cs, n, i)); }
}
pub proof fn lemma_wire_empty(n: int) ensures wire_p(Seq::<TV>::empty(), n) {}
pub proof fn lemma_sane_of(ts: Seq<ChannelTransform>, n: int)
    requires wire_p(tvs(ts), n), ensures sane(ts, n),
{
    assert forall|k: int| 0 <= k < ts.len() implies sane_t(#[trigger] ts[k], n) by {
        assert(tvs(ts)[k] == tv(ts[k])); assert(wire_t(tvs(ts)[k], n));
        let f = ts[k].channel_factors@;
        assert forall|j: int| 0 <= j < f.len() implies (#[trigger] f[j]).src_channel < n by { assert(fvs(f)[j] == fv(f[j])); assert(0 <= tvs(ts)[k].fs[j].0 < n); }
    }
}
/// x, with the transforms undone and the boost taken away, is in the buffer
pub open spec fn shown(out: Seq<u8>, x: Seq<i16>, ts: Seq<TV>, h: Header, cs: int) -> bool {
    exists|t: Seq<ChannelTransform>, f: Seq<i16>| tvs(t) == ts && f.len() == x.len() && #[trigger] undone(f, x, t, 0, cs, hsize(h)) && painted(out, f, h, cs)
}
pub open spec fn painted(out: Seq<u8>, f: Seq<i16>, h: Header, cs: int) -> bool {
    forall|c: int, i: int| 0 <= c < hsize(h) && 0 <= i < cs ==> out[#[trigger] pos(c, i, h.channels as int, cs)] == unboost::<u8>(pl(f, cs, c, i), boost_of(h) as i16)
}
pub open spec fn csd(h: Header, d: int) -> int { ceil_shift(h.width as int, d) * ceil_shift(h.height as int, d) }
pub open spec fn zs(n: int) -> Seq<i16> { Seq::new(n as nat, |i: int| 0i16) }
pub proof fn lemma_zero(a: Seq<i16>, cs: int, n: int)
    requires n * cs <= a.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == 0, n >= 0, cs >= 0,
    ensures zero(a, cs, n),
{
    assert forall|c: int, i: int| 0 <= c < n && 0 <= i < cs implies #[trigger] pl(a, cs, c, i) == 0 by { lemma_in(cs, n, c, i); }
}
pub proof fn lemma_csd(h: Header, d: int)
    requires hok(h), 0 <= d < 32,
    ensures csd(h, d) >= 1, isize_(h, d) == hsize(h) * csd(h, d), hsize(h) == nch(h), csd(h, 0) == h.channel_size,
{
    lemma_sizes(h, d); lemma_sizes(h, 0); lemma_hsize(h);
    lemma_pow2_pos(d as nat); let p = pow2(d as nat) as int;
    assert((h.width + p - 1) / p >= 1) by (nonlinear_arith) requires h.width >= 1, p >= 1;
    assert((h.height + p - 1) / p >= 1) by (nonlinear_arith) requires h.height >= 1, p >= 1;
    let a = ceil_shift(h.width as int, d); let b = ceil_shift(h.height as int, d);
    assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 1;
    lemma2_to64();
    assert(h.width as int / 1int == h.width && h.height as int / 1int == h.height);
    assert(ceil_shift(h.width as int, 0) == h.width && ceil_shift(h.height as int, 0) == h.height);
}
'''
CS = Fn('compress_simple', 'r', '''    requires hok(*header), nch(*header) <= i32::MAX, area(*header) <= i32::MAX, reversible(color_transform.channel_transforms@, nch(*header)), wire_p(tvs(color_transform.channel_transforms@), nch(*header)),
        image.len() == isize_(*header, 0), image.len() <= isize::MAX, old(buffer).len() <= u32::MAX,
    ensures r matches Ok(n) ==> final(buffer).len() == old(buffer).len() && n <= final(buffer).len() && exists|a: Seq<i16>| planar(a, image@, *header, color_transform.channel_transforms@) && #[trigger] file(final(buffer)@.take(n as int), *header, tvs(color_transform.channel_transforms@), a)''',
    attrs='#[verifier::spinoff_prover]',
    subst=[(r'(compress_aux_data\([^;]*?),\s*&mut buffer\)', r'\1, buffer.rest())', 1)],
    entry='''
    hide(wire_p); hide(reversible); hide(isize_); hide(area); hide(fwd_px);
    let ghost h = *header; let ghost ct = color_transform.channel_transforms@; let ghost ts = tvs(ct); let ghost nc = nch(h); let ghost fb = final(buffer)@; let ghost len = buffer.len();
    let mut buffer = VxSink { buf: buffer, pos: 0 };
    proof { lemma_hsize(h); lemma_sizes(h, 0); lemma_rev_sane(ct, nc); lemma_wire_len(h); lemma_area(h); assert(h.layers * h.channels == h.channels * h.layers) by (nonlinear_arith); axiom_u8(); }''', hints=[
     ('before', 'let is_chroma =', 1, '''    let ghost b1 = buffer.buf@;
    proof { assert(b1.take(32) =~= wire(h)); assert(buffer.pos == 32); }'''),
     ('after', 'let is_chroma =', 1, '''    let ghost b2 = buffer.buf@; let ghost p = buffer.pos as int;
    proof { lemma_front(b1, b2, p, ts, h); assert(is_chroma@ =~= isc_of(ts, h)); lemma_flags_len(ts, ts.len() as int, none(nc)); }'''),
     ('before', 'color_transform . transform_and_to_planar', 1, '    proof { lemma_zero(aux_data@, h.channel_size as int, hsize(h)); }'),
     ('after', 'color_transform . transform_and_to_planar', 1, '''    let ghost a = aux_data@;
    proof { assert(planar(a, image@, h, ct)); lemma_file(b2, p, ts, h, a); }'''),
    ])
DEC = 'pp(wbits(words_of(data@)), 0, nch(*header), Seq::<TV>::empty(), none(nch(*header)))'
DS = Fn('decompress_simple', 'r', '''    requires hok(*header), downsampling < 32, data.len() < 0x8000_0000, test || old(buffer).len() >= isize_(*header, downsampling as int), old(buffer).len() <= isize::MAX,
    ensures final(buffer).len() == old(buffer).len(), r is Err || test ==> final(buffer)@ == old(buffer)@,
        match %s {
            None => r is Err,
            Some((ts, ch, e)) => read_as(r, data@.skip(4 * word_count(e)), *header, ts, ch, downsampling as int, test, im, old(buffer)@, final(buffer)@),
        }''' % DEC, params=', Ghost(im): Ghost<Seq<i16>>', attrs='#[verifier::spinoff_prover]',
    subst=[(r'(decompress_aux_data\([^;]*?)\)\?', r'\1, Ghost(im))?', 1)],
    entry='''
    hide(wire_p); hide(isize_); hide(undone); hide(sane); hide(read_as);
    let ghost h = *header; let ghost d = downsampling as int; let ghost nc = nch(h); let ghost data0 = data@; let ghost w0 = words_of(data@); let ghost o0 = buffer@;
    proof { lemma_hsize(h); lemma_sizes(h, d); lemma_csd(h, d); }''', hints=[
     ('before', 'let color_transform =', 1, '    proof { assert(is_chroma@ =~= none(nc)); }'),
     ('after', 'let color_transform =', 1, '''    let ghost x = pp(wbits(w0), 0, nc, Seq::<TV>::empty(), none(nc)); let ghost ts = (x->0).0; let ghost ch = (x->0).1; let ghost q = word_count((x->0).2); let ghost ct = color_transform.channel_transforms@;
    proof { lemma_wire_empty(nc); lemma_pp_range(wbits(w0), 0, nc, Seq::<TV>::empty(), none(nc)); lemma_sane_of(ct, nc); lemma_skip(data0, data@, q); }'''),
     ('before', 'let next_point_of_interest', 1, '    proof { assert(aux_data@ =~= zs(isize_(h, d))); lemma_hypo_len(test, data@, h, ch, d, im, isize_(h, d)); lemma_reject(data@, h, ts, ch, d, test, im, o0); }'),
     ('after', 'let next_point_of_interest', 1, '    let ghost y = aux_data@; proof { if test { lemma_accept(data@, h, ts, ch, d, test, im, o0, buffer@, y, next_point_of_interest); } }'),
     ('before', 'Ok(next_point_of_interest)', -1, '''    proof {
        if !test { assert(painted(buffer@, aux_data@, h, csd(h, d))); assert(shown(buffer@, y, ts, h, csd(h, d))); }
        lemma_accept(data@, h, ts, ch, d, test, im, o0, buffer@, y, next_point_of_interest);
    }'''),
    ])
READ = r'''
pub open spec fn found(p: Seq<u8>, h: Header, d: int) -> Option<int> { scan(p, 0, (p.len() + 1024) as int, h, d, e0(h)) }
/// what becomes of the payload p behind the program ts
pub open spec fn read_as(r: Result<usize, DecompressError>, p: Seq<u8>, h: Header, ts: Seq<TV>, ch: Seq<bool>, d: int, test: bool, im: Seq<i16>, o0: Seq<u8>, o: Seq<u8>) -> bool {
    let hyp = hypo(test, p, h, ch, d, im, isize_(h, d));
    &&& (r matches Ok(n) ==> found(p, h, d) == Some(n as int))
    &&& (test || hyp ==> (r is Err <==> found(p, h, d) is None))
    &&& (r is Ok && !test ==> exists|m: Seq<i16>| {
            &&& m.len() == isize_(h, d) && #[trigger] shown(o, uq(m, h, ch, d), ts, h, csd(h, d))
            &&& (hyp ==> settled(p, h, d, d, zs(isize_(h, d)), m, im))
            &&& (hyp && r->Ok_0 == 0 ==> m == im)
        } && (forall|j: int| isize_(h, d) <= j < o.len() ==> #[trigger] o[j] == o0[j]))
}
pub proof fn lemma_skip(a: Seq<u8>, b: Seq<u8>, q: int)
    requires 0 <= q <= words_of(a).len(), words_of(b) == words_of(a).skip(q), b.skip(b.len() as int / 4 * 4) == a.skip(a.len() as int / 4 * 4),
    ensures b == a.skip(4 * q), b.len() <= a.len(),
{
    let c = a.skip(4 * q); let n = a.len() as int / 4;
    lemma_words_part(a, q, n); assert(words_of(a).len() == n);
    assert(words_of(a).skip(q) =~= words_of(a).subrange(q, n));
    let e = words_of(c); 
    assert(words_of(c).len() == n - q) by { assert(c.len() == a.len() - 4 * q); }
    assert forall|k: int| 0 <= k < n - q implies words_of(c)[k] == words_of(a)[k + q] by { assert(le4(c, 4 * k) == le4(a, 4 * (k + q))); }
    assert(words_of(c) =~= words_of(b));
    assert(c.skip(c.len() as int / 4 * 4) =~= a.skip(n * 4)) by { assert(c.len() as int / 4 * 4 + 4 * q == n * 4); }
    assert(words_of(b).len() == b.len() as int / 4);
    assert(b.len() % 4 == c.len() % 4) by { assert(b.skip(b.len() as int / 4 * 4).len() == b.len() % 4); assert(c.skip(c.len() as int / 4 * 4).len() == c.len() % 4); }
    lemma_words_inj(b, c);
}
'''
RP = r'''
pub proof fn lemma_reject(p: Seq<u8>, h: Header, ts: Seq<TV>, ch: Seq<bool>, d: int, test: bool, im: Seq<i16>, o0: Seq<u8>)
    ensures forall|r: Result<usize, DecompressError>| r is Err && (test || hypo(test, p, h, ch, d, im, isize_(h, d)) ==> found(p, h, d) is None) ==> #[trigger] read_as(r, p, h, ts, ch, d, test, im, o0, o0),
{ }
pub proof fn lemma_accept(p: Seq<u8>, h: Header, ts: Seq<TV>, ch: Seq<bool>, d: int, test: bool, im: Seq<i16>, o0: Seq<u8>, o: Seq<u8>, y: Seq<i16>, n: usize)
    requires found(p, h, d) == Some(n as int), hok(h),
        !test ==> shown(o, y, ts, h, csd(h, d)) && (forall|j: int| isize_(h, d) <= j < o.len() ==> #[trigger] o[j] == o0[j]) && exists|m: Seq<i16>| {
            &&& m.len() == isize_(h, d) && y == #[trigger] uq(m, h, ch, d)
            &&& (hypo(test, p, h, ch, d, im, m.len() as int) ==> settled(p, h, d, d, zs(isize_(h, d)), m, im))
            &&& (hypo(test, p, h, ch, d, im, m.len() as int) && n == 0 ==> forall|i: int| 0 <= i < isize_(h, d) ==> #[trigger] m[i] == im[i])
        },
        hypo(test, p, h, ch, d, im, isize_(h, d)) ==> im.len() == isize_(h, d),
    ensures read_as(Ok(n), p, h, ts, ch, d, test, im, o0, o),
{
    if !test {
        let m = choose|m: Seq<i16>| {
            &&& m.len() == isize_(h, d) && y == #[trigger] uq(m, h, ch, d)
            &&& (hypo(test, p, h, ch, d, im, m.len() as int) ==> settled(p, h, d, d, zs(isize_(h, d)), m, im))
            &&& (hypo(test, p, h, ch, d, im, m.len() as int) && n == 0 ==> forall|i: int| 0 <= i < isize_(h, d) ==> #[trigger] m[i] == im[i])
        };
        assert(shown(o, uq(m, h, ch, d), ts, h, csd(h, d)));
        if hypo(test, p, h, ch, d, im, isize_(h, d)) && n == 0 { assert(m =~= im); }
    }
}
#[verifier::external_body] /* proved in unit decomp */ pub proof fn lemma_hypo_len(test: bool, b: Seq<u8>, h: Header, isc: Seq<bool>, d: int, im: Seq<i16>, n: int)
    ensures hypo(test, b, h, isc, d, im, n) ==> im.len() == n,
{ }
'''
CLIENTS = r'''
pub proof fn lemma_words_cat(r: Seq<u8>, k: int)
    requires 0 <= k, 4 * k <= r.len(),
    ensures words_of(r) == words_of(r.take(4 * k)) + words_of(r.skip(4 * k)),
{
    let x = words_of(r); let y = words_of(r.take(4 * k)); let z = words_of(r.skip(4 * k));
    assert(y.len() == k && x.len() == k + z.len());
    assert forall|i: int| 0 <= i < x.len() implies x[i] == (y + z)[i] by {
        if i < k { assert(le4(r.take(4 * k), 4 * i) == le4(r, 4 * i)); } else { assert(le4(r.skip(4 * k), 4 * (i - k)) == le4(r, 4 * i)); }
    }
    assert(x =~= y + z);
}
/// what the three parts of a file are read as
pub proof fn lemma_file_reads(b: Seq<u8>, h: Header, ts: Seq<TV>, a: Seq<i16>)
    requires file(b, h, ts, a), hok(h), h.bit_depth == 8, h.metadata_size % 4 == 0, wire_p(ts, nch(h)), nch(h) <= i32::MAX,
    ensures readable(b), same(parsed(b), h), pp(wbits(words_of(b.skip(32))), 0, nch(h), Seq::<TV>::empty(), none(nch(h))) == Some((ts, isc_of(ts, h), enc_p(ts).len() as int)),
        kw(ts) >= 0, b.len() >= 32, upto(b.skip(32).skip(4 * kw(ts)), h, isc_of(ts, h), -1, lq(a, h, isc_of(ts, h))),
{
    let k = kw(ts); let r = b.skip(32);
    assert(b =~= wire(h) + r); lemma_parse(h, r);
    lemma_words_cat(r, k);
    assert(r.take(4 * k) =~= b.subrange(32, 32 + 4 * k));
    assert(r.skip(4 * k) =~= b.skip(32 + 4 * k));
    lemma_reads(ts, words_of(r.take(4 * k)), words_of(r.skip(4 * k)), nch(h), none(nch(h)));
}
/// C16 and C12: the bytes of a file are determined by what is compressed
pub proof fn lemma_file_one(b: Seq<u8>, c: Seq<u8>, h: Header, ts: Seq<TV>, a: Seq<i16>)
    requires hok(h), file(b, h, ts, a), file(c, h, ts, a),
    ensures b == c,
{
    let k = kw(ts); let n = 32 + 4 * k;
    lemma_written_one(ts, words_of(b.subrange(32, n)), words_of(c.subrange(32, n)));
    assert(b.subrange(32, n).skip(4 * k) =~= c.subrange(32, n).skip(4 * k));
    lemma_words_inj(b.subrange(32, n), c.subrange(32, n));
    lemma_one(b.skip(n), c.skip(n), h, isc_of(ts, h), lq(a, h, isc_of(ts, h)));
    assert(b =~= b.take(32) + b.subrange(32, n) + b.skip(n)); assert(c =~= c.take(32) + c.subrange(32, n) + c.skip(n));
}
pub proof fn lemma_planar_one(a: Seq<i16>, b: Seq<i16>, image: Seq<u8>, h: Header, ts: Seq<ChannelTransform>)
    requires hok(h), planar(a, image, h, ts), planar(b, image, h, ts), ensures a == b,
{
    lemma_hsize(h); let cs = h.channel_size as int; let n = hsize(h);
    assert forall|j: int| 0 <= j < a.len() implies a[j] == b[j] by {
        let c = j / cs; let i = j % cs;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, cs);
        assert(0 <= c < n && c * cs + i == j) by (nonlinear_arith) requires c == j / cs, j == cs * c + i, 0 <= i < cs, 0 <= j < n * cs;
        let v = fwd_px(ts, ts.len() as int, vec0(image, g_inter(), h.channels as int, cs, h.channels as int, boost_of(h), n, i));
        assert(col(a, cs, n, i) =~= v); assert(col(b, cs, n, i) =~= v);
        assert(col(a, cs, n, i)[c] == pl(a, cs, c, i) && col(b, cs, n, i)[c] == pl(b, cs, c, i));
    }
    assert(a =~= b);
}
/// the image is on the screen again
pub proof fn lemma_shown(out: Seq<u8>, a: Seq<i16>, image: Seq<u8>, h: Header, ct: Seq<ChannelTransform>)
    requires hok(h), planar(a, image, h, ct), shown(out, a, tvs(ct), h, h.channel_size as int), reversible(ct, nch(h)), image.len() == isize_(h, 0), out.len() >= image.len(),
    ensures out.take(image.len() as int) == image,
{
    hide(reversible); hide(undone); hide(fwd_px);
    lemma_hsize(h); let cs = h.channel_size as int; let nc = hsize(h); let n = h.channels as int;
    let (t, f) = choose|t: Seq<ChannelTransform>, f: Seq<i16>| tvs(t) == tvs(ct) && f.len() == a.len() && #[trigger] undone(f, a, t, 0, cs, nc) && painted(out, f, h, cs);
    lemma_undone_same(f, a, t, ct, cs, nc);
    assert(n * h.layers * cs == nc * cs) by (nonlinear_arith) requires nc == n * h.layers;
    assert forall|j: int| 0 <= j < image.len() implies out[j] == image[j] by {
        let (c, i) = lemma_pos_onto(j, n, h.layers as int, cs);
        let v = vec0(image, g_inter(), n, cs, n, boost_of(h), nc, i);
        assert(col(a, cs, nc, i) =~= fwd_px(ct, ct.len() as int, v));
        lemma_there_and_back(f, a, ct, cs, nc, i, v);
        assert(pl(f, cs, c, i) == v[c]);
        assert(v[c] == w16(val(image[pos(c, i, n, cs)]) * boost_of(h)));
        axiom_u8(); assert(pixel(image[j]));
        lemma_exact(image[j], boost_of(h) as i16);
        assert(out[pos(c, i, n, cs)] == unboost::<u8>(pl(f, cs, c, i), boost_of(h) as i16));
    }
    assert(out.take(image.len() as int) =~= image);
}
pub proof fn lemma_whole_file(b: Seq<u8>, h: Header, isc: Seq<bool>, a: Seq<i16>)
    requires hok(h), upto(b, h, isc, -1, lq(a, h, isc)), lossless(h, isc), a.len() == isize_(h, 0), area(h) <= i32::MAX,
    ensures found(b, h, 0) == Some(0int), hypo(false, b, h, isc, 0, lq(a, h, isc), isize_(h, 0)), uq(lq(a, h, isc), h, isc, 0) == a,
{ theorem_lossless(a, h, isc); lemma_whole0(b, h, isc, lq(a, h, isc)); }
/// the planar samples of which the file was made
pub open spec fn made(f: Seq<u8>, image: Seq<u8>, h: Header, ct: Seq<ChannelTransform>) -> bool { exists|a: Seq<i16>| planar(a, image, h, ct) && #[trigger] file(f, h, tvs(ct), a) }
pub proof fn lemma_read_ok(r: Result<usize, DecompressError>, p: Seq<u8>, h: Header, ts: Seq<TV>, ch: Seq<bool>, im: Seq<i16>, o0: Seq<u8>, o: Seq<u8>)
    requires read_as(r, p, h, ts, ch, 0, false, im, o0, o), found(p, h, 0) == Some(0int), hypo(false, p, h, ch, 0, im, isize_(h, 0)),
    ensures r is Ok, r->Ok_0 == 0, shown(o, uq(im, h, ch, 0), ts, h, csd(h, 0)), forall|j: int| isize_(h, 0) <= j < o.len() ==> #[trigger] o[j] == o0[j],
{}
/// C01 as a client of the contracts: header, program and image in a buffer; header read, then program and image; the image is the same
pub fn vx_lossless(image: &[u8], header: &Header, p: &ColorTransformProgram, buffer: &mut [u8], out: &mut [u8]) -> (r: Option<(Result<Header, HeaderErr>, Result<usize, DecompressError>)>)
    requires hok(*header), header.bit_depth == 8, header.metadata_size % 4 == 0, nch(*header) <= i32::MAX, area(*header) <= i32::MAX, reversible(p.channel_transforms@, nch(*header)), wire_p(tvs(p.channel_transforms@), nch(*header)),
        lossless(*header, isc_of(tvs(p.channel_transforms@), *header)), image.len() == isize_(*header, 0), image.len() <= isize::MAX, old(buffer).len() < 0x8000_0000, old(out).len() == image.len(),
    ensures r matches Some(q) ==> q.0 is Ok && same(q.0->Ok_0, *header) && q.1 is Ok && q.1->Ok_0 == 0 && final(out)@ == image@,
{
    hide(reversible); hide(wire_p); hide(lossless); hide(read_as); hide(file); hide(planar); hide(shown); hide(isize_); hide(area);
    let ghost h = *header; let ghost ct = p.channel_transforms@; let ghost ts = tvs(ct); let ghost isc = isc_of(ts, h);
    match compress_simple(image, header, p, buffer) {
        Err(_) => None,
        Ok(n) => {
            let ghost f = buffer@.take(n as int);
            let ghost a = choose|a: Seq<i16>| planar(a, image@, h, ct) && #[trigger] file(f, h, ts, a);
            let ghost im = lq(a, h, isc);
            proof { assert(n < 0x8000_0000); }
            let (x, _) = buffer.split_at(n);
            let mut data: &[u8] = x;
            proof { assert(x@ =~= f); lemma_file_reads(f, h, ts, a); lemma_planar_len(a, image@, h, ct); lemma_whole_file(f.skip(32).skip(4 * kw(ts)), h, isc, a); lemma_csd(h, 0); }
            let h2 = match Header::decode(&mut data) { Ok(h2) => h2, Err(e) => { assert(false); return Some((Err(e), Ok(0))); } };
            let ghost o0 = out@;
            proof { assert(h2 == h); assert(data@ =~= f.skip(32)); assert(f.len() == n && n < 0x8000_0000); assert(data@.len() == f.skip(32).len()); }
            let r = decompress_simple(data, &h2, 0, false, out, Ghost(im));
            proof { lemma_read_ok(r, f.skip(32).skip(4 * kw(ts)), h, ts, isc, im, o0, out@); lemma_shown(out@, a, image@, h, ct); assert(out@.take(image@.len() as int) =~= out@); }
            Some((Ok(h2), r))
        }
    }
}
pub proof fn lemma_planar_len(a: Seq<i16>, image: Seq<u8>, h: Header, ct: Seq<ChannelTransform>) requires planar(a, image, h, ct), ensures a.len() == isize_(h, 0) {}
/// C12 and C16 as a client: the same bytes whatever the buffers hold, and in whatever order the work is done
pub fn vx_twice(image: &[u8], header: &Header, p: &ColorTransformProgram, b: &mut [u8], c: &mut [u8]) -> (r: (Result<usize, CompressError>, Result<usize, CompressError>))
    requires hok(*header), nch(*header) <= i32::MAX, area(*header) <= i32::MAX, reversible(p.channel_transforms@, nch(*header)), wire_p(tvs(p.channel_transforms@), nch(*header)),
        image.len() == isize_(*header, 0), image.len() <= isize::MAX, old(b).len() <= u32::MAX, old(c).len() <= u32::MAX,
    ensures r.0 is Ok && r.1 is Ok ==> r.0->Ok_0 == r.1->Ok_0 && final(b)@.take(r.0->Ok_0 as int) == final(c)@.take(r.0->Ok_0 as int),
{
    hide(reversible); hide(wire_p); hide(file); hide(planar); hide(isize_); hide(area);
    let ghost h = *header; let ghost ct = p.channel_transforms@; let ghost ts = tvs(ct);
    let x = compress_simple(image, header, p, b);
    let y = compress_simple(image, header, p, c);
    proof {
        if x is Ok && y is Ok {
            let f = b@.take(x->Ok_0 as int); let g = c@.take(y->Ok_0 as int);
            let a1 = choose|a: Seq<i16>| planar(a, image@, h, ct) && #[trigger] file(f, h, ts, a);
            let a2 = choose|a: Seq<i16>| planar(a, image@, h, ct) && #[trigger] file(g, h, ts, a);
            lemma_planar_one(a1, a2, image@, h, ct); lemma_file_one(f, g, h, ts, a1);
            assert(f.len() == x->Ok_0 && g.len() == y->Ok_0);
        }
    }
    (x, y)
}
'''
def hst(names, cs, unit):
    out = stubs([c for c in cs if c.path in ['Header::' + n for n in names]], unit)
    for c in out: c.spec = c.spec.replace('valid(', 'hok(')
    return out
HN = ['get_image_size', 'get_downsampled_channel_size', 'get_downsampled_image_size']
HW = ['decode', 'encode']
CT = [('struct', F, 'ChannelTransformFactor'), ('struct', F, 'ChannelTransform'), ('struct', F, 'ColorTransformProgram')]
PN = ['ColorTransformProgram::encode', 'ColorTransformProgram::decode']
CN = ['ColorTransformProgram::transform_and_to_planar', 'ColorTransformProgram::detransform_and_to_interleaved']
ITEMS = P.HEAD + [('impl', HC.H, 'Header', HN + HW), ('enum', HC.E, 'HeaderErr'), ('impl', HC.E, 'HeaderErr@From', ['from']), ('enum', HC.E, 'CompressError'), ('impl', HC.E, 'CompressError@From', ['from']), ('enum', HC.E, 'DecompressError'), ('impl', HC.E, 'DecompressError@From', ['from'])] + CT + [
    ('impl', F, 'ColorTransformProgram', [n.split('::')[1] for n in PN + CN]), ('fn', X.F, 'compress_aux_data'), ('fn', X.F, 'decompress_aux_data'), ('fn', L, 'compress_simple'), ('fn', L, 'decompress_simple')]
CON = hst(HN, H.C, 'header') + hst(HW, W.C, 'header_wire') + stubs([c for c in G.PROG if c.path in PN], 'program') + stubs([K.TRI, K.DI], 'color') + stubs([X.CIN, X.DIN], 'auxio') + [CS, DS]
UNIT = Unit('api', ITEMS, CON, prelude='use vstd::arithmetic::power2::*;\n' + P.HSPEC + IO + BYTES.split('pub proof fn')[0] + HFROM + C.ERR + D.ERR + WIRE + TVS + AUX + COLOR + SIZES + LEM + READ, post=RP + CLIENTS)
