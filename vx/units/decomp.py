"""src/compress/mod.rs: reading of the payload (C13, C14), over the blocks of unit image and the block code of unit codec."""
from extract import Unit, Fn, stubs, proved
from units import bits as B, codec as K, image as M, header as H, header_common as HC, payload as P
from units.comp_theory import GRID, BYTES, PAY
from units.level_theory import LEVEL
from units.pass_theory import PASS
from units.down_theory import DOWN
F = 'src/compress/mod.rs'
IO = r'''
pub mod io {
    #[derive(Debug)]
    pub struct Error { pub x: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
}
// ASSUMED: byteorder reads little-endian words from a byte slice, and fails if and only if less than four bytes are left
impl ReadBytesExt for &[u8] {
    open spec fn words(&self) -> Seq<u32> { words_of(self@) }
    open spec fn behind(&self) -> Seq<u8> { self@.skip(self@.len() as int / 4 * 4) }
    #[verifier::external_body]
    fn read_u32<E>(&mut self) -> (r: io::Result<u32>) { unimplemented!() }
}
'''
ERR = r'''
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for DecompressError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> DecompressError { DecompressError::IOErr(e) }
}
'''
JOIN = r'''
/// what the samples will be when the iterator is gone
#[verifier::prophetic] pub open spec fn itfin<T>(it: ImageChunkIteratorMut<'_, T>) -> Seq<T> { final(it.data)@ }
// ASSUMED: a block and the iterator it came from give access to the same samples
#[verifier::external_body]
pub fn vx_join<T>(it: &mut ImageChunkIteratorMut<'_, T>, c: &ImageChunkMut<'_, T>)
    requires c.data_len == old(it).data.len(),
    ensures final(it).state == old(it).state, final(it).data@ == mem(c.data_ptr), itfin(*final(it)) == itfin(*old(it)),
{ }
'''
SPEC = r'''
pub open spec fn ceil_shift(x: int, d: int) -> int { (x + pow2(d as nat) - 1) / pow2(d as nat) as int }
/// the bytes hold, as far as they are there, the code of im
pub open spec fn hypo(test: bool, b: Seq<u8>, h: Header, isc: Seq<bool>, d: int, im: Seq<i16>, n: int) -> bool {
    !test && d <= e0(h) && part(b, 0, h, isc, d, e0(h), im) && im.len() == n && down(h.width as int, d) * down(h.height as int, d) <= i32::MAX
}
pub open spec fn isize_(h: Header, d: int) -> int { down(h.width as int, d) * down(h.height as int, d) * h.layers * h.channels }
'''
LEM = r'''
pub proof fn lemma_hypo_len(test: bool, b: Seq<u8>, h: Header, isc: Seq<bool>, d: int, im: Seq<i16>, n: int)
    ensures hypo(test, b, h, isc, d, im, n) ==> im.len() == n,
{ }
pub proof fn lemma_off0(b: Seq<u8>, p: int, n: int, k: int) ensures off(b, p, n, k) == p + 4 * n + ssum(b, p, k) {}
pub proof fn lemma_ssum1(b: Seq<u8>, p: int, k: int) requires k >= 0, ensures ssum(b, p, k + 1) == ssum(b, p, k) + sz(b, p, k) {}
pub proof fn lemma_dc(l: Lay, first: bool, k: int) requires l.b > 0, ensures dck(l, first, k) == (first && bgeo(l, k).x0 == 0 && bgeo(l, k).y0 == 0) { lemma_zero(bcol(l, k), l.b); lemma_zero(brow(l, k), l.b); }
pub proof fn lemma_done_len(l: Lay, first: bool, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>, j: int, pres: Seq<bool>, hyp: bool) requires done(l, first, a, m, im, j, pres, hyp) ensures m.len() == a.len() {}
/// the numbers of a level
pub proof fn lemma_enter(h: Header, d: int, e: int)
    requires hok(h), 0 <= d <= e <= e0(h),
    ensures ({ let l = lv(h, d, e); let bl = h.block_size as usize; let bs = p2(e + bl); let x = (h.width + bs - 1) / bs; let y = (h.height + bs - 1) / bs;
        &&& lay_ok(l) && total(l) == nb(h, e) && l.n == nch(h) && nch(h) == h.layers * h.channels && nch(h) == h.channels * h.layers && l.n * (l.w * l.h) <= usize::MAX && l.b > 0 && l.s == p2(e - d) && l.b == p2(e - d + bl) && l.w == down(h.width as int, d) && l.h == down(h.height as int, d)
        &&& 0 <= e <= 29 && bl <= 30 && 1 <= p2(e) <= 0x2000_0000 && 1 <= p2(e - d) <= 0x2000_0000 && h.width < 0x4000_0000 && h.height < 0x4000_0000
        &&& (p2(e) as usize) << bl == bs && (p2(e - d) as usize) << bl == l.b && 1 <= bs <= 0x1000_0000_0000_0000
        &&& 0 <= x * y <= usize::MAX && 0 <= x * y * h.layers <= usize::MAX && x * y * h.layers * h.channels == nb(h, e) && 1 <= nb(h, e) && nb(h, e) * 4 <= usize::MAX && 0 <= x && 0 <= y
    }),
{
    let bl = h.block_size as int;
    lemma_lv(h, d, e); lemma_lv(h, 0, e); lemma_shl(e as usize, h.block_size as usize); lemma_shl((e - d) as usize, h.block_size as usize); lemma_p2(e, 29); lemma_p2(e - d, 29); lemma_p2(e + bl, 59); lemma_p2(29, 30); lemma_p2(30, 30); lemma_p2(59, 1); lemma_p2(60, 0); lemma_p2(e - d + bl, 0);
    assert(h.layers * h.channels == h.channels * h.layers) by (nonlinear_arith);
}
pub proof fn lemma_sized(h: Header, d: int)
    ensures ceil_shift(h.width as int, d) == down(h.width as int, d), ceil_shift(h.height as int, d) == down(h.height as int, d), isize_(h, d) == ceil_shift(h.width as int, d) * ceil_shift(h.height as int, d) * h.layers * h.channels, nch(h) == h.layers * h.channels,
{ }
pub proof fn lemma_end(b: Seq<u8>, h: Header, isc: Seq<bool>, test: bool, d: int, e: int, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>)
    requires hok(h), 0 <= d <= e0(h), d - 1 <= e <= e0(h), isize_(h, d) <= a.len(), head(b, h, d, e, a, m, im, hypo(test, b, h, isc, d, im, a.len() as int)), e >= d ==> pos(b, h, e) + 4 * nb(h, e) > b.len(),
    ensures m.len() == a.len(), forall|i: int| 0 <= i < m.len() && #[trigger] m[i] != a[i] ==> i < isize_(h, d),
        hypo(test, b, h, isc, d, im, a.len() as int) ==> settled(b, h, d, d, a, m, im) && (e == d - 1 && pos(b, h, e) <= b.len() ==> forall|i: int| 0 <= i < isize_(h, d) ==> #[trigger] m[i] == im[i]),
{
    lemma_head_range(b, h, d, e, a, m, im, hypo(test, b, h, isc, d, im, a.len() as int)); lemma_size(h, d); lemma_lv(h, d, d);
    if hypo(test, b, h, isc, d, im, a.len() as int) { lemma_head_end(b, h, d, e, a, m, im); }
}
pub proof fn lemma_nxt_none<T>(s: ImageChunkIteratorState, dat: Seq<T>, t: ImageChunkIteratorState, k: int)
    requires nxt(s, dat, t, None::<ImageChunkMut<'_, T>>, k),
    ensures k == total(lay(s)), t == s,
{ reveal(nxt); }
pub proof fn lemma_nxt<T>(s: ImageChunkIteratorState, dat: Seq<T>, t: ImageChunkIteratorState, c: ImageChunkMut<'_, T>, k: int)
    requires nxt(s, dat, t, Some(c), k),
    ensures k < total(lay(s)), st_at(t, k + 1), c.channel == chan(lay(s), k), geo(c) == bgeo(lay(s), k), c.data_len == dat.len(), mem(c.data_ptr) == dat, chunk_ok(c), c.x_range.0 == bgeo(lay(s), k).x0, c.y_range.0 == bgeo(lay(s), k).y0,
{ reveal(nxt); }

pub proof fn lemma_hyp(test: bool, b: Seq<u8>, h: Header, isc: Seq<bool>, d: int, im: Seq<i16>, n: int)
    requires hypo(test, b, h, isc, d, im, n),
    ensures !test && d <= e0(h) && part(b, 0, h, isc, d, e0(h), im) && im.len() == n && down(h.width as int, d) * down(h.height as int, d) <= i32::MAX,
{}

pub proof fn vx_sizes() ensures vstd::layout::size_of::<u32>() == 4, vstd::layout::size_of::<u32>() as usize == 4 { broadcast use vstd::layout::layout_of_primitives; }
pub proof fn lemma_scan(b: Seq<u8>, p: int, poi: int, h: Header, d: int, e: int)
    requires e >= d,
    ensures ({ let n = nb(h, e); let q = off(b, p, n, n);
        &&& p > b.len() ==> scan(b, p, poi, h, d, e) is None
        &&& p <= b.len() && p + 4 * n > b.len() ==> scan(b, p, poi, h, d, e) == Some(poi)
        &&& p <= b.len() && p + 4 * n <= b.len() && e == d ==> scan(b, p, poi, h, d, e) == Some(if q <= b.len() { 0 } else { q })
        &&& p <= b.len() && p + 4 * n <= b.len() && e > d ==> scan(b, p, poi, h, d, e) == scan(b, q, q + 16 * n, h, d, e - 1) }),
{}
pub proof fn lemma_part(b: Seq<u8>, p: int, h: Header, isc: Seq<bool>, d: int, e: int, im: Seq<i16>)
    requires part(b, p, h, isc, d, e, im), e >= d, p + 4 * nb(h, e) <= b.len(),
    ensures lev_ok(b, p, h, isc, d, e, im), part(b, off(b, p, nb(h, e), nb(h, e)), h, isc, d, e - 1, im),
{}
pub proof fn lemma_next(b: Seq<u8>, h: Header, e: int) requires e <= e0(h), ensures pos(b, h, e - 1) == off(b, pos(b, h, e), nb(h, e), nb(h, e)) {}
pub proof fn lemma_pos_top(b: Seq<u8>, h: Header, isc: Seq<bool>, d: int, a: Seq<i16>, im: Seq<i16>, hyp: bool)
    ensures pos(b, h, e0(h)) == 0, head(b, h, d, e0(h), a, a, im, hyp), d > e0(h) ==> forall|poi: int| #[trigger] scan(b, 0, poi, h, d, e0(h)) == Some(0int),
{ lemma_head0(b, h, d, a, im, hyp); }
pub proof fn lemma_head_range(b: Seq<u8>, h: Header, d: int, e: int, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>, hyp: bool)
    requires hok(h), 0 <= d <= e + 1, e <= e0(h), d <= e0(h), head(b, h, d, e, a, m, im, hyp),
    ensures m.len() == a.len(), forall|i: int| 0 <= i < m.len() && #[trigger] m[i] != a[i] ==> i < isize_(h, d),
{
    assert forall|i: int| 0 <= i < m.len() && #[trigger] m[i] != a[i] implies i < isize_(h, d) by { let l = lv(h, d, e + 1); lemma_lv(h, d, e + 1); lemma_on_range(l, l.s, i); lemma_size(h, d); }
}
pub proof fn lemma_head_good(b: Seq<u8>, h: Header, d: int, e: int, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>)
    requires head(b, h, d, e, a, m, im, true), e < e0(h), pos(b, h, e) <= b.len(),
    ensures good(lv(h, d, e + 1), lv(h, d, e + 1).s, m, im),
{}
pub proof fn lemma_there(b: Seq<u8>, h: Header, e: int, k: int)
    requires pos(b, h, e) + 4 * nb(h, e) <= b.len(),
    ensures present(b, h, e, k) == (ssum(b, pos(b, h, e), k + 1) <= b.len() - pos(b, h, e) - 4 * nb(h, e)),
{}
pub proof fn lemma_lay(h: Header, d: int, e: int)
    ensures lv(h, d, e) == (Lay { w: down(h.width as int, d), h: down(h.height as int, d), b: p2(e - d + h.block_size), n: nch(h), s: p2(e - d) }),
{}
pub proof fn lemma_vs(b: Seq<u8>, p: int, s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == sz(b, p, i),
    ensures vsum(s.take(k)) == ssum(b, p, k),
    decreases k,
{
    if k > 0 { lemma_vs(b, p, s, k - 1); assert(s.take(k).drop_last() =~= s.take(k - 1)); assert(s.take(k).last() == s[k - 1]); }
    else { assert(s.take(0) =~= Seq::<usize>::empty()); }
}
pub proof fn lemma_le4(b: Seq<u8>, p: int, n: int, c: Seq<u8>, k: int)
    requires 0 <= p, 0 <= k < n, p + 4 * n <= b.len(), c == b.skip(p).take(4 * n).subrange(4 * k, 4 * k + 4),
    ensures words_of(c).len() == 1, words_of(c)[0] as int * 4 == sz(b, p, k), 0 <= sz(b, p, k) <= 4 * u32::MAX,
{
    assert(c[0] == b[p + 4 * k] && c[1] == b[p + 4 * k + 1] && c[2] == b[p + 4 * k + 2] && c[3] == b[p + 4 * k + 3]);
    assert(le4(c, 0) == le4(b, p + 4 * k));
    assert(0 <= le4(c, 0) <= u32::MAX);
}
pub proof fn lemma_zero(x: int, b: int) requires b > 0 ensures (x * b == 0) == (x == 0)
{ assert((x * b == 0) == (x == 0)) by (nonlinear_arith) requires b > 0; }
/// a block of the image has at most as many samples as a channel
pub proof fn lemma_area(l: Lay, k: int)
    requires lay_ok(l), 0 <= k < total(l), l.w * l.h <= i32::MAX,
    ensures ({ let g = bgeo(l, k); (g.y1 - g.y0) * (g.x1 - g.x0) <= i32::MAX }),
{
    let g = bgeo(l, k); let a = g.y1 - g.y0; let c = g.x1 - g.x0;
    lemma_block(l, k, usize::MAX as int);
    assert(a * c <= l.h * l.w) by (nonlinear_arith) requires 0 <= a <= l.h, 0 <= c <= l.w;
    assert(l.h * l.w == l.w * l.h) by (nonlinear_arith);
}
pub proof fn lemma_size(h: Header, d: int)
    requires hok(h), 0 <= d,
    ensures isize_(h, d) == nch(h) * (down(h.width as int, d) * down(h.height as int, d)), nch(h) == h.layers * h.channels, 1 <= nch(h),
{
    let z = down(h.width as int, d) * down(h.height as int, d);
    assert(z * h.layers * h.channels == nch(h) * z) by (nonlinear_arith) requires nch(h) == h.layers * h.channels;
    assert(h.layers * h.channels >= 1) by (nonlinear_arith) requires h.layers >= 1, h.channels >= 1;
}
/// what decoding a block relies on holds when the coarser levels and the blocks before it have been decoded
pub proof fn lemma_ready(b: Seq<u8>, h: Header, isc: Seq<bool>, d: int, e: int, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>, j: int, pres: Seq<bool>, y: Seq<u8>)
    requires hok(h), 0 <= d <= e <= e0(h), 0 <= j < nb(h, e), lv(h, d, e).n * (lv(h, d, e).w * lv(h, d, e).h) <= m.len() <= usize::MAX, im.len() == m.len(), lv(h, d, e).w * lv(h, d, e).h <= i32::MAX,
        done(lv(h, d, e), e == e0(h), a, m, im, j, pres, true), e < e0(h) ==> good(lv(h, d, e + 1), lv(h, d, e + 1).s, a, im),
        lev_ok(b, pos(b, h, e), h, isc, d, e, im), present(b, h, e, j), y == b.subrange(off(b, pos(b, h, e), nb(h, e), j), off(b, pos(b, h, e), nb(h, e), j + 1)),
    ensures ({ let l = lv(h, d, e); let w = wbits(words_of(y)); coded(bgeo(l, j), m, im, cfg(h, isc[chan(l, j)], d), dck(l, e == e0(h), j), w, w.skip(blkb(h, isc, d, e, j, im).len() as int)) }),
{
    let l = lv(h, d, e); let first = e == e0(h); let g = bgeo(l, j); let w = wbits(words_of(y)); let k = blkb(h, isc, d, e, j, im); let dc = dck(l, first, j);
    lemma_lv(h, d, e);
    lemma_area(l, j); lemma_dck(h, d, e, j);
    assert(holds_bits(words_of(y), k));
    assert(w.len() == 32 * words_of(y).len());
    let z = zeros(32 * words_of(y).len() - k.len());
    assert(w =~= k + z);
    assert(w =~= k + w.skip(k.len() as int));
    assert forall|v: int, u: int| inb(g, v, u) && mult(v, 2 * l.s) && mult(u, 2 * l.s) && !(dc && v == 0 && u == 0) implies val(g, m, v, u) == #[trigger] val(g, im, v, u) by {
        if first { lemma_first(h, d); }
        else { assert forall|i: int| #[trigger] on(l, 2 * l.s, i) implies a[i] == im[i] by { lemma_on_next(h, d, e + 1, i); } }
        lemma_coarse(l, first, a, m, im, j, j, pres, true, v, u);
    }
}
/// a block beyond the end of the data is missing, or holds no samples
pub proof fn lemma_beyond(b: Seq<u8>, h: Header, isc: Seq<bool>, d: int, e: int, im: Seq<i16>, j: int, k: int, i: int)
    requires hok(h), 0 <= d <= e <= e0(h), 0 <= j <= k < nb(h, e), lv(h, d, e).n * (lv(h, d, e).w * lv(h, d, e).h) <= im.len() <= usize::MAX, lev_ok(b, pos(b, h, e), h, isc, d, e, im), off(b, pos(b, h, e), nb(h, e), j) >= b.len(),
        mine(bgeo(lv(h, d, e), k), dck(lv(h, d, e), e == e0(h), k), i),
    ensures !present(b, h, e, k),
{
    if present(b, h, e, k) {
        let l = lv(h, d, e); let p = pos(b, h, e);
        lemma_lv(h, d, e); lemma_dck(h, d, e, k);
        lemma_ssum(b, p, j, k); lemma_ssum(b, p, k, k + 1);
        let t = blkb(h, isc, d, e, k, im);
        let w = words_of(b.subrange(off(b, p, nb(h, e), k), off(b, p, nb(h, e), k + 1)));
        assert(holds_bits(w, t));
        assert(t.len() == 0);
        lemma_block(l, k, im.len() as int);
        lemma_empty(bgeo(l, k), im, cfg(h, isc[chan(l, k)], d), dcf(h, d, e, k), i);
    }
}
pub proof fn lemma_shl11(q: i32, k: usize)
    requires 0 <= q <= 1024, k <= 11,
    ensures (q << k) == q * p2(k as int), 1 <= p2(k as int) <= 2048,
{
    lemma_p2(k as int, 11);
    lemma2_to64();
    assert((q << 0usize) == q * 1 && (q << 1usize) == q * 2 && (q << 2usize) == q * 4 && (q << 3usize) == q * 8 && (q << 4usize) == q * 16 && (q << 5usize) == q * 32 && (q << 6usize) == q * 64 && (q << 7usize) == q * 128 && (q << 8usize) == q * 256 && (q << 9usize) == q * 512 && (q << 10usize) == q * 1024 && (q << 11usize) == q * 2048) by (bit_vector) requires 0 <= q <= 1024;
}
pub proof fn lemma_cq(h: Header) requires hok(h), ensures 1 <= cq(h) <= 1024, 1 <= h.quality <= 1024, cq(h) == ({ let v = (h.quality + h.chroma_scale / 2) / h.chroma_scale as int; if v < 1 { 1 } else { v } }), h.layers * h.channels <= 0xffff_ffff,
{ assert(h.layers * h.channels <= 0xffff * 0xffff) by (nonlinear_arith) requires 0 <= h.layers <= 0xffff, 0 <= h.channels <= 0xffff; let v = (h.quality + h.chroma_scale / 2) / (h.chroma_scale as int); let s = h.chroma_scale as int; let q = h.quality as int;
  assert(v <= 1024) by (nonlinear_arith) requires v == (q + s / 2) / s, 1 <= q <= 1024, s >= 1; }
'''
WORK = Fn('vx_decode_block', 'io::Result<()>', '''    requires hok(*header), downsampling < 32, chunk_ok(*old($X)), $X.channel < is_chroma.len(), chroma_quality == cq(*header), $I < blocks_sizes.len(),
    ensures geo(*final($X)) == geo(*old($X)), final($X).data_len == old($X).data_len, chunk_ok(*final($X)),
        frame(geo(*old($X)), has_dc && old($X).x_range.0 == 0 && old($X).y_range.0 == 0, mem(old($X).data_ptr), mem(final($X).data_ptr)),
        test || old_y.len() < blocks_sizes[$I as int] ==> r is Ok && mem(final($X).data_ptr) == mem(old($X).data_ptr),
        !test && old_y.len() >= blocks_sizes[$I as int] && coded(geo(*old($X)), mem(old($X).data_ptr), im, cfg(*header, is_chroma[old($X).channel as int], downsampling as int), has_dc && old($X).x_range.0 == 0 && old($X).y_range.0 == 0, wbits(words_of(old_y)), tail)
            ==> r is Ok && decoded(geo(*old($X)), mem(final($X).data_ptr), im, has_dc && old($X).x_range.0 == 0 && old($X).y_range.0 == 0),'''.replace('old_y', '$Y@'),
    params='test: bool, blocks_sizes: &Vec<usize>, header: &Header, is_chroma: &[bool], chroma_quality: i32, downsampling: usize, has_dc: bool, $I: usize, $X: &mut ImageChunkMut<i16>, $Y: &[u8], Ghost(im): Ghost<Seq<i16>>, Ghost(tail): Ghost<Seq<bool>>',
    entry='''    hide(chunk_ok); hide(frame); hide(coded); hide(decoded);
    let mut input_block = input_block;
    proof { lemma_frame0(geo(*aux_data_chunk), has_dc && aux_data_chunk.x_range.0 == 0 && aux_data_chunk.y_range.0 == 0, mem(aux_data_chunk.data_ptr)); lemma_cq(*header);
        lemma_shl11(header.quality as i32, if downsampling < 11 { downsampling } else { 11 }); lemma_shl11(cq(*header) as i32, if downsampling < 11 { downsampling } else { 11 }); }''',
    subst=[(r'is_chroma\[channel\],\s*\)\?', 'is_chroma[channel], Ghost(im), Ghost(tail))?', 1)])
GH = '''a0 == old(aux_data)@, hok(*header), h == *header, d == downsampling, downsampling < 32, b == buffer@, isc == is_chroma@, buffer.len() < 0x8000_0000, width == h.width, height == h.height, layers == h.layers, channels == h.channels, chroma_quality == cq(h), isc.len() >= nch(h), tp == e0(h), 0 <= tp <= 29,
            a0.len() <= usize::MAX, isize_(h, d) <= a0.len(), hyp == hypo(test, b, h, isc, d, im, a0.len() as int), sc == scan(b, 0, (b.len() + 1024) as int, h, d, tp), downsampled_width == down(h.width as int, d), downsampled_height == down(h.height as int, d),'''
TOP = '''aux_data@.len() == a0.len(), test ==> aux_data@ == a0, -1 <= e <= tp, e == tp || e >= d - 1, step == (if e >= 0 { p2(e) } else { 0 }), has_dc == (e == tp), decompressed_size == pos(b, h, e), next_point_of_interest > 0, e == d - 1 ==> (is_truncated <==> pos(b, h, e) > b.len()), (step >> downsampling) == (if e >= d { p2(e - d) } else { 0 }), e >= d ==> (step >> downsampling) >= 1, d > tp ==> aux_data@ == a0, d <= tp ==> head(b, h, d, e, a0, aux_data@, im, hyp),
            hyp ==> part(b, pos(b, h, e), h, isc, d, e, im),'''
END = '''(forall|i: int| 0 <= i < a0.len() && #[trigger] aux_data@[i] != a0[i] ==> i < isize_(h, d))'''
MAIN = Fn('decompress_image_data', 'r', '''    requires hok(*header), downsampling < 32, buffer.len() < 0x8000_0000,
    ensures final(aux_data)@.len() == old(aux_data)@.len(),
        old(aux_data).len() < isize_(*header, downsampling as int) || is_chroma.len() < header.layers * header.channels ==> r is Err && final(aux_data)@ == old(aux_data)@,
        r matches Ok(n) ==> scan(buffer@, 0, (buffer.len() + 1024) as int, *header, downsampling as int, e0(*header)) == Some(n as int),
        test ==> final(aux_data)@ == old(aux_data)@,
        old(aux_data).len() >= isize_(*header, downsampling as int) && is_chroma.len() >= header.layers * header.channels ==> {
            &&& forall|i: int| 0 <= i < old(aux_data).len() && #[trigger] final(aux_data)@[i] != old(aux_data)@[i] ==> i < isize_(*header, downsampling as int)
            &&& (test || hypo(test, buffer@, *header, is_chroma@, downsampling as int, im, old(aux_data).len() as int) ==> (r is Err <==> scan(buffer@, 0, (buffer.len() + 1024) as int, *header, downsampling as int, e0(*header)) is None))
            &&& (hypo(test, buffer@, *header, is_chroma@, downsampling as int, im, old(aux_data).len() as int) ==> settled(buffer@, *header, downsampling as int, downsampling as int, old(aux_data)@, final(aux_data)@, im)
                && (scan(buffer@, 0, (buffer.len() + 1024) as int, *header, downsampling as int, e0(*header)) == Some(0int) ==> forall|i: int| 0 <= i < isize_(*header, downsampling as int) ==> #[trigger] final(aux_data)@[i] == im[i]))
        }''', params=', Ghost(im): Ghost<Seq<i16>>', worker=WORK, attrs='#[verifier::spinoff_prover]',
    closures=[('    ensures true', '', 'DecompressError')],
    subst=[(r'std::io::Result', 'io::Result')],
    entry='''    hide(lay_ok); hide(settled); hide(head); hide(done); hide(part); hide(scan); hide(pos); hide(lev_ok); hide(mine); hide(on); hide(good); hide(nb); hide(total); hide(bgeo); hide(lv); hide(chunk_ok); hide(coded); hide(decoded); hide(frame); hide(st_at); hide(present); hide(hok); hide(cq); hide(blkb); hide(cfg); hide(words_of); hide(hypo); hide(isize_); hide(down); hide(sz); hide(ssum); hide(off); hide(dck); hide(ceil_shift);
    let ghost h = *header; let ghost d = downsampling as int; let ghost b = buffer@; let ghost isc = is_chroma@; let ghost a0 = aux_data@; let ghost tp = e0(h); let ghost mut e: int = 0;
    let ghost hyp = hypo(test, b, h, isc, d, im, a0.len() as int); let ghost sc = scan(b, 0, (b.len() + 1024) as int, h, d, tp);
    proof { lemma_top(h, 0); lemma_sized(h, d); lemma_size(h, d); lemma_p2(0, 0); lemma_cq(h); if hyp { lemma_hyp(test, b, h, isc, d, im, a0.len() as int); } }''',
    hints=[
     ('before', 'return Err(DecompressError::Underflow)', 2, '            proof { lemma_scan(b, p, next_point_of_interest as int, h, d, e); lemma_pos_nonneg(b, h, e); lemma_enter(h, 0, e); lemma_end(b, h, isc, test, d, e, a0, aux_data@, im); }'),
     ('before', 'break', 1, '            proof { lemma_scan(b, p, next_point_of_interest as int, h, d, e); }'),
     ('before', 'let blocks_size_sum', 1, '        proof { lemma_vs(b, p, blocks_sizes@, n); assert(blocks_sizes@.take(n) =~= blocks_sizes@); lemma_ssum(b, p, 0, n); let z = n * 0x4_0000_0000; assert(z <= 0x8000_0000 * 0x1_0000_0000) by (nonlinear_arith) requires z == n * 0x4_0000_0000, 0 <= 4 * n <= 0x8000_0000; }'),
     ('before', 'let step_downsampled', 1, '        let ghost bb = blocks_buffer@; let ghost sum = blocks_size_sum as int; assert(bb =~= b.skip(p + 4 * n)); assert(sum == ssum(b, p, n));'),
     ('before', 'let block_decode_results', 1, '        let ghost pres = Seq::new(n as nat, |k: int| present(b, h, e1, k)); proof { assert(channels * layers == layers * channels) by (nonlinear_arith); lemma_lay(h, d, e); lemma_done0(l, first, am, im, pres, hyp); if hyp { lemma_hyp(test, b, h, isc, d, im, a0.len() as int); lemma_part(b, p, h, isc, d, e, im); if !first { lemma_head_good(b, h, d, e, a0, am, im); } } assert(blocks_sizes@.skip(0) =~= blocks_sizes@); assert(bb.skip(0) =~= bb); }'),
     ('before', 'for result in', 1, '        proof { lemma_head_step(b, h, d, e, a0, am, aux_data@, im, pres, hyp); lemma_head_range(b, h, d, e - 1, a0, aux_data@, im, hyp); }'),
     ('before', 'has_dc = false || step /= 2 || step >>= 1', 1, '        proof { assert(step >> 1 == step / 2) by (bit_vector); lemma_scan(b, p, poi0, h, d, e); lemma_next(b, h, e); lemma_off0(b, p, n, n); if e > d { lemma_p2(e - 1 - d, 0); } if e >= 1 { lemma_p2(e - 1, 0); lemma_shr((e - 1) as usize, downsampling); } else { assert(p2(0) == 1); assert((0usize >> downsampling) == 0) by (bit_vector) requires downsampling < 32; } e = e - 1; }'),
     ('before', 'if is_truncated {', 1, '    proof { if d <= tp { lemma_end(b, h, isc, test, d, e, a0, aux_data@, im); } }'),
    ],
    loops=[
     dict(inv='''    invariant hok(h), width == h.width, height == h.height, 0 <= e <= 29, step == p2(e), step <= 0x2000_0000, e0(h) == top(h, e),
    decreases 0x4000_0000 - step''', begin='proof { reveal(hok); lemma_p2(e, 0); lemma_p2(e, 29); lemma_p2(29, 0); assert(e < 29); }', end='proof { e = e + 1; lemma_p2(e, 29); }',
          post='proof { lemma_shr(e as usize, downsampling); assert(e == tp); lemma_enter(h, 0, tp); if e >= d { lemma_p2(e - d, 0); } lemma_pos_top(b, h, isc, d, a0, im, hyp); }'),
     dict(inv='''    invariant_except_break
            e >= d ==> sc == scan(b, pos(b, h, e), next_point_of_interest as int, h, d, e),
            e < d ==> sc == Some(if is_truncated { next_point_of_interest as int } else { 0 }),
    invariant %s %s
    ensures sc == Some(if is_truncated { next_point_of_interest as int } else { 0 }), e >= d ==> is_truncated && pos(b, h, e) + 4 * nb(h, e) > b.len(),
    decreases e + 1''' % (GH, TOP), begin='''
        let ghost l = lv(h, d, e); let ghost n = nb(h, e); let ghost p = pos(b, h, e); let ghost am = aux_data@; let ghost first = e == tp; let ghost e1 = e; let ghost poi0 = next_point_of_interest as int;
        proof { assert(e >= d && d <= tp); lemma_enter(h, d, e); lemma_p2(1, e - d); lemma_p2(0, 0); lemma_ssum(b, p, 0, 0); lemma_pos_nonneg(b, h, e); lemma_size(h, d); vx_sizes(); }'''),
     dict(setup='proof { vx_sizes(); }', inv='''    invariant vx_p2 == 4 * vx_n2 <= 4 * n, vx_n2 <= n, vx_c2 == 4, blocks_sizes.len() == n, block_sizes_buffer@ == b.skip(p).take(4 * n), 0 <= p, p + 4 * n <= b.len(), forall|k: int| 0 <= k < vx_n2 ==> #[trigger] blocks_sizes[k] == sz(b, p, k),
        decreases n - vx_n2''', begin='proof { assert(chunk_size_buffer@ =~= b.skip(p).take(4 * n).subrange(4 * vx_i2, 4 * vx_i2 + 4)); lemma_le4(b, p, n, chunk_size_buffer@, vx_i2 as int); }'),
     dict(pre='let ghost fin3 = itfin(vx_a3);', call='test, &blocks_sizes, header, is_chroma, chroma_quality, downsampling, has_dc, $I, &mut $X, $Y, Ghost(im), Ghost(wbits(words_of($Y@)).skip(blkb(h, isc, d, e1, vx_n3 as int, im).len() as int))',
       inv='''invariant_except_break 0 <= vx_n3 <= n, lay(vx_a3.state) == l, st_at(vx_a3.state, vx_n3 as int), done(l, first, am, vx_a3.data@, im, vx_n3 as int, pres, hyp), vx_b3.chunk_sizes@ == blocks_sizes@.skip(vx_n3 as int), vx_b3.slice@ == bb.skip(imin(ssum(b, p, vx_n3 as int), bb.len() as int)),
            invariant hok(h), h == *header, d == downsampling, downsampling < 32, b == buffer@, isc == is_chroma@, chroma_quality == cq(h), isc.len() >= nch(h), tp == e0(h), 0 <= d <= e1 <= tp, l == lv(h, d, e1), n == nb(h, e1), p == pos(b, h, e1), first == (e1 == tp), has_dc == first,
            lay_ok(l), l.b > 0, total(l) == n, l.n == nch(h), l.n * (l.w * l.h) <= am.len() <= usize::MAX, bb == b.skip(p + 4 * n), 0 <= p, p + 4 * n <= b.len(), blocks_sizes.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] blocks_sizes[k] == sz(b, p, k),
            hyp ==> !test && im.len() == am.len() && l.w * l.h <= i32::MAX && lev_ok(b, p, h, isc, d, e1, im) && (!first ==> good(lv(h, d, e1 + 1), lv(h, d, e1 + 1).s, am, im)), pres == Seq::new(n as nat, |k: int| present(b, h, e1, k)), fin3 == itfin(vx_a3), vx_a3.data@.len() == am.len(), vx_r3@.len() == vx_n3,
            test ==> vx_a3.data@ == am, hyp || test ==> forall|k: int| 0 <= k < vx_n3 ==> #[trigger] vx_r3@[k] is Ok,
        ensures done(l, first, am, vx_a3.data@, im, n, pres, hyp),
        decreases n - vx_n3''',
       top='let ghost s3 = vx_a3.state; let ghost m3 = vx_a3.data@; let ghost c3 = vx_b3.chunk_sizes@; let ghost w3 = vx_b3.slice@; let ghost t3 = ssum(b, p, vx_n3 as int);', none='proof { lemma_nxt_none(s3, m3, vx_a3.state, vx_n3 as int); }',
       begin='''
            proof { lemma_nxt(s3, m3, vx_a3.state, $X, vx_n3 as int); lemma_block(l, vx_n3 as int, am.len() as int); lemma_pos(l, vx_n3 as int); lemma_ssum(b, p, 0, vx_n3 as int); lemma_ssum(b, p, vx_n3 as int, vx_n3 + 1); lemma_dc(l, first, vx_n3 as int); lemma_ssum1(b, p, vx_n3 as int); lemma_off0(b, p, n, vx_n3 as int); lemma_off0(b, p, n, vx_n3 + 1); assert(blocks_sizes[vx_n3 as int] == sz(b, p, vx_n3 as int)); assert(blocks_sizes@.skip(vx_n3 as int)[0] == blocks_sizes@[vx_n3 as int]); assert(blocks_sizes@.skip(vx_n3 as int).skip(1) =~= blocks_sizes@.skip(vx_n3 + 1));
                lemma_there(b, h, e1, vx_n3 as int);
                if t3 < bb.len() { assert(vx_b3.slice@ =~= bb.skip(imin(t3 + sz(b, p, vx_n3 as int), bb.len() as int))); }
                if pres[vx_n3 as int] { assert($Y@ =~= b.subrange(off(b, p, n, vx_n3 as int), off(b, p, n, vx_n3 + 1))); if hyp { lemma_ready(b, h, isc, d, e1, am, m3, im, vx_n3 as int, pres, $Y@); } } }''',
       join='''vx_join(&mut vx_a3, &$X); proof { lemma_done_step(l, first, am, m3, vx_a3.data@, im, vx_n3 as int, pres, hyp); lemma_done_len(l, first, am, vx_a3.data@, im, vx_n3 + 1, pres, hyp); }''',
       none2='''proof { lemma_nxt(s3, m3, vx_a3.state, vx_x, vx_n3 as int); lemma_ssum(b, p, 0, vx_n3 as int); lemma_off0(b, p, n, vx_n3 as int); if hyp { assert(c3.len() > 0); assert(w3.len() == 0); assert forall|k: int, i: int| vx_n3 <= k < total(l) && #[trigger] mine(bgeo(l, k), dck(l, first, k), i) implies !pres[k] by { lemma_beyond(b, h, isc, d, e1, im, vx_n3 as int, k, i); } } lemma_done_rest(l, first, am, vx_a3.data@, im, vx_n3 as int, pres, hyp); }''',
       order='''proof { let f = choose|f: Seq<int>| #[trigger] reorder(vx_r3@, vx_o3@, f); assert(reorder(vx_r3@, vx_o3@, f)); assert forall|k: int| (hyp || test) && 0 <= k < vx_o3@.len() implies #[trigger] vx_o3@[k] is Ok by { assert(0 <= f[k] < vx_r3@.len()); } }'''),
     dict(inv='''        invariant %s vx_n4 + vx_v4.len() == vx_w4.len() <= usize::MAX, hyp || test ==> forall|k: int| 0 <= k < vx_v4@.len() ==> #[trigger] vx_v4@[k] is Ok, aux_data@.len() == a0.len(), test ==> aux_data@ == a0, %s,
        decreases vx_v4.len()''' % (GH, END), begin='proof { assert(hyp || test ==> result is Ok); }'),
    ])
CUT = r'''
// ---------------------------------------------------------------- C14: prefixes of a payload
/// the data ends inside the blocks of level f
pub open spec fn inside(b: Seq<u8>, h: Header, f: int, k: int) -> bool { pos(b, h, f) + 4 * nb(h, f) <= k < pos(b, h, f - 1) }
pub proof fn lemma_cut_sum(b: Seq<u8>, k: int, h: Header, f: int, j: int)
    requires hok(h), 0 <= f <= e0(h), 0 <= k <= b.len(), 0 <= j <= nb(h, f), pos(b, h, f) + 4 * nb(h, f) <= k,
    ensures ssum(b.take(k), pos(b, h, f), j) == ssum(b, pos(b, h, f), j), off(b.take(k), pos(b, h, f), nb(h, f), j) == off(b, pos(b, h, f), nb(h, f), j),
{
    lemma_pos_nonneg(b, h, f);
    let p = pos(b, h, f); let c = b.take(k);
    assert forall|i: int| p <= i < p + 4 * j implies b[i] == c[i] by { }
    lemma_ssum_same(b, c, p, j);
}
pub proof fn lemma_pos_cut(b: Seq<u8>, k: int, h: Header, e: int)
    requires hok(h), -1 <= e <= e0(h), 0 <= k <= b.len(), e < e0(h) ==> pos(b, h, e + 1) + 4 * nb(h, e + 1) <= k,
    ensures pos(b.take(k), h, e) == pos(b, h, e),
    decreases e0(h) - e,
{
    if e < e0(h) {
        lemma_lv(h, 0, e + 1);
        if e + 1 < e0(h) { lemma_pos_mono(b, h, e + 1, e + 2); lemma_pos_nonneg(b, h, e + 1); }
        lemma_pos_cut(b, k, h, e + 1);
        lemma_cut_sum(b, k, h, e + 1, nb(h, e + 1));
        lemma_next(b, h, e + 1); lemma_next(b.take(k), h, e + 1);
    }
}
pub proof fn lemma_over(b: Seq<u8>, k: int, h: Header, f: int)
    requires hok(h), 0 <= f <= e0(h), 0 <= k <= b.len(), pos(b, h, f) + 4 * nb(h, f) > k,
    ensures pos(b.take(k), h, f) + 4 * nb(h, f) > k,
    decreases e0(h) - f,
{
    lemma_lv(h, 0, f);
    if f < e0(h) {
        if pos(b, h, f + 1) + 4 * nb(h, f + 1) <= k { lemma_pos_cut(b, k, h, f); }
        else { lemma_over(b, k, h, f + 1); lemma_pos_mono(b.take(k), h, f, f + 1); }
    }
}
/// which blocks of a prefix are complete
pub proof fn lemma_present_cut(b: Seq<u8>, k: int, h: Header, f: int, j: int)
    requires hok(h), 0 <= f <= e0(h), 0 <= k <= b.len(), 0 <= j < nb(h, f),
    ensures present(b.take(k), h, f, j) == (off(b, pos(b, h, f), nb(h, f), j + 1) <= k),
{
    if pos(b, h, f) + 4 * nb(h, f) <= k {
        if f < e0(h) { lemma_lv(h, 0, f); lemma_pos_mono(b, h, f, f + 1); }
        lemma_pos_cut(b, k, h, f);
        lemma_cut_sum(b, k, h, f, j + 1);
    } else {
        lemma_over(b, k, h, f);
        lemma_off(b, pos(b, h, f), nb(h, f), j + 1);
    }
}
pub proof fn lemma_part_cut(b: Seq<u8>, k: int, h: Header, isc: Seq<bool>, d: int, e: int, im: Seq<i16>)
    requires hok(h), 0 <= d, d - 1 <= e <= e0(h), 0 <= k <= b.len(), part(b, pos(b, h, e), h, isc, d, e, im),
    ensures part(b.take(k), pos(b, h, e), h, isc, d, e, im),
    decreases e - d + 1,
{
    if e >= d && pos(b, h, e) + 4 * nb(h, e) <= k {
        let p = pos(b, h, e); let n = nb(h, e); let c = b.take(k);
        lemma_lv(h, 0, e); lemma_pos_nonneg(b, h, e); lemma_next(b, h, e);
        lemma_part(b, p, h, isc, d, e, im);
        lemma_cut_sum(b, k, h, e, n);
        assert forall|j: int| 0 <= j < n && off(c, p, n, j + 1) <= c.len() implies holds_bits(words_of(c.subrange(off(c, p, n, j), off(c, p, n, j + 1))), #[trigger] blkb(h, isc, d, e, j, im)) by {
            lemma_cut_sum(b, k, h, e, j); lemma_cut_sum(b, k, h, e, j + 1); lemma_off(b, p, n, j);
            assert(c.subrange(off(c, p, n, j), off(c, p, n, j + 1)) =~= b.subrange(off(b, p, n, j), off(b, p, n, j + 1)));
            assert(off(b, p, n, j + 1) <= b.len());
        }
        assert(lev_ok(c, p, h, isc, d, e, im));
        lemma_part_cut(b, k, h, isc, d, e - 1, im);
    }
}
pub proof fn lemma_scan_cut(b: Seq<u8>, k: int, h: Header, d: int, e: int, poi: int)
    requires hok(h), 0 <= d <= e <= e0(h), 0 <= k <= b.len(), k < pos(b, h, e) + 4 * nb(h, e) ==> poi > k, e < e0(h) ==> pos(b, h, e + 1) + 4 * nb(h, e + 1) <= k,
    ensures ({ let r = scan(b.take(k), pos(b, h, e), poi, h, d, e);
        &&& (r == Some(0int)) == (pos(b, h, d - 1) <= k)
        &&& (r matches Some(n) ==> n == 0 || n > k)
        &&& r is None <==> k < pos(b, h, e) || exists|f: int| d < f <= e && #[trigger] inside(b, h, f, k) }),
    decreases e - d,
{
    let p = pos(b, h, e); let n = nb(h, e); let c = b.take(k); let q = pos(b, h, e - 1);
    let r = scan(c, p, poi, h, d, e);
    lemma_lv(h, 0, e); lemma_pos_nonneg(b, h, e); lemma_next(b, h, e); lemma_pos_mono(b, h, e - 1, e); lemma_pos_mono(b, h, d - 1, e);
    lemma_scan(c, p, poi, h, d, e);
    if k < p + 4 * n {
        assert forall|f: int| d < f <= e implies !#[trigger] inside(b, h, f, k) by { lemma_lv(h, 0, f); if f < e { lemma_pos_mono(b, h, f, e); } }
        if p > k { assert(r is None); } else { assert(r == Some(poi)); }
    } else {
        lemma_cut_sum(b, k, h, e, n);
        if e > d {
            lemma_four(h, e); lemma_lv(h, 0, e - 1);
            lemma_scan_cut(b, k, h, d, e - 1, q + 16 * n);
            assert(r == scan(c, q, q + 16 * n, h, d, e - 1));
            if k < q { assert(inside(b, h, e, k)); }
            else {
                if r is None { let f = choose|f: int| d < f <= e - 1 && #[trigger] inside(b, h, f, k); assert(d < f <= e && inside(b, h, f, k)); }
                if exists|f: int| d < f <= e && #[trigger] inside(b, h, f, k) { let f = choose|f: int| d < f <= e && #[trigger] inside(b, h, f, k); assert(f != e); assert(d < f <= e - 1); }
            }
        } else {
            assert(r == Some(if q <= k { 0 } else { q }));
        }
    }
}
/// C14: reading the first k bytes of a payload
pub fn cut_payload(aux_data: &mut [i16], header: &Header, payload: &[u8], k: usize, downsampling: usize, test: bool, is_chroma: &[bool], Ghost(im): Ghost<Seq<i16>>) -> (r: Result<usize, DecompressError>)
    requires hok(*header), downsampling < 32, downsampling <= e0(*header), payload.len() < 0x8000_0000, k <= payload.len(), old(aux_data).len() >= isize_(*header, downsampling as int), is_chroma.len() >= header.layers * header.channels,
        // a payload of an image
        im.len() == old(aux_data).len(), down(header.width as int, downsampling as int) * down(header.height as int, downsampling as int) <= i32::MAX, part(payload@, 0, *header, is_chroma@, downsampling as int, e0(*header), im), pos(payload@, *header, downsampling - 1) <= payload.len(),
    ensures ({ let h = *header; let d = downsampling as int; let b = payload@;
        // complete if and only if everything is there that the resolution needs
        &&& (r == Ok::<usize, DecompressError>(0)) == (pos(b, h, d - 1) <= k)
        // otherwise more is needed, or an error if the data ends inside the blocks of a level that isn't the last one
        &&& (r matches Ok(n) ==> n == 0 || n > k)
        &&& (r is Err <==> exists|f: int| d < f <= e0(h) && #[trigger] inside(b, h, f, k as int))
        &&& final(aux_data)@.len() == old(aux_data)@.len()
        &&& (test ==> final(aux_data)@ == old(aux_data)@)
        // blocks that are complete are decoded, the samples of the others stay
        &&& (!test ==> forall|f: int, j: int, i: int| d <= f <= e0(h) && 0 <= j < nb(h, f) && #[trigger] mine(bgeo(lv(h, d, f), j), dcf(h, d, f, j), i) ==> final(aux_data)@[i] == (if off(b, pos(b, h, f), nb(h, f), j + 1) <= k { im[i] } else { old(aux_data)@[i] }))
        &&& (!test && r == Ok::<usize, DecompressError>(0) ==> forall|i: int| 0 <= i < isize_(h, d) ==> #[trigger] final(aux_data)@[i] == im[i])
        &&& forall|i: int| 0 <= i < old(aux_data).len() && isize_(h, d) <= i ==> #[trigger] final(aux_data)@[i] == old(aux_data)@[i]
    })
{
    hide(part); hide(pos); hide(scan); hide(nb); hide(lv); hide(bgeo); hide(mine); hide(present); hide(off); hide(isize_); hide(hok); hide(dcf);
    let ghost h = *header; let ghost d = downsampling as int; let ghost b = payload@; let ghost a0 = aux_data@; let ghost c = b.take(k as int); let ghost tp = e0(h);
    proof {
        lemma_pos_top(b, h, is_chroma@, d, a0, im, true);
        lemma_part_cut(b, k as int, h, is_chroma@, d, tp, im);
        lemma_scan_cut(b, k as int, h, d, tp, k + 1024);
        lemma_hypo(test, c, h, is_chroma@, d, im, a0.len() as int);
    }
    let (prefix, _) = payload.split_at(k);
    proof { assert(prefix@ =~= c); }
    let r = decompress_image_data(aux_data, header, prefix, downsampling, test, is_chroma, Ghost(im));
    proof {
        let a = aux_data@;
        assert forall|i: int| 0 <= i < a0.len() && isize_(h, d) <= i implies #[trigger] a[i] == a0[i] by { }
        if !test {
            assert forall|f: int, j: int, i: int| d <= f <= tp && 0 <= j < nb(h, f) && #[trigger] mine(bgeo(lv(h, d, f), j), dcf(h, d, f, j), i) implies a[i] == (if off(b, pos(b, h, f), nb(h, f), j + 1) <= k { im[i] } else { a0[i] }) by {
                lemma_present_cut(b, k as int, h, f, j);
            }
        }
    }
    r
}
/// C15: decoding at a lower resolution; the payload may end behind the last level that is needed
pub fn down_payload(aux_data: &mut [i16], header: &Header, payload: &[u8], downsampling: usize, is_chroma: &[bool], Ghost(im): Ghost<Seq<i16>>) -> (r: Result<usize, DecompressError>)
    requires hok(*header), downsampling < 32, downsampling <= e0(*header), payload.len() < 0x8000_0000, old(aux_data).len() >= isize_(*header, downsampling as int), is_chroma.len() >= header.layers * header.channels,
        header.width * header.height <= i32::MAX, part(payload@, 0, *header, is_chroma@, 0, e0(*header), im), pos(payload@, *header, downsampling - 1) <= payload.len(),
    ensures r == Ok::<usize, DecompressError>(0), final(aux_data)@.len() == old(aux_data)@.len(),
        // every 2^d-th row and column of what decoding at full resolution yields
        forall|c: int, y: int, x: int| 0 <= c < header.layers * header.channels && 0 <= y < down(header.height as int, downsampling as int) && 0 <= x < down(header.width as int, downsampling as int)
            ==> final(aux_data)@[#[trigger] place(*header, downsampling as int, c, y, x)] == im[place(*header, 0, c, y * p2(downsampling as int), x * p2(downsampling as int))],
{
    hide(part); hide(pos); hide(scan); hide(nb); hide(lv); hide(bgeo); hide(mine); hide(present); hide(off); hide(dcf); hide(fine);
    let ghost h = *header; let ghost d = downsampling as int; let ghost b = payload@; let ghost n = aux_data@.len() as int; let ghost s = dsub(h, d, im, n);
    proof {
        lemma_size(h, d); lemma_top(h, 0); lemma_enter(h, d, d); lemma_lv(h, d, d); lemma_p2(0, 0);
        lemma_part_down(b, 0, h, is_chroma@, d, e0(h), im, n);
        lemma_pos_top(b, h, is_chroma@, d, aux_data@, s, true);
        let w = down(h.width as int, d); let t = down(h.height as int, d);
        assert(w * t <= h.width * h.height) by (nonlinear_arith) requires 0 < w <= h.width, 0 < t <= h.height;
        assert(s.len() == n);
    }
    let r = cut_payload(aux_data, header, payload, payload.len(), downsampling, false, is_chroma, Ghost(s));
    proof {
        assert forall|c: int, y: int, x: int| 0 <= c < h.layers * h.channels && 0 <= y < down(h.height as int, d) && 0 <= x < down(h.width as int, d)
            implies aux_data@[#[trigger] place(h, d, c, y, x)] == im[place(h, 0, c, y * p2(d), x * p2(d))] by {
            let w = down(h.width as int, d); let t = down(h.height as int, d); let z = w * t; let i = place(h, d, c, y, x); let m = nch(h);
            lemma_fine(h, d, c, y, x);
            assert(0 <= y * w && y * w + x < z) by (nonlinear_arith) requires z == w * t, 0 <= y, y + 1 <= t, 0 <= x < w;
            assert(0 <= c * z && c * z + z <= m * z) by (nonlinear_arith) requires 0 <= c, c + 1 <= m, z >= 0;
            assert(0 <= i < isize_(h, d));
            assert(aux_data@[i] == s[i]);
            assert(down(h.width as int, 0) == h.width && down(h.height as int, 0) == h.height);
        }
    }
    r
}
/// sample (c, y, x) of the image scaled down by 2^d
pub open spec fn place(h: Header, d: int, c: int, y: int, x: int) -> int { c * (down(h.width as int, d) * down(h.height as int, d)) + y * down(h.width as int, d) + x }
pub proof fn lemma_hypo(test: bool, b: Seq<u8>, h: Header, isc: Seq<bool>, d: int, im: Seq<i16>, n: int)
    requires d <= e0(h), part(b, 0, h, isc, d, e0(h), im), im.len() == n, down(h.width as int, d) * down(h.height as int, d) <= i32::MAX,
    ensures !test ==> hypo(test, b, h, isc, d, im, n), test ==> !hypo(test, b, h, isc, d, im, n),
{}
'''
ITEMS = P.HEAD + [('struct', M.I, 'Image'), ('struct', M.I, 'ImageChunkIteratorState'), ('struct', M.I, 'ImageChunkIteratorMut'), ('struct', M.I, 'ImageChunkMut'), ('impl', M.I, 'Image', ['from_slice', 'into_chunks_mut']), ('impl', M.I, 'ImageChunkIteratorMut@Iterator', ['next']),
    ('struct', B.F, 'BitsIOReader')] + B.TRAIT_ITEMS + [('impl', B.F, 'BitsIOReader', ['new']), ('impl', B.F, 'BitsIOReader@BitsReader', ['get_bits', 'get_zeros', 'flush_read_word'], B.R_IMPL),
    ('impl', HC.H, 'Header', ['get_chroma_quality', 'get_downsampled_width', 'get_downsampled_height', 'get_downsampled_image_size'])] + P.VITEMS + [('fn', K.F, 'decode'), ('enum', HC.E, 'DecompressError'), ('impl', HC.E, 'DecompressError@From', ['from']), ('fn', F, 'decompress_image_data')]
def hst():
    out = stubs([c for c in H.C if c.path in ('Header::get_chroma_quality', 'Header::get_downsampled_width', 'Header::get_downsampled_height', 'Header::get_downsampled_image_size')], 'header')
    for c in out: c.spec = c.spec.replace('valid(', 'hok(')
    return out
CON = B.traits() + stubs([c for c in B.contracts[len(B.traits()):] if c.path.startswith('BitsIOReader') and c.path != 'BitsIOReader::next_u32'], 'bits') + stubs([c for c in M.CON if c.path in ('Image::from_slice', 'Image::into_chunks_mut', 'ImageChunkIteratorMut::next')], 'image') + hst() \
    + stubs([c for c in K.CODEC if c.path == 'decode'], 'codec') + stubs(P.VCON, 'payload')
UNIT = Unit('decomp', ITEMS, CON + [MAIN], prelude=P.ALLT + proved(LEVEL + GRID + BYTES + PAY + PASS, 'payload') + proved(DOWN, 'down') + B.TRAITS_IO + IO + ERR + JOIN + SPEC + LEM + 'pub type Range = (usize, usize);\n', post=CUT)
