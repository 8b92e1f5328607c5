"""src/compress/mod.rs: compress_aux_data and decompress_aux_data (C01, C13), over the contracts of the transforms (unit auxd) and of the payload (units comp, decomp)."""
import re
from extract import Unit, Fn, stubs, proved
from units import header as H, header_common as HC, payload as P, auxd as A, decomp as D, comp as C
from units.comp_theory import GRID
from units.image import LAY
F = 'src/compress/mod.rs'
def spec(t, n): return re.search(r'(?ms)^(?:#\[verifier::opaque\]\n)?pub open spec fn %s\b.*?(?:\}\n(?=pub|///|#|$)|^\}\n)' % n, t).group(0)
def lem(t, n): return re.search(r'(?ms)^pub proof fn %s\b.*?^\{' % n, t).group(0) + ' }\n'
DEFS = 'use vstd::arithmetic::power2::*;\n' + spec(LAY, 'cdiv') + ''.join(spec(GRID, n) for n in ('p2', 'nch', 'down')) + spec(D.SPEC, 'ceil_shift') + spec(D.SPEC, 'isize_') + spec(C.LEM, 'area') + spec(A.LOSSLESS, 'lossless') + r'''
// ---------------------------------------------------------------- what the units comp, decomp and auxd define and prove
pub uninterp spec fn e0(h: Header) -> int;
pub uninterp spec fn scan(b: Seq<u8>, p: int, poi: int, h: Header, d: int, e: int) -> Option<int>;
pub uninterp spec fn hypo(test: bool, b: Seq<u8>, h: Header, isc: Seq<bool>, d: int, im: Seq<i16>, n: int) -> bool;
pub uninterp spec fn settled(b: Seq<u8>, h: Header, d: int, e: int, a: Seq<i16>, m: Seq<i16>, im: Seq<i16>) -> bool;
pub uninterp spec fn upto(c: Seq<u8>, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>) -> bool;
/// the samples that are coded for the samples a
pub uninterp spec fn lq(a: Seq<i16>, h: Header, isc: Seq<bool>) -> Seq<i16>;
/// the samples that are made of the decoded samples a
pub uninterp spec fn uq(a: Seq<i16>, h: Header, isc: Seq<bool>, d: int) -> Seq<i16>;
#[verifier::external_body] /* proved in unit comp */ ''' + lem(C.POST, 'lemma_whole0') + '#[verifier::external_body] /* proved in unit comp */ ' + lem(C.UNIQ, 'lemma_one') + ''.join(
    '#[verifier::external_body] /* proved in unit auxd */ ' + lem(A.LOSSLESS, n).replace('nch(h) * csz(h, 0)', 'isize_(h, 0)').replace('nch(h) * csz(h, d)', 'isize_(h, d)') for n in ('lemma_total', 'theorem_lossless')) + r'''
pub proof fn lemma_sizes(h: Header, d: int)
    requires hok(h), 0 <= d < 32,
    ensures isize_(h, d) == ceil_shift(h.width as int, d) * ceil_shift(h.height as int, d) * h.layers * h.channels, isize_(h, d) == nch(h) * (ceil_shift(h.width as int, d) * ceil_shift(h.height as int, d)), nch(h) == h.layers * h.channels,
        isize_(h, 0) == h.width * h.height * h.layers * h.channels, nch(h) <= 0xffff * 0xffff,
{
    let z = ceil_shift(h.width as int, d) * ceil_shift(h.height as int, d);
    assert(z * h.layers * h.channels == nch(h) * z) by (nonlinear_arith) requires nch(h) == h.layers * h.channels;
    assert(h.layers * h.channels <= 0xffff * 0xffff) by (nonlinear_arith) requires 0 <= h.layers <= 0xffff, 0 <= h.channels <= 0xffff;
    lemma2_to64();
    assert(p2(0) == 1);
    assert(h.width as int / 1int == h.width && h.height as int / 1int == h.height);
}
'''
def hst(names):
    out = stubs([c for c in H.C if c.path in ['Header::' + n for n in names]], 'header')
    for c in out: c.spec = c.spec.replace('valid(', 'hok(')
    return out
def transforms():
    out = stubs([A.main('lift_and_quantize', True), A.main('unlift_and_dequantize', False)], 'auxd')
    for c in out: c.spec = re.sub(r'nch\(\*header\) \* csz\(\*header, ([^)]*)\)', r'isize_(*header, \1)', c.spec)
    return out
CIN = Fn('compress_aux_data', 'r', '''    requires hok(*header), old(buffer).len() <= u32::MAX, area(*header) <= i32::MAX,
    ensures old(aux_data).len() < isize_(*header, 0) || is_chroma.len() < nch(*header) ==> r is Err && final(aux_data)@ == old(aux_data)@ && final(buffer)@ == old(buffer)@,
        old(aux_data).len() >= isize_(*header, 0) && is_chroma.len() >= nch(*header) ==> final(aux_data)@ == lq(old(aux_data)@, *header, is_chroma@),
        r matches Ok(n) ==> n <= final(buffer).len() && final(buffer).len() == old(buffer).len() && old(aux_data).len() >= isize_(*header, 0) && is_chroma.len() >= nch(*header)
            && upto(final(buffer)@.take(n as int), *header, is_chroma@, -1, lq(old(aux_data)@, *header, is_chroma@))''',
    entry='hide(area); hide(isize_); hide(nch); hide(hok); let ghost a0 = aux_data@; proof { reveal(nch); lemma_sizes(*header, 0); if aux_data.len() >= isize_(*header, 0) { lemma_total(a0, *header, is_chroma@, 0); } reveal(hok); }')
DIN = Fn('decompress_aux_data', 'r', '''    requires hok(*header), downsampling < 32, data.len() < 0x8000_0000,
    ensures final(aux_data).len() == old(aux_data).len(),
        old(aux_data).len() < isize_(*header, downsampling as int) || is_chroma.len() < nch(*header) ==> r is Err,
        r is Err && (old(aux_data).len() < isize_(*header, downsampling as int) || is_chroma.len() < nch(*header) || test) ==> final(aux_data)@ == old(aux_data)@,
        r matches Ok(n) ==> scan(data@, 0, (data.len() + 1024) as int, *header, downsampling as int, e0(*header)) == Some(n as int),
        test ==> final(aux_data)@ == old(aux_data)@,
        old(aux_data).len() >= isize_(*header, downsampling as int) && is_chroma.len() >= nch(*header) && (test || hypo(test, data@, *header, is_chroma@, downsampling as int, im, old(aux_data).len() as int)) ==> (r is Err <==> scan(data@, 0, (data.len() + 1024) as int, *header, downsampling as int, e0(*header)) is None),
        r is Ok && !test ==> exists|m: Seq<i16>| {
            &&& m.len() == old(aux_data).len() && final(aux_data)@ == #[trigger] uq(m, *header, is_chroma@, downsampling as int)
            &&& forall|i: int| 0 <= i < m.len() && #[trigger] m[i] != old(aux_data)@[i] ==> i < isize_(*header, downsampling as int)
            &&& (hypo(test, data@, *header, is_chroma@, downsampling as int, im, m.len() as int) ==> settled(data@, *header, downsampling as int, downsampling as int, old(aux_data)@, m, im))
            &&& (hypo(test, data@, *header, is_chroma@, downsampling as int, im, m.len() as int) && r->Ok_0 == 0 ==> forall|i: int| 0 <= i < isize_(*header, downsampling as int) ==> #[trigger] m[i] == im[i])
        }''', params=', Ghost(im): Ghost<Seq<i16>>', subst=[(r'(decompress_image_data\([^;]*?)\)\?', r'\1, Ghost(im))?', 1)],
    entry='hide(isize_); hide(nch); hide(hok); let ghost m0 = aux_data@; proof { reveal(nch); reveal(hok); lemma_sizes(*header, downsampling as int); }',
    hints=[('before', 'if !test || if test', 1, '    let ghost m = aux_data@; proof { lemma_total(m, *header, is_chroma@, downsampling as int); }')])
POST = r'''
/// C01, between the color transforms: what is compressed without loss is decompressed to the same samples
pub fn vx_aux_round_trip(a: &mut [i16], header: &Header, b: &mut [u8], out: &mut [i16], is_chroma: &[bool]) -> (r: Option<Result<usize, DecompressError>>)
    requires hok(*header), old(b).len() < 0x8000_0000, old(a).len() == isize_(*header, 0), old(out).len() == old(a).len(), is_chroma.len() >= nch(*header), area(*header) <= i32::MAX, lossless(*header, is_chroma@),
    ensures r matches Some(q) ==> q is Ok && q->Ok_0 == 0 && final(out)@ == old(a)@,
{
    hide(area); hide(isize_); hide(nch); hide(hok); hide(lossless);
    let ghost a0 = a@; let ghost h = *header; let ghost isc = is_chroma@; let ghost s = lq(a0, h, isc);
    match compress_aux_data(a, header, is_chroma, b) {
        Err(_) => None,
        Ok(n) => {
            let (x, _) = b.split_at(n);
            proof { assert(x@ == b@.take(n as int)); theorem_lossless(a0, h, isc); lemma_whole0(x@, h, isc, s); }
            let ghost o0 = out@;
            let r = decompress_aux_data(x, header, is_chroma, 0, false, out, Ghost(s));
            proof {
                let m = choose|m: Seq<i16>| {
                    &&& m.len() == o0.len() && out@ == #[trigger] uq(m, h, isc, 0)
                    &&& forall|i: int| 0 <= i < isize_(h, 0) ==> #[trigger] m[i] == s[i] };
                assert(m =~= s);
            }
            Some(r)
        }
    }
}
'''
HN = ['get_image_size']
ITEMS = P.HEAD + [('impl', HC.H, 'Header', HN), ('enum', HC.E, 'CompressError'), ('impl', HC.E, 'CompressError@From', ['from']), ('enum', HC.E, 'DecompressError'), ('impl', HC.E, 'DecompressError@From', ['from'])] + [
    ('fn', F, n) for n in ('lift_and_quantize', 'unlift_and_dequantize', 'compress_image_data', 'decompress_image_data', 'compress_aux_data', 'decompress_aux_data')]
UNIT = Unit('auxio', ITEMS, hst(HN) + transforms() + stubs([C.MAIN], 'comp') + stubs([D.MAIN], 'decomp') + [CIN, DIN], prelude=P.HSPEC + D.IO.split('// ASSUMED')[0] + C.ERR + D.ERR + DEFS, post=POST)
