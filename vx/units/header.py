"""C03: what building and reading accept; sizes."""
from extract import Unit, Fn
from units.header_common import *
C = contracts('''        ensures r is Ok <==> accepts(self), r matches Ok(h) ==> valid(h) && h == built(self)''',
'''        ensures r is Ok <==> readable(old(encoded).rem()), r matches Ok(h) ==> valid(h)''')

POST = r'''
pub open spec fn ceil_shift(x: int, d: int) -> int { (x + pow2(d as nat) - 1) / pow2(d as nat) as int }
pub proof fn lemma_shift(x: usize, d: usize)
    requires d < 32, x < 0x4000_0000,
    ensures 1usize << d == pow2(d as nat), 1 <= (1usize << d) <= 0x8000_0000,
        ((x + (1usize << d) - 1) as usize) >> d == ceil_shift(x as int, d as int), 0 <= ceil_shift(x as int, d as int) <= x,
{
    lemma_pow2_pos(d as nat);
    assert(1usize << d <= 0x8000_0000usize && 1usize << d >= 1) by (bit_vector) requires d < 32;
    vstd::bits::lemma_usize_pow2_no_overflow(d as nat);
    vstd::bits::lemma_usize_shl_is_mul(1, d);
    vstd::bits::lemma_usize_shr_is_div((x + (1usize << d) - 1) as usize, d);
    let p = pow2(d as nat) as int;
    let q = (x + p - 1) / p;
    assert(q <= x) by (nonlinear_arith) requires q == (x + p - 1) / p, p >= 1, x >= 0;
    assert(q >= 0) by (nonlinear_arith) requires q == (x + p - 1) / p, p >= 1, x >= 0;
}
pub proof fn lemma_prod(w: int, h: int, l: int, c: int, a: int, b: int)
    requires 0 <= a <= w, 0 <= b <= h, l >= 1, c >= 1,
    ensures 0 <= a * b <= w * h, a * b * l <= w * h * l, a * b * l * c <= w * h * l * c, 0 <= a * b * l, 0 <= a * b * l * c, a * b * l <= a * b * l * c,
        w * h <= w * h * l,
{
    assert(0 <= a * b <= w * h) by (nonlinear_arith) requires 0 <= a <= w, 0 <= b <= h;
    let x = a * b; let y = w * h;
    assert(0 <= x * l <= y * l) by (nonlinear_arith) requires 0 <= x <= y, l >= 1;
    assert(y <= y * l) by (nonlinear_arith) requires 0 <= y, l >= 1;
    let x2 = x * l; let y2 = y * l;
    assert(0 <= x2 * c <= y2 * c) by (nonlinear_arith) requires 0 <= x2 <= y2, c >= 1;
    assert(x2 <= x2 * c) by (nonlinear_arith) requires 0 <= x2, c >= 1;
}
// ---------------------------------------------------------------- C03 as a client of the contracts
/// a header with any acceptable values can be built, and its sizes are the products
pub fn every_header(b: HeaderBuilder) -> (r: Header)
    requires accepts(b),
    ensures valid(r), r.channel_size == b.width * b.height, r.image_size == b.width * b.height * b.layers * b.channels,
{
    let r = b.build();
    match r { Ok(h) => h, Err(_) => { assert(false); vx_never() } }
}
#[verifier::external_body]
pub fn vx_never() -> Header requires false { unimplemented!() }
/// reading is total: whatever the bytes are, there is a result, and it is a valid header exactly for the readable ones
pub fn read_any<R: io::Read>(r: &mut R) -> (x: Option<Header>)
    ensures x is Some <==> readable(old(r).rem()), x matches Some(h) ==> valid(h),
{
    match Header::decode(r) { Ok(h) => Some(h), Err(_) => None }
}
'''
D = 'requires valid(*self), downsampling < 32,\n'
PRD = '''    proof { lemma_shift(self.width as usize, downsampling); lemma_shift(self.height as usize, downsampling);
        lemma_prod(self.width as int, self.height as int, self.layers as int, self.channels as int, ceil_shift(self.width as int, downsampling as int), ceil_shift(self.height as int, downsampling as int)); 
        assert(forall|a: int, b: int| b == 1 ==> #[trigger] (a * b) == a) by (nonlinear_arith); }'''
W_, H_ = 'ceil_shift(self.width as int, downsampling as int)', 'ceil_shift(self.height as int, downsampling as int)'
C += [
    Fn('Header::get_decompress_buffer_size', 'r', '        %s        ensures r == %s * %s * self.layers * self.channels' % (D, W_, H_), entry=PRD),
    Fn('Header::get_downsampled_width', 'r', '        %s        ensures r == %s' % (D, W_), entry=PRD),
    Fn('Header::get_downsampled_height', 'r', '        %s        ensures r == %s' % (D, H_), entry=PRD),
    Fn('Header::get_downsampled_channel_size', 'r', '        %s        ensures r == %s * %s' % (D, W_, H_), entry=PRD),
    Fn('Header::get_downsampled_image_size', 'r', '        %s        ensures r == %s * %s * self.layers * self.channels' % (D, W_, H_), entry=PRD),
    Fn('Header::get_channel_size', 'r', '        requires valid(*self), ensures r == self.width * self.height'),
    Fn('Header::get_image_size', 'r', '        requires valid(*self), ensures r == self.width * self.height * self.layers * self.channels'),
    Fn('Header::get_boost', 'r', '        requires valid(*self), ensures r == (if self.quality == 1024 { 1int } else { 8 })'),
    Fn('Header::get_chroma_quality', 'r', '        requires valid(*self), ensures 1 <= r <= self.quality, self.chroma_scale == 1 ==> r == self.quality,\n            r == ({ let v = (self.quality + self.chroma_scale / 2) / self.chroma_scale as int; if v < 1 { 1 } else { v } })',
       entry='''    proof { let q = self.quality as int; let s = self.chroma_scale as int;
        if s == 1 { assert(q / 1 == q); assert(s / 2 == 0); assert((q + s / 2) / s == q) by (nonlinear_arith) requires s == 1, s / 2 == 0; } else { assert((q + s / 2) / s <= q) by (nonlinear_arith) requires q >= 1, s >= 2; } assert((q + s / 2) / s >= 0) by (nonlinear_arith) requires q >= 1, s >= 1; }'''),
]
UNIT = Unit('header', ITEMS + [('impl', H, 'Header', ['decode', 'get_decompress_buffer_size', 'get_downsampled_width', 'get_downsampled_height', 'get_downsampled_channel_size',
    'get_downsampled_image_size', 'get_channel_size', 'get_image_size', 'get_boost', 'get_chroma_quality'])], C, prelude='use vstd::arithmetic::power2::*;\n' + PRE, post=POST, opt={})
