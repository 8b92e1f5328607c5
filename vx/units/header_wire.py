"""C02: the 32 bytes of a header."""
from extract import Unit, Fn
from units.header_common import *
C = contracts('''        ensures accepts(self) ==> r is Ok, r matches Ok(h) ==> h == built(self)''',
'''        ensures readable(old(encoded).rem()) ==> r is Ok,
            r matches Ok(h) ==> same(h, parsed(old(encoded).rem())) && final(encoded).rem() =~= old(encoded).rem().skip(32)''') + [
    Fn('Header::encode', 'r', '''        requires wire_ok(*self),
        ensures r is Ok <==> old(buff).space() >= 32, r is Ok ==> final(buff).out() == old(buff).out() + wire(*self) && final(buff).space() == old(buff).space() - 32 && final(buff).id() == old(buff).id()''',
       entry='    proof { lemma_magic(); }', hints=[
        ('before', 'let tmp =', 1, '        proof { bv_pack((self.block_size - 2) as u32, (self.chroma_scale - 1) as u32, (self.quality - 1) as u32, if self.is_signed { 1u32 } else { 0u32 }); }')],
       exit='')]
POST = r'''
pub proof fn lemma_four(b: Seq<u8>, i: int, x: int)
    requires 0 <= i, i + 4 <= b.len(), 0 <= x <= u32::MAX, b.subrange(i, i + 4) =~= by(x, 4),
    ensures le4(b, i) == x,
{
    lemma_by(x);
    let s = b.subrange(i, i + 4);
    assert(b[i] == s[0] && b[i + 1] == s[1] && b[i + 2] == s[2] && b[i + 3] == s[3]);
}
pub proof fn lemma_two(b: Seq<u8>, i: int, x: int)
    requires 0 <= i, i + 2 <= b.len(), 0 <= x < 0x1_0000, b.subrange(i, i + 2) =~= by(x, 2),
    ensures le2(b, i) == x,
{
    lemma_by(x);
    let s = b.subrange(i, i + 2);
    assert(b[i] == s[0] && b[i + 1] == s[1]);
}
pub proof fn lemma_three(b: Seq<u8>, i: int, x: int)
    requires 0 <= i, i + 3 <= b.len(), 0 <= x < 0x100_0000, b.subrange(i, i + 3) =~= by(x, 3),
    ensures le3(b, i) == x,
{
    lemma_by(x);
    let s = b.subrange(i, i + 3);
    assert(b[i] == s[0] && b[i + 1] == s[1] && b[i + 2] == s[2]);
}
pub proof fn lemma_tmp(h: Header)
    requires wire_ok(h), !h.is_signed, h.block_size <= 30,
    ensures 0 <= packed(h) < 0x80_0000, packed(h) % 32 == h.block_size - 2, packed(h) / 32 % 256 == h.chroma_scale - 1, packed(h) / 8192 % 1024 == h.quality - 1,
{}
pub proof fn lemma_parse(h: Header, tail: Seq<u8>)
    requires valid(h), h.bit_depth == 8, h.metadata_size % 4 == 0,
    ensures wire(h).len() == 32, readable(wire(h) + tail), same(parsed(wire(h) + tail), h), (wire(h) + tail).skip(32) =~= tail,
{
    hide(le4); hide(le2); hide(le3); hide(packed);
    let b = wire(h) + tail;
    lemma_tmp(h);
    lemma_four(b, 0, magic()); lemma_four(b, 4, h.version as int); lemma_four(b, 8, h.width as int); lemma_four(b, 12, h.height as int);
    lemma_two(b, 16, h.channels - 1); lemma_two(b, 18, h.layers - 1); lemma_three(b, 20, packed(h)); lemma_four(b, 28, h.metadata_size as int / 4);
    h.intent.lemma_code(); h.encoder.lemma_code(); h.quantization.lemma_code(); h.filter.lemma_code();
    assert(b[23] == 7 && b[24] == h.intent.code() && b[25] == h.encoder.code() && b[26] == h.quantization.code() && b[27] == h.filter.code());
    assert(readable(b));
    assert(same(parsed(b), h));
}
pub proof fn lemma_wire_len(h: Header)
    ensures wire(h).len() == 32,
{ }
/// C02 as a client of the contracts: build, write, read back whatever follows the bytes
pub fn header_roundtrip<W: io::Write, R: io::Read>(b: HeaderBuilder, w: &mut W, r: &mut R, Ghost(start): Ghost<Seq<u8>>, Ghost(tail): Ghost<Seq<u8>>)
    requires b.metadata_size % 4 == 0, old(w).out() == start, old(w).space() >= 32,
        accepts(b), old(r).rem() == wire(built(b)) + tail,
    ensures final(w).out() == start + wire(built(b)), wire(built(b)).len() == 32, final(r).rem() =~= tail,
{
    proof { lemma_valid(b); lemma_parse(built(b), tail); }
    let h = match b.build() { Ok(h) => h, Err(_) => { assert(false); return; } };
    match h.encode(w) { Ok(_) => {}, Err(_) => { assert(false); return; } }
    let g = match Header::decode(r) { Ok(g) => g, Err(_) => { assert(false); return; } };
    assert(same(g, h));
}
pub proof fn lemma_valid(b: HeaderBuilder)
    requires accepts(b),
    ensures valid(built(b)), wire_ok(built(b)),
{
    let w = b.width as int; let h = b.height as int; let l = b.layers as int; let c = b.channels as int;
    assert(0 < w * h < 0x1000_0000_0000_0000) by (nonlinear_arith) requires 0 < w < 0x4000_0000, 0 < h < 0x4000_0000;
    assert(0 < w * h * l * c) by (nonlinear_arith) requires w * h > 0, l >= 1, c >= 1;
}
'''
UNIT = Unit('header_wire', ITEMS + [('impl', H, 'Header', ['decode', 'encode'])], C, prelude=PRE + r'''
pub open spec fn wire_ok(h: Header) -> bool { h.channels >= 1 && h.layers >= 1 && h.bit_depth >= 1 && 2 <= h.block_size <= 33 && 1 <= h.chroma_scale && 1 <= h.quality <= 1024 }
''', post=POST, opt={})
