"""src/header: the wire form of the header (C02) and its validation (C03)."""
from extract import Unit, Fn
H, B, E = 'src/header/mod.rs', 'src/header/builder.rs', 'src/errors.rs'

PRE = r'''
use core::cmp::Ordering;
use vstd::std_specs::cmp::PartialOrdSpec;
pub mod io {
    use vstd::prelude::*;
    pub struct Error { pub x: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
    // ASSUMED: std::io::Read/Write with byteorder: little-endian reads and writes of whole integers over a byte sequence, which fail if and only if it is too short or full
    /// a source of bytes: `rem` is what can still be read
    pub trait Read {
        spec fn rem(&self) -> Seq<u8>;
        fn read_u8(&mut self) -> (r: Result<u8>)
            ensures r is Ok <==> old(self).rem().len() >= 1,
                r matches Ok(v) ==> v == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1);
        fn read_u16<E>(&mut self) -> (r: Result<u16>)
            ensures r is Ok <==> old(self).rem().len() >= 2,
                r matches Ok(v) ==> v == super::le2(old(self).rem(), 0) && final(self).rem() == old(self).rem().skip(2);
        fn read_u24<E>(&mut self) -> (r: Result<u32>)
            ensures r is Ok <==> old(self).rem().len() >= 3,
                r matches Ok(v) ==> v == super::le3(old(self).rem(), 0) && final(self).rem() == old(self).rem().skip(3);
        fn read_u32<E>(&mut self) -> (r: Result<u32>)
            ensures r is Ok <==> old(self).rem().len() >= 4,
                r matches Ok(v) ==> v == super::le4(old(self).rem(), 0) && final(self).rem() == old(self).rem().skip(4);
    }
    /// a sink of bytes: `out` is what was written, `space` is how many more bytes fit
    pub trait Write {
        spec fn out(&self) -> Seq<u8>;
        spec fn space(&self) -> int;
        /// which sink it is: what writing leaves as it is
        #[verifier::prophetic] spec fn id(&self) -> (nat, Seq<u8>);
        fn write_u8(&mut self, n: u8) -> (r: Result<()>)
            ensures r is Ok <==> old(self).space() >= 1,
                r is Ok ==> final(self).out() == old(self).out().push(n) && final(self).space() == old(self).space() - 1 && final(self).id() == old(self).id();
        fn write_u16<E>(&mut self, n: u16) -> (r: Result<()>)
            ensures r is Ok <==> old(self).space() >= 2,
                r is Ok ==> final(self).out() == old(self).out() + super::by(n as int, 2) && final(self).space() == old(self).space() - 2 && final(self).id() == old(self).id();
        fn write_u24<E>(&mut self, n: u32) -> (r: Result<()>)
            requires n < 0x100_0000,
            ensures r is Ok <==> old(self).space() >= 3,
                r is Ok ==> final(self).out() == old(self).out() + super::by(n as int, 3) && final(self).space() == old(self).space() - 3 && final(self).id() == old(self).id();
        fn write_u32<E>(&mut self, n: u32) -> (r: Result<()>)
            ensures r is Ok <==> old(self).space() >= 4,
                r is Ok ==> final(self).out() == old(self).out() + super::by(n as int, 4) && final(self).space() == old(self).space() - 4 && final(self).id() == old(self).id();
    }
}
/// little-endian integers
pub open spec fn le2(b: Seq<u8>, i: int) -> int { b[i] + 256 * b[i + 1] }
pub open spec fn le3(b: Seq<u8>, i: int) -> int { b[i] + 256 * b[i + 1] + 65536 * b[i + 2] }
pub open spec fn le4(b: Seq<u8>, i: int) -> int { b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 0x100_0000 * b[i + 3] }
/// the n low bytes of x, least significant first
pub open spec fn by(x: int, n: int) -> Seq<u8> {
    if n == 2 { seq![(x % 256) as u8, (x / 256 % 256) as u8] }
    else if n == 3 { seq![(x % 256) as u8, (x / 256 % 256) as u8, (x / 65536 % 256) as u8] }
    else { seq![(x % 256) as u8, (x / 256 % 256) as u8, (x / 65536 % 256) as u8, (x / 0x100_0000 % 256) as u8] }
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for HeaderErr {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> HeaderErr { HeaderErr::IOErr(e) }
}
/// 'G' 'F' 'W' 'X'
pub open spec fn magic() -> int { 0x5857_4647 }
/// dimensions and parameters the builder accepts
pub open spec fn dims_ok(w: int, h: int, l: int, c: int) -> bool {
    0 < w < 0x4000_0000 && 0 < h < 0x4000_0000 && l >= 1 && c >= 1 && w * h * l * c <= usize::MAX
}
pub open spec fn parms_ok(q: int, s: int, b: int) -> bool { 1 <= q <= 1024 && 1 <= s && 2 <= b <= 30 }
pub open spec fn valid(h: Header) -> bool {
    dims_ok(h.width as int, h.height as int, h.layers as int, h.channels as int) && parms_ok(h.quality as int, h.chroma_scale as int, h.block_size as int)
    && 1 <= h.bit_depth <= 8 && !h.is_signed
    && h.channel_size == h.width * h.height && h.image_size == h.width * h.height * h.layers * h.channels
}
pub open spec fn built(b: HeaderBuilder) -> Header {
    Header { version: 1, width: b.width, height: b.height, layers: b.layers, channels: b.channels, bit_depth: 8, is_signed: false, quality: b.quality,
        chroma_scale: b.chroma_scale, block_size: b.block_size, filter: b.filter, quantization: Quantization::Scalar, encoder: b.encoder, intent: b.intent,
        metadata_size: b.metadata_size, channel_size: (b.width * b.height) as usize, image_size: (b.width * b.height * b.layers * b.channels) as usize }
}
pub open spec fn accepts(b: HeaderBuilder) -> bool {
    dims_ok(b.width as int, b.height as int, b.layers as int, b.channels as int) && parms_ok(b.quality as int, b.chroma_scale as int, b.block_size as int)
}
// ---------------------------------------------------------------- the 32 bytes
pub open spec fn packed(h: Header) -> int { (h.block_size - 2) + 32 * (h.chroma_scale - 1) + 8192 * (h.quality - 1) + 0x80_0000 * (if h.is_signed { 1int } else { 0 }) }
pub open spec fn wire(h: Header) -> Seq<u8> {
    by(magic(), 4) + by(h.version as int, 4) + by(h.width as int, 4) + by(h.height as int, 4) + by(h.channels - 1, 2) + by(h.layers - 1, 2) + by(packed(h), 3)
    + seq![(h.bit_depth - 1) as u8, h.intent.code(), h.encoder.code(), h.quantization.code(), h.filter.code()] + by(h.metadata_size as int / 4, 4)
}
/// what 32 bytes say
pub open spec fn p_tmp(b: Seq<u8>) -> int { le3(b, 20) }
pub open spec fn readable(b: Seq<u8>) -> bool {
    b.len() >= 32 && le4(b, 0) == magic() && le2(b, 16) < 0xffff && le2(b, 18) < 0xffff && p_tmp(b) / 32 % 256 < 255 && p_tmp(b) < 0x80_0000
    && b[23] < 8 && Intent::of(b[24]) is Some && Encoder::of(b[25]) is Some && Quantization::of(b[26]) is Some && Filter::of(b[27]) is Some
    && le4(b, 28) * 4 <= u32::MAX
    && dims_ok(le4(b, 8), le4(b, 12), le2(b, 18) + 1, le2(b, 16) + 1) && parms_ok(p_tmp(b) / 8192 % 1024 + 1, p_tmp(b) / 32 % 256 + 1, p_tmp(b) % 32 + 2)
}
pub open spec fn parsed(b: Seq<u8>) -> Header {
    Header { version: le4(b, 4) as u32, width: le4(b, 8) as u32, height: le4(b, 12) as u32, layers: (le2(b, 18) + 1) as u16, channels: (le2(b, 16) + 1) as u16,
        bit_depth: (b[23] + 1) as u8, is_signed: false, quality: (p_tmp(b) / 8192 % 1024 + 1) as u16,
        chroma_scale: (p_tmp(b) / 32 % 256 + 1) as u8, block_size: (p_tmp(b) % 32 + 2) as u8, filter: Filter::of(b[27])->0, quantization: Quantization::of(b[26])->0,
        encoder: Encoder::of(b[25])->0, intent: Intent::of(b[24])->0, metadata_size: (le4(b, 28) * 4) as u32,
        channel_size: (le4(b, 8) * le4(b, 12)) as usize, image_size: (le4(b, 8) * le4(b, 12) * (le2(b, 18) + 1) * (le2(b, 16) + 1)) as usize }
}
pub open spec fn same(a: Header, b: Header) -> bool {
    a.version == b.version && a.width == b.width && a.height == b.height && a.layers == b.layers && a.channels == b.channels && a.bit_depth == b.bit_depth
    && a.is_signed == b.is_signed && a.quality == b.quality && a.chroma_scale == b.chroma_scale && a.block_size == b.block_size && a.filter == b.filter
    && a.quantization == b.quantization && a.encoder == b.encoder && a.intent == b.intent && a.metadata_size == b.metadata_size
    && a.channel_size == b.channel_size && a.image_size == b.image_size
}
// ---------------------------------------------------------------- arithmetic
pub proof fn lemma_magic()
    ensures MAGIC == magic(),
{
    assert(0x47u32 | (0x46u32 << 8) | (0x57u32 << 16) | (0x58u32 << 24) == 0x5857_4647u32) by (bit_vector);
    assert('G' as u32 == 0x47u32 && 'F' as u32 == 0x46u32 && 'W' as u32 == 0x57u32 && 'X' as u32 == 0x58u32);
}
pub proof fn lemma_by(x: int)
    requires 0 <= x <= u32::MAX,
    ensures x % 256 + 256 * (x / 256 % 256) + 65536 * (x / 65536 % 256) + 0x100_0000 * (x / 0x100_0000 % 256) == x,
        x < 0x100_0000 ==> x % 256 + 256 * (x / 256 % 256) + 65536 * (x / 65536 % 256) == x,
        x < 0x1_0000 ==> x % 256 + 256 * (x / 256 % 256) == x,
{}
pub proof fn bv_pack(a: u32, b: u32, c: u32, s: u32)
    requires a < 32, b < 256, c < 1024, s < 2,
    ensures (a | (b << 5) | (c << 13) | (s << 23)) == a + 32 * b + 8192 * c + 0x80_0000 * s,
{
    assert((a | (b << 5) | (c << 13) | (s << 23)) == add(add(add(a, mul(32, b)), mul(8192, c)), mul(0x80_0000, s))) by (bit_vector) requires a < 32, b < 256, c < 1024, s < 2;
}
pub proof fn bv_unpack(t: u32)
    requires t < 0x100_0000,
    ensures t & 0b11111 == t % 32, (t >> 5) & 0xff == t / 32 % 256, (t >> 13) & 0b11_1111_1111 == t / 8192 % 1024, (t >> 23) == t / 0x80_0000,
{
    assert(t & 0b11111 == t % 32) by (bit_vector);
    assert((t >> 5) & 0xff == t / 32 % 256) by (bit_vector);
    assert((t >> 13) & 0b11_1111_1111 == t / 8192 % 1024) by (bit_vector);
    assert((t >> 23) == t / 0x80_0000) by (bit_vector);
}
'''
BUILD_ENTRY = '''
    assert(1u32 << 30 == 0x4000_0000u32) by (bit_vector); assert(1u32 << 16 == 0x1_0000u32) by (bit_vector);
    proof {
        assert(forall|a: int, b: int| b == 1 ==> #[trigger] (a * b) == a) by (nonlinear_arith);
        let w = self.width as int; let h = self.height as int; let l = self.layers as int; let c = self.channels as int;
        assert(0 < w < 0x4000_0000 && 0 < h < 0x4000_0000 ==> 0 < w * h < 0x1000_0000_0000_0000) by (nonlinear_arith);
        assert(w * h >= 1 && l >= 1 && c >= 1 ==> w * h * l <= w * h * l * c) by (nonlinear_arith);
        assert(w * h >= 1 && l >= 1 && c >= 1 ==> w * h <= w * h * l) by (nonlinear_arith);
    }
'''
ITEMS = [
    ('enum', E, 'HeaderErr'), ('impl', E, 'HeaderErr@From', ['from']),
    ('enum', H, 'Filter', 'prim'), ('enum', H, 'Quantization', 'prim'), ('enum', H, 'Encoder', 'prim'), ('enum', H, 'Intent', 'prim'),
    ('const', H, 'MAGIC'), ('const', H, 'QUALITY_MAX'), ('struct', H, 'Header'), ('struct', B, 'HeaderBuilder'),
    ('fn', B, 'check_range'),
    ('impl', B, 'HeaderBuilder', ['build']),
]
def contracts(build, decode, decode_entry=''):
    return [
        Fn('check_range', 'r', '''    requires T::obeys_partial_cmp_spec(),
    ensures r is Ok <==> min.partial_cmp_spec(&value) == Some(Ordering::Less) && value.partial_cmp_spec(&max) == Some(Ordering::Less),
        r matches Ok(v) ==> v == value''', subst=[(r'\bDisplay\s*\+\s*|\s*\+\s*Display\b', '')]),
        Fn('HeaderBuilder::build', 'r', build, entry=BUILD_ENTRY, closures='any'),
        Fn('Header::decode', 'r', decode, closures='any', entry='    let ghost b = old(encoded).rem();\n    proof { lemma_magic(); }' + decode_entry, hints=[
            ('after', 'let tmp =', 1, '        proof { bv_unpack(tmp); }')]),
    ]
