"""src/compress/mod.rs: writing of the payload (C16, C12), over the blocks of unit image and the block code of unit codec."""
import re
from extract import Unit, Fn, stubs, proved
from units import bits as B, codec as K, image as M, header as H, header_common as HC, payload as P, decomp as D, program as G
from units.comp_theory import GRID, BYTES, PAY
from units.level_theory import LEVEL
from units.pass_theory import PASS
from units.codec_theory import lemma
F = 'src/compress/mod.rs'
ERR = r'''
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for CompressError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> CompressError { CompressError::IOErr(e) }
}
'''
SINK = r'''
// ---------------------------------------------------------------- bytes that are written
/// a `&mut [u8]` that is written through io::Write: what was written and what is left, as one slice and a position
pub struct VxSink<'a> { pub buf: &'a mut [u8], pub pos: usize }
impl<'a> VxSink<'a> {
    pub open spec fn left(&self) -> int { self.buf@.len() - self.pos }
    /// what is left of the slice
    pub fn len(&self) -> (r: usize)
        requires self.pos <= self.buf.len(),
        ensures r == self.left(),
    { self.buf.len() - self.pos }
}
pub proof fn lemma_le(n: u32, a: u8, b: u8, c: u8, d: u8)
    requires a == n as u8, b == (n >> 8u32) as u8, c == (n >> 16u32) as u8, d == (n >> 24u32) as u8,
    ensures a + 256 * b + 65536 * c + 0x100_0000 * d == n,
{
    let w = n & 0xff; let x = (n >> 8u32) & 0xff; let y = (n >> 16u32) & 0xff; let z = (n >> 24u32) & 0xff;
    assert(n as u8 == (n & 0xff) as u8 && (n >> 8u32) as u8 == ((n >> 8u32) & 0xff) as u8 && (n >> 16u32) as u8 == ((n >> 16u32) & 0xff) as u8 && (n >> 24u32) as u8 == ((n >> 24u32) & 0xff) as u8) by (bit_vector);
    assert(w <= 255 && x <= 255 && y <= 255 && z <= 255 && add(add(w, mul(256, x)), add(mul(65536, y), mul(0x100_0000, z))) == n) by (bit_vector) requires w == n & 0xff, x == (n >> 8u32) & 0xff, y == (n >> 16u32) & 0xff, z == (n >> 24u32) & 0xff;
}
// ASSUMED: byteorder writes little-endian words to a byte slice, and fails if and only if less than four bytes are left
impl<'a> WriteBytesExt for VxSink<'a> {
    open spec fn words(&self) -> Seq<u32> { words_of(self.buf@.take(self.pos as int)) }
    open spec fn can(&self, k: nat) -> bool { self.buf.len() - self.pos >= 4 * k }
    open spec fn wok(&self) -> bool { self.pos <= self.buf.len() && self.pos % 4 == 0 }
    #[verifier::prophetic] open spec fn id(&self) -> (nat, Seq<u8>) { (self.buf@.len(), final(self.buf)@) }
    fn write_u32<E>(&mut self, n: u32) -> (r: io::Result<()>)
    {
        if self.buf.len() - self.pos < 4 { return Err(io::Error { x: 0 }); }
        let ghost b0 = self.buf@; let ghost p = self.pos as int;
        self.buf[self.pos] = n as u8;
        self.buf[self.pos + 1] = (n >> 8u32) as u8;
        self.buf[self.pos + 2] = (n >> 16u32) as u8;
        self.buf[self.pos + 3] = (n >> 24u32) as u8;
        self.pos = self.pos + 4;
        proof {
            let c = self.buf@.take(p + 4);
            lemma_le(n, c[p], c[p + 1], c[p + 2], c[p + 3]);
            let x = words_of(c); let y = words_of(b0.take(p)).push(n);
            assert(x.len() == y.len());
            assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { if i < p / 4 { assert(le4(c, 4 * i) == le4(b0.take(p), 4 * i)); } else { assert(4 * i == p); } }
            assert(x =~= y);
        }
        Ok(())
    }
}
/// slice::chunks_mut
pub struct VxChunksMut<'a> { pub rest: &'a mut [u8], pub n: usize }
impl<'a> VxChunksMut<'a> {
    pub open spec fn cur(&self) -> Seq<u8> { self.rest@ }
    /// what will be there when all is done
    #[verifier::prophetic] pub open spec fn fin(&self) -> Seq<u8> { final(self.rest)@ }
    pub fn more(&self) -> (r: bool) ensures r == (self.cur().len() > 0) { self.rest.len() > 0 }
    pub fn get(&mut self) -> (c: VxSink<'a>)
        requires old(self).n > 0, old(self).cur().len() > 0,
        ensures final(self).n == old(self).n, c.pos == 0,
            c.buf@.len() == (if old(self).cur().len() < old(self).n { old(self).cur().len() as int } else { old(self).n as int }),
            c.buf@ == old(self).cur().take(c.buf@.len() as int), final(self).cur() == old(self).cur().skip(c.buf@.len() as int),
            old(self).fin() == final(c.buf)@ + final(self).fin(),
    {
        let mut s: &mut [u8] = &mut [];
        std::mem::swap(&mut self.rest, &mut s);
        let m = if s.len() < self.n { s.len() } else { self.n };
        let (a, b) = s.split_at_mut(m);
        self.rest = b;
        VxSink { buf: a, pos: 0 }
    }
    pub fn next(&mut self) -> (r: Option<VxSink<'a>>)
        requires old(self).n > 0,
        ensures final(self).n == old(self).n,
            r is None <==> old(self).cur().len() == 0,
            r is None ==> final(self).cur() == old(self).cur() && final(self).fin() == old(self).fin(),
            r matches Some(c) ==> c.pos == 0
                && c.buf@.len() == (if old(self).cur().len() < old(self).n { old(self).cur().len() as int } else { old(self).n as int })
                && c.buf@ == old(self).cur().take(c.buf@.len() as int) && final(self).cur() == old(self).cur().skip(c.buf@.len() as int)
                && old(self).fin() == final(c.buf)@ + final(self).fin(),
    { if self.rest.len() == 0 { None } else { Some(self.get()) } }
}
/// a chunk size of 0 panics
pub fn vx_chunks_mut<'a>(s: &'a mut [u8], n: usize) -> (r: VxChunksMut<'a>)
    requires n > 0,
    ensures r.n == n, r.cur() == old(s)@, r.fin() == final(s)@,
{ VxChunksMut { rest: s, n: n } }
'''
PIECES = r'''
// ---------------------------------------------------------------- the pieces of a level
pub open spec fn cs(y: Seq<Seq<u8>>, k: int) -> int decreases k { if k <= 0 { 0 } else { cs(y, k - 1) + y[k - 1].len() } }
pub open spec fn fits(y: Seq<Seq<u8>>, t: int) -> bool { forall|j: int| 0 <= j < y.len() ==> (#[trigger] y[j]).len() <= t }
pub proof fn lemma_cs(y: Seq<Seq<u8>>, t: int, j: int, k: int)
    requires 0 <= j <= k <= y.len(), fits(y, t), 0 <= t,
    ensures 0 <= cs(y, j) <= cs(y, k) <= k * t, j < k ==> cs(y, j + 1) == cs(y, j) + y[j].len() && cs(y, j + 1) <= cs(y, k), cs(y, 0) == 0,
    decreases k,
{
    if k > 0 {
        if j < k { lemma_cs(y, t, j, k - 1); } else { lemma_cs(y, t, j - 1, k - 1); }
        assert(y[k - 1].len() <= t);
        assert(k * t == (k - 1) * t + t) by (nonlinear_arith);
    }
}
/// the first k codes, one behind the other
pub open spec fn joined(a: Seq<u8>, y: Seq<Seq<u8>>, k: int) -> bool { forall|j: int| 0 <= j < k ==> a.subrange(cs(y, j), cs(y, j) + y[j].len()) == #[trigger] y[j] }
/// the codes from k on, every one in its own piece
pub open spec fn apart(a: Seq<u8>, t: int, y: Seq<Seq<u8>>, k: int) -> bool { forall|j: int| k <= j < y.len() ==> a.subrange(j * t, j * t + y[j].len()) == #[trigger] y[j] }
pub open spec fn moving(a: Seq<u8>, t: int, y: Seq<Seq<u8>>, k: int, i: int) -> bool {
    &&& joined(a, y, k) && apart(a, t, y, k + 1)
    &&& a.subrange(cs(y, k), cs(y, k) + i) == y[k].take(i)
    &&& a.subrange(k * t + i, k * t + y[k].len()) == y[k].skip(i)
}
pub proof fn lemma_room(y: Seq<Seq<u8>>, t: int, len: int, k: int)
    requires 0 <= k < y.len(), fits(y, t), 0 <= t, y.len() * t <= len,
    ensures 0 <= cs(y, k) <= k * t, cs(y, k) + y[k].len() <= k * t + y[k].len() <= k * t + t <= len, cs(y, k + 1) == cs(y, k) + y[k].len(),
{
    lemma_cs(y, t, k, k + 1); lemma_cs(y, t, k, k);
    assert(k * t + t <= y.len() * t) by (nonlinear_arith) requires k + 1 <= y.len(), 0 <= t;
    assert(y[k].len() <= t);
}
pub proof fn lemma_move_begin(a: Seq<u8>, t: int, y: Seq<Seq<u8>>, k: int)
    requires 0 <= k < y.len(), fits(y, t), 0 <= t, y.len() * t <= a.len(), joined(a, y, k), apart(a, t, y, k),
    ensures moving(a, t, y, k, 0), k == 0 ==> joined(a, y, 1) && apart(a, t, y, 1),
{
    lemma_room(y, t, a.len() as int, k);
    assert(a.subrange(k * t, k * t + y[k].len()) == y[k]);
    assert(a.subrange(cs(y, k), cs(y, k) + 0) =~= y[k].take(0));
    assert(a.subrange(k * t + 0, k * t + y[k].len()) =~= y[k].skip(0));
    if k == 0 { assert(0 * t == 0); }
}
pub proof fn lemma_move(a: Seq<u8>, b: Seq<u8>, t: int, y: Seq<Seq<u8>>, k: int, i: int)
    requires 0 <= k < y.len(), fits(y, t), 0 <= t, y.len() * t <= a.len(), moving(a, t, y, k, i), 0 <= i < y[k].len(), b == a.update(cs(y, k) + i, a[k * t + i]),
    ensures moving(b, t, y, k, i + 1),
{
    lemma_room(y, t, a.len() as int, k);
    let c = cs(y, k); let l = y[k].len() as int;
    assert(a[k * t + i] == a.subrange(k * t + i, k * t + l)[0]);
    assert(a[k * t + i] == y[k][i]);
    assert forall|j: int| 0 <= j < k implies b.subrange(cs(y, j), cs(y, j) + y[j].len()) == #[trigger] y[j] by {
        lemma_cs(y, t, j, k);
        assert(a.subrange(cs(y, j), cs(y, j) + y[j].len()) == y[j]);
        assert(b.subrange(cs(y, j), cs(y, j) + y[j].len()) =~= a.subrange(cs(y, j), cs(y, j) + y[j].len()));
    }
    assert forall|j: int| k + 1 <= j < y.len() implies b.subrange(j * t, j * t + y[j].len()) == #[trigger] y[j] by {
        lemma_room(y, t, a.len() as int, j);
        assert(k * t + t <= j * t) by (nonlinear_arith) requires k + 1 <= j, 0 <= t;
        assert(a.subrange(j * t, j * t + y[j].len()) == y[j]);
        assert(b.subrange(j * t, j * t + y[j].len()) =~= a.subrange(j * t, j * t + y[j].len()));
    }
    assert(b.subrange(c, c + i + 1) =~= y[k].take(i + 1)) by {
        assert forall|x: int| 0 <= x < i implies b[c + x] == y[k][x] by { assert(a.subrange(c, c + i)[x] == y[k].take(i)[x]); }
    }
    assert(b.subrange(k * t + i + 1, k * t + l) =~= y[k].skip(i + 1)) by {
        assert forall|x: int| i + 1 <= x < l implies b[k * t + x] == y[k][x] by { assert(a.subrange(k * t + i, k * t + l)[x - i] == y[k].skip(i)[x - i]); }
    }
}
pub proof fn lemma_move_end(a: Seq<u8>, t: int, y: Seq<Seq<u8>>, k: int)
    requires 0 <= k < y.len(), fits(y, t), 0 <= t, y.len() * t <= a.len(), moving(a, t, y, k, y[k].len() as int),
    ensures joined(a, y, k + 1), apart(a, t, y, k + 1),
{
    lemma_room(y, t, a.len() as int, k);
    assert(y[k].take(y[k].len() as int) =~= y[k]);
}
/// the table
pub open spec fn tab(a: Seq<u8>, y: Seq<Seq<u8>>, k: int) -> bool { forall|j: int| 0 <= j < k ==> sz(a, 0, j) == (#[trigger] y[j]).len() }
pub proof fn lemma_tab(a: Seq<u8>, c: Seq<u8>, y: Seq<Seq<u8>>, k: int)
    requires 0 <= k < y.len(), tab(a, y, k), 4 * k + 4 <= a.len(), a.subrange(4 * k, 4 * k + 4) == c, words_of(c) == seq![(y[k].len() / 4) as u32], y[k].len() % 4 == 0, y[k].len() <= u32::MAX,
    ensures tab(a, y, k + 1),
{
    assert(c[0] == a[4 * k] && c[1] == a[4 * k + 1] && c[2] == a[4 * k + 2] && c[3] == a[4 * k + 3]);
    assert(words_of(c)[0] == le4(c, 0) as u32);
    assert(le4(c, 0) == le4(a, 4 * k));
    assert(0 <= le4(c, 0) <= u32::MAX);
    assert(sz(a, 0, k) == y[k].len());
}
/// the codes of a level
pub open spec fn codes(y: Seq<Seq<u8>>, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>) -> bool {
    &&& y.len() == nb(h, e)
    &&& forall|j: int| 0 <= j < y.len() ==> (#[trigger] y[j]).len() % 4 == 0 && holds_bits(words_of(y[j]), blkb(h, isc, 0, e, j, im))
}
pub proof fn lemma_sums(c: Seq<u8>, p: int, y: Seq<Seq<u8>>, t: int, k: int)
    requires 0 <= k <= y.len(), fits(y, t), 0 <= t, forall|j: int| 0 <= j < y.len() ==> sz(c, p, j) == (#[trigger] y[j]).len(),
    ensures ssum(c, p, k) == cs(y, k),
    decreases k,
{ if k > 0 { lemma_sums(c, p, y, t, k - 1); assert(sz(c, p, k - 1) == y[k - 1].len()); } }
/// a level that has been written
pub proof fn lemma_written0(c: Seq<u8>, c0: Seq<u8>, tb: Seq<u8>, bl: Seq<u8>, y: Seq<Seq<u8>>, j: int)
    requires tab(tb, y, y.len() as int), tb.len() == 4 * y.len(), c0.len() + tb.len() <= c.len(), c.take((c0.len() + tb.len()) as int) == c0 + tb, 0 <= j < y.len(),
    ensures sz(c, c0.len() as int, j) == y[j].len(),
{
    let p = c0.len() as int; let d = c.take((c0.len() + tb.len()) as int);
    assert(sz(tb, 0, j) == y[j].len());
    assert(d[p + 4 * j] == tb[4 * j] && d[p + 4 * j + 1] == tb[4 * j + 1] && d[p + 4 * j + 2] == tb[4 * j + 2] && d[p + 4 * j + 3] == tb[4 * j + 3]);
    assert(c[p + 4 * j] == d[p + 4 * j] && c[p + 4 * j + 1] == d[p + 4 * j + 1] && c[p + 4 * j + 2] == d[p + 4 * j + 2] && c[p + 4 * j + 3] == d[p + 4 * j + 3]);
}
pub proof fn lemma_written1(c: Seq<u8>, q: int, bl: Seq<u8>, t: int, y: Seq<Seq<u8>>, j: int)
    requires fits(y, t), 0 <= t, y.len() * t <= bl.len(), joined(bl, y, y.len() as int), 0 <= q <= c.len(), c.skip(q) == bl.take(cs(y, y.len() as int)), 0 <= j < y.len(),
    ensures c.subrange(q + cs(y, j), q + cs(y, j + 1)) == y[j], 0 <= cs(y, j) <= cs(y, j + 1) <= c.len() - q,
{
    let n = y.len() as int; let d = c.skip(q);
    lemma_cs(y, t, j, n); lemma_cs(y, t, n, n); lemma_cs(y, t, j, j + 1);
    let a = cs(y, j); let b = cs(y, j + 1);
    assert(bl.subrange(a, a + y[j].len()) == y[j]);
    assert(d.len() == cs(y, n));
    assert(d.subrange(a, b) =~= bl.subrange(a, b));
    assert(c.subrange(q + a, q + b) =~= d.subrange(a, b));
}
pub proof fn lemma_written(c: Seq<u8>, c0: Seq<u8>, tb: Seq<u8>, bl: Seq<u8>, t: int, y: Seq<Seq<u8>>, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>)
    requires codes(y, h, isc, e, im), fits(y, t), 0 <= t, y.len() * t <= bl.len(), tab(tb, y, y.len() as int), joined(bl, y, y.len() as int), tb.len() == 4 * y.len(), c == c0 + tb + bl.take(cs(y, y.len() as int)),
    ensures off(c, c0.len() as int, nb(h, e), nb(h, e)) == c.len(), lev_ok(c, c0.len() as int, h, isc, 0, e, im),
{
    hide(sz); hide(words_of); hide(holds_bits); hide(blkb); hide(nb); hide(joined); hide(tab); hide(fits); hide(cs);
    let p = c0.len() as int; let n = y.len() as int; let q = p + 4 * n;
    lemma_cs(y, t, n, n);
    assert(c.take((c0.len() + tb.len()) as int) =~= c0 + tb);
    assert(c.skip(q) =~= bl.take(cs(y, n)));
    assert forall|j: int| 0 <= j < n implies sz(c, p, j) == (#[trigger] y[j]).len() by { lemma_written0(c, c0, tb, bl, y, j); }
    lemma_sums(c, p, y, t, n);
    assert forall|j: int| 0 <= j < n && off(c, p, n, j + 1) <= c.len() implies holds_bits(words_of(c.subrange(off(c, p, n, j), off(c, p, n, j + 1))), #[trigger] blkb(h, isc, 0, e, j, im)) by {
        lemma_sums(c, p, y, t, j); lemma_sums(c, p, y, t, j + 1);
        lemma_written1(c, q, bl, t, y, j);
        assert(holds_bits(words_of(y[j]), blkb(h, isc, 0, e, j, im)));
    }
}
// ---------------------------------------------------------------- levels that are written one behind the other
pub proof fn lemma_grow_pos(c0: Seq<u8>, c: Seq<u8>, h: Header, e: int, f: int)
    requires hok(h), 0 <= e <= f <= e0(h), c0.len() <= c.len(), c0 == c.take(c0.len() as int), pos(c0, h, e) == c0.len(),
    ensures pos(c, h, f) == pos(c0, h, f), f > e ==> forall|j: int| 0 <= j <= nb(h, f) ==> #[trigger] off(c, pos(c0, h, f), nb(h, f), j) == off(c0, pos(c0, h, f), nb(h, f), j),
    decreases e0(h) - f,
{
    if f < e0(h) { lemma_grow_pos(c0, c, h, e, f + 1); lemma_next(c, h, f + 1); lemma_next(c0, h, f + 1); lemma_lv(h, 0, f + 1); }
    if f > e {
        let p = pos(c0, h, f); let n = nb(h, f);
        lemma_lv(h, 0, f); lemma_pos_mono(c0, h, e, f);
        assert forall|j: int| 0 <= j <= n implies #[trigger] off(c, p, n, j) == off(c0, p, n, j) by { lemma_ssum_same(c0, c, p, j); }
    }
}
pub proof fn lemma_grow_part(c0: Seq<u8>, c: Seq<u8>, h: Header, isc: Seq<bool>, e: int, f: int, im: Seq<i16>)
    requires hok(h), 0 <= e <= f <= e0(h), c0.len() <= c.len(), c0 == c.take(c0.len() as int), pos(c0, h, e) == c0.len(), part(c0, pos(c0, h, f), h, isc, 0, f, im),
        lev_ok(c, pos(c0, h, e), h, isc, 0, e, im), off(c, pos(c0, h, e), nb(h, e), nb(h, e)) == c.len(),
    ensures part(c, pos(c0, h, f), h, isc, 0, f, im),
    decreases f - e,
{
    lemma_lv(h, 0, f);
    let p = pos(c0, h, f); let n = nb(h, f);
    lemma_grow_pos(c0, c, h, e, f);
    if f == e {
        lemma_pos_nonneg(c0, h, e);
        assert(part(c, c.len() as int, h, isc, 0, e - 1, im)) by { if e >= 1 { lemma_lv(h, 0, e - 1); } }
    } else {
        lemma_pos_mono(c0, h, e, f); lemma_pos_mono(c0, h, f - 1, f); lemma_next(c0, h, f);
        if f - 1 > e { lemma_pos_mono(c0, h, e, f - 1); lemma_lv(h, 0, f - 1); }
        lemma_part(c0, p, h, isc, 0, f, im);
        lemma_grow_part(c0, c, h, isc, e, f - 1, im);
        assert(off(c, p, n, n) == off(c0, p, n, n));
        assert forall|j: int| 0 <= j < n && off(c, p, n, j + 1) <= c.len() implies holds_bits(words_of(c.subrange(off(c, p, n, j), off(c, p, n, j + 1))), #[trigger] blkb(h, isc, 0, f, j, im)) by {
            assert(off(c, p, n, j) == off(c0, p, n, j) && off(c, p, n, j + 1) == off(c0, p, n, j + 1));
            lemma_off(c0, p, n, j); lemma_off(c0, p, n, j + 1); lemma_pos_nonneg(c0, h, f);
            assert(off(c0, p, n, j + 1) <= c0.len());
            assert(c.subrange(off(c, p, n, j), off(c, p, n, j + 1)) =~= c0.subrange(off(c0, p, n, j), off(c0, p, n, j + 1)));
        }
        assert(lev_ok(c, p, h, isc, 0, f, im));
    }
}
/// the first levels of a payload
pub open spec fn upto(c: Seq<u8>, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>) -> bool { part(c, 0, h, isc, 0, e0(h), im) && pos(c, h, e) == c.len() }
pub proof fn lemma_upto0(h: Header, isc: Seq<bool>, im: Seq<i16>)
    requires hok(h),
    ensures upto(Seq::<u8>::empty(), h, isc, e0(h), im),
{ lemma_top(h, 0); lemma_lv(h, 0, e0(h)); }
pub proof fn lemma_upto(c0: Seq<u8>, c: Seq<u8>, tb: Seq<u8>, bl: Seq<u8>, t: int, y: Seq<Seq<u8>>, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>)
    requires hok(h), 0 <= e <= e0(h), upto(c0, h, isc, e, im),
        codes(y, h, isc, e, im), fits(y, t), 0 <= t, y.len() * t <= bl.len(), tab(tb, y, y.len() as int), joined(bl, y, y.len() as int), tb.len() == 4 * y.len(), c == c0 + tb + bl.take(cs(y, y.len() as int)),
    ensures upto(c, h, isc, e - 1, im), c.len() == c0.len() + 4 * y.len() + cs(y, y.len() as int),
{
    lemma_cs(y, t, y.len() as int, y.len() as int);
    lemma_written(c, c0, tb, bl, t, y, h, isc, e, im);
    assert(c0 =~= c.take(c0.len() as int));
    lemma_grow_pos(c0, c, h, e, e);
    assert(pos(c0, h, e0(h)) == 0);
    lemma_grow_part(c0, c, h, isc, e, e0(h), im);
    lemma_next(c, h, e);
}
'''
LEM = r'''
/// what a worker returns for block j, when the pieces hold a in the end
pub open spec fn rok(r: Result<(usize, u32), CompressError>, j: int, a: Seq<u8>, t: int, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>) -> bool {
    r matches Ok(q) ==> q.0 == j && q.1 as int % 4 == 0 && q.1 as int <= t && holds_bits(words_of(a.subrange(j * t, j * t + q.1 as int)), blkb(h, isc, 0, e, j, im))
}
pub open spec fn rv(r: Result<(usize, u32), CompressError>) -> u32 { match r { Ok(q) => q.1, Err(_) => 0 } }
/// the results, in any order
pub open spec fn roks(o: Seq<Result<(usize, u32), CompressError>>, f: Seq<int>, a: Seq<u8>, t: int, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>) -> bool {
    &&& o.len() == nb(h, e) && f.len() == o.len()
    &&& forall|i: int| 0 <= i < o.len() ==> 0 <= #[trigger] f[i] < o.len() && rok(o[i], f[i], a, t, h, isc, e, im)
    &&& forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && #[trigger] f[i] == #[trigger] f[j] ==> i == j
    &&& forall|j: int| 0 <= j < o.len() ==> #[trigger] f.contains(j)
}
/// results that are put where they belong
pub open spec fn put(o: Seq<Result<(usize, u32), CompressError>>, f: Seq<int>, s: Seq<u32>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] o[i]) is Ok && s[f[i]] == rv(o[i]) }
pub proof fn lemma_put(o: Seq<Result<(usize, u32), CompressError>>, f: Seq<int>, s: Seq<u32>, k: int, a: Seq<u8>, t: int, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>)
    requires roks(o, f, a, t, h, isc, e, im), put(o, f, s, k), 0 <= k < o.len(), s.len() == o.len(), o[k] is Ok,
    ensures o[k] matches Ok(q) && q.0 == f[k] && 0 <= f[k] < o.len() && put(o, f, s.update(f[k], q.1), k + 1),
{
    assert(rok(o[k], f[k], a, t, h, isc, e, im));
    let q = o[k]->Ok_0;
    assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] o[i]) is Ok && s.update(f[k], q.1)[f[i]] == rv(o[i]) by { if i < k { assert(f[i] != f[k]); } }
}
pub open spec fn pieces(a: Seq<u8>, t: int, s: Seq<u32>) -> Seq<Seq<u8>> { Seq::new(s.len(), |j: int| a.subrange(j * t, j * t + s[j])) }
pub proof fn lemma_pieces(o: Seq<Result<(usize, u32), CompressError>>, f: Seq<int>, s: Seq<u32>, a: Seq<u8>, t: int, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>)
    requires roks(o, f, a, t, h, isc, e, im), put(o, f, s, o.len() as int), s.len() == o.len(), 0 <= t, nb(h, e) * t <= a.len(),
    ensures ({ let y = pieces(a, t, s); codes(y, h, isc, e, im) && fits(y, t) && apart(a, t, y, 0) && joined(a, y, 0) && y.len() == nb(h, e) && forall|j: int| 0 <= j < y.len() ==> (#[trigger] y[j]).len() == s[j] }),
{
    let y = pieces(a, t, s); let n = s.len() as int;
    assert forall|j: int| 0 <= j < n implies (#[trigger] y[j]).len() == s[j] && s[j] as int % 4 == 0 && s[j] <= t && holds_bits(words_of(y[j]), blkb(h, isc, 0, e, j, im)) by {
        assert(f.contains(j));
        let i = choose|i: int| 0 <= i < f.len() && f[i] == j;
        assert(rok(o[i], f[i], a, t, h, isc, e, im));
        assert(o[i] is Ok);
        assert(j * t + t <= n * t && 0 <= j * t) by (nonlinear_arith) requires 0 <= j, j + 1 <= n, 0 <= t;
    }
}
pub proof fn lemma_roks(v: Seq<Result<(usize, u32), CompressError>>, o: Seq<Result<(usize, u32), CompressError>>, f: Seq<int>, a: Seq<u8>, t: int, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>)
    requires reorder(v, o, f), v.len() == nb(h, e), forall|k: int| 0 <= k < v.len() ==> rok(#[trigger] v[k], k, a, t, h, isc, e, im),
    ensures roks(o, f, a, t, h, isc, e, im),
{ assert forall|i: int| 0 <= i < o.len() implies 0 <= #[trigger] f[i] < o.len() && rok(o[i], f[i], a, t, h, isc, e, im) by { assert(o[i] == v[f[i]]); } }
pub proof fn lemma_pull(y: Seq<Seq<u8>>, t: int, len: int, k: int)
    requires 0 <= k < y.len(), fits(y, t), 0 <= t, y.len() * t <= len <= usize::MAX,
    ensures 0 <= k * t <= usize::MAX, k * t + t <= len,
{ lemma_room(y, t, len, k); }
/// what is before what is written stays
pub proof fn lemma_turn(k: int, n: int, t: int) requires 0 <= k < n, 0 <= t, ensures 0 <= k * t, k * t + t <= n * t, (k + 1) * t == k * t + t { assert(k * t + t <= n * t && 0 <= k * t && (k + 1) * t == k * t + t) by (nonlinear_arith) requires 0 <= k, k + 1 <= n, 0 <= t; }
pub proof fn lemma_cs0(y: Seq<Seq<u8>>, s: Seq<u32>, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>)
    requires codes(y, h, isc, e, im), s.len() == y.len(), forall|j: int| 0 <= j < y.len() ==> (#[trigger] y[j]).len() == s[j],
    ensures cs(y, 0) == 0, forall|j: int| 0 <= j < y.len() ==> (#[trigger] y[j]).len() == s[j] && s[j] as int % 4 == 0,
{ assert(forall|j: int| 0 <= j < y.len() ==> (#[trigger] y[j]).len() % 4 == 0); assert forall|j: int| 0 <= j < y.len() implies (#[trigger] y[j]).len() == s[j] && s[j] as int % 4 == 0 by { assert(y[j].len() % 4 == 0); } }
pub proof fn lemma_room_all(y: Seq<Seq<u8>>, t: int, len: int) requires fits(y, t), 0 <= t, y.len() * t <= len, ensures 0 <= cs(y, y.len() as int) <= len, { lemma_cs(y, t, y.len() as int, y.len() as int); }
pub proof fn lemma_tab0(a: Seq<u8>, y: Seq<Seq<u8>>) ensures tab(a, y, 0) {}
pub proof fn lemma_upto1(b: Seq<u8>, h: Header, isc: Seq<bool>, im: Seq<i16>) requires hok(h), ensures upto(b.take(0), h, isc, e0(h), im) { lemma_upto0(h, isc, im); assert(b.take(0) =~= Seq::<u8>::empty()); }
pub open spec fn area(h: Header) -> int { h.width * h.height }
pub proof fn lemma_nch(h: Header) ensures nch(h) == h.layers * h.channels, area(h) == h.width * h.height {}
pub proof fn lemma_fin(b: Seq<u8>, q: Seq<u8>, f: Seq<u8>, r: Seq<u8>, p: int, t: int)
    requires q == f + r, q == b.skip(p), 0 <= p <= b.len(), f.len() == t,
    ensures b.len() >= p + t, f == b.subrange(p, p + t), r == b.skip(p + t),
{ assert(q.len() == b.len() - p); assert(f =~= q.take(t)); assert(f =~= b.subrange(p, p + t)); assert(r =~= q.skip(t)); assert(r =~= b.skip(p + t)); }
pub proof fn lemma_put0(o: Seq<Result<(usize, u32), CompressError>>, f: Seq<int>, s: Seq<u32>) ensures put(o, f, s, 0) {}
pub proof fn lemma_words0(a: Seq<u8>) ensures words_of(a.take(0)) =~= Seq::<u32>::empty() {}
pub proof fn lemma_word1(a: Seq<u8>, p: int, w: u32)
    requires a.len() == 4, 0 <= p <= 4, p % 4 == 0, words_of(a.take(p)).len() == 1, words_of(a.take(p))[0] == w,
    ensures words_of(a) =~= seq![w],
{ assert(p == 4); assert(a.take(4) =~= a); }
pub proof fn lemma_down1(h: Header) requires hok(h), ensures down(h.width as int, 0) == h.width, down(h.height as int, 0) == h.height, { lemma_p2(0, 0); lemma_down2(h.width as int, 1, 1); lemma_down2(h.height as int, 1, 1); }
pub proof fn lemma_blkb(h: Header, isc: Seq<bool>, e: int, k: int, im: Seq<i16>)
    ensures blkb(h, isc, 0, e, k, im) == block(bgeo(lv(h, 0, e), k), im, cfg(h, isc[chan(lv(h, 0, e), k)], 0), dcf(h, 0, e, k)),
{}
pub proof fn lemma_rok(r: Result<(usize, u32), CompressError>, j: int, a: Seq<u8>, t: int, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>)
    requires r matches Ok(q) ==> q.0 == j && q.1 as int % 4 == 0 && q.1 as int <= t && holds_bits(words_of(a.subrange(j * t, j * t + q.1 as int)), blkb(h, isc, 0, e, j, im)),
    ensures rok(r, j, a, t, h, isc, e, im),
{}
pub proof fn lemma_cfg0(h: Header, isc: bool)
    requires hok(h),
    ensures cfg(h, isc, 0) == (Cf { sch: h.encoder, q: bq(h, isc), chroma: isc }), 0 <= bq(h, isc) <= 1024,
{ lemma_cq(h); lemma_p2(0, 0); let q = bq(h, isc); assert(q * p2(0) == q) by (nonlinear_arith) requires p2(0) == 1; }
'''
WORK = Fn('vx_encode_block', 'Result<(usize, u32), CompressError>', '''    requires hok(*header), chunk_ok(*old($X)), $X.channel < is_chroma.len(), chroma_quality == cq(*header), $Y.pos == 0, $Y.buf.len() <= u32::MAX, (geo(*old($X)).y1 - geo(*old($X)).y0) * (geo(*old($X)).x1 - geo(*old($X)).x0) <= i32::MAX,
    ensures geo(*final($X)) == geo(*old($X)), final($X).data_len == old($X).data_len, chunk_ok(*final($X)), mem(final($X).data_ptr) == mem(old($X).data_ptr), final($Y.buf)@.len() == old($Y.buf)@.len(),
        r matches Ok(q) ==> q.0 == $I && q.1 as int % 4 == 0 && q.1 as int <= final($Y.buf)@.len()
            && holds_bits(words_of(final($Y.buf)@.take(q.1 as int)), block(geo(*old($X)), mem(old($X).data_ptr), cfg(*header, is_chroma[old($X).channel as int], 0), has_dc && old($X).x_range.0 == 0 && old($X).y_range.0 == 0)),''',
    params="header: &Header, is_chroma: &[bool], chroma_quality: i32, has_dc: bool, $I: usize, $X: &mut ImageChunkMut<i16>, $Y: VxSink<'_>",
    entry='''    hide(chunk_ok); hide(block); hide(cfg); hide(cq);
    let ghost g = geo(*aux_data_chunk); let ghost ba = (g.y1 - g.y0) * (g.x1 - g.x0);
    let mut output_block = output_block; let ghost b0 = output_block.buf@;
    proof { lemma_cfg0(*header, is_chroma[aux_data_chunk.channel as int]); lemma_cq(*header); assert(words_of(b0.take(0)) =~= Seq::<u32>::empty()); assert(wbits(Seq::<u32>::empty()) =~= Seq::<bool>::empty()); }''',
    hints=[('after', 'output_block_writer.flush_write_word', 1, '''        proof {
            let w = output_block_writer.write_stream.words();
            assert(output_block_writer.index_bits == 0);
            assert(output_block_writer.bits() =~= wbits(w));
            let k = block(geo(*aux_data_chunk), mem(aux_data_chunk.data_ptr), cfg(*header, is_chroma[channel as int], 0), has_dc && is_first_block_in_channel);
            assert(Seq::<bool>::empty() + k =~= k);
            assert(holds_bits(w, k));
        }''')])
GH = '''a0 == old(aux_data)@, hok(*header), h == *header, isc == is_chroma@, width == h.width, height == h.height, layers == h.layers, channels == h.channels, chroma_quality == cq(h), isc.len() >= nch(h), tp == e0(h), 0 <= tp <= 29,
            isize_(h, 0) <= a0.len() <= usize::MAX, area(h) <= i32::MAX, buffer.len() == nbuf <= u32::MAX, nbuf == old(buffer).len(),'''
MAIN = Fn('compress_image_data', 'r', '''    requires hok(*header), old(buffer).len() <= u32::MAX, old(aux_data).len() >= isize_(*header, 0), is_chroma.len() >= nch(*header), area(*header) <= i32::MAX,
    ensures final(aux_data)@ == old(aux_data)@,
        r matches Ok(n) ==> n <= final(buffer).len() && final(buffer).len() == old(buffer).len() && upto(final(buffer)@.take(n as int), *header, is_chroma@, -1, old(aux_data)@),''', worker=WORK, attrs='#[verifier::spinoff_prover]',
    entry='''    hide(lay_ok); hide(part); hide(pos); hide(lev_ok); hide(nb); hide(total); hide(bgeo); hide(lv); hide(chunk_ok); hide(st_at); hide(hok); hide(cq); hide(blkb); hide(cfg); hide(words_of); hide(isize_); hide(down); hide(sz); hide(ssum); hide(off); hide(dck); hide(upto); hide(codes); hide(fits); hide(tab); hide(joined); hide(apart); hide(moving); hide(roks); hide(rok); hide(put); hide(pieces); hide(cs); hide(block); hide(nch); hide(area);
    let ghost h = *header; let ghost isc = is_chroma@; let ghost a0 = aux_data@; let ghost tp = e0(h); let ghost mut e: int = 0; let ghost nbuf = buffer.len() as int;
    proof { lemma_top(h, 0); lemma_sized(h, 0); lemma_size(h, 0); lemma_p2(0, 0); lemma_down1(h); lemma_cq(h); lemma_upto1(buffer@, h, isc, a0); }''',
    hints=[
     ('before', 'let ( _ , buffer_remainder )', 1, '        let ghost c0 = buffer@.take(compressed_size as int); let ghost p = compressed_size as int;'),
     ('before', 'let aux_data_chunks', 1, '        proof { assert(channels * layers == layers * channels) by (nonlinear_arith); lemma_nch(h); lemma_lay(h, 0, e); lemma_down1(h); lemma_cq(h); }'),
     ('before', 'let block_encode_results', 1, '        let ghost t = temp_block_size as int; proof { assert(n * t <= blocks_buffer@.len()) by (nonlinear_arith) requires t == blocks_buffer_free_space as int / n, n >= 1, blocks_buffer_free_space == blocks_buffer@.len(); }'),
     ('before', 'let mut sorted_block_encode_results', 1, '        let ghost bb = blocks_buffer@; let ghost rs = block_encode_results@; let ghost f = choose|f: Seq<int>| #[trigger] roks(block_encode_results@, f, blocks_buffer@, t, h, isc, e1, a0);'),
     ('before', 'let mut tail_pos', 1, '        let ghost y = pieces(blocks_buffer@, t, sorted_block_encode_results@); proof { lemma_pieces(rs, f, sorted_block_encode_results@, blocks_buffer@, t, h, isc, e1, a0); lemma_cs0(y, sorted_block_encode_results@, h, isc, e1, a0); } let ghost bl = blocks_buffer.len();'),
     ('before', 'Ok(compressed_size)', -1, '    proof { if e >= 0 { lemma_p2(e, 0); } }'),
     ('before', 'has_dc = false || step /= 2 || step >>= 1', 1, '''        proof { assert(step >> 1 == step / 2) by (bit_vector); let c = buffer@.take(compressed_size as int); let tb = block_sizes_buffer@; let b2 = blocks_buffer@; lemma_cs(y, t, n, n); lemma_room_all(y, t, bl as int);
            assert(c =~= c0 + tb + b2.take(cs(y, n))); lemma_upto(c0, c, tb, b2, t, y, h, isc, e1, a0);
            if e >= 1 { lemma_p2(e - 1, 0); } else { assert(p2(0) == 1); } e = e - 1; }'''),
    ],
    loops=[
     dict(inv='''    invariant hok(h), width == h.width, height == h.height, 0 <= e <= 29, step == p2(e), step <= 0x2000_0000, e0(h) == top(h, e),
    decreases 0x4000_0000 - step''', begin='proof { reveal(hok); lemma_p2(e, 0); lemma_p2(e, 29); lemma_p2(29, 0); assert(e < 29); }', end='proof { e = e + 1; lemma_p2(e, 29); }',
          post='proof { assert(e == tp); lemma_enter(h, 0, tp); }'),
     dict(inv='''    invariant %s -1 <= e <= tp, step == (if e >= 0 { p2(e) } else { 0 }), has_dc == (e == tp), compressed_size <= nbuf, aux_data@ == a0, upto(buffer@.take(compressed_size as int), h, isc, e, a0),
    decreases e + 1''' % GH, begin='''
        let ghost l = lv(h, 0, e); let ghost n = nb(h, e); let ghost am = aux_data@; let ghost first = e == tp; let ghost e1 = e;
        proof { assert(e >= 0); lemma_enter(h, 0, e); lemma_p2(0, 0); lemma_size(h, 0); vx_sizes(); }'''),
     dict(pre='let ghost fin2 = itfin(vx_a2); let ghost bb = vx_b2.fin(); let ghost sl = vx_b2.cur().len(); proof { assert(bb.skip(0) =~= bb); }', call='header, is_chroma, chroma_quality, has_dc, $I, &mut $X, $Y',
       inv='''invariant_except_break 0 <= vx_n2 <= n, lay(vx_a2.state) == l, st_at(vx_a2.state, vx_n2 as int), vx_a2.data@ == am, vx_b2.cur().len() == sl - vx_n2 * t, vx_b2.fin() == bb.skip(vx_n2 * t), vx_n2 * t >= 0,
            invariant hok(h), h == *header, isc == is_chroma@, chroma_quality == cq(h), isc.len() >= nch(h), tp == e0(h), 0 <= e1 <= tp, l == lv(h, 0, e1), n == nb(h, e1), first == (e1 == tp), has_dc == first,
            lay_ok(l), l.b > 0, total(l) == n, l.n == nch(h), l.n * (l.w * l.h) <= am.len() <= usize::MAX, l.w * l.h <= i32::MAX, vx_b2.n == t, 0 < t <= u32::MAX, n <= usize::MAX, n * t <= sl, vx_n2 * t <= bb.len(), fin2 == itfin(vx_a2), vx_a2.data@ == am, am == a0, vx_r2@.len() == vx_n2,
            forall|k: int| 0 <= k < vx_n2 ==> rok(#[trigger] vx_r2@[k], k, bb, t, h, isc, e1, a0),
        ensures vx_r2@.len() == n, vx_b2.fin() == bb.skip(n * t), vx_b2.cur().len() == sl - n * t, 0 <= n * t <= bb.len(),
        decreases n - vx_n2''',
       top='let ghost s2 = vx_a2.state; let ghost m2 = vx_a2.data@; let ghost q2 = vx_b2.fin(); let ghost k2 = vx_n2 as int;', none='proof { lemma_nxt_none(s2, m2, vx_a2.state, vx_n2 as int); }',
       begin='''
            proof { lemma_nxt(s2, m2, vx_a2.state, $X, k2); lemma_block(l, k2, am.len() as int); lemma_pos(l, k2); lemma_dc(l, first, k2); lemma_area(l, k2); lemma_turn(k2, n, t); lemma_dck(h, 0, e1, k2); }
            let ghost fy = final($Y.buf)@;''',
       join='''vx_join(&mut vx_a2, &$X); proof {  lemma_fin(bb, q2, fy, vx_b2.fin(), k2 * t, t); assert((k2 + 1) * t == k2 * t + t); if let Ok(q) = vx_z { assert(fy.take(q.1 as int) =~= bb.subrange(k2 * t, k2 * t + q.1)); } lemma_blkb(h, isc, e1, k2, a0); lemma_rok(vx_z, k2, bb, t, h, isc, e1, a0); }''',
       none2='''proof { lemma_nxt(s2, m2, vx_a2.state, vx_x, k2); lemma_turn(k2, n, t); assert(false); }''',
       order='''proof { let f = choose|f: Seq<int>| #[trigger] reorder(vx_r2@, vx_o2@, f); assert(reorder(vx_r2@, vx_o2@, f)); assert(has_resolved(vx_b2)); assert(vx_b2.fin() == vx_b2.cur()); assert(bb.skip(n * t).len() == bb.len() - n * t); assert(bb.len() == sl); assert(blocks_buffer@ == bb); lemma_roks(vx_r2@, vx_o2@, f, bb, t, h, isc, e1, a0); }'''),
     dict(inv='''        invariant a0 == old(aux_data)@, vx_n3 + vx_v3.len() == rs.len() == n, vx_w3 == rs, vx_v3@ == rs.skip(vx_n3 as int), aux_data@ == a0, sorted_block_encode_results.len() == n, roks(rs, f, bb, t, h, isc, e1, a0), put(rs, f, sorted_block_encode_results@, vx_n3 as int),
        decreases vx_v3.len()''',
        begin='proof { assert(result == rs[vx_n3 - 1]); assert(vx_v3@ =~= rs.skip(vx_n3 as int)); if result is Ok { lemma_put(rs, f, sorted_block_encode_results@, vx_n3 - 1, bb, t, h, isc, e1, a0); } }',
        pre='proof { assert(rs.skip(0) =~= rs); lemma_put0(rs, f, sorted_block_encode_results@); }', post='proof { assert(put(rs, f, sorted_block_encode_results@, n)); }'),
     dict(setup='let ghost ss = sorted_block_encode_results@; proof { assert(ss.skip(0) =~= ss); vx_sizes(); }', pre='let ghost tb = vx_c4.fin(); proof { assert(tb.skip(0) =~= tb); lemma_tab0(tb, y); }', inv='''        invariant vx_n4 + vx_v4.len() == n == y.len(), vx_v4@ == ss.skip(vx_n4 as int), ss.len() == n, vx_c4.n == 4, vx_c4.cur().len() == 4 * n - 4 * vx_n4, vx_c4.fin() == tb.skip(4 * vx_n4), 4 * vx_n4 <= tb.len(), tab(tb, y, vx_n4 as int), blocks_buffer.len() == bl, joined(blocks_buffer@, y, vx_n4 as int), apart(blocks_buffer@, t, y, vx_n4 as int),
            tail_pos == cs(y, vx_n4 as int), compressed_size == p + 4 * n + cs(y, vx_n4 as int), fits(y, t), 0 < t == temp_block_size, n * t <= bl, 0 <= p, p + 4 * n + bl == nbuf <= u32::MAX, forall|j: int| 0 <= j < n ==> (#[trigger] y[j]).len() == ss[j] && ss[j] as int % 4 == 0, aux_data@ == a0, a0 == old(aux_data)@, nbuf == old(buffer).len(),
        decreases vx_v4.len()''', begin='''
            let ghost k = vx_n4 - 1; let ghost fy = final(block_size_buffer.buf)@; let ghost w0 = block_size_buffer.words();
            let ghost q4 = tb.skip(4 * k);
            proof { assert(block_size == ss[k]); assert(y[k].len() == ss[k]); assert(vx_v4@ =~= ss.skip(k + 1)); assert(tb.skip(4 * k) =~= fy + vx_c4.fin()); lemma_room(y, t, bl as int, k); lemma_move_begin(blocks_buffer@, t, y, k); lemma_words0(block_size_buffer.buf@); assert(w0 =~= Seq::<u32>::empty()); lemma_turn(k, n, t); }''',
        end='''
            proof { assert(has_resolved(block_size_buffer)); assert(fy.len() == 4); lemma_fin(tb, q4, fy, vx_c4.fin(), 4 * k, 4); if k != 0 { lemma_move_end(blocks_buffer@, t, y, k); }
                lemma_word1(block_size_buffer.buf@, block_size_buffer.pos as int, (ss[k] / 4) as u32); assert(block_size_buffer.words() =~= seq![(ss[k] / 4) as u32]); lemma_tab(tb, fy, y, k); }''',
        post='proof { assert(block_sizes_buffer@ == tb); }'),
     dict(inv='''        invariant moving(blocks_buffer@, t, y, k, i as int), 0 <= k < n, y.len() == n, block_start == k * t, tail_pos == cs(y, k), block_size == y[k].len(), n * t <= bl, blocks_buffer.len() == bl <= u32::MAX, fits(y, t), 0 < t,''',
        begin='let ghost ab = blocks_buffer@; proof { lemma_room(y, t, bl as int, k); }', end='; proof { assert(blocks_buffer@ =~= ab.update(cs(y, k) + i, ab[k * t + i])); lemma_move(ab, blocks_buffer@, t, y, k, i as int); }'),
    ])
UNIQ = r'''
// ---------------------------------------------------------------- there is one payload
pub proof fn lemma_bytes_inj(a: Seq<u8>, b: Seq<u8>)
    requires words_of(a) =~= words_of(b), a.len() % 4 == 0, b.len() % 4 == 0,
    ensures a =~= b,
{
    assert(words_of(a).len() == a.len() / 4 && words_of(b).len() == b.len() / 4);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        let k = i / 4;
        assert(words_of(a)[k] == words_of(b)[k]);
        assert(words_of(a)[k] == le4(a, 4 * k) as u32 && words_of(b)[k] == le4(b, 4 * k) as u32);
        lemma_le4_inj(a, b, 4 * k);
        assert(i == 4 * k || i == 4 * k + 1 || i == 4 * k + 2 || i == 4 * k + 3);
    }
}
pub proof fn lemma_le4_inj(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i, i + 4 <= a.len(), i + 4 <= b.len(), le4(a, i) as u32 == le4(b, i) as u32 || le4(a, i) == le4(b, i),
    ensures a[i] == b[i], a[i + 1] == b[i + 1], a[i + 2] == b[i + 2], a[i + 3] == b[i + 3],
{
    lemma_le4_max(a, i); lemma_le4_max(b, i);
    assert(le4(a, i) == le4(b, i));
    lemma_digits(a[i] as int, a[i + 1] as int, a[i + 2] as int, a[i + 3] as int, b[i] as int, b[i + 1] as int, b[i + 2] as int, b[i + 3] as int);
}
pub proof fn lemma_le4_max(a: Seq<u8>, i: int)
    requires 0 <= i, i + 4 <= a.len(),
    ensures 0 <= le4(a, i) <= u32::MAX, le4(a, i) == a[i] + 256 * a[i + 1] + 65536 * a[i + 2] + 0x100_0000 * a[i + 3],
{}
pub proof fn lemma_digits(a: int, b: int, c: int, d: int, w: int, x: int, y: int, z: int)
    requires 0 <= a < 256, 0 <= b < 256, 0 <= c < 256, 0 <= d < 256, 0 <= w < 256, 0 <= x < 256, 0 <= y < 256, 0 <= z < 256,
        a + 256 * b + 65536 * c + 0x100_0000 * d == w + 256 * x + 65536 * y + 0x100_0000 * z,
    ensures a == w, b == x, c == y, d == z,
{ assert(a == w); assert(b == x); assert(c == y); }
/// one word sequence holds a code
pub proof fn lemma_holds_one(a: Seq<u32>, b: Seq<u32>, x: Seq<bool>)
    requires holds_bits(a, x), holds_bits(b, x),
    ensures a =~= b,
{ assert(a.len() == b.len()); lemma_wbits_inj(a, b); }
pub proof fn lemma_block_one(b: Seq<u8>, c: Seq<u8>, p: int, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>, k: int)
    requires 0 <= k < nb(h, e), 0 <= p, lev_ok(b, p, h, isc, 0, e, im), lev_ok(c, p, h, isc, 0, e, im), off(b, p, nb(h, e), k) == off(c, p, nb(h, e), k),
        off(b, p, nb(h, e), k + 1) <= b.len(), off(c, p, nb(h, e), k + 1) <= c.len(),
    ensures sz(b, p, k) == sz(c, p, k), off(b, p, nb(h, e), k + 1) == off(c, p, nb(h, e), k + 1),
        b.subrange(off(b, p, nb(h, e), k), off(b, p, nb(h, e), k + 1)) == c.subrange(off(b, p, nb(h, e), k), off(b, p, nb(h, e), k + 1)),
{
    hide(words_of); hide(holds_bits); hide(blkb); hide(nb);
    let n = nb(h, e); let x = blkb(h, isc, 0, e, k, im);
    lemma_off(b, p, n, k); lemma_off(c, p, n, k);
    let s = b.subrange(off(b, p, n, k), off(b, p, n, k + 1)); let t = c.subrange(off(c, p, n, k), off(c, p, n, k + 1));
    assert(holds_bits(words_of(s), x) && holds_bits(words_of(t), x));
    lemma_holds_one(words_of(s), words_of(t), x);
    assert(s.len() == sz(b, p, k) && t.len() == sz(c, p, k));
    assert(s.len() % 4 == 0 && t.len() % 4 == 0);
    lemma_bytes_inj(s, t);
}
pub proof fn lemma_offs_one(b: Seq<u8>, c: Seq<u8>, p: int, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>, k: int)
    requires 0 <= k <= nb(h, e), 0 <= p, lev_ok(b, p, h, isc, 0, e, im), lev_ok(c, p, h, isc, 0, e, im), off(b, p, nb(h, e), nb(h, e)) <= b.len(), off(c, p, nb(h, e), nb(h, e)) <= c.len(),
    ensures off(b, p, nb(h, e), k) == off(c, p, nb(h, e), k), forall|j: int| 0 <= j < k ==> #[trigger] sz(b, p, j) == sz(c, p, j),
    decreases k,
{
    hide(lev_ok); hide(nb); hide(sz);
    if k > 0 {
        lemma_offs_one(b, c, p, h, isc, e, im, k - 1);
        lemma_ssum(b, p, k, nb(h, e)); lemma_ssum(c, p, k, nb(h, e));
        lemma_block_one(b, c, p, h, isc, e, im, k - 1);
    }
}
pub proof fn lemma_level_one(b: Seq<u8>, c: Seq<u8>, p: int, h: Header, isc: Seq<bool>, e: int, im: Seq<i16>, k: int)
    requires 0 <= k <= nb(h, e), 0 <= p, lev_ok(b, p, h, isc, 0, e, im), lev_ok(c, p, h, isc, 0, e, im), off(b, p, nb(h, e), nb(h, e)) <= b.len(), off(c, p, nb(h, e), nb(h, e)) <= c.len(), b.take(p) == c.take(p), p <= b.len(), p <= c.len(),
    ensures off(b, p, nb(h, e), k) == off(c, p, nb(h, e), k), b.take(off(b, p, nb(h, e), k)) == c.take(off(b, p, nb(h, e), k)),
    decreases k,
{
    hide(lev_ok); hide(nb); hide(le4);
    let n = nb(h, e);
    lemma_ssum(b, p, k, n); lemma_ssum(c, p, k, n);
    if k == 0 {
        lemma_offs_one(b, c, p, h, isc, e, im, n);
        let q = p + 4 * n;
        assert forall|i: int| 0 <= i < q implies b[i] == c[i] by {
            if i < p { assert(b.take(p)[i] == c.take(p)[i]); assert(b[i] == b.take(p)[i]); assert(c[i] == c.take(p)[i]); assert(b[i] == c[i]); } else { let j = (i - p) / 4; let x = p + 4 * j; assert(sz(b, p, j) == sz(c, p, j)); lemma_le4_inj(b, c, x); let y = i - x; assert(0 <= y < 4); if y == 0 { assert(i == x); } else if y == 1 { assert(i == x + 1); } else if y == 2 { assert(i == x + 2); } else { assert(i == x + 3); } assert(b[i] == c[i]); }
            assert(b[i] == c[i]);
        }
        assert(b.take(q) =~= c.take(q));
    } else {
        lemma_level_one(b, c, p, h, isc, e, im, k - 1);
        lemma_ssum(b, p, k - 1, k); lemma_ssum(c, p, k - 1, k);
        lemma_block_one(b, c, p, h, isc, e, im, k - 1);
        let o = off(b, p, n, k - 1); let q = off(b, p, n, k);
        assert forall|i: int| 0 <= i < q implies b[i] == c[i] by { if i < o { assert(b.take(o)[i] == c.take(o)[i]); } else { assert(b.subrange(o, q)[i - o] == c.subrange(o, q)[i - o]); } }
        assert(b.take(q) =~= c.take(q));
    }
}
pub proof fn lemma_one_upto(b: Seq<u8>, c: Seq<u8>, h: Header, isc: Seq<bool>, im: Seq<i16>, e: int)
    requires hok(h), -1 <= e <= e0(h), upto(b, h, isc, -1, im), upto(c, h, isc, -1, im),
    ensures pos(b, h, e) == pos(c, h, e), 0 <= pos(b, h, e) <= b.len(), pos(b, h, e) <= c.len(), b.take(pos(b, h, e)) == c.take(pos(b, h, e)), part(b, pos(b, h, e), h, isc, 0, e, im), part(c, pos(c, h, e), h, isc, 0, e, im),
    decreases e0(h) - e,
{
    hide(lev_ok); hide(nb); hide(hok); hide(off);
    lemma_top(h, 0);
    if e == e0(h) {
        lemma_pos_nonneg(b, h, e); lemma_pos_mono(b, h, -1, e); lemma_pos_mono(c, h, -1, e);
        assert(b.take(0) =~= c.take(0));
    } else {
        let f = e + 1;
        lemma_one_upto(b, c, h, isc, im, f);
        lemma_next(b, h, f); lemma_next(c, h, f); lemma_lv(h, 0, f);
        if e > -1 { lemma_lv(h, 0, e); lemma_pos_mono(b, h, -1, e); lemma_pos_mono(c, h, -1, e); } else { assert(e == -1); assert(pos(b, h, e) == pos(b, h, -1) && pos(c, h, e) == pos(c, h, -1)); } assert(pos(b, h, e) <= b.len() && pos(c, h, e) <= c.len()); lemma_pos_mono(b, h, e, f); lemma_pos_nonneg(b, h, e);
        let p = pos(b, h, f); let n = nb(h, f);
        lemma_ssum(b, p, 0, n); lemma_ssum(c, p, 0, n); assert(pos(b, h, e) >= p + 4 * n && pos(c, h, e) >= p + 4 * n) by { reveal(off); }
        lemma_part(b, p, h, isc, 0, f, im); lemma_part(c, p, h, isc, 0, f, im);
        lemma_level_one(b, c, p, h, isc, f, im, n);
    }
}
/// the payload of an image is unique
pub proof fn lemma_one(b: Seq<u8>, c: Seq<u8>, h: Header, isc: Seq<bool>, im: Seq<i16>)
    requires hok(h), upto(b, h, isc, -1, im), upto(c, h, isc, -1, im),
    ensures b =~= c,
{ lemma_top(h, 0); lemma_one_upto(b, c, h, isc, im, -1); assert(b.take(b.len() as int) =~= b); assert(c.take(c.len() as int) =~= c); }
'''
POST = r'''
/// C16 and C12, as a client of the contract: neither the size of the buffer nor what is in it, nor the order in which the blocks are finished, changes the bytes
pub fn vx_compress_twice(a: &mut [i16], header: &Header, b: &mut [u8], c: &mut [u8], is_chroma: &[bool]) -> (r: (Result<usize, CompressError>, Result<usize, CompressError>))
    requires hok(*header), old(b).len() <= u32::MAX, old(c).len() <= u32::MAX, old(a).len() >= isize_(*header, 0), is_chroma.len() >= nch(*header), area(*header) <= i32::MAX,
    ensures r.0 is Ok && r.1 is Ok ==> r.0->Ok_0 == r.1->Ok_0 && r.0->Ok_0 <= final(b).len() && r.0->Ok_0 <= final(c).len() && final(b)@.take(r.0->Ok_0 as int) == final(c)@.take(r.0->Ok_0 as int)
            && upto(final(b)@.take(r.0->Ok_0 as int), *header, is_chroma@, -1, old(a)@),
{
    let x = compress_image_data(a, header, b, is_chroma);
    let y = compress_image_data(a, header, c, is_chroma);
    proof { if x is Ok && y is Ok { let m = x->Ok_0 as int; let n = y->Ok_0 as int; lemma_one(b@.take(m), c@.take(n), *header, is_chroma@, a@); assert(b@.take(m).len() == m && c@.take(n).len() == n); } }
    (x, y)
}
pub proof fn lemma_whole(c: Seq<u8>, h: Header, isc: Seq<bool>, im: Seq<i16>, e: int, poi: int)
    requires hok(h), upto(c, h, isc, -1, im), 0 <= e <= e0(h),
    ensures scan(c, pos(c, h, e), poi, h, 0, e) == Some(0int),
    decreases e,
{
    hide(part); hide(nb); hide(off);
    lemma_lv(h, 0, e); lemma_pos_mono(c, h, -1, e); lemma_next(c, h, e);
    lemma_scan(c, pos(c, h, e), poi, h, 0, e);
    if e > 0 { lemma_lv(h, 0, e - 1); lemma_pos_mono(c, h, -1, e - 1); lemma_whole(c, h, isc, im, e - 1, pos(c, h, e - 1) + 16 * nb(h, e)); }
}
pub proof fn lemma_whole0(c: Seq<u8>, h: Header, isc: Seq<bool>, im: Seq<i16>)
    requires hok(h), upto(c, h, isc, -1, im), im.len() >= isize_(h, 0), area(h) <= i32::MAX,
    ensures scan(c, 0, (c.len() + 1024) as int, h, 0, e0(h)) == Some(0int), hypo(false, c, h, isc, 0, im, im.len() as int),
{ lemma_top(h, 0); lemma_down1(h); lemma_whole(c, h, isc, im, e0(h), (c.len() + 1024) as int); }
/// samples that are compressed and decompressed are the same again
pub fn vx_round_trip(a: &mut [i16], header: &Header, b: &mut [u8], out: &mut [i16], is_chroma: &[bool]) -> (r: Option<Result<usize, DecompressError>>)
    requires hok(*header), old(b).len() < 0x8000_0000, old(a).len() >= isize_(*header, 0), old(out).len() == old(a).len(), is_chroma.len() >= nch(*header), area(*header) <= i32::MAX,
    ensures final(a)@ == old(a)@, r matches Some(q) ==> q is Ok && q->Ok_0 == 0 && forall|i: int| 0 <= i < isize_(*header, 0) ==> #[trigger] final(out)@[i] == old(a)@[i],
{
    hide(upto); hide(hypo); hide(settled); hide(scan); hide(isize_); hide(area);
    let ghost a0 = a@;
    match compress_image_data(a, header, b, is_chroma) {
        Err(_) => None,
        Ok(n) => {
            let (x, _) = b.split_at(n);
            proof { assert(x@ == b@.take(n as int)); lemma_whole0(x@, *header, is_chroma@, a0); }
            let r = decompress_image_data(out, header, x, 0, false, is_chroma, Ghost(a0));
            Some(r)
        }
    }
}
'''
INJ = proved(re.search(r'(?ms)^pub proof fn lemma_wbits_inj\b.*?^\}\n', G.PRE).group(0), 'program')
ITEMS = P.HEAD + [('struct', M.I, 'Image'), ('struct', M.I, 'ImageChunkIteratorState'), ('struct', M.I, 'ImageChunkIteratorMut'), ('struct', M.I, 'ImageChunkMut'), ('impl', M.I, 'Image', ['from_slice', 'into_chunks_mut']), ('impl', M.I, 'ImageChunkIteratorMut@Iterator', ['next']),
    ('struct', B.F, 'BitsIOWriter')] + B.TRAIT_ITEMS + [('impl', B.F, 'BitsIOWriter', ['new']), ('impl', B.F, 'BitsIOWriter@BitsWriter', ['put_bits', 'flush_write_word'], B.W_IMPL),
    ('impl', HC.H, 'Header', ['get_chroma_quality'])] + [('fn', K.F, 'encode'), ('enum', HC.E, 'CompressError'), ('impl', HC.E, 'CompressError@From', ['from']), ('fn', F, 'compress_image_data'), ('enum', HC.E, 'DecompressError'), ('fn', F, 'decompress_image_data')]
def hst():
    out = stubs([c for c in H.C if c.path == 'Header::get_chroma_quality'], 'header')
    for c in out: c.spec = c.spec.replace('valid(', 'hok(')
    return out
IO = D.IO.split('// ASSUMED')[0]
CON = B.traits() + stubs([c for c in B.contracts[len(B.traits()):] if c.path.startswith('BitsIOWriter')], 'bits') + stubs([c for c in M.CON if c.path in ('Image::from_slice', 'Image::into_chunks_mut', 'ImageChunkIteratorMut::next')], 'image') + hst() + stubs([c for c in K.CODEC if c.path == 'encode'], 'codec') + stubs([D.MAIN], 'decomp')
DLEM = proved(D.SPEC + re.sub(r'(?ms)^pub proof fn lemma_vs\b.*?^\}\n', '', D.LEM), 'decomp')
UNIT = Unit('comp', ITEMS, CON + [MAIN], prelude=P.ALLT + proved(LEVEL + GRID + BYTES + PAY + PASS, 'payload') + B.TRAITS_IO + IO + ERR + D.JOIN + DLEM + SINK + PIECES + LEM + INJ + UNIQ + 'pub type Range = (usize, usize);\n', post=POST)
