"""src/bits/mod.rs: writer and reader of bit fields over words (C04)."""
from extract import Unit, Fn
F = 'src/bits/mod.rs'

THEORY = r'''
// ---------------------------------------------------------------- bit sequences
/// bit k (from the least significant) of x
pub open spec fn bit(x: u32, k: int) -> bool { (x >> (k as u32)) & 1u32 == 1u32 }
/// the n low bits of x, most significant first
pub open spec fn low(x: u32, n: int) -> Seq<bool> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| bit(x, n - 1 - i)) }
/// bits of words, first word first, most significant bit first
pub open spec fn wbits(w: Seq<u32>) -> Seq<bool> { Seq::new((32 * w.len()) as nat, |i: int| bit(w[i / 32], 31 - i % 32)) }
pub open spec fn zeros(n: int) -> Seq<bool> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| false) }

pub proof fn lemma_wbits_push(w: Seq<u32>, x: u32)
    ensures wbits(w.push(x)) =~= wbits(w) + low(x, 32)
{
    let a = wbits(w.push(x)); let b = wbits(w) + low(x, 32);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        if i < 32 * w.len() { assert(i / 32 < w.len()); } else { assert(i / 32 == w.len()); assert(i % 32 == i - 32 * w.len()); }
    }
}
pub proof fn lemma_wbits_first(w: Seq<u32>)
    requires w.len() > 0,
    ensures wbits(w) =~= low(w[0], 32) + wbits(w.skip(1))
{
    let a = wbits(w); let b = low(w[0], 32) + wbits(w.skip(1));
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        if i < 32 { assert(i / 32 == 0); } else { assert((i - 32) / 32 == i / 32 - 1); assert((i - 32) % 32 == i % 32); assert(w.skip(1)[(i - 32) / 32] == w[i / 32]); }
    }
}
pub proof fn bv_join(c: u32, x: u32, b: u32, k: u32)
    requires b < 32, k < 32, x < 1u32 << b,
    ensures ((c << b | x) >> k) & 1u32 == (if k < b { (x >> k) & 1u32 } else { (c >> ((k - b) as u32)) & 1u32 }),
{
    if k < b { assert(((c << b | x) >> k) & 1u32 == (x >> k) & 1u32) by (bit_vector) requires b < 32, k < b, x < 1u32 << b; }
    else { let d = (k - b) as u32; assert(((c << b | x) >> k) & 1u32 == (c >> d) & 1u32) by (bit_vector) requires b < 32, k < 32, k >= b, x < 1u32 << b, d == sub(k, b); }
}
/// word made of the n low bits of c and the high bits of the m-bit value x, r = n + m - 32 bits are left over
pub proof fn bv_join2(c: u32, x: u32, m: u32, r: u32, k: u32)
    requires m < 32, r < m, k < 32, x < 1u32 << m,
    ensures ((c << ((m - r) as u32) | x >> r) >> k) & 1u32 == (if k < m - r { (x >> ((k + r) as u32)) & 1u32 } else { (c >> ((k - (m - r)) as u32)) & 1u32 }),
{
    let s = (m - r) as u32;
    if k < s { let e = (k + r) as u32; assert(((c << s | x >> r) >> k) & 1u32 == (x >> e) & 1u32) by (bit_vector) requires m < 32, r < m, s == sub(m, r), k < s, e == add(k, r), x < 1u32 << m; }
    else { let d = (k - s) as u32; assert(((c << s | x >> r) >> k) & 1u32 == (c >> d) & 1u32) by (bit_vector) requires m < 32, r < m, s == sub(m, r), k >= s, k < 32, d == sub(k, s), x < 1u32 << m; }
}
pub proof fn lemma_low_concat(c: u32, x: u32, n: int, b: u32)
    requires b < 32, 0 <= n, n + b < 32, x < 1u32 << b,
    ensures low(c << b | x, n + b) =~= low(c, n) + low(x, b as int)
{
    let a = low(c << b | x, n + b); let z = low(c, n) + low(x, b as int);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == z[i] by { bv_join(c, x, b, (n + b - 1 - i) as u32); }
}
pub proof fn lemma_low_concat2(c: u32, x: u32, n: int, m: u32, r: u32)
    requires m < 32, 0 <= n < 32, r == n + m - 32, r < m, x < 1u32 << m,
    ensures low(c << ((m - r) as u32) | x >> r, 32) + low(x, r as int) =~= low(c, n) + low(x, m as int)
{
    let w = c << ((m - r) as u32) | x >> r;
    let a = low(w, 32) + low(x, r as int); let z = low(c, n) + low(x, m as int);
    assert(a.len() == z.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == z[i] by {
        if i < 32 { bv_join2(c, x, m, r, (31 - i) as u32); }
    }
}
pub proof fn bv_read1(c: u32, i: u32, b: u32, k: u32)
    requires i < 32, 0 < b <= 32, i + b <= 32, k < 32,
    ensures (((c << i) >> ((32 - b) as u32)) >> k) & 1u32 == (if k < b { (c >> ((k + (32 - b - i)) as u32)) & 1u32 } else { 0u32 }),
{
    let s = (32 - b) as u32;
    if k < b { let e = (k + (32 - b - i)) as u32; assert((((c << i) >> s) >> k) & 1u32 == (c >> e) & 1u32) by (bit_vector) requires i < 32, 0 < b, b <= 32, add(i, b) <= 32, s == sub(32, b), k < b, e == sub(add(k, s), i); }
    else { assert((((c << i) >> s) >> k) & 1u32 == 0u32) by (bit_vector) requires 0 < b, b <= 32, s == sub(32, b), k >= b, k < 32; }
}
/// value read across two words
pub proof fn bv_read2(c: u32, d: u32, i: u32, b: u32, k: u32)
    requires 0 < i < 32, 0 < b <= 32, i + b > 32, k < 32,
    ensures (((c << i | d >> ((32 - i) as u32)) >> ((32 - b) as u32)) >> k) & 1u32 == (if k >= b { 0u32 } else if k < i + b - 32 { (d >> ((k + 64 - b - i) as u32)) & 1u32 } else { (c >> ((k - (i + b - 32)) as u32)) & 1u32 }),
{
    let s = (32 - b) as u32; let t = (32 - i) as u32; let o = (i + b - 32) as u32;
    if k >= b { assert((((c << i | d >> t) >> s) >> k) & 1u32 == 0u32) by (bit_vector) requires 0 < b, b <= 32, s == sub(32, b), k >= b, k < 32; }
    else if k < o { let e = (k + 64 - b - i) as u32; assert((((c << i | d >> t) >> s) >> k) & 1u32 == (d >> e) & 1u32) by (bit_vector) requires 0 < i, i < 32, 0 < b, b <= 32, add(i, b) > 32, s == sub(32, b), t == sub(32, i), o == sub(add(i, b), 32), k < o, e == add(add(k, s), t); }
    else { let e = (k - o) as u32; assert((((c << i | d >> t) >> s) >> k) & 1u32 == (c >> e) & 1u32) by (bit_vector) requires 0 < i, i < 32, 0 < b, b <= 32, add(i, b) > 32, s == sub(32, b), t == sub(32, i), o == sub(add(i, b), 32), k >= o, k < b, e == sub(k, o); }
}
pub proof fn lemma_msb(c: u32, i: u32)
    requires i < 32,
    ensures ((c << i) & (1u32 << 31) != 0) == bit(c, 31 - i),
{
    let e = (31 - i) as u32;
    assert(((c << i) & (1u32 << 31) != 0) == ((c >> e) & 1u32 == 1u32)) by (bit_vector) requires i < 32, e == sub(31, i);
}
pub proof fn lemma_lsb(c: u32)
    ensures (c & 1u32 != 0) == bit(c, 0),
{
    assert((c & 1u32 != 0) == ((c >> 0u32) & 1u32 == 1u32)) by (bit_vector);
}
/// value of `bits` bits that start at bit i of the word c, followed by the words w
pub open spec fn read_val(c: u32, i: u32, bits: u32, w: Seq<u32>) -> u32 {
    if i + bits <= 32 { (c << i) >> ((32 - bits) as u32) } else { (c << i | w[0] >> ((32 - i) as u32)) >> ((32 - bits) as u32) }
}
pub proof fn lemma_read_bits(c: u32, i: u32, bits: u32, w: Seq<u32>)
    requires i < 32, 0 < bits <= 32, i + bits <= 32 || w.len() > 0,
    ensures ({
        let all = low(c, 32 - i) + wbits(w); let v = read_val(c, i, bits, w);
        &&& low(v, bits as int) =~= all.take(bits as int)
        &&& (bits < 32 ==> v < 1u32 << bits)
        &&& all.skip(bits as int) =~= (if i + bits < 32 { low(c, 32 - i - bits) + wbits(w) } else if i + bits == 32 { wbits(w) } else { low(w[0], 64 - i - bits) + wbits(w.skip(1)) })
    }),
{
    let all = low(c, 32 - i) + wbits(w); let v = read_val(c, i, bits, w);
    let s = (32 - bits) as u32;
    let t = if i + bits <= 32 { c << i } else { c << i | w[0] >> ((32 - i) as u32) };
    assert(bits < 32 ==> (t >> s) < 1u32 << bits) by (bit_vector) requires s == sub(32, bits), 0 < bits, bits <= 32;
    if w.len() > 0 { lemma_wbits_first(w); }
    assert forall|k: int| 0 <= k < bits implies #[trigger] low(v, bits as int)[k] == all.take(bits as int)[k] by {
        let q = (bits - 1 - k) as u32;
        if i + bits <= 32 { bv_read1(c, i, bits, q); } else { bv_read2(c, w[0], i, bits, q); }
    }
}
/// n-bit values are equal when their bits are
pub proof fn lemma_low_injective(a: u32, b: u32, n: int)
    requires 0 <= n < 32, a < 1u32 << (n as u32), b < 1u32 << (n as u32), low(a, n) =~= low(b, n),
    ensures a == b,
    decreases n,
{
    if n == 0 { let m = n as u32; assert(a < 1u32 << m && m == 0 ==> a == 0) by (bit_vector); assert(b < 1u32 << m && m == 0 ==> b == 0) by (bit_vector); }
    else {
        let m = n as u32; let p = (n - 1) as u32;
        let a2 = a >> 1u32; let b2 = b >> 1u32;
        assert(a2 < 1u32 << p) by (bit_vector) requires a < 1u32 << m, m < 32, m > 0, p == sub(m, 1), a2 == a >> 1u32;
        assert(b2 < 1u32 << p) by (bit_vector) requires b < 1u32 << m, m < 32, m > 0, p == sub(m, 1), b2 == b >> 1u32;
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] low(a2, n - 1)[i] == low(b2, n - 1)[i] by {
            assert(low(a, n)[i] == low(b, n)[i]);
            let k = (n - 2 - i) as u32; let k1 = (n - 1 - i) as u32;
            assert((a2 >> k) & 1u32 == (a >> k1) & 1u32) by (bit_vector) requires a2 == a >> 1u32, k1 == add(k, 1), k < 31;
            assert((b2 >> k) & 1u32 == (b >> k1) & 1u32) by (bit_vector) requires b2 == b >> 1u32, k1 == add(k, 1), k < 31;
        }
        lemma_low_injective(a2, b2, n - 1);
        assert(low(a, n)[n - 1] == low(b, n)[n - 1]);
        assert(a == b) by (bit_vector) requires a2 == a >> 1u32, b2 == b >> 1u32, a2 == b2, ((a >> 0u32) & 1u32 == 1u32) == ((b >> 0u32) & 1u32 == 1u32);
    }
}
'''

TRAITS_IO = r'''
// ---------------------------------------------------------------- assumed contracts of byteorder's traits
/// a sink of words: `words` is what was written to it through write_u32 so far, `can(k)` says that k more words fit
pub trait WriteBytesExt {
    spec fn words(&self) -> Seq<u32>;
    spec fn can(&self, k: nat) -> bool;
    /// representation invariant
    spec fn wok(&self) -> bool;
    /// which sink it is: what writing leaves as it is (its size, where the bytes will be when it is gone)
    #[verifier::prophetic] spec fn id(&self) -> (nat, Seq<u8>);
    fn write_u32<E>(&mut self, n: u32) -> (r: io::Result<()>)
        requires old(self).wok(),
        ensures
            final(self).id() == old(self).id(),
            r is Ok <==> old(self).can(1),
            r is Ok ==> final(self).wok(),
            r is Ok ==> final(self).words() == old(self).words().push(n),
            r is Ok ==> forall|k: nat| final(self).can(k) == old(self).can(k + 1);
}
/// a source of words: `words` is what can still be read
pub trait ReadBytesExt {
    spec fn words(&self) -> Seq<u32>;
    /// the bytes behind the last whole word
    spec fn behind(&self) -> Seq<u8>;
    fn read_u32<E>(&mut self) -> (r: io::Result<u32>)
        ensures
            r is Ok <==> old(self).words().len() > 0,
            r matches Ok(n) ==> n == old(self).words()[0] && final(self).words() == old(self).words().skip(1) && final(self).behind() == old(self).behind();
}
'''

W_TRAIT = r'''
    /// representation invariant
    spec fn wwf(&self) -> bool;
    /// all bits written so far
    spec fn bits(&self) -> Seq<bool>;
    /// n more bits can be written
    spec fn room(&self, n: int) -> bool;
    /// its sink when the writer is gone, and which sink it is
    #[verifier::prophetic] spec fn end(&self) -> (Seq<u32>, bool, (nat, Seq<u8>), (nat, Seq<u8>));
'''
R_TRAIT = r'''
    spec fn rwf(&self) -> bool;
    /// bits that can still be read
    spec fn rest(&self) -> Seq<bool>;
    /// how many of them belong to a word that was already taken from the source
    spec fn pending(&self) -> nat;
    /// what its source will hold when the reader is gone
    #[verifier::prophetic] spec fn end(&self) -> (Seq<u32>, Seq<u8>);
    /// the bytes behind the last whole word
    spec fn behind(&self) -> Seq<u8>;
'''
W_SPECS = {
 'put_bits': '''        requires old(self).wwf(), bits < 32, x < 1u32 << bits,
        ensures final(self).end() == old(self).end(),
            r is Ok ==> final(self).wwf() && final(self).bits() =~= old(self).bits() + low(x, bits as int),
            r is Ok <==> old(self).room(bits as int),
            r is Ok ==> forall|n: int| #![auto] n >= 0 ==> final(self).room(n) == old(self).room(n + bits)''',
 'flush_write_word': '''        requires old(self).wwf(),
        ensures final(self).end() == old(self).end(),
            r is Ok ==> final(self).wwf() && final(self).bits().len() % 32 == 0
                && final(self).bits().len() < old(self).bits().len() + 32 && final(self).bits().len() >= old(self).bits().len()
                && final(self).bits() =~= old(self).bits() + zeros(final(self).bits().len() - old(self).bits().len()),
            r is Ok <==> old(self).room((32 - old(self).bits().len() % 32) % 32)''',
}
R_SPECS = {
 'get_bits': '''        requires old(self).rwf(), 0 < bits <= 32,
        ensures final(self).end() == old(self).end(),
            r is Ok <==> old(self).rest().len() >= bits,
            r is Ok ==> final(self).behind() == old(self).behind(),
            r matches Ok(v) ==> final(self).rwf() && low(v, bits as int) =~= old(self).rest().take(bits as int) && (bits < 32 ==> v < 1u32 << bits)
                && final(self).rest() =~= old(self).rest().skip(bits as int)''',
 'get_zeros': '''        requires old(self).rwf(), 0 < max_zeros < 0x1000_0000,
        ensures final(self).end() == old(self).end(),
            r is Ok <==> old(self).rest().len() >= max_zeros || exists|i: int| 0 <= i < old(self).rest().len() && old(self).rest()[i],
            r is Ok ==> final(self).behind() == old(self).behind(),
            r matches Ok(z) ==> final(self).rwf() && z <= max_zeros && old(self).rest().take(z as int) =~= zeros(z as int) && z <= old(self).rest().len()
                && (z < max_zeros ==> z < old(self).rest().len() && old(self).rest()[z as int] && final(self).rest() =~= old(self).rest().skip(z + 1))
                && (z == max_zeros ==> final(self).rest() =~= old(self).rest().skip(z as int))''',
 'flush_read_word': '''        requires old(self).rwf(),
        ensures final(self).end() == old(self).end(), final(self).behind() == old(self).behind(), final(self).rwf(), final(self).pending() == 0, final(self).rest() =~= old(self).rest().skip(old(self).pending() as int)''',
}

W_IMPL = r'''
    open spec fn wwf(&self) -> bool { self.index_bits < 32 && self.write_stream.wok() }
    open spec fn bits(&self) -> Seq<bool> { wbits(self.write_stream.words()) + low(self.write_cache, self.index_bits as int) }
    open spec fn room(&self, n: int) -> bool { n >= 0 && ((self.index_bits + n) / 32 == 0 || self.write_stream.can(((self.index_bits + n) / 32) as nat)) }
    #[verifier::prophetic] open spec fn end(&self) -> (Seq<u32>, bool, (nat, Seq<u8>), (nat, Seq<u8>)) { (final(self.write_stream).words(), final(self.write_stream).wok(), final(self.write_stream).id(), self.write_stream.id()) }
'''
R_IMPL = r'''
    open spec fn rwf(&self) -> bool { self.index_bits < 32 && (self.cache_filled <==> self.index_bits != 0) }
    open spec fn rest(&self) -> Seq<bool> {
        (if self.cache_filled { low(self.read_cache, 32 - self.index_bits) } else { seq![] }) + wbits(self.read_stream.words())
    }
    open spec fn pending(&self) -> nat { if self.cache_filled { (32 - self.index_bits) as nat } else { 0 } }
    #[verifier::prophetic] open spec fn end(&self) -> (Seq<u32>, Seq<u8>) { (final(self.read_stream).words(), final(self.read_stream).behind()) }
    open spec fn behind(&self) -> Seq<u8> { self.read_stream.behind() }
'''
def traits(items=True):
    c = [Fn('BitsWriter::' + k, 'r', v) for k, v in W_SPECS.items()]
    c += [Fn('BitsReader::' + k, None if k == 'flush_read_word' else 'r', v) for k, v in R_SPECS.items()]
    return c
TRAIT_ITEMS = [('trait', F, 'BitsWriter', list(W_SPECS), W_TRAIT), ('trait', F, 'BitsReader', list(R_SPECS), R_TRAIT)]

contracts = traits() + [
    Fn('BitsIOWriter::new', 'r', '''        requires old(stream).wok(),
        ensures r.wwf(), r.bits() =~= wbits(old(stream).words()), r.end() == (final(stream).words(), final(stream).wok(), final(stream).id(), old(stream).id()),
            forall|n: int| #![auto] r.room(n) <==> n >= 0 && (n < 32 || old(stream).can((n / 32) as nat))'''),
    Fn('BitsIOWriter::put_bits', None, '', entry='''
        let ghost c0 = self.write_cache; let ghost i0 = self.index_bits; let ghost w0 = self.write_stream.words();
        proof {
            if i0 + bits < 32 { lemma_low_concat(c0, x, i0 as int, bits); }
            else {
                let rr = (i0 + bits - 32) as u32;
                let word = c0 << ((bits - rr) as u32) | x >> rr;
                lemma_low_concat2(c0, x, i0 as int, bits, rr);
                lemma_wbits_push(w0, word);
                let l = low(c0, i0 as int); let m = low(x, bits as int);
                assert((wbits(w0) + low(word, 32)) + low(x, rr as int) =~= wbits(w0) + (low(word, 32) + low(x, rr as int)));
                assert(wbits(w0) + (l + m) =~= (wbits(w0) + l) + m);
            }
            if i0 + bits < 32 { assert(wbits(w0) + (low(c0, i0 as int) + low(x, bits as int)) =~= (wbits(w0) + low(c0, i0 as int)) + low(x, bits as int)); }
        }'''),
    Fn('BitsIOWriter::flush_write_word', None, '', entry='''
        proof {
            let k = ((32 - self.index_bits) % 32) as u32;
            assert(0u32 < 1u32 << k) by (bit_vector) requires k < 32;
            assert(self.bits().len() == 32 * self.write_stream.words().len() + self.index_bits);
            assert forall|n: int| 0 <= n < 32 implies #[trigger] low(0, n) =~= zeros(n) by {
                assert forall|i: int| 0 <= i < n implies !(#[trigger] low(0u32, n)[i]) by { let k = (n - 1 - i) as u32; assert(k < 32 ==> (0u32 >> k) & 1u32 == 0u32) by (bit_vector); }
            }
        }'''),
    Fn('BitsIOReader::new', 'r', '''        ensures r.rwf(), r.rest() =~= wbits(old(stream).words()), r.pending() == 0, r.end() == (final(stream).words(), final(stream).behind()), r.behind() == old(stream).behind()'''),
    Fn('BitsIOReader::next_u32', 'r', '''        ensures
            r is Ok <==> old(self).read_stream.words().len() > 0,
            r matches Ok(n) ==> n == old(self).read_stream.words()[0] && final(self).read_stream.words() == old(self).read_stream.words().skip(1)
                && final(self).cache_filled && final(self).behind() == old(self).behind(),
            final(self).index_bits == old(self).index_bits, final(self).read_cache == old(self).read_cache,
            final(self).end() == old(self).end()'''),
    Fn('BitsIOReader::get_bits', None, '', entry='''
        let ghost f0 = self.cache_filled; let ghost c0 = self.read_cache; let ghost i0 = self.index_bits; let ghost w0 = self.read_stream.words();
        proof {
            if w0.len() > 0 { lemma_wbits_first(w0); if w0.len() > 1 { lemma_wbits_first(w0.skip(1)); assert(w0.skip(1)[0] == w0[1]); assert(w0.skip(1).skip(1) =~= w0.skip(2)); } }
            let c = if f0 { c0 } else { w0[0] };
            let wr = if f0 { w0 } else { w0.skip(1) };
            if i0 + bits <= 32 || wr.len() > 0 { if f0 || w0.len() > 0 { lemma_read_bits(c, i0, bits, wr); } }
        }'''),
    Fn('BitsIOReader::get_zeros', None, '', entry='''
        let ghost r0 = self.rest();
        proof { if self.read_stream.words().len() > 0 { lemma_wbits_first(self.read_stream.words()); } }''',
      loops=[dict(inv='''            invariant
                self.cache_filled, b == self.read_cache, self.end() == old(self).end(), self.behind() == old(self).behind(), new_bits < 32, 0 <= x < max_zeros, x <= r0.len(), r0 == old(self).rest(), max_zeros < 0x1000_0000,
                r0.take(x as int) =~= zeros(x as int),
                r0.skip(x as int) =~= low(b, 32 - new_bits) + wbits(self.read_stream.words()),
            decreases max_zeros - x''', begin='''
        let ghost x0 = x; let ghost ws = self.read_stream.words(); let ghost nb = new_bits; let ghost b0 = b;
        proof {
            lemma_msb(b, new_bits); lemma_lsb(b);
            let t = r0.skip(x0 as int);
            assert(t.len() == r0.len() - x0);
            assert(t[0] == bit(b, 31 - nb)); assert(t[0] == r0[x0 as int]);
            assert(r0.take(x0 + 1) =~= r0.take(x0 as int).push(r0[x0 as int]));
            assert(r0.skip(x0 + 1) =~= t.skip(1));
            assert(t.skip(1) =~= low(b0, 31 - nb) + wbits(ws));
            assert(zeros(x0 + 1) =~= zeros(x0 as int).push(false));
            if ws.len() > 0 { lemma_wbits_first(ws); }
            assert(forall|i: int| 0 <= i < x0 ==> r0.take(x0 as int)[i] == r0[i]);
            assert(forall|i: int| 0 <= i < x0 ==> zeros(x0 as int)[i] == false);
        }''')]),
    Fn('BitsIOReader::flush_read_word', None, ''),
]
CLIENT = r'''
// ---------------------------------------------------------------- C04 for sequences of fields, from the contracts alone
pub open spec fn concat(fs: Seq<(u32, u32)>) -> Seq<bool> decreases fs.len() {
    if fs.len() == 0 { seq![] } else { low(fs[0].0, fs[0].1 as int) + concat(fs.skip(1)) }
}
pub proof fn lemma_concat_split(fs: Seq<(u32, u32)>, i: int)
    requires 0 <= i <= fs.len(),
    ensures concat(fs) =~= concat(fs.take(i)) + concat(fs.skip(i)),
    decreases i,
{
    if i == 0 { assert(fs.skip(0) =~= fs); assert(fs.take(0) =~= Seq::<(u32, u32)>::empty()); }
    else {
        let t = fs.skip(1);
        lemma_concat_split(t, i - 1);
        assert(t.skip(i - 1) =~= fs.skip(i));
        assert(fs.take(i).skip(1) =~= t.take(i - 1));
        assert(fs.take(i)[0] == fs[0]);
    }
}
pub open spec fn fields_ok(fs: Seq<(u32, u32)>) -> bool { forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).1 < 32 && fs[i].0 < 1u32 << fs[i].1 }
/// any sequence of fields, flushed, is written as their concatenation and zeros up to the word boundary
pub fn write_fields<S: BitsWriter>(w: &mut S, fs: &Vec<(u32, u32)>) -> (r: io::Result<()>)
    requires old(w).wwf(), fields_ok(fs@), old(w).bits().len() % 32 == 0,
    ensures r is Ok ==> final(w).wwf() && ({
        let l = concat(fs@).len() as int;
        let pad = (32 - l % 32) % 32;
        final(w).bits() =~= old(w).bits() + concat(fs@) + zeros(pad) }),
{
    let ghost b0 = w.bits();
    let mut i = 0;
    proof { assert(fs@.take(0) =~= Seq::<(u32, u32)>::empty()); assert(b0 + Seq::<bool>::empty() =~= b0); }
    while i < fs.len()
        invariant w.wwf(), fields_ok(fs@), i <= fs.len(), w.bits() =~= b0 + concat(fs@.take(i as int)), b0 == old(w).bits(),
        decreases fs.len() - i,
    {
        let (x, b) = fs[i];
        proof {
            let t = fs@.take(i + 1);
            lemma_concat_split(t, i as int);
            assert(t.take(i as int) =~= fs@.take(i as int));
            let one = seq![(x, b)];
            assert(t.skip(i as int) =~= one);
            assert(one.skip(1) =~= Seq::<(u32, u32)>::empty());
            assert(concat(one.skip(1)) =~= Seq::<bool>::empty());
            assert(concat(one) == low(one[0].0, one[0].1 as int) + concat(one.skip(1)));
            assert(concat(one) =~= low(x, b as int));
            assert((b0 + concat(fs@.take(i as int))) + low(x, b as int) =~= b0 + concat(t));
        }
        w.put_bits(x, b)?;
        i += 1;
    }
    proof { assert(fs@.take(i as int) =~= fs@); }
    w.flush_write_word()?;
    Ok(())
}
/// and reading the same widths from these bits, whatever follows, gives the same values
pub fn read_fields<S: BitsReader>(g: &mut S, fs: &Vec<(u32, u32)>, Ghost(tail): Ghost<Seq<bool>>) -> (r: io::Result<()>)
    requires old(g).rwf(), fields_ok(fs@), forall|i: int| 0 <= i < fs@.len() ==> (#[trigger] fs@[i]).1 > 0,
        old(g).rest() =~= concat(fs@) + tail,
    ensures r is Ok, final(g).rwf(), final(g).rest() =~= tail,
{
    let mut i = 0;
    proof { assert(fs@.skip(0) =~= fs@); }
    while i < fs.len()
        invariant g.rwf(), fields_ok(fs@), i <= fs.len(), g.rest() =~= concat(fs@.skip(i as int)) + tail, forall|i: int| 0 <= i < fs@.len() ==> (#[trigger] fs@[i]).1 > 0,
        decreases fs.len() - i,
    {
        let (x, b) = fs[i];
        proof {
            let t = fs@.skip(i as int);
            assert(t[0] == (x, b));
            assert(t.skip(1) =~= fs@.skip(i + 1));
            assert(g.rest() =~= low(x, b as int) + (concat(t.skip(1)) + tail));
            assert(g.rest().take(b as int) =~= low(x, b as int));
            assert(g.rest().skip(b as int) =~= concat(t.skip(1)) + tail);
        }
        let v = g.get_bits(b)?;
        proof { lemma_low_injective(v, x, b as int); }
        assert(v == x);
        i += 1;
    }
    proof { assert(fs@.skip(i as int) =~= Seq::<(u32, u32)>::empty()); }
    Ok(())
}
'''
UNIT = Unit('bits', [
    ('struct', F, 'BitsIOWriter'), ('struct', F, 'BitsIOReader'),
] + TRAIT_ITEMS + [
    ('impl', F, 'BitsIOWriter', ['new']),
    ('impl', F, 'BitsIOWriter@BitsWriter', ['put_bits', 'flush_write_word'], W_IMPL),
    ('impl', F, 'BitsIOReader', ['new', 'next_u32']),
    ('impl', F, 'BitsIOReader@BitsReader', ['get_bits', 'get_zeros', 'flush_read_word'], R_IMPL),
], contracts, prelude=THEORY + TRAITS_IO, post=CLIENT)
