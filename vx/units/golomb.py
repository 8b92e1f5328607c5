"""src/encode/mod.rs: integer codes (C05), over the contracts of BitsWriter and BitsReader that unit bits proves."""
from extract import Unit, Fn
from units import bits as B
F = 'src/encode/mod.rs'

THEORY = r'''
// ---------------------------------------------------------------- the codes as functions on bit sequences
/// leading zeros of s, at most m
pub open spec fn lz(s: Seq<bool>, m: nat) -> nat decreases m {
    if m == 0 || s.len() == 0 || s[0] { 0 } else { 1 + lz(s.skip(1), (m - 1) as nat) }
}
/// value of the bits of s, most significant first
pub open spec fn bval(s: Seq<bool>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { 2 * bval(s.drop_last()) + (if s.last() { 1nat } else { 0 }) }
}
pub open spec fn up(pot: int) -> int { if pot < 20 { pot + 4 } else { 24 } }
pub open spec fn cap(pot: int) -> int { if pot < 24 { pot } else { 24 } }
/// the code of x with parameter pot: y zeros and a one (y = x / 2^pot), then the pot low bits of x; 12 zeros escape to parameter pot + 4
pub open spec fn enc_u(x: u32, pot: int) -> Seq<bool> decreases x {
    let y = x >> (pot as u32);
    if 0 <= pot <= 24 && y >= 12 && esc(pot) <= x && esc(pot) > 0 { zeros(12) + enc_u((x - esc(pot)) as u32, up(pot)) }
    else { zeros(y as int) + seq![true] + low(x, pot) }
}
/// what an escape at parameter pot stands for
pub open spec fn esc(pot: int) -> u32 { 12u32 << (cap(pot) as u32) }
/// what a decoder with parameter pot makes of any bits: value and number of bits, or None when they end early
pub open spec fn udec(s: Seq<bool>, pot: int) -> Option<(u32, int)> decreases 108 - pot {
    let z = lz(s, 12);
    let p = cap(pot);
    if z < 12 && z >= s.len() { None }
    else if 0 <= pot < 108 && z == 12 {
        match udec(s.skip(12), if pot + 4 < 108 { pot + 4 } else { 108 }) {
            None => None,
            Some((v, n)) => Some((wrap32(esc(pot) + v), 12 + n)),
        }
    } else {
        let c = if z == 12 { 12int } else { z as int + 1 };
        if s.len() < c + p { None } else { Some((wrap32(((z as u32) << (p as u32)) + bval(s.subrange(c, c + p))), c + p)) }
    }
}
pub open spec fn wrap32(x: int) -> u32 { (x % 0x1_0000_0000) as u32 }

pub proof fn lemma_lz_props(s: Seq<bool>, m: nat)
    ensures lz(s, m) <= m, lz(s, m) <= s.len(), forall|i: int| 0 <= i < lz(s, m) ==> !s[i], lz(s, m) < m && lz(s, m) < s.len() ==> s[lz(s, m) as int],
    decreases m,
{
    if m == 0 || s.len() == 0 || s[0] { } else {
        let t = s.skip(1);
        lemma_lz_props(t, (m - 1) as nat);
        assert forall|i: int| 0 <= i < lz(s, m) implies !s[i] by { if i > 0 { assert(s[i] == t[i - 1]); } }
        if lz(s, m) < m && lz(s, m) < s.len() { assert(t[lz(t, (m - 1) as nat) as int] == s[lz(s, m) as int]); }
    }
}
/// the number of leading zeros is determined by these properties
pub proof fn lemma_lz_unique(s: Seq<bool>, m: nat, z: nat)
    requires z <= m, z <= s.len(), forall|i: int| 0 <= i < z ==> !s[i], z < m ==> z < s.len() && s[z as int],
    ensures lz(s, m) == z,
{
    lemma_lz_props(s, m);
    if lz(s, m) < z { assert(!s[lz(s, m) as int]); }
    if lz(s, m) > z { assert(s[z as int]); }
}
pub proof fn lemma_bval_low(v: u32, n: int)
    requires 0 <= n <= 32,
    ensures bval(low(v, n)) == (if n == 32 { v } else { v & (((1u32 << (n as u32)) - 1u32) as u32) }),
    decreases n,
{
    if n == 0 {
        assert(v & ((1u32 << 0u32) - 1) as u32 == 0) by (bit_vector);
        assert((1u32 << 0u32) - 1 == 0) by (bit_vector);
    } else {
        let w = v >> 1u32; let m = (n - 1) as u32; let k = n as u32;
        let s = low(v, n);
        assert(s.drop_last() =~= low(w, n - 1)) by {
            assert forall|i: int| 0 <= i < n - 1 implies #[trigger] s.drop_last()[i] == low(w, n - 1)[i] by {
                let j = (n - 2 - i) as u32; let j1 = (n - 1 - i) as u32;
                assert((w >> j) & 1u32 == (v >> j1) & 1u32) by (bit_vector) requires w == v >> 1u32, j1 == add(j, 1), j < 31;
            }
        }
        lemma_bval_low(w, n - 1);
        assert(s.last() == bit(v, 0));
        if n == 32 {
            assert(m == 31);
            let b = w & ((1u32 << 31u32) - 1) as u32;
            assert(w & ((1u32 << 31u32) - 1) as u32 == w) by (bit_vector) requires w == v >> 1u32;
            assert(v == add(mul(2, w), (v >> 0u32) & 1u32)) by (bit_vector) requires w == v >> 1u32;
            assert(w <= 0x7fff_ffff) by (bit_vector) requires w == v >> 1u32;
            assert((v >> 0u32) & 1u32 <= 1) by (bit_vector);
            assert(1u32 << 31u32 == 0x8000_0000u32) by (bit_vector);
        } else {
            assert((1u32 << m) >= 1 && (1u32 << k) >= 1) by (bit_vector) requires m < 32, k < 32;
            let mm = ((1u32 << m) - 1u32) as u32; let mk = ((1u32 << k) - 1u32) as u32;
            assert(mm == sub(1u32 << m, 1)); assert(mk == sub(1u32 << k, 1));
            assert(v & mk == add(mul(2, w & mm), (v >> 0u32) & 1u32)) by (bit_vector)
                requires w == v >> 1u32, mm == sub(1u32 << m, 1), mk == sub(1u32 << k, 1), k == add(m, 1), m < 31;
            assert((w & mm) <= 0x7fff_ffff) by (bit_vector) requires w == v >> 1u32;
            assert((v >> 0u32) & 1u32 <= 1) by (bit_vector);
        }
    }
}
pub proof fn lemma_split_value(x: u32, pot: u32)
    requires pot <= 24,
    ensures
        x >> pot < 12 ==> (x >> pot) << pot == (x >> pot) * (1u32 << pot),
        add((x >> pot) << pot, x & sub(1u32 << pot, 1)) == x,
        ((x >> pot) << pot) + (x & sub(1u32 << pot, 1)) == x,
        1u32 << pot >= 1,
{
    assert(add((x >> pot) << pot, x & sub(1u32 << pot, 1)) == x) by (bit_vector) requires pot <= 24;
    assert((x >> pot) << pot <= sub(0xffff_ffffu32, x & sub(1u32 << pot, 1))) by (bit_vector) requires pot <= 24;
    assert(1u32 << pot >= 1 && 1u32 << pot <= 0x100_0000) by (bit_vector) requires pot <= 24;
    let y = x >> pot; let h = 1u32 << pot;
    assert(y < 12 ==> y << pot == mul(y, 1u32 << pot)) by (bit_vector) requires pot <= 24;
    if y < 12 { assert(y * h < 0x1_0000_0000) by (nonlinear_arith) requires y < 12, h <= 0x100_0000; }
}
pub proof fn lemma_esc(x: u32, pot: int)
    requires 0 <= pot <= 24,
    ensures (x >> (pot as u32)) >= 12 <==> esc(pot) <= x, esc(pot) >= 12,
{
    let p = pot as u32;
    assert(((x >> p) >= 12) == ((12u32 << p) <= x)) by (bit_vector) requires p <= 24;
    assert((12u32 << p) >= 12) by (bit_vector) requires p <= 24;
}
pub proof fn lemma_udec_len(s: Seq<bool>, pot: int)
    requires 0 <= pot <= 108,
    ensures udec(s, pot) matches Some((v, n)) ==> 0 < n <= s.len(),
    decreases 108 - pot,
{
    lemma_lz_props(s, 12);
    if pot < 108 && lz(s, 12) == 12 { lemma_udec_len(s.skip(12), if pot + 4 < 108 { pot + 4 } else { 108 }); }
}
/// C05: a decoder whose parameter is at most 24 restores x and the position, whatever follows
pub proof fn lemma_u_round(x: u32, dp: int, tail: Seq<bool>)
    requires 0 <= dp <= 108, dp >= 24 ==> x < (256 - 12 * ((dp - 24) / 4)) * 0x100_0000,
    ensures udec(enc_u(x, cap(dp)) + tail, dp) == Some((x, enc_u(x, cap(dp)).len() as int)),
    decreases x,
{
    let pot = cap(dp); let p = pot as u32;
    let s = enc_u(x, pot) + tail;
    let y = x >> p;
    lemma_esc(x, pot);
    if y >= 12 {
        let e = esc(pot);
        let rest = (x - e) as u32;
        if dp >= 24 {
            assert(12u32 << 24u32 == 12 * 0x100_0000u32) by (bit_vector);
            assert(dp < 108);
        }
        let nd = if dp + 4 < 108 { dp + 4 } else { 108 };
        assert(cap(nd) == up(pot));
        lemma_u_round(rest, nd, tail);
        assert(s =~= zeros(12) + (enc_u(rest, up(pot)) + tail));
        lemma_lz_unique(s, 12, 12);
        assert(s.skip(12) =~= enc_u(rest, up(pot)) + tail);
    } else {
        let l = low(x, pot);
        assert(s =~= zeros(y as int) + (seq![true] + (l + tail)));
        lemma_lz_unique(s, 12, y as nat);
        assert(s.subrange(y + 1, y + 1 + pot) =~= l);
        lemma_bval_low(x, pot);
        lemma_split_value(x, p);
        assert(s.len() >= y + 1 + pot);
        assert(enc_u(x, pot).len() == y + 1 + pot);
    }
}
/// a code that is cut off is not decoded
pub proof fn lemma_u_cut(x: u32, dp: int, n: int)
    requires 0 <= dp <= 108, dp >= 24 ==> x < (256 - 12 * ((dp - 24) / 4)) * 0x100_0000, 0 <= n < enc_u(x, cap(dp)).len(),
    ensures udec(enc_u(x, cap(dp)).take(n), dp) is None,
    decreases x,
{
    let pot = cap(dp); let p = pot as u32;
    let e = enc_u(x, pot);
    let s = e.take(n);
    let y = x >> p;
    lemma_esc(x, pot);
    lemma_lz_props(s, 12);
    if y >= 12 {
        let rest = (x - esc(pot)) as u32;
        if dp >= 24 { assert(12u32 << 24u32 == 12 * 0x100_0000u32) by (bit_vector); assert(dp < 108); }
        let nd = if dp + 4 < 108 { dp + 4 } else { 108 };
        assert(cap(nd) == up(pot));
        assert(e =~= zeros(12) + enc_u(rest, up(pot)));
        if n < 12 {
            if lz(s, 12) < n { assert(s[lz(s, 12) as int] == zeros(12)[lz(s, 12) as int]); }
        } else {
            lemma_u_cut(rest, nd, n - 12);
            assert(s.skip(12) =~= enc_u(rest, up(pot)).take(n - 12));
            lemma_lz_unique(s, 12, 12);
        }
    } else {
        if n <= y {
            if lz(s, 12) < n { assert(s[lz(s, 12) as int] == zeros(y as int)[lz(s, 12) as int]); }
        } else {
            lemma_lz_unique(s, 12, y as nat);
        }
    }
}
// ---------------------------------------------------------------- signed codes
pub open spec fn to_i32(x: u32) -> i32 { x as i32 }
pub open spec fn zz(x: int) -> u32 { (if x <= 0 { -2 * x } else { 2 * x - 1 }) as u32 }
pub open spec fn unzz(u: u32) -> i32 {
    let x = u as i32;
    if x & 1 != 0 { tdiv(if x == i32::MAX { i32::MIN as int } else { x + 1 }, 2) as i32 } else { tdiv(if x == i32::MIN { x as int } else { -x }, 2) as i32 }
}
pub open spec fn enc_i(x: int, pot: int) -> Seq<bool> { enc_u(zz(x), pot) }
pub open spec fn idec(s: Seq<bool>, pot: int) -> Option<(i32, int)> {
    match udec(s, pot) { None => None, Some((v, n)) => Some((unzz(v), n)) }
}
pub open spec fn uabs(x: int) -> u32 { (if x < 0 { -x } else { x }) as u32 }
pub open spec fn enc_s(x: int, pot: int) -> Seq<bool> { enc_u(uabs(x), pot) + (if x == 0 { seq![] } else { seq![x > 0] }) }
pub open spec fn sdec(s: Seq<bool>, pot: int) -> Option<(i32, int)> {
    match udec(s, pot) {
        None => None,
        Some((v, n)) => {
            let x = v as i32;
            if x == 0 { Some((0i32, n)) } else if s.len() < n + 1 { None }
            else if s[n] { Some((x, n + 1)) } else { Some(((if x == i32::MIN { x as int } else { -x }) as i32, n + 1)) }
        }
    }
}
pub proof fn lemma_unzz(x: int)
    requires -0x4000_0000 < x < 0x4000_0000,
    ensures unzz(zz(x)) == x,
{
    reveal(tdiv);
    let u = zz(x); let v = u as i32;
    assert(u <= 0x7fff_ffff);
    assert((v & 1 != 0) == (u & 1u32 != 0)) by (bit_vector) requires v == u as i32;
    let h = (if x <= 0 { -x } else { x - 1 }) as u32;
    if x <= 0 { assert(u == mul(2, h)); assert(mul(2, h) & 1u32 == 0) by (bit_vector); }
    else { assert(u == add(mul(2, h), 1)); assert(add(mul(2, h), 1) & 1u32 == 1) by (bit_vector); }
}
pub proof fn lemma_i_round(x: int, pot: int, tail: Seq<bool>)
    requires -0x4000_0000 < x < 0x4000_0000, 0 <= pot <= 24,
    ensures idec(enc_i(x, pot) + tail, pot) == Some((x as i32, enc_i(x, pot).len() as int)),
{
    lemma_u_round(zz(x), pot, tail);
    lemma_unzz(x);
}
pub proof fn lemma_s_round(x: int, pot: int, tail: Seq<bool>)
    requires i32::MIN <= x <= i32::MAX, 0 <= pot <= 24,
    ensures sdec(enc_s(x, pot) + tail, pot) == Some((x as i32, enc_s(x, pot).len() as int)),
{
    let e = enc_u(uabs(x), pot);
    let sg: Seq<bool> = if x == 0 { seq![] } else { seq![x > 0] };
    lemma_u_round(uabs(x), pot, sg + tail);
    assert(enc_s(x, pot) + tail =~= e + (sg + tail));
    let u = uabs(x);
    if x == i32::MIN { assert(u == 0x8000_0000u32); assert(0x8000_0000u32 as i32 == -0x8000_0000i32) by (bit_vector); }
    if x != 0 { assert((enc_s(x, pot) + tail)[e.len() as int] == (x > 0)); }
}
pub proof fn lemma_s_cut(x: int, pot: int, n: int)
    requires i32::MIN <= x <= i32::MAX, 0 <= pot <= 24, 0 <= n < enc_s(x, pot).len(),
    ensures sdec(enc_s(x, pot).take(n), pot) is None,
{
    let e = enc_u(uabs(x), pot);
    if n < e.len() { lemma_u_cut(uabs(x), pot, n); assert(enc_s(x, pot).take(n) =~= e.take(n)); }
    else {
        lemma_u_round(uabs(x), pot, seq![]);
        assert(enc_s(x, pot).take(n) =~= e + Seq::<bool>::empty());
        let u = uabs(x);
        if x == i32::MIN { assert(u == 0x8000_0000u32); assert(0x8000_0000u32 as i32 == -0x8000_0000i32) by (bit_vector); }
    }
}
pub proof fn lemma_i_cut(x: int, pot: int, n: int)
    requires -0x4000_0000 < x < 0x4000_0000, 0 <= pot <= 24, 0 <= n < enc_i(x, pot).len(),
    ensures idec(enc_i(x, pot).take(n), pot) is None,
{ lemma_u_cut(zz(x), pot, n); }
/// fixed size of the value that follows the unary part
pub proof fn lemma_tail_bits(x: u32, pot: int)
    requires 0 <= pot <= 24, x >> (pot as u32) < 12,
    ensures ({
        let p = pot as u32; let y = x >> p; let v = (1u32 << p) | (x & !(!0u32 << p));
        &&& forall|n: u32| p < n < 32 ==> v < #[trigger] (1u32 << n)
        &&& low(v, pot + 1) =~= seq![true] + low(x, pot)
        &&& (pot + 1 + y < 32 ==> low(v, y + 1 + pot) =~= zeros(y as int) + (seq![true] + low(x, pot)))
        &&& low(0, y as int) =~= zeros(y as int)
        &&& low(0, 12) =~= zeros(12)
        &&& forall|n: u32| 0 < 12 && n < 32 ==> 0 < #[trigger] (1u32 << n)
    }),
{
    let p = pot as u32; let y = x >> p; let v = (1u32 << p) | (x & !(!0u32 << p));
    assert forall|n: u32| p < n < 32 implies v < #[trigger] (1u32 << n) by {
        assert(v < 1u32 << n) by (bit_vector) requires p < n, n < 32, v == (1u32 << p) | (x & !(!0u32 << p));
    }
    assert forall|n: u32| n < 32 implies 0 < #[trigger] (1u32 << n) by { assert(0 < 1u32 << n) by (bit_vector) requires n < 32; }
    assert forall|k: u32| k < 32 implies #[trigger] ((v >> k) & 1u32) == (if k > p { 0u32 } else if k == p { 1u32 } else { (x >> k) & 1u32 }) by {
        if k > p { assert((v >> k) & 1u32 == 0) by (bit_vector) requires p < k, k < 32, v == (1u32 << p) | (x & !(!0u32 << p)); }
        else if k == p { assert((v >> k) & 1u32 == 1) by (bit_vector) requires p == k, k < 32, v == (1u32 << p) | (x & !(!0u32 << p)); }
        else { assert((v >> k) & 1u32 == (x >> k) & 1u32) by (bit_vector) requires p > k, p < 32, v == (1u32 << p) | (x & !(!0u32 << p)); }
    }
    assert forall|i: int| 0 <= i < y implies !(#[trigger] low(0u32, y as int)[i]) by { let k = (y - 1 - i) as u32; assert(k < 32 ==> (0u32 >> k) & 1u32 == 0u32) by (bit_vector); }
    assert forall|i: int| 0 <= i < 12 implies !(#[trigger] low(0u32, 12)[i]) by { let k = (12 - 1 - i) as u32; assert(k < 32 ==> (0u32 >> k) & 1u32 == 0u32) by (bit_vector); }
}
'''

SPECS = {
 'unsigned_code': ('''    requires old(stream).wwf(), pot <= 24,
    ensures final(stream).end() == old(stream).end(), r is Ok ==> final(stream).wwf() && final(stream).bits() =~= old(stream).bits() + enc_u(x, pot as int)'''),
 'unsigned_decode': ('''    requires old(stream).rwf(), pot <= 108,
    ensures final(stream).end() == old(stream).end(), match udec(old(stream).rest(), pot as int) {
        None => r is Err,
        Some((v, n)) => r matches Ok(w) && w == v && final(stream).rwf() && final(stream).behind() == old(stream).behind() && final(stream).rest() =~= old(stream).rest().skip(n) && n <= old(stream).rest().len(),
    }'''),
 'interleaved_code': ('''    requires old(stream).wwf(), pot <= 24, -0x4000_0000 < x < 0x4000_0000,
    ensures final(stream).end() == old(stream).end(), r is Ok ==> final(stream).wwf() && final(stream).bits() =~= old(stream).bits() + enc_i(x as int, pot as int)'''),
 'interleaved_decode': ('''    requires old(stream).rwf(), pot <= 108,
    ensures final(stream).end() == old(stream).end(), match idec(old(stream).rest(), pot as int) {
        None => r is Err,
        Some((v, n)) => r matches Ok(w) && w == v && final(stream).rwf() && final(stream).behind() == old(stream).behind() && final(stream).rest() =~= old(stream).rest().skip(n) && n <= old(stream).rest().len(),
    }'''),
 'signed_code': ('''    requires old(stream).wwf(), pot <= 24,
    ensures final(stream).end() == old(stream).end(), r is Ok ==> final(stream).wwf() && final(stream).bits() =~= old(stream).bits() + enc_s(x as int, pot as int)'''),
 'signed_decode': ('''    requires old(stream).rwf(), pot <= 108,
    ensures final(stream).end() == old(stream).end(), match sdec(old(stream).rest(), pot as int) {
        None => r is Err,
        Some((v, n)) => r matches Ok(w) && w == v && final(stream).rwf() && final(stream).behind() == old(stream).behind() && final(stream).rest() =~= old(stream).rest().skip(n) && n <= old(stream).rest().len(),
    }'''),
}
D = {'unsigned_code': '\n    decreases x', 'unsigned_decode': '\n    decreases 108 - pot'}
ENTRY = {
 'unsigned_code': '''    let ghost b0 = stream.bits();
    proof {
        lemma_esc(x, pot as int);
        assert((12u32 << pot) <= 0xc00_0000u32 && 12u32 << pot == esc(pot as int)) by { assert((12u32 << pot) <= 0xc00_0000u32) by (bit_vector) requires pot <= 24; }
        assert(0u32 >> pot == 0) by (bit_vector) requires pot < 32;
        if x >> pot < 12 { lemma_tail_bits(x, pot as int); } else { lemma_tail_bits(0, pot as int); }
        assert(0u32 >> pot == 0) by (bit_vector) requires pot < 32;
        assert((b0 + zeros(12)) + enc_u((x - esc(pot as int)) as u32, up(pot as int)) =~= b0 + (zeros(12) + enc_u((x - esc(pot as int)) as u32, up(pot as int))));
        let y = x >> pot;
        assert((b0 + zeros(y as int)) + (seq![true] + low(x, pot as int)) =~= b0 + (zeros(y as int) + seq![true] + low(x, pot as int)));
        assert(zeros(y as int) + (seq![true] + low(x, pot as int)) =~= zeros(y as int) + seq![true] + low(x, pot as int));
    }''',
 'unsigned_decode': '''    let ghost r0 = stream.rest();
    proof {
        lemma_lz_props(r0, 12);
        assert forall|v: u32, p: u32| 0 < p <= 24 && v < 1u32 << p implies #[trigger] bval(low(v, p as int)) == v by {
            lemma_bval_low(v, p as int);
            assert(v & sub(1u32 << p, 1) == v && 1u32 << p >= 1) by (bit_vector) requires 0 < p, p <= 24, v < 1u32 << p;
        }
        assert(forall|x: u32| x << 0u32 == x) by (bit_vector);
    }''',
 'signed_code': '''    let ghost b0 = stream.bits();
    proof {
        assert(0u32 < 1u32 << 1u32 && 1u32 < 1u32 << 1u32) by (bit_vector);
        assert((0u32 >> 0u32) & 1u32 == 0 && (1u32 >> 0u32) & 1u32 == 1) by (bit_vector);
        assert(low(1, 1) =~= seq![true]); assert(low(0, 1) =~= seq![false]);
        assert(-0x8000_0000i32 as u32 == 0x8000_0000u32) by (bit_vector);
        let e = enc_u(uabs(x as int), pot as int);
        assert(b0 + e + seq![x > 0] =~= b0 + (e + seq![x > 0]));
    }''',
 'interleaved_decode': '''    proof { reveal(tdiv); }''',
 'interleaved_code': '''    proof { assert(-2 * x as int == -(2 * x)); assert(-0x8000_0000 <= -2 * x as int <= 0x7fff_ffff); }''',
 'signed_decode': '''    let ghost r0 = stream.rest();
    proof {
        assert(1u32 << 1u32 == 2) by (bit_vector);
        assert forall|v: u32| v < 1u32 << 1u32 implies (v != 0) == #[trigger] low(v, 1)[0] by {
            assert((v != 0) == ((v >> 0u32) & 1u32 == 1)) by (bit_vector) requires v < 1u32 << 1u32;
        }
        lemma_udec_len(r0, pot as int);
        match udec(r0, pot as int) { Some((v, n)) => {
            let t = r0.skip(n);
            if r0.len() > n { assert(t.skip(1) =~= r0.skip(n + 1)); assert(t.take(1)[0] == r0[n]); }
        } None => {} }
    }''',
}
HINTS = {
 'unsigned_decode': [('after', 'stream.get_zeros', 1, '''    proof {
        assert forall|i: int| 0 <= i < x implies !r0[i] by { assert(r0.take(x as int)[i] == zeros(x as int)[i]); }
        lemma_lz_unique(r0, 12, x as nat);
        let c = if x == 12 { 12int } else { x as int + 1 }; let p = cap(pot as int);
        assert(stream.rest() =~= r0.skip(c));
        if r0.len() >= c + p {
            assert(r0.skip(c).take(p) =~= r0.subrange(c, c + p));
            assert(r0.skip(c).skip(p) =~= r0.skip(c + p));
        }
        if x == 12 {
            lemma_udec_len(r0.skip(12), if pot + 4 < 108 { pot + 4 } else { 108 });
            match udec(r0.skip(12), if pot + 4 < 108 { pot + 4 } else { 108 }) { Some((v, n)) => { assert(r0.skip(12).skip(n) =~= r0.skip(12 + n)); } None => {} }
        }
    }''')],
}
def contracts():
    return [Fn(k, 'r', v + D.get(k, ''), entry=ENTRY.get(k, ''), hints=HINTS.get(k, ())) for k, v in SPECS.items()]
ITEMS = [('fn', F, k) for k in SPECS]
CLIENT = r'''
// ---------------------------------------------------------------- C05 for the real functions, from their contracts alone
pub fn vx_code_roundtrip<W: BitsWriter, R: BitsReader>(x: u32, pot: u32, w: &mut W, g: &mut R, Ghost(tail): Ghost<Seq<bool>>) -> (r: io::Result<u32>)
    requires old(w).wwf(), old(g).rwf(), pot <= 24, old(g).rest() =~= enc_u(x, pot as int) + tail,
    ensures r matches Ok(v) ==> v == x && final(g).rest() =~= tail && final(w).bits() =~= old(w).bits() + enc_u(x, pot as int),
{
    unsigned_code(x, w, pot)?;
    proof { lemma_u_round(x, pot as int, tail); }
    let v = unsigned_decode(g, pot);
    assert(v is Ok);
    v
}
'''
UNIT = Unit('golomb', B.TRAIT_ITEMS + ITEMS, B.traits() + contracts(), prelude=B.THEORY + THEORY, post=CLIENT)
