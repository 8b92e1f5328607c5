"""Theory of the block entropy coder: geometry of a level in a block, contexts, the code of a block (C06, C12, C13, C15)."""
from units.quant import P as QP
from units.lifting_theory import BASE
import re

def lemma(name):
    """a lemma of unit quant by name, with its doc comment dropped"""
    m = re.search(r'(?ms)^pub proof fn %s\b.*?^\}\n' % name, QP)
    return m.group(0)

TOUCHED = re.search(r'(?m)^pub open spec fn touched.*\n', QP).group(0)

CHUNK = r'''
use core::marker::PhantomData;
// ---------------------------------------------------------------- a block of the image and the memory behind it
/// the samples behind the pointer
pub uninterp spec fn mem<T>(p: *mut T) -> Seq<T>;
// ASSUMED: a pointer into the image gives access to the samples behind it, index checked (precondition), writes change that sample only
#[verifier::external_body]
pub fn vx_at<T>(p: &*mut T, i: usize) -> (r: &T) requires i < mem(*p).len(), ensures *r == mem(*p)[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vx_at_mut<T>(p: &mut *mut T, i: usize) -> (r: &mut T)
    requires i < mem(*old(p)).len(),
    ensures *r == mem(*old(p))[i as int], mem(*final(p)) == mem(*old(p)).update(i as int, *final(r))
{ unimplemented!() }
/// debug_assert!: an obligation
pub fn vx_assert(b: bool) requires b {}
/// where a block lies: columns x0..x1, rows y0..y1, image width, first sample and number of samples of the channel, distance of the samples of the level
pub struct Geo { pub x0: int, pub x1: int, pub y0: int, pub y1: int, pub w: int, pub cs: int, pub cz: int, pub s: int }
pub open spec fn geo<T>(c: ImageChunkMut<'_, T>) -> Geo {
    Geo { x0: c.x_range.0 as int, x1: c.x_range.1 as int, y0: c.y_range.0 as int, y1: c.y_range.1 as int, w: c.image_width as int, cs: c.channel_start as int, cz: c.channel_size as int, s: c.step as int }
}
pub open spec fn pw(s: int) -> bool { exists|k: usize| k < 30 && s == #[trigger] (1usize << k) }
/// a block of a level with sample distance s in a channel that lies within n samples
pub open spec fn geo_ok(g: Geo, n: int) -> bool {
    &&& pw(g.s) && 0 < g.s
    &&& 0 <= g.x0 <= g.x1 <= g.w && 0 <= g.y0 <= g.y1 && g.w < 0x4000_0000 && g.y1 < 0x4000_0000
    &&& mult(g.x0, 2 * g.s) && mult(g.y0, 2 * g.s)
    &&& g.y1 * g.w <= g.cz && 0 <= g.cs && g.cs + g.cz <= n && n <= usize::MAX
}
pub open spec fn chunk_ok<T>(c: ImageChunkMut<'_, T>) -> bool { geo_ok(geo(c), mem(c.data_ptr).len() as int) && c.data_len == mem(c.data_ptr).len() }
pub proof fn lemma_chunk<T>(c: ImageChunkMut<'_, T>)
    requires chunk_ok(c),
    ensures geo_ok(geo(c), mem(c.data_ptr).len() as int), pw(c.step as int), 0 < c.step <= 0x2000_0000, c.x_range.0 <= c.x_range.1 <= c.image_width, c.y_range.0 <= c.y_range.1, c.image_width < 0x4000_0000, c.y_range.1 < 0x4000_0000,
        mult(c.x_range.0 as int, 2 * c.step as int), mult(c.y_range.0 as int, 2 * c.step as int),
{ lemma_pw(c.step as int); }
pub open spec fn at(g: Geo, y: int, x: int) -> int { g.cs + y * g.w + x }
pub open spec fn own(g: Geo, y: int, x: int) -> bool { g.x0 <= x < g.x1 && g.y0 <= y < g.y1 }
/// samples of the level, in coordinates of the block
pub open spec fn inb(g: Geo, y: int, x: int) -> bool { 0 <= y < g.y1 - g.y0 && 0 <= x < g.x1 - g.x0 }
/// the sample at row y, column x of the block
pub open spec fn val(g: Geo, m: Seq<i16>, y: int, x: int) -> i16 { m[at(g, g.y0 + y, g.x0 + x)] }
pub proof fn lemma_at(g: Geo, n: int, y: int, x: int)
    requires geo_ok(g, n), own(g, y, x),
    ensures g.cs <= at(g, y, x) < g.cs + g.cz, g.cs + g.cz <= n, 0 <= y * g.w, y * g.w + x < g.cz,
{
    assert(y * g.w + g.w <= g.y1 * g.w) by (nonlinear_arith) requires y + 1 <= g.y1, 0 <= g.w;
    assert(0 <= y * g.w) by (nonlinear_arith) requires y >= 0, g.w >= 0;
}
pub proof fn lemma_at_inj(g: Geo, n: int, y: int, x: int, v: int, u: int)
    requires geo_ok(g, n), own(g, y, x), own(g, v, u), at(g, y, x) == at(g, v, u),
    ensures y == v, x == u,
{
    let d = y - v;
    assert(d * g.w == u - x) by (nonlinear_arith) requires y * g.w + x == v * g.w + u, d == y - v;
    if d >= 1 { assert(d * g.w >= g.w) by (nonlinear_arith) requires d >= 1, g.w >= 0; }
    if d <= -1 { assert(d * g.w <= -g.w) by (nonlinear_arith) requires d <= -1, g.w >= 0; }
}
// ---------------------------------------------------------------- arithmetic of the grid
pub proof fn lemma_pw(s: int) requires pw(s), ensures 0 < s <= 0x2000_0000,
{
    let k = choose|k: usize| k < 30 && s == #[trigger] (1usize << k);
    assert(0 < (1usize << k) && (1usize << k) <= 0x2000_0000) by (bit_vector) requires k < 30;
}
pub open spec fn e2(b: bool, s: int) -> int { if b { s } else { 0 } }
/// multiples and odd multiples of s, relative to a multiple of 2 s
pub proof fn lemma_shift(a: int, b: int, s: int)
    requires s > 0, mult(b, 2 * s), a >= 0, b >= 0,
    ensures mult(b, s), mult(a + b, s) == mult(a, s), sel(a + b, s) == sel(a, s),
{
    reveal(mult); reveal(sel);
    let q = b / (2 * s);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, 2 * s);
    assert(b == (2 * s) * q);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, a, 2 * s);
    assert((2 * s) * q + a == a + b);
    assert(b == s * (2 * q)) by (nonlinear_arith) requires b == (2 * s) * q;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(2 * q, a, s);
    assert(s * (2 * q) + a == a + b);
    lemma_mult_half(b, s);
}
pub proof fn lemma_grid(a: int, s: int)
    requires s > 0, a >= 0, mult(a, s),
    ensures
        mult(a + s, s), mult(a + 2 * s, s), sel(a + 2 * s, s) == sel(a, s), sel(a + s, s) == !sel(a, s), sel(a, s) == !mult(a, 2 * s), sel(a, s) ==> a >= s, a > 0 ==> a >= s, mult(a + s, 2 * s) == sel(a, s), mult(a + 2 * s, 2 * s) == mult(a, 2 * s),
        a >= s ==> mult(a - s, s) && sel(a - s, s) == !sel(a, s) && mult(a - s, 2 * s) == sel(a, s), a >= 2 * s ==> mult(a - 2 * s, s) && sel(a - 2 * s, s) == sel(a, s), a >= 4 * s ==> mult(a - 4 * s, s) && sel(a - 4 * s, s) == sel(a, s),
        mult(a + 4 * s, s), sel(a + 4 * s, s) == sel(a, s),
{
    reveal(mult); reveal(sel);
    let q = a / s;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, s);
    assert(a == s * q);
    assert(q >= 0) by (nonlinear_arith) requires a == s * q, a >= 0, s > 0;
    lemma_grid_q(q, s);
    lemma_grid_q(q + 1, s); lemma_grid_q(q + 2, s); lemma_grid_q(q + 4, s);
    assert(s * (q + 1) == a + s && s * (q + 2) == a + 2 * s && s * (q + 4) == a + 4 * s) by (nonlinear_arith) requires a == s * q;
    if a >= s { assert(q >= 1) by (nonlinear_arith) requires s * q >= s, s > 0; lemma_grid_q(q - 1, s); assert(s * (q - 1) == a - s) by (nonlinear_arith) requires a == s * q; }
    if a >= 2 * s { assert(q >= 2) by (nonlinear_arith) requires s * q >= 2 * s, s > 0; lemma_grid_q(q - 2, s); assert(s * (q - 2) == a - 2 * s) by (nonlinear_arith) requires a == s * q; }
    if a >= 4 * s { assert(q >= 4) by (nonlinear_arith) requires s * q >= 4 * s, s > 0; lemma_grid_q(q - 4, s); assert(s * (q - 4) == a - 4 * s) by (nonlinear_arith) requires a == s * q; }
    if a > 0 { assert(q >= 1) by (nonlinear_arith) requires s * q > 0, s > 0; assert(s * q >= s) by (nonlinear_arith) requires q >= 1, s > 0; }
    if q == 0 { assert(s * q == 0); }
}
pub proof fn lemma_grid_q(q: int, s: int)
    requires s > 0, q >= 0,
    ensures mult(s * q, s), sel(s * q, s) == (q % 2 == 1), mult(s * q, 2 * s) == (q % 2 == 0),
{
    reveal(mult); reveal(sel);
    let i = q / 2; let r = q % 2;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, 0, s);
    assert(s * q == (2 * s) * i + s * r) by (nonlinear_arith) requires q == 2 * i + r;
    if r == 1 { assert(s * r == s); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(s * q, 2 * s, i, s); }
    else { assert(s * r == 0); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(s * q, 2 * s, i, 0); }
}
/// no multiples between neighbours
pub proof fn lemma_gap(a: int, b: int, s: int)
    requires s > 0, a >= 0, mult(a, s), mult(b, s), a < b,
    ensures b >= a + s, b == a + s || b >= a + 2 * s,
{
    reveal(mult);
    let q = a / s; let p = b / s;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, s);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, s);
    assert(p > q) by (nonlinear_arith) requires s * p > s * q, s > 0;
    assert(s * p >= s * q + s) by (nonlinear_arith) requires p >= q + 1, s > 0;
    if p > q + 1 { assert(s * p >= s * q + 2 * s) by (nonlinear_arith) requires p >= q + 2, s > 0; } else { assert(s * p == s * q + s) by (nonlinear_arith) requires p == q + 1; }
}
/// the bit tests of the code
pub open spec fn b2(a: int, s: int) -> bool { sel(a - e2(sel(a, s), s), 2 * s) }
pub proof fn lemma_bits(a: int, s: int)
    requires pw(s), 0 <= a < 0x4000_0000, mult(a, s),
    ensures ({ let x = a as i32; let t = s as i32; let u = (2 * s) as i32;
        &&& x & t == e2(sel(a, s), s) && x | t == a + e2(!sel(a, s), s)
        &&& x & !u == a - e2(b2(a, s), 2 * s) && (b2(a, s) ==> a >= 2 * s)
        &&& (a as usize & s as usize) == e2(sel(a, s), s) }),
{
    lemma_pw(s); lemma_grid(a, s);
    let k = choose|k: usize| k < 30 && s == #[trigger] (1usize << k);
    let x = a as usize; let t = s as usize; let u = (2 * s) as usize; let k1 = (k + 1) as usize;
    assert(u == (1usize << k1)) by { assert((1usize << k1) == mul(2, 1usize << k)) by (bit_vector) requires k < 30, k1 == add(k, 1); }
    lemma_and(x, t, k);
    assert((x & t) == 0 || (x & t) == t) by (bit_vector) requires t == (1usize << k), k < 30;
    let z = sub(x, x & t);
    assert((x & t) <= x) by (bit_vector);
    assert(z & u == x & u) by (bit_vector) requires z == sub(x, x & t), t == (1usize << k), u == (1usize << k1), k1 == add(k, 1), k < 30;
    assert(z == a - e2(sel(a, s), s));
    assert(mult(z as int, 2 * s));
    lemma_and(z, u, k1);
    assert((x & u) == 0 || (x & u) == u) by (bit_vector) requires u == (1usize << k1), k1 < 31;
    assert((x & u) <= x) by (bit_vector);
    let xi = a as i32; let ti = s as i32; let ui = (2 * s) as i32;
    assert(x & t <= 0x3fff_ffff && x | t <= 0x3fff_ffff && x & !u <= 0x3fff_ffff && x | t == sub(add(x, t), x & t) && x & !u == sub(x, x & u)) by (bit_vector) requires x < 0x4000_0000, t <= 0x2000_0000, t == (1usize << k), k < 30;
    assert(xi == x as i32 && ti == t as i32 && ui == u as i32);
    assert((xi & ti) == (x & t) as i32 && (xi | ti) == (x | t) as i32 && (xi & !ui) == (x & !u) as i32) by (bit_vector) requires xi == x as i32, ti == t as i32, ui == u as i32, x < 0x4000_0000, t <= 0x2000_0000, u <= 0x4000_0000;
}
'''
CTX = r'''
// ---------------------------------------------------------------- contexts
pub struct Acc { pub s: int, pub q: int, pub n: int }
pub open spec fn mag(v: int) -> int { if v < 0 { -v } else { v } }
pub open spec fn sq4(t: int) -> int { if t < 4096 { t * t } else { 0x100_0000 } }
pub open spec fn acadd(a: Acc, v: i16, w: int) -> Acc { Acc { s: a.s + mag(v as int) * w, q: a.q + sq4(mag(v as int)) * w, n: a.n + w } }
pub open spec fn acc_ok(a: Acc) -> bool { 0 <= a.n <= 32 && 0 <= a.s <= 32768 * a.n && 0 <= a.q <= 0x100_0000 * a.n }
pub proof fn lemma_add(a: Acc, v: i16, w: int)
    requires acc_ok(a), 0 <= w <= 4, a.n + w <= 32,
    ensures acc_ok(acadd(a, v, w)), acadd(a, v, w).n == a.n + w, 0 <= mag(v as int) * w <= 131072, 0 <= sq4(mag(v as int)) * w <= 0x400_0000, 0 <= sq4(mag(v as int)) <= 0x100_0000,
{
    let t = mag(v as int);
    assert(0 <= t * w <= 32768 * w) by (nonlinear_arith) requires 0 <= t <= 32768, 0 <= w;
    if t < 4096 { assert(0 <= t * t <= 0x100_0000) by (nonlinear_arith) requires 0 <= t <= 4096; }
    let u = sq4(t);
    assert(0 <= u * w <= 0x100_0000 * w) by (nonlinear_arith) requires 0 <= u <= 0x100_0000, 0 <= w;
}
/// the coarser sample next to the one at a
pub open spec fn anc(a: int, s: int, size: int) -> int { let p = a - e2(b2(a, s), 2 * s) + e2(sel(a, s), s); if p >= size { p - 2 * s } else { p } }
pub open spec fn ctx1(g: Geo, m: Seq<i16>, y: int, x: int) -> Acc {
    let s = g.s; let xo = x + e2(!sel(x, s), s);
    let a = acadd(Acc { s: 0, q: 0, n: 0 }, val(g, m, anc(y, s, g.y1 - g.y0), anc(x, s, g.x1 - g.x0)), 2);
    if sel(y, s) && xo < g.x1 - g.x0 { let a = acadd(a, val(g, m, y - s, xo), 2); if sel(x, s) { acadd(a, val(g, m, y, x - s), 2) } else { a } } else { a }
}
pub open spec fn ctx2(g: Geo, m: Seq<i16>, y: int, x: int, a: Acc) -> Acc {
    let s = g.s;
    let a = acadd(acadd(acadd(a, val(g, m, y - 2 * s, x), 4), val(g, m, y, x - 2 * s), 4), val(g, m, y - 2 * s, x - 2 * s), 2);
    if x + 2 * s < g.x1 - g.x0 { acadd(a, val(g, m, y - 2 * s, x + 2 * s), 2) } else { a }
}
pub open spec fn ctx4(g: Geo, m: Seq<i16>, y: int, x: int, a: Acc) -> Acc {
    let s = g.s;
    let a = acadd(acadd(acadd(a, val(g, m, y - 4 * s, x), 2), val(g, m, y, x - 4 * s), 2), val(g, m, y - 4 * s, x - 4 * s), 1);
    if x + 4 * s < g.x1 - g.x0 { acadd(a, val(g, m, y - 4 * s, x + 4 * s), 1) } else { a }
}
pub open spec fn ctx_acc(g: Geo, m: Seq<i16>, y: int, x: int) -> Acc {
    let a = ctx1(g, m, y, x); let s = g.s;
    if y >= 2 * s && x >= 2 * s { let b = ctx2(g, m, y, x, a); if y >= 4 * s && x >= 4 * s { ctx4(g, m, y, x, b) } else { b } } else { a }
}
pub open spec fn ctx_of(a: Acc) -> (u32, u32) { (((a.s * 16 + a.n / 2) / a.n) as u32, (((a.q * 16) % 0x1_0000_0000 + a.n / 2) / a.n) as u32) }
/// the context of the sample at row y, column x of a block
#[verifier::opaque]
pub open spec fn ctx(g: Geo, m: Seq<i16>, y: int, x: int) -> (u32, u32) { ctx_of(ctx_acc(g, m, y, x)) }
pub open spec fn ctx_ok(c: (u32, u32)) -> bool { c.1 <= 0x1000_0010 }
pub proof fn lemma_ctx_of(a: Acc)
    requires acc_ok(a), a.n >= 2,
    ensures ctx_ok(ctx_of(a)), ctx_of(a).0 <= 0x8_0001, ctx_of(a).0 == (a.s * 16 + a.n / 2) / a.n, ctx_of(a).1 == ((a.q * 16) % 0x1_0000_0000 + a.n / 2) / a.n,
{
    let e = a.s * 16 + a.n / 2; let n = a.n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(e, n);
    assert(0 <= e / n <= 0x8_0001) by (nonlinear_arith) requires 0 <= e <= 0x8_0000 * n + n, n >= 2, e == n * (e / n) + e % n, 0 <= e % n < n;
    let r = (a.q * 16) % 0x1_0000_0000;
    let f = r + a.n / 2;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(f, n);
    if a.q * 16 < 0x1_0000_0000 { assert(f <= 0x1000_0000 * n + n); } else { assert(n > 16 || a.q <= 0x1000_0000 && n == 16); if n > 16 { assert(f <= 0x1000_0000 * n + n); } else { assert(r == 0); } }
    assert(0 <= f / n <= 0x1000_0001) by (nonlinear_arith) requires 0 <= f <= 0x1000_0000 * n + n, n >= 2, f == n * (f / n) + f % n, 0 <= f % n < n;
}
pub proof fn lemma_ctx_n(g: Geo, m: Seq<i16>, y: int, x: int)
    ensures 2 <= ctx1(g, m, y, x).n <= 6, ctx2(g, m, y, x, ctx1(g, m, y, x)).n <= 18, 2 <= ctx_acc(g, m, y, x).n <= 24,
{ }
/// what has been decoded when the sample at (y, x) is up, seen from the encoder: coarser samples, and those of the level that come before
pub open spec fn before(y: int, x: int, v: int, u: int) -> bool { v < y || v == y && u < x }
pub open spec fn known(s: int, y: int, x: int, v: int, u: int) -> bool { mult(v, 2 * s) && mult(u, 2 * s) || touched(v, u, s) && before(y, x, v, u) }
pub open spec fn agree(g: Geo, m: Seq<i16>, n: Seq<i16>, y: int, x: int) -> bool { forall|v: int, u: int| inb(g, v, u) && #[trigger] known(g.s, y, x, v, u) ==> val(g, m, v, u) == val(g, n, v, u) }
pub proof fn lemma_agree(g: Geo, m: Seq<i16>, n: Seq<i16>, y: int, x: int, v: int, u: int)
    requires agree(g, m, n, y, x), inb(g, v, u), known(g.s, y, x, v, u), ensures val(g, m, v, u) == val(g, n, v, u) {}
/// the ancestor is a coarser sample of the block
pub proof fn lemma_anc(a: int, s: int, size: int)
    requires pw(s), 0 <= a < size, size < 0x4000_0000, mult(a, s),
    ensures 0 <= anc(a, s, size) < size, mult(anc(a, s, size), 2 * s), 0 <= a - e2(b2(a, s), 2 * s) + e2(sel(a, s), s),
{
    lemma_pw(s); lemma_grid(a, s); lemma_bits(a, s);
    let z = a - e2(sel(a, s), s);
    assert(mult(z, 2 * s));
    lemma_grid(z, 2 * s);
    if sel(a, s) { assert(a == z + s); }
    let p = a - e2(b2(a, s), 2 * s) + e2(sel(a, s), s);
    // p is z, z + 2 s or either of them minus 2 s
    assert(p == z + 2 * e2(sel(a, s), s) - e2(b2(a, s), 2 * s));
    if b2(a, s) { assert(z >= 2 * s); }
    assert(mult(p, 2 * s));
    if p >= size { lemma_grid(p, 2 * s); }
}
/// every sample the context reads belongs to the block and is known
pub proof fn lemma_ctx_reads(g: Geo, n: int, y: int, x: int)
    requires geo_ok(g, n), inb(g, y, x), touched(y, x, g.s),
    ensures ({ let s = g.s; let xo = x + e2(!sel(x, s), s); let ya = anc(y, s, g.y1 - g.y0); let xa = anc(x, s, g.x1 - g.x0);
        &&& mult(y, s) && mult(x, s)
        &&& inb(g, ya, xa) && known(s, y, x, ya, xa)
        &&& (sel(y, s) && xo < g.x1 - g.x0 ==> inb(g, y - s, xo) && known(s, y, x, y - s, xo) && (sel(x, s) ==> inb(g, y, x - s) && known(s, y, x, y, x - s)))
        &&& (y >= 2 * s && x >= 2 * s ==> inb(g, y - 2 * s, x) && known(s, y, x, y - 2 * s, x) && inb(g, y, x - 2 * s) && known(s, y, x, y, x - 2 * s) && inb(g, y - 2 * s, x - 2 * s) && known(s, y, x, y - 2 * s, x - 2 * s)
            && (x + 2 * s < g.x1 - g.x0 ==> inb(g, y - 2 * s, x + 2 * s) && known(s, y, x, y - 2 * s, x + 2 * s)))
        &&& (y >= 4 * s && x >= 4 * s ==> inb(g, y - 4 * s, x) && known(s, y, x, y - 4 * s, x) && inb(g, y, x - 4 * s) && known(s, y, x, y, x - 4 * s) && inb(g, y - 4 * s, x - 4 * s) && known(s, y, x, y - 4 * s, x - 4 * s)
            && (x + 4 * s < g.x1 - g.x0 ==> inb(g, y - 4 * s, x + 4 * s) && known(s, y, x, y - 4 * s, x + 4 * s))) }),
{
    let s = g.s;
    lemma_pw(s);
    if sel(x, s) { lemma_sel_mult(x, s); }
    lemma_grid(y, s); lemma_grid(x, s);
    lemma_anc(y, s, g.y1 - g.y0); lemma_anc(x, s, g.x1 - g.x0);
}
pub proof fn lemma_ctx_agree(g: Geo, m: Seq<i16>, n: Seq<i16>, y: int, x: int)
    requires geo_ok(g, m.len() as int), inb(g, y, x), touched(y, x, g.s), agree(g, m, n, y, x),
    ensures ctx(g, m, y, x) == ctx(g, n, y, x),
{
    hide(known);
    reveal(ctx);
    let s = g.s; let xo = x + e2(!sel(x, s), s); let ya = anc(y, s, g.y1 - g.y0); let xa = anc(x, s, g.x1 - g.x0);
    lemma_ctx_reads(g, m.len() as int, y, x);
    lemma_agree(g, m, n, y, x, ya, xa);
    if sel(y, s) && xo < g.x1 - g.x0 { lemma_agree(g, m, n, y, x, y - s, xo); if sel(x, s) { lemma_agree(g, m, n, y, x, y, x - s); } }
    if y >= 2 * s && x >= 2 * s {
        lemma_agree(g, m, n, y, x, y - 2 * s, x); lemma_agree(g, m, n, y, x, y, x - 2 * s); lemma_agree(g, m, n, y, x, y - 2 * s, x - 2 * s);
        if x + 2 * s < g.x1 - g.x0 { lemma_agree(g, m, n, y, x, y - 2 * s, x + 2 * s); }
        if y >= 4 * s && x >= 4 * s {
            lemma_agree(g, m, n, y, x, y - 4 * s, x); lemma_agree(g, m, n, y, x, y, x - 4 * s); lemma_agree(g, m, n, y, x, y - 4 * s, x - 4 * s);
            if x + 4 * s < g.x1 - g.x0 { lemma_agree(g, m, n, y, x, y - 4 * s, x + 4 * s); }
        }
    }
}
'''
CODE = r'''
// ---------------------------------------------------------------- the code of a block
/// a sample and its context
pub struct It { pub v: int, pub c: (u32, u32) }
pub struct Cf { pub sch: Encoder, pub q: int, pub chroma: bool }
/// kind (explicit sign or interleaved) and parameter of the code of a sample
pub open spec fn kind(sq: u32, c1: int, chroma: bool) -> (bool, int) {
    if sq < 2 * c1 + (if chroma { 250int } else { 100 }) { (false, 0) }
    else if sq < 2 * c1 + 950 { (false, 1) }
    else if sq < 3 * c1 + 3000 { if sq < 5 * c1 + 400 { (true, 1) } else { (false, 2) } }
    else if sq < 3 * c1 + 12000 { if sq < 5 * c1 + 3000 { (true, 2) } else { (false, 3) } }
    else if sq < 4 * c1 + 44000 { if sq < 6 * c1 + 12000 { (true, 3) } else { (false, 4) } }
    else { (true, 4) }
}
pub open spec fn enc_k(s: int, k: (bool, int)) -> Seq<bool> { if k.0 { enc_s(s, k.1) } else { enc_i(s, k.1) } }
pub open spec fn dec_k(b: Seq<bool>, k: (bool, int)) -> Option<(i32, int)> { if k.0 { sdec(b, k.1) } else { idec(b, k.1) } }
pub open spec fn sq32(t: u32) -> u32 { wrap32(t * t) }
/// how much run coding is worth after a sample
pub open spec fn rc_fast(c: (u32, u32), s: int, rc: u32) -> u32 {
    if (s == 0) == (rc == 0) { if c.0 < 1 { 4 } else if c.0 < 2 { 3 } else if c.0 < 4 { 2 } else if c.0 < 8 { 1 } else { 0 } } else { rc }
}
pub open spec fn rc_ctx(c: (u32, u32), s: int, q: int, rc: u32, sq: u32) -> u32 {
    if (s == 0) == (rc == 0) {
        if q == 1024 { if c.0 < 2 { 1 } else { 0 } }
        else if c.0 < 4 && c.1 < 2 { 4 } else if c.0 < 8 && c.1 < 4 { 3 }
        else if wrap32(sq * 2) < 3 * c.1 + 48 { 2 } else if wrap32(sq * 2) < 5 * c.1 + 32 { 1 } else { 0 }
    } else { rc }
}
/// after a run, a sample isn't zero
pub open spec fn sh(s: int, rc: u32) -> int { if rc != 0 && s < 0 { s + 1 } else { s } }
pub open spec fn used(cf: Cf, c: (u32, u32), it: It) -> (u32, u32) { if cf.sch is Contextual { it.c } else { c } }
pub open spec fn code1(cf: Cf, c: (u32, u32), rc: u32, it: It) -> Seq<bool> {
    if cf.sch is Turbo { enc_i(sh(it.v, rc), 1) } else { let u = used(cf, c, it); enc_k(sh(it.v, rc), kind(sq32(u.0), u.1 as int, cf.chroma)) }
}
pub open spec fn step_fast(c: (u32, u32), s: int) -> (u32, u32) {
    (wrap32(wrap32(c.0 * 15 + 7) / 16 + uabs(s)), wrap32((c.1 * 15 + 7) / 16 + sq4(uabs(s) as int)))
}
pub open spec fn next_c(cf: Cf, c: (u32, u32), rc: u32, it: It) -> (u32, u32) { if cf.sch is Turbo { c } else if cf.sch is Fast { step_fast(c, sh(it.v, rc)) } else { it.c } }
pub open spec fn next_rc(cf: Cf, c: (u32, u32), rc: u32, it: It) -> u32 {
    if cf.sch is Turbo { rc } else if cf.sch is Fast { rc_fast(step_fast(c, sh(it.v, rc)), sh(it.v, rc), rc) }
    else { let u = used(cf, c, it); rc_ctx(u, sh(it.v, rc), cf.q, rc, sq32(u.0)) }
}
/// the code of the samples in rem, after run zeros that are pending
pub open spec fn blk(cf: Cf, rem: Seq<It>, c: (u32, u32), rc: u32, run: int) -> Seq<bool> decreases rem.len() {
    if rem.len() == 0 { if run != 0 { enc_u(run as u32, rc as int) } else { seq![] } }
    else if rc != 0 && rem[0].v == 0 { blk(cf, rem.skip(1), c, rc, run + 1) }
    else { (if rc != 0 { enc_u(run as u32, rc as int) } else { seq![] }) + (code1(cf, c, rc, rem[0]) + blk(cf, rem.skip(1), next_c(cf, c, rc, rem[0]), next_rc(cf, c, rc, rem[0]), 0)) }
}
/// ... when the run before it has been dealt with
pub open spec fn nz(cf: Cf, rem: Seq<It>, c: (u32, u32), rc: u32) -> Seq<bool> {
    if rem.len() == 0 { seq![] } else { code1(cf, c, rc, rem[0]) + blk(cf, rem.skip(1), next_c(cf, c, rc, rem[0]), next_rc(cf, c, rc, rem[0]), 0) }
}
/// number of zeros at the start
pub open spec fn zc(rem: Seq<It>) -> int decreases rem.len() { if rem.len() == 0 || rem[0].v != 0 { 0 } else { 1 + zc(rem.skip(1)) } }
pub proof fn lemma_zc(rem: Seq<It>)
    ensures 0 <= zc(rem) <= rem.len(), forall|i: int| 0 <= i < zc(rem) ==> (#[trigger] rem[i]).v == 0, zc(rem) < rem.len() ==> rem[zc(rem)].v != 0,
    decreases rem.len(),
{
    if rem.len() == 0 || rem[0].v != 0 { } else {
        lemma_zc(rem.skip(1));
        assert forall|i: int| 0 <= i < zc(rem) implies (#[trigger] rem[i]).v == 0 by { if i > 0 { assert(rem.skip(1)[i - 1] == rem[i]); } }
    }
}
pub proof fn lemma_run(cf: Cf, rem: Seq<It>, c: (u32, u32), rc: u32, run: int)
    requires rc != 0, run >= 0,
    ensures blk(cf, rem, c, rc, run) == (if zc(rem) == rem.len() && run + zc(rem) == 0 { seq![] } else { enc_u((run + zc(rem)) as u32, rc as int) + nz(cf, rem.skip(zc(rem)), c, rc) }),
    decreases rem.len(),
{
    lemma_zc(rem);
    if rem.len() == 0 { assert(rem.skip(0) =~= rem); assert(enc_u(run as u32, rc as int) + seq![] =~= enc_u(run as u32, rc as int)); }
    else if rem[0].v == 0 { lemma_run(cf, rem.skip(1), c, rc, run + 1); assert(rem.skip(1).skip(zc(rem.skip(1))) =~= rem.skip(zc(rem))); }
    else { assert(rem.skip(0) =~= rem); }
}
/// what the decoder has to make of the bits that are left: the code of rem and then tail; run: zeros left of a run that was read, or -1
pub open spec fn left(cf: Cf, rem: Seq<It>, c: (u32, u32), rc: u32, run: int, rest: Seq<bool>, tail: Seq<bool>) -> bool {
    if run == -1 { rest =~= blk(cf, rem, c, rc, 0) + tail }
    else { 0 <= run == zc(rem) && rc != 0 && rest =~= nz(cf, rem.skip(run), c, rc) + tail }
}
pub open spec fn it_ok(it: It) -> bool { -32768 <= it.v <= 32767 && ctx_ok(it.c) }
/// reading a run
pub proof fn lemma_left_run(cf: Cf, rem: Seq<It>, c: (u32, u32), rc: u32, rest: Seq<bool>, tail: Seq<bool>)
    requires left(cf, rem, c, rc, -1, rest, tail), 0 < rc <= 4, rem.len() > 0, rem.len() <= i32::MAX,
    ensures udec(rest, rc as int) matches Some((k, n)) && k == zc(rem) && k <= i32::MAX && left(cf, rem, c, rc, k as int, rest.skip(n), tail),
{
    lemma_zc(rem); lemma_run(cf, rem, c, rc, 0);
    let k = zc(rem);
    let e = enc_u(k as u32, rc as int);
    let t = nz(cf, rem.skip(k), c, rc) + tail;
    lemma_u_round(k as u32, rc as int, t);
    assert(rest =~= e + t);
    assert(rest.skip(e.len() as int) =~= t);
}
/// consuming a zero
pub proof fn lemma_left_zero(cf: Cf, rem: Seq<It>, c: (u32, u32), rc: u32, run: int, rest: Seq<bool>, tail: Seq<bool>)
    requires left(cf, rem, c, rc, run, rest, tail), run > 0,
    ensures rem.len() > 0, rem[0].v == 0, left(cf, rem.skip(1), c, rc, run - 1, rest, tail),
{ lemma_zc(rem); assert(rem.skip(1).skip(run - 1) =~= rem.skip(run)); }
/// reading a sample
pub open spec fn read1(cf: Cf, c: (u32, u32), it: It, b: Seq<bool>) -> Option<(i32, int)> {
    if cf.sch is Turbo { idec(b, 1) } else { let u = used(cf, c, it); dec_k(b, kind(sq32(u.0), u.1 as int, cf.chroma)) }
}
pub open spec fn fix(s: i32, run: int) -> int { if run == 0 && s <= 0 { s - 1 } else { s as int } }
pub proof fn lemma_left_read(cf: Cf, rem: Seq<It>, c: (u32, u32), rc: u32, run: int, rest: Seq<bool>, tail: Seq<bool>)
    requires left(cf, rem, c, rc, run, rest, tail), rem.len() > 0, run == 0 || run == -1 && rc == 0, it_ok(rem[0]),
    ensures read1(cf, c, rem[0], rest) matches Some((s, n)) && s == sh(rem[0].v, rc) && fix(s, run) == rem[0].v && 0 <= n <= rest.len()
        && left(cf, rem.skip(1), next_c(cf, c, rc, rem[0]), next_rc(cf, c, rc, rem[0]), -1, rest.skip(n), tail),
{
    lemma_zc(rem);
    assert(rem.skip(0) =~= rem);
    let e = code1(cf, c, rc, rem[0]);
    let t = blk(cf, rem.skip(1), next_c(cf, c, rc, rem[0]), next_rc(cf, c, rc, rem[0]), 0) + tail;
    assert(rest =~= e + t);
    let s = sh(rem[0].v, rc);
    if cf.sch is Turbo { lemma_i_round(s, 1, t); }
    else {
        let u = used(cf, c, rem[0]); let k = kind(sq32(u.0), u.1 as int, cf.chroma);
        if k.0 { lemma_s_round(s, k.1, t); } else { lemma_i_round(s, k.1, t); }
    }
    assert(rest.skip(e.len() as int) =~= t);
}
// ---------------------------------------------------------------- the order of the samples
/// samples of row y from column x on, with their contexts
pub open spec fn row(g: Geo, m: Seq<i16>, y: int, x: int) -> Seq<It> decreases (if x < g.x1 - g.x0 { g.x1 - g.x0 - x } else { 0 }) {
    if x >= g.x1 - g.x0 || g.s <= 0 { seq![] } else { seq![It { v: val(g, m, y, x) as int, c: ctx(g, m, y, x) }] + row(g, m, y, x + (if sel(y, g.s) { g.s } else { 2 * g.s })) }
}
/// samples of the level from row y on
pub open spec fn rows(g: Geo, m: Seq<i16>, y: int) -> Seq<It> decreases (if y < g.y1 - g.y0 { g.y1 - g.y0 - y } else { 0 }) {
    if y >= g.y1 - g.y0 || g.s <= 0 { seq![] } else { row(g, m, y, if sel(y, g.s) { 0 } else { g.s }) + rows(g, m, y + g.s) }
}
pub open spec fn rc0(cf: Cf, s: int) -> u32 { if cf.sch is Turbo && (cf.q == 0 || s < 2048 && cf.q * s < 2048) { 1 } else { 0 } }
/// the code of a block
pub open spec fn block(g: Geo, m: Seq<i16>, cf: Cf, dc: bool) -> Seq<bool> {
    (if dc && inb(g, 0, 0) { enc_s(val(g, m, 0, 0) as int, 4) } else { seq![] }) + blk(cf, rows(g, m, 0), (0, 0), rc0(cf, g.s), 0)
}
pub proof fn lemma_row_len(g: Geo, m: Seq<i16>, y: int, x: int)
    requires g.s > 0, x >= 0,
    ensures row(g, m, y, x).len() <= (if x >= g.x1 - g.x0 { 0 } else { g.x1 - g.x0 - x }),
    decreases (if x < g.x1 - g.x0 { g.x1 - g.x0 - x } else { 0 }),
{ if x < g.x1 - g.x0 { lemma_row_len(g, m, y, x + (if sel(y, g.s) { g.s } else { 2 * g.s })); } }
pub proof fn lemma_rows_len(g: Geo, m: Seq<i16>, y: int)
    requires g.s > 0, y >= 0, g.x0 <= g.x1,
    ensures rows(g, m, y).len() <= (if y >= g.y1 - g.y0 { 0 } else { (g.y1 - g.y0 - y) * (g.x1 - g.x0) }),
    decreases (if y < g.y1 - g.y0 { g.y1 - g.y0 - y } else { 0 }),
{
    if y < g.y1 - g.y0 {
        lemma_row_len(g, m, y, if sel(y, g.s) { 0 } else { g.s }); lemma_rows_len(g, m, y + g.s);
        let a = g.y1 - g.y0 - y; let b = g.x1 - g.x0; let s = g.s;
        assert(a * b == b + (a - 1) * b) by (nonlinear_arith);
        if y + s < g.y1 - g.y0 { assert((a - s) * b <= (a - 1) * b) by (nonlinear_arith) requires s >= 1, b >= 0; } else { assert(0 <= (a - 1) * b) by (nonlinear_arith) requires a >= 1, b >= 0; }
    }
}
'''
