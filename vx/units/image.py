"""src/processing/image.rs: the blocks of a level (C12)."""
from extract import Unit, Fn
from units.codec_theory import BASE, TOUCHED, lemma, CHUNK
I = 'src/processing/image.rs'
LAY = r'''
// ---------------------------------------------------------------- the blocks of a level
/// width, height, block size, channels, distance of the samples of the level
pub struct Lay { pub w: int, pub h: int, pub b: int, pub n: int, pub s: int }
pub open spec fn cdiv(a: int, b: int) -> int { (a + b - 1) / b }
pub open spec fn nx(l: Lay) -> int { cdiv(l.w, l.b) }
pub open spec fn ny(l: Lay) -> int { cdiv(l.h, l.b) }
pub open spec fn total(l: Lay) -> int { l.n * (ny(l) * nx(l)) }
pub open spec fn chan(l: Lay, k: int) -> int { k / (ny(l) * nx(l)) }
pub open spec fn brow(l: Lay, k: int) -> int { (k % (ny(l) * nx(l))) / nx(l) }
pub open spec fn bcol(l: Lay, k: int) -> int { (k % (ny(l) * nx(l))) % nx(l) }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
/// block number k: channel by channel, row by row
pub open spec fn bgeo(l: Lay, k: int) -> Geo {
    Geo { x0: bcol(l, k) * l.b, x1: imin(bcol(l, k) * l.b + l.b, l.w), y0: brow(l, k) * l.b, y1: imin(brow(l, k) * l.b + l.b, l.h), w: l.w, cs: chan(l, k) * (l.w * l.h), cz: l.w * l.h, s: l.s }
}
pub open spec fn lay_ok(l: Lay) -> bool { 0 < l.w < 0x4000_0000 && 0 < l.h < 0x4000_0000 && 0 < l.b && l.n >= 0 && l.w + l.b <= usize::MAX && l.h + l.b <= usize::MAX && l.n * (l.w * l.h) <= usize::MAX && pw(l.s) && mult(l.b, 2 * l.s) }
pub open spec fn lay(t: ImageChunkIteratorState) -> Lay { Lay { w: t.width as int, h: t.height as int, b: t.chunk_size as int, n: t.channels as int, s: t.step as int } }
/// the iterator has produced k blocks
pub open spec fn st_at(t: ImageChunkIteratorState, k: int) -> bool {
    let l = lay(t);
    lay_ok(l) && 0 <= k <= total(l) && t.x == bcol(l, k) * l.b && t.y == brow(l, k) * l.b && t.channel == chan(l, k)
}
pub proof fn lemma_cdiv(a: int, b: int, q: int)
    requires a > 0, b > 0,
    ensures cdiv(a, b) >= 1, q < cdiv(a, b) <==> q * b < a, 
{
    let c = cdiv(a, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a + b - 1, b);
    let r = (a + b - 1) % b;
    assert(a + b - 1 == b * c + r);
    assert(c >= 1) by (nonlinear_arith) requires a + b - 1 == b * c + r, a > 0, b > 0, r < b;
    if q < c { assert(q * b < a) by (nonlinear_arith) requires q <= c - 1, a + b - 1 == b * c + r, r >= 0, b > 0; }
    else { assert(q * b >= a) by (nonlinear_arith) requires q >= c, a + b - 1 == b * c + r, r < b, b > 0; }
}
/// numbers of blocks in range are positions in the grid
pub proof fn lemma_pos(l: Lay, k: int)
    requires lay_ok(l), k >= 0,
    ensures nx(l) >= 1, ny(l) >= 1, 0 <= bcol(l, k) < nx(l), 0 <= brow(l, k) < ny(l), 0 <= chan(l, k), k == chan(l, k) * (ny(l) * nx(l)) + brow(l, k) * nx(l) + bcol(l, k), k < total(l) <==> chan(l, k) < l.n,
{
    lemma_cdiv(l.w, l.b, 0); lemma_cdiv(l.h, l.b, 0);
    let a = nx(l); let b = ny(l); let p = b * a;
    assert(p >= 1) by (nonlinear_arith) requires a >= 1, b >= 1, p == b * a;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, p);
    let r = k % p;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, a);
    let y = r / a;
    assert(k / p >= 0) by (nonlinear_arith) requires k == p * (k / p) + r, r < p, p >= 1, k >= 0;
    assert(y >= 0) by (nonlinear_arith) requires r == a * y + r % a, r % a < a, a >= 1, r >= 0;
    assert(y < b) by (nonlinear_arith) requires r == a * y + r % a, r % a >= 0, a >= 1, r < b * a;
    assert(p * (k / p) == (k / p) * p && a * y == y * a) by (nonlinear_arith);
    let c = k / p;
    if c < l.n { assert(k < l.n * p) by (nonlinear_arith) requires k == p * c + r, r < p, c + 1 <= l.n, p >= 1; }
    else { assert(k >= l.n * p) by (nonlinear_arith) requires k == p * c + r, r >= 0, c >= l.n, p >= 1; }
}
/// ... and back
pub proof fn lemma_num(l: Lay, c: int, y: int, x: int)
    requires lay_ok(l), 0 <= x < nx(l), 0 <= y < ny(l), 0 <= c,
    ensures ({ let k = c * (ny(l) * nx(l)) + y * nx(l) + x; k >= 0 && chan(l, k) == c && brow(l, k) == y && bcol(l, k) == x && (c < l.n ==> k < total(l)) }),
{
    lemma_cdiv(l.w, l.b, 0); lemma_cdiv(l.h, l.b, 0);
    let a = nx(l); let b = ny(l); let p = b * a; let r = y * a + x; let k = c * p + y * a + x;
    assert(0 <= r < p) by (nonlinear_arith) requires r == y * a + x, 0 <= x < a, 0 <= y, y + 1 <= b, p == b * a;
    assert(0 <= c * p) by (nonlinear_arith) requires c >= 0, p >= 0;
    assert(k == p * c + r) by (nonlinear_arith) requires k == c * p + y * a + x, r == y * a + x;
    assert(r == a * y + x) by (nonlinear_arith) requires r == y * a + x;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, p, c, r);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r, a, y, x);
    if c < l.n { assert(k < l.n * p) by (nonlinear_arith) requires k == p * c + r, r < p, c + 1 <= l.n, p >= 1; }
}
/// the next block
pub proof fn lemma_succ(l: Lay, k: int)
    requires lay_ok(l), 0 <= k < total(l),
    ensures ({ let x = bcol(l, k); let y = brow(l, k); let c = chan(l, k);
        &&& (x + 1 < nx(l) ==> bcol(l, k + 1) == x + 1 && brow(l, k + 1) == y && chan(l, k + 1) == c)
        &&& (x + 1 >= nx(l) && y + 1 < ny(l) ==> bcol(l, k + 1) == 0 && brow(l, k + 1) == y + 1 && chan(l, k + 1) == c)
        &&& (x + 1 >= nx(l) && y + 1 >= ny(l) ==> bcol(l, k + 1) == 0 && brow(l, k + 1) == 0 && chan(l, k + 1) == c + 1) }),
{
    lemma_pos(l, k);
    let x = bcol(l, k); let y = brow(l, k); let c = chan(l, k); let a = nx(l); let b = ny(l); let p = b * a;
    if x + 1 < a { lemma_num(l, c, y, x + 1); }
    else if y + 1 < b { lemma_num(l, c, y + 1, 0); assert((y + 1) * a == y * a + a) by (nonlinear_arith); }
    else { lemma_num(l, c + 1, 0, 0); assert((c + 1) * p == c * p + p) by (nonlinear_arith); assert(y * a + a == b * a) by (nonlinear_arith) requires y + 1 == b; assert(0 * a == 0); }
}
/// facts about a block
pub proof fn lemma_block(l: Lay, k: int, n: int)
    requires lay_ok(l), 0 <= k < total(l), l.n * (l.w * l.h) <= n <= usize::MAX,
    ensures geo_ok(bgeo(l, k), n), ({ let g = bgeo(l, k); 0 <= g.x0 < g.x1 && 0 <= g.y0 < g.y1 && g.x0 + l.b <= usize::MAX && g.y0 + l.b <= usize::MAX && g.x1 <= l.w && g.y1 <= l.h && 0 <= l.w * l.h <= usize::MAX && chan(l, k) < l.n
        && (bcol(l, k) + 1 < nx(l) <==> g.x0 + l.b < l.w) && (brow(l, k) + 1 < ny(l) <==> g.y0 + l.b < l.h) && chan(l, k) * l.w <= usize::MAX && chan(l, k) * l.w * l.h == g.cs }),
{
    lemma_pos(l, k);
    let g = bgeo(l, k); let x = bcol(l, k); let y = brow(l, k); let c = chan(l, k);
    lemma_cdiv(l.w, l.b, x); lemma_cdiv(l.h, l.b, y); lemma_cdiv(l.w, l.b, x + 1); lemma_cdiv(l.h, l.b, y + 1);
    assert((x + 1) * l.b == x * l.b + l.b && (y + 1) * l.b == y * l.b + l.b && 0 <= x * l.b && 0 <= y * l.b) by (nonlinear_arith) requires x >= 0, y >= 0, l.b > 0;
    let z = l.w * l.h;
    assert(0 < z) by (nonlinear_arith) requires z == l.w * l.h, l.w > 0, l.h > 0;
    assert(g.y1 * g.w <= z) by (nonlinear_arith) requires g.y1 <= l.h, g.w == l.w, z == l.w * l.h, l.w > 0;
    assert(0 <= c * z && c * z + z <= l.n * z) by (nonlinear_arith) requires 0 <= c, c + 1 <= l.n, z >= 0;
    assert(l.w <= z) by (nonlinear_arith) requires z == l.w * l.h, l.h >= 1, l.w > 0;
    assert(c * l.w <= c * z) by (nonlinear_arith) requires l.w <= z, c >= 0;
    assert(c * l.w * l.h == c * z) by (nonlinear_arith) requires z == l.w * l.h;
    lemma_pw(l.s);
    lemma_mult_mul(l.b, x, 2 * l.s); lemma_mult_mul(l.b, y, 2 * l.s);
}
pub proof fn lemma_mult_mul(b: int, q: int, s: int)
    requires s > 0, mult(b, s), ensures mult(q * b, s),
{
    reveal(mult);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, s);
    let i = b / s;
    assert(q * b == (q * i) * s) by (nonlinear_arith) requires b == s * i;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q * i, s);
}
'''
PTR = r'''
/// as_mut_ptr: the samples of the slice are what lies behind the pointer
#[verifier::external_body]
pub fn vx_ptr<T>(d: &[T]) -> (r: *mut T) ensures mem(r) == d@ { unimplemented!() }
'''
POST = r'''
/// C12: every sample of every channel lies in exactly one block
pub open spec fn holds(l: Lay, k: int, c: int, y: int, x: int) -> bool { chan(l, k) == c && own(bgeo(l, k), y, x) }
pub proof fn lemma_partition(l: Lay, c: int, y: int, x: int)
    requires lay_ok(l), 0 <= c < l.n, 0 <= y < l.h, 0 <= x < l.w,
    ensures exists|k: int| 0 <= k < total(l) && #[trigger] holds(l, k, c, y, x), forall|i: int, j: int| 0 <= i < total(l) && 0 <= j < total(l) && #[trigger] holds(l, i, c, y, x) && #[trigger] holds(l, j, c, y, x) ==> i == j,
{
    let b = l.b; let u = x / b; let v = y / b;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, b); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, b);
    assert(u * b == b * u && v * b == b * v && u * b <= x && v * b <= y) by (nonlinear_arith) requires x == b * u + x % b, y == b * v + y % b, x % b >= 0, y % b >= 0;
    assert(u >= 0 && v >= 0) by (nonlinear_arith) requires x == b * u + x % b, y == b * v + y % b, x % b < b, y % b < b, x >= 0, y >= 0, b > 0;
    lemma_cdiv(l.w, b, u); lemma_cdiv(l.h, b, v);
    lemma_num(l, c, v, u);
    let k = c * (ny(l) * nx(l)) + v * nx(l) + u;
    assert(holds(l, k, c, y, x));
    assert forall|i: int, j: int| 0 <= i < total(l) && 0 <= j < total(l) && #[trigger] holds(l, i, c, y, x) && #[trigger] holds(l, j, c, y, x) implies i == j by { lemma_holds(l, i, c, y, x); lemma_holds(l, j, c, y, x); }
}
pub proof fn lemma_holds(l: Lay, k: int, c: int, y: int, x: int)
    requires lay_ok(l), 0 <= k < total(l), holds(l, k, c, y, x),
    ensures k == c * (ny(l) * nx(l)) + (y / l.b) * nx(l) + x / l.b,
{
    lemma_pos(l, k);
    let b = l.b; let u = bcol(l, k); let v = brow(l, k);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, b, u, x - u * b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y, b, v, y - v * b);
    assert(u * b == b * u && v * b == b * v) by (nonlinear_arith);
}
/// ... so different blocks have no sample in common
pub proof fn lemma_disjoint(l: Lay, i: int, j: int, n: int, y: int, x: int, v: int, u: int)
    requires lay_ok(l), 0 <= i < total(l), 0 <= j < total(l), l.n * (l.w * l.h) <= n <= usize::MAX, own(bgeo(l, i), y, x), own(bgeo(l, j), v, u), at(bgeo(l, i), y, x) == at(bgeo(l, j), v, u),
    ensures i == j,
{
    let g = bgeo(l, i); let f = bgeo(l, j); let z = l.w * l.h;
    lemma_block(l, i, n); lemma_block(l, j, n); lemma_pos(l, i); lemma_pos(l, j);
    lemma_at(g, n, y, x); lemma_at(f, n, v, u);
    let c = chan(l, i); let d = chan(l, j);
    assert(c * z <= at(g, y, x) < c * z + z && d * z <= at(f, v, u) < d * z + z);
    assert(c == d) by (nonlinear_arith) requires c * z < d * z + z, d * z < c * z + z, z > 0;
    let e = y - v;
    assert(e * l.w == u - x) by (nonlinear_arith) requires y * l.w + x == v * l.w + u, e == y - v;
    if e >= 1 { assert(e * l.w >= l.w) by (nonlinear_arith) requires e >= 1, l.w >= 0; }
    if e <= -1 { assert(e * l.w <= -l.w) by (nonlinear_arith) requires e <= -1, l.w >= 0; }
    assert(holds(l, i, c, y, x) && holds(l, j, c, y, x));
    lemma_partition(l, c, y, x);
}
/// all blocks of a level, as a client of the iterator's contract
pub fn all_blocks<T>(data: &mut [T], size: (usize, usize), channels: usize, b: usize, s: usize) -> (n: usize)
    requires lay_ok(Lay { w: size.0 as int, h: size.1 as int, b: b as int, n: channels as int, s: s as int }), channels * (size.0 * size.1) <= old(data).len(), total(Lay { w: size.0 as int, h: size.1 as int, b: b as int, n: channels as int, s: s as int }) <= usize::MAX,
    ensures n == total(Lay { w: size.0 as int, h: size.1 as int, b: b as int, n: channels as int, s: s as int })
{
    let ghost l = Lay { w: size.0 as int, h: size.1 as int, b: b as int, n: channels as int, s: s as int };
    let mut it = Image::from_slice(data, size, channels).into_chunks_mut(b, s);
    let mut n = 0usize;
    loop
        invariant st_at(it.state, n as int), lay(it.state) == l, l.n * (l.w * l.h) <= it.data.len(), lay_ok(l), total(l) <= usize::MAX,
        ensures n == total(l),
        decreases total(l) - n,
    {
        reveal(nxt); proof { lemma_pos(l, n as int); }
        match it.next() { None => { break; } Some(c) => { assert(chunk_ok(c) && geo(c) == bgeo(l, n as int)); n = n + 1; } }
    }
    n
}
'''
MAP = [(r'(?s)self\s*\.state\s*\.next_chunk\(\)\s*\.map\(\|(\([^|]*\))\|\s*(ImageChunkMut \{[^{}]*\})\)', r'match self.state.next_chunk() { Some(\1) => Some(\2), None => None }', 1), (r'self\.data\.as_mut_ptr\(\)', 'vx_ptr(&self.data)', 1)]
CON = [
    Fn('Image::from_slice', 'r', '        ensures r.data@ == old(data)@, final(r.data)@ == final(data)@, r.size == size, r.channels == channels'),
    Fn('Image::into_chunks_mut', 'r', '''        requires ({ let l = Lay { w: self.size.0 as int, h: self.size.1 as int, b: chunk_size as int, n: self.channels as int, s: step as int }; lay_ok(l) }),
        ensures r.data@ == old(self.data)@, final(r.data)@ == final(self.data)@, st_at(r.state, 0), lay(r.state) == (Lay { w: self.size.0 as int, h: self.size.1 as int, b: chunk_size as int, n: self.channels as int, s: step as int })''',
       entry='''        proof { let l = Lay { w: self.size.0 as int, h: self.size.1 as int, b: chunk_size as int, n: self.channels as int, s: step as int }; lemma_cdiv(l.w, l.b, 0); lemma_cdiv(l.h, l.b, 0); lemma_num(l, 0, 0, 0); assert(0 * (ny(l) * nx(l)) == 0 && 0 * nx(l) == 0 && 0 * l.b == 0); assert(total(l) >= 0) by (nonlinear_arith) requires total(l) == l.n * (ny(l) * nx(l)), l.n >= 0, ny(l) >= 1, nx(l) >= 1; }'''),
    Fn('ImageChunkIteratorState::next_chunk', 'r', '''        requires exists|k: int| #[trigger] st_at(*old(self), k),
        ensures lay(*final(self)) == lay(*old(self)), forall|k: int| #[trigger] st_at(*old(self), k) ==> (match r {
            None => k == total(lay(*old(self))) && *final(self) == *old(self),
            Some((xr, yr, ch, st)) => k < total(lay(*old(self))) && st_at(*final(self), k + 1) && ch == chan(lay(*old(self)), k) && xr.0 == bgeo(lay(*old(self)), k).x0 && xr.1 == bgeo(lay(*old(self)), k).x1 && yr.0 == bgeo(lay(*old(self)), k).y0 && yr.1 == bgeo(lay(*old(self)), k).y1 && st == bgeo(lay(*old(self)), k).cs,
        })''', entry='''        let ghost l = lay(*self); let ghost k0 = choose|k: int| #[trigger] st_at(*self, k);
        proof { lemma_pos(l, k0); if k0 < total(l) { lemma_block(l, k0, usize::MAX as int); lemma_succ(l, k0); lemma_pos(l, k0 + 1);
            let x = bcol(l, k0); let y = brow(l, k0);
            assert((x + 1) * l.b == x * l.b + l.b && (y + 1) * l.b == y * l.b + l.b && 0 * l.b == 0) by (nonlinear_arith); }
            assert forall|k: int| #[trigger] st_at(*self, k) implies k == k0 by { lemma_pos(l, k); lemma_unmul(bcol(l, k), bcol(l, k0), l.b); lemma_unmul(brow(l, k), brow(l, k0), l.b); } }'''),
    Fn('ImageChunkIteratorMut::next', 'r', closures='any', spec='''        requires exists|k: int| #[trigger] st_at(old(self).state, k), lay(old(self).state).n * (lay(old(self).state).w * lay(old(self).state).h) <= old(self).data.len(),
        ensures lay(final(self).state) == lay(old(self).state), final(self).data@ == old(self).data@, final(final(self).data)@ == final(old(self).data)@, forall|k: int| #[trigger] st_at(old(self).state, k) ==> nxt(old(self).state, old(self).data@, final(self).state, r, k)''', subst=MAP, entry='''        reveal(nxt); let ghost l = lay(self.state); let ghost k0 = choose|k: int| #[trigger] st_at(self.state, k);
        proof { lemma_pos(l, k0); if k0 < total(l) { lemma_block(l, k0, self.data.len() as int); } 
            assert forall|k: int| #[trigger] st_at(self.state, k) implies k == k0 by { lemma_pos(l, k); lemma_unmul(bcol(l, k), bcol(l, k0), l.b); lemma_unmul(brow(l, k), brow(l, k0), l.b); } }'''),
]
LAY += r'''
/// the answer of the iterator over the samples dat at block k: s before, t afterwards
#[verifier::opaque] pub open spec fn nxt<T>(s: ImageChunkIteratorState, dat: Seq<T>, t: ImageChunkIteratorState, r: Option<ImageChunkMut<'_, T>>, k: int) -> bool {
    match r {
        None => k == total(lay(s)) && t == s,
        Some(c) => k < total(lay(s)) && st_at(t, k + 1) && c.channel == chan(lay(s), k) && geo(c) == bgeo(lay(s), k) && c.data_len == dat.len() && mem(c.data_ptr) == dat && chunk_ok(c),
    }
}
pub proof fn lemma_unmul(a: int, c: int, b: int) requires b > 0, a * b == c * b ensures a == c { assert(a == c) by (nonlinear_arith) requires b > 0, a * b == c * b; }
'''
ITEMS = [('struct', I, 'Image'), ('struct', I, 'ImageChunkIteratorState'), ('struct', I, 'ImageChunkIteratorMut'), ('struct', I, 'ImageChunkMut'), 
    ('impl', I, 'Image', ['from_slice', 'into_chunks_mut']), ('impl', I, 'ImageChunkIteratorState', ['next_chunk']), ('impl', I, 'ImageChunkIteratorMut@Iterator', ['next'])]
UNIT = Unit('image', ITEMS, CON, prelude=BASE + TOUCHED + ''.join(lemma(n) for n in ('lemma_mult_half', 'lemma_sel_mult', 'lemma_and')) + CHUNK + LAY + PTR + 'pub type Range = (usize, usize);\n', post=POST)
