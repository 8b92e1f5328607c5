"""src/processing/*_chunks_iterator.rs: exclusive access to alternating groups of rows (C07, C12)."""
from extract import Unit, Fn
FO = 'src/processing/overlapping_chunks_iterator.rs'
FD = 'src/processing/double_overlapping_chunks_iterator.rs'

O_EXTRA = '''
    /// the rows that are left
    pub open spec fn cur(&self) -> Seq<T> { if self.remainder@.len() == 0 { seq![] } else { self.head@ + self.remainder@ } }
    /// what they will be at the end
    #[verifier::prophetic] pub open spec fn fin(&self) -> Seq<T> { if self.remainder@.len() == 0 { seq![] } else { self.head@ + final(self.remainder)@ } }
    pub open spec fn step(&self) -> nat { self.head@.len() }
'''
def imin(a, b): return '(if %s < %s { %s } else { %s })' % (a, b, a, b)
N2 = '(if c.len() < 2 * s { c.len() as int } else { 2 * s })'
N3 = '(if c.len() < 3 * s { c.len() as int } else { 3 * s })'
N4 = '(if c.len() < 4 * s { c.len() as int } else { 4 * s })'
def q(body): return 'r matches Some((l, m, t)) ==> ({ let s = old(self).step() as int; let c = old(self).cur(); %s })' % body
O_CONTRACTS = [
    Fn('OverlappingChunksIterator::from_slice', 'r', '''        ensures
            old(slice)@.len() <= step ==> r.cur().len() == 0 && final(slice)@ == old(slice)@,
            old(slice)@.len() > step ==> r.cur() =~= old(slice)@ && r.fin() =~= final(slice)@ && r.step() == step'''),
    Fn('OverlappingChunksIterator::next', 'r', '''        requires old(self).step() > 0 || old(self).cur().len() == 0,
        ensures
            r is None <==> old(self).cur().len() == 0,
            r is None ==> old(self).fin() =~= seq![],
            ''' + ',\n            '.join([
        q('c.len() > s && l@ =~= c.subrange(0, s)'),
        q('m@ =~= c.subrange(s, %s)' % N2),
        q('t@ =~= c.subrange(%s, %s)' % (N2, N3)),
        q('c.len() <= 3 * s ==> final(self).cur().len() == 0 && final(self).fin() =~= seq![] && old(self).fin() =~= l@ + final(m)@ + t@'),
        q('c.len() > 3 * s ==> final(self).cur() =~= c.skip(2 * s) && final(self).step() == s && old(self).fin() =~= l@ + final(m)@ + final(self).fin()'),
    ])),
]
O_ITEMS = [('struct', FO, 'OverlappingChunksIterator'),
           ('impl', FO, 'OverlappingChunksIterator', ['from_slice'], O_EXTRA),
           ('impl', FO, 'OverlappingChunksIterator@Iterator', ['next'])]

# five groups: prev_left, left, middle, right, remainder
D_EXTRA = '''
    pub open spec fn step(&self) -> nat { self.left@.len() }
    /// well-formed: nothing is left, or groups of `step` rows, the last one may be shorter
    pub open spec fn wf(&self) -> bool {
        let s = self.left@.len();
        self.middle@.len() == 0 || (s > 0 && self.middle@.len() <= s && self.right@.len() <= s
            && (self.prev_left@.len() == 0 || self.prev_left@.len() == s)
            && (self.right@.len() > 0 ==> self.middle@.len() == s) && (self.remainder@.len() > 0 ==> self.right@.len() == s))
    }
    pub open spec fn prev(&self) -> Seq<T> { self.prev_left@ }
    pub open spec fn cur(&self) -> Seq<T> { if self.middle@.len() == 0 { seq![] } else { self.left@ + self.middle@ + self.right@ + self.remainder@ } }
    #[verifier::prophetic] pub open spec fn fin(&self) -> Seq<T> { if self.middle@.len() == 0 { seq![] } else { self.left@ + final(self.middle)@ + self.right@ + (if self.remainder@.len() == 0 { seq![] } else { final(self.remainder)@ }) } }
'''
def qd(body): return 'r matches Some(o) ==> ({ let s = old(self).step() as int; let c = old(self).cur(); %s })' % body
D_CONTRACTS = [
    Fn('DoubleOverlappingChunksIterator::from_slice', 'r', '''        requires step > 0,
        ensures r.wf(), r.prev().len() == 0,
            old(slice)@.len() <= step ==> r.cur().len() == 0 && final(slice)@ == old(slice)@,
            old(slice)@.len() > step ==> r.cur() =~= old(slice)@ && r.fin() =~= final(slice)@ && r.step() == step'''),
    Fn('DoubleOverlappingChunksIterator::next', 'r', '''        requires old(self).wf(),
        ensures final(self).wf(),
            r is None <==> old(self).cur().len() == 0,
            r is None ==> old(self).fin() =~= seq![],
            ''' + ',\n            '.join([
        qd('c.len() > s && o.left@ =~= c.subrange(0, s) && o.prev_left@ =~= old(self).prev()'),
        qd('o.middle@ =~= c.subrange(s, %s)' % N2),
        qd('o.right@ =~= c.subrange(%s, %s)' % (N2, N3)),
        qd('o.next_right@.len() > 0 <==> c.len() > 4 * s'),
        qd('o.next_right@.len() > 0 ==> o.next_right@[0] == c[4 * s]'),
        qd('c.len() <= 3 * s ==> final(self).cur().len() == 0 && final(self).fin() =~= seq![] && old(self).fin() =~= o.left@ + final(o.middle)@ + o.right@'),
        qd('c.len() > 3 * s ==> final(self).cur() =~= c.skip(2 * s) && final(self).step() == s && final(self).prev() =~= o.left@ && old(self).fin() =~= o.left@ + final(o.middle)@ + final(self).fin()'),
    ])),
]
D_ITEMS = [('struct', FD, 'DoubleOverlappingChunks'), ('struct', FD, 'DoubleOverlappingChunksIterator'),
           ('impl', FD, 'DoubleOverlappingChunksIterator', ['from_slice'], D_EXTRA),
           ('impl', FD, 'DoubleOverlappingChunksIterator@Iterator', ['next'])]
UNIT = Unit('chunks', O_ITEMS + D_ITEMS, O_CONTRACTS + D_CONTRACTS)
