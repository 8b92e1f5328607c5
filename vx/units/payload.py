"""Theory of the payload over the blocks of unit image and the block code of unit codec; src/processing/variable_chunks_iterator.rs."""
import re
from extract import Unit, Fn, stubs, proved
from units import bits as B, golomb as G, codec as K, image as M, header_common as HC
from units.codec_theory import BASE, TOUCHED, lemma, CHUNK, CTX, CODE
from units.comp_theory import GRID, BYTES, PAY
from units.level_theory import LEVEL
from units.pass_theory import PASS
V = 'src/processing/variable_chunks_iterator.rs'
def hspec(n): return re.search(r'(?ms)^pub open spec fn %s\b.*?^\}\n' % n, HC.PRE).group(0)
HEAD = [('enum', HC.H, 'Encoder', 'eq'), ('enum', HC.H, 'Filter', 'eq'), ('enum', HC.H, 'Quantization', 'eq'), ('enum', HC.H, 'Intent', 'eq'), ('struct', HC.H, 'Header')]
HSPEC = ''.join(hspec(n) for n in ('dims_ok', 'parms_ok')).replace('valid(', 'hok(')
BLOCKS = proved(M.LAY + M.POST.split('/// all blocks of a level')[0], 'image')
CODED = proved(K.EXTRA + K.POST.split('/// C06 as a client')[0], 'codec')
ALLT = proved(B.THEORY, 'bits') + proved(G.THEORY, 'golomb') + proved(BASE + TOUCHED + ''.join(lemma(n) for n in ('lemma_mult_half', 'lemma_sel_mult', 'lemma_and')) + CHUNK + CTX + CODE, 'codec') + CODED + BLOCKS + HSPEC
VCON = [
    Fn('VariableChunksIterator::new', 'r', '        ensures r.slice@ == slice@, r.chunk_sizes@ == chunk_sizes@'),
    Fn('VariableChunksIterator::get_next_chunk_size', 'r', '''        ensures final(self).slice@ == old(self).slice@, old(self).chunk_sizes.len() == 0 ==> r is None && final(self).chunk_sizes@ == old(self).chunk_sizes@,
            old(self).chunk_sizes.len() > 0 ==> r == Some(old(self).chunk_sizes@[0]) && final(self).chunk_sizes@ == old(self).chunk_sizes@.skip(1)''', hints=[('after', 'self.chunk_sizes = chunk_sizes', 1, '        proof { assert(self.chunk_sizes@ =~= old(self).chunk_sizes@.skip(1)); }')]),
    Fn('VariableChunksIterator::get_next_chunk', 'r', '''        ensures final(self).chunk_sizes@ == old(self).chunk_sizes@, old(self).slice.len() == 0 ==> r is None && final(self).slice@ == old(self).slice@,
            old(self).slice.len() > 0 ==> (r matches Some(c) && (if old(self).slice.len() <= size { c@ == old(self).slice@ && final(self).slice.len() == 0 } else { c@ == old(self).slice@.take(size as int) && final(self).slice@ == old(self).slice@.skip(size as int) }))'''),
    Fn('VariableChunksIterator::next', 'r', '''        ensures old(self).chunk_sizes.len() == 0 || old(self).slice.len() == 0 ==> r is None,
            old(self).chunk_sizes.len() > 0 && old(self).slice.len() > 0 ==> final(self).chunk_sizes@ == old(self).chunk_sizes@.skip(1) && (r matches Some(c) && (if old(self).slice.len() <= old(self).chunk_sizes@[0] { c@ == old(self).slice@ && final(self).slice.len() == 0 } else { c@ == old(self).slice@.take(old(self).chunk_sizes@[0] as int) && final(self).slice@ == old(self).slice@.skip(old(self).chunk_sizes@[0] as int) }))'''),
]
VITEMS = [('struct', V, 'VariableChunksIterator'), ('impl', V, 'VariableChunksIterator', ['new', 'get_next_chunk_size', 'get_next_chunk']), ('impl', V, 'VariableChunksIterator@Iterator', ['next'])]
ITEMS = HEAD + [('struct', M.I, 'ImageChunkIteratorState'), ('struct', M.I, 'ImageChunkMut')]
UNIT = Unit('payload', ITEMS + VITEMS, VCON, prelude=ALLT + LEVEL + GRID + BYTES + PAY + PASS)
