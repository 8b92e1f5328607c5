"""Which units decide which property, and what the evidence and the manifest say about it."""
ALL = ['C%02d' % i for i in range(1, 17)]
# property -> units; a unit may be a pair (unit, functions): only the obligations of these functions count for the property
UNITS_OF = {'C01': ['api', 'auxio', 'auxd', 'color'] + [(u, 'support') for u in ('header', 'header_wire', 'program', 'lift_linear', 'lift_cubic', 'quant', 'comp', 'decomp', 'payload', 'image', 'codec', 'golomb', 'bits')], 'C02': ['header_wire'], 'C03': ['header'], 'C04': ['bits'], 'C05': ['golomb'], 'C06': ['bits', 'golomb', 'codec'], 'C07': ['lift_linear', 'lift_cubic'], 'C08': ['quant'], 'C09': ['color'], 'C10': ['bits', 'golomb', 'program'], 'C11': ['layout'], 'C12': ['image', 'codec', 'comp', 'decomp', 'payload', ('auxio', 'support'), ('api', 'support')],
 'C13': ['decomp', 'payload', 'image', ('codec', 'safety'), ('golomb', 'safety'), ('bits', 'safety'), ('auxd', 'safety'), ('lift_linear', 'safety'), ('lift_cubic', 'safety'), ('quant', 'safety'), ('program', 'safety'), ('color', 'safety'),
  ('auxio', 'only:decompress_aux_data'), ('api', 'only:decompress_simple')],
 'C14': ['decomp', 'payload', ('auxio', 'only:decompress_aux_data'), ('api', 'only:decompress_simple|lemma_accept|lemma_reject')], 'C15': ['down', 'decomp', 'payload', 'header', ('auxio', 'support')],
 'C16': ['comp', 'payload', ('auxio', 'only:compress_aux_data'), ('api', 'only:compress_simple|vx_twice|lemma_file|lemma_file_one|lemma_front|lemma_planar_one')]}
PROOF = ALL
LEVEL = {p: 'proof' if p in PROOF else 'other' for p in ALL}
V = 'contract-based deductive verification (Verus) of the functions extracted mechanically from /repo/src'
TECHNIQUE = {p: V if p in PROOF else V + ' for the functions named in the note; executable contracts of the rest evaluated on the real functions (bounded)' if p in UNITS_OF else 'executable contracts evaluated on the real functions (bounded)' for p in ALL}
NOTE = {p: 'bounded stand-in: contracts are evaluated on generated arguments' for p in ALL}
NOTE.update({
 'C01': 'every obligation of compress_simple, decompress_simple, compress_aux_data, decompress_aux_data, the color and lifting transforms, quantisation, block coding and everything below is discharged, and that of a client that compresses, reads the header, decompresses and finds the same bytes: for all images, headers, reversible programs and buffer sizes below 2 GiB, with 8-bit samples, at most i32::MAX samples per channel and i32::MAX channels; rayon dispatch, byteorder and num_traits are assumed contracts',
 'C02': 'all obligations of HeaderBuilder::build, check_range, Header::decode and Header::encode and of a client that writes and reads back are discharged for all inputs; assumes the contracts of byteorder and the derive macros of num_derive',
 'C03': 'all obligations of HeaderBuilder::build, check_range, Header::decode and the size functions are discharged for all inputs; assumes the contracts of byteorder and num_derive',
 'C04': 'every obligation of BitsIOWriter, BitsIOReader and their client is discharged for all inputs; assumes the contracts of byteorder and a 64-bit usize',
 'C05': 'every obligation of the six code functions is discharged for all inputs over the contracts of the bit traits',
 'C06': 'every obligation of encode, decode, get_context and their helpers, of the block access functions, of the integer codes and bit streams below them, and of a client that encodes and decodes a block is discharged for all block geometries and samples; a raw pointer is given access to the samples behind it (index checked)',
 'C07': 'every obligation of lift/unlift, the four passes of both filters and the neighbour iterators is discharged for all sizes and samples; parallel for_each is taken as a loop in order',
 'C09': 'every obligation of the forward and inverse color transforms (interleaved and planar) and of clients that transform back and forth is discharged for all programs, sizes and samples',
 'C10': 'every obligation of ColorTransformProgram::encode, decode and the builder, of the integer codes and bit streams below them, and of clients that write, read back and read arbitrary words is discharged for all programs; assumes the contracts of byteorder and a 64-bit usize',
 'C11': 'every obligation of interleaved_to_planar, planar_to_interleaved and the functions they call and of a client that splits and re-interleaves is discharged for all sizes',
 'C12': 'every obligation of the block iterator (partition of every channel into clipped blocks, disjointness), of the block access functions, of encode and decode (own samples only), of compress_image_data and decompress_image_data with the results of the workers in arbitrary order, and of clients that compress twice (samples and whole images) and compress and decompress is discharged; the dispatch over threads itself (rayon, processing/mod.rs) is assumed and evaluated (bounded, both builds); channels have at most i32::MAX samples',
 'C13': 'every obligation of decompress_simple, decompress_aux_data, decompress_image_data, its block worker, the program decoder, the inverse transforms and everything below (size checks, block iterator, block access, decode, integer codes, bit reader: no index out of bounds, no overflow, no division by zero, termination) is discharged for all byte sequences below 2 GiB, headers and buffer lengths; wrong sizes are rejected before any access',
 'C14': 'every obligation of decompress_image_data, its block worker, decompress_aux_data, decompress_simple and a client that decodes a payload and any prefix of it, in both modes, is discharged for all byte sequences and headers; the order of the parallel results is arbitrary; channels have at most i32::MAX samples; positions are relative to the payload',
 'C15': 'every obligation of decompress_image_data, the size functions and a client that decodes the same data with and without downsampling is discharged for all byte sequences and headers',
 'C16': 'every obligation of compress_image_data, its block worker, compress_aux_data and compress_simple and of clients that compress the same image into two buffers is discharged for all samples, headers and buffers up to 4 GiB: header, program and payload one after the other, level by level tables and blocks without gaps, the returned size is exactly what was written, the bytes do not depend on the buffer; the results of the workers arrive in arbitrary order',
 'C08': 'every obligation of quantize and dequantize is discharged for all sizes, samples and levels; parallel for_each is taken as a loop in order',
})
EXPLAIN = {p: NOTE[p] + '. The contracts are also evaluated on generated arguments of the real functions (bounded_standin: the source of replayable inputs, not counted as proved).' for p in ALL}
RULE = {p: 'randomly generated arguments (VERIF_SEED); a case is non-trivial when it reaches the postcondition of the property, counted once per distinct argument text' for p in ALL}
BYTEORDER = 'byteorder and std::io read and write whole little-endian integers and fail if and only if the source is too short or the sink is full'
RAYON = 'rayon calls a closure exactly once per item and hands back every result, in any order; items that borrow disjoint parts do not interact (Rust ownership)'
NUMT = 'num_traits and std conversions between u8 and i16 keep the value'
DERIVE = 'num_derive maps discriminants to variants and back'
LEN = 'buffers are shorter than isize::MAX bytes (true of every Rust slice)'
RANGE = 'at most i32::MAX samples per channel; compressed data below 2 GiB when read, 4 GiB when written'
RAW = 'a raw pointer into a slice gives access to the samples behind it (each access is checked against the bounds of the slice; aliasing is not modelled)'
ASSUME = {p: [] for p in ALL}
ASSUME.update({'C01': [BYTEORDER, RAYON, NUMT, DERIVE, LEN, RANGE, RAW, 'at most i32::MAX channels times layers'], 'C02': [BYTEORDER, DERIVE], 'C03': [BYTEORDER, DERIVE], 'C04': [BYTEORDER], 'C05': [], 'C06': [RAW], 'C07': [RAYON],
 'C08': [RAYON], 'C09': [NUMT, LEN], 'C10': [BYTEORDER], 'C11': [LEN], 'C12': [RAYON, RAW, RANGE], 'C13': [BYTEORDER, RAYON, NUMT, LEN, RANGE, RAW], 'C14': [BYTEORDER, RAYON, RANGE, RAW], 'C15': [RAYON, RANGE, RAW], 'C16': [BYTEORDER, RAYON, RANGE, RAW]})
COMMON_ASSUME = ['64-bit target (usize is 64 bits)', 'the extraction keeps the meaning of the code (what it changes and drops is listed at the top of vx/extract.py)', 'Verus, its library and Z3 are sound']
UNIT_TRUST = {}
NOTES = 'Verus proves contracts on functions extracted from /repo/src on every run; a failed obligation is reported, a lost anchor or a solver limit falls back to the bounded evaluation, labelled in the evidence'
