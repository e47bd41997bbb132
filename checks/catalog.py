#!/usr/bin/env python3
"""The catalogue: properties, claims and reasons. Regenerates
/verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}
CL = {}


def prop(pid, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    assert statement.count('. ') <= 2, pid
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


def claim(pid, technique, note, level='other'):
    CL[pid] = (technique, note, level)


def na(pid, reason):
    NA[pid] = reason


AI = 'abstract interpretation of LLVM IR (affine forms mod p, intervals, gated values)'
NOTE = ('Sound for every element value at the enumerated sizes/shapes (listed in DESIGN.md); '
        'larger sizes are not covered. Trusts clang-18 as the reader of the sources and the '
        'transfer functions of tool/. Undecided obligations are printed, never reported as violations.')

# ------------------------------------------------------------------ fields
prop('C01', 'Prime-field arithmetic is exact for every pair of elements',
     'For every pair of elements of a prime field, addition, subtraction, negation and multiplication '
     'return the canonical representative of the mathematical result, and division and inversion undo '
     'multiplication. No intermediate value wraps around, whatever the element type and the operands, '
     'including the largest element.',
     ['inputs'], 'all pairs of field elements, for the element types the codes use',
     'Tests sample random pairs; the top element (p-1), where 32-bit products wrap, is hit with probability 2^-16.',
     ['src/gf_ring.h', 'src/gf_prime.h', 'src/gf_base.h'],
     [('RingModN::add/sub/neg/mul/div/inv', 'src/gf_ring.h'), ('double-width product', 'src/core.h DoubleSizeVal')])
claim('C01', AI, NOTE)

prop('C02', 'Bulk buffer arithmetic equals element-wise arithmetic at every length',
     'Adding, subtracting, negating and multiplying whole buffers gives, for every element, exactly the '
     'scalar field result, in the plain and in both vectorised builds, for every buffer length including '
     'those which are not a multiple of the vector width. Source operands are left unmodified and nothing '
     'outside the buffers is read or written.',
     ['inputs', 'configurations'], 'all element values, all lengths 0..6 vectors (+1), all coefficients, 3 builds',
     'Tests use random values and a few lengths of one build; the element p-1 and the tails are rare.',
     ['src/gf_ring.h', 'src/simd_ring.h', 'src/simd_fnt.h', 'src/simd_128.h', 'src/simd_256.h'],
     [('vector kernels with scalar tails', 'src/simd_ring.h'), ('modular vector primitives', 'src/simd_fnt.h')])
claim('C02', AI, NOTE)

prop('C03', 'The radix-2 Fermat transform equals the discrete Fourier transform',
     'The forward transform of any input vector is its exact discrete Fourier transform over the field with '
     'inputs beyond the given ones taken as zero; the inverse transforms are the exact (scaled and '
     'unscaled) inverse. This holds for single symbols and for packets of every length, in every build, and leaves '
     'the inputs unmodified.',
     ['inputs', 'configurations'], 'all coefficient values; sizes 2..16, every number of inputs, packet lengths with and without tails, 3 builds',
     'Tests compare forward and inverse on random data, so a pair of compensating errors or a value-dependent carry is not seen.',
     ['src/fft_2n.h', 'src/simd_radix2_fft.h', 'src/simd_fnt.h'],
     [('butterflies, bit reversal, zero-extension shortcuts', 'src/fft_2n.h'), ('vector butterflies', 'src/simd_radix2_fft.h')])
claim('C03', AI, NOTE)

# ------------------------------------------------------------------ codes
prop('C04', 'FNT block code: any n_data fragments restore the original data',
     'Encoding data blocks with a Fermat-transform code and then losing any set of at most n_parities '
     'fragments, the block decoder succeeds and restores every data block bit for bit, for every data '
     'content. This holds for systematic and non-systematic codes, both word sizes, blocks of one or more '
     'packets with or without a short last packet, in every build.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all symbol values, all erasure patterns, shapes up to n=8, 3 builds',
     'Tests try random data and few patterns; symbols that encode to the top field value appear once in 65537.',
     ['src/fec_base.h', 'src/fec_rs_fnt.h', 'src/fec_context.h', 'src/fft_2n.h'],
     [('encode_blocks_vertical / decode_blocks_vertical', 'src/fec_base.h'),
      ('decode_prepare, decode_build, decode_apply', 'src/fec_base.h'),
      ('encode_post_process', 'src/fec_rs_fnt.h')],
     state=[('Properties', 'markers of the symbols equal to the top value', 'src/property.h')])
claim('C04', AI, NOTE)

prop('C05', 'Stream coding by packets: decode(lose(encode(x))) = x',
     'Encoding input streams of any whole number of words with the packet-wise stream encoder and decoding from any '
     'n_data available fragments yields exactly the input bytes, including a last packet that is shorter '
     'than the others. Each output carries exactly as many bytes as the inputs.',
     ['inputs', 'fault_sequences'], 'all symbol values, stream lengths around packet boundaries, all erasure patterns',
     'Tests use a handful of lengths and random data.',
     ['src/fec_base.h', 'src/fec_rs_fnt.h'],
     [('encode_streams_vertical / decode_streams_vertical', 'src/fec_base.h'), ('read_pkt / write_pkt', 'src/fec_base.h')])

claim('C05', AI, NOTE)

prop('C06', 'Stream coding by words: decode(lose(encode(x))) = x',
     'Encoding input streams word by word and decoding from any n_data available fragments yields exactly '
     'the input bytes, for every data content, with the non-systematic Fermat-transform codes of both word sizes.',
     ['inputs', 'fault_sequences'], 'all symbol values, all erasure patterns at the analysed shapes',
     'Tests use random data; the escaped symbol values are rare.',
     ['src/fec_base.h', 'src/fec_rs_fnt.h'],
     [('encode_streams_horizontal / decode_streams_horizontal', 'src/fec_base.h')])

claim('C06', AI, NOTE)

prop('C07', 'C interface: lost data blocks are restored bit for bit',
     'After a successful encode through the C interface and the loss of any set of at most n_parities '
     'fragments, decode returns success and every data block holds its original bytes and an empty header. '
     'It reads and writes nothing outside the blocks the caller passed, for any ratio of data to parity fragments.',
     ['inputs', 'fault_sequences', 'configurations'], 'all symbol values, all erasure patterns of the analysed shapes, n_parities below, equal to and above n_data',
     'The C test uses one block size and random data; it cannot see an out-of-bounds access that happens to be harmless.',
     ['src/quadiron_c.cpp', 'src/property.h', 'src/fec_base.h'],
     [('quadiron_fnt32_encode / quadiron_fnt32_decode', 'src/quadiron_c.cpp')])
claim('C07', AI, NOTE)

prop('C08', 'C interface: a reconstructed fragment equals the lost one, header included',
     'Rebuilding any single missing fragment through the C interface, data or parity, from any sufficient '
     'set of the others yields exactly the bytes the encoder had produced for it, header and payload, and '
     'leaves the available fragments unmodified.',
     ['inputs', 'fault_sequences', 'configurations'], 'all symbol values, all erasure patterns and targets of the analysed shapes',
     'Tests compare a few random fragments; headers with markers are rare.',
     ['src/quadiron_c.cpp'], [('quadiron_fnt32_reconstruct', 'src/quadiron_c.cpp')])
claim('C08', AI, NOTE)

prop('C09', 'Fragment headers are written completely, in bounds, or refused',
     'Writing a marker list into a header of a given size produces the magic number, the count, every '
     'location in network byte order and zeros up to the end of the header, and reading it back yields the same '
     'list. A list that does not fit, or a location that does not fit in 32 bits, is refused with nothing written.',
     ['inputs'], 'all locations, list lengths 0..12, header sizes 0..20 words',
     'Tests write one short list into one header size.',
     ['src/property.h'], [('fnt_serialize', 'src/property.h')])
claim('C09', AI, NOTE)

prop('C10', 'Parsing a fragment header never trusts its bytes',
     'Whatever the bytes of a header, parsing stays inside the given buffer, accepts it only if the magic '
     'number matches and the announced count fits, and then yields exactly the announced locations. A refused '
     'header adds no marker and is reported as a failure by every operation of the C interface that reads it.',
     ['inputs'], 'all header bytes, header sizes 0..14 words; C interface on the analysed shapes',
     'Tests never feed a corrupted header.',
     ['src/property.h', 'src/quadiron_c.cpp'],
     [('fnt_deserialize', 'src/property.h'), ('return-value checks', 'src/quadiron_c.cpp')])
claim('C10', AI, NOTE)

prop('C11', 'The C interface reports every failure to its caller',
     'Every operation of the C interface returns an error when a step it depends on fails: an unsupported '
     'instance request returns no instance, and a refused header, a header that does not fit, or a failed '
     'decoding returns -1; it never returns success in those cases.',
     ['inputs', 'fault_sequences'], 'all failing steps of each entry point',
     'Failure paths are not exercised by the tests.',
     ['src/quadiron_c.cpp'], [('return-value checks', 'src/quadiron_c.cpp')])

claim('C11', AI, NOTE)

prop('C12', 'No C++ exception crosses the C interface',
     'A C++ exception thrown while an operation of the C interface runs, whatever its origin, never leaves '
     'that operation: it is turned into the documented failure result.',
     ['fault_sequences', 'inputs'], 'all throwing call paths below each entry point',
     'Needs an allocation failure or an invalid parameter at the right point.',
     ['src/quadiron_c.cpp'], [('function-level handlers', 'src/quadiron_c.cpp')])

claim('C12', 'exception-flow analysis over the call graph (class-hierarchy resolution, typed handlers); abstract interpretation with failing allocations', 'Sound for every path of the call graph as clang resolves it; externals of libstdc++ follow a table, '
      'unknown ones are reported as undecided. Fault runs cover every allocation of the enumerated shapes.')

prop('C13', 'Buffers that are missing or not wanted are never touched',
     'Encoding touches no buffer, header or stream of an output that is not wanted; decoding and '
     'reconstructing never read a missing fragment and never write anything but the requested outputs. '
     'Blocks that are only inputs are left bit-for-bit unchanged.',
     ['inputs', 'fault_sequences', 'configurations'], 'all wanted/missing masks of the analysed shapes',
     'Tests always pass valid buffers for everything, so a stray access is invisible.',
     ['src/fec_base.h', 'src/quadiron_c.cpp'],
     [('wanted / missing flags', 'src/fec_base.h, src/quadiron_c.cpp')])
claim('C13', AI, NOTE)

prop('C14', 'Fewer fragments than n_data: failure, and no output is written',
     'When fewer than n_data fragments are available, every block and stream decoder and the C interface '
     'report the failure, and they do so before writing anything to an output.',
     ['fault_sequences', 'inputs'], 'all masks with n_parities + 1 or more losses of the analysed shapes',
     'Tests mostly lose at most n_parities fragments.',
     ['src/fec_base.h', 'src/quadiron_c.cpp'], [('availability count', 'src/fec_base.h')])
claim('C14', AI, NOTE)

prop('C15', 'Encoding records exactly the symbols that do not fit in a word',
     'For every output of an encode, the recorded markers are exactly the positions, counted from the start '
     'of the block or stream, of the symbols whose value does not fit in a word, each once. This '
     'holds at every position and packet length, in every build.',
     ['inputs', 'configurations'], 'all symbol values, every lane/tail position of a packet, offsets beyond 2^32',
     'A symbol takes the escaped value once in 65537; tests cannot cover each lane and tail position.',
     ['src/fec_rs_fnt.h', 'src/simd_fnt.h', 'src/fec_base.h'],
     [('encode_post_process', 'src/fec_rs_fnt.h'), ('add_props / vectorised scan', 'src/simd_fnt.h')])

claim('C15', AI, NOTE)

prop('C16', 'Decoding restores escaped symbols at exactly the recorded positions',
     'While a packet is decoded, a symbol is replaced by the escaped value if and only if a marker of its own '
     'fragment names its position in the whole block; markers of other packets are kept for their turn. '
     'This holds whatever the packet offset and the number of markers.',
     ['inputs', 'histories'], 'all symbol values, marker positions in and around the packet, offsets beyond 2^32',
     'Multi-packet blocks with markers in several packets are not sampled.',
     ['src/fec_base.h', 'src/fec_rs_fnt.h', 'src/fec_context.h'],
     [('decode_prepare', 'src/fec_rs_fnt.h'), ('props_indices', 'src/fec_context.h')])

claim('C16', AI, NOTE)

prop('C17', 'The library has no ambient effects',
     'Operations of the library never terminate the process, never write to standard output or error, files or '
     'the environment (diagnostic dump helpers excepted), and results depend only on their arguments: no coding operation reads '
     'or writes mutable global state, clocks (statistics excepted) or random sources.',
     ['programs', 'histories'], 'all functions reachable from the public API',
     'Absence of an effect on all paths is not observable by running some.',
     ['src'], [('exceptions and return codes instead of exit', 'src')])

claim('C17', 'call-graph reachability (class-hierarchy resolution) and taint flow of clock readings', 'Covers every function of the '
      'library instantiated by driver/d_roots.cpp; diagnostics (dump*, print*, operator<<, rand) and helpers only they call are exempt.')

prop('C18', 'Assertions have no side effects',
     'Every assertion in the library is free of side effects, so release builds, which drop assertions, compute the same '
     'results as builds that keep them.',
     ['programs'], 'all assert statements of the library',
     'Tests run one of the two builds.',
     ['src'], [('assert', 'src')])

claim('C18', 'write-effect analysis of assertion operands', 'Every assertion of the instantiated library, in the OFF and AVX builds.')

prop('C19', 'Copies and moves never leave two owners of one allocation',
     'No class that owns memory through a plain pointer can be copied or moved by a compiler-generated '
     'operation that would leave two objects releasing the same allocation; memory is released exactly once, '
     'by the form of deallocation that matches its allocation.',
     ['programs', 'histories'], 'all classes of the library',
     'Needs a copy or move that tests do not perform, and a leak or double free is silent without a checker.',
     ['src/vec_vector.h', 'src/vec_buffers.h', 'src/vec_poly.h', 'src/vec_matrix.h', 'src/gf_nf4.h', 'src/gf_bin_ext.h'],
     [('destructors, deleted or user-defined copies', 'src')])

claim('C19', AI + '; allocation/ownership typestate', NOTE)

prop('C20', 'All Fourier transforms agree with the discrete Fourier transform',
     'The naive, Cooley-Tukey, Good-Thomas, Meunier ("large"), two-point and one-point transforms compute, for every input '
     'vector, the exact discrete Fourier transform over their field, and their inverses undo it exactly. The naive, '
     'two-point and one-point transforms do the same on packets of every length in every build, and inputs are left unmodified.',
     ['inputs', 'configurations'], 'all coefficient values at the analysed sizes (2 to 30), packets with and without tails, 3 builds',
     'Tests compare with random data only.',
     ['src/fft_naive.h', 'src/fft_ct.h', 'src/fft_gt.h', 'src/fft_large.h', 'src/fft_2.h', 'src/fft_single.h'],
     [('transform classes', 'src/fft_*.h')])
claim('C20', AI, NOTE)

prop('C21', 'Packing and unpacking symbols is lossless for every word size',
     'Converting a block of bytes into field symbols and back gives the same bytes, for every word size and symbol type, '
     'every length and every content; each symbol is the little-endian value of its word.',
     ['inputs'], 'all byte values, all supported (symbol type, word size) pairs, lengths with and without tails',
     'Tests try a few random buffers.',
     ['src/vec_cast.h'], [('pack / unpack', 'src/vec_cast.h')])
claim('C21', AI, NOTE)

prop('C22', 'Packed-field (NF4) arithmetic and codes are exact',
     'An NF4 operation applied to packed elements gives, in each packed lane, the exact result of the base '
     'field, and packing then unpacking with its flags is lossless, including lanes that hold the top '
     'value. The code built on it restores every stream from any n_data fragments, reports the loss of one '
     'too many, and leaves streams nobody asked for alone.',
     ['inputs'], 'all lane values, for groups of 1, 2 and 4 lanes',
     'Tests sample random packed values; carries between lanes need the top value.',
     ['src/gf_nf4.h', 'src/gf_nf4.cpp', 'src/simd_nf4.h', 'src/fec_rs_nf4.h'],
     [('lane-wise operations, flags', 'src/gf_nf4.h'), ('stream codes', 'src/fec_rs_nf4.h')])
claim('C22', AI, NOTE)

prop('C23', 'Prime-field FFT codes restore the data from any n_data fragments',
     'Encoding with the prime-field FFT code and losing any set of at most n_parities fragments, the decoder '
     'restores every data stream bit for bit, for every data content, including symbols that do not fit in '
     'a word.',
     ['inputs', 'fault_sequences'], 'all symbol values and erasure patterns at the analysed shapes',
     'Escaped symbol values are rare in random data.',
     ['src/fec_rs_gfp_fft.h', 'src/fec_base.h'], [('encode / decode', 'src/fec_rs_gfp_fft.h')])
claim('C23', AI, NOTE)

prop('C24', 'Vector, polynomial and matrix operations are exact',
     'Scaling, entrywise product, addition (also at an offset), negation and copying of vectors; product, '
     'multiplication by X + c, derivation, negation and evaluation of polynomials, the zero polynomial included; '
     'and matrix-vector products over a prime field give the exact mathematical result for every element value. '
     'A matrix inverse undoes the multiplication, and a singular matrix is refused.',
     ['inputs'], 'all element values; vectors up to 5, degrees up to 3, matrices up to 4 x 4',
     'Tests use a few fixed polynomials.',
     ['src/vec_poly.h', 'src/vec_vector.h', 'src/vec_matrix.h'], [('Poly, Vector, Matrix', 'src/vec_poly.h, src/vec_vector.h, src/vec_matrix.h')])
claim('C24', AI, NOTE)

prop('C25', 'Buffer views show exactly the chosen buffers, extended by zeros',
     'A view on a set of buffers by range, selection or concatenation refers to exactly the chosen buffers, positions '
     'beyond them read as zero, and writing through the view changes only the chosen buffers. Slices, strided views and '
     'zero-extended vectors likewise; copies are deep when made as copies and shared when made as views, '
     'and report the number of elements they hold.',
     ['inputs', 'histories'], 'all ranges, maps and strides at the analysed sizes',
     'Tests use a few ranges.',
     ['src/vec_buffers.h', 'src/vec_slice.h', 'src/vec_view.h', 'src/vec_zero_ext.h'], [('Buffers constructors', 'src/vec_buffers.h')])
claim('C25', AI, NOTE)

prop('C26', 'Results do not depend on what the code object did before',
     'Encoding or decoding with a code object gives the same result, success or failure included, whatever '
     'encodings, decodings and failed attempts the same object performed before.',
     ['histories'], 'all contents of two consecutive operations at the analysed shapes',
     'Tests use fresh objects or repeat the same operation.',
     ['src/fec_base.h', 'src/fec_rs_fnt.h', 'src/fec_context.h'],
     [('internal work buffers', 'src/fec_rs_fnt.h'), ('decode context', 'src/fec_context.h')])

claim('C26', AI, NOTE)

prop('C27', 'Binary-field codes restore the data from any n_data fragments',
     'Encoding with a code over a binary extension field and losing any set of at most n_parities fragments, '
     'the decoder restores every data stream bit for bit; with fewer fragments it fails and writes nothing. Multiplication, '
     'division, inversion and addition of the field are exact.',
     ['inputs', 'fault_sequences'], 'all symbol values and erasure patterns',
     'Tests sample random data.',
     ['src/fec_rs_gf2n.h', 'src/fec_rs_gf2n_fft.h', 'src/fec_rs_gf2n_fft_add.h', 'src/gf_bin_ext.h'],
     [('matrix and FFT codes', 'src/fec_rs_gf2n*.h')])

claim('C27', AI.replace('affine forms mod p', 'linear forms over the bits of the inputs, look-up tables'), NOTE)

prop('C28', 'Any n_data fragments suffice, for every pair of code parameters',
     'For every supported n_data and n_parities, every choice of n_data fragments determines the data.',
     ['configurations', 'fault_sequences'], 'all parameter pairs up to the field size',
     'The parameter space is far too large to enumerate.',
     ['src/fec_base.h'], [('code construction', 'src/fec_*.h')])
na('C28', 'A statement of algebra over unbounded parameters (invertibility of every square sub-matrix); no sound '
          'static analysis in reach bounds it. The bounded shapes of C04, C07, C23 and C27 are what is decided.')

prop('C29', 'Number-theoretic helpers are exact',
     'Integer square root, binary logarithm, rounding to a power of two, powers, modular powers, gcd, the extended Euclidean '
     'algorithm, Chinese remainders, the Jacobi symbol, primality, factorisation, divisor lists and code lengths (the smallest '
     'divisor of the order that is at least the bound) return the mathematically correct value; in a field, so do the order of an '
     'element, the test for primitive roots, the chosen primitive root, roots of unity (of order gcd(n, q - 1)), their powers, '
     'discrete logarithms and the test for squares.',
     ['inputs'], 'all arguments for which the mathematical result fits in the type',
     'Tests sample a few values.',
     ['src/arith.h', 'src/gf_ring.h'], [('arith namespace', 'src/arith.h'), ('orders, roots and logarithms', 'src/gf_ring.h')])

claim('C29', AI, NOTE)

prop('C30', 'Textual form of a marker list reads back as the same list',
     'Printing a marker list and reading the text back yields the same list; malformed lines are refused or skipped.',
     ['inputs'], 'all marker lists and texts',
     'Tests use one list.',
     ['src/property.cpp'], [('stream operators', 'src/property.cpp')])
na('C30', 'Decided by formatted iostream conversions inside the compiled libstdc++ (no source to analyse); modelling them '
          'would restate the property rather than decide it.')

prop('C31', 'Operation counters count the steps of the last operation',
     'After a successful encode or decode which had work to do, the encode or decode operation counter is exactly the number '
     'of words (word-wise streams) or packets (packet-wise streams and blocks, a short last packet included) processed by that operation, '
     'whatever the code object did before.',
     ['histories', 'configurations'], 'all stream lengths, packet sizes and sequences of operations', 'Tests do not read the counters.',
     ['src/fec_base.h'], [('n_encode_ops, n_decode_ops', 'src/fec_base.h')])

claim('C31', AI, NOTE)

prop('C32', 'The additive FFT is evaluation at every point of its subspace, and invertible',
     'Over every binary extension field, the additive Fourier transform of a vector of coefficients is the value of that '
     'polynomial at each point of the span of the basis, the inverse transform gives the coefficients back, and the Taylor '
     'expansion used inside is undone by its inverse.',
     ['inputs', 'configurations'], 'all coefficient vectors over the field',
     'Tests sample random coefficients.',
     ['src/fft_add.h'], [('Additive transform', 'src/fft_add.h')])

claim('C32', AI.replace('affine forms mod p', 'linear forms over the bits of the inputs, look-up tables'), NOTE)

prop('C33', 'Random elements are elements of the field',
     'An element drawn at random from a field is one of its elements and not zero, whatever the generator yields; packed fields '
     'draw every lane from the lane field; random vectors are over the field.',
     ['inputs', 'configurations'], 'all values of the random generator', 'Tests draw a few values.',
     ['src/gf_ring.h', 'src/gf_nf4.h', 'src/core.h'], [('rand', 'src/gf_ring.h'), ('rand by lanes', 'src/gf_nf4.h')])

claim('C33', AI, NOTE)

prop('C34', 'The radix-2 transform predicts its operation counts',
     'For every transform length, number of points which may be non-zero and input length, the predicted numbers of butterflies, '
     'additions, subtractions and multiplications of the radix-2 transform and its inverse are those of its definition: half of the '
     'length butterflies per stage, no multiplication by one.',
     ['configurations'], 'all lengths which are powers of two', 'Tests do not use the predictions.',
     ['src/fft_2n.h'], [('fft_op_counter, ifft_op_counter', 'src/fft_2n.h')])

claim('C34', AI, NOTE)


def write():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    checks = []
    nal = []
    for i in ids:
        if i in CL:
            t, n, l = CL[i]
            checks.append({'property': i, 'quick_cmd': 'python3 checks/run.py ' + i,
                           'thorough_cmd': 'python3 checks/run.py %s --thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i,
                           'technique': t, 'level': l, 'level_note': n})
        else:
            nal.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
    m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': checks,
         'not_applicable': nal,
         'notes': 'Static analysis only: every check re-reads the current sources of /repo. No hooks in /repo.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    write()
