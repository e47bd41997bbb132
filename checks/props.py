"""What is checked for each property."""
import rules as R
TRUSTED = [
    'clang 18 as the reader of the sources (same macros, -std and -m flags as the build)',
    'the transfer functions of /verif/tool (LLVM IR instructions, SIMD intrinsics, libc/libstdc++ models)',
    'libstdc++ headers of gcc 9, which are analysed together with the code',
]
ALL = ('OFF', 'SSE', 'AVX')
BOUND = ('Abstract interpretation of the LLVM IR of /repo/src from driver entry '
         'states: all element values are abstract (the whole field), sizes are '
         'enumerated. ')

PROPS = {}


def prop(pid, **kw):
    kw.setdefault('level', 'other')
    PROPS[pid] = kw



S = ' Sizes and shapes: '
prop('C01', explanation=BOUND + S + 'any pair of elements of GF(p), p = 97, 257, 65521, 65537, 2147483647, 4294967291 and 4294991873 over 16, 32 and 64 bits; division by every element of the fields up to 65537, by up to 4000 elements of the larger ones.', values=[
    dict(cfgs=('OFF',), drivers=('d_field.cpp',), harness='qah_.*')])
prop('C02', explanation=BOUND + S + 'every length from 0 to 12 vectors and one element, seven fields, three builds.', values=[
    dict(cfgs=ALL, drivers=('d_ring.cpp',), harness='qah_.*')])
prop('C03', explanation=BOUND + S + 'transform sizes 2 to 256, all numbers of inputs up to size 8, sequences of transforms by one object, two fields, three builds.', values=[
    dict(cfgs=ALL, drivers=('d_fft.cpp',), harness='qah_.*')])
prop('C04', explanation=BOUND + S + 'see the entry names (word size, systematic or not, data, parities); all erasure masks.', values=[
    dict(cfgs=ALL, drivers=('d_fec.cpp',), harness='qah_rt_.*')])
prop('C05', explanation=BOUND + S + 'streams of 0 to 2 packets with full and short last packets, see the entry names; all erasure masks; codes of 32 to 300 fragments with fixed data and six ways to lose fragments; streams of 700 to 66000 words of fixed data.', values=[
    dict(cfgs=ALL, drivers=('d_stream.cpp',), harness='qah_sv_.*'),
    dict(cfgs=ALL, drivers=('d_wide.cpp',), harness='qah_w_fnt_[swn].*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_wide.cpp',), harness='qah_big_fnt_(w1_)?[ns].*')])
prop('C06', explanation=BOUND + S + 'streams of 0 to 3 words, see the entry names; all erasure masks; codes of 32 to 300 fragments with fixed data and six ways to lose fragments; streams of 700 to 66000 words of fixed data.', values=[
    dict(cfgs=ALL, drivers=('d_stream.cpp',), harness='qah_sh_.*'),
    dict(cfgs=ALL, drivers=('d_wide.cpp',), harness='qah_w_fnt_h.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_wide.cpp',), harness='qah_big_fnt_w1_h.*')])
prop('C07', explanation=BOUND + S + 'see the entry names; all erasure masks; codes of 32 to 300 fragments with fixed data and six ways to lose fragments; streams of 700 to 66000 words of fixed data.', values=[
    dict(cfgs=ALL, drivers=('d_capi.cpp',), harness='qah_crt_.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_capi.cpp',), harness='qah_crtl_.*'),
    dict(cfgs=('OFF',), drivers=('d_capi.cpp',), harness='qah_crtw_.*20'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_capi.cpp',), harness='qah_crtw_.*', tier='thorough'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_capi.cpp',), harness='qah_crtx_.*', tier='thorough')])
prop('C08', explanation=BOUND + S + 'see the entry names; all erasure masks and targets.', values=[
    dict(cfgs=ALL, drivers=('d_capi.cpp',), harness='qah_crec_.*'),
    dict(cfgs=('OFF',), drivers=('d_capi.cpp',), harness='qah_crecl_.*'),
    dict(cfgs=('AVX',), drivers=('d_capi.cpp',), harness='qah_crecl_.*_two'),
    dict(cfgs=('AVX',), drivers=('d_capi.cpp',), harness='qah_crecl_.*', tier='thorough'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_capi.cpp',), harness='qah_crecw_.*', tier='thorough'),
    dict(cfgs=('OFF',), drivers=('d_capi.cpp',), harness='qah_crecx_.*', tier='thorough')])
prop('C09', explanation=BOUND + S + '0 to 12 markers, headers of 0 to 20 words.', values=[
    dict(cfgs=('OFF',), drivers=('d_props.cpp',), harness='qah_hdr_(write|wide|query|sort)')])
prop('C10', explanation=BOUND + S + 'headers of 0 to 14 words of arbitrary bytes.', values=[
    dict(cfgs=('OFF',), drivers=('d_props.cpp',), harness='qah_hdr_parse'),
    dict(cfgs=('OFF',), drivers=('d_capi.cpp',), harness='qah_chdr_.*')])
prop('C13', explanation=BOUND + S + 'all masks of wanted and of missing fragments of the shapes in the entry names.', values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_capi.cpp',), harness='qah_cunw_.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_stream.cpp',), harness='qah_unw_.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_fec.cpp',), harness='qah_rt_.*', labels='left'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_fec.cpp',), harness='qah_unw_.*'),
    dict(cfgs=('OFF',), drivers=('d_capi.cpp',), harness='qah_crec_w2_(s21|s12|n12)', labels='left')])
prop('C14', explanation=BOUND + S + 'all masks with n_parities + 1 losses of the shapes in the entry names.', values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_capi.cpp',), harness='qah_cfew_.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_stream.cpp',), harness='qah_few_.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_fec.cpp',), harness='qah_few_.*')])
prop('C15', explanation=BOUND + S + 'every position of packets of 3 to 35 symbols, offsets around 0, 2^32 and 2^40.', values=[
    dict(cfgs=ALL, drivers=('d_marks.cpp',), harness='qah_rec[wbsh]?_.*')])
prop('C16', explanation=BOUND + S + 'every position of packets of 8 to 19 symbols, offsets around 0, 2^32 and 2^40.', values=[
    dict(cfgs=ALL, drivers=('d_marks.cpp',), harness='qah_resw?_.*')])
prop('C26', explanation=BOUND + S + 'six kinds of earlier operations on blocks, see driver/d_hist.cpp, five on streams of every code, see driver/stream.h, '
     'two erasure masks each; and every pair of erasure masks, one decoded after the other, with fixed data; sequences of losses of long codes.', values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_wide.cpp',), harness='qah_wh_.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_hist.cpp',), harness='qah_hist_.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_stream.cpp',), harness='qah_h_.*'),
    dict(cfgs=('OFF',), drivers=('d_nf4.cpp',), harness='qah_h_.*'),
    dict(cfgs=('OFF',), drivers=('d_gfp.cpp',), harness='qah_h_.*'),
    dict(cfgs=('OFF',), drivers=('d_gf2.cpp',), harness='qah_h_.*'),
    dict(cfgs=('OFF',), drivers=('d_stream.cpp',), harness='qah_hp_.*_(n32|s52)'),
    dict(cfgs=('OFF',), drivers=('d_nf4.cpp',), harness='qah_hp_.*_32'),
    dict(cfgs=('OFF',), drivers=('d_gfp.cpp',), harness='qah_hp_.*_32'),
    dict(cfgs=('OFF',), drivers=('d_gf2.cpp',), harness='qah_hp_.*_(32|52)'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_stream.cpp',), harness='qah_hp_.*', tier='thorough'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_nf4.cpp',), harness='qah_hp_.*', tier='thorough'),
    dict(cfgs=('OFF',), drivers=('d_gfp.cpp',), harness='qah_hp_.*', tier='thorough'),
    dict(cfgs=('OFF',), drivers=('d_gf2.cpp',), harness='qah_hp_.*', tier='thorough')])
prop('C19', explanation=BOUND + 'Every harness creates, copies, moves, assigns and destroys objects of the class in its name; '
     'each allocation must be released exactly once, by the matching form, and none may survive.', values=[
    dict(cfgs=ALL, drivers=('d_own.cpp',), harness='qah_.*')])
prop('C20', explanation=BOUND + S + 'transform sizes 2 to 30 over GF(31), GF(13), GF(257) and GF(65537); buffers of one symbol, whole vectors and tails.', values=[
    dict(cfgs=ALL, drivers=('d_dft.cpp',), harness='qah_dft_.*')])
prop('C21', explanation=BOUND + S + 'all word sizes of symbols of 16 to 128 bits, 0 to 33 words, 1 to 3 buffers.', values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_cast.cpp',), harness='qah_cast_.*')])
prop('C22', explanation=BOUND + S + 'groups of 1, 2 and 4 elements in words of 32, 64 and 128 bits; streams of 1 to 9 words, see the entry names; all erasure masks.', values=[
    dict(cfgs=ALL, drivers=('d_nf4.cpp',), harness='qah_nf4_.*')])
prop('C23', explanation=BOUND + S + 'streams of one to three words, see the entry names; all erasure masks of one code length; codes of 32 to 300 fragments with fixed data and six ways to lose fragments; fields of 257, 65537 and 4294991873 elements.', values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_gfp.cpp',), harness='qah_gfp_.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_wide.cpp',), harness='qah_w_gfp_.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_wide.cpp',), harness='qah_big_gfp_.*')])
prop('C27', explanation=BOUND + 'Values are linear maps over GF(2) of the bits of the inputs or functions of one symbol of at most 16 bits. ' + S +
     'fields of 2^4 to 2^64 elements; Vandermonde, Cauchy, multiplicative and additive FFT codes, see the entry names; all erasure masks; codes of 32 to 300 fragments with fixed data and six ways to lose fragments; streams of 700 to 66000 words of fixed data.', values=[
    dict(cfgs=('OFF',), drivers=('d_gf2.cpp',), harness='qah_(?!ff_x_|hp?_).*'),
    dict(cfgs=('OFF',), drivers=('d_wide.cpp',), harness='qah_w_(ff|ad|va|ca)_.*'),
    dict(cfgs=('OFF',), drivers=('d_wide.cpp',), harness='qah_big_(ff|ad|ca)_.*'),
    dict(cfgs=('OFF',), drivers=('d_gf2.cpp',), harness='qah_ff_x_.*', tier='thorough'),
    dict(cfgs=('AVX', 'SSE'), drivers=('d_gf2.cpp',), harness='qah_(?!hp?_).*', tier='thorough')])
prop('C32', explanation=BOUND + 'Values are linear maps over GF(2) of the bits of the inputs. ' + S +
     'subspaces of 2 to 64 points of fields of 2^4 to 2^16 elements, see the entry names.', values=[
    dict(cfgs=('OFF',), drivers=('d_add.cpp',), harness='qah_add_.*'),
    dict(cfgs=('AVX',), drivers=('d_add.cpp',), harness='qah_add_.*', tier='thorough')])
prop('C29', explanation=BOUND + S + 'arguments up to a few hundred, next to the powers of two and to the end of the type, over 32 and 64 bits; fields of 3 to 257 elements.', values=[
    dict(cfgs=('OFF',), drivers=('d_arith.cpp',), harness='qah_ar_.*')])
prop('C31', explanation=BOUND + S + 'the blocks of C04 and the streams of C05, C06 and C23, see the entry names; every erasure mask; and the histories of C26.', values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_fec.cpp',), harness='qah_rt_.*', labels='operations'),
    dict(cfgs=('OFF',), drivers=('d_stream.cpp',), harness='qah_s[vh]_.*', labels='operations'),
    dict(cfgs=('OFF',), drivers=('d_gfp.cpp',), harness='qah_gfp_.*', labels='operations'),
    dict(cfgs=('OFF',), drivers=('d_hist.cpp',), harness='qah_hist_.*', labels='operations'),
    dict(cfgs=('OFF',), drivers=('d_stream.cpp',), harness='qah_h_.*', labels='operations'),
    dict(cfgs=('OFF',), drivers=('d_nf4.cpp',), harness='qah_h_.*', labels='operations'),
    dict(cfgs=('OFF',), drivers=('d_gfp.cpp',), harness='qah_h_.*', labels='operations'),
    dict(cfgs=('OFF',), drivers=('d_gf2.cpp',), harness='qah_h_.*', labels='operations')])
prop('C24', explanation=BOUND + S + 'vectors of 1 to 5 elements, polynomials up to degree 3, matrices up to 4 x 4, three fields.', values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_poly.cpp',), harness='qah_.*')])
prop('C25', explanation=BOUND + S + 'all ranges, all injective maps and all concatenations of up to 6 buffers, all slices, strides and extensions of vectors of up to 6 elements.', values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_view.cpp',), harness='qah_view_.*')])
prop('C11', explanation=BOUND + S + 'every unsupported word size and code length class; headers at and beyond their capacity; '
     'refused headers; one loss too many; the n-th allocation failing, for every n.', values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_fail.cpp',), harness='qah_.*'),
    dict(cfgs=('OFF',), drivers=('d_capi.cpp',), harness='qah_chdr_.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_capi.cpp',), harness='qah_cfew_.*')])
prop('C12', explanation='Two parts. Over the call graph: the exceptions each call site of a C operation may let out are all '
     'caught. ' + BOUND + 'Each operation is run with its n-th allocation failing, for every n; the failure is reported, '
     'everything allocated is released, and the instance still gives the right result.', rules=[R.throw], values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_fail.cpp',), harness='qah_(alloc_.*|fail_new)')])
prop('C17', explanation='Reachability and flow over the call graph of the whole library, all templates instantiated.', rules=[R.effects])
prop('C18', explanation='Write effects of the operand of each assertion, all templates instantiated.', rules=[R.asserts])
prop('C33', explanation=BOUND + 'The distribution yields any value of its range. ' + S + 'prime fields of 257 to 4294991873 elements, binary fields of 2^4 to 2^64, packed fields of 1 to 4 lanes.', values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_misc.cpp',), harness='qah_rand_.*'),
    dict(cfgs=('OFF', 'AVX'), drivers=('d_nf4.cpp',), harness='qah_rand_.*')])
prop('C34', explanation=BOUND + S + 'transforms of 2 to 32 points, every number of points which may be non-zero, every input length; two fields.', values=[
    dict(cfgs=('OFF', 'AVX'), drivers=('d_misc.cpp',), harness='qah_opc_.*')])
