// The prime-field FFT codes, word by word.
#include "stream.h"
template <typename T>
struct Traits<fec::RsGfpFft<T>> {
    static uint64_t q(int ws) { return ws == 1 ? 257 : ws == 2 ? 65537 : 4294991873; }
    static int unit(int ws) { return ws; }
};
#define ST(NAME, T, WHAT, ...) \
    extern "C" void qah_gfp_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGfpFft<T>>(s, WHAT, s.ws, s.k, s.m); }
// {word size, data, parities, systematic, packet, words, symbolic, vertical}
ST(w1_21, uint32_t, 0, {1, 2, 1, 0, 8, 2, 3, false})
ST(w1_32, uint32_t, 0, {1, 3, 2, 0, 8, 1, 1, false})
ST(w1_32_u64, uint64_t, 0, {1, 3, 2, 0, 8, 1, 1, false})
ST(w2_21, uint32_t, 0, {2, 2, 1, 0, 8, 2, 3, false})
ST(w2_22, uint64_t, 0, {2, 2, 2, 0, 8, 1, 1, false})
ST(w2_32, uint32_t, 0, {2, 3, 2, 0, 8, 1, 1, false})
ST(w4_21, uint64_t, 0, {4, 2, 1, 0, 8, 2, 3, false})
ST(w4_22, uint64_t, 0, {4, 2, 2, 0, 8, 1, 1, false})
ST(few_w1_21, uint32_t, 1, {1, 2, 1, 0, 8, 1, 1, false})
ST(few_w4_32, uint64_t, 1, {4, 3, 2, 0, 8, 1, 0, false})
ST(unw_w2_21, uint32_t, 2, {2, 2, 1, 0, 8, 1, 1, false})
ST(w4_32, uint64_t, 0, {4, 3, 2, 0, 8, 1, 1, false})
ST(w1_13, uint32_t, 0, {1, 1, 3, 0, 8, 3, 5, false})
ST(w2_41, uint32_t, 0, {2, 4, 1, 0, 8, 1, 0x8000000000000001, false})
ST(few_w2_32, uint32_t, 1, {2, 3, 2, 0, 8, 1, 1, false})
ST(unw_w4_21, uint64_t, 2, {4, 2, 1, 0, 8, 1, 1, false})
ST(unw_w1_32, uint32_t, 2, {1, 3, 2, 0, 8, 1, 1, false})
// larger codes, not all erasure patterns
ST(w1_53, uint32_t, 0, {1, 5, 3, 0, 8, 1, FIRST | SPREAD | 1, false})
ST(w2_53, uint32_t, 0, {2, 5, 3, 0, 8, 1, FIRST | SPREAD | 1, false})
ST(w2_26, uint32_t, 0, {2, 2, 6, 0, 8, 1, FIRST | SPREAD | 1, false})
ST(w4_41, uint64_t, 0, {4, 4, 1, 0, 8, 1, FIRST | 1, false})
ST(w4_24, uint64_t, 0, {4, 2, 4, 0, 8, 2, FIRST | THREE | 2, false})
ST(w2_94, uint64_t, 0, {2, 9, 4, 0, 8, 1, FIRST | SPREAD | 1, false})

// histories
#define H(NAME, T, ...) \
    extern "C" void qah_h_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGfpFft<T>>(s, 3, s.ws, s.k, s.m); }
H(w1_21, uint32_t, {1, 2, 1, 0, 8, 1, 1, false})
H(w2_22, uint32_t, {2, 2, 2, 0, 8, 2, 2, false})
H(w2_32, uint64_t, {2, 3, 2, 0, 8, 1, 1, false})
H(w4_21, uint64_t, {4, 2, 1, 0, 8, 1, 1, false})
#define HP(NAME, T, ...) \
    extern "C" void qah_hp_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGfpFft<T>>(s, 4, s.ws, s.k, s.m); }
HP(w1_32, uint32_t, {1, 3, 2, 0, 8, 2, 0, false})
HP(w2_43, uint32_t, {2, 4, 3, 0, 8, 1, 0, false})
