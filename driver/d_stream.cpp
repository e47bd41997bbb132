// The stream interface of the FNT codes.
#include "stream.h"
template <typename T>
struct Traits<fec::RsFnt<T>> {
    static uint64_t q(int ws) { return ws == 1 ? 257 : 65537; }
    static int unit(int ws) { return ws; }
};
#define ST(NAME, T, WHAT, ...) \
    extern "C" void qah_##NAME() { Shape s = __VA_ARGS__; all<fec::RsFnt<T>>(s, WHAT, s.sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, s.ws, s.k, s.m, s.pkt); }
// {word size, data, parities, systematic, packet, words, symbolic, vertical}
ST(sv_w2_n21_1, uint32_t, 0, {2, 2, 1, 0, 4, 1, 1, true})
ST(sv_w2_n21_exact, uint32_t, 0, {2, 2, 1, 0, 4, 4, 8, true})
ST(sv_w2_n21_tail, uint32_t, 0, {2, 2, 1, 0, 4, 6, 0x21, true})
ST(sv_w2_n21_two, uint32_t, 0, {2, 2, 1, 0, 4, 8, 0x11, true})
ST(sv_w2_n21_empty, uint32_t, 0, {2, 2, 1, 0, 4, 0, 0, true})
ST(sv_w2_s22_tail, uint32_t, 0, {2, 2, 2, 1, 4, 6, 0x20, true})
ST(sv_w2_s22_empty, uint32_t, 0, {2, 2, 2, 1, 4, 0, 0, true})
ST(sv_w2_n32_1, uint32_t, 0, {2, 3, 2, 0, 4, 1, 1, true})
ST(sv_w1_n21_tail, uint16_t, 0, {1, 2, 1, 0, 8, 11, 0x401, true})
ST(sv_w1_s22_exact, uint16_t, 0, {1, 2, 2, 1, 8, 8, 0x80, true})
ST(sh_w2_n21, uint32_t, 0, {2, 2, 1, 0, 4, 2, 3, false})
ST(sh_w2_n22, uint32_t, 0, {2, 2, 2, 0, 4, 1, 1, false})
ST(sh_w2_n32, uint32_t, 0, {2, 3, 2, 0, 4, 1, 1, false})
ST(sh_w2_empty, uint32_t, 0, {2, 2, 1, 0, 4, 0, 0, false})
ST(sh_w1_n21, uint16_t, 0, {1, 2, 1, 0, 4, 3, 5, false})
ST(sv_w2_n21_lanes, uint32_t, 0, {2, 2, 1, 0, 8, 19, 0x40000, true})
ST(sv_w1_s22_lanes, uint16_t, 0, {1, 2, 2, 1, 32, 43, 0x100000001, true})
ST(few_sv_n21, uint32_t, 1, {2, 2, 1, 0, 4, 1, 1, true})
ST(few_sv_s22, uint32_t, 1, {2, 2, 2, 1, 4, 1, 1, true})
ST(few_sh_n21, uint32_t, 1, {2, 2, 1, 0, 4, 1, 1, false})
ST(few_sv_s31, uint32_t, 1, {2, 3, 1, 1, 4, 1, 0, true})
ST(few_sv_s32, uint32_t, 1, {2, 3, 2, 1, 4, 1, 0, true})
ST(few_sv_s42, uint32_t, 1, {2, 4, 2, 1, 4, 1, 0, true})
ST(few_sv_n53, uint32_t, 1, {2, 5, 3, 0, 4, 1, 0, true})
ST(few_sv_w1_s32, uint16_t, 1, {1, 3, 2, 1, 4, 1, 0, true})
ST(few_sh_n53, uint32_t, 1, {2, 5, 3, 0, 4, 1, 0, false})
ST(few_sh_w1_n32, uint16_t, 1, {1, 3, 2, 0, 4, 1, 0, false})
ST(unw_sv_n21, uint32_t, 2, {2, 2, 1, 0, 4, 1, 1, true})
ST(unw_sv_s22, uint32_t, 2, {2, 2, 2, 1, 4, 1, 1, true})
ST(unw_sh_n21, uint32_t, 2, {2, 2, 1, 0, 4, 1, 1, false})
// larger codes, not all erasure patterns
ST(sv_w2_n53, uint32_t, 0, {2, 5, 3, 0, 4, 5, FIRST | SPREAD | 0x10, true})
ST(sv_w2_s53, uint32_t, 0, {2, 5, 3, 1, 4, 5, FIRST | SPREAD | 0x11, true})
ST(sv_w2_s84, uint32_t, 0, {2, 8, 4, 1, 8, 9, FIRST | SPREAD | 0x100, true})
ST(sv_w2_s26, uint32_t, 0, {2, 2, 6, 1, 4, 5, FIRST | SPREAD | 0x11, true})
ST(sv_w2_n26, uint32_t, 0, {2, 2, 6, 0, 4, 5, FIRST | SPREAD | 0x10, true})
ST(sv_w1_n44, uint16_t, 0, {1, 4, 4, 0, 4, 5, FIRST | SPREAD | 0x11, true})
ST(sv_w2_n21_three, uint32_t, 0, {2, 2, 1, 0, 4, 10, FIRST | 0x221, true})
ST(sh_w2_n53, uint32_t, 0, {2, 5, 3, 0, 4, 2, FIRST | SPREAD | 2, false})
ST(sh_w2_n26, uint32_t, 0, {2, 2, 6, 0, 4, 2, FIRST | SPREAD | 3, false})
ST(sh_w1_n44, uint16_t, 0, {1, 4, 4, 0, 4, 2, FIRST | SPREAD | 2, false})
ST(sv_w2_n53_lanes, uint32_t, 0, {2, 5, 3, 0, 8, 19, FIRST | THREE | 0x10001, true})
ST(sv_w1_s53_lanes, uint16_t, 0, {1, 5, 3, 1, 16, 37, FIRST | THREE | 0x10001, true})

// histories
#define H(NAME, T, ...) \
    extern "C" void qah_h_##NAME() { Shape s = __VA_ARGS__; all<fec::RsFnt<T>>(s, 3, s.sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, s.ws, s.k, s.m, s.pkt); }
H(sv_w2_n21, uint32_t, {2, 2, 1, 0, 4, 6, 0x21, true})
H(sv_w2_s22, uint32_t, {2, 2, 2, 1, 4, 6, 0x20, true})
H(sv_w2_n32, uint32_t, {2, 3, 2, 0, 4, 1, 1, true})
H(sv_w2_s12, uint32_t, {2, 1, 2, 1, 4, 5, 0x10, true})
H(sv_w1_s22, uint16_t, {1, 2, 2, 1, 8, 9, 0x100, true})
H(sh_w2_n21, uint32_t, {2, 2, 1, 0, 4, 2, 2, false})
H(sh_w2_n32, uint32_t, {2, 3, 2, 0, 4, 1, 1, false})
H(sh_w1_n22, uint16_t, {1, 2, 2, 0, 4, 2, 2, false})
#define HP(NAME, T, ...) \
    extern "C" void qah_hp_##NAME() { Shape s = __VA_ARGS__; all<fec::RsFnt<T>>(s, 4, s.sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, s.ws, s.k, s.m, s.pkt); }
HP(sv_w2_n32, uint32_t, {2, 3, 2, 0, 4, 5, 0, true})
HP(sv_w2_n43, uint32_t, {2, 4, 3, 0, 4, 2, 0, true})
HP(sv_w2_s43, uint32_t, {2, 4, 3, 1, 4, 2, 0, true})
HP(sv_w1_s52, uint16_t, {1, 5, 2, 1, 8, 3, 0, true})
HP(sh_w2_n32, uint32_t, {2, 3, 2, 0, 4, 2, 0, false})
HP(sh_w2_n43, uint32_t, {2, 4, 3, 0, 4, 1, 0, false})
