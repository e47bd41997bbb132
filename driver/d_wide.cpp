// Long codes, a few ways to lose fragments; most data is fixed.
#include "stream.h"
#include "gf_bin_ext.h"
template <typename T>
struct Traits<fec::RsFnt<T>> {
    static uint64_t q(int ws) { return ws == 1 ? 257 : 65537; }
    static int unit(int ws) { return ws; }
};
template <typename C>
struct Words {
    static uint64_t q(int) { return 0; }
    static int unit(int ws) { return ws; }
};
template <typename T>
struct Traits<fec::RsGf2n<T>> : Words<fec::RsGf2n<T>> {};
template <typename T>
struct Traits<fec::RsGf2nFft<T>> : Words<fec::RsGf2nFft<T>> {};
template <typename T>
struct Traits<fec::RsGf2nFftAdd<T>> : Words<fec::RsGf2nFftAdd<T>> {};
template <typename T>
struct Traits<fec::RsGfpFft<T>> {
    static uint64_t q(int ws) { return ws == 1 ? 257 : ws == 2 ? 65537 : 4294991873ull; }
    static int unit(int ws) { return ws; }
};
#define FNT(NAME, T, ...) \
    extern "C" void qah_w_##NAME() { Shape s = __VA_ARGS__; all<fec::RsFnt<T>>(s, 5, s.sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, s.ws, s.k, s.m, s.pkt); } \
    extern "C" void qah_wh_##NAME() { Shape s = __VA_ARGS__; all<fec::RsFnt<T>>(s, 6, s.sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, s.ws, s.k, s.m, s.pkt); }
#define GFP(NAME, T, ...) \
    extern "C" void qah_w_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGfpFft<T>>(s, 5, s.ws, s.k, s.m); } \
    extern "C" void qah_wh_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGfpFft<T>>(s, 6, s.ws, s.k, s.m); }
#define FF(NAME, T, ...) \
    extern "C" void qah_w_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2nFft<T>>(s, 5, s.ws, s.k, s.m); } \
    extern "C" void qah_wh_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2nFft<T>>(s, 6, s.ws, s.k, s.m); }
#define AD(NAME, T, ...) \
    extern "C" void qah_w_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2nFftAdd<T>>(s, 5, s.ws, s.k, s.m); } \
    extern "C" void qah_wh_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2nFftAdd<T>>(s, 6, s.ws, s.k, s.m); }
#define VA(NAME, T, ...) \
    extern "C" void qah_w_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2n<T>>(s, 5, s.ws, s.k, s.m, fec::RsMatrixType::VANDERMONDE); } \
    extern "C" void qah_wh_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2n<T>>(s, 6, s.ws, s.k, s.m, fec::RsMatrixType::VANDERMONDE); }
#define CA(NAME, T, ...) \
    extern "C" void qah_w_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2n<T>>(s, 5, s.ws, s.k, s.m, fec::RsMatrixType::CAUCHY); } \
    extern "C" void qah_wh_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2n<T>>(s, 6, s.ws, s.k, s.m, fec::RsMatrixType::CAUCHY); }
// {word size, data, parities, systematic, packet, words, symbolic, vertical}
FNT(fnt_s20, uint32_t, {2, 20, 12, 1, 4, 3, 0, true})
FNT(fnt_n20, uint32_t, {2, 20, 12, 0, 4, 3, 0, true})
FNT(fnt_s40, uint32_t, {2, 40, 30, 1, 4, 3, 0, true})
FNT(fnt_n40, uint32_t, {2, 40, 30, 0, 4, 3, 0, true})
FNT(fnt_s200, uint32_t, {2, 200, 100, 1, 4, 1, 0, true})
FNT(fnt_n200, uint32_t, {2, 200, 100, 0, 4, 1, 0, true})
FNT(fnt_w1_100, uint16_t, {1, 100, 60, 1, 4, 3, 0, true})
FNT(fnt_h40, uint32_t, {2, 40, 30, 0, 4, 2, 0, false})
GFP(gfp_40, uint32_t, {2, 40, 30, 0, 8, 1, 0, false})
GFP(gfp_20, uint64_t, {4, 20, 12, 0, 8, 1, 0, false})
FF(ff_40, uint32_t, {2, 40, 30, 0, 8, 1, 0, false})
AD(ad_40, uint32_t, {2, 40, 30, 0, 8, 1, 0, false})
VA(va_40, uint32_t, {2, 40, 30, 1, 8, 1, 0, false})
CA(ca_40, uint32_t, {2, 40, 30, 1, 8, 1, 0, false})
// long streams, the packets of the C interface
#define BIG(NAME, CODE, T, ARGS, ...) \
    extern "C" void qah_big_##NAME() { Shape s = __VA_ARGS__; all<fec::CODE<T>>(s, 7, ARGS); }
#define ARG(...) __VA_ARGS__
BIG(fnt_n32, RsFnt, uint32_t, ARG(fec::FecType::NON_SYSTEMATIC, 2, 3, 2, 1024), {2, 3, 2, 0, 1024, 2500, 0, true})
BIG(fnt_s32, RsFnt, uint32_t, ARG(fec::FecType::SYSTEMATIC, 2, 3, 2, 1024), {2, 3, 2, 1, 1024, 2500, 0, true})
BIG(fnt_w1_n32, RsFnt, uint16_t, ARG(fec::FecType::NON_SYSTEMATIC, 1, 3, 2, 1024), {1, 3, 2, 0, 1024, 2500, 0, true})
BIG(fnt_w1_s32, RsFnt, uint16_t, ARG(fec::FecType::SYSTEMATIC, 1, 3, 2, 1024), {1, 3, 2, 1, 1024, 2500, 0, true})
BIG(fnt_w1_h32, RsFnt, uint16_t, ARG(fec::FecType::NON_SYSTEMATIC, 1, 3, 2, 1024), {1, 3, 2, 0, 1024, 700, 0, false})
BIG(fnt_n21_64k, RsFnt, uint32_t, ARG(fec::FecType::NON_SYSTEMATIC, 2, 2, 1, 1024), {2, 2, 1, 0, 1024, 66000, 0, true})
BIG(gfp_32, RsGfpFft, uint32_t, ARG(2, 3, 2), {2, 3, 2, 0, 8, 700, 0, false})
BIG(ff_32, RsGf2nFft, uint32_t, ARG(1, 3, 2), {1, 3, 2, 0, 8, 700, 0, false})
BIG(ad_32, RsGf2nFftAdd, uint32_t, ARG(1, 3, 2), {1, 3, 2, 0, 8, 700, 0, false})
BIG(ca_32, RsGf2n, uint32_t, ARG(1, 3, 2, fec::RsMatrixType::CAUCHY), {1, 3, 2, 1, 8, 700, 0, false})
