// Binary fields and the codes over them: products by constants are linear maps
// of the bits of the operand.
#include "stream.h"
#include "gf_bin_ext.h"

static uint64_t modulus(int n)
{
    return n == 1 ? 0x1 : n == 2 || n == 3 ? 0x3 : n == 4 ? 0x3 : n == 8 ? 0x1d : n == 16 ? 0x100b : n == 32 ? 0x8d : 0x1b;
}

// a * x and x * a for a few constants, x any element; sums and differences
template <typename T>
static void field(int n, bool all)
{
    gf::BinExtension<T> f(gf::create<gf::BinExtension<T>>(n));
    qa_gf2(1);
    const uint64_t max = n == 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1;
    static const uint64_t cs[] = {0, 1, 2, 3, 5, 0xd, 0x80, 0xb7, 0xff,
                                  0x100, 0x8001, 0xcafe, 0xffff,
                                  0x10000, 0x80000001, 0xdeadbeef, 0xffffffff};
    T x[2];
    qa_fill(x, 2, sizeof(T), 0, max, "x");
    for (uint64_t c = 0; c < 256; ++c) {
        if (all ? c > max : c >= 17)
            break;
        const uint64_t a = all ? c : cs[c];
        if (a > max)
            continue;
        uint64_t k[2] = {a, 0};
        qa_gcomb(f.mul(T(a), x[0]), n, modulus(n), k, x, sizeof(T), 1, "constant times element");
        qa_gcomb(f.mul(x[0], T(a)), n, modulus(n), k, x, sizeof(T), 1, "element times constant");
    }
    uint64_t one[2] = {1, 1};
    qa_gcomb(f.add(x[0], x[1]), n, modulus(n), one, x, sizeof(T), 2, "sum");
    qa_gcomb(f.sub(x[0], x[1]), n, modulus(n), one, x, sizeof(T), 2, "difference");
    qa_gcomb(f.neg(x[0]), n, modulus(n), one, x, sizeof(T), 1, "opposite");
    qa_done();
}
extern "C" void qah_gf2_4() { field<uint32_t>(4, true); }
extern "C" void qah_gf2_1() { field<uint32_t>(1, true); }
extern "C" void qah_gf2_2() { field<uint32_t>(2, true); }
extern "C" void qah_gf2_3() { field<uint32_t>(3, true); }
extern "C" void qah_gf2_8() { field<uint32_t>(8, true); }
extern "C" void qah_gf2_8_u16() { field<uint16_t>(8, false); }
extern "C" void qah_gf2_16_u16() { field<uint16_t>(16, false); }
extern "C" void qah_gf2_16() { field<uint32_t>(16, false); }
extern "C" void qah_gf2_16_u64() { field<uint64_t>(16, false); }
extern "C" void qah_gf2_32() { field<uint32_t>(32, false); }
extern "C" void qah_gf2_32_u64() { field<uint64_t>(32, false); }

extern "C" void qah_gf2_64() { field<uint64_t>(64, false); }

// division by a constant, quotients of a constant
template <typename T>
static void divide(int n)
{
    gf::BinExtension<T> f(gf::create<gf::BinExtension<T>>(n));
    qa_gf2(1);
    const T max = T((uint64_t(1) << n) - 1);
    T x[1];
    qa_fill(x, 1, sizeof(T), 0, max, "x");
    static const uint64_t cs[] = {1, 2, 3, 0xf, 0x8d, 0xff, 0x8001, 0xffff};
    uint64_t one[1] = {1};
    for (uint64_t c : cs) {
        if (c > max)
            continue;
        T y[1] = {f.div(x[0], T(c))};
        qa_gcomb(f.mul(y[0], T(c)), n, modulus(n), one, x, sizeof(T), 1, "quotient times divisor");
        T z[1] = {f.mul(x[0], f.inv(T(c)))};
        qa_gcomb(z[0], n, modulus(n), one, y, sizeof(T), 1, "times the inverse");
    }
    qa_done();
}
extern "C" void qah_gf2_div_4() { divide<uint32_t>(4); }
extern "C" void qah_gf2_div_8() { divide<uint32_t>(8); }
extern "C" void qah_gf2_div_16_u16() { divide<uint16_t>(16); }
extern "C" void qah_gf2_div_3() { divide<uint32_t>(3); }
extern "C" void qah_gf2_div_16() { divide<uint32_t>(16); }
extern "C" void qah_gf2_div_32() { divide<uint32_t>(32); }

template <typename C>
struct Words {
    static uint64_t q(int) { return 0; }
    static int unit(int ws) { return ws; }
};
template <typename T>
struct Traits<fec::RsGf2n<T>> : Words<fec::RsGf2n<T>> {};
template <typename T>
struct Traits<fec::RsGf2nFft<T>> : Words<fec::RsGf2nFft<T>> {};
template <typename T>
struct Traits<fec::RsGf2nFftAdd<T>> : Words<fec::RsGf2nFftAdd<T>> {};

#define VA(NAME, T, WHAT, ...) \
    extern "C" void qah_va_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2n<T>>(s, WHAT, s.ws, s.k, s.m, fec::RsMatrixType::VANDERMONDE); }
#define CA(NAME, T, WHAT, ...) \
    extern "C" void qah_ca_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2n<T>>(s, WHAT, s.ws, s.k, s.m, fec::RsMatrixType::CAUCHY); }
#define FF(NAME, T, WHAT, ...) \
    extern "C" void qah_ff_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2nFft<T>>(s, WHAT, s.ws, s.k, s.m); }
#define AD(NAME, T, WHAT, ...) \
    extern "C" void qah_ad_##NAME() { Shape s = __VA_ARGS__; all<fec::RsGf2nFftAdd<T>>(s, WHAT, s.ws, s.k, s.m); }
// {word size, data, parities, systematic, packet, words, symbolic, vertical}
VA(w1_21, uint32_t, 0, {1, 2, 1, 1, 8, 2, 3, false})
VA(w1_32, uint32_t, 0, {1, 3, 2, 1, 8, 1, 1, false})
VA(w1_53, uint32_t, 0, {1, 5, 3, 1, 8, 1, 1, false})
VA(w2_32, uint32_t, 0, {2, 3, 2, 1, 8, 1, 1, false})
VA(w4_32, uint32_t, 0, {4, 3, 2, 1, 8, 1, 1, false})
CA(w1_21, uint32_t, 0, {1, 2, 1, 1, 8, 2, 3, false})
CA(w1_53, uint32_t, 0, {1, 5, 3, 1, 8, 1, 1, false})
CA(w2_32, uint32_t, 0, {2, 3, 2, 1, 8, 1, 1, false})
CA(w4_22, uint32_t, 0, {4, 2, 2, 1, 8, 1, 1, false})
CA(w4_32_u64, uint64_t, 0, {4, 3, 2, 1, 8, 1, 1, false})
FF(w1_21, uint32_t, 0, {1, 2, 1, 0, 8, 2, 3, false})
FF(w1_32, uint32_t, 0, {1, 3, 2, 0, 8, 1, 1, false})
FF(w2_32, uint32_t, 0, {2, 3, 2, 0, 8, 1, 0x8000000000000001, false})
FF(w4_22, uint32_t, 0, {4, 2, 2, 0, 8, 1, 1, false})
AD(w1_21, uint32_t, 0, {1, 2, 1, 0, 8, 2, 3, false})
AD(w1_32, uint32_t, 0, {1, 3, 2, 0, 8, 1, 1, false})
AD(w2_32, uint32_t, 0, {2, 3, 2, 0, 8, 1, 1, false})
AD(w4_22, uint32_t, 0, {4, 2, 2, 0, 8, 1, 1, false})
VA(w1_84, uint32_t, 0, {1, 8, 4, 1, 8, 1, 0x8000000000000001, false})
CA(w1_84, uint64_t, 0, {1, 8, 4, 1, 8, 1, 0x8000000000000001, false})
VA(w2_53, uint32_t, 0, {2, 5, 3, 1, 8, 1, 0x8000000000000001, false})
CA(w2_44, uint32_t, 0, {2, 4, 4, 1, 8, 1, 0x8000000000000001, false})
VA(w8_22, uint64_t, 0, {8, 2, 2, 1, 8, 1, 1, false})
CA(w8_22, uint64_t, 0, {8, 2, 2, 1, 8, 1, 1, false})
AD(w8_21, uint64_t, 0, {8, 2, 1, 0, 8, 1, 1, false})
FF(w1_53, uint32_t, 0, {1, 5, 3, 0, 8, 1, 1, false})
AD(w1_53, uint32_t, 0, {1, 5, 3, 0, 8, 1, 1, false})
AD(w1_44, uint64_t, 0, {1, 4, 4, 0, 8, 1, 0x8000000000000001, false})
FF(w4_32, uint32_t, 0, {4, 3, 2, 0, 8, 1, 1, false})
AD(w4_32, uint64_t, 0, {4, 3, 2, 0, 8, 1, 1, false})
VA(few_w1_32, uint32_t, 1, {1, 3, 2, 1, 8, 1, 1, false})
CA(few_w2_22, uint32_t, 1, {2, 2, 2, 1, 8, 1, 1, false})
FF(few_w1_32, uint32_t, 1, {1, 3, 2, 0, 8, 1, 1, false})
AD(few_w1_32, uint32_t, 1, {1, 3, 2, 0, 8, 1, 1, false})
VA(unw_w1_21, uint32_t, 2, {1, 2, 1, 1, 8, 1, 1, false})
CA(unw_w1_22, uint32_t, 2, {1, 2, 2, 1, 8, 1, 1, false})
FF(unw_w1_21, uint32_t, 2, {1, 2, 1, 0, 8, 1, 1, false})
AD(unw_w2_21, uint32_t, 2, {2, 2, 1, 0, 8, 1, 1, false})
// more parities than data; larger codes, not all erasure patterns
VA(w1_12, uint32_t, 0, {1, 1, 2, 1, 8, 1, 1, false})
CA(w1_12, uint32_t, 0, {1, 1, 2, 1, 8, 1, 1, false})
FF(w1_12, uint32_t, 0, {1, 1, 2, 0, 8, 1, 1, false})
AD(w1_12, uint32_t, 0, {1, 1, 2, 0, 8, 1, 1, false})
VA(w1_25, uint32_t, 0, {1, 2, 5, 1, 8, 1, 1, false})
CA(w1_25, uint32_t, 0, {1, 2, 5, 1, 8, 1, 1, false})
FF(w1_25, uint32_t, 0, {1, 2, 5, 0, 8, 1, 1, false})
AD(w1_25, uint32_t, 0, {1, 2, 5, 0, 8, 1, 1, false})
VA(w2_26, uint32_t, 0, {2, 2, 6, 1, 8, 1, FIRST | SPREAD | 1, false})
CA(w2_26, uint32_t, 0, {2, 2, 6, 1, 8, 1, FIRST | SPREAD | 1, false})
FF(w2_26, uint32_t, 0, {2, 2, 6, 0, 8, 1, FIRST | SPREAD | 1, false})
AD(w2_26, uint32_t, 0, {2, 2, 6, 0, 8, 1, FIRST | SPREAD | 1, false})
FF(x_w2_94, uint32_t, 0, {2, 9, 4, 0, 8, 1, FIRST | THREE | 1, false})
AD(w2_94, uint32_t, 0, {2, 9, 4, 0, 8, 1, FIRST | THREE | 1, false})
CA(w4_64, uint32_t, 0, {4, 6, 4, 1, 8, 1, FIRST | SPREAD | 1, false})

// histories
#define H(NAME, CODE, MORE, ...) \
    extern "C" void qah_h_##NAME() { Shape s = __VA_ARGS__; all<fec::CODE>(s, 3, s.ws, s.k, s.m MORE); }
#define COMMA ,
H(va_w1_32, RsGf2n<uint32_t>, COMMA fec::RsMatrixType::VANDERMONDE, {1, 3, 2, 1, 8, 1, 1, false})
H(ca_w1_22, RsGf2n<uint32_t>, COMMA fec::RsMatrixType::CAUCHY, {1, 2, 2, 1, 8, 2, 2, false})
H(ca_w2_21, RsGf2n<uint64_t>, COMMA fec::RsMatrixType::CAUCHY, {2, 2, 1, 1, 8, 1, 1, false})
H(va_w4_13, RsGf2n<uint64_t>, COMMA fec::RsMatrixType::VANDERMONDE, {4, 1, 3, 1, 8, 1, 1, false})
H(ff_w1_32, RsGf2nFft<uint32_t>, , {1, 3, 2, 0, 8, 1, 1, false})
H(ff_w2_21, RsGf2nFft<uint32_t>, , {2, 2, 1, 0, 8, 1, 1, false})
H(ad_w1_32, RsGf2nFftAdd<uint32_t>, , {1, 3, 2, 0, 8, 1, 1, false})
H(ad_w2_21, RsGf2nFftAdd<uint64_t>, , {2, 2, 1, 0, 8, 1, 1, false})
#define HP(NAME, CODE, MORE, ...) \
    extern "C" void qah_hp_##NAME() { Shape s = __VA_ARGS__; all<fec::CODE>(s, 4, s.ws, s.k, s.m MORE); }
HP(va_w1_32, RsGf2n<uint32_t>, COMMA fec::RsMatrixType::VANDERMONDE, {1, 3, 2, 1, 8, 2, 0, false})
HP(va_w1_43, RsGf2n<uint32_t>, COMMA fec::RsMatrixType::VANDERMONDE, {1, 4, 3, 1, 8, 1, 0, false})
HP(ca_w1_43, RsGf2n<uint32_t>, COMMA fec::RsMatrixType::CAUCHY, {1, 4, 3, 1, 8, 1, 0, false})
HP(ca_w2_52, RsGf2n<uint64_t>, COMMA fec::RsMatrixType::CAUCHY, {2, 5, 2, 1, 8, 1, 0, false})
HP(ff_w1_32, RsGf2nFft<uint32_t>, , {1, 3, 2, 0, 8, 2, 0, false})
HP(ff_w1_43, RsGf2nFft<uint32_t>, , {1, 4, 3, 0, 8, 1, 0, false})
HP(ad_w1_32, RsGf2nFftAdd<uint32_t>, , {1, 3, 2, 0, 8, 2, 0, false})
HP(ad_w1_43, RsGf2nFftAdd<uint32_t>, , {1, 4, 3, 0, 8, 1, 0, false})
