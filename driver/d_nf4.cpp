// Packed groups of elements of GF(65537): every lane of every operation, and
// the codes built on them.
#include "stream.h"

// The search for a generator runs for millions of steps over a group of
// lanes, and so does factoring the order of a group of four; the codes only
// use the roots of the lane field. What these two find is assumed here; both
// are decided for prime fields by C01.
namespace quadiron {
namespace gf {
template <>
void RingModN<uint64_t>::find_primitive_root()
{
    this->root = card_minus_one() == 65536 ? 3 : 65537;
}
template <>
void RingModN<__uint128_t>::find_primitive_root()
{
    this->root = card_minus_one() == 65536 ? 3 : 65537;
}
template <>
void RingModN<__uint128_t>::compute_factors_of_order()
{
    const __uint128_t h = card_minus_one();
    this->primes = {2};
    this->exponents = {16};
    if (h > 65536) {
        this->primes.push_back(641);
        this->exponents.push_back(1);
        if (h >> 64) {
            this->primes.push_back(274177);
            this->exponents.push_back(1);
        }
        this->primes.push_back(6700417);
        this->exponents.push_back(1);
        if (h >> 64) {
            this->primes.push_back(67280421310721);
            this->exponents.push_back(1);
        }
    }
    this->all_primes_factors = arith::get_prime_factors<__uint128_t>(
        this->primes, this->exponents);
    this->proper_divisors =
        arith::get_proper_divisors<__uint128_t>(h, this->primes);
}
} // namespace gf
} // namespace quadiron

template <typename T>
struct Traits<fec::RsNf4<T>> {
    static uint64_t q(int) { return 65537; }
    static int unit(int) { return 2; }
};
#define ST(NAME, T, WHAT, ...) \
    extern "C" void qah_nf4_##NAME() { Shape s = __VA_ARGS__; all<fec::RsNf4<T>>(s, WHAT, s.ws, s.k, s.m, s.pkt); }

static const uint64_t Q = 65537;

template <typename T>
static uint64_t lane(T v, int i)
{
    return uint32_t(v >> (32 * i));
}
template <typename T>
static T sym(int n, const char* name, uint64_t lo = 0)
{
    T v = 0;
    for (int i = 0; i < n; ++i)
        v |= T(qa_u(lo, Q - 1, name)) << (32 * i);
    return v;
}
template <typename T>
static void ops(int n)
{
    auto gf = gf::create<gf::NF4<T>>(n);
    if (n > 2)
        qa_mod(Q);
    T a = sym<T>(n, "a"), b = sym<T>(n, "b");
    T add = gf.add(a, b), sub = gf.sub(a, b), neg = gf.neg(a), mul = gf.mul(a, b);
    for (int i = 0; i < n; ++i) {
        uint64_t x = lane(a, i), y = lane(b, i);
        qa_lin(lane(add, i), Q, QA_ADD, x, y, 0, "add, lane by lane");
        qa_lin(lane(sub, i), Q, QA_SUB, x, y, 0, "sub, lane by lane");
        qa_lin(lane(neg, i), Q, QA_NEG, x, 0, 0, "neg, lane by lane");
        qa_lin(lane(mul, i), Q, QA_MUL, x, y, 0, "mul, lane by lane");
    }
    qa_true(gf.get_unit() == gf.replicate(1), "the unit is one in every lane");
    T r = gf.replicate(T(qa_u(0, Q - 1, "r")));
    for (int i = 0; i < n; ++i)
        qa_eq(lane(r, i), lane(r, 0), "replicate fills every lane");
    T x[3], y[3], z[3];
    for (int j = 0; j < 3; ++j) {
        x[j] = z[j] = sym<T>(n, "x");
        y[j] = sym<T>(n, "y");
    }
    gf.hadamard_mul(3, x, y);
    for (int j = 0; j < 3; ++j)
        for (int i = 0; i < n; ++i)
            qa_lin(lane(x[j], i), Q, QA_MUL, lane(z[j], i), lane(y[j], i), 0,
                   "hadamard_mul, lane by lane");
    qa_done();
}
// any dividend in each lane; divisors which differ from lane to lane
template <typename T>
static void divide(int n)
{
    auto gf = gf::create<gf::NF4<T>>(n);
    if (n > 2)
        qa_mod(Q);
    const uint64_t cs[] = {1, 2, 3, 5, 255, 256, 257, 4369, 32768, 32769, 40000, 65534, 65535, 65536};
    const int m = sizeof(cs) / sizeof(cs[0]);
    T a = sym<T>(n, "a");
    for (int s = 0; s < m; ++s) {
        T c = 0;
        for (int i = 0; i < n; ++i)
            c |= T(cs[(s + 5 * i) % m]) << (32 * i);
        T inv = gf.inv(c), q = gf.div(a, c), e = gf.exp(c, gf.replicate(T(s + 7 * (s % 2))));
        T w = gf.exp(c, c);
        for (int i = 0; i < n; ++i) {
            const uint64_t d = cs[(s + 5 * i) % m];
            qa_true(lane(inv, i) < Q && lane(inv, i) * d % Q == 1, "inv, lane by lane");
            qa_lin(lane(gf.mul(q, c), i), Q, QA_SAME, lane(a, i), 0, 0, "div, lane by lane");
            uint64_t r = 1, t = 1;
            for (int k = 0; k < s + 7 * (s % 2); ++k)
                r = r * d % Q;
            for (int k = 16; k >= 0; --k) {
                t = t * t % Q;
                if ((d >> k) & 1)
                    t = t * d % Q;
            }
            qa_true(lane(e, i) == r && lane(w, i) == t, "exp, lane by lane");
        }
    }
    // roots of unity, the same in every lane
    for (int k = 1; k <= 16; ++k) {
        T w = gf.get_nth_root(T(1) << k);
        for (int i = 0; i < n; ++i) {
            uint64_t r = lane(w, i);
            for (int j = 1; j < k; ++j)
                r = r * r % Q;
            qa_true(lane(w, i) == lane(w, 0) && r == Q - 1, "root of unity, lane by lane");
        }
    }
    T i8 = gf.get_inv_n_mod_p(8);
    for (int i = 0; i < n; ++i)
        qa_true(lane(i8, i) * 8 % Q == 1, "inverse of a length, lane by lane");
    qa_done();
}
// buffers of every length
template <typename T>
static void product(int n)
{
    auto gf = gf::create<gf::NF4<T>>(n);
    if (n > 2)
        qa_mod(Q);
    for (int len = 0; len <= 9; ++len) {
        T x[10], y[10], z[10];
        for (int j = 0; j < 10; ++j) {
            x[j] = z[j] = j < len ? sym<T>(n, "x") : T(7);
            y[j] = j < len ? sym<T>(n, "y") : T(9);
        }
        gf.hadamard_mul(len, x, y);
        for (int j = 0; j < len; ++j)
            for (int i = 0; i < n; ++i)
                qa_lin(lane(x[j], i), Q, QA_MUL, lane(z[j], i), lane(y[j], i), 0,
                       "hadamard_mul, lane by lane");
        for (int j = len; j < 10; ++j)
            qa_true(x[j] == T(7) && y[j] == T(9), "nothing beyond the buffers");
    }
    qa_done();
}
template <typename T>
static void packing(int n)
{
    auto gf = gf::create<gf::NF4<T>>(n);
    // packed -> unpacked with flags -> packed
    T a = sym<T>(n, "a");
    GroupedValues<T> u = gf.unpack(a), w;
    gf.unpack(a, w);
    qa_eq(u.flag, w.flag, "both forms of unpack agree");
    for (int i = 0; i < n; ++i) {
        const bool top = lane(a, i) == 65536;
        qa_eq((u.flag >> i) & 1, top, "the flag tells the top value");
        qa_eq(uint16_t(u.values >> (16 * i)), top ? 0 : lane(a, i),
              "unpack, lane by lane");
        qa_eq(uint16_t(w.values >> (16 * i)), uint16_t(u.values >> (16 * i)),
              "both forms of unpack agree");
    }
    T p = gf.pack(u.values, u.flag);
    for (int i = 0; i < n; ++i)
        qa_eq(lane(p, i), lane(a, i), "pack undoes unpack");
    // without flags
    T v = 0;
    for (int i = 0; i < n; ++i)
        v |= T(qa_u(0, 65535, "v")) << (16 * i);
    p = gf.pack(v);
    for (int i = 0; i < n; ++i)
        qa_eq(lane(p, i), uint16_t(v >> (16 * i)), "pack, lane by lane");
    qa_true(gf.unpack(p).flag == 0, "no flag for plain words");
    qa_true(gf.unpack(p).values == v, "unpack undoes pack");
    qa_done();
}
extern "C" void qah_nf4_ops_32() { ops<uint32_t>(1); }
extern "C" void qah_nf4_ops_64() { ops<uint64_t>(2); }
extern "C" void qah_nf4_ops_64_1() { ops<uint64_t>(1); }
extern "C" void qah_nf4_ops_128() { ops<__uint128_t>(4); }
extern "C" void qah_nf4_ops_128_2() { ops<__uint128_t>(2); }
extern "C" void qah_nf4_div_32() { divide<uint32_t>(1); }
extern "C" void qah_nf4_div_64() { divide<uint64_t>(2); }
extern "C" void qah_nf4_div_128() { divide<__uint128_t>(4); }
extern "C" void qah_nf4_div_128_3() { divide<__uint128_t>(3); }
extern "C" void qah_nf4_prod_32() { product<uint32_t>(1); }
extern "C" void qah_nf4_prod_64() { product<uint64_t>(2); }
extern "C" void qah_nf4_prod_128() { product<__uint128_t>(4); }
extern "C" void qah_nf4_pack_128() { packing<__uint128_t>(4); }
extern "C" void qah_nf4_pack_32() { packing<uint32_t>(1); }
extern "C" void qah_nf4_pack_64() { packing<uint64_t>(2); }
ST(v2_21, uint32_t, 0, {2, 2, 1, 0, 2, 3, 5, true})
ST(h2_21, uint32_t, 0, {2, 2, 1, 0, 8, 2, 3, false})
ST(v4_21, uint64_t, 0, {4, 2, 1, 0, 2, 3, 4, true})
ST(h4_21, uint64_t, 0, {4, 2, 1, 0, 8, 1, 1, false})
ST(v8_21, __uint128_t, 0, {8, 2, 1, 0, 2, 3, 4, true})
ST(h8_21, __uint128_t, 0, {8, 2, 1, 0, 8, 1, 1, false})
ST(v2_32, uint32_t, 0, {2, 3, 2, 0, 4, 5, 0x8000000000000010, true})
ST(v4_32, uint64_t, 0, {4, 3, 2, 0, 2, 2, 0x8000000000000002, true})
ST(v8_22, __uint128_t, 0, {8, 2, 2, 0, 2, 3, 0x8000000000000004, true})
ST(v8_32, __uint128_t, 0, {8, 3, 2, 0, 4, 3, 0, true})
ST(h2_32, uint32_t, 0, {2, 3, 2, 0, 8, 1, 1, false})
ST(h4_22, uint64_t, 0, {4, 2, 2, 0, 8, 1, 0x8000000000000001, false})
ST(few_v4_21, uint64_t, 1, {4, 2, 1, 0, 2, 3, 4, true})
ST(few_v8_32, __uint128_t, 1, {8, 3, 2, 0, 2, 3, 0, true})
ST(few_h4_21, uint64_t, 1, {4, 2, 1, 0, 8, 1, 1, false})
ST(unw_v4_21, uint64_t, 2, {4, 2, 1, 0, 2, 3, 4, true})
ST(unw_v8_21, __uint128_t, 2, {8, 2, 1, 0, 2, 3, 0, true})
ST(unw_h4_21, uint64_t, 2, {4, 2, 1, 0, 8, 1, 1, false})
ST(v4_21s, uint64_t, 0, {4, 2, 1, 0, 8, 9, 0x100, true})
ST(v8_21s, __uint128_t, 0, {8, 2, 1, 0, 8, 9, 0x100, true})
// larger codes, not all erasure patterns
ST(v2_53, uint32_t, 0, {2, 5, 3, 0, 4, 5, FIRST | THREE | 0x10, true})
ST(v4_53, uint64_t, 0, {4, 5, 3, 0, 2, 3, FIRST | THREE | LANE | 4, true})
ST(v8_26, __uint128_t, 0, {8, 2, 6, 0, 2, 3, FIRST | THREE | LANE | 4, true})
ST(h4_53, uint64_t, 0, {4, 5, 3, 0, 8, 1, FIRST | THREE | LANE | 1, false})

// histories
#define H(NAME, T, ...) \
    extern "C" void qah_h_##NAME() { Shape s = __VA_ARGS__; all<fec::RsNf4<T>>(s, 3, s.ws, s.k, s.m, s.pkt); }
H(v2_21, uint32_t, {2, 2, 1, 0, 2, 3, 4, true})
H(v4_22, uint64_t, {4, 2, 2, 0, 2, 3, 0x8000000000000004, true})
H(v8_21, __uint128_t, {8, 2, 1, 0, 2, 3, 0x8000000000000004, true})
H(h2_21, uint32_t, {2, 2, 1, 0, 8, 1, 1, false})
H(h4_32, uint64_t, {4, 3, 2, 0, 8, 1, 0x8000000000000001, false})
#define HP(NAME, T, ...) \
    extern "C" void qah_hp_##NAME() { Shape s = __VA_ARGS__; all<fec::RsNf4<T>>(s, 4, s.ws, s.k, s.m, s.pkt); }
HP(v2_32, uint32_t, {2, 3, 2, 0, 2, 3, 0, true})
HP(v4_43, uint64_t, {4, 4, 3, 0, 2, 3, 0, true})
HP(h4_32, uint64_t, {4, 3, 2, 0, 8, 1, 0, false})

// random elements, lane by lane
template <typename T>
static void packed(int n)
{
    auto f = gf::create<gf::NF4<T>>(n);
    for (int j = 0; j < 3; ++j) {
        const T r = f.rand();
        for (int i = 0; i < n; ++i)
            qa_true(uint32_t(r >> (32 * i)) <= 65536, "random elements are in the field");
    }
    qa_done();
}
extern "C" void qah_rand_n1() { packed<uint32_t>(1); }
extern "C" void qah_rand_n2() { packed<uint64_t>(2); }
extern "C" void qah_rand_n4() { packed<__uint128_t>(4); }
