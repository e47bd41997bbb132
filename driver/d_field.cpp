// Entry states for single elements of prime fields.
#include "qa.h"
#include "quadiron.h"
#include "gf_prime.h"
#include "gf_ring.h"
using namespace quadiron;

template <typename T>
static void scalar(uint64_t q)
{
    auto f = gf::create<gf::Prime<T>>(T(q));
    T x = T(qa_u(0, q - 1, "x")), y = T(qa_u(0, q - 1, "y"));
    qa_lin(f.add(x, y), q, QA_ADD, x, y, 0, "add");
    qa_lin(f.sub(x, y), q, QA_SUB, x, y, 0, "sub");
    qa_lin(f.neg(x), q, QA_NEG, x, 0, 0, "neg");
    qa_lin(f.mul(x, y), q, QA_MUL, x, y, 0, "mul");
    // the smallest and the largest elements as the other operand
    const T edge[] = {0, 1, 2, T(q / 2), T(q / 2 + 1), T(q - 2), T(q - 1)};
    for (T c : edge) {
        qa_lin(f.add(x, c), q, QA_ADD, x, c, 0, "add");
        qa_lin(f.add(c, x), q, QA_ADD, x, c, 0, "add");
        qa_lin(f.sub(x, c), q, QA_SUB, x, c, 0, "sub");
        qa_lin(f.sub(c, x), q, QA_SUB, c, x, 0, "sub");
        qa_lin(f.mul(x, c), q, QA_MUL, x, c, 0, "mul");
        qa_lin(f.mul(c, x), q, QA_MUL, x, c, 0, "mul");
    }
    qa_done();
}

// Any dividend; every divisor of a small field, else divisors at both ends of
// the field, around the powers of two and spread over the whole range.
template <typename T>
static void divide(uint64_t q, uint64_t all)
{
    auto f = gf::create<gf::Prime<T>>(T(q));
    T x = T(qa_u(0, q - 1, "x"));
    auto one = [&](uint64_t c) {
        if (c == 0 || c >= q)
            return;
        const T i = f.inv(T(c));
        qa_true(i < q && (unsigned __int128)(i) * c % q == 1, "inverse");
        qa_true(f.inv_exp(T(c)) == i, "inverse by exponentiation");
        qa_lin(f.mul(f.div(x, T(c)), T(c)), q, QA_SAME, x, 0, 0, "quotient times divisor");
        qa_true(f.div(0, T(c)) == 0, "zero divided");
    };
    if (q <= all) {
        for (uint64_t c = 1; c < q; ++c)
            one(c);
    } else {
        for (uint64_t c = 1; c <= all / 4; ++c)
            one(c), one(q - c);
        for (int b = 1; b < 64; ++b)
            for (uint64_t d = 0; d < 3; ++d)
                one((uint64_t(1) << b) - 1 + d);
        const uint64_t step = q / all;
        for (uint64_t i = 0, c = step / 2; i < all; ++i, c += step)
            one(c);
    }
    qa_done();
}

// squares of any element; powers of some elements, against square and multiply
// done here
template <typename T>
static void powers(uint64_t q)
{
    typedef unsigned __int128 W;
    auto f = gf::create<gf::Prime<T>>(T(q));
    T x = T(qa_u(0, q - 1, "x"));
    qa_true(f.exp(x, 0) == 1, "power zero");
    qa_eq(f.exp(x, 1), x, "power one");
    qa_lin(f.exp(x, 2), q, QA_MUL, x, x, 0, "square");
    const uint64_t bases[] = {0, 1, 2, 3, q / 2, q - 2, q - 1};
    const uint64_t exps[] = {q / 2, q / 2 + 1, q - 3, q - 2, q - 1};
    for (uint64_t b : bases)
        for (uint64_t k = 0; k < 45; ++k) {
            const uint64_t e = k < 40 ? k : exps[k - 40];
            uint64_t r = 1;
            for (int i = 63; i >= 0; --i) {
                r = uint64_t(W(r) * r % q);
                if ((e >> i) & 1)
                    r = uint64_t(W(r) * b % q);
            }
            if (e < q)
                qa_true(f.exp(T(b), T(e)) == r, "power");
        }
    qa_done();
}
#define F(T, Q, S, ALL) \
    extern "C" void qah_scalar_##S() { scalar<T>(Q); } \
    extern "C" void qah_divide_##S() { divide<T>(Q, ALL); } \
    extern "C" void qah_power_##S() { powers<T>(Q); }
F(uint32_t, 65537, u32_65537, 65537)
F(uint16_t, 257, u16_257, 400)
F(uint64_t, 65537, u64_65537, 400)
F(uint16_t, 97, u16_97, 400)
F(uint32_t, 257, u32_257, 400)
F(uint64_t, 4294991873, u64_4294991873, 4000)
F(uint32_t, 4294967291, u32_4294967291, 4000)
F(uint16_t, 65521, u16_65521, 4000)
F(uint32_t, 2147483647, u32_2147483647, 4000)
