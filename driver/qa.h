// Interface between the drivers and the abstract interpreter. None of these
// functions has a body: the drivers are never compiled to machine code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t qa_u(uint64_t lo, uint64_t hi, const char* name);
void qa_fill(void* p, uint64_t n, uint64_t unit, uint64_t lo, uint64_t hi,
             const char* name);
void qa_fill_opaque(void* p, uint64_t n, uint64_t unit, uint64_t lo,
                    uint64_t hi);
uint64_t qa_opaque(uint64_t lo, uint64_t hi);
void* qa_buf(uint64_t n, const char* name);
void qa_forbid(void* p, uint64_t n, int rd, int wr, const char* label);
void qa_allow(void* p);
void qa_mod(uint64_t q);
void qa_gf2(int on);
void qa_gcomb(uint64_t got, uint64_t n, uint64_t poly, const uint64_t* coefs,
              const void* xs, uint64_t unit, uint64_t count, const char* label);
void qa_limits(uint64_t pieces, uint64_t terms);
void qa_fail_alloc(uint64_t k);
uint64_t qa_fail_left();
uint64_t qa_live();
void qa_done();
void qa_fail(const char* label, const char* msg);
void qa_true(bool c, const char* label);
void qa_eq(uint64_t got, uint64_t want, const char* label);
void qa_eq_mem(const void* got, const void* want, uint64_t n, uint64_t unit,
               const char* label);
void qa_init_mem(const void* p, uint64_t n, const char* label);
uint64_t qa_snap(const void* p, uint64_t n);
void qa_unchanged(const void* p, uint64_t n, uint64_t id, const char* label);
enum { QA_ADD, QA_SUB, QA_NEG, QA_MUL, QA_MULADD, QA_MULSUB, QA_GS, QA_MUL_SUB, QA_SAME };
void qa_lin(uint64_t got, uint64_t q, int kind, uint64_t x, uint64_t y,
            uint64_t z, const char* label);
void qa_comb(uint64_t got, uint64_t q, const uint64_t* coefs, const void* xs,
             uint64_t unit, uint64_t n, const char* label);
void qa_rpn(uint64_t got, uint64_t q, const int32_t* prog, uint64_t len,
            const void* xs, uint64_t unit, uint64_t n, const char* label);
void qa_range(uint64_t x, uint64_t lo, uint64_t hi, const char* label);
int qa_decided(bool c);
void qa_assume(bool c);
// analyse f(arg) from here, then go on as if it had not been called
void qa_scope(void (*f)(uint64_t), uint64_t arg, const char* name);
void qa_print(const char* name, uint64_t v);
void* qa_istream(const void* data, uint64_t len);
void* qa_ostream(void* data, uint64_t cap);
uint64_t qa_stream_pos(void* s);
uint64_t qa_stream_calls(void* s);
}
// Symbolic words of a shape: a mask, in the first block only, and for large
// shapes: not all erasure patterns of m of n fragments.
enum : uint64_t {
    FIRST = uint64_t(1) << 63,
    SPREAD = uint64_t(1) << 62,
    TAIL = uint64_t(1) << 61, // word 1025
    THREE = uint64_t(1) << 60,
    LANE = uint64_t(1) << 59 // packed words: the last element only
};
static inline bool qa_sym(uint64_t sym, size_t word, int block)
{
    return ((sym & TAIL) && word == 1025 ? true : word < 59 && ((sym >> word) & 1)) && (!(sym & FIRST) || block == 0);
}
static inline bool qa_spread(unsigned lost, int n, int m)
{
    for (int step = 1; step <= 3; ++step)
        for (int s = 0; s < n; ++s) {
            unsigned p = 0;
            for (int j = 0; j < m; ++j)
                p |= 1u << ((s + j * step) % n);
            if (p == lost && __builtin_popcount(p) == m)
                return true;
        }
    return false;
}
static inline bool qa_pattern(uint64_t sym, unsigned lost, int n, int m)
{
    if (sym & THREE) { // the first ones, the last ones, some between
        unsigned mid = 0;
        for (int j = 0; j < m; ++j)
            mid |= 1u << (n > 2 * m ? 1 + 2 * j : n - 1 - j * n / m);
        return lost == (1u << m) - 1 || lost == ((1u << m) - 1) << (n - m) ||
               (lost == mid && __builtin_popcount(mid) == m);
    }
    if (sym & SPREAD)
        return qa_spread(lost, n, m);
    return __builtin_popcount(lost) <= m;
}
