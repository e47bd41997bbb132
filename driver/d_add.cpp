// Entry states for the additive transform over binary fields: any input
// polynomial, against its values at every point of the subspace.
#include "qa.h"
#include "quadiron.h"
#include "gf_bin_ext.h"
#include "fft_add.h"
#include "vec_vector.h"
#include "vec_zero_ext.h"
using namespace quadiron;

static uint64_t modulus(int n)
{
    return n == 4 ? 0x3 : n == 8 ? 0x1d : n == 16 ? 0x100b : n == 32 ? 0x8d : 0x1b;
}
static uint64_t gmul(uint64_t a, uint64_t b, int n)
{
    const uint64_t top = uint64_t(1) << (n - 1), mask = top | (top - 1);
    uint64_t r = 0;
    for (; b; b >>= 1) {
        if (b & 1)
            r ^= a;
        a = (a & top) ? ((a << 1) & mask) ^ modulus(n) : a << 1;
    }
    return r;
}

template <typename T>
struct Env {
    gf::BinExtension<T> f;
    fft::Additive<T> a;
    int bits, m, n;
    std::vector<uint64_t> basis, point;
    Env(int bits, int m, std::shared_ptr<vec::Vector<T>> (*mk)(const gf::Field<T>&, int))
        : f(gf::create<gf::BinExtension<T>>(bits)), a(f, T(m), mk ? mk(f, m) : nullptr),
          bits(bits), m(m), n(1 << m)
    {
        vec::Vector<T> b(f, n);
        a.compute_B(b);
        for (int i = 0; i < n; ++i)
            point.push_back(b.get(i));
        for (int i = 0; i < m; ++i)
            basis.push_back(b.get(1 << i));
        qa_eq(point[0], 0, "the subspace begins with zero");
        for (int i = 0; i < n; ++i) {
            uint64_t v = 0;
            for (int j = 0; j < m; ++j)
                if ((i >> j) & 1)
                    v ^= basis[j];
            qa_eq(point[i], v, "point i is the sum of the basis elements of the bits of i");
            for (int j = 0; j < i; ++j)
                qa_true(point[i] != point[j], "the points are distinct");
        }
        qa_gf2(1);
    }
};

template <typename T>
static void values(Env<T>& e, int n_in)
{
    const uint64_t max = e.bits == 64 ? ~uint64_t(0) : (uint64_t(1) << e.bits) - 1;
    vec::Vector<T> in(e.f, n_in), out(e.f, e.n), back(e.f, e.n);
    std::vector<T> x(n_in);
    qa_fill(x.data(), n_in, sizeof(T), 0, max, "x");
    for (int i = 0; i < n_in; ++i)
        in.set(i, x[i]);
    vec::ZeroExtended<T> ext(in, e.n);
    vec::Vector<T>& src = n_in == e.n ? in : ext;
    e.a.fft(out, src);
    std::vector<uint64_t> c(2 * n_in);
    for (int k = 0; k < e.n; ++k) {
        uint64_t p = 1;
        for (int j = 0; j < n_in; ++j, p = gmul(p, e.point[k], e.bits)) {
            c[j] = p;
        }
        qa_gcomb(out.get(k), e.bits, modulus(e.bits), c.data(), x.data(), sizeof(T), n_in,
                 "value at a point of the subspace");
    }
    if (n_in < e.n && e.m > 1 && (e.bits <= 8 || e.n <= 4)) { // after a longer one, whatever is left in the object
        vec::Vector<T> full(e.f, e.n), again(e.f, e.n);
        for (int i = 0; i < e.n; ++i)
            full.set(i, T(3 * i + 1) & max);
        e.a.fft(again, full);
        e.a.fft(again, in);
        for (int i = 0; i < e.n; ++i)
            qa_eq(again.get(i), out.get(i), "missing coefficients are zero");
    }
    for (int i = 0; i < n_in; ++i)
        qa_eq(in.get(i), x[i], "input modified");
    for (int k = 0; k < 2; ++k) {
        back.zero_fill();
        k ? e.a.ifft(back, out) : e.a.fft_inv(back, out);
        for (int i = 0; i < e.n; ++i)
            qa_eq(back.get(i), i < n_in ? x[i] : 0, "inverse of the transform");
    }
    qa_done();
}

template <typename T>
static std::shared_ptr<vec::Vector<T>> odd_basis(const gf::Field<T>& f, int m)
{
    // 5, 10, 20, ...: the last one is not one
    auto b = std::make_shared<vec::Vector<T>>(f, m);
    for (int i = 0; i < m; ++i)
        b->set(i, T(5) << i);
    return b;
}

template <typename T>
static void add(int bits, int lo, int hi, bool other)
{
    for (int m = lo; m <= hi; ++m) {
        Env<T> e(bits, m, other ? odd_basis<T> : nullptr);
        for (int ni = 1; ni <= e.n; ++ni)
            if (e.n <= 8 || ni == e.n || ni == e.n / 2 + 1 || ni == 3)
                values<T>(e, ni);
    }
    qa_done();
}

// f = sum of h_i (x^t - x)^i, for each number of coefficients
template <typename T>
static void taylor(int bits, int m)
{
    Env<T> e(bits, m, nullptr);
    for (int t = 2; t < e.n; ++t)
        for (int n = t + 1; n <= e.n; ++n) {
            if (n > 9 && n != e.n && n != e.n - 1 && n != 2 * t)
                continue;
            vec::Vector<T> in(e.f, n), out(e.f, n), back(e.f, n);
            std::vector<T> x(n);
            qa_fill(x.data(), n, sizeof(T), 0, (uint64_t(1) << bits) - 1, "x");
            for (int i = 0; i < n; ++i)
                in.set(i, x[i]);
            e.a.taylor_expand(out, in, n, t);
            for (int i = 0; i < n; ++i)
                qa_eq(in.get(i), x[i], "input modified");
            const int blocks = (n + t - 1) / t, len = blocks * t + t;
            std::vector<T> acc(len, 0);
            for (int b = blocks - 1; b >= 0; --b) {
                std::vector<T> nx(len, 0);
                for (int i = 0; i < len; ++i) {
                    if (i + t < len)
                        nx[i + t] ^= acc[i];
                    if (i + 1 < len)
                        nx[i + 1] ^= acc[i];
                }
                for (int i = 0; i < t && b * t + i < n; ++i)
                    nx[i] ^= out.get(b * t + i);
                acc = nx;
            }
            for (int i = 0; i < len; ++i)
                qa_eq(acc[i], i < n ? x[i] : 0, "the expansion adds up to the polynomial");
            vec::Vector<T> pad(e.f, blocks * t);
            pad.zero_fill();
            for (int i = 0; i < n; ++i)
                pad.set(i, out.get(i));
            e.a.inv_taylor_expand(back, pad, t);
            for (int i = 0; i < n; ++i)
                qa_eq(back.get(i), x[i], "inverse of the expansion");
        }
    qa_done();
}

#define H(NAME, T, BITS, LO, HI, OTHER) \
    extern "C" void qah_add_##NAME() { add<T>(BITS, LO, HI, OTHER); }
H(4, uint32_t, 4, 1, 4, false)
H(8, uint32_t, 8, 1, 5, false)
H(8_u16, uint16_t, 8, 1, 4, false)
H(16, uint32_t, 16, 1, 5, false)
H(16_u64, uint64_t, 16, 1, 4, false)
H(32, uint32_t, 32, 1, 4, false)
H(32_u64, uint64_t, 32, 1, 3, false)
H(8_basis, uint32_t, 8, 1, 5, true)
H(16_basis, uint32_t, 16, 1, 5, true)
H(32_basis, uint32_t, 32, 1, 4, true)
extern "C" void qah_add_taylor_8() { taylor<uint32_t>(8, 4); }
extern "C" void qah_add_taylor_16() { taylor<uint32_t>(16, 4); }
