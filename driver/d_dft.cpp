// Entry states for the other transforms: naive, Cooley-Tukey, Good-Thomas,
// two points, one point; every input element is arbitrary.
#include "qa.h"
#include "quadiron.h"
#include "fft_ct.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_naive.h"
#include "fft_single.h"
using namespace quadiron;

static uint64_t mpow(uint64_t b, uint64_t e, uint64_t q)
{
    uint64_t r = 1;
    for (; e; e >>= 1, b = b * b % q)
        if (e & 1)
            r = r * b % q;
    return r;
}

enum Kind { FFT, IFFT, INV };
static const char* name[] = {"fft", "ifft", "fft_inv"};

// the root must have order exactly n
static void order(uint64_t w, int n, uint64_t q)
{
    uint64_t x = 1;
    bool ok = w > 0 && w < q;
    for (int i = 1; i <= n; ++i) {
        x = x * w % q;
        ok = ok && ((x == 1) == (i == n));
    }
    qa_true(ok, "root of unity of order n");
}

template <typename T>
static void
coefs(uint64_t* c, Kind kind, uint64_t w, uint64_t q, int n, int k)
{
    uint64_t r = kind == FFT ? w : mpow(w, q - 2, q);
    uint64_t s = kind == IFFT ? mpow(n, q - 2, q) : 1;
    for (int j = 0; j < n; ++j)
        c[j] = mpow(r, uint64_t(j) * k % n, q) * s % q;
}

template <typename T>
static void vect(fft::FourierTransform<T>& t, uint64_t q, uint64_t w, int n)
{
    vec::Vector<T> out(t.get_gf(), n); // keeps what was there before
    for (int kk = 0; kk < 4; ++kk) {
        Kind kind = Kind(kk % 3);
        vec::Vector<T> in(t.get_gf(), n);
        std::vector<T> x(n);
        qa_fill(x.data(), n, sizeof(T), 0, q - 1, "x");
        for (int i = 0; i < n; ++i)
            in.set(i, x[i]);
        qa_mod(q);
        if (kind == FFT) t.fft(out, in);
        if (kind == IFFT) t.ifft(out, in);
        if (kind == INV) t.fft_inv(out, in);
        qa_mod(0);
        uint64_t c[64];
        for (int k = 0; k < n; ++k) {
            coefs<T>(c, kind, w, q, n, k);
            qa_comb(out.get(k), q, c, x.data(), sizeof(T), n, name[kind]);
        }
        for (int i = 0; i < n; ++i)
            qa_eq(in.get(i), x[i], "transform: input modified");
    }
}

template <typename T>
static void
bufs(fft::FourierTransform<T>& t, uint64_t q, uint64_t w, int n, size_t pkt)
{
    std::vector<T*> om; // keep what was there before
    for (int i = 0; i < n; ++i)
        om.push_back(static_cast<T*>(qa_buf(pkt * sizeof(T), "output")));
    for (int kk = 0; kk < 4; ++kk) {
        Kind kind = Kind(kk % 3);
        std::vector<T*> im;
        for (int i = 0; i < n; ++i) {
            im.push_back(static_cast<T*>(qa_buf(pkt * sizeof(T), "input")));
            qa_fill(im[i], pkt, sizeof(T), 0, q - 1, "x");
        }
        vec::Buffers<T> in(n, pkt, im), out(n, pkt, om);
        std::vector<uint64_t> id;
        for (int i = 0; i < n; ++i)
            id.push_back(qa_snap(im[i], pkt * sizeof(T)));
        qa_mod(q);
        if (kind == FFT) t.fft(out, in);
        if (kind == IFFT) t.ifft(out, in);
        if (kind == INV) t.fft_inv(out, in);
        qa_mod(0);
        uint64_t c[64];
        std::vector<T> x(n);
        for (int k = 0; k < n; ++k) {
            coefs<T>(c, kind, w, q, n, k);
            for (size_t p = 0; p < pkt; ++p) {
                for (int i = 0; i < n; ++i)
                    x[i] = im[i][p];
                qa_comb(out.get(k)[p], q, c, x.data(), sizeof(T), n, name[kind]);
            }
        }
        for (int i = 0; i < n; ++i)
            qa_unchanged(im[i], pkt * sizeof(T), id[i], "transform: input modified");
    }
}

template <typename T>
static void naive(uint64_t q, int n)
{
    auto f(gf::create<gf::Prime<T>>(T(q)));
    uint64_t w = f.get_nth_root(n);
    order(w, n, q);
    {
        fft::Naive<T> t(f, n, T(w));
        vect<T>(t, q, w, n);
    }
    const size_t W = 32 / sizeof(T);
    const size_t pk[] = {1, W, W + 3};
    for (size_t p : pk) {
        if (n > 6 && p > 1)
            continue;
        fft::Naive<T> t(f, n, T(w), p);
        bufs<T>(t, q, w, n, p);
    }
}

template <typename T>
static void ct(uint64_t q, int n)
{
    auto f(gf::create<gf::Prime<T>>(T(q)));
    uint64_t w = f.get_nth_root(n);
    order(w, n, q);
    fft::CooleyTukey<T> t(f, n);
    vect<T>(t, q, w, n);
}

template <typename T>
static void gt(uint64_t q, int n)
{
    auto f(gf::create<gf::Prime<T>>(T(q)));
    uint64_t w = f.get_nth_root(n);
    order(w, n, q);
    fft::GoodThomas<T> t(f, n);
    vect<T>(t, q, w, n);
}

template <typename T>
static void large(uint64_t q, int l)
{
    auto f(gf::create<gf::Prime<T>>(T(q)));
    const int n = 1 << l;
    uint64_t w = f.get_nth_root(n);
    order(w, n, q);
    fft::Large<T> t(f, l, T(w));
    vect<T>(t, q, w, n);
}

template <typename T>
static void size2(uint64_t q)
{
    auto f(gf::create<gf::Prime<T>>(T(q)));
    fft::Size2<T> t(f);
    vect<T>(t, q, q - 1, 2);
    const size_t W = 32 / sizeof(T);
    const size_t pk[] = {1, W, W + 3, 2 * W + 1};
    for (size_t p : pk)
        bufs<T>(t, q, q - 1, 2, p);
}

// all inputs but the first are zero: the transform is constant
template <typename T>
static void single(uint64_t q, int n)
{
    auto f(gf::create<gf::Prime<T>>(T(q)));
    fft::Single<T> t(f, n);
    uint64_t one = 1;
    for (int kk = 0; kk < 3; ++kk) {
        Kind kind = Kind(kk);
        T x;
        qa_fill(&x, 1, sizeof(T), 0, q - 1, "x");
        vec::Vector<T> in(f, n), out(f, n);
        in.fill(kind == IFFT ? x : T(0));
        in.set(0, x);
        qa_mod(q);
        if (kind == FFT) t.fft(out, in);
        if (kind == IFFT) t.ifft(out, in);
        if (kind == INV) t.fft_inv(out, in);
        qa_mod(0);
        for (int i = 0; i < n; ++i) {
            one = kind != IFFT || i == 0;
            qa_comb(out.get(i), q, &one, &x, sizeof(T), 1, name[kind]);
        }
        for (size_t p = 1; p < 20; p += 5) {
            vec::Buffers<T> bi(n, p), bo(n, p);
            for (int i = 0; i < n; ++i)
                for (size_t j = 0; j < p; ++j)
                    bi.get(i)[j] = 0;
            qa_fill(bi.get(0), p, sizeof(T), 0, q - 1, "x");
            if (kind == IFFT)
                for (int i = 1; i < n; ++i)
                    for (size_t j = 0; j < p; ++j)
                        bi.get(i)[j] = bi.get(0)[j];
            qa_mod(q);
            if (kind == FFT) t.fft(bo, bi);
            if (kind == IFFT) t.ifft(bo, bi);
            if (kind == INV) t.fft_inv(bo, bi);
            qa_mod(0);
            for (int i = 0; i < n; ++i)
                for (size_t j = 0; j < p; ++j) {
                    one = kind != IFFT || i == 0;
                    qa_comb(bo.get(i)[j], q, &one, &bi.get(0)[j], sizeof(T), 1, name[kind]);
                }
        }
    }
}

#define EACH(S, CALL) \
    extern "C" void qah_dft_##S() { CALL; qa_done(); }
EACH(naive_31, for (int n : {2, 3, 5, 6, 10}) naive<uint32_t>(31, n))
EACH(naive_257, for (int n : {2, 4, 8}) naive<uint16_t>(257, n))
EACH(naive_65537, for (int n : {2, 4, 8}) naive<uint32_t>(65537, n))
EACH(naive64_65537, for (int n : {2, 4}) naive<uint64_t>(65537, n))
EACH(ct_31, for (int n : {2, 3, 5, 6, 10, 15, 30}) ct<uint32_t>(31, n))
EACH(ct_13, for (int n : {4, 6, 12}) ct<uint32_t>(13, n))
EACH(ct_257, for (int n : {2, 4, 8, 16}) ct<uint16_t>(257, n))
EACH(ct_65537, for (int n : {2, 4, 8, 16}) ct<uint32_t>(65537, n))
EACH(gt_31, for (int n : {2, 3, 5, 6, 10, 15, 30}) gt<uint32_t>(31, n))
EACH(gt_13, for (int n : {3, 6, 12}) gt<uint32_t>(13, n))
EACH(size2_31, size2<uint32_t>(31))
EACH(size2_257, size2<uint16_t>(257))
EACH(size2_65537, size2<uint32_t>(65537))
EACH(size2_64, size2<uint64_t>(65537))
EACH(single_31, for (int n : {1, 5}) single<uint32_t>(31, n))
EACH(single_257, for (int n : {1, 4}) single<uint16_t>(257, n))
EACH(single_65537, for (int n : {1, 8}) single<uint32_t>(65537, n))
EACH(large_257, for (int l : {1, 2, 3, 4}) large<uint16_t>(257, l))
EACH(large_65537, for (int l : {1, 2, 3, 4}) large<uint32_t>(65537, l))
