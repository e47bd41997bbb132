// Entry states for the radix-2 transforms: every coefficient is an arbitrary
// field element, the packet length covers vector bodies and remainders.
#include "qa.h"
#include "quadiron.h"
#include "gf_prime.h"
#include "fft_2n.h"
#include "vec_vector.h"
#include "vec_buffers.h"
using namespace quadiron;

static uint64_t mpow(uint64_t b, uint64_t e, uint64_t q)
{
    uint64_t r = 1;
    for (; e; e >>= 1, b = b * b % q)
        if (e & 1)
            r = r * b % q;
    return r;
}

template <typename T>
struct Env {
    gf::Prime<T> f;
    uint64_t q, w, iw, in;
    int n;
    Env(uint64_t q, int n) : f(gf::create<gf::Prime<T>>(T(q))), q(q), n(n)
    {
        w = f.get_nth_root(n);
        qa_true(mpow(w, n, q) == 1 && (n == 1 || mpow(w, n / 2, q) == q - 1),
                "root of unity of order n");
        iw = mpow(w, q - 2, q);
        in = mpow(n, q - 2, q);
    }
    // coefficients of output k of the direct / inverse transform
    void coefs(uint64_t* c, uint64_t root, uint64_t scale, int k, int n_in) const
    {
        for (int j = 0; j < n_in; ++j)
            c[j] = mpow(root, uint64_t(j) * k % n, q) * scale % q;
    }
};

enum Kind { FFT, IFFT, INV };
static const char* name[] = {"fft", "ifft", "fft_inv"};

// n_in inputs, the transform is built for data_len of them
template <typename T>
static void vect(uint64_t q, int n, int n_in, int data_len, Kind kind)
{
    Env<T> e(q, n);
    fft::Radix2<T> r(e.f, n, data_len, 1);
    vec::Vector<T> in(e.f, n_in), out(e.f, n);
    std::vector<T> x(n_in);
    qa_fill(x.data(), n_in, sizeof(T), 0, q - 1, "x");
    for (int i = 0; i < n_in; ++i)
        in.set(i, x[i]);
    qa_mod(q);
    if (kind == FFT) r.fft(out, in);
    if (kind == IFFT) r.ifft(out, in);
    if (kind == INV) r.fft_inv(out, in);
    qa_mod(0);
    uint64_t c[256];
    for (int k = 0; k < n; ++k) {
        e.coefs(c, kind == FFT ? e.w : e.iw, kind == IFFT ? e.in : 1, k, n_in);
        qa_comb(out.get(k), q, c, x.data(), sizeof(T), n_in, name[kind]);
    }
    qa_done();
}

template <typename T>
static void bufs(uint64_t q, int n, int n_in, int data_len, size_t pkt, Kind kind)
{
    Env<T> e(q, n);
    fft::Radix2<T> r(e.f, n, data_len, pkt);
    std::vector<T*> im, om;
    for (int i = 0; i < n_in; ++i) {
        im.push_back(static_cast<T*>(qa_buf(pkt * sizeof(T), "input")));
        qa_fill(im[i], pkt, sizeof(T), 0, q - 1, "x");
    }
    for (int i = 0; i < n; ++i)
        om.push_back(static_cast<T*>(qa_buf(pkt * sizeof(T), "output")));
    vec::Buffers<T> in(n_in, pkt, im), out(n, pkt, om);
    std::vector<uint64_t> id;
    for (int i = 0; i < n_in; ++i)
        id.push_back(qa_snap(im[i], pkt * sizeof(T)));
    qa_mod(q);
    if (kind == FFT) r.fft(out, in);
    if (kind == IFFT) r.ifft(out, in);
    if (kind == INV) r.fft_inv(out, in);
    qa_mod(0);
    uint64_t c[256];
    std::vector<T> x(n_in);
    for (int k = 0; k < n; ++k) {
        e.coefs(c, kind == FFT ? e.w : e.iw, kind == IFFT ? e.in : 1, k, n_in);
        for (size_t p = 0; p < pkt; ++p) {
            for (int i = 0; i < n_in; ++i)
                x[i] = im[i][p];
            qa_comb(out.get(k)[p], q, c, x.data(), sizeof(T), n_in, name[kind]);
        }
    }
    for (int i = 0; i < n_in; ++i)
        qa_unchanged(im[i], pkt * sizeof(T), id[i], "transform: input modified");
    qa_done();
}

template <typename T>
static void run_vect(uint64_t q, Kind kind)
{
    for (int n = 2; n <= 16; n *= 2) {
        if (kind != FFT) {
            vect<T>(q, n, n, n, kind);
            continue;
        }
        for (int dl = 1; dl <= n; dl *= 2) {
            for (int ni = 1; ni <= dl; ++ni)
                if (n <= 8 || ni == dl || ni == dl / 2 + 1)
                    vect<T>(q, n, ni, dl, kind);
        }
        // more inputs than declared
        vect<T>(q, n, n, 1, kind);
    }
}

template <typename T>
static void run_bufs(uint64_t q, Kind kind)
{
    const size_t W = 32 / sizeof(T);
    for (int n = 2; n <= 16; n *= 2) {
        const size_t pk[] = {1, W, W + 3, 2 * W + 1};
        for (int i = 0; i < 4; ++i) {
            if (n == 16 && i >= 1 && i != 2)
                continue;
            for (int ni = 1; ni <= n; ++ni) {
                if (i && ni != n && ni != n / 2 + 1 && ni != n / 4 + 1)
                    continue;
                if (n == 16 && ni != 16 && ni != 5 && ni != 9 && ni != 2)
                    continue;
                if (kind == FFT) {
                    int dl = 1;
                    while (dl < ni)
                        dl *= 2;
                    bufs<T>(q, n, ni, dl, pk[i], kind);
                    if (i == 0 && dl < n)
                        bufs<T>(q, n, ni, n, pk[i], kind);
                    if (i == 0 && ni == n)
                        bufs<T>(q, n, ni, 1, pk[i], kind);
                } else
                    bufs<T>(q, n, ni, n, pk[i], kind);
            }
        }
    }
}
// larger transforms: few of the inputs, or all of them on single symbols
template <typename T>
static void run_large(uint64_t q, Kind kind)
{
    const size_t W = 32 / sizeof(T);
    for (int n = 32; n <= 256; n *= 2) {
        const int some[] = {3, n / 2 + 1, n};
        for (int ni : some) {
            int dl = 1;
            while (dl < ni)
                dl *= 2;
            if (kind == FFT || ni == n)
                vect<T>(q, n, kind == FFT ? ni : n, kind == FFT ? dl : n, kind);
            if (n > 64 && ni == n && kind != FFT)
                continue;
            if (n == 32 || ni == 3)
                bufs<T>(q, n, ni, kind == FFT ? dl : n, 1, kind);
            if (ni == 3)
                bufs<T>(q, n, ni, kind == FFT ? dl : n, W + 1, kind);
        }
    }
    // longer packets
    const size_t pk[] = {4 * W, 5 * W - 1, 8 * W + 3, 16 * W + 1};
    for (size_t p : pk) {
        bufs<T>(q, 4, 3, 4, p, kind);
        bufs<T>(q, 8, 8, 8, p, kind);
    }
}
// one object, one transform after the other, into the same output
template <typename T>
static void again(uint64_t q, int n, int data_len, size_t pkt)
{
    struct Step {
        Kind kind;
        int n_in;
    };
    const Step steps[] = {{FFT, n}, {FFT, 1}, {INV, n}, {FFT, n / 2}, {FFT, n / 2 + 1},
                          {IFFT, n}, {FFT, n - 1}, {INV, n}, {IFFT, n}, {FFT, n}};
    Env<T> e(q, n);
    fft::Radix2<T> r(e.f, n, data_len, pkt ? pkt : 1);
    vec::Vector<T> out(e.f, n);
    std::vector<T*> om;
    for (int i = 0; i < n; ++i)
        om.push_back(static_cast<T*>(qa_buf((pkt + 1) * sizeof(T), "output")));
    vec::Buffers<T> bout(n, pkt ? pkt : 1, om);
    for (const Step& s : steps) {
        const size_t words = pkt ? pkt : 1;
        if (s.n_in > data_len && (s.n_in & (s.n_in - 1)))
            continue; // more inputs than declared
        std::vector<T*> im;
        for (int i = 0; i < s.n_in; ++i) {
            im.push_back(static_cast<T*>(qa_buf(words * sizeof(T), "input")));
            qa_fill(im[i], words, sizeof(T), 0, q - 1, "x");
        }
        qa_mod(q);
        if (pkt) {
            vec::Buffers<T> in(s.n_in, pkt, im);
            if (s.kind == FFT) r.fft(bout, in);
            if (s.kind == IFFT) r.ifft(bout, in);
            if (s.kind == INV) r.fft_inv(bout, in);
        } else {
            vec::Vector<T> in(e.f, s.n_in);
            for (int i = 0; i < s.n_in; ++i)
                in.set(i, *im[i]);
            if (s.kind == FFT) r.fft(out, in);
            if (s.kind == IFFT) r.ifft(out, in);
            if (s.kind == INV) r.fft_inv(out, in);
        }
        qa_mod(0);
        uint64_t c[256];
        std::vector<T> x(s.n_in);
        for (int k = 0; k < n; ++k) {
            e.coefs(c, s.kind == FFT ? e.w : e.iw, s.kind == IFFT ? e.in : 1, k, s.n_in);
            for (size_t p = 0; p < words; ++p) {
                for (int i = 0; i < s.n_in; ++i)
                    x[i] = im[i][p];
                qa_comb(pkt ? bout.get(k)[p] : out.get(k), q, c, x.data(), sizeof(T), s.n_in, name[s.kind]);
            }
        }
    }
    qa_done();
}
template <typename T>
static void run_again(uint64_t q)
{
    const size_t W = 32 / sizeof(T);
    for (int n = 4; n <= 8; n *= 2) {
        again<T>(q, n, n, 0);
        again<T>(q, n, 1, 0);
        again<T>(q, n, n, W + 3);
        again<T>(q, n, n / 2, W);
    }
}
#define H(T, Q, S) \
    extern "C" void qah_fft_again_##S() { run_again<T>(Q); } \
    extern "C" void qah_fft_vec_##S() { run_vect<T>(Q, FFT); } \
    extern "C" void qah_ifft_vec_##S() { run_vect<T>(Q, IFFT); } \
    extern "C" void qah_fftinv_vec_##S() { run_vect<T>(Q, INV); } \
    extern "C" void qah_fft_large_##S() { run_large<T>(Q, FFT); } \
    extern "C" void qah_ifft_large_##S() { run_large<T>(Q, IFFT); } \
    extern "C" void qah_fftinv_large_##S() { run_large<T>(Q, INV); } \
    extern "C" void qah_fft_buf_##S() { run_bufs<T>(Q, FFT); } \
    extern "C" void qah_ifft_buf_##S() { run_bufs<T>(Q, IFFT); } \
    extern "C" void qah_fftinv_buf_##S() { run_bufs<T>(Q, INV); }
H(uint16_t, 257, u16_257)
H(uint32_t, 65537, u32_65537)
