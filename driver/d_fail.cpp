// Entry states for failures inside the C interface: every allocation fails in
// turn, headers do not fit, instances are not supported.
#include "qa.h"
#include "quadiron.h"
extern "C" {
#include "quadiron_c.h"
}
using namespace quadiron;

static uint8_t* bytes(size_t n, const char* name)
{
    return static_cast<uint8_t*>(qa_buf(n, name));
}

extern "C" void qah_fail_new()
{
    const int ws[] = {-2, -1, 0, 1, 2, 3, 4, 8};
    const int km[][2] = {{1, 1}, {3, 2}, {9, 3}, {2, 5}};
    uint64_t before = qa_live();
    for (int w : ws)
        for (auto& s : km)
            for (int sys = 0; sys < 2; ++sys) {
                QuadironFnt32* h = quadiron_fnt32_new(w, s[0], s[1], sys);
                qa_true((h != nullptr) == (w == 1 || w == 2),
                        "an instance is created for supported word sizes only");
                if (h)
                    quadiron_fnt32_delete(h);
                qa_eq(qa_live(), before, "everything is released");
            }
    // more fragments than the field has points
    const int big[][3] = {{1, 200, 100}, {1, 256, 1}, {1, 1, 256}, {2, 65536, 1}, {2, 1, 65536}};
    for (auto& s : big)
        for (int sys = 0; sys < 2; ++sys) {
            qa_true(quadiron_fnt32_new(s[0], s[1], s[2], sys) == nullptr,
                    "no instance for more fragments than supported");
            qa_eq(qa_live(), before, "everything is released");
        }
    qa_done();
}

struct Blocks {
    QuadironFnt32* h;
    int ws, k, m, n, sys;
    size_t words, bs, meta;
    uint8_t *data[4], *par[4], *orig[4];
    int wanted[8], missing[8];
    Blocks(int ws, int k, int m, int sys, size_t words)
        : ws(ws), k(k), m(m), n(k + m), sys(sys), words(words), bs(words * ws)
    {
        h = quadiron_fnt32_new(ws, k, m, sys);
        qa_true(h != nullptr, "instance created");
        meta = size_t(quadiron_fnt32_get_metadata_size(h, bs));
        for (int i = 0; i < k; ++i) {
            data[i] = bytes(meta + bs, "data");
            orig[i] = bytes(bs, "original");
        }
        for (int i = 0; i < m; ++i)
            par[i] = bytes(meta + bs, "parity");
        for (int i = 0; i < n; ++i) {
            wanted[i] = 1;
            missing[i] = 0;
        }
        refill();
    }
    ~Blocks()
    {
        quadiron_fnt32_delete(h);
    }
    void set(int i, size_t j, unsigned v)
    {
        for (int b = 0; b < ws; ++b)
            data[i][meta + j * ws + b] = orig[i][j * ws + b] = uint8_t(v >> (8 * b));
    }
    unsigned word(const uint8_t* p, size_t j) const
    {
        unsigned v = 0;
        for (int b = 0; b < ws; ++b)
            v |= unsigned(p[meta + j * ws + b]) << (8 * b);
        return v;
    }
    void refill()
    {
        for (int i = 0; i < k; ++i)
            for (size_t j = 0; j < words; ++j)
                set(i, j, unsigned(17 * i + 3 * j + 1));
    }
    void restore()
    {
        for (int i = 0; i < k; ++i)
            for (size_t j = 0; j < bs; ++j)
                data[i][meta + j] = orig[i][j];
    }
    int encode()
    {
        return quadiron_fnt32_encode(h, data, par, wanted, bs);
    }
    int decode()
    {
        return quadiron_fnt32_decode(h, data, par, missing, bs);
    }
    uint8_t*& frag(int i)
    {
        return i < k ? data[i] : par[i - k];
    }
};

// ----------------------------------------------------- failing allocations
// the operation must report the failure, release what it had allocated, and
// leave the instance usable
enum Op { ENC, DEC, REC };
static void alloc_op(int ws, int k, int m, int sys, Op op)
{
    Blocks c(ws, k, m, sys, 3);
    // the first word of each block is arbitrary
    for (int i = 0; i < k; ++i) {
        qa_fill(c.orig[i], 1, ws, 0, ws == 1 ? 255 : 65535, "d");
        for (int b = 0; b < ws; ++b)
            c.data[i][c.meta + b] = c.orig[i][b];
    }
    qa_mod(ws == 1 ? 257 : 65537);
    // reference
    qa_true(c.encode() == 0, "encode succeeds");
    std::vector<std::vector<uint8_t>> ref;
    for (int i = 0; i < c.n; ++i)
        ref.emplace_back(c.frag(i), c.frag(i) + c.meta + c.bs);
    const int lost = 0;
    unsigned failed = 0;
    for (uint64_t a = 1; a < 100000; ++a) {
        if (op == ENC)
            c.restore();
        else {
            for (int i = 0; i < c.n; ++i)
                for (size_t j = 0; j < c.meta + c.bs; ++j)
                    c.frag(i)[j] = i == lost ? 0xee : ref[i][j];
            c.missing[lost] = 1;
        }
        uint64_t before = qa_live();
        qa_fail_alloc(a);
        int r = op == ENC   ? c.encode()
                : op == DEC ? c.decode()
                            : quadiron_fnt32_reconstruct(
                                  c.h, c.data, c.par, c.missing, unsigned(lost), c.bs);
        bool hit = qa_fail_left() == 0;
        qa_fail_alloc(0);
        qa_eq(qa_live(), before, "everything is released");
        if (hit) {
            qa_true(r == -1, "a failed allocation is reported");
            failed++;
            continue;
        }
        qa_true(r == 0, "the instance works after failures");
        if (op == DEC) {
            for (int i = 0; i < c.k; ++i)
                qa_eq_mem(c.data[i] + c.meta, c.orig[i], c.words, c.ws,
                          "the instance works after failures");
        } else
            for (int i = 0; i < c.n; ++i)
                if (op == ENC || i == lost) {
                    qa_eq_mem(c.frag(i), ref[i].data(), c.meta, 1,
                              "the instance works after failures");
                    qa_eq_mem(c.frag(i) + c.meta, ref[i].data() + c.meta, c.words,
                              c.ws, "the instance works after failures");
                }
        break;
    }
    qa_true(failed > 0, "the operation allocates");
}
static void alloc_new(int ws, int k, int m, int sys)
{
    uint64_t before = qa_live();
    for (uint64_t a = 1; a < 100000; ++a) {
        qa_fail_alloc(a);
        QuadironFnt32* h = quadiron_fnt32_new(ws, k, m, sys);
        bool hit = qa_fail_left() == 0;
        qa_fail_alloc(0);
        qa_true((h == nullptr) == hit, "no instance when an allocation fails");
        if (h)
            quadiron_fnt32_delete(h);
        qa_eq(qa_live(), before, "everything is released");
        if (!hit)
            break;
    }
    qa_done();
}
#define A(S, ...) \
    extern "C" void qah_alloc_enc_##S() { alloc_op(__VA_ARGS__, ENC); qa_done(); } \
    extern "C" void qah_alloc_dec_##S() { alloc_op(__VA_ARGS__, DEC); qa_done(); } \
    extern "C" void qah_alloc_rec_##S() { alloc_op(__VA_ARGS__, REC); qa_done(); } \
    extern "C" void qah_alloc_new_##S() { alloc_new(__VA_ARGS__); }
A(w2_s21, 2, 2, 1, 1)
A(w2_n21, 2, 2, 1, 0)
A(w1_s12, 1, 1, 2, 1)
A(w1_n22, 1, 2, 2, 0)

// ----------------------------------------------------- headers which overflow
// the first `marks` symbols of the fragment `dst` have the top value; `m`
// parities
struct Over {
    int sys, m;
    size_t marks;
};
static Over g_o;
static void header(uint64_t arg)
{
    const unsigned q = 65537;
    const int sys = g_o.sys, dst = int(arg);
    const size_t marks = g_o.marks;
    Blocks c(2, 2, g_o.m, sys, 20);
    const size_t cap = c.meta / 4 - 2;
    const int lost = dst == 1 ? 0 : 1;
    // the fragment is a linear combination of the data
    unsigned co[2];
    for (int i = 0; i < 2; ++i) {
        for (int j = 0; j < 2; ++j)
            for (size_t t = 0; t < c.words; ++t)
                c.set(j, t, j == i && t == 0 ? 2 : 0);
        qa_true(c.encode() == 0, "encode succeeds");
        co[i] = unsigned(c.word(c.frag(dst), 0) * uint64_t(q / 2 + 1) % q);
    }
    unsigned d0 = 0, d1 = 0;
    for (d1 = 1; d1 < 64; ++d1) {
        uint64_t inv = 1, b = co[0];
        for (unsigned e = q - 2; e; e >>= 1, b = b * b % q)
            if (e & 1)
                inv = inv * b % q;
        d0 = unsigned((q - 1 + q - uint64_t(co[1]) * d1 % q) % q * inv % q);
        if (d0 < q - 1)
            break;
    }
    c.refill();
    auto load = [&] {
        for (size_t t = 0; t < c.words; ++t) {
            c.set(0, t, t < marks ? d0 : 0);
            c.set(1, t, t < marks ? d1 : 0);
        }
    };
    load();
    int r = c.encode();
    qa_true(r == (marks <= cap ? 0 : -1), "a header which does not fit is reported");
    if (r == 0) {
        const uint32_t* h = reinterpret_cast<uint32_t*>(c.frag(dst));
        qa_eq(ntohl(h[1]), marks, "the header counts the escaped symbols");
        c.missing[lost] = 1;
        qa_true(c.decode() == 0, "decode succeeds");
        for (int i = 0; i < 2; ++i)
            qa_eq_mem(c.data[i] + c.meta, c.orig[i], c.bs, 1, "decoded data");
        c.missing[lost] = 0;
    }
    // not wanted: encode succeeds, but the fragment cannot be rebuilt
    load();
    c.wanted[sys ? dst - 2 : dst] = 0;
    r = c.encode();
    qa_true(r == 0, "an unwanted fragment has no header");
    c.missing[dst] = 1;
    uint8_t* out = bytes(c.meta + c.bs, "rebuilt");
    c.frag(dst) = out;
    r = quadiron_fnt32_reconstruct(c.h, c.data, c.par, c.missing, unsigned(dst), c.bs);
    qa_true(r == (marks <= cap ? 0 : -1), "a header which does not fit is reported");
    qa_done();
}
static void over(int sys, int m, size_t marks)
{
    g_o = {sys, m, marks};
    for (int dst = sys ? 2 : 0; dst < 2 + m; ++dst)
        qa_scope(header, uint64_t(dst), "fragment");
    qa_done();
}
extern "C" void qah_over_s14() { over(1, 1, 14); }
extern "C" void qah_over_s15() { over(1, 1, 15); }
extern "C" void qah_over_s20() { over(1, 2, 20); }
extern "C" void qah_over_n14() { over(0, 1, 14); }
extern "C" void qah_over_n15() { over(0, 1, 15); }
extern "C" void qah_over_n20() { over(0, 2, 20); }
