// Entry states for the C interface: encode, lose fragments, decode or
// reconstruct. Payload symbols marked symbolic are arbitrary.
#include "qa.h"
#include "quadiron.h"
#include "wide.h"
extern "C" {
#include "quadiron_c.h"
}
using namespace quadiron;

struct Shape {
    int ws, k, m, sys;
    size_t words;
    uint64_t sym;
};
static const Shape* g;
static QuadironFnt32* g_h;

static uint8_t* bytes(size_t n, const char* name)
{
    return static_cast<uint8_t*>(qa_buf(n, name));
}

struct Code {
    QuadironFnt32* h;
    int k, m, n, sys, nout, ws;
    size_t bs, meta;
    uint8_t *data[256], *par[256], *orig[256];
    int wanted[512], missing[512];
    Code() : h(g_h), k(g->k), m(g->m), n(k + m), sys(g->sys), ws(g->ws)
    {
        bs = g->words * ws;
        nout = sys ? m : n;
        meta = size_t(quadiron_fnt32_get_metadata_size(h, bs));
        for (int i = 0; i < k; ++i) {
            data[i] = bytes(meta + bs, "data");
            orig[i] = bytes(bs, "original");
            for (size_t j = 0; j < g->words; ++j)
                if (qa_sym(g->sym, j, i))
                    qa_fill(data[i] + meta + j * ws, 1, ws, 0, ws == 1 ? 255 : 65535, "d");
                else
                    for (int b = 0; b < ws; ++b)
                        data[i][meta + j * ws + b] = uint8_t(5 * i + 3 * j + b + 1);
            for (size_t j = 0; j < bs; ++j)
                orig[i][j] = data[i][meta + j];
        }
        for (int i = 0; i < m; ++i)
            par[i] = bytes(meta + bs, "parity");
        for (int i = 0; i < nout; ++i)
            wanted[i] = 1;
        for (int i = 0; i < n; ++i)
            missing[i] = 0;
        qa_mod(ws == 1 ? 257 : 65537);
    }
    uint8_t*& frag(int i)
    {
        return i < k ? data[i] : par[i - k];
    }
    void encode()
    {
        qa_true(quadiron_fnt32_encode(h, data, par, wanted, bs) == 0, "encode succeeds");
    }
};

static void roundtrip_of(const Lost& lost)
{
    Code c;
    c.encode();
    if (c.sys)
        for (int i = 0; i < c.k; ++i)
            qa_eq_mem(c.data[i] + c.meta, c.orig[i], g->words, c.ws,
                      "encode left the data alone");
    uint64_t snap[512];
    uint8_t* kept[512];
    for (int i = 0; i < c.n; ++i) {
        c.missing[i] = lost[i];
        kept[i] = nullptr;
        if (c.missing[i])
            c.frag(i) = i < c.k ? bytes(c.meta + c.bs, "lost") : nullptr;
        else if (i >= c.k) {
            kept[i] = c.frag(i);
            snap[i] = qa_snap(kept[i], c.meta + c.bs);
        }
    }
    int r = quadiron_fnt32_decode(c.h, c.data, c.par, c.missing, c.bs);
    qa_true(r == 0, "decode succeeds");
    for (int i = 0; i < c.k; ++i)
        qa_eq_mem(c.data[i] + c.meta, c.orig[i], g->words, c.ws, "decoded data");
    for (int i = 0; i < c.k; ++i) {
        const uint32_t* h = reinterpret_cast<const uint32_t*>(c.data[i]);
        qa_eq(h[0], htonl(Properties::FNT1), "decoded data has an empty header");
        for (size_t j = 1; j < c.meta / 4; ++j)
            qa_eq(h[j], 0, "decoded data has an empty header");
    }
    for (int i = 0; i < c.n; ++i)
        if (kept[i])
            qa_unchanged(kept[i], c.meta + c.bs, snap[i], "parities left alone");
    qa_done();
}

static void roundtrip(uint64_t lost)
{
    roundtrip_of(Lost(lost));
}
static void roundtrip_wide(uint64_t which)
{
    roundtrip_of(wide_loss(int(which), g->k, g->m));
}

// reconstruct one missing fragment: header and payload as encoded
static void rebuild(const Lost& lost, int dst)
{
    Code c;
    c.encode();
    uint8_t *kept[512], *want = c.frag(dst);
    uint64_t snap[512];
    for (int i = 0; i < c.n; ++i) {
        c.missing[i] = lost[i];
        kept[i] = nullptr;
        if (c.missing[i]) {
            c.frag(i) = nullptr;
        } else {
            kept[i] = c.frag(i);
            snap[i] = qa_snap(kept[i], c.meta + c.bs);
        }
    }
    uint8_t* out = bytes(c.meta + c.bs, "reconstructed");
    c.frag(dst) = out;
    int r = quadiron_fnt32_reconstruct(
        c.h, c.data, c.par, c.missing, unsigned(dst), c.bs);
    qa_true(r == 0, "reconstruct succeeds");
    qa_eq_mem(out, want, c.meta, 1, "reconstructed header");
    qa_eq_mem(out + c.meta, want + c.meta, g->words, c.ws,
              "reconstructed payload");
    for (int i = 0; i < c.n; ++i)
        if (kept[i])
            qa_unchanged(kept[i], c.meta + c.bs, snap[i],
                         "available fragments left alone");
    qa_done();
}
static void reconstruct(uint64_t lost)
{
    for (int dst = 0; dst < g->k + g->m; ++dst)
        if ((lost >> dst) & 1)
            qa_scope([](uint64_t a) { rebuild(Lost(a >> 4), int(a & 15)); },
                     (lost << 4) | dst, "destination");
}
// the first, the last and a fragment between
static void reconstruct_wide(uint64_t which)
{
    const Lost l = wide_loss(int(which), g->k, g->m);
    std::vector<int> all;
    for (int i = 0; i < g->k + g->m; ++i)
        if (l[i])
            all.push_back(i);
    int before = -1;
    for (int d : {all[0], all[all.size() / 2], all.back()}) {
        if (d != before)
            qa_scope([](uint64_t a) { rebuild(wide_loss(int(a & 15), g->k, g->m), int(a >> 4)); },
                     uint64_t(d) << 4 | which, "destination");
        before = d;
    }
}

// fewer than n_data fragments: an error, and nothing is written
static void toofew(uint64_t lost)
{
    Code c;
    c.encode();
    uint64_t snap[32];
    for (int i = 0; i < c.n; ++i) {
        c.missing[i] = (lost >> i) & 1;
        if (c.missing[i])
            c.frag(i) = i < c.k ? bytes(c.meta + c.bs, "lost") : nullptr;
        if (c.frag(i))
            snap[i] = qa_snap(c.frag(i), c.meta + c.bs);
    }
    int r = quadiron_fnt32_decode(c.h, c.data, c.par, c.missing, c.bs);
    qa_true(r == -1, "decode reports the failure");
    for (int i = 0; i < c.n; ++i)
        if (c.frag(i))
            qa_unchanged(c.frag(i), c.meta + c.bs, snap[i], "nothing written");
    for (int dst = 0; dst < c.n; ++dst) {
        if (!c.missing[dst])
            continue;
        uint8_t* old = c.frag(dst);
        if (!old)
            c.frag(dst) = bytes(c.meta + c.bs, "destination");
        uint64_t sd = qa_snap(c.frag(dst), c.meta + c.bs);
        r = quadiron_fnt32_reconstruct(
            c.h, c.data, c.par, c.missing, unsigned(dst), c.bs);
        qa_true(r == -1, "reconstruct reports the failure");
        qa_unchanged(c.frag(dst), c.meta + c.bs, sd, "nothing written");
        c.frag(dst) = old;
    }
    for (int i = 0; i < c.n; ++i)
        if (c.frag(i))
            qa_unchanged(c.frag(i), c.meta + c.bs, snap[i], "nothing written");
    qa_done();
}

// a header which does not parse: an error, whatever the fragment is
static void badheader(uint64_t bad)
{
    Code c;
    c.encode();
    for (int i = 0; i < c.n; ++i)
        c.missing[i] = 0;
    c.missing[bad == 0 ? 1 : 0] = 1;
    uint32_t* h = reinterpret_cast<uint32_t*>(c.frag(int(bad)));
    uint32_t old0 = h[0], old1 = h[1];
    const uint32_t magic = htonl(old0);
    for (int kind = 0; kind < 3; ++kind) {
        h[0] = kind == 0   ? htonl(uint32_t(qa_u(0, magic - 1, "magic")))
               : kind == 2 ? htonl(uint32_t(qa_u(magic + 1, 0xffffffffu, "magic")))
                           : old0;
        h[1] = kind == 1 ? htonl(uint32_t(qa_u(c.meta / 4 - 1, 0xffffffffu, "count"))) : old1;
        int r = quadiron_fnt32_decode(c.h, c.data, c.par, c.missing, c.bs);
        qa_true(r == -1, "decode reports a bad header");
        for (int dst = 0; dst < c.n; ++dst) {
            if (!c.missing[dst])
                continue;
            r = quadiron_fnt32_reconstruct(
                c.h, c.data, c.par, c.missing, unsigned(dst), c.bs);
            qa_true(r == -1, "reconstruct reports a bad header");
        }
    }
    qa_done();
}

// unwanted fragments: no buffer is needed, nothing is written
static void unwanted(uint64_t skip)
{
    Code c;
    uint64_t snap[32];
    for (int i = 0; i < c.nout; ++i)
        c.wanted[i] = !((skip >> i) & 1);
    uint8_t* given[16];
    for (int i = 0; i < c.m; ++i) {
        given[i] = c.par[i];
        if ((skip >> (c.sys ? i : c.k + i)) & 1)
            c.par[i] = nullptr;
    }
    // the same fragments, all wanted
    Code d;
    for (int i = 0; i < c.k; ++i)
        for (size_t j = 0; j < c.bs; ++j)
            d.data[i][d.meta + j] = c.data[i][c.meta + j];
    d.encode();
    c.encode();
    for (int i = 0; i < c.k; ++i)
        if (c.sys || !c.wanted[i])
            qa_eq_mem(c.data[i] + c.meta, c.orig[i], g->words, c.ws,
                      "unwanted data blocks left alone");
        else
            qa_eq_mem(c.data[i] + c.meta, d.data[i] + c.meta, g->words, c.ws,
                      "wanted fragments are written");
    for (int i = 0; i < c.m; ++i)
        if (c.wanted[c.sys ? i : c.k + i]) {
            qa_eq_mem(c.par[i] + c.meta, d.par[i] + c.meta, g->words, c.ws,
                      "wanted fragments are written");
            qa_eq_mem(c.par[i], d.par[i], c.meta, 1, "wanted headers are written");
        }
    (void)snap;
    (void)given;
    qa_done();
}

static void each(const Shape& s, void (*f)(uint64_t), int what)
{
    g = &s;
    g_h = quadiron_fnt32_new(s.ws, s.k, s.m, s.sys);
    qa_true(g_h != nullptr, "instance created");
    const int n = s.k + s.m;
    if (what >= 5) { // long codes
        for (uint64_t i = 0; i < 6; ++i)
            qa_scope(f, i, "way to lose fragments");
        quadiron_fnt32_delete(g_h);
        return;
    }
    if (what == 3) {
        for (int i = s.sys ? s.k : 0; i < n; ++i)
            qa_scope(f, uint64_t(i), "fragment");
        quadiron_fnt32_delete(g_h);
        return;
    }
    const int nb = what == 4 ? (s.sys ? s.m : n) : n;
    for (unsigned lost = 0; lost < (1u << nb); ++lost) {
        int p = __builtin_popcount(lost);
        if (what == 0 && !qa_pattern(s.sym, lost, n, s.m))
            continue;
        if (what == 1 && (!qa_pattern(s.sym, lost, n, s.m) || p == 0))
            continue;
        if (what == 2 && p != s.m + 1)
            continue;
        qa_scope(f, lost, what == 4 ? "unwanted mask" : "lost fragments mask");
    }
    quadiron_fnt32_delete(g_h);
}
#define H(NAME, FN, WHAT, ...) \
    extern "C" void qah_##NAME() { Shape s = __VA_ARGS__; each(s, FN, WHAT); }
#define SHAPES(P, FN, WHAT) \
    H(P##_w2_n21, FN, WHAT, {2, 2, 1, 0, 1, 1}) \
    H(P##_w2_s21, FN, WHAT, {2, 2, 1, 1, 2, 1}) \
    H(P##_w2_s22, FN, WHAT, {2, 2, 2, 1, 3, 2}) \
    H(P##_w2_s12, FN, WHAT, {2, 1, 2, 1, 1, 1}) \
    H(P##_w2_n12, FN, WHAT, {2, 1, 2, 0, 1, 1}) \
    H(P##_w1_n21, FN, WHAT, {1, 2, 1, 0, 1, 1}) \
    H(P##_w1_s22, FN, WHAT, {1, 2, 2, 1, 2, 1})
SHAPES(crt, roundtrip, 0)
SHAPES(crec, reconstruct, 1)
SHAPES(cfew, toofew, 2)
SHAPES(chdr, badheader, 3)
SHAPES(cunw, unwanted, 4)
H(crt_w2_s32, roundtrip, 0, {2, 3, 2, 1, 1, 1})
H(crec_w2_s32, reconstruct, 1, {2, 3, 2, 1, 1, 1})
H(crec_w2_s23, reconstruct, 1, {2, 2, 3, 1, 1, 1})
H(crt_w2_s23, roundtrip, 0, {2, 2, 3, 1, 1, 1})
H(cfew_w2_s32, toofew, 2, {2, 3, 2, 1, 1, 0})
H(cfew_w2_s42, toofew, 2, {2, 4, 2, 1, 1, 0})
H(cfew_w2_n52, toofew, 2, {2, 5, 2, 0, 1, 0})
// larger codes, not all erasure patterns; blocks of more than one packet
#define LARGE(P, FN, WHAT, SOME) \
    H(P##_w2_n53, FN, WHAT, {2, 5, 3, 0, 2, FIRST | SOME | 2}) \
    H(P##_w2_s53, FN, WHAT, {2, 5, 3, 1, 2, FIRST | SOME | 2}) \
    H(P##_w2_s26, FN, WHAT, {2, 2, 6, 1, 1, FIRST | SOME | 1}) \
    H(P##_w2_n26, FN, WHAT, {2, 2, 6, 0, 1, FIRST | SOME | 1}) \
    H(P##_w1_s64, FN, WHAT, {1, 6, 4, 1, 1, FIRST | SOME | 1}) \
    H(P##_w2_s21_two, FN, WHAT, {2, 2, 1, 1, 1027, FIRST | SPREAD | TAIL}) \
    H(P##_w2_n21_two, FN, WHAT, {2, 2, 1, 0, 1027, FIRST | SPREAD | TAIL})
LARGE(crtl, roundtrip, 0, THREE)
LARGE(crecl, reconstruct, 1, THREE)
// most erasure patterns: the thorough check
LARGE(crtx, roundtrip, 0, SPREAD)
LARGE(crecx, reconstruct, 1, SPREAD)
// long codes
#define WIDE(S, ...) \
    H(crtw_##S, roundtrip_wide, 5, __VA_ARGS__) \
    H(crecw_##S, reconstruct_wide, 5, __VA_ARGS__)
WIDE(w2_s20, {2, 20, 12, 1, 3, 0})
WIDE(w2_n20, {2, 20, 12, 0, 3, 0})
WIDE(w2_s40, {2, 40, 30, 1, 3, 0})
WIDE(w2_n40, {2, 40, 30, 0, 3, 0})
