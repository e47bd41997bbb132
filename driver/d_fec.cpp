// Entry states for the block interface of the FNT codes: encode, lose
// fragments, decode. Every data symbol marked symbolic is arbitrary.
#include "qa.h"
#include "quadiron.h"
using namespace quadiron;

static uint8_t* bytes(size_t n, const char* name)
{
    return static_cast<uint8_t*>(qa_buf(n, name));
}

struct Shape {
    int k, m, sys;
    size_t pkt, words; // packet size, block size in words
    uint64_t sym;      // words of each block which are symbolic
};

template <typename Code>
static void roundtrip(Code& c, int ws, uint64_t q, const Shape& s, unsigned lost)
{
    const int k = s.k, n = s.k + s.m;
    const int nout = s.sys ? s.m : n;
    const size_t bs = s.words * ws;
    std::vector<uint8_t*> data, out, orig;
    for (int i = 0; i < k; ++i) {
        uint8_t* d = bytes(bs, "data");
        uint8_t* o = bytes(bs, "original");
        for (size_t j = 0; j < s.words; ++j)
            if (qa_sym(s.sym, j, i))
                qa_fill(d + j * ws, 1, ws, 0, q - 2, "d");
            else
                for (int b = 0; b < ws; ++b)
                    d[j * ws + b] = uint8_t(7 * i + 3 * j + b + 1);
        for (size_t j = 0; j < bs; ++j)
            o[j] = d[j];
        data.push_back(d);
        orig.push_back(o);
    }
    for (int i = 0; i < nout; ++i)
        out.push_back(bytes(bs, "fragment"));
    std::vector<Properties> props(nout);
    for (auto& p : props)
        p.add(0, OOR_MARK); // left over from an earlier use
    std::vector<bool> wanted(nout, true);
    qa_mod(q);
    c.encode_blocks_vertical(data, out, props, wanted, bs);
    const size_t steps = (s.words + s.pkt - 1) / s.pkt;
    qa_true(c.n_encode_ops == steps, "operations counted");
    for (int i = 0; i < k; ++i)
        qa_eq_mem(data[i], orig[i], s.words, ws, "encode left the data alone");

    std::vector<int> missing(n, 0);
    std::vector<uint64_t> snap(n, 0);
    std::vector<uint8_t*> frag(n, nullptr);
    for (int i = 0; i < n; ++i) {
        missing[i] = (lost >> i) & 1;
        uint8_t*& f = s.sys ? (i < k ? data[i] : out[i - k]) : out[i];
        if (missing[i]) {
            f = nullptr;
            if (s.sys ? i >= k : true)
                props[s.sys ? i - k : i].clear();
        } else {
            frag[i] = f;
            snap[i] = qa_snap(f, bs);
        }
    }
    std::vector<uint8_t*> res(k);
    std::vector<bool> want(k, true);
    for (int i = 0; i < k; ++i) {
        if (s.sys && !missing[i]) {
            res[i] = data[i];
            want[i] = false;
        } else {
            res[i] = bytes(bs, "restored");
        }
    }
    bool ok = c.decode_blocks_vertical(res, out, props, missing, want, bs);
    qa_true(ok, "decode succeeds");
    if (!(s.sys && !(lost & ((1u << k) - 1))))
        qa_true(c.n_decode_ops == steps, "operations counted");
    for (int i = 0; i < k; ++i)
        qa_eq_mem(res[i], orig[i], s.words, ws, "restored data equals the original");
    for (int i = 0; i < n; ++i)
        if (frag[i])
            qa_unchanged(frag[i], bs, snap[i], "decode left the fragments alone");
    qa_done();
}

static const Shape* g_shape;
static void* g_code;
static int g_ws;

template <typename T>
static void one_pattern(uint64_t lost)
{
    roundtrip(*static_cast<fec::RsFnt<T>*>(g_code), g_ws,
              g_ws == 1 ? 257 : 65537, *g_shape, unsigned(lost));
}

template <typename T>
static void all_patterns(int ws, const Shape& s)
{
    const int n = s.k + s.m;
    fec::RsFnt<T> c(
        s.sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC,
        ws, s.k, s.m, s.pkt);
    g_shape = &s;
    g_code = &c;
    g_ws = ws;
    for (unsigned lost = 0; lost < (1u << n); ++lost) {
        if (!qa_pattern(s.sym, lost, n, s.m))
            continue;
        qa_scope(one_pattern<T>, lost, "lost fragments mask");
    }
}
// too few fragments: failure, and nothing is written
template <typename T>
static void toofew(uint64_t lost)
{
    auto& c = *static_cast<fec::RsFnt<T>*>(g_code);
    const Shape& s = *g_shape;
    const int k = s.k, n = s.k + s.m, nout = s.sys ? s.m : n, off = s.sys ? k : 0;
    const size_t bs = s.words * g_ws;
    std::vector<uint8_t*> data, par;
    std::vector<int> missing(n, 0);
    std::vector<bool> want(k, true);
    std::vector<Properties> props(nout);
    std::vector<std::pair<uint8_t*, uint64_t>> all;
    for (int i = 0; i < n; ++i)
        missing[i] = (lost >> i) & 1;
    for (int i = 0; i < k; ++i) {
        data.push_back(bytes(bs, "data"));
        qa_fill(data[i], s.words, g_ws, 0, g_ws == 1 ? 255 : 65535, "d");
    }
    for (int i = 0; i < nout; ++i) {
        par.push_back(missing[off + i] ? nullptr : bytes(bs, "fragment"));
        if (par[i])
            qa_fill(par[i], s.words, g_ws, 0, g_ws == 1 ? 255 : 65535, "p");
    }
    for (auto p : data)
        all.emplace_back(p, qa_snap(p, bs));
    for (auto p : par)
        if (p)
            all.emplace_back(p, qa_snap(p, bs));
    qa_mod(g_ws == 1 ? 257 : 65537);
    bool ok = c.decode_blocks_vertical(data, par, props, missing, want, bs);
    qa_true(!ok, "decode reports the failure");
    for (auto& a : all)
        qa_unchanged(a.first, bs, a.second, "nothing written");
    qa_done();
}

// Unwanted outputs: of the encoder (no buffer), of the decoder (no buffer or
// a buffer which stays as it is).
template <typename T>
static void unwanted(uint64_t a)
{
    auto& c = *static_cast<fec::RsFnt<T>*>(g_code);
    const Shape& s = *g_shape;
    const int k = s.k, n = s.k + s.m, nout = s.sys ? s.m : n, off = s.sys ? k : 0, ws = g_ws;
    const size_t bs = s.words * ws;
    const unsigned lost = unsigned(a & 255), skip = unsigned(a >> 8) & 255;
    const bool null = (a >> 16) & 1;
    std::vector<uint8_t*> data, par, orig, half(nout);
    std::vector<Properties> props(nout), p2(nout);
    for (int i = 0; i < k; ++i) {
        data.push_back(bytes(bs, "data"));
        orig.push_back(bytes(bs, "original"));
        for (size_t j = 0; j < bs; ++j)
            data[i][j] = uint8_t(17 * i + 5 * j);
        qa_fill(data[i], 1, ws, 0, ws == 1 ? 255 : 65535, "d");
        for (size_t j = 0; j < bs; ++j)
            orig[i][j] = data[i][j];
    }
    qa_mod(ws == 1 ? 257 : 65537);
    std::vector<bool> all(nout, true), some(nout);
    for (int i = 0; i < nout; ++i) {
        par.push_back(bytes(bs, "fragment"));
        some[i] = !((skip >> i) & 1);
        half[i] = some[i] ? bytes(bs, "fragment") : nullptr;
    }
    c.encode_blocks_vertical(data, par, props, all, bs);
    c.encode_blocks_vertical(data, half, p2, some, bs);
    for (int i = 0; i < nout; ++i)
        if (some[i]) {
            qa_eq_mem(half[i], par[i], s.words, ws, "wanted fragments are written");
            qa_true(props[i].get_map() == p2[i].get_map(), "wanted markers are recorded");
        }
    std::vector<int> missing(n, 0);
    std::vector<bool> want(k);
    std::vector<uint8_t*> in = par, res(k);
    std::vector<uint64_t> snap(k);
    for (int i = 0; i < n; ++i) {
        missing[i] = (lost >> i) & 1;
        if (missing[i] && i >= off) {
            in[i - off] = nullptr;
            props[i - off].clear();
        }
    }
    for (int i = 0; i < k; ++i) {
        want[i] = !((skip >> i) & 1) && (!s.sys || missing[i]);
        res[i] = s.sys && !missing[i] ? data[i]
                 : want[i] || !null   ? bytes(bs, "restored")
                                      : nullptr;
        if (res[i] && !(s.sys && !missing[i]))
            for (size_t j = 0; j < bs; ++j)
                res[i][j] = 0x5a;
        if (res[i])
            snap[i] = qa_snap(res[i], bs);
    }
    bool ok = c.decode_blocks_vertical(res, in, props, missing, want, bs);
    qa_true(ok, "decode succeeds");
    for (int i = 0; i < k; ++i)
        if (want[i])
            qa_eq_mem(res[i], orig[i], s.words, ws, "wanted blocks are restored");
        else if (res[i])
            qa_unchanged(res[i], bs, snap[i], "blocks which are not wanted are left alone");
    qa_done();
}

template <typename T>
static void skip_patterns(int ws, const Shape& s)
{
    const int n = s.k + s.m;
    fec::RsFnt<T> c(
        s.sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC,
        ws, s.k, s.m, s.pkt);
    g_shape = &s;
    g_code = &c;
    g_ws = ws;
    for (unsigned lost = 0; lost < (1u << n); ++lost)
        if (__builtin_popcount(lost) == s.m)
            for (unsigned skip = 0; skip < (1u << (s.sys ? (s.m > s.k ? s.m : s.k) : n)); ++skip)
                for (unsigned null = 0; null < 2; ++null)
                    qa_scope(unwanted<T>, lost | skip << 8 | null << 16, "lost and unwanted masks");
}
#define SK(NAME, T, WS, ...) \
    extern "C" void qah_##NAME() { Shape s = __VA_ARGS__; skip_patterns<T>(WS, s); }
SK(unw_w2_n21, uint32_t, 2, {2, 1, 0, 8, 1, 1})
SK(unw_w2_s22, uint32_t, 2, {2, 2, 1, 8, 11, 1})
SK(unw_w1_s32, uint16_t, 1, {3, 2, 1, 16, 1, 1})

template <typename T>
static void few_patterns(int ws, const Shape& s)
{
    const int n = s.k + s.m;
    fec::RsFnt<T> c(
        s.sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC,
        ws, s.k, s.m, s.pkt);
    g_shape = &s;
    g_code = &c;
    g_ws = ws;
    for (unsigned lost = 0; lost < (1u << n); ++lost)
        if (__builtin_popcount(lost) > s.m)
            qa_scope(toofew<T>, lost, "lost fragments mask");
}
#define FEW(NAME, T, WS, ...) \
    extern "C" void qah_##NAME() { Shape s = __VA_ARGS__; few_patterns<T>(WS, s); }
FEW(few_w2_n21, uint32_t, 2, {2, 1, 0, 8, 3, 1})
FEW(few_w2_s22, uint32_t, 2, {2, 2, 1, 8, 11, 1})
FEW(few_w2_s31, uint32_t, 2, {3, 1, 1, 8, 2, 1})
FEW(few_w2_s32, uint32_t, 2, {3, 2, 1, 8, 2, 1})
FEW(few_w2_n53, uint32_t, 2, {5, 3, 0, 8, 2, 1})
FEW(few_w1_s42, uint16_t, 1, {4, 2, 1, 16, 2, 1})
#define RT(NAME, T, WS, ...) \
    extern "C" void qah_##NAME() { Shape s = __VA_ARGS__; all_patterns<T>(WS, s); }
RT(rt_w2_n21_a, uint32_t, 2, {2, 1, 0, 8, 1, 1})
RT(rt_w2_n21_b, uint32_t, 2, {2, 1, 0, 8, 11, 0x101})
RT(rt_w2_s22_a, uint32_t, 2, {2, 2, 1, 8, 1, 1})
RT(rt_w2_s22_b, uint32_t, 2, {2, 2, 1, 8, 11, 0x101})
RT(rt_w2_s31_a, uint32_t, 2, {3, 1, 1, 8, 1, 1})
RT(rt_w2_n32_a, uint32_t, 2, {3, 2, 0, 8, 1, 1})
RT(rt_w2_s42_a, uint32_t, 2, {4, 2, 1, 8, 1, 1})
RT(rt_w1_n21_a, uint16_t, 1, {2, 1, 0, 16, 1, 1})
RT(rt_w1_s22_a, uint16_t, 1, {2, 2, 1, 16, 1, 1})
RT(rt_w2_n53, uint32_t, 2, {5, 3, 0, 8, 1, FIRST | SPREAD | 1})
RT(rt_w2_s53, uint32_t, 2, {5, 3, 1, 8, 1, FIRST | SPREAD | 1})
RT(rt_w2_s84, uint32_t, 2, {8, 4, 1, 8, 1, FIRST | SPREAD | 1})
RT(rt_w2_n94, uint32_t, 2, {9, 4, 0, 8, 1, FIRST | SPREAD | 1})
RT(rt_w2_s26, uint32_t, 2, {2, 6, 1, 8, 1, FIRST | SPREAD | 1})
RT(rt_w1_s64, uint16_t, 1, {6, 4, 1, 16, 1, FIRST | SPREAD | 1})
RT(rt_w2_n21_p3, uint32_t, 2, {2, 1, 0, 4, 14, FIRST | 0x2210})
