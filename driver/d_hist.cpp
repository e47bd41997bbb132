// Entry states for histories: what an operation yields on a code object which
// has already been used, against a fresh object.
#include "qa.h"
#include "quadiron.h"
using namespace quadiron;

struct Shape {
    int ws, k, m, sys;
    size_t pkt, words;
    uint64_t sym;
};
static const Shape* g;
static void *g_used, *g_fresh;

static uint8_t* bytes(size_t n, const char* name)
{
    return static_cast<uint8_t*>(qa_buf(n, name));
}

struct Op {
    int k, n, nout, off, ws;
    size_t words, bs;
    std::vector<uint8_t*> data, out;
    std::vector<Properties> props;

    // kind 0: arbitrary, 1: symbols whose sum is the escaped value
    Op(int kind, size_t nwords) : words(nwords)
    {
        k = g->k, ws = g->ws, n = k + g->m, nout = g->sys ? g->m : n, off = g->sys ? k : 0;
        bs = words * ws;
        for (int i = 0; i < k; ++i) {
            uint8_t* d = bytes(bs, "data");
            for (size_t j = 0; j < words; ++j) {
                if (kind == 0 && ((g->sym >> j) & 1))
                    qa_fill(d + j * ws, 1, ws, 0, ws == 1 ? 255 : 65535, "d");
                else
                    for (int b = 0; b < ws; ++b)
                        d[j * ws + b] = kind == 1 ? (i == 0 ? 0xff : i == 1 ? b == 0 : 0)
                                                  : uint8_t(7 * i + 3 * j + b + 1);
            }
            data.push_back(d);
        }
    }
    Op(const Op& o, bool) : Op(2, o.words)
    {
        for (int i = 0; i < k; ++i)
            for (size_t j = 0; j < bs; ++j)
                data[i][j] = o.data[i][j];
    }
    template <typename C>
    void encode(C& c)
    {
        out.clear();
        for (int i = 0; i < int(c.n_outputs); ++i)
            out.push_back(bytes(bs, "fragment"));
        props.assign(c.n_outputs, Properties());
        std::vector<bool> wanted(c.n_outputs, true);
        c.encode_blocks_vertical(data, out, props, wanted, bs);
    }
    template <typename C>
    bool decode(C& c, unsigned lost, std::vector<uint8_t*>& res)
    {
        std::vector<int> missing(c.n_outputs + off, 0);
        std::vector<uint8_t*> par = out;
        std::vector<Properties> pr = props;
        std::vector<bool> want(k, true);
        for (size_t i = 0; i < missing.size(); ++i) {
            missing[i] = int(i) < n ? (lost >> i) & 1 : 1;
            if (missing[i] && int(i) >= off) {
                par[i - off] = nullptr;
                pr[i - off].clear();
            }
        }
        for (int i = 0; i < k; ++i) {
            want[i] = !(g->sys && !missing[i]);
            res.push_back(want[i] ? bytes(bs, "restored") : data[i]);
        }
        return c.decode_blocks_vertical(res, par, pr, missing, want, bs);
    }
    template <typename C>
    void stream(C& c, bool vert, unsigned lost)
    {
        std::vector<std::istream*> is, ip;
        std::vector<std::ostream*> os, od;
        std::vector<uint8_t*> frag;
        for (int i = 0; i < k; ++i)
            is.push_back(static_cast<std::istream*>(qa_istream(data[i], bs)));
        for (int i = 0; i < int(c.n_outputs); ++i) {
            frag.push_back(bytes(bs, "fragment"));
            os.push_back(static_cast<std::ostream*>(qa_ostream(frag[i], bs)));
        }
        std::vector<Properties> pr(c.n_outputs);
        vert ? c.encode_streams_vertical(is, os, pr) : c.encode_streams_horizontal(is, os, pr);
        is.clear();
        for (int i = 0; i < k; ++i) {
            is.push_back(g->sys && !((lost >> i) & 1)
                             ? static_cast<std::istream*>(qa_istream(data[i], bs))
                             : nullptr);
            od.push_back(static_cast<std::ostream*>(qa_ostream(bytes(bs, "restored"), bs)));
        }
        for (int i = 0; i < int(c.n_outputs); ++i)
            ip.push_back((lost >> (off + i)) & 1
                             ? nullptr
                             : static_cast<std::istream*>(qa_istream(frag[i], bs)));
        vert ? c.decode_streams_vertical(is, ip, pr, od)
             : c.decode_streams_horizontal(is, ip, pr, od);
    }
};

template <typename T>
static void history(uint64_t what)
{
    auto& c = *static_cast<fec::RsFnt<T>*>(g_used);
    auto& f = *static_cast<fec::RsFnt<T>*>(g_fresh);
    const unsigned all = (1u << (g->k + g->m)) - 1;
    const unsigned first = (1u << g->m) - 1, last = all & ~(all >> g->m);
    qa_mod(g->ws == 1 ? 257 : 65537);
    std::vector<uint8_t*> junk;
    switch (what >> 1) {
    case 0: { // encodes, other data with escaped symbols
        Op h(1, g->words + g->pkt);
        h.encode(c);
        break;
    }
    case 1: { // a whole round trip, other fragments lost, arbitrary data
        Op h(0, g->words);
        h.encode(c);
        h.decode(c, last, junk);
        break;
    }
    case 2: { // escaped symbols, decoded
        Op h(1, g->words + g->pkt);
        h.encode(c);
        h.decode(c, first, junk);
        break;
    }
    case 3: { // a decode which fails
        Op h(1, g->words);
        h.encode(c);
        h.decode(c, all & ~(all >> (g->m + 1)), junk);
        break;
    }
    case 4: { // streams by packets
        Op h(1, g->words + 1);
        h.stream(c, true, last);
        break;
    }
    case 5: { // streams by words
        if (g->sys)
            return;
        Op h(1, 2);
        h.stream(c, false, first);
        break;
    }
    }
    Op a(0, g->words), b(a, true);
    const uint64_t steps = (a.words + g->pkt - 1) / g->pkt;
    a.encode(c);
    qa_true(c.n_encode_ops == steps, "operations counted");
    b.encode(f);
    qa_true(f.n_encode_ops == steps, "operations counted");
    for (int i = 0; i < a.nout; ++i) {
        qa_eq_mem(a.out[i], b.out[i], a.words, a.ws, "the same fragments as a fresh object");
        qa_true(a.props[i].get_map().size() == b.props[i].get_map().size(),
                "the same markers as a fresh object");
        for (size_t j = 0; j < a.props[i].get_map().size(); ++j)
            qa_true(a.props[i].get_map()[j] == b.props[i].get_map()[j],
                    "the same markers as a fresh object");
    }
    const unsigned lost = what & 1 ? last : first;
    std::vector<uint8_t*> ra, rb;
    // what the used object decodes is what the fresh one encoded
    qa_true(b.decode(c, lost, ra), "decode succeeds");
    if (!(g->sys && !(lost & ((1u << g->k) - 1))))
        qa_true(c.n_decode_ops == steps, "operations counted");
    for (int i = 0; i < a.k; ++i)
        qa_eq_mem(ra[i], a.data[i], a.words, a.ws, "restored data equals the original");
    // too few fragments still are
    const unsigned few = all & ~(all >> (g->m + 1));
    qa_true(!b.decode(c, few, rb), "failure is reported again");
    qa_done();
}

template <typename T>
static void all(const Shape& s)
{
    const auto t = s.sys ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC;
    fec::RsFnt<T> c(t, s.ws, s.k, s.m, s.pkt), f(t, s.ws, s.k, s.m, s.pkt);
    g = &s;
    g_used = &c;
    g_fresh = &f;
    for (uint64_t h = 0; h < 12; ++h)
        qa_scope(history<T>, h, "history");
}
#define HI(NAME, T, ...) \
    extern "C" void qah_##NAME() { Shape s = __VA_ARGS__; all<T>(s); }
HI(hist_w2_n21, uint32_t, {2, 2, 1, 0, 8, 1, 1})
HI(hist_w2_n21_tail, uint32_t, {2, 2, 1, 0, 8, 11, 0x400})
HI(hist_w2_s22, uint32_t, {2, 2, 2, 1, 8, 1, 1})
HI(hist_w2_s21_tail, uint32_t, {2, 2, 1, 1, 8, 11, 0x400})
HI(hist_w2_s12, uint32_t, {2, 1, 2, 1, 4, 6, 0x20})
HI(hist_w1_s22, uint16_t, {1, 2, 2, 1, 16, 1, 1})
HI(hist_w1_n21, uint16_t, {1, 2, 1, 0, 16, 17, 0x10000})
