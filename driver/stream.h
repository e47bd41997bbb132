// Entry states for the stream interface of the codes: encode, lose fragments,
// decode, packet by packet (vertical) or word by word (horizontal).
#pragma once
#include "qa.h"
#include "quadiron.h"
#include "wide.h"
using namespace quadiron;

// q: order of the field (0: a binary field); unit: bytes of one symbol
template <typename Code>
struct Traits;

struct Shape {
    int ws, k, m, sys;
    size_t pkt, words; // packet size, stream length in words
    uint64_t sym;      // see qa_sym, qa_pattern
    bool vert;
};
static const Shape* g;
static void *g_code, *g_fresh;

static uint8_t* bytes(size_t n, const char* name)
{
    return static_cast<uint8_t*>(qa_buf(n, name));
}
static std::istream* in(const void* p, size_t n)
{
    return static_cast<std::istream*>(qa_istream(p, n));
}
static std::ostream* out(void* p, size_t n)
{
    return static_cast<std::ostream*>(qa_ostream(p, n));
}

struct Streams {
    int k, n, nout, ws, off;
    size_t bs;
    std::vector<uint8_t*> data, frag;
    std::vector<uint64_t> snap;
    std::vector<Properties> props;
    Streams(uint64_t q, int unit)
    {
        k = g->k, ws = g->ws, n = g->k + g->m, nout = g->sys ? g->m : n;
        off = g->sys ? k : 0;
        bs = g->words * ws;
        for (int i = 0; i < k; ++i) {
            uint8_t* d = bytes(bs, "data");
            for (size_t j = 0; j < g->words; ++j)
                if (qa_sym(g->sym, j, i))
                {
                    const int u = (g->sym & LANE) ? ws - unit : 0;
                    for (int b = 0; b < u; ++b)
                        d[j * ws + b] = uint8_t(7 * i + 3 * j + b + 1);
                    qa_fill(d + j * ws + u, (ws - u) / unit, unit, 0, (uint64_t(1) << (8 * unit)) - 1, "d");
                }
                else
                    for (int b = 0; b < ws; ++b)
                        d[j * ws + b] = uint8_t(7 * i + 3 * j + b + 1);
            data.push_back(d);
            snap.push_back(qa_snap(d, bs));
        }
        if (q)
            qa_mod(q);
        else
            qa_gf2(1); // binary field
    }
    template <typename Code>
    void encode(Code& c, unsigned skip = 0)
    {
        std::vector<std::istream*> is;
        std::vector<std::ostream*> os;
        const int total = c.n_outputs;
        frag.assign(n, nullptr);
        for (int i = 0; i < k; ++i)
            is.push_back(in(data[i], bs));
        for (int i = 0; i < nout; ++i) {
            if (i < 32 && ((skip >> i) & 1)) {
                os.push_back(nullptr);
                continue;
            }
            frag[off + i] = bytes(bs, "fragment");
            os.push_back(out(frag[off + i], bs));
        }
        while (int(os.size()) < total)
            os.push_back(nullptr);
        if (g->sys)
            for (int i = 0; i < k; ++i)
                frag[i] = data[i];
        props.assign(total, Properties());
        for (auto& p : props)
            p.add(1, OOR_MARK); // left over from an earlier use
        if (g->vert)
            c.encode_streams_vertical(is, os, props);
        else
            c.encode_streams_horizontal(is, os, props);
        qa_true(c.n_encode_ops == steps(), "operations counted");
        for (int i = 0; i < nout; ++i)
            if (os[i])
                qa_true(qa_stream_pos(os[i]) == bs,
                        "every fragment is as long as the data");
        for (int i = 0; i < k; ++i)
            qa_unchanged(data[i], bs, snap[i], "encode left the data alone");
    }
    // decode without the fragments of the mask; outputs of the mask unwanted
    template <typename Code>
    bool decode(Code& c, const Lost& lost, unsigned skip,
                std::vector<uint8_t*>& res, std::vector<std::ostream*>& os)
    {
        std::vector<std::istream*> id, ip;
        std::vector<Properties> pr = props;
        for (int i = 0; i < k; ++i)
            id.push_back(
                g->sys && !lost[i] ? in(data[i], bs) : nullptr);
        for (int i = 0; i < nout; ++i) {
            const bool l = lost[off + i];
            ip.push_back(l ? nullptr : in(frag[off + i], bs));
            if (l)
                pr[i].clear();
        }
        while (ip.size() < props.size())
            ip.push_back(nullptr);
        for (int i = 0; i < k; ++i) {
            if (i < 32 && ((skip >> i) & 1)) {
                res.push_back(nullptr);
                os.push_back(nullptr);
            } else {
                res.push_back(bytes(bs, "restored"));
                os.push_back(out(res[i], bs));
            }
        }
        const bool ok = g->vert
            ? c.decode_streams_vertical(id, ip, pr, os)
            : c.decode_streams_horizontal(id, ip, pr, os);
        if (ok && !(g->sys && !data_lost(lost, k)))
            qa_true(c.n_decode_ops == steps(), "operations counted");
        return ok;
    }
    // packets or words of a stream
    size_t steps() const
    {
        return g->vert ? (g->words + g->pkt - 1) / g->pkt : g->words;
    }
};

template <typename C>
static void roundtrip_of(const Lost& lost)
{
    auto& c = *static_cast<C*>(g_code);
    const int unit = Traits<C>::unit(g->ws);
    Streams s(Traits<C>::q(g->ws), unit);
    s.encode(c);
    std::vector<uint8_t*> res;
    std::vector<std::ostream*> os;
    std::vector<uint64_t> snap(s.n);
    for (int i = 0; i < s.n; ++i)
        snap[i] = qa_snap(s.frag[i], s.bs);
    bool ok = s.decode(c, lost, 0, res, os);
    qa_true(ok, "decode succeeds");
    // nothing to do for systematic codes which lost no data
    if (!(g->sys && !data_lost(lost, s.k)))
        for (int i = 0; i < s.k; ++i) {
            qa_true(qa_stream_pos(os[i]) == s.bs,
                    "every restored stream is as long as the data");
            qa_eq_mem(res[i], s.data[i], g->words * (s.ws / unit), unit,
                      "restored data equals the original");
        }
    for (int i = 0; i < s.n; ++i)
        qa_unchanged(s.frag[i], s.bs, snap[i], "decode left the fragments alone");
    qa_done();
}

template <typename C>
static void roundtrip(uint64_t lost)
{
    roundtrip_of<C>(Lost(lost));
}
template <typename C>
static void wide(uint64_t which)
{
    roundtrip_of<C>(wide_loss(int(which), g->k, g->m));
}

// one object, one loss after the other
template <typename C>
static void wide_seq(uint64_t first)
{
    auto& c = *static_cast<C*>(g_code);
    const int unit = Traits<C>::unit(g->ws);
    Streams s(Traits<C>::q(g->ws), unit);
    s.encode(c);
    static const int ways[] = {0, 6, 7, 4, 1, 9, 8, 5, 0};
    for (int w : ways) {
        if (w == 7 && first)
            w = 2;
        const Lost l = wide_loss(w, g->k, g->m);
        if (int(l.count()) > g->m || (g->sys && !data_lost(l, s.k)))
            continue;
        std::vector<uint8_t*> res;
        std::vector<std::ostream*> os;
        qa_true(s.decode(c, l, 0, res, os), "decode succeeds");
        for (int i = 0; i < s.k; ++i)
            qa_eq_mem(res[i], s.data[i], g->words * (s.ws / unit), unit,
                      "restored data equals the original");
    }
    qa_done();
}

// too few fragments: failure, and no output stream is used
template <typename C>
static void toofew(uint64_t lost)
{
    auto& c = *static_cast<C*>(g_code);
    const int unit = Traits<C>::unit(g->ws);
    Streams s(Traits<C>::q(g->ws), unit);
    s.encode(c);
    std::vector<uint8_t*> res;
    std::vector<std::ostream*> os;
    bool ok = s.decode(c, unsigned(lost), 0, res, os);
    qa_true(!ok, "decode reports the failure");
    for (auto o : os)
        qa_true(qa_stream_calls(o) == 0, "nothing written");
    qa_done();
}

// absent streams: nothing is written to them, the others are as usual
template <typename C>
static void unwanted(uint64_t skip)
{
    auto& c = *static_cast<C*>(g_code);
    const int unit = Traits<C>::unit(g->ws);
    Streams s(Traits<C>::q(g->ws), unit), t(Traits<C>::q(g->ws), unit);
    for (int i = 0; i < s.k; ++i)
        for (size_t j = 0; j < s.bs; ++j)
            t.data[i][j] = s.data[i][j];
    for (int i = 0; i < s.k; ++i)
        t.snap[i] = qa_snap(t.data[i], s.bs);
    s.encode(c, unsigned(skip));
    t.encode(c);
    for (int i = s.off; i < s.n; ++i)
        if (s.frag[i])
            qa_eq_mem(s.frag[i], t.frag[i], g->words * (s.ws / unit), unit,
                      "wanted fragments are written");
    std::vector<uint8_t*> res;
    std::vector<std::ostream*> os;
    const unsigned lost = (1u << (s.n - s.k)) - 1;
    bool ok = t.decode(c, lost, unsigned(skip), res, os);
    qa_true(ok, "decode succeeds");
    for (int i = 0; i < s.k; ++i)
        if (res[i]) {
            qa_true(qa_stream_pos(os[i]) == s.bs, "wanted streams are restored");
            qa_eq_mem(res[i], s.data[i], g->words * (s.ws / unit), unit,
                      "wanted streams are restored");
        }
    qa_done();
}

// what earlier operations leave behind must not show: fragments, markers,
// counters, data and failures are those of an object which did nothing before
template <typename C>
static void history(uint64_t what)
{
    auto& c = *static_cast<C*>(g_code);
    auto& f = *static_cast<C*>(g_fresh);
    const int unit = Traits<C>::unit(g->ws);
    const Shape* const now = g;
    Shape before = *g;
    before.sym = 0;
    before.words = g->words + 1;
    const unsigned all = (1u << (g->k + g->m)) - 1;
    const unsigned first = (1u << g->m) - 1, last = all & ~(all >> g->m);
    const unsigned few = all & ~(all >> (g->m + 1));
    g = &before;
    {
        Streams s(Traits<C>::q(g->ws), unit);
        // symbols which sum up to the value that does not fit
        for (int i = 0; i < s.k; ++i) {
            for (size_t j = 0; j < g->words; ++j)
                for (int b = 0; b < s.ws; ++b)
                    s.data[i][j * s.ws + b] = i == 0 ? 0xff : i == 1 && b == 0;
            s.snap[i] = qa_snap(s.data[i], s.bs);
        }
        s.encode(c);
        std::vector<uint8_t*> res;
        std::vector<std::ostream*> os;
        const unsigned lost[] = {0, last, few, all & ~((1u << g->k) - 1), first};
        if (what >> 1)
            s.decode(c, lost[what >> 1], 0, res, os);
    }
    g = now;
    Streams a(Traits<C>::q(g->ws), unit), b(Traits<C>::q(g->ws), unit);
    for (int i = 0; i < a.k; ++i) {
        for (size_t j = 0; j < a.bs; ++j)
            b.data[i][j] = a.data[i][j];
        b.snap[i] = qa_snap(b.data[i], b.bs);
    }
    a.encode(c);
    b.encode(f);
    for (int i = a.off; i < a.n; ++i)
        qa_eq_mem(a.frag[i], b.frag[i], g->words * (a.ws / unit), unit,
                  "the same fragments as a fresh object");
    for (size_t i = 0; i < a.props.size(); ++i) {
        auto &x = a.props[i].get_map(), &y = b.props[i].get_map();
        qa_true(x.size() == y.size(), "the same markers as a fresh object");
        for (size_t j = 0; j < x.size() && j < y.size(); ++j)
            qa_true(x[j] == y[j], "the same markers as a fresh object");
    }
    // what the used object decodes is what the fresh one encoded
    std::vector<uint8_t*> res;
    std::vector<std::ostream*> os;
    const bool ok = b.decode(c, what & 1 ? last : first, 0, res, os);
    qa_true(ok, "decode succeeds");
    if (!(g->sys && !((what & 1 ? last : first) & ((1u << a.k) - 1))))
        for (int i = 0; i < a.k; ++i)
            qa_eq_mem(res[i], a.data[i], g->words * (a.ws / unit), unit,
                      "restored data equals the original");
    std::vector<uint8_t*> res2;
    std::vector<std::ostream*> os2;
    qa_true(!b.decode(c, few, 0, res2, os2), "failure is reported again");
    qa_done();
}

// two decodes of different fragments, one after the other
template <typename C>
static void pairs(uint64_t lost)
{
    auto& c = *static_cast<C*>(g_code);
    const int unit = Traits<C>::unit(g->ws);
    Shape plain = *g;
    const Shape* const now = g;
    plain.sym = 0;
    g = &plain;
    Streams a(Traits<C>::q(g->ws), unit), b(Traits<C>::q(g->ws), unit);
    for (int i = 0; i < b.k; ++i) {
        for (size_t j = 0; j < b.bs; ++j)
            b.data[i][j] = uint8_t(11 * i + 5 * j + 29);
        b.snap[i] = qa_snap(b.data[i], b.bs);
    }
    a.encode(c);
    b.encode(c);
    for (unsigned second = 0; second < (1u << a.n); ++second) {
        if (__builtin_popcount(second) > g->m)
            continue;
        std::vector<uint8_t*> ra, rb;
        std::vector<std::ostream*> oa, ob;
        qa_true(a.decode(c, unsigned(lost), 0, ra, oa), "the first decode succeeds");
        qa_true(b.decode(c, second, 0, rb, ob), "the second decode succeeds");
        if (!(g->sys && !(second & ((1u << b.k) - 1))))
            for (int i = 0; i < b.k; ++i)
                qa_eq_mem(rb[i], b.data[i], g->words * (b.ws / unit), unit,
                          "the second decode restores the data");
    }
    g = now;
    qa_done();
}

template <typename C, typename... Args>
static void all(const Shape& s, int what, Args... args)
{
    const int n = s.k + s.m;
    C c(args...);
    g = &s;
    g_code = &c;
    if (what == 3) {
        C f(args...);
        g_fresh = &f;
        for (uint64_t h = 0; h < 10; ++h)
            qa_scope(history<C>, h, "history");
        return;
    }
    if (what == 5) {
        for (uint64_t w = 0; w < 6; ++w)
            qa_scope(wide<C>, w, "way to lose fragments");
        return;
    }
    if (what == 7) {
        for (uint64_t w = 0; w < 2; ++w)
            qa_scope(wide<C>, w, "way to lose fragments");
        return;
    }
    if (what == 6) {
        qa_scope(wide_seq<C>, 0, "one loss after the other");
        return;
    }
    if (what == 4) {
        for (unsigned lost = 0; lost < (1u << n); ++lost)
            if (__builtin_popcount(lost) == s.m)
                qa_scope(pairs<C>, lost, "mask of the first loss");
        return;
    }
    for (unsigned lost = 0; lost < (1u << n); ++lost) {
        int p = __builtin_popcount(lost);
        if (what == 0 && qa_pattern(s.sym, lost, n, s.m))
            qa_scope(roundtrip<C>, lost, "lost fragments mask");
        if (what == 1 && p > s.m)
            qa_scope(toofew<C>, lost, "lost fragments mask");
        if (what == 2)
            qa_scope(unwanted<C>, lost, "unwanted mask");
    }
}
