// Entry states for the markers of symbols which do not fit in a word: which
// positions the encoder records, which positions the decoder replaces.
#include "qa.h"
#include "quadiron.h"
using namespace quadiron;

template <typename T>
struct M {
    static fec::RsFnt<T>* code;
    static int k, m, ws, sys;
    static size_t pkt;
    static uint64_t q, offset;

    static unsigned count(const Properties& p, uint64_t loc)
    {
        unsigned c = 0;
        for (auto& e : p.get_map())
            if (e.first == loc && e.second == OOR_MARK)
                ++c;
        return c;
    }

    // position `pos` of each output holds any field element
    static void record(uint64_t pos)
    {
        const int nout = int(code->n_outputs);
        qa_mod(q);
        vec::Buffers<T> out(nout, pkt);
        std::vector<T*> keep;
        for (int i = 0; i < nout; ++i) {
            T* c = out.get(i);
            T* o = reinterpret_cast<T*>(qa_buf(pkt * sizeof(T), "values"));
            for (size_t j = 0; j < pkt; ++j)
                if (j == pos)
                    c[j] = T(qa_u(0, q - 1, "symbol"));
                else
                    c[j] = T((j + i) % 4 == 0 ? q - 1 : (j * 77 + i * 5) % (q - 1));
            for (size_t j = 0; j < pkt; ++j)
                o[j] = c[j];
            keep.push_back(o);
        }
        std::vector<Properties> props(nout);
        props[0].add(offset + pkt + 1, OOR_MARK); // already there
        code->encode_post_process(out, props, off_t(offset));
        for (int i = 0; i < nout; ++i) {
            size_t total = i == 0;
            for (size_t j = 0; j < pkt; ++j) {
                const bool m = keep[i][j] == T(q - 1);
                total += m;
                qa_true(count(props[i], offset + j) == (m ? 1u : 0u),
                        "a position is recorded if and only if it does not fit");
            }
            qa_true(props[i].get_map().size() == total, "nothing else is recorded");
        }
        qa_true(count(props[0], offset + pkt + 1) == 1, "earlier markers are kept");
        for (int i = 0; i < nout; ++i)
            for (size_t j = 0; j < pkt; ++j)
                if (keep[i][j] != T(q - 1))
                    qa_eq(out.get(i)[j], keep[i][j], "symbols which fit are left alone");
        qa_done();
    }

    // whole blocks and streams: markers of all packets, and nothing else
    static void whole(uint64_t what)
    {
        const size_t words = what & 0xff;
        const uint64_t kind = what >> 8; // 0 blocks, 1 streams, 2 streams of words
        const int nout = int(code->n_outputs);
        const size_t bs = words * ws;
        std::vector<uint8_t*> data, out;
        qa_mod(q);
        for (int i = 0; i < k; ++i) {
            data.push_back(reinterpret_cast<uint8_t*>(qa_buf(bs, "data")));
            for (size_t j = 0; j < words; ++j)
                if (kind == 2 ? j == 1 : (j == 0 || j + 1 == words))
                    qa_fill(data[i] + j * ws, 1, ws, 0, q - 2, "d");
                else // symbols with the sum q - 1
                    for (int b = 0; b < ws; ++b)
                        data[i][j * ws + b] = i == 0 ? 0xff : i == 1 && b == 0;
        }
        std::vector<Properties> props(nout);
        for (int i = 0; i < nout; ++i) {
            out.push_back(reinterpret_cast<uint8_t*>(qa_buf(bs, "fragment")));
            props[i].add(3, OOR_MARK); // left over from an earlier use
        }
        if (kind == 0) {
            std::vector<bool> wanted(nout, true);
            code->encode_blocks_vertical(data, out, props, wanted, bs);
        } else {
            std::vector<std::istream*> is;
            std::vector<std::ostream*> os;
            for (auto d : data)
                is.push_back(static_cast<std::istream*>(qa_istream(d, bs)));
            for (auto o : out)
                os.push_back(static_cast<std::ostream*>(qa_ostream(o, bs)));
            if (kind == 1)
                code->encode_streams_vertical(is, os, props);
            else
                code->encode_streams_horizontal(is, os, props);
        }
        // the symbols, packet by packet, from the encoder of packets
        std::vector<size_t> total(nout, 0);
        for (size_t from = 0; from < words; from += pkt) {
            vec::Buffers<T> w(k, pkt), o(code->get_n_outputs(), pkt);
            std::vector<Properties> dummy(nout);
            for (int i = 0; i < k; ++i)
                for (size_t j = 0; j < pkt; ++j) {
                    T x = 0;
                    if (from + j < words)
                        for (int b = ws - 1; b >= 0; --b)
                            x = T(x << 8) | data[i][(from + j) * ws + b];
                    w.get(i)[j] = x;
                }
            code->encode(o, dummy, 0, w);
            for (int i = 0; i < nout; ++i)
                for (size_t j = 0; j < pkt && from + j < words; ++j) {
                    const bool m = o.get(i)[j] == T(q - 1);
                    total[i] += m;
                    qa_true(count(props[i], from + j) == (m ? 1u : 0u),
                            "a position is recorded if and only if it does not fit");
                    if (!m)
                        for (int b = 0; b < ws; ++b)
                            qa_eq(out[i][(from + j) * ws + b], uint8_t(o.get(i)[j] >> (8 * b)),
                                  "symbols which fit are stored");
                }
        }
        for (int i = 0; i < nout; ++i)
            qa_true(props[i].get_map().size() == total[i], "nothing else is recorded");
        qa_done();
    }

    // one symbol of each output of the word-wise encoder
    static void record_word(uint64_t)
    {
        const int nout = int(code->n_outputs);
        qa_mod(q);
        vec::Vector<T> out(code->get_gf(), nout);
        T v[16];
        for (int i = 0; i < nout; ++i) {
            v[i] = T(qa_u(0, q - 1, "symbol"));
            out.set(i, v[i]);
        }
        std::vector<Properties> props(nout);
        props[0].add(offset + 1, OOR_MARK);
        code->encode_post_process(out, props, off_t(offset));
        for (int i = 0; i < nout; ++i) {
            const bool m = v[i] == T(q - 1);
            qa_true(count(props[i], offset) == (m ? 1u : 0u),
                    "a position is recorded if and only if it does not fit");
            qa_true(props[i].get_map().size() == size_t(m) + (i == 0),
                    "nothing else is recorded");
            if (!m)
                qa_eq(out.get(i), v[i], "symbols left alone");
        }
        qa_done();
    }

    static bool received(int id, unsigned lost)
    {
        return !((lost >> id) & 1);
    }

    // Markers at positions chosen by `what` (bit set: offsets -1 - pkt .. 2 pkt
    // relative to the packet): decoding equals decoding of replaced symbols.
    static void restore(uint64_t what)
    {
        const int n = k + m, nout = sys ? m : n, off = sys ? k : 0;
        const unsigned lost = (1u << m) - 1;
        qa_mod(q);
        vec::Buffers<T> w1(k, pkt), w2(k, pkt), o1(k, pkt), o2(k, pkt);
        for (int i = 0; i < k; ++i)
            for (size_t j = 0; j < pkt; ++j) {
                T x = T(j == what % pkt ? qa_u(0, q - 2, "symbol") : (j * 31 + i) % (q - 1));
                w1.get(i)[j] = x;
                w2.get(i)[j] = x;
            }
        vec::Vector<T> ids(code->get_gf(), k);
        std::vector<Properties> p1(code->n_outputs), p2(code->n_outputs);
        int f = 0;
        for (int id = 0; id < n && f < k; ++id) {
            if (!received(id, lost))
                continue;
            ids.set(f, id);
            if (!sys || id >= k) {
                Properties& p = p1[id - off];
                // in this packet: the last ones first (any order is allowed)
                for (size_t j = pkt; j-- > 0;)
                    if ((j + f) % 3 == what % 3) {
                        p.add(offset + j, OOR_MARK);
                        w2.get(f)[j] = T(q - 1);
                    }
                // other packets of the fragment
                p.add(offset + pkt, OOR_MARK);
                p.add(offset + 2 * pkt - 1, OOR_MARK);
                // not an escape
                if (what % 3 != 2)
                    p.add(offset + pkt + 1, 0);
            }
            ++f;
        }
        for (int i = 0; i < nout; ++i)
            if (!received(off + i, lost)) // markers of a lost fragment
                p1[i].add(offset + what % pkt, OOR_MARK);
        auto c1 = code->init_context_dec(ids, p1, pkt, &o1);
        code->decode(*c1, o1, p1, off_t(offset), w1);
        auto c2 = code->init_context_dec(ids, p2, pkt, &o2);
        code->decode(*c2, o2, p2, off_t(offset), w2);
        for (int i = 0; i < k; ++i)
            qa_eq_mem(o1.get(i), o2.get(i), pkt, sizeof(T),
                      "exactly the recorded positions are replaced");
        // the next packet finds its own markers
        for (int i = 0; i < k; ++i)
            for (size_t j = 0; j < pkt; ++j)
                w1.get(i)[j] = w2.get(i)[j] = T((j * 13 + i) % (q - 1));
        f = 0;
        for (int id = 0; id < n && f < k; ++id) {
            if (!received(id, lost))
                continue;
            if (!sys || id >= k) {
                w2.get(f)[0] = T(q - 1);
                w2.get(f)[pkt - 1] = T(q - 1);
            }
            ++f;
        }
        code->decode(*c1, o1, p1, off_t(offset + pkt), w1);
        code->decode(*c2, o2, p2, off_t(offset + pkt), w2);
        for (int i = 0; i < k; ++i)
            qa_eq_mem(o1.get(i), o2.get(i), pkt, sizeof(T),
                      "markers of the next packet are kept for it");
        qa_done();
    }

    // word-wise decoding (not systematic)
    static void restore_word(uint64_t what)
    {
        const int n = k + m;
        const unsigned lost = (1u << m) - 1;
        qa_mod(q);
        vec::Vector<T> ids(code->get_gf(), k);
        std::vector<Properties> p1(code->n_outputs), p2(code->n_outputs);
        int f = 0;
        for (int id = 0; id < n && f < k; ++id)
            if (received(id, lost)) {
                for (int j = 2; j >= 0; --j)
                    if (((f + j) & 1) == int(what & 1))
                        p1[id].add(offset + j, OOR_MARK);
                ids.set(f++, id);
            }
        auto c1 = code->init_context_dec(ids, p1);
        auto c2 = code->init_context_dec(ids, p2);
        for (int j = 0; j < 3; ++j) {
            vec::Vector<T> w1(code->get_gf(), n), w2(code->get_gf(), n);
            vec::Vector<T> o1(code->get_gf(), k), o2(code->get_gf(), k);
            w1.zero_fill();
            w2.zero_fill();
            for (int i = 0; i < k; ++i) {
                T x = T(qa_u(0, q - 2, "symbol"));
                w1.set(i, x);
                w2.set(i, ((i + j) & 1) == int(what & 1) ? T(q - 1) : x);
            }
            code->decode(*c1, o1, p1, off_t(offset + j), w1);
            code->decode(*c2, o2, p2, off_t(offset + j), w2);
            for (int i = 0; i < k; ++i)
                qa_eq(o1.get(i), o2.get(i), "exactly the recorded positions are replaced");
        }
        qa_done();
    }

    static void run(int w, int kk, int mm, int s, size_t pk, uint64_t o, void (*f)(uint64_t),
                    uint64_t from, uint64_t to)
    {
        fec::RsFnt<T> c(
            s ? fec::FecType::SYSTEMATIC : fec::FecType::NON_SYSTEMATIC, w, kk, mm, pk);
        code = &c;
        k = kk, m = mm, ws = w, sys = s, pkt = pk, offset = o;
        q = w == 1 ? 257 : 65537;
        for (uint64_t a = from; a < to; ++a)
            qa_scope(f, a, "position");
    }
};
template <typename T> fec::RsFnt<T>* M<T>::code;
template <typename T> int M<T>::k;
template <typename T> int M<T>::m;
template <typename T> int M<T>::ws;
template <typename T> int M<T>::sys;
template <typename T> size_t M<T>::pkt;
template <typename T> uint64_t M<T>::q;
template <typename T> uint64_t M<T>::offset;

#define W2(NAME, FN, K, MM, S, PKT, OFF, FROM, TO) \
    extern "C" void qah_##NAME() { M<uint32_t>::run(2, K, MM, S, PKT, OFF, M<uint32_t>::FN, FROM, TO); }
#define W1(NAME, FN, K, MM, S, PKT, OFF, FROM, TO) \
    extern "C" void qah_##NAME() { M<uint16_t>::run(1, K, MM, S, PKT, OFF, M<uint16_t>::FN, FROM, TO); }
W2(rec_w2_0, record, 2, 1, 0, 19, 0, 0, 19)
W2(rec_w2_s, record, 2, 2, 1, 8, 24, 0, 8)
W2(rec_w2_32, record, 2, 1, 0, 19, (1ull << 32) - 7, 0, 19)
W2(rec_w2_40, record, 2, 1, 0, 11, (1ull << 40) + 11, 0, 11)
W2(rec_w2_3, record, 2, 1, 0, 3, 6, 0, 3)
W1(rec_w1_0, record, 2, 1, 0, 35, 0, 0, 35)
W1(rec_w1_s, record, 2, 2, 1, 16, 48, 0, 16)
W1(rec_w1_32, record, 2, 1, 0, 35, (1ull << 32) - 20, 0, 35)
W1(rec_w1_5, record, 2, 1, 0, 5, 10, 0, 5)
W2(recb_w2_n21, whole, 2, 1, 0, 8, 0, 11, 12)
W2(recb_w2_n21_2, whole, 2, 1, 0, 8, 0, 16, 17)
W2(recb_w2_s22, whole, 2, 2, 1, 8, 0, 11, 12)
W2(recb_w2_s12, whole, 1, 2, 1, 4, 0, 6, 7)
W1(recb_w1_n21, whole, 2, 1, 0, 16, 0, 19, 20)
W2(recs_w2_n21, whole, 2, 1, 0, 8, 0, 256 + 11, 256 + 12)
W2(recs_w2_s22, whole, 2, 2, 1, 8, 0, 256 + 11, 256 + 12)
W1(recs_w1_n21, whole, 2, 1, 0, 16, 0, 256 + 19, 256 + 20)
W2(rech_w2_n21, whole, 2, 1, 0, 8, 0, 512 + 2, 512 + 3)
W1(rech_w1_n21, whole, 2, 1, 0, 8, 0, 512 + 3, 512 + 4)
W2(recw_w2, record_word, 2, 2, 0, 8, 5, 0, 1)
W2(recw_w2_40, record_word, 2, 2, 0, 8, (1ull << 40) + 5, 0, 1)
W1(recw_w1, record_word, 2, 2, 0, 8, (1ull << 32), 0, 1)
W2(res_w2_0, restore, 2, 1, 0, 11, 0, 0, 11)
W2(res_w2_n, restore, 3, 2, 0, 8, 16, 0, 8)
W2(res_w2_s, restore, 2, 2, 1, 11, 22, 0, 11)
W2(res_w2_s1, restore, 2, 1, 1, 8, 8, 0, 8)
W2(res_w2_32, restore, 2, 1, 0, 11, (1ull << 32) - 5, 0, 11)
W2(res_w2_40, restore, 2, 2, 1, 8, (1ull << 40) + 8, 0, 8)
W1(res_w1_0, restore, 2, 1, 0, 19, 19, 0, 19)
W1(res_w1_s, restore, 2, 2, 1, 16, (1ull << 32) - 8, 0, 16)
W2(resw_w2, restore_word, 2, 1, 0, 8, 0, 0, 2)
W2(resw_w2_40, restore_word, 2, 1, 0, 8, (1ull << 40) + 3, 0, 2)
W1(resw_w1, restore_word, 2, 2, 0, 8, (1ull << 32) - 1, 0, 2)
