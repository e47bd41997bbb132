// Shows the defects repaired by the "fix:" commits against the real code.
// usage: demo CASE   (exit 0: behaves, otherwise not)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/resource.h>
#include "quadiron.h"
extern "C" {
#include "quadiron_c.h"
}
using namespace quadiron;

struct Ctx {
    QuadironFnt32* h;
    int k, m, n, sys;
    size_t bs, meta;
    std::vector<std::vector<uint8_t>> d, p, o;
    std::vector<uint8_t*> dp, pp;
    std::vector<int> w, miss;
    Ctx(int ws, int k, int m, int sys, size_t bs) : k(k), m(m), n(k + m), sys(sys), bs(bs)
    {
        h = quadiron_fnt32_new(ws, k, m, sys);
        meta = quadiron_fnt32_get_metadata_size(h, bs);
        for (int i = 0; i < k; i++) {
            d.emplace_back(meta + bs, 0xAB);
            o.emplace_back(bs);
            for (size_t j = 0; j < bs; j++)
                o[i][j] = d[i][meta + j] = uint8_t(17 * i + 31 * j + 5);
        }
        for (int i = 0; i < m; i++)
            p.emplace_back(meta + bs, 0xAB);
        for (auto& x : d)
            dp.push_back(x.data());
        for (auto& x : p)
            pp.push_back(x.data());
        w.assign(n, 1);
        miss.assign(n, 0);
    }
    int enc() { return quadiron_fnt32_encode(h, dp.data(), pp.data(), w.data(), bs); }
};

int main(int argc, char** argv)
{
    std::string c = argc > 1 ? argv[1] : "";
    if (c == "header-fill") { // the last header word must be written
        Properties pr;
        uint32_t a[4] = {7, 7, 7, 7};
        if (pr.fnt_serialize(a, 4) != 0) return 1;
        return a[3] == 0 ? 0 : 1;
    }
    if (c == "header-full") { // as many markers as fit
        Properties pr;
        pr.add(3, 1);
        std::vector<uint32_t> a(3, 7);
        return pr.fnt_serialize(a.data(), 3) == 0 ? 0 : 1;
    }
    if (c == "header-count") { // a count close to 2^32 must be rejected
        uint32_t a[4] = {htonl(Properties::FNT1), 0xffffffffu, 0, 0};
        Properties pr;
        return pr.fnt_deserialize(a, 4) == -1 ? 0 : 1;
    }
    if (c == "header-wide") { // a location above 32 bits must be rejected
        Properties pr;
        pr.add(size_t(1) << 32, 1);
        std::vector<uint32_t> a(8, 7);
        return pr.fnt_serialize(a.data(), 8) == -1 ? 0 : 1;
    }
    if (c == "decode-sys") { // fewer parities than data (run under ASan)
        Ctx x(2, 8, 1, 1, 64);
        x.enc();
        x.miss[0] = 1;
        memset(x.dp[0], 0, x.meta + x.bs);
        if (quadiron_fnt32_decode(x.h, x.dp.data(), x.pp.data(), x.miss.data(), x.bs)) return 1;
        return memcmp(x.dp[0] + x.meta, x.o[0].data(), x.bs) ? 1 : 0;
    }
    if (c == "reconstruct-sys") { // a data block, fewer parities than data
        Ctx x(2, 200, 1, 1, 64);
        x.enc();
        x.miss[199] = 1;
        memset(x.dp[199], 0, x.meta + x.bs);
        if (quadiron_fnt32_reconstruct(x.h, x.dp.data(), x.pp.data(), x.miss.data(), 199, x.bs)) return 1;
        return memcmp(x.dp[199] + x.meta, x.o[199].data(), x.bs) ? 1 : 0;
    }
    if (c == "encode-unwanted") { // NULL for an unwanted parity, as documented
        Ctx x(2, 2, 2, 1, 64);
        x.w[1] = 0;
        x.pp[1] = nullptr;
        return x.enc() == 0 ? 0 : 1;
    }
    if (c == "word-size-1") { // SIMD builds: 8-bit words over 32-bit elements
        Ctx x(1, 3, 2, 1, 512);
        x.enc();
        x.miss[0] = x.miss[2] = 1;
        memset(x.dp[0], 0, x.meta + x.bs);
        memset(x.dp[2], 0, x.meta + x.bs);
        if (quadiron_fnt32_decode(x.h, x.dp.data(), x.pp.data(), x.miss.data(), x.bs)) return 1;
        return memcmp(x.dp[0] + x.meta, x.o[0].data(), x.bs) || memcmp(x.dp[2] + x.meta, x.o[2].data(), x.bs) ? 1 : 0;
    }
    if (c == "exception") { // out of memory must not cross the C interface
        struct rlimit rl = {64 << 20, 64 << 20};
        setrlimit(RLIMIT_AS, &rl);
        return quadiron_fnt32_new(2, 20000, 20000, 1) == nullptr ? 0 : 1;
    }
    if (c == "stream-unwanted") { // nullptr for an unwanted output, as documented
        fec::RsFnt<uint32_t> f(fec::FecType::NON_SYSTEMATIC, 2, 2, 1, 8);
        std::istringstream a(std::string(32, 'a')), b(std::string(32, 'b'));
        std::ostringstream q, r;
        std::vector<std::istream*> in = {&a, &b};
        std::vector<std::ostream*> out = {&q, nullptr, &r};
        std::vector<Properties> pr(3);
        f.encode_streams_vertical(in, out, pr);
        a.clear(); a.seekg(0); b.clear(); b.seekg(0);
        f.encode_streams_horizontal(in, out, pr);
        return 0;
    }
    if (c == "gfp-word-size") { // an unsupported word size: an exception
        try {
            fec::RsGfpFft<uint64_t> f(8, 2, 2);
        } catch (const Exception&) {
            return 0;
        }
        return 1;
    }
    return 2;
}
