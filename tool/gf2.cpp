// Values which are linear over GF(2) in the bits of the inputs, and values
// which are a function of one small symbol (table look-ups).
#include "value.h"

#include <algorithm>

namespace qai {

bool gGf2 = false;
static const unsigned DOM_BITS = 16;
static const i128 NONE = GF2_NONE;

// the bits of a symbol as functions of input bits: [0] is the lowest
typedef std::vector<uint32_t> Row; // sorted input bits, ONE: the constant
static const uint32_t ONE = ~0u;
typedef std::vector<Row> Rows;

static std::map<Rows, int> gCanon2;
static std::map<int, Rows> gRows2;
static std::map<std::pair<int, std::vector<i128>>, int> gTabs;
static std::map<int, std::pair<int, std::vector<i128>>> gTabOf;

void gf2Reset()
{
    gCanon2.clear();
    gRows2.clear();
    gTabs.clear();
    gTabOf.clear();
}

static Row rxor(const Row& a, const Row& b)
{
    Row r;
    std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(),
                                  std::back_inserter(r));
    return r;
}

static unsigned bitsOfBase(int s)
{
    const Sym& y = gSyms[size_t(s)];
    if (y.def || y.form || y.opaque || y.lo != 0 || y.hi <= 0) return 0;
    if (gTabOf.count(s)) return 0;
    i128 n = y.hi + 1;
    if (n & (n - 1)) return 0;
    unsigned k = 0;
    while ((i128(1) << k) < n) k++;
    return k <= 64 ? k : 0;
}

static bool rowsOf(int s, Rows& r)
{
    auto it = gRows2.find(s);
    if (it != gRows2.end()) {
        r = it->second;
        return true;
    }
    unsigned k = bitsOfBase(s);
    if (!k) return false;
    r.clear();
    for (unsigned i = 0; i < k; i++) r.push_back({uint32_t(s) * 64 + i});
    return true;
}

static bool rowsOf(const Poly& p, Rows& r)
{
    r.clear();
    if (p.isConst()) {
        if (p.c < 0) return false;
        for (i128 v = p.c; v; v >>= 1)
            r.push_back(v & 1 ? Row{ONE} : Row{});
        return true;
    }
    if (p.c != 0 || p.t.size() != 1 || p.t[0].second != 1) return false;
    auto& m = gMonos[size_t(p.t[0].first)];
    return m.size() == 1 && rowsOf(m[0], r);
}

static Poly polyOf(Rows r)
{
    while (!r.empty() && r.back().empty()) r.pop_back();
    bool cst = true;
    for (auto& x : r) cst &= x.empty() || (x.size() == 1 && x[0] == ONE);
    if (cst) {
        i128 v = 0;
        for (size_t i = r.size(); i-- > 0;) v = v * 2 + !r[i].empty();
        return pconst(v);
    }
    // the input itself
    if (r[0].size() == 1 && r[0][0] != ONE && r[0][0] % 64 == 0) {
        int s = int(r[0][0] / 64);
        bool id = bitsOfBase(s) == r.size();
        for (size_t i = 0; id && i < r.size(); i++)
            id = r[i].size() == 1 && r[i][0] == r[0][0] + i;
        if (id) return psym(s);
    }
    auto it = gCanon2.find(r);
    if (it != gCanon2.end()) return psym(it->second);
    int s = newSym(0, (i128(1) << r.size()) - 1,
                   "x" + std::to_string(gSyms.size()));
    gSyms[size_t(s)].linear = true;
    gRows2[s] = r;
    gCanon2[r] = s;
    return psym(s);
}

static bool width(const Rows& r) { return r.size() <= 64; }

bool gf2Xor(const Poly& a, const Poly& b, Poly& out)
{
    Rows x, y;
    if (!rowsOf(a, x) || !rowsOf(b, y) || !width(x) || !width(y)) return false;
    if (x.size() < y.size()) x.swap(y);
    for (size_t i = 0; i < y.size(); i++) x[i] = rxor(x[i], y[i]);
    out = polyOf(x);
    return true;
}
bool gf2Or(const Poly& a, const Poly& b, Poly& out)
{
    Rows x, y;
    if (!rowsOf(a, x) || !rowsOf(b, y) || !width(x) || !width(y)) return false;
    if (x.size() < y.size()) x.swap(y);
    for (size_t i = 0; i < y.size(); i++) {
        if (y[i].empty()) continue;
        if (!x[i].empty() && x[i] != y[i]) return false;
        x[i] = y[i];
    }
    out = polyOf(x);
    return true;
}
bool gf2Slice(const Poly& a, unsigned off, unsigned w, Poly& out)
{
    Rows x, y;
    if (!rowsOf(a, x) || !width(x)) return false;
    for (unsigned i = 0; i < w && off + i < x.size(); i++)
        y.push_back(x[off + i]);
    out = polyOf(y);
    return true;
}
bool gf2Shl(const Poly& a, unsigned n, unsigned w, Poly& out)
{
    Rows x, y(n);
    if (!rowsOf(a, x) || !width(x)) return false;
    for (auto& r : x) y.push_back(r);
    if (y.size() > w) y.resize(w);
    if (y.size() > 64) return false;
    out = polyOf(y);
    return true;
}
// lowest part first
bool gf2Concat(const std::vector<std::pair<Poly, unsigned>>& ps, Poly& out)
{
    Rows y;
    for (auto& p : ps) {
        Rows x;
        if (!rowsOf(p.first, x) || x.size() > p.second) return false;
        size_t n = y.size();
        for (auto& r : x) y.push_back(r);
        y.resize(n + p.second);
    }
    while (!y.empty() && y.back().empty()) y.pop_back();
    if (y.size() > 64) return false;
    out = polyOf(y);
    return true;
}

// -------------------------------------------------- functions of one symbol
// the columns of the linear map which gives d from c
static bool linearIn(const Rows& d, const Rows& c, std::vector<uint64_t>& m)
{
    // reduced echelon form of the bits of c, with the combination kept
    struct E {
        Row r;
        uint64_t k;
    };
    std::vector<E> es;
    auto reduce = [&](Row r, uint64_t k) {
        for (auto& e : es) {
            if (e.r.empty()) continue;
            if (std::binary_search(r.begin(), r.end(), e.r[0])) {
                r = rxor(r, e.r);
                k ^= e.k;
            }
        }
        return E{r, k};
    };
    for (size_t i = 0; i < c.size(); i++) {
        E e = reduce(c[i], uint64_t(1) << i);
        if (e.r.empty() || e.r[0] == ONE) continue;
        for (auto& o : es)
            if (std::binary_search(o.r.begin(), o.r.end(), e.r[0])) {
                o.r = rxor(o.r, e.r);
                o.k ^= e.k;
            }
        es.push_back(e);
    }
    // m[j]: bits of c which are summed for bit j; bit 63 the constant
    m.clear();
    if (c.size() > 60) return false;
    for (auto& r : d) {
        E e = reduce(r, 0);
        if (e.r.size() == 1 && e.r[0] == ONE)
            e.k |= uint64_t(1) << 63;
        else if (!e.r.empty())
            return false;
        m.push_back(e.k);
    }
    return true;
}

static bool symVec(int s, int root, unsigned k, std::vector<i128>& out)
{
    size_t n = size_t(1) << k;
    if (s == root) {
        out.resize(n);
        for (size_t i = 0; i < n; i++) out[i] = i128(i);
        return true;
    }
    auto t = gTabOf.find(s);
    if (t != gTabOf.end()) {
        if (t->second.first != root) return false;
        out = t->second.second;
        return true;
    }
    Rows d, c;
    std::vector<uint64_t> m;
    if (!rowsOf(s, d) || !rowsOf(root, c) || !linearIn(d, c, m)) return false;
    std::vector<i128> col(k, 0);
    i128 c0 = 0;
    for (size_t j = 0; j < m.size(); j++) {
        if (m[j] >> 63) c0 |= i128(1) << j;
        for (unsigned i = 0; i < k; i++)
            if ((m[j] >> i) & 1) col[i] |= i128(1) << j;
    }
    out.assign(n, c0);
    for (size_t i = 1; i < n; i++)
        out[i] = out[i & (i - 1)] ^ col[size_t(__builtin_ctzll(i))];
    return true;
}

struct VecCache {
    int root;
    unsigned k;
    std::map<int, std::vector<i128>> v;
    bool get(int s, const std::vector<i128>*& o)
    {
        auto it = v.find(s);
        if (it == v.end()) {
            std::vector<i128> x;
            if (!symVec(s, root, k, x)) return false;
            it = v.emplace(s, std::move(x)).first;
        }
        o = &it->second;
        return true;
    }
    bool poly(const Poly& p, std::vector<i128>& out)
    {
        size_t n = size_t(1) << k;
        out.assign(n, p.c);
        for (auto& x : p.t) {
            auto& mono = gMonos[size_t(x.first)];
            std::vector<const std::vector<i128>*> f;
            for (int s : mono) {
                const std::vector<i128>* y;
                if (!get(s, y)) return false;
                f.push_back(y);
            }
            for (size_t i = 0; i < n; i++) {
                if (out[i] == NONE) continue;
                i128 z = x.second;
                for (auto* y : f) {
                    if ((*y)[i] == NONE) {
                        z = NONE;
                        break;
                    }
                    z *= (*y)[i];
                }
                out[i] = z == NONE ? NONE : out[i] + z;
            }
        }
        return true;
    }
    // feasible &= cons
    bool restrict(const Cons& c, std::vector<char>& ok)
    {
        std::vector<i128> v;
        if (!poly(c.p, v)) return false;
        for (size_t i = 0; i < v.size(); i++)
            if (v[i] == NONE || v[i] < c.lo || v[i] > c.hi) ok[i] = 0;
        return true;
    }
};

static void rootsOf(const Poly& p, std::set<int>& r)
{
    for (auto& x : p.t)
        for (int s : gMonos[size_t(x.first)]) {
            auto t = gTabOf.find(s);
            r.insert(t == gTabOf.end() ? s : t->second.first);
        }
}

bool gf2Func(const Val& v, const Facts& f, int& root, std::vector<i128>& out,
             bool* exact)
{
    Abs a;
    if (!toAbs(v, f, a)) return false;
    std::set<int> rs;
    for (auto& p : a.ps) {
        rootsOf(p.p, rs);
        for (auto& c : p.cs) rootsOf(c.p, rs);
    }
    for (int r : rs) {
        Rows x;
        if (!rowsOf(r, x) || x.size() > DOM_BITS) continue;
        VecCache vc{r, unsigned(x.size()), {}};
        const size_t n = size_t(1) << x.size();
        bool all = true;
        for (int s : rs) {
            const std::vector<i128>* y;
            if (!vc.get(s, y)) {
                all = false;
                break;
            }
        }
        if (!all) continue;
        std::vector<char> ok(n, 1);
        bool ex = !f.approx;
        for (auto& c : f.cons) ex &= vc.restrict(c, ok);
        for (auto& e : f.excluded) {
            std::vector<char> in(n, 1);
            bool known = true;
            for (auto& c : e) known &= vc.restrict(c, in);
            ex &= known;
            if (known && !e.empty())
                for (size_t i = 0; i < n; i++)
                    if (in[i]) ok[i] = 0;
        }
        out.assign(n, NONE);
        bool good = true;
        for (auto& p : a.ps) {
            std::vector<char> in = ok;
            for (auto& c : p.cs)
                if (!vc.restrict(c, in)) good = false;
            std::vector<i128> y;
            if (!good || !vc.poly(p.p, y)) {
                good = false;
                break;
            }
            for (size_t i = 0; i < n; i++) {
                if (!in[i] || y[i] == NONE) continue;
                if (out[i] != NONE && out[i] != y[i]) good = false;
                out[i] = y[i];
            }
        }
        if (!good) continue;
        if (exact) *exact = ex;
        root = r;
        return true;
    }
    return false;
}

// value of the table at every feasible point; NONE elsewhere
static bool linearFit(const std::vector<i128>& t, unsigned k,
                      std::vector<uint64_t>& col, uint64_t& c0)
{
    struct B {
        uint32_t x;
        uint64_t y;
    };
    const size_t n = t.size();
    c0 = t[0] == NONE ? 0 : uint64_t(t[0]);
    std::vector<B> basis(k, B{0, 0});
    size_t rank = 0;
    for (size_t i = 1; i < n && rank < k; i++) {
        if (t[i] == NONE) continue;
        uint32_t x = uint32_t(i);
        uint64_t y = uint64_t(t[i]) ^ c0;
        for (unsigned b = k; b-- > 0;) {
            if (!((x >> b) & 1)) continue;
            if (basis[b].x) {
                x ^= basis[b].x;
                y ^= basis[b].y;
            } else {
                basis[b] = {x, y};
                rank++;
                break;
            }
        }
    }
    if (rank < k) return false;
    // images of the unit vectors, lowest first
    col.assign(k, 0);
    for (unsigned b = 0; b < k; b++) {
        uint32_t x = basis[b].x ^ (1u << b);
        uint64_t y = basis[b].y;
        for (unsigned i = 0; i < b; i++)
            if ((x >> i) & 1) y ^= col[i];
        col[b] = y;
    }
    std::vector<uint64_t> l(n);
    l[0] = c0;
    for (size_t i = 1; i < n; i++) {
        l[i] = l[i & (i - 1)] ^ col[size_t(__builtin_ctzll(i))];
        if (t[i] != NONE && i128(l[i]) != t[i]) return false;
    }
    return true;
}

// the function as a value: constant, linear, or (if allowed) a table
bool gf2Table(int root, const std::vector<i128>& t, bool tab, Poly& out)
{
    Rows x;
    if (!rowsOf(root, x) || t.size() != size_t(1) << x.size()) return false;
    i128 lo = 0, hi = 0;
    bool first = true, same = true, big = false;
    for (i128 v : t) {
        if (v == NONE) continue;
        if (first) {
            lo = hi = v;
            first = false;
        }
        same &= v == lo;
        lo = std::min(lo, v);
        hi = std::max(hi, v);
        big |= v < 0 || (v >> 64);
    }
    if (first) return false;
    if (same) {
        out = pconst(lo);
        return true;
    }
    std::vector<uint64_t> col;
    uint64_t c0;
    if (!big && linearFit(t, unsigned(x.size()), col, c0)) {
        Rows y(64);
        for (unsigned j = 0; j < 64; j++) {
            if ((c0 >> j) & 1) y[j] = {ONE};
            for (size_t i = 0; i < x.size(); i++)
                if ((col[i] >> j) & 1) y[j] = rxor(y[j], x[i]);
        }
        out = polyOf(y);
        return true;
    }
    if (!tab) return false;
    auto key = std::make_pair(root, t);
    auto it = gTabs.find(key);
    if (it != gTabs.end()) {
        out = psym(it->second);
        return true;
    }
    int s = newSym(lo, hi, "t" + std::to_string(gSyms.size()));
    gSyms[size_t(s)].linear = true;
    gTabs[key] = s;
    gTabOf[s] = key;
    out = psym(s);
    return true;
}

// a and b are equal whenever cs and f hold
bool gf2Same(const Poly& a, const Poly& b, const Case& cs, const Facts& f)
{
    if (a == b) return true;
    Rows x, y, es;
    if (!rowsOf(a, x) || !rowsOf(b, y)) return false;
    for (const Case* c : {&cs, &f.cons})
        for (auto& k : *c) {
            if (k.p.t.size() != 1 || k.p.t[0].second != 1) continue;
            auto& m = gMonos[size_t(k.p.t[0].first)];
            Rows r;
            if (m.size() != 1 || !rowsOf(m[0], r)) continue;
            const Sym& s = gSyms[size_t(m[0])];
            i128 lo = std::max(k.lo, s.lo), hi = std::min(k.hi, s.hi);
            if (lo != hi || lo < 0) continue;
            for (size_t i = 0; i < r.size(); i++) {
                Row e = r[i];
                if ((lo >> i) & 1) e = rxor(e, Row{ONE});
                es.push_back(e);
            }
        }
    // reduced echelon form
    Rows ech;
    for (auto& e : es) {
        Row r = e;
        for (auto& o : ech)
            if (std::binary_search(r.begin(), r.end(), o[0])) r = rxor(r, o);
        if (r.empty()) continue;
        if (r[0] == ONE) return true; // contradictory
        for (auto& o : ech)
            if (std::binary_search(o.begin(), o.end(), r[0])) o = rxor(o, r);
        ech.push_back(r);
    }
    if (x.size() < y.size()) x.swap(y);
    for (size_t i = 0; i < x.size(); i++) {
        Row r = i < y.size() ? rxor(x[i], y[i]) : x[i];
        for (auto& o : ech)
            if (std::binary_search(r.begin(), r.end(), o[0])) r = rxor(r, o);
        if (!r.empty()) return false;
    }
    return true;
}

Val gf2Normalise(const Val& v, const Facts& f)
{
    if (v.k != ABS) return v;
    const Abs& a = v.abs();
    if (a.ps.size() == 1) {
        Rows r;
        if (a.ps[0].p.isConst() || rowsOf(a.ps[0].p, r)) return v;
    }
    for (auto& t : a.ps) {
        bool same = true;
        for (auto& p : a.ps) same = same && gf2Same(p.p, t.p, p.cs, f);
        if (!same) continue;
        Abs o;
        o.ps.push_back({Case(), t.p});
        return fromAbs(std::move(o), v.w, f);
    }
    try {
        int root;
        std::vector<i128> t;
        Poly p;
        if (!gf2Func(v, f, root, t) || !gf2Table(root, t, false, p)) return v;
        Abs o;
        o.ps.push_back({Case(), p});
        return fromAbs(std::move(o), v.w, f);
    } catch (Overflow&) {
        return v;
    }
}

// sum of coefs[i] * xs[i] over GF(2^n); false: not linear
bool gf2Comb(unsigned n, uint64_t poly, const std::vector<uint64_t>& coefs,
             const std::vector<Poly>& xs, Poly& out)
{
    Rows acc(n);
    for (size_t i = 0; i < xs.size(); i++) {
        Rows x;
        if (!rowsOf(xs[i], x) || x.size() > n) return false;
        x.resize(n);
        for (uint64_t c = coefs[i]; c; c >>= 1) {
            if (c & 1)
                for (unsigned j = 0; j < n; j++) acc[j] = rxor(acc[j], x[j]);
            Row top = x[n - 1];
            for (unsigned j = n - 1; j > 0; j--) x[j] = x[j - 1];
            x[0].clear();
            for (unsigned j = 0; j < n; j++)
                if ((poly >> j) & 1) x[j] = rxor(x[j], top);
        }
    }
    out = polyOf(acc);
    return true;
}

// ---------------------------------------------------------------- witnesses
bool gf2Eval(int s, const std::function<bool(int, i128&)>& base, i128& out)
{
    auto t = gTabOf.find(s);
    if (t != gTabOf.end()) {
        i128 x;
        if (!base(t->second.first, x)) return false;
        if (x < 0 || size_t(x) >= t->second.second.size()) return false;
        out = t->second.second[size_t(x)];
        return out != NONE;
    }
    auto r = gRows2.find(s);
    if (r == gRows2.end()) return false;
    out = 0;
    for (size_t j = 0; j < r->second.size(); j++) {
        int b = 0;
        for (uint32_t x : r->second[j]) {
            if (x == ONE) {
                b ^= 1;
                continue;
            }
            i128 y;
            if (!base(int(x / 64), y)) return false;
            b ^= int((y >> (x % 64)) & 1);
        }
        if (b) out |= i128(1) << j;
    }
    return true;
}
void gf2Deps(int s, std::set<int>& out)
{
    auto t = gTabOf.find(s);
    if (t != gTabOf.end()) {
        out.insert(t->second.first);
        return;
    }
    auto r = gRows2.find(s);
    if (r == gRows2.end()) return;
    for (auto& row : r->second)
        for (uint32_t x : row)
            if (x != ONE) out.insert(int(x / 64));
}

} // namespace qai
