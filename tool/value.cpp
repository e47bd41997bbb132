#include "value.h"

namespace qai {

std::vector<Sym> gSyms;
std::vector<std::vector<int>> gMonos;
uint64_t gOpaqueCount = 0;
std::map<std::string, uint64_t> gOpaqueWhy;
static std::map<std::vector<int>, int> gMonoIx;
static const size_t gDirectLanes = 4;
static std::map<int, std::vector<Val>> gAllz; // symbol -> bit-strings
unsigned gMaxPieces = 40, gMaxTerms = 400;
#define MAXP (size_t(gMaxPieces))

std::string str128(i128 v)
{
    if (v == 0) return "0";
    bool neg = v < 0;
    u128 u = neg ? u128(-(v + 1)) + 1 : u128(v);
    std::string s;
    while (u) {
        s += char('0' + int(u % 10));
        u /= 10;
    }
    if (neg) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}

int newSym(i128 lo, i128 hi, const std::string& name)
{
    Sym s;
    s.lo = lo;
    s.hi = hi;
    s.name = name;
    gSyms.push_back(s);
    return int(gSyms.size()) - 1;
}

int monoOf(const std::vector<int>& m)
{
    auto it = gMonoIx.find(m);
    if (it != gMonoIx.end()) return it->second;
    gMonos.push_back(m);
    int id = int(gMonos.size()) - 1;
    gMonoIx[m] = id;
    return id;
}

static i128 cmul(i128 a, i128 b)
{
    i128 r;
    if (__builtin_mul_overflow(a, b, &r)) throw Overflow();
    return r;
}
static i128 cadd(i128 a, i128 b)
{
    i128 r;
    if (__builtin_add_overflow(a, b, &r)) throw Overflow();
    return r;
}
static i128 csub(i128 a, i128 b)
{
    i128 r;
    if (__builtin_sub_overflow(a, b, &r)) throw Overflow();
    return r;
}
static i128 fdiv(i128 a, i128 b) // floor, b > 0
{
    i128 q = a / b;
    if (a % b != 0 && a < 0) q--;
    return q;
}
static i128 cdiv(i128 a, i128 b) // ceil, b > 0
{
    return -fdiv(-a, b);
}

Poly pconst(i128 c)
{
    Poly p;
    p.c = c;
    return p;
}
Poly psym(int s)
{
    Poly p;
    p.t.push_back({monoOf({s}), 1});
    return p;
}
static Poly addk(const Poly& a, const Poly& b, i128 k)
{
    Poly r;
    r.c = cadd(a.c, cmul(b.c, k));
    r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j >= b.t.size() ||
            (i < a.t.size() && a.t[i].first < b.t[j].first)) {
            r.t.push_back(a.t[i++]);
        } else if (i >= a.t.size() || b.t[j].first < a.t[i].first) {
            i128 v = cmul(b.t[j].second, k);
            if (v) r.t.push_back({b.t[j].first, v});
            j++;
        } else {
            i128 v = cadd(a.t[i].second, cmul(b.t[j].second, k));
            if (v) r.t.push_back({a.t[i].first, v});
            i++;
            j++;
        }
    }
    if (r.t.size() > gMaxTerms) throw Overflow();
    return r;
}
Poly padd(const Poly& a, const Poly& b) { return addk(a, b, 1); }
Poly psub(const Poly& a, const Poly& b) { return addk(a, b, -1); }
Poly pscale(const Poly& a, i128 k)
{
    Poly r;
    if (k == 0) return r;
    r.c = cmul(a.c, k);
    r.t = a.t;
    for (auto& x : r.t) x.second = cmul(x.second, k);
    return r;
}
Poly pmul(const Poly& a, const Poly& b)
{
    if (a.isConst()) return pscale(b, a.c);
    if (b.isConst()) return pscale(a, b.c);
    if (a.t.size() * b.t.size() > 64) throw Overflow();
    std::map<int, i128> m;
    for (auto& x : a.t)
        for (auto& y : b.t) {
            std::vector<int> v = gMonos[x.first];
            v.insert(v.end(), gMonos[y.first].begin(), gMonos[y.first].end());
            if (v.size() > 4) throw Overflow();
            std::sort(v.begin(), v.end());
            int id = monoOf(v);
            m[id] = cadd(m[id], cmul(x.second, y.second));
        }
    for (auto& x : a.t) m[x.first] = cadd(m[x.first], cmul(x.second, b.c));
    for (auto& y : b.t) m[y.first] = cadd(m[y.first], cmul(y.second, a.c));
    Poly r;
    r.c = cmul(a.c, b.c);
    for (auto& kv : m)
        if (kv.second) r.t.push_back(kv);
    return r;
}
std::string pstr(const Poly& p)
{
    std::string s;
    int n = 0;
    for (auto& x : p.t) {
        if (++n > 12) {
            s += " + ...";
            break;
        }
        if (!s.empty()) s += " + ";
        if (x.second != 1) s += str128(x.second) + "*";
        bool first = true;
        for (int v : gMonos[x.first]) {
            if (!first) s += "*";
            first = false;
            s += gSyms[v].name;
        }
    }
    if (p.c || s.empty()) {
        if (!s.empty()) s += " + ";
        s += str128(p.c);
    }
    return s;
}
std::string cstr(const Case& c)
{
    std::string s;
    for (auto& k : c) {
        if (!s.empty()) s += " && ";
        if (k.lo == k.hi)
            s += pstr(k.p) + "==" + str128(k.lo);
        else
            s += str128(k.lo) + "<=" + pstr(k.p) + "<=" + str128(k.hi);
    }
    return s;
}

// ---------------------------------------------------------------- bounds
typedef std::vector<std::pair<int, Range>> Env;
static Range symRange(int s, const Env& env)
{
    for (auto& e : env)
        if (e.first == s) return e.second;
    return Range{gSyms[s].lo, gSyms[s].hi};
}
static void setRange(int s, Range r, Env& env)
{
    for (auto& e : env)
        if (e.first == s) {
            e.second = r;
            return;
        }
    env.push_back({s, r});
}
static Range rmul(Range a, Range b)
{
    i128 v[4] = {cmul(a.lo, b.lo), cmul(a.lo, b.hi), cmul(a.hi, b.lo),
                 cmul(a.hi, b.hi)};
    return Range{*std::min_element(v, v + 4), *std::max_element(v, v + 4)};
}
static Range monoRange(int m, const Env& env)
{
    Range r{1, 1};
    for (int s : gMonos[m]) r = rmul(r, symRange(s, env));
    return r;
}
static Range evalRange(const Poly& p, const Env& env)
{
    Range r{p.c, p.c};
    for (auto& x : p.t) {
        Range m = monoRange(x.first, env);
        i128 a = cmul(m.lo, x.second), b = cmul(m.hi, x.second);
        r.lo = cadd(r.lo, std::min(a, b));
        r.hi = cadd(r.hi, std::max(a, b));
    }
    return r;
}
static void collectSyms(const Poly& p, std::vector<int>& out)
{
    for (auto& x : p.t)
        for (int s : gMonos[x.first])
            if (std::find(out.begin(), out.end(), s) == out.end())
                out.push_back(s);
}
static bool touches(const Poly& p, const std::vector<int>& syms)
{
    for (auto& x : p.t)
        for (int s : gMonos[x.first])
            if (std::find(syms.begin(), syms.end(), s) != syms.end())
                return true;
    return false;
}

// constraints which may matter for the symbols of p
static bool relevant(const Poly* p, const Case& cs, const Facts& f,
                     std::vector<Cons>& out)
{
    std::vector<int> syms;
    if (p) collectSyms(*p, syms);
    for (auto& c : cs) {
        out.push_back(c);
        collectSyms(c.p, syms);
    }
    std::vector<char> used(f.cons.size(), 0);
    std::vector<char> sused;
    for (int round = 0; round < 3; round++) {
        bool ch = false;
        for (size_t i = 0; i < f.cons.size(); i++)
            if (!used[i] && touches(f.cons[i].p, syms)) {
                used[i] = 1;
                out.push_back(f.cons[i]);
                size_t n = syms.size();
                if (syms.size() < 60) collectSyms(f.cons[i].p, syms);
                ch |= n != syms.size();
            }
        for (size_t i = 0; i < syms.size() && syms.size() < 80; i++) {
            if (sused.size() < syms.size()) sused.resize(syms.size(), 0);
            if (sused[i]) continue;
            sused[i] = 1;
            const Sym& s = gSyms[syms[i]];
            if (s.def) {
                Cons c;
                c.p = psub(*s.def, pscale(psym(syms[i]), s.d));
                c.lo = -c.p.c;
                c.hi = s.d - 1 - c.p.c;
                c.p.c = 0;
                out.push_back(c);
                size_t n = syms.size();
                collectSyms(c.p, syms);
                ch |= n != syms.size();
            }
        }
        if (!ch) break;
    }
    return true;
}

// false: contradiction
static bool propagate(const std::vector<Cons>& cs, Env& env)
{
    for (int round = 0; round < 4; round++) {
        bool ch = false;
        for (auto& c : cs) {
            // intervals of the terms
            std::vector<Range> ts;
            Range tot{0, 0};
            for (auto& x : c.p.t) {
                Range m = monoRange(x.first, env);
                i128 a = cmul(m.lo, x.second), b = cmul(m.hi, x.second);
                Range t{std::min(a, b), std::max(a, b)};
                ts.push_back(t);
                tot.lo = cadd(tot.lo, t.lo);
                tot.hi = cadd(tot.hi, t.hi);
            }
            if (tot.hi < c.lo || tot.lo > c.hi) return false;
            if (c.p.t.size() > 8) continue;
            for (size_t i = 0; i < ts.size(); i++) {
                i128 restLo = csub(tot.lo, ts[i].lo);
                i128 restHi = csub(tot.hi, ts[i].hi);
                i128 k = c.p.t[i].second;
                i128 lo = csub(c.lo, restHi), hi = csub(c.hi, restLo);
                // lo <= k*m <= hi
                i128 mlo, mhi;
                if (k > 0) {
                    mlo = cdiv(lo, k);
                    mhi = fdiv(hi, k);
                } else {
                    mlo = cdiv(-hi, -k);
                    mhi = fdiv(-lo, -k);
                }
                const auto& ms = gMonos[c.p.t[i].first];
                if (ms.size() == 1) {
                    Range r = symRange(ms[0], env);
                    Range n{std::max(r.lo, mlo), std::min(r.hi, mhi)};
                    if (n.empty()) return false;
                    if (n.lo != r.lo || n.hi != r.hi) {
                        setRange(ms[0], n, env);
                        ch = true;
                    }
                } else if (ms.size() == 2) {
                    Range a = symRange(ms[0], env), b = symRange(ms[1], env);
                    if (a.lo < 0 || b.lo < 0) continue;
                    if (mhi < 0) return false;
                    for (int k2 = 0; k2 < 2; k2++) {
                        Range x = k2 ? b : a, y = k2 ? a : b;
                        Range n = x;
                        if (mlo > 0) {
                            if (y.hi == 0) return false;
                            n.lo = std::max(n.lo, cdiv(mlo, y.hi));
                        }
                        if (y.lo > 0) n.hi = std::min(n.hi, fdiv(mhi, y.lo));
                        if (n.empty()) return false;
                        if (n.lo != x.lo || n.hi != x.hi) {
                            setRange(ms[k2 ? 1 : 0], n, env);
                            ch = true;
                            a = symRange(ms[0], env);
                            b = symRange(ms[1], env);
                        }
                    }
                }
            }
        }
        if (!ch) break;
    }
    return true;
}

static Range rangeWith(const Poly& p, const std::vector<Cons>& cs,
                       const Env& env, int depth)
{
    Range r = evalRange(p, env);
    if (depth <= 0 || p.t.size() > 40) return r;
    for (auto& c : cs) {
        if (c.p.t.size() < 1) continue;
        if (c.p.t.size() == 1 && gMonos[c.p.t[0].first].size() == 1)
            continue; // already in env
        i128 tried[2];
        int nt = 0;
        for (auto& x : c.p.t) {
            auto it = std::lower_bound(
                p.t.begin(), p.t.end(), std::make_pair(x.first, i128(0)),
                [](const std::pair<int, i128>& a,
                   const std::pair<int, i128>& b) { return a.first < b.first; });
            if (it == p.t.end() || it->first != x.first) continue;
            if (it->second % x.second != 0) continue;
            i128 al = it->second / x.second;
            bool dup = false;
            for (int i = 0; i < nt; i++) dup |= tried[i] == al;
            if (dup) continue;
            if (nt == 2) break;
            tried[nt++] = al;
            Poly rest = psub(p, pscale(c.p, al));
            if (rest.t.size() > p.t.size() + 1) continue;
            Range rr = rangeWith(rest, cs, env, depth - 1);
            i128 a = cmul(c.lo, al), b = cmul(c.hi, al);
            i128 lo = cadd(rr.lo, std::min(a, b));
            i128 hi = cadd(rr.hi, std::max(a, b));
            r.lo = std::max(r.lo, lo);
            r.hi = std::min(r.hi, hi);
        }
    }
    return r;
}

Range rangeOf(const Poly& p, const Case& cs, const Facts& f, int depth)
{
    if (p.isConst()) return Range{p.c, p.c};
    std::vector<Cons> rel;
    relevant(&p, cs, f, rel);
    Env env;
    if (!rel.empty() && !propagate(rel, env)) return Range{1, 0};
    return rangeWith(p, rel, env, depth);
}

static bool implied(const Cons& k, const Case& cs, const Facts& f)
{
    Facts g;
    g.cons = f.cons;
    Range r = rangeOf(k.p, cs, g);
    return r.empty() || (r.lo >= k.lo && r.hi <= k.hi);
}

// contradictions with the definition of a decided all-zero symbol
static bool allzContradicts(const Case& cs, const Facts& f);
static int gAllzDepth = 0;

bool feasible(const Case& cs, const Facts& f)
{
    try {
        if (gAllzDepth == 0 && allzContradicts(cs, f)) return false;
        std::vector<Cons> rel;
        relevant(nullptr, cs, f, rel);
        Env env;
        if (!propagate(rel, env)) return false;
        for (auto& c : cs) {
            if (c.p.t.size() <= 1) continue;
            Range r = rangeWith(c.p, rel, env, 2);
            if (r.empty() || r.hi < c.lo || r.lo > c.hi) return false;
        }
        if (!f.excluded.empty()) {
            std::vector<int> syms;
            for (auto& c : cs) collectSyms(c.p, syms);
            for (auto& ex : f.excluded) {
                bool tch = false;
                for (auto& k : ex) tch |= touches(k.p, syms);
                if (!tch && !cs.empty()) continue;
                bool all = true;
                for (auto& k : ex)
                    if (!implied(k, cs, f)) {
                        all = false;
                        break;
                    }
                if (all) return false;
            }
        }
        return true;
    } catch (Overflow&) {
        return true;
    }
}

static bool allzContradicts(const Case& cs, const Facts& f)
{
    if (gAllz.empty()) return false;
    std::vector<std::pair<int, int>> zs;
    std::vector<int> syms;
    Case rest;
    auto look = [&](const Cons& c) {
        if (c.p.t.size() != 1 || c.lo != c.hi) return false;
        const auto& ms = gMonos[c.p.t[0].first];
        if (ms.size() != 1 || !gAllz.count(ms[0])) return false;
        zs.push_back({ms[0], int(c.lo)});
        return true;
    };
    for (auto& c : cs)
        if (!look(c)) {
            rest.push_back(c);
            collectSyms(c.p, syms);
        }
    if (rest.empty()) return false;
    for (auto& c : f.cons) look(c);
    if (zs.empty()) return false;
    gAllzDepth++;
    struct G {
        ~G() { gAllzDepth--; }
    } guard;
    for (auto& z : zs) {
        const std::vector<Val>& vals = gAllz[z.first];
        if (z.second == 0 && vals.size() != 1) continue;
        for (auto& v : vals) {
            std::set<int> vs;
            symsOf(v, vs);
            bool tch = false;
            for (int s : syms) tch |= vs.count(s) != 0;
            if (!tch) continue;
            Abs a;
            if (!toAbs(v, f, a)) continue;
            bool some = false;
            for (auto& p : a.ps) {
                Case c;
                if (!conj(rest, p.cs, f, c) || !feasible(c, f)) continue;
                Range r = rangeOf(p.p, c, f);
                if (r.empty()) continue;
                if (z.second == 1 ? (r.lo <= 0 && r.hi >= 0) : r.hi >= 1) {
                    some = true;
                    break;
                }
            }
            if (!some) return true;
        }
    }
    return false;
}

static i128 gcd128(i128 a, i128 b)
{
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) {
        i128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}
// 0 impossible, 1 ok, 2 trivial
static int mkCons(const Poly& p, i128 lo, i128 hi, Cons& out)
{
    Poly q = p;
    lo = csub(lo, q.c);
    hi = csub(hi, q.c);
    q.c = 0;
    if (q.t.empty()) return (lo <= 0 && 0 <= hi) ? 2 : 0;
    i128 g = 0;
    for (auto& x : q.t) g = gcd128(g, x.second);
    if (q.t[0].second < 0) {
        i128 t = lo;
        lo = -hi;
        hi = -t;
        for (auto& x : q.t) x.second = -x.second;
    }
    if (g > 1) {
        for (auto& x : q.t) x.second /= g;
        lo = cdiv(lo, g);
        hi = fdiv(hi, g);
    }
    if (lo > hi) return 0;
    out.p = q;
    out.lo = lo;
    out.hi = hi;
    return 1;
}
static bool mergeCons(Case& cs, const Cons& c)
{
    for (auto& k : cs)
        if (k.p == c.p) {
            k.lo = std::max(k.lo, c.lo);
            k.hi = std::min(k.hi, c.hi);
            return k.lo <= k.hi;
        }
    cs.push_back(c);
    return true;
}
bool addCons(Case& cs, const Poly& p, i128 lo, i128 hi, const Facts& f)
{
    Cons c;
    int r = mkCons(p, lo, hi, c);
    if (r == 0) return false;
    if (r == 2) return true;
    if (!mergeCons(cs, c)) return false;
    return feasible(cs, f);
}
bool conj(const Case& a, const Case& b, const Facts& f, Case& out)
{
    out = a;
    if (b.empty()) return true;
    bool ch = false;
    for (auto& c : b) {
        bool same = false;
        for (auto& k : out)
            if (k == c) {
                same = true;
                break;
            }
        if (same) continue;
        if (!mergeCons(out, c)) return false;
        ch = true;
    }
    if (!ch || a.empty()) return true;
    return feasible(out, f);
}

// ---------------------------------------------------------------- values
Val vint(u128 c, unsigned w)
{
    Val v;
    v.k = INT;
    v.w = uint16_t(w);
    v.c = c & maskW(w);
    return v;
}
Val vundef(unsigned w)
{
    Val v;
    v.w = uint16_t(w);
    return v;
}
Val vfp(double d)
{
    Val v;
    v.k = FP;
    v.w = 64;
    uint64_t u;
    memcpy(&u, &d, 8);
    v.c = u;
    return v;
}
double fpOf(const Val& v)
{
    uint64_t u = uint64_t(v.c);
    double d;
    memcpy(&d, &u, 8);
    return d;
}
static Val mkAbsRaw(Abs&& a, unsigned w)
{
    Val v;
    if (a.ps.size() == 1 && a.ps[0].p.isConst())
        return vint(u128(a.ps[0].p.c), w);
    v.k = ABS;
    v.w = uint16_t(w);
    v.p = std::make_shared<Abs>(std::move(a));
    return v;
}
Val vsym(int s, unsigned w)
{
    Abs a;
    a.ps.push_back({{}, psym(s)});
    return mkAbsRaw(std::move(a), w);
}
Val vvec(std::vector<Val>&& e)
{
    Val v;
    v.k = VEC;
    VecV x;
    unsigned w = 0;
    for (auto& y : e) w += y.w;
    x.e = std::move(e);
    v.w = uint16_t(w);
    v.p = std::make_shared<VecV>(std::move(x));
    return v;
}
uint64_t gJoinLoss = 0, gInJoin = 0;
void (*gOpaqueHook)(const std::string&) = nullptr;
Val vopaqueR(i128 lo, i128 hi, unsigned w, const std::string& why)
{
    if (lo == hi) return vint(u128(lo), w);
    gOpaqueCount++;
    gOpaqueWhy[why]++;
    if (gInJoin) gJoinLoss++;
    if (gOpaqueHook) gOpaqueHook(why);
    int s = newSym(lo, hi, "?" + std::to_string(gSyms.size()));
    gSyms[s].opaque = true;
    return vsym(s, w);
}
Val vopaque(unsigned w, const std::string& why)
{
    if (w >= 120) {
        std::vector<Val> parts;
        unsigned o = 0;
        while (o < w) {
            unsigned n = std::min(64u, w - o);
            parts.push_back(vopaque(n, why));
            o += n;
        }
        Facts f;
        return vconcat(parts, f);
    }
    return vopaqueR(0, i128(maskW(w)), w, why);
}
std::string vstr(const Val& v)
{
    switch (v.k) {
    case UNDEF:
        return "undef:i" + std::to_string(v.w);
    case INT:
        return str128(i128(v.c)) + ":i" + std::to_string(v.w);
    case FP:
        return std::to_string(fpOf(v));
    case ABS: {
        std::string s = "{";
        int n = 0;
        for (auto& p : v.abs().ps) {
            if (n++ > 6) {
                s += " ...";
                break;
            }
            if (s.size() > 1) s += " ; ";
            if (!p.cs.empty()) s += cstr(p.cs) + " -> ";
            s += pstr(p.p);
        }
        return s + "}:i" + std::to_string(v.w);
    }
    case SEG: {
        std::string s = "[";
        for (auto& e : segOf(v).s)
            s += vstr(e.v) + "@" + std::to_string(e.off) + "+" +
                 std::to_string(e.w) + " ";
        return s + "]";
    }
    case VEC: {
        std::string s = "<";
        for (auto& e : vecOf(v)) s += vstr(e) + ", ";
        return s + ">";
    }
    }
    return "?";
}

static std::map<std::pair<Poly, i128>, int> gFloor;
static int floorSym(const Poly& p, i128 d, Range r)
{
    auto key = std::make_pair(p, d);
    auto it = gFloor.find(key);
    if (it != gFloor.end()) return it->second;
    // bounds that hold without path facts
    Facts nf;
    Range g = rangeOf(p, {}, nf);
    (void)r;
    int s = newSym(fdiv(g.lo, d), fdiv(g.hi, d),
                   "(" + pstr(p) + ")/" + str128(d));
    gSyms[s].def = std::make_shared<Poly>(p);
    gSyms[s].d = d;
    gFloor[key] = s;
    return s;
}

// all (case, poly) of floor(p/d) and p - d*floor under cs
struct DivP {
    Case cs;
    Poly q, r;
};
static void divide(const Case& cs, const Poly& p, i128 d, const Facts& f,
                   std::vector<DivP>& out)
{
    // exact part
    Poly A, R;
    for (auto& x : p.t) {
        if (x.second % d == 0)
            A.t.push_back({x.first, x.second / d});
        else
            R.t.push_back(x);
    }
    A.c = fdiv(p.c, d);
    R.c = p.c - A.c * d;
    Range r = rangeOf(R, cs, f);
    if (r.empty()) return;
    i128 k0 = fdiv(r.lo, d), k1 = fdiv(r.hi, d);
    if (k0 == k1) {
        out.push_back({cs, padd(A, pconst(k0)), psub(R, pconst(k0 * d))});
        return;
    }
    Range rp = rangeOf(p, cs, f);
    if (!rp.empty()) {
        i128 j0 = fdiv(rp.lo, d), j1 = fdiv(rp.hi, d);
        if (j1 - j0 < k1 - k0) {
            if (j0 == j1) {
                out.push_back({cs, pconst(j0), psub(p, pconst(j0 * d))});
                return;
            }
            A = Poly();
            R = p;
            k0 = j0;
            k1 = j1;
            r = rp;
        }
    }
    // whole multiples of d split off every coefficient
    if (d > 0) {
        Poly A2, R2;
        for (auto& x : p.t) {
            i128 k = fdiv(x.second, d);
            if (k) A2.t.push_back({x.first, k});
            if (x.second != k * d) R2.t.push_back({x.first, x.second - k * d});
        }
        A2.c = fdiv(p.c, d);
        R2.c = p.c - A2.c * d;
        Range r2 = rangeOf(R2, cs, f);
        if (!r2.empty() && fdiv(r2.lo, d) == fdiv(r2.hi, d)) {
            i128 k = fdiv(r2.lo, d);
            out.push_back({cs, padd(A2, pconst(k)), psub(R2, pconst(k * d))});
            return;
        }
    }
    if (k1 - k0 <= 3) {
        for (i128 k = k0; k <= k1; k++) {
            Case c = cs;
            if (!addCons(c, R, k * d, k * d + d - 1, f)) continue;
            out.push_back({c, padd(A, pconst(k)), psub(R, pconst(k * d))});
        }
        return;
    }
    int s = floorSym(R, d, r);
    out.push_back(
        {cs, padd(A, psym(s)), psub(R, pscale(psym(s), d))});
}

static Val absOpaque(const Abs& a, unsigned w, const Facts& f,
                     const std::string& why)
{
    i128 lo = 0, hi = 0;
    bool first = true;
    for (auto& p : a.ps) {
        Range r = rangeOf(p.p, p.cs, f);
        if (r.empty()) continue;
        if (first) {
            lo = r.lo;
            hi = r.hi;
            first = false;
        } else {
            lo = std::min(lo, r.lo);
            hi = std::max(hi, r.hi);
        }
    }
    if (first) return vopaque(w, why);
    i128 m = w >= 120 ? (i128(1) << 119) : i128(maskW(w));
    if (lo < 0 || hi > m) return vopaque(w, why);
    return vopaqueR(lo, hi, w, why);
}

// cases which differ in one condition only, with adjacent bounds
static bool glue(Case& x, const Case& y, const Facts& f)
{
    if (x.size() != y.size()) return false;
    int dx = -1;
    std::vector<char> used(y.size(), 0);
    for (size_t i = 0; i < x.size(); i++) {
        bool hit = false;
        for (size_t j = 0; j < y.size() && !hit; j++)
            if (!used[j] && x[i] == y[j]) {
                used[j] = 1;
                hit = true;
            }
        if (hit) continue;
        if (dx >= 0) return false;
        dx = int(i);
    }
    if (dx < 0) return true; // the same case twice
    size_t dy = 0;
    while (used[dy]) dy++;
    const Cons &a = x[size_t(dx)], &b = y[dy];
    if (!(a.p == b.p)) return false;
    i128 lo = std::min(a.lo, b.lo), hi = std::max(a.hi, b.hi);
    if (std::max(a.lo, b.lo) > std::min(a.hi, b.hi) + 1) return false;
    Cons c = a;
    c.lo = lo;
    c.hi = hi;
    x.erase(x.begin() + dx);
    Range r = rangeOf(c.p, x, f);
    if (r.empty() || r.lo < lo || r.hi > hi) x.push_back(c);
    return true;
}
static void glueAll(std::vector<Piece>& ps, const Facts& f)
{
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < ps.size(); i++)
            for (size_t j = i + 1; j < ps.size();) {
                if (ps[i].p == ps[j].p && glue(ps[i].cs, ps[j].cs, f)) {
                    ps.erase(ps.begin() + long(j));
                    ch = true;
                } else
                    j++;
            }
    }
}

// records what the opaque parts of r are a function of
static Val traced(Val r, size_t n0, const std::shared_ptr<Eval>& ev)
{
    auto mark = [&](const Val& v, unsigned off, unsigned w) {
        if (v.k != ABS || v.abs().ps.size() != 1) return;
        const Poly& p = v.abs().ps[0].p;
        if (p.c != 0 || p.t.size() != 1 || p.t[0].second != 1) return;
        const auto& ms = gMonos[p.t[0].first];
        if (ms.size() != 1 || size_t(ms[0]) < n0) return;
        Sym& s = gSyms[ms[0]];
        if (!s.opaque || s.ev) return;
        auto e = std::make_shared<Eval>(*ev);
        e->off = off;
        e->w = w;
        s.ev = e;
    };
    if (r.k == SEG) {
        unsigned sh = 0;
        for (auto& e : segOf(r).s) {
            if (e.off == 0 && e.w == e.v.w) mark(e.v, sh, e.w);
            sh += e.w;
        }
    } else
        mark(r, 0, r.w);
    return r;
}
static Val tracedAbs(const Abs& a, unsigned w, Val r)
{
    auto ev = std::make_shared<Eval>();
    Abs c = a;
    ev->args.push_back(mkAbsRaw(std::move(c), w));
    ev->fn = [](const std::vector<u128>& x, u128& o) {
        o = x[0];
        return true;
    };
    return traced(r, 0, ev);
}

static Val finish(Abs&& a, unsigned w, const Facts& f)
{
    if (a.ps.empty()) return vundef(w); // infeasible path
    bool same = true;
    for (size_t i = 1; i < a.ps.size(); i++)
        if (!(a.ps[i].p == a.ps[0].p)) {
            same = false;
            break;
        }
    if (same) {
        a.ps.resize(1);
        a.ps[0].cs.clear();
    }
    if (a.ps.size() > 3 && a.ps.size() < 400) glueAll(a.ps, f);
    if (a.ps.size() > MAXP)
        return tracedAbs(a, w, absOpaque(a, w, f, "pieces"));
    return mkAbsRaw(std::move(a), w);
}

Val fromAbs(Abs&& a, unsigned w, const Facts& f)
{
    if (w >= 126) {
        // no reduction possible: values must already fit
        for (auto& p : a.ps) {
            Range r = rangeOf(p.p, p.cs, f);
            if (r.empty()) continue;
            if (r.lo < 0) return vopaque(w, "wide wrap");
        }
        return finish(std::move(a), w, f);
    }
    i128 m = i128(1) << w;
    Abs o;
    for (auto& p : a.ps) {
        if (p.p.isConst()) {
            i128 c = p.p.c - fdiv(p.p.c, m) * m;
            o.ps.push_back({p.cs, pconst(c)});
            continue;
        }
        Range r = rangeOf(p.p, p.cs, f);
        if (r.empty()) continue;
        if (r.lo >= 0 && r.hi < m) {
            o.ps.push_back(p);
            continue;
        }
        std::vector<DivP> dp;
        divide(p.cs, p.p, m, f, dp);
        for (auto& d : dp) o.ps.push_back({d.cs, d.r});
        if (o.ps.size() > 4 * MAXP) return tracedAbs(a, w, vopaque(w, "pieces"));
    }
    return finish(std::move(o), w, f);
}

typedef std::function<bool(const Case&, const Poly&, const Poly&, Abs&)> Fn2;
// combine the pieces of two values
static bool combine(const Abs& a, const Abs& b, const Facts& f, const Fn2& fn,
                    Abs& out)
{
    if (a.ps.size() * b.ps.size() > 2000) return false;
    for (auto& x : a.ps)
        for (auto& y : b.ps) {
            Case c;
            if (!conj(x.cs, y.cs, f, c)) continue;
            if (!fn(c, x.p, y.p, out)) return false;
            if (out.ps.size() > 6 * MAXP) return false;
        }
    return true;
}

static bool sliceAbs(const Abs& a, unsigned vw, unsigned off, unsigned w,
                     const Facts& f, Abs& out)
{
    if (off >= 120) return false;
    for (auto& p : a.ps) {
        std::vector<DivP> d1;
        if (off)
            divide(p.cs, p.p, i128(1) << off, f, d1);
        else
            d1.push_back({p.cs, p.p, Poly()});
        for (auto& x : d1) {
            if (off + w >= vw) {
                out.ps.push_back({x.cs, x.q});
                continue;
            }
            std::vector<DivP> d2;
            divide(x.cs, x.q, i128(1) << w, f, d2);
            for (auto& y : d2) out.ps.push_back({y.cs, y.r});
        }
        if (out.ps.size() > 6 * MAXP) return false;
    }
    return true;
}

bool toAbs(const Val& v, const Facts& f, Abs& out)
{
    switch (v.k) {
    case INT:
        if (v.w >= 126 && (v.c >> 125)) return false;
        out.ps.push_back({{}, pconst(i128(v.c))});
        return true;
    case ABS:
        out = v.abs();
        return true;
    case SEG: {
        Abs acc;
        acc.ps.push_back({{}, pconst(0)});
        unsigned sh = 0;
        for (auto& e : segOf(v).s) {
            Abs b;
            if (e.v.k == INT) {
                u128 c = (e.v.c >> e.off) & maskW(e.w);
                if (c == 0) {
                    sh += e.w;
                    continue;
                }
                if (sh + e.w > 120 && sh + 64 > 120) return false;
                b.ps.push_back({{}, pconst(i128(c))});
            } else if (e.v.k == ABS) {
                if (sh > 110) return false;
                if (e.off == 0 && e.w == e.v.w)
                    b = e.v.abs();
                else if (!sliceAbs(e.v.abs(), e.v.w, e.off, e.w, f, b))
                    return false;
            } else
                return false;
            Abs o;
            i128 k = i128(1) << sh;
            if (!combine(acc, b, f,
                         [&](const Case& c, const Poly& x, const Poly& y,
                             Abs& r) {
                             r.ps.push_back({c, padd(x, pscale(y, k))});
                             return true;
                         },
                         o))
                return false;
            acc = std::move(o);
            sh += e.w;
        }
        // collapse through finish
        Val t = finish(std::move(acc), v.w, f);
        if (t.k == INT)
            out.ps.push_back({{}, pconst(i128(t.c))});
        else if (t.k == ABS)
            out = t.abs();
        else
            return false;
        return true;
    }
    default:
        return false;
    }
}

bool valEq(const Val& a, const Val& b)
{
    if (a.k != b.k || a.w != b.w) return false;
    switch (a.k) {
    case UNDEF:
        return true;
    case INT:
    case FP:
        return a.c == b.c;
    case ABS: {
        if (a.p == b.p) return true;
        auto &x = a.abs().ps, &y = b.abs().ps;
        if (x.size() != y.size()) return false;
        for (size_t i = 0; i < x.size(); i++) {
            if (!(x[i].p == y[i].p)) return false;
            if (x[i].cs.size() != y[i].cs.size()) return false;
            for (size_t j = 0; j < x[i].cs.size(); j++)
                if (!(x[i].cs[j] == y[i].cs[j])) return false;
        }
        return true;
    }
    case SEG: {
        if (a.p == b.p) return true;
        auto &x = segOf(a).s, &y = segOf(b).s;
        if (x.size() != y.size()) return false;
        for (size_t i = 0; i < x.size(); i++)
            if (x[i].off != y[i].off || x[i].w != y[i].w ||
                !valEq(x[i].v, y[i].v))
                return false;
        return true;
    }
    case VEC: {
        if (a.p == b.p) return true;
        auto &x = vecOf(a), &y = vecOf(b);
        if (x.size() != y.size()) return false;
        for (size_t i = 0; i < x.size(); i++)
            if (!valEq(x[i], y[i])) return false;
        return true;
    }
    }
    return false;
}

static void flat(const Val& v, unsigned off, unsigned w,
                 std::vector<SegE>& out)
{
    if (v.k == SEG) {
        unsigned o = 0;
        for (auto& e : segOf(v).s) {
            unsigned s = std::max(off, o), t = std::min(off + w, o + e.w);
            if (s < t) flat(e.v, e.off + (s - o), t - s, out);
            o += e.w;
        }
        return;
    }
    if (v.k == VEC) {
        unsigned o = 0;
        for (auto& e : vecOf(v)) {
            unsigned s = std::max(off, o), t = std::min(off + w, o + e.w);
            if (s < t) flat(e, s - o, t - s, out);
            o += e.w;
        }
        return;
    }
    if (v.k == INT) {
        Val c = vint(v.c >> off, w);
        if (!out.empty() && out.back().v.k == INT &&
            out.back().w + w <= 128) {
            SegE& b = out.back();
            b.v = vint(b.v.c | (c.c << b.w), b.w + w);
            b.w += w;
            return;
        }
        out.push_back({c, 0, w});
        return;
    }
    if (v.k == FP) {
        flat(vint(v.c, 64), off, w, out);
        return;
    }
    if (v.k == UNDEF) {
        if (!out.empty() && out.back().v.k == UNDEF) {
            out.back().w += w;
            out.back().v.w = uint16_t(out.back().w);
            return;
        }
        out.push_back({vundef(w), 0, w});
        return;
    }
    // piecewise constant: slice eagerly unless whole
    if (!out.empty() && out.back().v.k == ABS && out.back().v.p == v.p &&
        out.back().off + out.back().w == off) {
        out.back().w += w;
        return;
    }
    out.push_back({v, off, w});
}

// bits which are linear in the bits of the inputs
static bool linearSegs(const std::vector<SegE>& s, unsigned w, const Facts& f,
                       Val& out)
{
    Abs a;
    if (s.size() == 1) {
        const SegE& e = s[0];
        if (e.v.k != ABS || (e.off == 0 && e.w == e.v.w)) return false;
        for (auto& p : e.v.abs().ps) {
            Poly o;
            if (!gf2Slice(p.p, e.off, e.w, o)) return false;
            a.ps.push_back({p.cs, o});
        }
    } else {
        std::vector<std::pair<Poly, unsigned>> ps;
        for (auto& e : s) {
            if (e.v.k == INT) {
                ps.push_back({pconst(i128((e.v.c >> e.off) & maskW(e.w))),
                              e.w});
                continue;
            }
            if (e.v.k != ABS || e.v.abs().ps.size() != 1) return false;
            Poly o;
            if (!gf2Slice(e.v.abs().ps[0].p, e.off, e.w, o)) return false;
            ps.push_back({o, e.w});
        }
        Poly o;
        if (!gf2Concat(ps, o)) return false;
        a.ps.push_back({{}, o});
    }
    out = finish(std::move(a), w, f);
    return true;
}

static Val fromSegs(std::vector<SegE>&& s, unsigned w, const Facts& f)
{
    Val lin;
    if (gGf2 && w <= 64 && linearSegs(s, w, f, lin)) return lin;
    if (s.size() == 1) {
        SegE& e = s[0];
        if (e.v.k == INT) return vint(e.v.c >> e.off, e.w);
        if (e.v.k == UNDEF) return vundef(w);
        if (e.off == 0 && e.w == e.v.w) return e.v;
        // whole value fits in the slice?
        if (e.v.k == ABS) {
            bool cst = true;
            for (auto& p : e.v.abs().ps) cst &= p.p.isConst();
            if (cst) {
                Abs a;
                for (auto& p : e.v.abs().ps)
                    a.ps.push_back(
                        {p.cs, pconst(i128((u128(p.p.c) >> e.off) &
                                           maskW(e.w)))});
                return finish(std::move(a), w, f);
            }
            if (e.off && e.off < 126) {
                bool nil = true;
                try {
                    for (auto& p : e.v.abs().ps) {
                        Range r = rangeOf(p.p, p.cs, f);
                        if (r.empty()) continue;
                        if (r.lo < 0 || r.hi >> e.off) nil = false;
                    }
                } catch (Overflow&) {
                    nil = false;
                }
                if (nil) return vint(0, w);
            }
            if (e.off == 0) {
                bool fit = true;
                try {
                    for (auto& p : e.v.abs().ps) {
                        Range r = rangeOf(p.p, p.cs, f);
                        if (r.empty()) continue;
                        if (r.lo < 0 || r.hi > i128(maskW(e.w))) fit = false;
                    }
                } catch (Overflow&) {
                    fit = false;
                }
                if (fit) {
                    Abs a = e.v.abs();
                    return mkAbsRaw(std::move(a), w);
                }
            }
        }
    }
    // value followed by zeros: zero extension
    if (s.size() == 2 && s[1].v.k == INT && s[1].v.c == 0 &&
        s[0].v.k == ABS && s[0].off == 0 && s[0].w == s[0].v.w) {
        Abs a = s[0].v.abs();
        return mkAbsRaw(std::move(a), w);
    }
    // truncated value whose upper bits are known to be zero
    Val v;
    v.k = SEG;
    v.w = uint16_t(w);
    SegV x;
    x.s = std::move(s);
    v.p = std::make_shared<SegV>(std::move(x));
    return v;
}

Val vslice(const Val& a, unsigned off, unsigned w, const Facts& f)
{
    if (a.k == INT) return vint(a.c >> off, w);
    if (a.k == UNDEF) return vundef(w);
    if (off == 0 && w == a.w && a.k != VEC) return a;
    std::vector<SegE> s;
    flat(a, off, w, s);
    return fromSegs(std::move(s), w, f);
}
Val vconcat(const std::vector<Val>& parts, const Facts& f)
{
    std::vector<SegE> s;
    unsigned w = 0;
    for (auto& p : parts) {
        flat(p, 0, p.w, s);
        w += p.w;
    }
    if (w > 128) {
        std::vector<Val> e = parts;
        return vvec(std::move(e));
    }
    return fromSegs(std::move(s), w, f);
}
Val vtrunc(const Val& a, unsigned w, const Facts& f)
{
    return vslice(a, 0, w, f);
}
Val vzext(const Val& a, unsigned w, const Facts& f)
{
    if (a.k == INT) return vint(a.c, w);
    if (a.k == UNDEF) return vundef(w);
    if (a.k == ABS) {
        Abs x = a.abs();
        return mkAbsRaw(std::move(x), w);
    }
    return vconcat({a, vint(0, w - a.w)}, f);
}

static bool toSigned(const Val& v, const Facts& f, Abs& out)
{
    Abs a;
    if (!toAbs(v, f, a)) return false;
    if (v.w >= 126) {
        for (auto& p : a.ps) {
            Range r = rangeOf(p.p, p.cs, f);
            if (r.lo < 0 || r.hi > (i128(1) << 124)) return false;
        }
        out = a;
        return true;
    }
    i128 h = i128(1) << (v.w - 1), m = i128(1) << v.w;
    for (auto& p : a.ps) {
        Range r = rangeOf(p.p, p.cs, f);
        if (r.empty()) continue;
        if (r.hi < h) {
            out.ps.push_back(p);
        } else if (r.lo >= h) {
            out.ps.push_back({p.cs, psub(p.p, pconst(m))});
        } else {
            Case c = p.cs;
            if (addCons(c, p.p, 0, h - 1, f)) out.ps.push_back({c, p.p});
            c = p.cs;
            if (addCons(c, p.p, h, m - 1, f))
                out.ps.push_back({c, psub(p.p, pconst(m))});
        }
    }
    return true;
}
static Val vsext0(const Val& a, unsigned w, const Facts& f)
{
    if (a.k == UNDEF) return vundef(w);
    if (a.k == INT) {
        u128 c = a.c;
        if ((c >> (a.w - 1)) & 1) c |= ~maskW(a.w);
        return vint(c, w);
    }
    try {
        Abs s;
        if (!toSigned(a, f, s)) return vopaque(w, "sext");
        return fromAbs(std::move(s), w, f);
    } catch (Overflow&) {
        return vopaque(w, "overflow");
    }
}

static Val bitwise(Op o, const Val& a, const Val& b, unsigned w,
                   const Facts& f)
{
    std::vector<SegE> x, y;
    flat(a, 0, w, x);
    flat(b, 0, w, y);
    std::vector<Val> parts;
    size_t i = 0, j = 0;
    unsigned xo = 0, yo = 0; // consumed inside x[i] / y[j]
    while (i < x.size() && j < y.size()) {
        unsigned n = std::min(x[i].w - xo, y[j].w - yo);
        // split constants at runs of equal bits
        for (int k = 0; k < 2; k++) {
            const SegE& c = k ? y[j] : x[i];
            const SegE& d = k ? x[i] : y[j];
            unsigned co = k ? yo : xo;
            if (c.v.k == INT && d.v.k != INT && o != XOR) {
                u128 bits = c.v.c >> (c.off + co);
                unsigned b0 = unsigned(bits & 1), r = 1;
                while (r < n && unsigned((bits >> r) & 1) == b0) r++;
                n = std::min(n, r);
            }
        }
        auto part = [&](const SegE& e, unsigned eo) {
            return vslice(e.v, e.off + eo, n, f);
        };
        Val p = part(x[i], xo), q = part(y[j], yo), r;
        u128 ones = maskW(n);
        if (p.k == INT && q.k == INT) {
            r = vint(o == AND ? (p.c & q.c) : o == OR ? (p.c | q.c)
                                                      : (p.c ^ q.c),
                     n);
        } else {
            if (p.k == INT) std::swap(p, q);
            if (q.k == INT && q.c == 0)
                r = o == AND ? vint(0, n) : p;
            else if (q.k == INT && q.c == ones && o != XOR)
                r = o == AND ? p : vint(ones, n);
            else if (p.k == UNDEF || q.k == UNDEF)
                r = vundef(n);
            else if (valEq(p, q))
                r = o == XOR ? vint(0, n) : p;
            else {
                Abs A, B, O;
                bool ok = false;
                try {
                    if (toAbs(p, f, A) && toAbs(q, f, B))
                        ok = combine(
                            A, B, f,
                            [&](const Case& c, const Poly& s, const Poly& t,
                                Abs& R) {
                                const Poly *u = &s, *v = &t;
                                if (u->isConst()) std::swap(u, v);
                                Poly g2;
                                if (gGf2 && !u->isConst() &&
                                    ((o == XOR && gf2Xor(s, t, g2)) ||
                                     (o == OR && gf2Or(s, t, g2)))) {
                                    R.ps.push_back({c, g2});
                                    return true;
                                }
                                if (u->isConst()) {
                                    u128 e = u128(u->c), g = u128(v->c);
                                    u128 z = o == AND  ? (e & g)
                                             : o == OR ? (e | g)
                                                       : (e ^ g);
                                    R.ps.push_back({c, pconst(i128(z))});
                                    return true;
                                }
                                if (*u == *v) {
                                    R.ps.push_back(
                                        {c, o == XOR ? pconst(0) : *u});
                                    return true;
                                }
                                if (v->isConst()) {
                                    u128 g = u128(v->c);
                                    if (g == 0) {
                                        R.ps.push_back(
                                            {c, o == AND ? pconst(0) : *u});
                                        return true;
                                    }
                                    if (g == ones) {
                                        R.ps.push_back(
                                            {c, o == AND ? *u
                                                : o == OR
                                                    ? pconst(i128(ones))
                                                    : psub(pconst(i128(ones)),
                                                           *u)});
                                        return true;
                                    }
                                }
                                // single bits
                                if (n == 1) {
                                    if (v->isConst()) return false;
                                    for (int s1 = 0; s1 < 2; s1++)
                                        for (int t1 = 0; t1 < 2; t1++) {
                                            Case cc = c;
                                            if (!addCons(cc, *u, s1, s1, f) ||
                                                !addCons(cc, *v, t1, t1, f))
                                                continue;
                                            int z = o == AND  ? (s1 & t1)
                                                    : o == OR ? (s1 | t1)
                                                              : (s1 ^ t1);
                                            R.ps.push_back({cc, pconst(z)});
                                        }
                                    return true;
                                }
                                // or of values with disjoint bits
                                if (o != AND) {
                                    for (int sw = 0; sw < 2; sw++) {
                                        const Poly& hi = sw ? *v : *u;
                                        const Poly& lo = sw ? *u : *v;
                                        i128 g = hi.c;
                                        for (auto& k : hi.t)
                                            g = gcd128(g, k.second);
                                        i128 pw = g & -g;
                                        Range rl = rangeOf(lo, c, f);
                                        if (g && rl.lo >= 0 && rl.hi < pw) {
                                            R.ps.push_back(
                                                {c, padd(hi, lo)});
                                            return true;
                                        }
                                    }
                                }
                                return false;
                            },
                            O);
                    if (ok) r = fromAbs(std::move(O), n, f);
                } catch (Overflow&) {
                    ok = false;
                }
                if (!ok) {
                    Range ra, rb;
                    i128 hi = i128(n >= 120 ? (u128(1) << 119) : ones);
                    if (n < 120 && o == AND && vrange(p, f, ra) &&
                        vrange(q, f, rb))
                        hi = std::min(ra.hi, rb.hi);
                    r = n >= 120 ? vopaque(n, "bitwise")
                                 : vopaqueR(0, hi, n, "bitwise");
                }
            }
        }
        parts.push_back(r);
        xo += n;
        yo += n;
        if (xo == x[i].w) {
            i++;
            xo = 0;
        }
        if (yo == y[j].w) {
            j++;
            yo = 0;
        }
    }
    return vconcat(parts, f);
}

static Val arith(Op o, const Val& a, const Val& b, unsigned w, const Facts& f)
{
    Abs A, B, O;
    if (!toAbs(a, f, A) || !toAbs(b, f, B)) {
        if (w > 64 && w <= 128 && (o == SHL || o == LSHR) && b.k == INT) {
            unsigned n = unsigned(b.c);
            if (n >= w) return vint(0, w);
            if (o == SHL)
                return vconcat({vint(0, n), vslice(a, 0, w - n, f)}, f);
            return vconcat({vslice(a, n, w - n, f), vint(0, n)}, f);
        }
        return vopaque(w, "arith");
    }
    bool ok = true;
    i128 m = w < 126 ? (i128(1) << w) : 0;
    switch (o) {
    case ADD:
    case SUB:
    case MUL:
        ok = combine(A, B, f,
                     [&](const Case& c, const Poly& x, const Poly& y, Abs& r) {
                         if (o == MUL && x.isConst() && y.isConst()) {
                             u128 z = u128(x.c) * u128(y.c);
                             if (w < 128) z &= maskW(w);
                             if (w >= 126 && (z >> 125)) return false;
                             r.ps.push_back({c, pconst(i128(z))});
                             return true;
                         }
                         r.ps.push_back({c, o == ADD   ? padd(x, y)
                                            : o == SUB ? psub(x, y)
                                                       : pmul(x, y)});
                         return true;
                     },
                     O);
        break;
    case UDIV:
    case UREM:
    case LSHR:
        ok = combine(A, B, f,
                     [&](const Case& c, const Poly& x, const Poly& y, Abs& r) {
                         if (!y.isConst()) return false;
                         i128 d = y.c;
                         if (o == LSHR) {
                             if (d >= w) {
                                 r.ps.push_back({c, pconst(0)});
                                 return true;
                             }
                             d = i128(1) << d;
                         }
                         if (d == 0) return false;
                         Poly g2;
                         if (gGf2 && o == LSHR &&
                             gf2Slice(x, unsigned(y.c), 64, g2)) {
                             r.ps.push_back({c, g2});
                             return true;
                         }
                         std::vector<DivP> dp;
                         divide(c, x, d, f, dp);
                         for (auto& e : dp)
                             r.ps.push_back({e.cs, o == UREM ? e.r : e.q});
                         return true;
                     },
                     O);
        break;
    case SHL:
        ok = combine(A, B, f,
                     [&](const Case& c, const Poly& x, const Poly& y, Abs& r) {
                         if (!y.isConst()) return false;
                         if (y.c >= w) {
                             r.ps.push_back({c, pconst(0)});
                             return true;
                         }
                         Poly g2;
                         if (gGf2 && !x.isConst() && w <= 64 &&
                             gf2Shl(x, unsigned(y.c), w, g2)) {
                             r.ps.push_back({c, g2});
                             return true;
                         }
                         if (y.c > 100) return false;
                         r.ps.push_back({c, pscale(x, i128(1) << y.c)});
                         return true;
                     },
                     O);
        break;
    case SDIV:
    case SREM:
    case ASHR: {
        Abs SA, SB;
        if (!toSigned(a, f, SA)) return vopaque(w, "signed");
        if (o == ASHR)
            SB = B;
        else if (!toSigned(b, f, SB))
            return vopaque(w, "signed");
        ok = combine(
            SA, SB, f,
            [&](const Case& c, const Poly& x, const Poly& y, Abs& r) {
                if (!y.isConst()) return false;
                i128 d = y.c;
                if (o == ASHR) {
                    if (d >= w) return false;
                    std::vector<DivP> dp;
                    divide(c, x, i128(1) << d, f, dp);
                    for (auto& e : dp) r.ps.push_back({e.cs, e.q});
                    return true;
                }
                if (d == 0) return false;
                if (x.isConst()) {
                    r.ps.push_back(
                        {c, pconst(o == SDIV ? x.c / d : x.c % d)});
                    return true;
                }
                if (d < 0) return false;
                // truncation towards zero
                for (int s = 0; s < 2; s++) {
                    Case cc = c;
                    Poly xx = s ? pscale(x, -1) : x;
                    if (!addCons(cc, xx, s ? 1 : 0, i128(1) << 100, f))
                        continue;
                    std::vector<DivP> dp;
                    divide(cc, xx, d, f, dp);
                    for (auto& e : dp) {
                        Poly z = o == SDIV ? e.q : e.r;
                        r.ps.push_back({e.cs, s ? pscale(z, -1) : z});
                    }
                }
                return true;
            },
            O);
        break;
    }
    default:
        ok = false;
    }
    (void)m;
    if (!ok) {
        Range ra, rb;
        if (w < 120 && vrange(a, f, ra) && vrange(b, f, rb)) {
            if (o == UDIV || o == LSHR) return vopaqueR(0, ra.hi, w, "div");
            if (o == UREM)
                return vopaqueR(0, rb.hi > 0 ? std::min(ra.hi, rb.hi - 1)
                                             : ra.hi,
                                w, "rem");
        }
        return vopaque(w, "nonconst operand");
    }
    return fromAbs(std::move(O), w, f);
}

static Val binop0(Op o, const Val& a, const Val& b, unsigned w, const Facts& f)
{
    if (a.k == INT && b.k == INT) {
        u128 x = a.c, y = b.c, r = 0;
        auto sx = [&](u128 v) {
            if (w < 128 && ((v >> (w - 1)) & 1)) v |= ~maskW(w);
            return i128(v);
        };
        switch (o) {
        case ADD: r = x + y; break;
        case SUB: r = x - y; break;
        case MUL: r = x * y; break;
        case UDIV:
            if (!y) return vundef(w);
            r = x / y;
            break;
        case UREM:
            if (!y) return vundef(w);
            r = x % y;
            break;
        case SDIV:
            if (!y) return vundef(w);
            r = u128(sx(x) / sx(y));
            break;
        case SREM:
            if (!y) return vundef(w);
            r = u128(sx(x) % sx(y));
            break;
        case SHL: r = y >= w ? 0 : x << unsigned(y); break;
        case LSHR: r = y >= w ? 0 : x >> unsigned(y); break;
        case ASHR: r = u128(sx(x) >> (y >= w ? w - 1 : unsigned(y))); break;
        case AND: r = x & y; break;
        case OR: r = x | y; break;
        case XOR: r = x ^ y; break;
        }
        return vint(r, w);
    }
    if (a.k == UNDEF || b.k == UNDEF) {
        // x & 0, x * 0
        if ((o == AND || o == MUL) &&
            ((a.k == INT && a.c == 0) || (b.k == INT && b.c == 0)))
            return vint(0, w);
        if (o != AND && o != OR && o != XOR && o != LSHR && o != SHL)
            return vundef(w);
    }
    try {
        if (o == AND || o == OR || o == XOR) return bitwise(o, a, b, w, f);
        if ((o == SHL || o == LSHR) && b.k == INT && a.k == SEG) {
            unsigned n = unsigned(b.c);
            if (b.c >= w) return vint(0, w);
            if (n == 0) return a;
            if (o == SHL)
                return vconcat({vint(0, n), vslice(a, 0, w - n, f)}, f);
            return vconcat({vslice(a, n, w - n, f), vint(0, n)}, f);
        }
        if (a.k == UNDEF || b.k == UNDEF) return vundef(w);
        // beyond what a polynomial can hold: keep the bits apart
        if (o == SHL && w > 120 && a.k == ABS && b.k == INT && b.c &&
            b.c < w) {
            unsigned n = unsigned(b.c), hb = 0;
            Range ra;
            if (vrange(a, f, ra) && ra.lo >= 0) {
                while (hb < 120 && (ra.hi >> hb)) hb++;
                hb = (hb + 15) / 16 * 16;
                if (hb && hb + n > 120 && hb + n <= w) {
                    std::vector<Val> ps = {vint(0, n), vslice(a, 0, hb, f)};
                    if (hb + n < w) ps.push_back(vint(0, w - n - hb));
                    return vconcat(ps, f);
                }
            }
        }
        return arith(o, a, b, w, f);
    } catch (Overflow&) {
        return vopaque(w, "overflow");
    }
}

static Val icmp0(Pred p, const Val& a, const Val& b, const Facts& f)
{
    if (a.k == INT && b.k == INT) {
        unsigned w = a.w;
        u128 x = a.c, y = b.c;
        auto sx = [&](u128 v) {
            if (w < 128 && ((v >> (w - 1)) & 1)) v |= ~maskW(w);
            return i128(v);
        };
        bool r = false;
        switch (p) {
        case EQ: r = x == y; break;
        case NE: r = x != y; break;
        case ULT: r = x < y; break;
        case ULE: r = x <= y; break;
        case UGT: r = x > y; break;
        case UGE: r = x >= y; break;
        case SLT: r = sx(x) < sx(y); break;
        case SLE: r = sx(x) <= sx(y); break;
        case SGT: r = sx(x) > sx(y); break;
        case SGE: r = sx(x) >= sx(y); break;
        }
        return vint(r, 1);
    }
    if (a.k == UNDEF || b.k == UNDEF) return vundef(1);
    if ((p == EQ || p == NE) && valEq(a, b)) return vint(p == EQ, 1);
    try {
        Abs A, B, O;
        bool sg = p >= SLT;
        bool ok = sg ? (toSigned(a, f, A) && toSigned(b, f, B))
                     : (toAbs(a, f, A) && toAbs(b, f, B));
        if (!ok) return vopaque(1, "icmp");
        const i128 INF = i128(1) << 122;
        ok = combine(
            A, B, f,
            [&](const Case& c, const Poly& x, const Poly& y, Abs& r) {
                Poly d = psub(x, y);
                Range q = rangeOf(d, c, f);
                if (q.empty()) return true;
                struct P3 {
                    i128 lo, hi;
                    int v;
                } alt[3];
                int n = 0;
                switch (p) {
                case EQ:
                case NE:
                    alt[n++] = {0, 0, p == EQ};
                    alt[n++] = {-INF, -1, p == NE};
                    alt[n++] = {1, INF, p == NE};
                    break;
                case ULT:
                case SLT:
                    alt[n++] = {-INF, -1, 1};
                    alt[n++] = {0, INF, 0};
                    break;
                case ULE:
                case SLE:
                    alt[n++] = {-INF, 0, 1};
                    alt[n++] = {1, INF, 0};
                    break;
                case UGT:
                case SGT:
                    alt[n++] = {1, INF, 1};
                    alt[n++] = {-INF, 0, 0};
                    break;
                case UGE:
                case SGE:
                    alt[n++] = {0, INF, 1};
                    alt[n++] = {-INF, -1, 0};
                    break;
                }
                for (int i = 0; i < n; i++) {
                    if (q.hi < alt[i].lo || q.lo > alt[i].hi) continue;
                    if (q.lo >= alt[i].lo && q.hi <= alt[i].hi) {
                        r.ps.push_back({c, pconst(alt[i].v)});
                        continue;
                    }
                    Case cc = c;
                    if (!addCons(cc, d, std::max(alt[i].lo, q.lo),
                                 std::min(alt[i].hi, q.hi), f))
                        continue;
                    r.ps.push_back({cc, pconst(alt[i].v)});
                }
                return true;
            },
            O);
        if (!ok) return vopaque(1, "icmp");
        return finish(std::move(O), 1, f);
    } catch (Overflow&) {
        return vopaque(1, "overflow");
    }
}

int decide(const Val& v, const Facts& f)
{
    if (v.k == UNDEF) return 3;
    if (v.k == INT) return int(v.c & 1);
    Abs a;
    bool t = false, z = false;
    try {
        if (!toAbs(v, f, a)) return 2;
        for (auto& p : a.ps) {
            if (!feasible(p.cs, f)) continue;
            Range r = rangeOf(p.p, p.cs, f);
            if (r.empty()) continue;
            if (r.hi >= 1) t = true;
            if (r.lo <= 0) z = true;
        }
    } catch (Overflow&) {
        return 2;
    }
    if (t && z) return 2;
    return t ? 1 : 0;
}

static void implyAllz(Facts& f)
{
    // expand decided all-zero symbols
    for (size_t i = 0; i < f.cons.size(); i++) {
        Cons c = f.cons[i];
        if (c.p.t.size() != 1 || c.lo != c.hi) continue;
        const auto& ms = gMonos[c.p.t[0].first];
        if (ms.size() != 1) continue;
        auto it = gAllz.find(ms[0]);
        if (it == gAllz.end()) continue;
        std::vector<Val> vals = it->second;
        Case zero;
        bool exact = true;
        for (auto& v : vals) {
            Abs a;
            if (!toAbs(v, f, a)) {
                exact = false;
                continue;
            }
            const Piece* z = nullptr;
            int n = 0;
            for (auto& p : a.ps) {
                Range r = rangeOf(p.p, p.cs, f);
                if (r.empty() || r.lo > 0 || !feasible(p.cs, f)) continue;
                n++;
                z = &p;
            }
            if (n != 1) {
                exact = false;
                continue;
            }
            for (auto& k : z->cs) mergeCons(zero, k);
            Cons k;
            if (!z->p.isConst() && mkCons(z->p, 0, 0, k) == 1)
                mergeCons(zero, k);
        }
        if (c.lo == 1) {
            for (auto& k : zero) mergeCons(f.cons, k);
        } else if (exact && !zero.empty()) {
            if (zero.size() == 1 && zero[0].lo == zero[0].hi) {
                Range r = rangeOf(zero[0].p, {}, f);
                Cons k = zero[0];
                if (r.lo == k.lo) {
                    k.lo = r.lo + 1;
                    k.hi = r.hi;
                    mergeCons(f.cons, k);
                    continue;
                } else if (r.hi == k.hi) {
                    k.lo = r.lo;
                    k.hi = r.hi - 1;
                    mergeCons(f.cons, k);
                    continue;
                }
            }
            bool have = false;
            for (auto& e : f.excluded)
                if (e.size() == zero.size() &&
                    std::equal(e.begin(), e.end(), zero.begin()))
                    have = true;
            if (!have) f.excluded.push_back(zero);
        }
    }
}

// The equalities of a path, taken together modulo the order of the field: are
// they contradictory, and which symbols do they determine?
static bool congruences(Facts& f)
{
    if (gGf2) return true;
    std::set<i128> qs;
    for (auto& c : f.cons) {
        i128 lo = c.lo, hi = c.hi;
        if (c.p.t.size() == 1 && gMonos[c.p.t[0].first].size() == 1 &&
            c.p.t[0].second == 1) {
            const Sym& s = gSyms[gMonos[c.p.t[0].first][0]];
            lo = std::max(lo, s.lo);
            hi = std::min(hi, s.hi);
        }
        if (lo != hi) continue;
        i128 q = modulusOf(c.p);
        if (q > 2) qs.insert(q);
    }
    for (i128 q : qs) {
        std::vector<Poly> rows;
        if (!modRows(Case(), f, q, rows)) return false;
        for (auto& r : rows) {
            if (r.t.size() != 1 || gMonos[r.t[0].first].size() != 1) continue;
            const int x = gMonos[r.t[0].first][0];
            Range g = rangeOf(psym(x), Case(), f, 1);
            i128 v = (q - r.c) % q;
            v = cadd(v, cmul(cdiv(csub(g.lo, v), q), q));
            if (v > g.hi) return false;
            if (g.lo == g.hi || cadd(v, q) <= g.hi) continue;
            if (!addCons(f.cons, psym(x), v, v, Facts())) return false;
        }
    }
    return true;
}

bool assume(const Val& v, bool truth, Facts& f)
{
    if (v.k == INT) return (v.c & 1) == (truth ? 1 : 0);
    if (v.k == UNDEF) return true;
    try {
        Abs a;
        if (!toAbs(v, f, a)) return true;
        std::vector<Case> yes;
        std::vector<Case> no;
        bool noExact = true;
        i128 t = truth ? 1 : 0;
        for (auto& p : a.ps) {
            if (!feasible(p.cs, f)) continue;
            if (p.p.isConst()) {
                if (p.p.c == t)
                    yes.push_back(p.cs);
                else
                    no.push_back(p.cs);
                continue;
            }
            Case c = p.cs;
            if (addCons(c, p.p, t, t, f)) yes.push_back(c);
            c = p.cs;
            if (addCons(c, p.p, 1 - t, 1 - t, f)) no.push_back(c);
        }
        (void)noExact;
        if (yes.empty()) return false;
        if (yes.size() == 1) {
            for (auto& k : yes[0])
                if (!mergeCons(f.cons, k)) return false;
        } else {
            for (auto& c : no) {
                if (c.empty()) continue;
                f.excluded.push_back(c);
            }
            // common hull of single-symbol ranges
            Case hull = yes[0];
            for (size_t i = 1; i < yes.size(); i++) {
                Case h2;
                for (auto& k : hull)
                    for (auto& l : yes[i])
                        if (k.p == l.p) {
                            Cons m = k;
                            m.lo = std::min(k.lo, l.lo);
                            m.hi = std::max(k.hi, l.hi);
                            h2.push_back(m);
                        }
                hull = h2;
            }
            for (auto& k : hull) mergeCons(f.cons, k);
        }
        implyAllz(f);
        if (!congruences(f)) return false;
        return feasible({}, f);
    } catch (Overflow&) {
        return true;
    }
}

Val vallzero(const std::vector<Val>& vals, unsigned w, const Facts& f)
{
    std::vector<Val> keep;
    for (auto& v : vals) {
        if (v.k == UNDEF) return vundef(w);
        if (v.k == INT) {
            if (v.c) return vint(0, w);
            continue;
        }
        Range r;
        if (vrange(v, f, r)) {
            if (r.lo > 0) return vint(0, w);
            if (r.hi == 0) continue;
        }
        keep.push_back(v);
    }
    if (keep.empty()) return vint(1, w);
    if (keep.size() <= gDirectLanes) {
        // few undetermined bit-strings: the conjunction itself
        uint64_t before = gOpaqueCount;
        Val r = vint(1, 1);
        bool ok = true;
        for (auto& v : keep) {
            if (v.k != ABS && v.k != SEG) {
                ok = false;
                break;
            }
            r = binop(AND, r, icmp(EQ, v, vint(0, v.w), f), 1, f);
            if (r.k == ABS && r.abs().ps.size() > 16) ok = false;
            if (!ok || (r.k != INT && r.k != ABS)) {
                ok = false;
                break;
            }
        }
        if (ok && gOpaqueCount == before) return vzext(r, w, f);
    }
    int s = newSym(0, 1, "z" + std::to_string(gSyms.size()));
    gAllz[s] = keep;
    return vsym(s, w);
}

static Val vselect0(const Val& c, const Val& a, const Val& b, const Facts& f)
{
    int d = decide(c, f);
    if (d == 1) return a;
    if (d == 0) return b;
    if (valEq(a, b)) return a;
    if (d == 3) return vundef(a.w);
    if (a.k == VEC || b.k == VEC) {
        auto &x = vecOf(a), &y = vecOf(b);
        std::vector<Val> e;
        for (size_t i = 0; i < x.size(); i++)
            e.push_back(vselect(c, x[i], y[i], f));
        return vvec(std::move(e));
    }
    try {
        Abs C, A, B, O;
        if (!toAbs(c, f, C) || !toAbs(a, f, A) || !toAbs(b, f, B)) {
            if (a.k == UNDEF || b.k == UNDEF) return vundef(a.w);
            return vopaque(a.w, "select");
        }
        for (auto& p : C.ps) {
            for (int t = 0; t < 2; t++) {
                Case cc = p.cs;
                if (p.p.isConst()) {
                    if (p.p.c != t) continue;
                } else if (!addCons(cc, p.p, t, t, f))
                    continue;
                for (auto& x : (t ? A : B).ps) {
                    Case k;
                    if (!conj(cc, x.cs, f, k)) continue;
                    O.ps.push_back({k, x.p});
                }
            }
        }
        return finish(std::move(O), a.w, f);
    } catch (Overflow&) {
        return vopaque(a.w, "overflow");
    }
}

Val vbswap(const Val& a, const Facts& f)
{
    std::vector<Val> parts;
    for (unsigned i = 0; i < a.w / 8u; i++)
        parts.push_back(vslice(a, a.w - 8 * (i + 1), 8, f));
    return vconcat(parts, f);
}

static bool sameCase(const Case& a, const Case& b)
{
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
}
bool dnfDelta(const Facts& f, const Facts& base, Dnf& out)
{
    bool exact = !f.approx;
    Case first;
    for (auto& k : f.cons)
        if (std::find(base.cons.begin(), base.cons.end(), k) ==
            base.cons.end())
            first.push_back(k);
    out.assign(1, first);
    const i128 INF = i128(1) << 122;
    for (auto& e : f.excluded) {
        bool old = false;
        for (auto& b : base.excluded) old |= sameCase(b, e);
        if (old) continue;
        Dnf nx;
        try {
            for (auto& c : out) {
                // c and not (k1 and k2 and ...)
                Case pre = c;
                bool dead = false;
                for (auto& k : e) {
                    Case lo = pre, hi = pre;
                    if (k.lo > -INF && addCons(lo, k.p, -INF, k.lo - 1, base) &&
                        feasible(lo, base))
                        nx.push_back(lo);
                    if (k.hi < INF && addCons(hi, k.p, k.hi + 1, INF, base) &&
                        feasible(hi, base))
                        nx.push_back(hi);
                    if (!addCons(pre, k.p, k.lo, k.hi, base)) {
                        dead = true;
                        break;
                    }
                }
                (void)dead;
            }
        } catch (Overflow&) {
            exact = false;
            continue;
        }
        if (nx.size() > 12) {
            exact = false;
            continue;
        }
        if (nx.empty()) return exact;
        out = std::move(nx);
    }
    return exact;
}

static Val vjoin0(const std::vector<const Val*>& v, const std::vector<const Dnf*>& cs,
          const Facts& f)
{
    size_t n = v.size();
    const Val& a = *v[0];
    bool same = true, undef = false, vec = true, seg = true;
    for (size_t i = 0; i < n; i++) {
        same &= i == 0 || valEq(a, *v[i]);
        undef |= v[i]->k == UNDEF;
        vec &= v[i]->k == VEC && a.k == VEC &&
               vecOf(*v[i]).size() == vecOf(a).size();
        seg &= v[i]->k == SEG || v[i]->k == INT;
    }
    if (same) return a;
    if (vec) {
        std::vector<Val> e;
        for (size_t j = 0; j < vecOf(a).size(); j++) {
            std::vector<const Val*> col;
            for (size_t i = 0; i < n; i++) col.push_back(&vecOf(*v[i])[j]);
            e.push_back(vjoin(col, cs, f));
        }
        return vvec(std::move(e));
    }
    if (undef) {
        bool all = true;
        for (size_t i = 0; i < n; i++) all &= v[i]->k == UNDEF;
        unsigned w = a.w ? a.w : v[1]->w;
        if (all || !w) return vundef(w);
        return vopaque(w, "set on some paths only");
    }
    struct InJoin {
        InJoin() { gInJoin++; }
        ~InJoin() { gInJoin--; }
    } inJoin;
    if (seg) {
        const Val* sv = nullptr;
        bool shape = true;
        for (size_t i = 0; i < n; i++) {
            if (v[i]->k != SEG) continue;
            if (!sv) {
                sv = v[i];
                continue;
            }
            auto &x = segOf(*sv).s, &y = segOf(*v[i]).s;
            shape &= x.size() == y.size();
            for (size_t j = 0; shape && j < x.size(); j++)
                shape = x[j].w == y[j].w;
        }
        if (sv && shape && segOf(*sv).s.size() > 1) {
            std::vector<Val> parts;
            unsigned off = 0;
            for (auto& e : segOf(*sv).s) {
                std::vector<Val> sl;
                for (size_t i = 0; i < n; i++)
                    sl.push_back(vslice(*v[i], off, e.w, f));
                std::vector<const Val*> col;
                for (auto& x : sl) col.push_back(&x);
                parts.push_back(vjoin(col, cs, f));
                off += e.w;
            }
            return vconcat(parts, f);
        }
    }
    try {
        Abs O;
        for (size_t i = 0; i < n; i++) {
            Abs A;
            if (!toAbs(*v[i], f, A)) return vopaque(a.w, "join");
            for (auto& x : A.ps) {
                for (auto& alt : *cs[i]) {
                    Case c;
                    if (conj(x.cs, alt, f, c)) O.ps.push_back({c, x.p});
                }
            }
        }
        if (O.ps.empty()) return a;
        if (O.ps.size() > 2 && O.ps.size() < 400) glueAll(O.ps, f);
        return finish(std::move(O), a.w, f);
    } catch (Overflow&) {
        return vopaque(a.w, "overflow");
    }
}

static bool fullyInt(const Val& v) { return v.k == INT; }
Val binop(Op o, const Val& a, const Val& b, unsigned w, const Facts& f)
{
    size_t n0 = gSyms.size();
    Val r = binop0(o, a, b, w, f);
    if (gSyms.size() == n0 || r.k == INT || r.k == UNDEF || r.k == VEC ||
        a.k == VEC || b.k == VEC)
        return r;
    auto ev = std::make_shared<Eval>();
    ev->args = {a, b};
    unsigned aw = a.w, bw = b.w;
    ev->fn = [o, w, aw, bw](const std::vector<u128>& x, u128& out) {
        Facts none;
        Val v = binop0(o, vint(x[0], aw), vint(x[1], bw), w, none);
        if (!fullyInt(v)) return false;
        out = v.c;
        return true;
    };
    return traced(r, n0, ev);
}
Val icmp(Pred p, const Val& a, const Val& b, const Facts& f)
{
    size_t n0 = gSyms.size();
    Val r = icmp0(p, a, b, f);
    if (gSyms.size() == n0 || r.k == INT || r.k == UNDEF || r.k == VEC ||
        a.k == VEC || b.k == VEC)
        return r;
    auto ev = std::make_shared<Eval>();
    ev->args = {a, b};
    unsigned aw = a.w, bw = b.w;
    ev->fn = [p, aw, bw](const std::vector<u128>& x, u128& out) {
        Facts none;
        out = icmp0(p, vint(x[0], aw), vint(x[1], bw), none).c;
        return true;
    };
    return traced(r, n0, ev);
}
Val vsext(const Val& a, unsigned w, const Facts& f)
{
    size_t n0 = gSyms.size();
    Val r = vsext0(a, w, f);
    if (gSyms.size() == n0 || r.k == INT || r.k == UNDEF || r.k == VEC ||
        a.k == VEC)
        return r;
    auto ev = std::make_shared<Eval>();
    ev->args = {a};
    unsigned aw = a.w;
    ev->fn = [w, aw](const std::vector<u128>& x, u128& out) {
        Facts none;
        out = vsext0(vint(x[0], aw), w, none).c;
        return true;
    };
    return traced(r, n0, ev);
}
Val vselect(const Val& c, const Val& a, const Val& b, const Facts& f)
{
    size_t n0 = gSyms.size();
    Val r = vselect0(c, a, b, f);
    if (gSyms.size() == n0 || r.k == INT || r.k == UNDEF || r.k == VEC)
        return r;
    auto ev = std::make_shared<Eval>();
    ev->args = {c, a, b};
    ev->fn = [](const std::vector<u128>& x, u128& out) {
        out = (x[0] & 1) ? x[1] : x[2];
        return true;
    };
    return traced(r, n0, ev);
}
Val vjoin(const std::vector<const Val*>& v, const std::vector<const Dnf*>& cs,
          const Facts& f)
{
    size_t n0 = gSyms.size();
    Val r = vjoin0(v, cs, f);
    if (gSyms.size() == n0 || r.k == INT || r.k == UNDEF || r.k == VEC)
        return r;
    for (auto* x : v)
        if (x->k != INT && x->k != ABS && x->k != SEG) return r;
    auto ev = std::make_shared<Eval>();
    for (size_t i = 0; i < v.size(); i++) {
        ev->args.push_back(*v[i]);
        ev->when.push_back(*cs[i]);
    }
    return traced(r, n0, ev);
}

bool vrange(const Val& v, const Facts& f, Range& r)
{
    try {
        Abs a;
        if (!toAbs(v, f, a)) return false;
        bool first = true;
        for (auto& p : a.ps) {
            Range q = rangeOf(p.p, p.cs, f);
            if (q.empty() || (!p.cs.empty() && !feasible(p.cs, f))) continue;
            if (first) {
                r = q;
                first = false;
            } else {
                r.lo = std::min(r.lo, q.lo);
                r.hi = std::max(r.hi, q.hi);
            }
        }
        return !first;
    } catch (Overflow&) {
        return false;
    }
}

// --------------------------------------------------------------- residues
Poly residue(const Poly& p, i128 q)
{
    Poly acc;
    acc.c = p.c % q;
    for (auto& x : p.t) {
        Poly m = pconst(x.second % q);
        for (int s : gMonos[x.first]) {
            const Sym& y = gSyms[s];
            if (y.form && y.q == q)
                m = pmul(m, *y.form);
            else
                m = pmul(m, psym(s));
        }
        // reduce coefficients
        Poly r;
        r.c = m.c % q;
        for (auto& t : m.t)
            if (t.second % q) r.t.push_back({t.first, t.second % q});
        acc = padd(acc, r);
    }
    Poly r;
    r.c = ((acc.c % q) + q) % q;
    for (auto& t : acc.t) {
        i128 v = ((t.second % q) + q) % q;
        if (v) r.t.push_back({t.first, v});
    }
    return r;
}

Poly substEq(Poly p, const Case& cs, i128 q)
{
    for (auto& c : cs) {
        if (c.lo != c.hi) continue;
        if (c.p.t.size() == 1 && gMonos[c.p.t[0].first].size() == 1) {
            int s = gMonos[c.p.t[0].first][0];
            Poly r = pconst(p.c);
            for (auto& x : p.t) {
                Poly m = pconst(x.second);
                for (int t : gMonos[x.first])
                    m = t == s ? pscale(m, c.lo) : pmul(m, psym(t));
                r = padd(r, m);
            }
            p = r;
        } else if (q) {
            // eliminate a unit-coefficient monomial
            for (auto& x : c.p.t) {
                if (x.second != 1 && x.second != -1) continue;
                for (auto& y : p.t)
                    if (y.first == x.first) {
                        i128 al = y.second * x.second;
                        Poly e = c.p;
                        e.c = -c.lo;
                        p = psub(p, pscale(e, al));
                        break;
                    }
                break;
            }
        }
    }
    return p;
}

static i128 powMod(i128 b, i128 e, i128 q)
{
    i128 r = 1;
    for (b %= q; e; e >>= 1, b = b * b % q)
        if (e & 1) r = r * b % q;
    return r;
}
static Poly modReduce(Poly d, const std::vector<Poly>& rows, i128 q)
{
    for (auto& r : rows) {
        // pivot: first monomial, coefficient 1
        for (auto& x : d.t)
            if (x.first == r.t[0].first) {
                i128 k = x.second;
                d = residue(psub(d, pscale(r, k)), q);
                break;
            }
    }
    return d;
}
bool modRows(const Case& cs, const Facts& f, i128 q, std::vector<Poly>& rows)
{
    rows.clear();
    if (q < 3 || q > (i128(1) << 40)) return true;
    auto add = [&](const Cons& c) {
        i128 lo = c.lo, hi = c.hi;
        if (c.p.t.size() == 1 && gMonos[c.p.t[0].first].size() == 1 &&
            c.p.t[0].second == 1) {
            const Sym& s = gSyms[gMonos[c.p.t[0].first][0]];
            lo = std::max(lo, s.lo);
            hi = std::min(hi, s.hi);
        }
        if (lo != hi) return true;
        Poly e = c.p;
        e.c = -lo;
        e = residue(e, q);
        for (auto& x : e.t)
            for (int s : gMonos[x.first])
                if (gSyms[s].def || gAllz.count(s)) return true;
        e = modReduce(e, rows, q);
        if (e.t.empty()) return e.c == 0;
        i128 inv = powMod(e.t[0].second, q - 2, q);
        if (e.t[0].second * inv % q != 1) return true;
        e = residue(pscale(e, inv), q);
        for (auto& r : rows)
            for (auto& x : r.t)
                if (x.first == e.t[0].first) {
                    i128 k = x.second;
                    r = residue(psub(r, pscale(e, k)), q);
                    break;
                }
        // a row with one unknown determines it
        rows.push_back(e);
        return true;
    };
    for (auto& c : f.cons)
        if (!add(c)) return false;
    for (auto& c : cs)
        if (!add(c)) return false;
    for (auto& r : rows) {
        if (r.t.size() != 1 || gMonos[r.t[0].first].size() != 1) continue;
        Range g = rangeOf(psym(gMonos[r.t[0].first][0]), cs, f, 1);
        // x = -c (mod q)
        i128 v = (q - r.c) % q;
        i128 k = cdiv(csub(g.lo, v), q);
        if (cadd(v, cmul(k, q)) > g.hi) return false;
    }
    if (rows.empty()) return true;
    // bounds on residues which are equal, or constant, given the rows
    std::vector<std::pair<Poly, Range>> seen;
    auto bound = [&](const Cons& c) {
        if (c.p.t.size() != 1 || gMonos[c.p.t[0].first].size() != 1 ||
            c.p.t[0].second != 1 || c.p.c != 0)
            return true;
        const Sym& s = gSyms[gMonos[c.p.t[0].first][0]];
        if (!s.form || s.q != q || s.lo < 0 || s.hi >= q) return true;
        Poly r = modReduce(*s.form, rows, q);
        i128 lo = std::max(c.lo, s.lo), hi = std::min(c.hi, s.hi);
        if (r.isConst()) return r.c >= lo && r.c <= hi;
        for (auto& x : seen)
            if (x.first == r) {
                x.second.lo = std::max(x.second.lo, lo);
                x.second.hi = std::min(x.second.hi, hi);
                return x.second.lo <= x.second.hi;
            }
        Range g;
        g.lo = lo;
        g.hi = hi;
        seen.push_back({r, g});
        return lo <= hi;
    };
    for (auto& c : f.cons)
        if (!bound(c)) return false;
    for (auto& c : cs)
        if (!bound(c)) return false;
    return true;
}
bool modZero(const Poly& d, const Case& cs, const Facts& f, i128 q)
{
    Poly r = residue(d, q);
    if (r.isConst() && r.c == 0) return true;
    std::vector<Poly> rows;
    if (!modRows(cs, f, q, rows)) return true; // infeasible
    r = modReduce(r, rows, q);
    return r.isConst() && r.c == 0;
}
i128 modulusOf(const Poly& d)
{
    for (auto& x : d.t)
        for (int s : gMonos[x.first])
            if (gSyms[s].form) return gSyms[s].q;
    return 0;
}

static std::map<std::pair<Poly, i128>, int> gCanon;
static std::vector<int> gCanonList;

Val normalise(const Val& v, i128 q, const Facts& f)
{
    if (v.k != ABS && v.k != SEG) return v;
    try {
        Abs a;
        if (!toAbs(v, f, a)) return v;
        if (a.ps.size() == 1 && a.ps[0].p.t.size() == 1 && a.ps[0].p.c == 0 &&
            a.ps[0].p.t[0].second == 1 &&
            gMonos[a.ps[0].p.t[0].first].size() == 1)
            return v;
        // an offset of a residue which is known better than its class
        if (a.ps.size() == 1 && a.ps[0].p.t.size() == 1 &&
            a.ps[0].p.t[0].second == 1 &&
            gMonos[a.ps[0].p.t[0].first].size() == 1) {
            Range r = rangeOf(a.ps[0].p, a.ps[0].cs, f);
            if (!r.empty() && r.lo >= 0 && r.hi < q / 4) return v;
        }
        // most general piece first
        std::vector<const Piece*> ps;
        for (auto& p : a.ps) ps.push_back(&p);
        std::stable_sort(ps.begin(), ps.end(),
                         [](const Piece* x, const Piece* y) {
                             auto eq = [](const Piece* z) {
                                 int n = 0;
                                 for (auto& c : z->cs) n += c.lo == c.hi;
                                 return n;
                             };
                             if (eq(x) != eq(y)) return eq(x) < eq(y);
                             return x->p.t.size() > y->p.t.size();
                         });
        const Piece* cand = ps[0];
        i128 lo = 0, hi = 0;
        for (size_t i = 0; i < ps.size(); i++) {
            Range r = rangeOf(ps[i]->p, ps[i]->cs, f);
            if (r.empty()) continue;
            if (i == 0) {
                lo = r.lo;
                hi = r.hi;
            } else {
                lo = std::min(lo, r.lo);
                hi = std::max(hi, r.hi);
                Poly d = psub(ps[i]->p, cand->p);
                Poly rd = residue(d, q);
                if (rd.isConst() && rd.c == 0) continue;
                if (modZero(d, ps[i]->cs, f, q)) continue;
                rd = residue(substEq(rd, ps[i]->cs, q), q);
                if (rd.isConst() && rd.c == 0) continue;
                return v;
            }
        }
        Poly form = residue(cand->p, q);
        // must not depend on floor symbols
        for (auto& x : form.t)
            for (int s : gMonos[x.first])
                if (gSyms[s].def) return v;
        if (form.isConst() && lo >= 0 && hi < q)
            return vint(u128(form.c), v.w);
        if (lo >= 0 && hi < q && form.c == 0 && form.t.size() == 1 &&
            form.t[0].second == 1 && gMonos[form.t[0].first].size() == 1) {
            const Sym& b = gSyms[gMonos[form.t[0].first][0]];
            if (!b.def && b.lo >= 0 && b.hi < q)
                return vsym(gMonos[form.t[0].first][0], v.w);
        }
        if (lo >= 0 && hi < q) {
            auto key = std::make_pair(form, q);
            auto it = gCanon.find(key);
            if (it != gCanon.end()) return vsym(it->second, v.w);
            // equal to a known residue on this path
            std::vector<Poly> rows;
            if (modRows(Case(), f, q, rows) && !rows.empty()) {
                struct Known {
                    std::map<Poly, int> m;
                    size_t upto = 0;
                };
                static std::map<std::vector<Poly>, Known> cache;
                if (cache.size() > 200) cache.clear();
                Known& kn = cache[rows];
                if (kn.upto > gCanonList.size()) kn = Known();
                for (; kn.upto < gCanonList.size(); kn.upto++) {
                    int s = gCanonList[kn.upto];
                    if (gSyms[s].q != q) continue;
                    kn.m.emplace(modReduce(*gSyms[s].form, rows, q), s);
                }
                auto k = kn.m.find(modReduce(form, rows, q));
                if (k != kn.m.end()) return vsym(k->second, v.w);
            }
            int s = newSym(0, q - 1, "c" + std::to_string(gSyms.size()));
            gSyms[s].form = std::make_shared<Poly>(form);
            gSyms[s].q = q;
            gCanon[key] = s;
            gCanonList.push_back(s);
            return vsym(s, v.w);
        }
        return v;
    } catch (Overflow&) {
        return v;
    }
}

// --------------------------------------------------------------- witness
void symsOf(const Poly& p, std::set<int>& out)
{
    for (auto& x : p.t)
        for (int s : gMonos[x.first]) {
            if (out.count(s)) continue;
            const Sym& y = gSyms[s];
            out.insert(s);
            if (y.def) symsOf(*y.def, out);
            if (y.form) symsOf(*y.form, out);
            if (y.ev) {
                for (auto& e : y.ev->args) symsOf(e, out);
                for (auto& d : y.ev->when)
                    for (auto& c : d) symsOf(c, out);
            }
            if (y.linear) {
                std::set<int> d;
                gf2Deps(s, d);
                for (int b : d) symsOf(psym(b), out);
            }
            auto it = gAllz.find(s);
            if (it != gAllz.end())
                for (auto& v : it->second) symsOf(v, out);
        }
}
void symsOf(const Case& c, std::set<int>& out)
{
    for (auto& k : c) symsOf(k.p, out);
}
void symsOf(const Facts& f, std::set<int>& out)
{
    symsOf(f.cons, out);
    for (auto& e : f.excluded) symsOf(e, out);
}
void symsOf(const Val& v, std::set<int>& out)
{
    switch (v.k) {
    case ABS:
        for (auto& p : v.abs().ps) {
            symsOf(p.p, out);
            symsOf(p.cs, out);
        }
        break;
    case SEG:
        for (auto& e : segOf(v).s) symsOf(e.v, out);
        break;
    case VEC:
        for (auto& e : vecOf(v)) symsOf(e, out);
        break;
    default:
        break;
    }
}
bool hasOpaque(const Poly& p)
{
    std::set<int> s;
    symsOf(p, s);
    for (int x : s)
        if (gSyms[x].opaque) return true;
    return false;
}
bool factsOpaque(const Facts& f)
{
    std::set<int> s;
    symsOf(f, s);
    for (int x : s)
        if (gSyms[x].opaque) return true;
    return false;
}

static bool evalTrace(const Eval& e, Asg& a, u128& out)
{
    if (!e.fn) {
        bool have = false;
        for (size_t i = 0; i < e.args.size(); i++)
            for (auto& c : e.when[i]) {
                bool opq = false;
                if (!holds(c, a, opq)) {
                    if (opq) return false;
                    continue;
                }
                u128 x;
                if (!evalVal(e.args[i], a, x)) return false;
                if (have && x != out) return false;
                out = x;
                have = true;
                break;
            }
        if (!have) return false;
    } else {
        std::vector<u128> xs;
        for (auto& v : e.args) {
            u128 x;
            if (!evalVal(v, a, x)) return false;
            xs.push_back(x);
        }
        if (!e.fn(xs, out)) return false;
    }
    out = (out >> e.off) & maskW(e.w);
    return true;
}

bool evalPoly(const Poly& p, Asg& a, i128& out)
{
    i128 acc = p.c;
    for (auto& x : p.t) {
        i128 m = x.second;
        for (int s : gMonos[x.first]) {
            auto it = a.find(s);
            i128 v;
            if (it != a.end())
                v = it->second;
            else {
                const Sym& y = gSyms[s];
                if (y.linear) {
                    if (!gf2Eval(s,
                                 [&](int b, i128& r) {
                                     return evalPoly(psym(b), a, r);
                                 },
                                 v))
                        return false;
                } else if (y.def) {
                    i128 d;
                    if (!evalPoly(*y.def, a, d)) return false;
                    v = fdiv(d, y.d);
                } else if (y.form) {
                    if (!(y.lo >= 0 && y.hi < y.q)) return false;
                    i128 d;
                    if (!evalPoly(*y.form, a, d)) return false;
                    v = ((d % y.q) + y.q) % y.q;
                } else if (y.ev) {
                    u128 r;
                    if (!evalTrace(*y.ev, a, r)) return false;
                    v = i128(r);
                } else if (gAllz.count(s)) {
                    v = 1;
                    for (auto& z : gAllz[s]) {
                        u128 t;
                        if (!evalVal(z, a, t)) return false;
                        if (t) v = 0;
                    }
                } else
                    return false;
                a[s] = v;
            }
            m = cmul(m, v);
        }
        acc = cadd(acc, m);
    }
    out = acc;
    return true;
}
bool evalVal(const Val& v, Asg& a, u128& out)
{
    switch (v.k) {
    case INT:
    case FP:
        out = v.c;
        return true;
    case ABS: {
        // cases may overlap where a join lost information: the value is
        // known only when they agree
        bool have = false;
        for (auto& p : v.abs().ps) {
            bool opq = false;
            if (!holds(p.cs, a, opq)) {
                if (opq) return false;
                continue;
            }
            i128 r;
            if (!evalPoly(p.p, a, r)) return false;
            u128 x = u128(r) & maskW(v.w);
            if (have && x != out) return false;
            out = x;
            have = true;
        }
        return have;
    }
    case SEG: {
        u128 r = 0;
        unsigned sh = 0;
        for (auto& e : segOf(v).s) {
            u128 t;
            if (!evalVal(e.v, a, t)) return false;
            r |= ((t >> e.off) & maskW(e.w)) << sh;
            sh += e.w;
        }
        out = r;
        return true;
    }
    default:
        return false;
    }
}
bool holds(const Case& c, Asg& a, bool& opq)
{
    for (auto& k : c) {
        i128 r;
        try {
            if (!evalPoly(k.p, a, r)) {
                opq = true;
                return false;
            }
        } catch (Overflow&) {
            opq = true;
            return false;
        }
        if (r < k.lo || r > k.hi) return false;
    }
    return true;
}
bool holdsFacts(const Facts& f, Asg& a, bool& opq)
{
    if (!holds(f.cons, a, opq)) return false;
    for (auto& e : f.excluded) {
        bool o = false;
        if (holds(e, a, o)) return false;
        if (o) {
            opq = true;
            return false;
        }
    }
    return true;
}

bool findWitness(const std::vector<int>& want, const Facts& f,
                 const std::function<bool(Asg&)>& pred, Asg& out, int tries)
{
    if (f.approx) return false;
    std::set<int> all(want.begin(), want.end());
    symsOf(f, all);
    std::set<int> closure;
    for (int s : all) {
        Poly p = psym(s);
        symsOf(p, closure);
    }
    std::vector<int> base;
    for (int s : closure) {
        const Sym& y = gSyms[s];
        if (y.def || y.form || y.linear || gAllz.count(s)) continue;
        if (y.opaque) continue; // left unassigned: evaluation fails on it
        base.push_back(s);
    }
    Env env;
    std::vector<Cons> rel;
    Case none;
    try {
        Poly sum;
        for (int s : base) sum = padd(sum, psym(s));
        for (auto& c : f.cons) rel.push_back(c);
        if (!propagate(rel, env)) return false;
    } catch (Overflow&) {
    }
    // linear congruences: solve for the pivots
    std::vector<Poly> rows;
    i128 rq = 0;
    try {
        for (auto& c : f.cons)
            if (!rq) rq = modulusOf(c.p);
        if (rq && !modRows({}, f, rq, rows)) return false;
    } catch (Overflow&) {
        rows.clear();
    }
    uint64_t rng = 0x9E3779B97F4A7C15ull;
    auto rnd = [&]() {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        return rng;
    };
    for (int t = 0; t < tries; t++) {
        Asg a;
        int mode = t % 6;
        for (int s : base) {
            Range r = symRange(s, env);
            i128 span = r.hi - r.lo;
            i128 v;
            int m = mode == 5 ? int(rnd() % 5) : mode;
            switch (m) {
            case 0: v = r.hi; break;
            case 1: v = r.lo; break;
            case 2: v = r.lo + i128(u128(rnd()) % (u128(span) + 1)); break;
            case 3: v = span ? r.hi - i128(rnd() % 2) : r.hi; break;
            default:
                v = span ? r.lo + i128(rnd() % std::min<uint64_t>(
                                          3, uint64_t(std::min<i128>(
                                                 span, 1000)) +
                                                 1))
                         : r.lo;
            }
            a[s] = v;
        }
        for (auto& r : rows) {
            const auto& ms = gMonos[r.t[0].first];
            if (ms.size() != 1 || !a.count(ms[0])) continue;
            Poly rest = r;
            rest.t.erase(rest.t.begin());
            Asg b = a;
            i128 v;
            try {
                if (!evalPoly(rest, b, v)) continue;
            } catch (Overflow&) {
                continue;
            }
            v = ((-v) % rq + rq) % rq;
            a[ms[0]] = v;
        }
        // repair violated constraints through a unit-coefficient symbol
        for (int rep = 0; rep < 3; rep++) {
            bool ok = true;
            for (auto& c : f.cons) {
                Asg b = a;
                i128 r;
                try {
                    if (!evalPoly(c.p, b, r)) continue;
                } catch (Overflow&) {
                    continue;
                }
                if (r >= c.lo && r <= c.hi) continue;
                ok = false;
                for (auto& x : c.p.t) {
                    const auto& ms = gMonos[x.first];
                    if (ms.size() != 1 || !a.count(ms[0])) continue;
                    if (x.second != 1 && x.second != -1) continue;
                    i128 need = r < c.lo ? c.lo - r : c.hi - r;
                    i128 nv = a[ms[0]] + need * x.second;
                    Range g = symRange(ms[0], env);
                    nv = std::max(g.lo, std::min(g.hi, nv));
                    a[ms[0]] = nv;
                    break;
                }
            }
            if (ok) break;
        }
        Asg b = a;
        bool opq = false;
        try {
            if (!holdsFacts(f, b, opq)) continue;
            if (!pred(b)) continue;
        } catch (Overflow&) {
            continue;
        }
        out = a;
        return true;
    }
    return false;
}

} // namespace qai
