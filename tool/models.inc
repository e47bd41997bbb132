// Models of intrinsics, of external functions and of the harness interface.
// Included in interp.cpp, inside namespace qai.

static Val opaqueOf(Type* t, const std::string& why)
{
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        std::vector<Val> e;
        for (unsigned i = 0; i < vt->getNumElements(); i++)
            e.push_back(vopaque(bitsOf(vt->getElementType()), why));
        return vvec(std::move(e));
    }
    if (auto* s = dyn_cast<StructType>(t)) {
        std::vector<Val> e;
        for (auto* x : s->elements()) e.push_back(opaqueOf(x, why));
        return vvec(std::move(e));
    }
    if (t->isVoidTy()) return vundef(0);
    return vopaque(bitsOf(t), why);
}

struct MC {
    const Function* F;
    const CallBase* cb;
    std::vector<Val>& a;
    State& st;
    std::vector<Outcome>& os;
    void ret(const Val& v)
    {
        Outcome o;
        o.ret = v;
        o.st = std::move(st);
        os.push_back(std::move(o));
    }
    void none() { ret(vundef(0)); }
    void thrown(const std::string& e)
    {
        Outcome o;
        o.threw = true;
        o.exc = e;
        o.st = std::move(st);
        os.push_back(std::move(o));
    }
    uint64_t n(size_t i, const char* what = "an argument")
    {
        return uint64_t(need(a[i], st, what).c);
    }
    std::string str(size_t i)
    {
        uint64_t p = n(i);
        std::string s;
        for (int k = 0; k < 200; k++) {
            Val c = loadBytes(st, vint(p + uint64_t(k), 64), 1);
            if (c.k != INT || c.c == 0) break;
            s += char(c.c);
        }
        return s;
    }
};

static void copyBytes(State& st, uint64_t d, uint64_t s, uint64_t n)
{
    if (n == 0) return;
    uint32_t di, si;
    int64_t dof, sof;
    checkAccess(st, s, n, false, si, sof);
    checkAccess(st, d, n, true, di, dof);
    std::vector<Cell> tmp(regionAt(st.mem, si)->c.begin() + sof,
                          regionAt(st.mem, si)->c.begin() + sof + int64_t(n));
    Region& r = rawRegion(st.mem, di);
    std::copy(tmp.begin(), tmp.end(), r.c.begin() + dof);
}

static void doFree(State& st, uint64_t p, int how)
{
    if (p == 0) return;
    uint32_t id;
    int64_t off;
    splitAddr(p, id, off);
    const Region* r = regionAt(st.mem, id);
    if (!r || r->kind != R_HEAP || off != 0) {
        event(st, "memory-safety", "release of a pointer that was not allocated");
        throw PathEnd();
    }
    if (r->freed) {
        event(st, "memory-safety", "double free of " + describe(*r, id));
        throw PathEnd();
    }
    if (how && r->how && r->how != how)
        event(st, "memory-safety",
              "allocation and release functions do not match for " +
                  describe(*r, id));
    for (auto& f : r->forb)
        if (f.wr) {
            event(st, f.msg, "release of a protected buffer");
            throw PathEnd();
        }
    Region& w = rawRegion(st.mem, id);
    w.freed = true;
    w.c.clear();
    w.c.shrink_to_fit();
}

// ---------------------------------------------------------------- checks
static void failCheck(State& st, const std::string& label,
                      const std::set<int>& syms, const std::string& msg,
                      const std::function<bool(Asg&)>& wrong,
                      const std::vector<Case>& hints = {})
{
    Asg w;
    std::vector<int> s(syms.begin(), syms.end());
    static std::map<std::string, int> failed;
    int& k = failed[label];
    bool found = false;
    // the cases which could not be proved come first
    for (size_t i = 0; !found && i < hints.size() && i < 12 && k < 40; i++) {
        Facts f = st.facts;
        for (auto& c : hints[i]) f.cons.push_back(c);
        found = findWitness(s, f, wrong, w, 150);
    }
    if (!found)
        found = findWitness(s, st.facts, wrong, w, k < 10 ? 6000 : 200);
    k++;
    if (found)
        obligation(label, 1, msg + " [for " + asgStr(w) + "]");
    else
        obligation(label, 2, msg + " (not proved, no counter-example)");
}

static bool zeroDiff(const Poly& d, const Case& cs, const Facts& f, i128 q)
{
    if (d.isConst() && (q ? d.c % q == 0 : d.c == 0)) return true;
    Case all = cs;
    for (auto& k : f.cons)
        if (k.lo == k.hi) all.push_back(k);
    // single symbols pinned by propagation
    std::set<int> ss;
    for (auto& x : d.t)
        for (int s : gMonos[x.first]) ss.insert(s);
    for (int s : ss) {
        Range r = rangeOf(psym(s), cs, f);
        if (r.lo == r.hi) {
            Cons k;
            k.p = psym(s);
            k.lo = k.hi = r.lo;
            all.push_back(k);
        }
    }
    if (q) {
        Poly r = residue(d, q);
        if (r.isConst() && r.c == 0) return true;
        r = residue(substEq(d, all, q), q);
        if (r.isConst() && r.c == 0) return true;
        r = substEq(r, all, q);
        r = residue(r, q);
        if (r.isConst() && r.c == 0) return true;
        return modZero(d, cs, f, q);
    }
    Poly e = substEq(d, all, 1);
    if (e.isConst() && e.c == 0) return true;
    // the only multiple of the modulus in range is 0
    i128 m = modulusOf(d);
    if (!m) m = gNormQ;
    for (size_t i = 0; !m && i < cs.size(); i++) m = modulusOf(cs[i].p);
    std::vector<Poly> rows;
    if (m && !modRows(cs, f, m, rows)) return true;
    if (e.isConst()) return false;
    Range r = rangeOf(d, cs, f);
    if (r.empty() || (r.lo == 0 && r.hi == 0)) return true;
    if (!m) return false;
    return r.lo > -m && r.hi < m && modZero(d, cs, f, m);
}

static bool provedEq(const Val& a, const Val& b, const Facts& f,
                     std::vector<Case>* open = nullptr)
{
    if (valEq(a, b)) return true;
    if (a.k == UNDEF || b.k == UNDEF) return false;
    try {
        Abs A, B;
        if (toAbs(a, f, A) && toAbs(b, f, B)) {
            for (auto& x : A.ps)
                for (auto& y : B.ps) {
                    Case c;
                    if (!conj(x.cs, y.cs, f, c)) continue;
                    if (!feasible(c, f)) continue;
                    if (gGf2 && gf2Same(x.p, y.p, c, f)) continue;
                    if (!zeroDiff(psub(x.p, y.p), c, f, 0)) {
                        if (!open) return false;
                        open->push_back(c);
                        if (open->size() >= 12) return false;
                    }
                }
            return !open || open->empty();
        }
    } catch (Overflow&) {
    }
    if (a.w > 8 && a.w % 8 == 0) {
        for (unsigned i = 0; i < a.w; i += 8)
            if (!provedEq(vslice(a, i, 8, f), vslice(b, i, 8, f), f, open))
                return false;
        return true;
    }
    return false;
}

static void checkEq(State& st, const Val& a, const Val& b,
                    const std::string& label, const std::string& what)
{
    if (a.k == UNDEF || b.k == UNDEF) {
        std::string w;
        bool d = pathWitness(st, w);
        obligation(label, d ? 1 : 2, what + ": uninitialised value [for " + w + "]");
        return;
    }
    if (provedEq(a, b, st.facts)) {
        obligation(label, 0, "");
        return;
    }
    std::vector<Case> open;
    provedEq(a, b, st.facts, &open);
    std::set<int> s;
    symsOf(a, s);
    symsOf(b, s);
    failCheck(st, label, s,
              what + ": got " + vstr(a).substr(0, 300) + ", expected " +
                  vstr(b).substr(0, 300),
              [&](Asg& x) {
                  u128 p, q;
                  if (a.k == SEG || b.k == SEG) {
                      // undefined parts make the comparison fail outright
                      for (const Val* v : {&a, &b})
                          if (v->k == SEG)
                              for (auto& e : segOf(*v).s)
                                  if (e.v.k == UNDEF) return true;
                  }
                  return evalVal(a, x, p) && evalVal(b, x, q) && p != q;
              },
              open);
}

static void checkLin(MC& m, const Val& got, i128 q, const std::vector<Val>& xs,
                     const std::function<Poly(const std::vector<Poly>&)>& fn,
                     const std::string& label)
{
    State& st = m.st;
    const Facts& f = st.facts;
    std::set<int> syms;
    symsOf(got, syms);
    bool undef = got.k == UNDEF;
    for (auto& x : xs) {
        symsOf(x, syms);
        undef |= x.k == UNDEF;
    }
    if (undef) {
        std::string w;
        bool d = pathWitness(st, w);
        obligation(label, d ? 1 : 2, "uninitialised value [for " + w + "]");
        return;
    }
    bool ok = true;
    std::string why;
    std::vector<Case> open;
    try {
        struct T {
            Case c;
            std::vector<Poly> p;
        };
        std::vector<T> ts{{{}, {}}};
        std::vector<const Val*> all;
        for (auto& x : xs) all.push_back(&x);
        all.push_back(&got);
        for (auto* v : all) {
            Abs a;
            if (!toAbs(*v, f, a)) {
                ok = false;
                why = "value outside of the domain: " + vstr(*v).substr(0, 300);
                break;
            }
            std::vector<T> nt;
            for (auto& t : ts)
                for (auto& p : a.ps) {
                    Case c;
                    if (!conj(t.c, p.cs, f, c)) continue;
                    T n{c, t.p};
                    n.p.push_back(p.p);
                    nt.push_back(n);
                }
            ts = nt;
            if (ts.size() > 4000) {
                ok = false;
                why = "too many cases";
                break;
            }
        }
        if (ok)
            for (auto& t : ts) {
                if (!feasible(t.c, f)) continue;
                std::vector<Poly> in(t.p.begin(), t.p.end() - 1);
                const Poly& g = t.p.back();
                Range r = rangeOf(g, t.c, f);
                if (r.empty()) continue;
                if (r.lo < 0 || r.hi >= q) {
                    ok = false;
                    open.push_back(t.c);
                    why = "not proved to be in [0," + str128(q - 1) + "]: " +
                          pstr(g).substr(0, 300) + " when " + cstr(t.c);
                    break;
                }
                if (!zeroDiff(psub(g, fn(in)), t.c, f, q)) {
                    ok = false;
                    open.push_back(t.c);
                    why = "not proved congruent to the exact result: " +
                          pstr(g).substr(0, 300) + " when " + cstr(t.c);
                    break;
                }
            }
    } catch (Overflow&) {
        ok = false;
        why = "overflow";
    }
    if (ok) {
        obligation(label, 0, "");
        return;
    }
    failCheck(st, label, syms, why, [&](Asg& a) {
        u128 g;
        if (!evalVal(got, a, g)) return false;
        std::vector<Poly> in;
        for (auto& x : xs) {
            u128 v;
            if (!evalVal(x, a, v)) return false;
            in.push_back(pconst(i128(v)));
        }
        i128 e = fn(in).c % q;
        if (e < 0) e += q;
        return i128(g) != e;
    }, open);
}

typedef std::function<void(MC&)> Handler;
static std::map<std::string, Handler> gModels;
static std::map<const Function*, const Handler*> gModelCache;
static std::vector<std::vector<Cell>> gSnaps;

static bool isStreamObj(State& st, uint64_t p)
{
    uint32_t id;
    int64_t off;
    splitAddr(p, id, off);
    const Region* r = regionAt(st.mem, id);
    return r && r->name.rfind("qa-stream", 0) == 0;
}
static uint64_t fld(State& st, uint64_t p, unsigned o)
{
    return uint64_t(need(loadBytes(st, vint(p + o, 64), 8), st, "a stream field").c);
}
static void setf(State& st, uint64_t p, unsigned o, uint64_t v)
{
    storeBytes(st, vint(p + o, 64), 8, vint(v, 64));
}

static Val mapv(const Val& a, const Val& b, Type* ty,
                const std::function<Val(const Val&, const Val&)>& fn)
{
    if (!ty->isVectorTy()) return fn(a, b);
    if (a.k != VEC || b.k != VEC) return undefOf(ty);
    std::vector<Val> e;
    for (size_t i = 0; i < vecOf(a).size(); i++)
        e.push_back(fn(vecOf(a)[i], vecOf(b)[i]));
    return vvec(std::move(e));
}

// flatten to lanes of the given width
static bool intrinsic(MC& m, Intrinsic::ID id)
{
    Type* ty = m.cb->getType();
    const Facts& f = m.st.facts;
    switch (id) {
    case Intrinsic::memcpy:
    case Intrinsic::memmove:
        copyBytes(m.st, m.n(0, "an address"), m.n(1, "an address"),
                  m.n(2, "a copy length"));
        m.none();
        return true;
    case Intrinsic::memset: {
        uint64_t d = m.n(0, "an address"), n = m.n(2, "a fill length");
        if (n) {
            uint32_t di;
            int64_t off;
            checkAccess(m.st, d, n, true, di, off);
            Region& r = rawRegion(m.st.mem, di);
            for (uint64_t i = 0; i < n; i++)
                storeRaw(r, uint64_t(off) + i, 1, m.a[1]);
        }
        m.none();
        return true;
    }
    case Intrinsic::umin:
    case Intrinsic::umax:
    case Intrinsic::smin:
    case Intrinsic::smax: {
        Pred p = id == Intrinsic::umin   ? ULT
                 : id == Intrinsic::umax ? UGT
                 : id == Intrinsic::smin ? SLT
                                         : SGT;
        m.ret(mapv(m.a[0], m.a[1], ty, [&](const Val& x, const Val& y) {
            return vselect(icmp(p, x, y, f), x, y, f);
        }));
        return true;
    }
    case Intrinsic::abs: {
        m.ret(mapv(m.a[0], m.a[0], ty, [&](const Val& x, const Val&) {
            return vselect(icmp(SLT, x, vint(0, x.w), f),
                           binop(SUB, vint(0, x.w), x, x.w, f), x, f);
        }));
        return true;
    }
    case Intrinsic::usub_sat:
        m.ret(mapv(m.a[0], m.a[1], ty, [&](const Val& x, const Val& y) {
            return vselect(icmp(ULT, x, y, f), vint(0, x.w),
                           binop(SUB, x, y, x.w, f), f);
        }));
        return true;
    case Intrinsic::uadd_sat:
        m.ret(mapv(m.a[0], m.a[1], ty, [&](const Val& x, const Val& y) {
            Val s = binop(ADD, vzext(x, x.w + 1u, f), vzext(y, x.w + 1u, f),
                          x.w + 1u, f);
            return vselect(icmp(UGT, s, vint(maskW(x.w), x.w + 1u), f),
                           vint(maskW(x.w), x.w), vtrunc(s, x.w, f), f);
        }));
        return true;
    case Intrinsic::bswap:
        m.ret(vbswap(m.a[0], f));
        return true;
    case Intrinsic::ctlz:
    case Intrinsic::cttz:
    case Intrinsic::ctpop: {
        Val x = need(m.a[0], m.st, "a bit count");
        unsigned n = 0;
        if (id == Intrinsic::ctpop)
            for (unsigned i = 0; i < x.w; i++) n += unsigned((x.c >> i) & 1);
        else if (id == Intrinsic::cttz)
            while (n < x.w && !((x.c >> n) & 1)) n++;
        else
            while (n < x.w && !((x.c >> (x.w - 1 - n)) & 1)) n++;
        m.ret(vint(n, x.w));
        return true;
    }
    case Intrinsic::umul_with_overflow:
    case Intrinsic::uadd_with_overflow: {
        const Val &x = m.a[0], &y = m.a[1];
        Op o = id == Intrinsic::umul_with_overflow ? MUL : ADD;
        if (x.w > 64) throw Unsupported{"wide overflow intrinsic"};
        Val r = binop(o, vzext(x, 128, f), vzext(y, 128, f), 128, f);
        std::vector<Val> e{vtrunc(r, x.w, f),
                           icmp(UGT, r, vint(maskW(x.w), 128), f)};
        m.ret(vvec(std::move(e)));
        return true;
    }
    case Intrinsic::usub_with_overflow: {
        const Val &x = m.a[0], &y = m.a[1];
        std::vector<Val> e{binop(SUB, x, y, x.w, f), icmp(ULT, x, y, f)};
        m.ret(vvec(std::move(e)));
        return true;
    }
    case Intrinsic::is_constant:
        m.ret(vint(0, 1));
        return true;
    case Intrinsic::threadlocal_address:
    case Intrinsic::expect:
        m.ret(m.a[0]);
        return true;
    case Intrinsic::objectsize:
        m.ret(vint(~u128(0), 64));
        return true;
    case Intrinsic::stacksave:
    case Intrinsic::invariant_start:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
        m.ret(m.a.empty() ? vint(addrOf(1), 64) : m.a.back());
        return true;
    case Intrinsic::stackrestore:
    case Intrinsic::invariant_end:
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
        m.none();
        return true;
    case Intrinsic::eh_typeid_for:
        m.ret(vopaqueR(0, 1000, 32, "eh selector"));
        return true;
    case Intrinsic::trap:
        event(m.st, "termination", "trap reached");
        throw PathEnd();
    case Intrinsic::sqrt:
        if (m.a[0].k != FP) throw Unsupported{"sqrt"};
        m.ret(vfp(std::sqrt(fpOf(m.a[0]))));
        return true;
    case Intrinsic::ceil:
        if (m.a[0].k != FP) throw Unsupported{"ceil"};
        m.ret(vfp(std::ceil(fpOf(m.a[0]))));
        return true;
    case Intrinsic::floor:
        if (m.a[0].k != FP) throw Unsupported{"floor"};
        m.ret(vfp(std::floor(fpOf(m.a[0]))));
        return true;
    default:
        return false;
    }
}

static bool x86(MC& m, const std::string& n)
{
    const Facts& f = m.st.facts;
    Type* ty = m.cb->getType();
    auto has = [&](const char* s) { return n.find(s) != std::string::npos; };
    if (has("pblendvb")) {
        std::vector<Val> a = vecOf(m.a[0]), b = vecOf(m.a[1]),
                         k = vecOf(m.a[2]);
        // group equal-valued masks so that whole lanes stay whole
        std::vector<Val> e;
        for (size_t i = 0; i < a.size(); i++) {
            Val s = vslice(k[i], 7, 1, f);
            e.push_back(vselect(s, b[i], a[i], f));
        }
        m.ret(vvec(std::move(e)));
        return true;
    }
    if (has("ptestz") || has("ptestc") || has("ptestnzc")) {
        const Val &a = m.a[0], &b = m.a[1];
        std::vector<Val> v;
        auto &x = vecOf(a), &y = vecOf(b);
        for (size_t i = 0; i < x.size(); i++) {
            Val p = x[i];
            if (has("ptestc"))
                p = binop(XOR, p, vint(maskW(p.w), p.w), p.w, f);
            Val z = binop(AND, p, y[i], p.w, f);
            // lane by lane
            if (z.k == SEG)
                for (auto& s : segOf(z).s)
                    v.push_back(vslice(s.v, s.off, s.w, f));
            else
                v.push_back(z);
        }
        if (has("ptestnzc")) throw Unsupported{n};
        m.ret(vallzero(v, 32, f));
        return true;
    }
    if (has("pmovmskb")) {
        std::vector<Val> bits;
        for (auto& x : vecOf(m.a[0])) bits.push_back(vslice(x, 7, 1, f));
        while (bits.size() < 32) bits.push_back(vint(0, 1));
        m.ret(vconcat(bits, f));
        return true;
    }
    if (has("psrl") || has("psll")) {
        bool left = has("psll");
        Val k = m.a[1];
        if (k.k == VEC) k = vslice(k, 0, 64, f);
        k = need(k, m.st, "a shift count");
        std::vector<Val> e;
        for (auto& x : vecOf(m.a[0])) {
            if (k.c >= x.w)
                e.push_back(vint(0, x.w));
            else
                e.push_back(
                    binop(left ? SHL : LSHR, x, vint(k.c, x.w), x.w, f));
        }
        m.ret(vvec(std::move(e)));
        return true;
    }
    if (has("pshuf.b")) {
        auto &a = vecOf(m.a[0]), &k = vecOf(m.a[1]);
        std::vector<Val> e;
        for (size_t i = 0; i < a.size(); i++) {
            Val x = need(k[i], m.st, "a shuffle index");
            size_t base = i / 16 * 16;
            e.push_back((x.c & 0x80) ? vint(0, 8)
                                     : a[base + size_t(x.c & 15)]);
        }
        m.ret(vvec(std::move(e)));
        return true;
    }
    (void)ty;
    return false;
}

static u128 nextPrime(uint64_t n)
{
    for (;; n++) {
        bool p = n >= 2;
        for (uint64_t d = 2; d * d <= n && p; d++) p = n % d != 0;
        if (p) return n;
    }
}

static void initModels()
{
    auto& M = gModels;
    auto alloc = [](int how) {
        return [how](MC& m) {
            Val sz = m.a[0];
            Range r;
            if (sz.k != INT) {
                Val q = refine(sz, m.st.facts);
                if (q.k != INT && vrange(q, m.st.facts, r) &&
                    r.hi - r.lo > 40) {
                    throw Unsupported{"allocation of unbounded size"};
                }
            }
            uint64_t n = m.n(0, "an allocation size");
            if (n > (uint64_t(1) << 40)) {
                if (how == 3)
                    m.ret(vint(0, 64));
                else
                    m.thrown("std::bad_alloc");
                return;
            }
            {
                uint64_t left = fld(m.st, gFault, 0);
                if (left > 0) {
                    setf(m.st, gFault, 0, left - 1);
                    if (left == 1) {
                        if (how == 3 || m.F->getName().contains("nothrow"))
                            m.ret(vint(0, 64));
                        else
                            m.thrown("std::bad_alloc");
                        return;
                    }
                }
            }
            uint32_t id = allocHeap(m.st, n, how, "");
            m.ret(vint(addrOf(id), 64));
        };
    };
    M["_Znwm"] = alloc(1);
    M["_Znam"] = alloc(2);
    M["malloc"] = alloc(3);
    M["_ZnwmRKSt9nothrow_t"] = alloc(1);
    auto fre = [](int how) {
        return [how](MC& m) {
            doFree(m.st, m.n(0, "an address"), how);
            m.none();
        };
    };
    M["_ZdlPv"] = fre(1);
    M["_ZdlPvm"] = fre(1);
    M["_ZdaPv"] = fre(2);
    M["_ZdaPvm"] = fre(2);
    M["free"] = fre(3);
    M["memcpy"] = M["memmove"] = [](MC& m) {
        Val d = m.a[0];
        copyBytes(m.st, m.n(0), m.n(1), m.n(2, "a copy length"));
        m.ret(d);
    };
    M["realloc"] = [](MC& m) {
        uint64_t p = m.n(0), n = m.n(1, "an allocation size"), old = 0;
        if (p) {
            uint32_t id;
            int64_t off;
            splitAddr(p, id, off);
            const Region* r = regionAt(m.st.mem, id);
            if (!r || off) throw Unsupported{"realloc"};
            old = r->size;
        }
        uint32_t id = allocHeap(m.st, n, 3, "");
        if (p) {
            copyBytes(m.st, addrOf(id), p, std::min(n, old));
            doFree(m.st, p, 3);
        }
        m.ret(vint(addrOf(id), 64));
    };
    M["strlen"] = [](MC& m) {
        std::string s = m.str(0);
        m.ret(vint(s.size(), 64));
    };
    M["memcmp"] = [](MC& m) {
        uint64_t n = m.n(2), a = m.n(0), b = m.n(1);
        Val eq = vint(1, 1);
        bool known = true;
        for (uint64_t i = 0; i < n; i++) {
            Val x = loadBytes(m.st, vint(a + i, 64), 1),
                y = loadBytes(m.st, vint(b + i, 64), 1);
            known = known && x.k == INT && y.k == INT;
            if (known && x.c != y.c)
                return m.ret(vint(uint8_t(x.c) < uint8_t(y.c) ? -1 : 1, 32));
            eq = binop(AND, eq, icmp(EQ, x, y, m.st.facts), 1, m.st.facts);
        }
        m.ret(vselect(eq, vint(0, 32), vint(1, 32), m.st.facts));
    };
    // exceptions
    M["__cxa_allocate_exception"] = [](MC& m) {
        uint32_t id = allocHeap(m.st, std::max<uint64_t>(m.n(0), 64), 0,
                                "exception object");
        m.ret(vint(addrOf(id), 64));
    };
    M["__cxa_free_exception"] = [](MC& m) { m.none(); };
    M["__cxa_throw"] = [](MC& m) {
        std::string n = "exception";
        if (m.a[1].k == INT) {
            uint32_t id;
            int64_t off;
            splitAddr(uint64_t(m.a[1].c), id, off);
            if (const Region* r = regionAt(m.st.mem, id)) n = r->name;
        }
        m.thrown(n);
    };
    M["__cxa_rethrow"] = [](MC& m) { m.thrown("rethrown"); };
    M["__cxa_begin_catch"] = [](MC& m) { m.ret(vint(addrOf(1), 64)); };
    M["__cxa_get_exception_ptr"] = M["__cxa_begin_catch"];
    M["__cxa_end_catch"] = [](MC& m) { m.none(); };
    for (const char* t :
         {"_ZSt17__throw_bad_allocv", "_ZSt16__throw_bad_castv",
          "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_length_errorPKc",
          "_ZSt20__throw_out_of_rangePKc",
          "_ZSt24__throw_out_of_range_fmtPKcz",
          "_ZSt24__throw_invalid_argumentPKc",
          "_ZSt25__throw_bad_function_callv",
          "_ZSt28__throw_bad_array_new_lengthv"})
        M[t] = [t](MC& m) { m.thrown(demangle(t)); };
    for (const char* t : {"abort", "exit", "_exit", "quick_exit", "_Exit",
                          "_ZSt9terminatev", "__cxa_pure_virtual",
                          "__clang_call_terminate", "__assert_fail",
                          "__cxa_call_unexpected", "raise", "kill"})
        M[t] = [t](MC& m) {
            event(m.st, "termination",
                  std::string("the process is terminated (") + t + ")");
            throw PathEnd();
        };
    M["__cxa_guard_acquire"] = [](MC& m) {
        Val g = loadBytes(m.st, m.a[0], 1);
        m.ret(vint(g.k == INT && g.c == 0 ? 1 : 0, 32));
    };
    M["__cxa_guard_release"] = [](MC& m) {
        storeBytes(m.st, m.a[0], 1, vint(1, 8));
        m.none();
    };
    M["__cxa_guard_abort"] = [](MC& m) { m.none(); };
    M["__cxa_atexit"] = [](MC& m) { m.ret(vint(0, 32)); };
    M["_ZNSt8ios_base4InitC1Ev"] = [](MC& m) { m.none(); };
    M["_ZNSt8ios_base4InitD1Ev"] = [](MC& m) { m.none(); };
    // strings only occur in messages
    auto noop = [](MC& m) {
        Type* t = m.cb->getType();
        if (t->isVoidTy())
            m.none();
        else if (t->isPointerTy() && !m.a.empty())
            m.ret(m.a[0]);
        else
            m.ret(opaqueOf(t, "external"));
    };
    for (const char* t :
         {"_ZNSaIcEC1Ev", "_ZNSaIcED1Ev", "_ZNSaIcEC2Ev", "_ZNSaIcED2Ev",
          "_ZNSaIcEC1ERKS_", "_ZNSt13runtime_errorC1EPKc",
          "_ZNSt13runtime_errorC2EPKc",
          "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_"
          "traitsIcESaIcEEE",
          "_ZNSt13runtime_errorD2Ev", "_ZNSt13runtime_errorD1Ev",
          "_ZNSt9exceptionD2Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt9bad_allocD2Ev"})
        M[t] = noop;
    M["gettimeofday"] = [](MC& m) {
        uint64_t p = m.n(0);
        storeBytes(m.st, vint(p, 64), 8, vopaqueR(0, i128(1) << 33, 64, "clock"));
        storeBytes(m.st, vint(p + 8, 64), 8, vopaqueR(0, 999999, 64, "clock"));
        m.ret(vint(0, 32));
    };
    M["__dynamic_cast"] = [](MC& m) { // object, its static type, target, hint
        uint64_t obj = m.n(0), dst = m.n(2);
        if (!obj) return m.ret(vint(0, 64));
        auto word = [&](uint64_t p, const char* w) {
            return uint64_t(
                need(loadBytes(m.st, vint(p, 64), 8), m.st, w).c);
        };
        uint64_t vp = word(obj, "a virtual table pointer");
        int64_t top = int64_t(word(vp - 16, "an offset to the top"));
        uint64_t ti = word(vp - 8, "a type descriptor");
        for (int depth = 0; depth < 20; depth++) {
            if (ti == dst) return m.ret(vint(obj + uint64_t(top), 64));
            uint32_t id;
            int64_t off;
            splitAddr(ti, id, off);
            const Region* r = regionAt(m.st.mem, id);
            if (!r || r->size == 16) return m.ret(vint(0, 64));
            if (r->size != 24) break; // several bases
            ti = word(ti + 16, "a base class descriptor");
        }
        throw Unsupported{"dynamic_cast across several bases"};
    };
    M["clock"] = [](MC& m) { m.ret(vopaqueR(0, i128(1) << 40, 64, "clock")); };
    M["time"] = M["clock"];
    M["_ZNSt6chrono3_V212steady_clock3nowEv"] = M["clock"];
    M["_ZNSt6chrono3_V212system_clock3nowEv"] = M["clock"];
    M["rand"] = [](MC& m) { m.ret(vopaqueR(0, 0x7fffffff, 32, "rand")); };
    M["srand"] = [](MC& m) { m.none(); };
    M["clock_gettime"] = [](MC& m) {
        uint64_t p = m.n(1);
        storeBytes(m.st, vint(p, 64), 8, vopaqueR(0, i128(1) << 33, 64, "clock"));
        storeBytes(m.st, vint(p + 8, 64), 8, vopaqueR(0, 999999999, 64, "clock"));
        m.ret(vint(0, 32));
    };
    M["_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"] = [](MC& m) {
        uint64_t p = nextPrime(m.n(1) < 2 ? 2 : m.n(1)) & ~uint64_t(0);
        uint64_t self = m.n(0);
        storeBytes(m.st, vint(self + 8, 64), 8, vint(p, 64));
        m.ret(vint(p, 64));
    };
    M["_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"] =
        [](MC& m) {
            uint64_t self = m.n(0), bkt = m.n(1), elt = m.n(2), ins = m.n(3);
            std::vector<Val> e;
            if (elt + ins > bkt) {
                uint64_t p = uint64_t(
                    nextPrime(std::max(elt + ins, bkt * 2) + 1));
                storeBytes(m.st, vint(self + 8, 64), 8, vint(p, 64));
                e = {vint(1, 8), vint(p, 64)};
            } else
                e = {vint(0, 8), vint(0, 64)};
            Type* t = m.cb->getType();
            if (auto* s = dyn_cast<StructType>(t)) {
                e[0] = vint(e[0].c, bitsOf(s->getElementType(0)));
                m.ret(vvec(std::move(e)));
            } else
                throw Unsupported{"rehash policy"};
        };
    for (const char* t : {"sqrt", "ceil", "floor", "log2", "log"}) {
        std::string s = t;
        M[s] = [s](MC& m) {
            if (m.a[0].k != FP) throw Unsupported{s};
            double x = fpOf(m.a[0]);
            m.ret(vfp(s == "sqrt"    ? std::sqrt(x)
                      : s == "ceil"  ? std::ceil(x)
                      : s == "floor" ? std::floor(x)
                      : s == "log2"  ? std::log2(x)
                                     : std::log(x)));
        };
    }
    M["pow"] = [](MC& m) {
        if (m.a[0].k != FP || m.a[1].k != FP) throw Unsupported{"pow"};
        m.ret(vfp(std::pow(fpOf(m.a[0]), fpOf(m.a[1]))));
    };
    // ------------------------------------------------------- streams
    // layout: 0 vptr, 8 data, 16 length, 24 position, 32 gcount, 40 state,
    //         48 calls
    M["_ZNSi4readEPcl"] = [](MC& m) {
        uint64_t s = m.n(0);
        if (!isStreamObj(m.st, s)) throw Unsupported{"istream::read"};
        uint64_t d = m.n(1);
        int64_t n = int64_t(m.n(2, "a read length"));
        uint64_t data = fld(m.st, s, 8), len = fld(m.st, s, 16),
                 pos = fld(m.st, s, 24), state = fld(m.st, s, 40);
        setf(m.st, s, 48, fld(m.st, s, 48) + 1);
        uint64_t k = 0;
        if (state == 0) {
            k = std::min<uint64_t>(n < 0 ? 0 : uint64_t(n), len - pos);
            copyBytes(m.st, d, data + pos, k);
            setf(m.st, s, 24, pos + k);
            if (k < uint64_t(n)) setf(m.st, s, 40, 6);
        } else
            setf(m.st, s, 40, state | 4);
        setf(m.st, s, 32, k);
        m.ret(vint(s, 64));
    };
    M["_ZNSo5writeEPKcl"] = [](MC& m) {
        uint64_t s = m.n(0);
        if (!isStreamObj(m.st, s)) throw Unsupported{"ostream::write"};
        uint64_t src = m.n(1);
        int64_t n = int64_t(m.n(2, "a write length"));
        uint64_t data = fld(m.st, s, 8), pos = fld(m.st, s, 24);
        setf(m.st, s, 48, fld(m.st, s, 48) + 1);
        if (n > 0) {
            copyBytes(m.st, data + pos, src, uint64_t(n));
            setf(m.st, s, 24, pos + uint64_t(n));
        }
        m.ret(vint(s, 64));
    };
    M["_ZNSo5flushEv"] = [](MC& m) {
        Val s = m.a[0];
        m.ret(s);
    };
    M["_ZNKSi6gcountEv"] = [](MC& m) {
        m.ret(vint(fld(m.st, m.n(0), 32), 64));
    };
    auto stfn = [](unsigned mask, bool inv) {
        return [mask, inv](MC& m) {
            uint64_t s = m.n(0);
            if (!isStreamObj(m.st, s)) throw Unsupported{"stream state"};
            bool b = (fld(m.st, s, 40) & mask) != 0;
            m.ret(vint(b != inv, 1));
        };
    };
    M["_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv"] = stfn(5, true);
    M["_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv"] = stfn(5, false);
    M["_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv"] = stfn(5, false);
    M["_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv"] = stfn(7, true);
    M["_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv"] = stfn(2, false);
    M["_ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv"] = stfn(1, false);
    auto mkStream = [](const char* nm) {
        std::string name = nm;
        return [name](MC& m) {
            uint32_t vt = allocHeap(m.st, 64, 0, "qa-stream-vtable");
            Region& v = rawRegion(m.st.mem, vt);
            for (auto& c : v.c) {
                c.idx = 1;
                c.b = 0;
            }
            uint32_t id = allocHeap(m.st, 64, 0, name);
            Region& r = rawRegion(m.st.mem, id);
            for (auto& c : r.c) {
                c.idx = 1;
                c.b = 0;
            }
            uint64_t s = addrOf(id);
            uint64_t data = m.n(0), len = m.n(1);
            setf(m.st, s, 0, addrOf(vt) + 32);
            setf(m.st, s, 8, data);
            setf(m.st, s, 16, len);
            m.ret(vint(s, 64));
        };
    };
    M["qa_istream"] = mkStream("qa-stream-in");
    M["qa_ostream"] = mkStream("qa-stream-out");
    M["qa_stream_pos"] = [](MC& m) {
        m.ret(vint(fld(m.st, m.n(0), 24), 64));
    };
    M["qa_stream_calls"] = [](MC& m) {
        m.ret(vint(fld(m.st, m.n(0), 48), 64));
    };
    // ------------------------------------------------------- harness
    M["qa_u"] = [](MC& m) {
        uint64_t lo = m.n(0), hi = m.n(1);
        int s = newSym(lo, hi, m.str(2));
        m.ret(lo == hi ? vint(lo, 64) : vsym(s, 64));
    };
    M["qa_fill"] = [](MC& m) { // p, count, unit, lo, hi, name
        uint64_t p = m.n(0), n = m.n(1), unit = m.n(2), lo = m.n(3),
                 hi = m.n(4);
        std::string nm = m.str(5);
        for (uint64_t i = 0; i < n; i++) {
            int s = newSym(lo, hi, nm + "[" + std::to_string(i) + "]");
            storeBytes(m.st, vint(p + i * unit, 64), unsigned(unit),
                       lo == hi ? vint(lo, unsigned(unit) * 8)
                                : vsym(s, unsigned(unit) * 8));
        }
        m.none();
    };
    M["qa_buf"] = [](MC& m) { // size, name
        // exact end; the 16 bytes in front only serve the alignment
        uint32_t id = allocHeap(m.st, m.n(0) + 16, 0, m.str(1));
        rawRegion(m.st.mem, id)
            .forb.push_back({0, 16, true, true, "memory-safety"});
        m.ret(vint(addrOf(id) + 16, 64));
    };
    M["qa_forbid"] = [](MC& m) { // p, n, rd, wr, label
        uint32_t id;
        int64_t off;
        splitAddr(m.n(0), id, off);
        std::string l = m.str(4);
        obligation(l, 0, "");
        Region& r = rawRegion(m.st.mem, id);
        r.forb.push_back({uint64_t(off), m.n(1), m.n(2) != 0, m.n(3) != 0, l});
        m.none();
    };
    M["qa_allow"] = [](MC& m) {
        uint32_t id;
        int64_t off;
        splitAddr(m.n(0), id, off);
        rawRegion(m.st.mem, id).forb.clear();
        m.none();
    };
    M["qa_mod"] = [](MC& m) {
        gNormQ = i128(m.n(0));
        m.none();
    };
    M["qa_gf2"] = [](MC& m) {
        gGf2 = m.n(0) != 0;
        m.none();
    };
    // got is the sum of coefs[i] * x[i] over GF(2^n)
    M["qa_gcomb"] = [](MC& m) { // got, n, poly, coefs, xs, unit, count, label
        uint64_t nb = m.n(1), pl = m.n(2), cp = m.n(3), xp = m.n(4), u = m.n(5),
                 n = m.n(6);
        std::string l = m.str(7);
        std::vector<Poly> xs;
        std::vector<uint64_t> cs;
        bool ok = true;
        for (uint64_t i = 0; i < n; i++) {
            Val c = need(loadBytes(m.st, vint(cp + 8 * i, 64), 8), m.st,
                         "a coefficient");
            cs.push_back(uint64_t(c.c));
            Val x = gf2Normalise(
                loadBytes(m.st, vint(xp + u * i, 64), unsigned(u)), m.st.facts);
            Abs a;
            if (!toAbs(x, m.st.facts, a) || a.ps.size() != 1)
                ok = false;
            else
                xs.push_back(a.ps[0].p);
        }
        Poly want;
        if (!ok || !gf2Comb(unsigned(nb), pl, cs, xs, want))
            obligation(l, 2, "operand is not linear in the inputs");
        else {
            Abs a;
            a.ps.push_back({{}, want});
            checkEq(m.st, gf2Normalise(m.a[0], m.st.facts),
                    fromAbs(std::move(a), m.a[0].w, m.st.facts), l, "value");
        }
        m.none();
    };
    M["qa_limits"] = [](MC& m) {
        gMaxPieces = unsigned(m.n(0));
        gMaxTerms = unsigned(m.n(1));
        m.none();
    };
    // the k-th allocation from here fails (0: none)
    M["qa_fail_alloc"] = [](MC& m) {
        uint64_t k = m.n(0);
        setf(m.st, gFault, 0, k);
        m.none();
    };
    // what is left of the counter
    M["qa_fail_left"] = [](MC& m) {
        m.ret(vint(fld(m.st, gFault, 0), 64));
    };
    // number of allocations which have not been released
    M["qa_live"] = [](MC& m) {
        uint64_t n = 0;
        for (size_t i = 0; i < m.st.mem.heap.n; i++) {
            const Region& r = *m.st.mem.heap.get(i);
            if (r.how && !r.freed) n++;
        }
        m.ret(vint(n, 64));
    };
    M["qa_done"] = [](MC& m) {
        gDonePaths++;
        obligation("completed", 0, "");
        m.none();
    };
    // analyse fn(arg) from this state, then go on as if it had not been called
    M["qa_scope"] = [](MC& m) {
        uint32_t id;
        int64_t off;
        splitAddr(m.n(0), id, off);
        const Region* r = regionAt(m.st.mem, id);
        if (!r || r->kind != R_FUNC) throw Unsupported{"qa_scope: no function"};
        const Function* F = r->fn;
        std::string outer = gScope;
        uint64_t arg = m.n(1);
        gScope += "[" + m.str(2) + " " + std::to_string(arg) + "] ";
        State copy = m.st;
        size_t depth = gStack.size();
        uint64_t steps = gSteps, base = gStepBase;
        try {
            auto os = callFn(F, {vint(arg, 64)}, std::move(copy));
            for (auto& o : os)
                if (o.threw)
                    event(o.st, "exception", "exception escapes: " + o.exc);
        } catch (Unsupported& u) {
            unsupported(u.why);
        } catch (Overflow&) {
            unsupported("polynomial overflow");
        }
        gStack.resize(depth);
        gScope = outer;
        gStepBase = base + (gSteps - steps);
        m.none();
    };
    M["qa_fail"] = [](MC& m) {
        std::string l = m.str(0);
        std::string w;
        bool d = pathWitness(m.st, w);
        obligation(l, d ? 1 : 2, m.str(1) + " [for " + w + "]");
        m.none();
    };
    M["qa_true"] = [](MC& m) { // cond, label
        std::string l = m.str(1);
        Val c = m.a[0];
        if (c.w != 1) c = icmp(NE, c, vint(0, c.w), m.st.facts);
        int d = decide(c, m.st.facts);
        if (d == 1)
            obligation(l, 0, "");
        else {
            std::set<int> s;
            symsOf(c, s);
            if (d == 3) {
                std::string w;
                bool df = pathWitness(m.st, w);
                obligation(l, df ? 1 : 2, "uninitialised value");
            } else
                failCheck(m.st, l, s, "condition does not hold", [&](Asg& a) {
                    u128 r;
                    return evalVal(c, a, r) && !(r & 1);
                });
        }
        m.none();
    };
    M["qa_eq"] = [](MC& m) { // got, want, label
        std::string l = m.str(2);
        checkEq(m.st, m.a[0], m.a[1], l, "value");
        m.none();
    };
    M["qa_eq_mem"] = [](MC& m) { // got, want, n, unit, label
        uint64_t a = m.n(0), b = m.n(1), n = m.n(2), u = m.n(3);
        std::string l = m.str(4);
        for (uint64_t i = 0; i < n; i++) {
            Val x = loadBytes(m.st, vint(a + i * u, 64), unsigned(u));
            Val y = loadBytes(m.st, vint(b + i * u, 64), unsigned(u));
            checkEq(m.st, x, y, l, "element " + std::to_string(i));
        }
        m.none();
    };
    M["qa_init_mem"] = [](MC& m) { // p, n, label
        uint64_t p = m.n(0), n = m.n(1);
        std::string l = m.str(2);
        for (uint64_t i = 0; i < n; i++) {
            Val x = loadBytes(m.st, vint(p + i, 64), 1);
            if (x.k == UNDEF) {
                std::string w;
                bool d = pathWitness(m.st, w);
                obligation(l, d ? 1 : 2,
                           "byte " + std::to_string(i) +
                               " is left unwritten [for " + w + "]");
                m.none();
                return;
            }
        }
        obligation(l, 0, "");
        m.none();
    };
    M["qa_snap"] = [](MC& m) {
        uint64_t p = m.n(0), n = m.n(1);
        uint32_t id;
        int64_t off;
        splitAddr(p, id, off);
        const Region* r = regionAt(m.st.mem, id);
        gSnaps.emplace_back(r->c.begin() + off,
                            r->c.begin() + off + int64_t(n));
        m.ret(vint(gSnaps.size() - 1, 64));
    };
    M["qa_unchanged"] = [](MC& m) { // p, n, id, label
        uint64_t p = m.n(0), n = m.n(1), s = m.n(2);
        std::string l = m.str(3);
        uint32_t id;
        int64_t off;
        splitAddr(p, id, off);
        const Region* r = regionAt(m.st.mem, id);
        Region old;
        old.c = gSnaps[size_t(s)];
        old.size = old.c.size();
        bool bad = false;
        for (uint64_t i = 0; i < n && !bad; i++) {
            if (r->c[uint64_t(off) + i] == old.c[i]) continue;
            Val x = loadRaw(*r, uint64_t(off) + i, 1, m.st.facts);
            Val y = loadRaw(old, i, 1, m.st.facts);
            if (x.k == UNDEF && y.k == UNDEF) continue;
            if (y.k == UNDEF) {
                std::string w;
                bool d = pathWitness(m.st, w);
                obligation(l, d ? 1 : 2,
                           "byte " + std::to_string(i) +
                               " was written [for " + w + "]");
                bad = true;
                continue;
            }
            if (provedEq(x, y, m.st.facts)) continue;
            checkEq(m.st, x, y, l, "byte " + std::to_string(i));
            bad = true;
        }
        if (!bad) obligation(l, 0, "");
        m.none();
    };
    // got, q, kind, x, y, z, label
    M["qa_lin"] = [](MC& m) {
        i128 q = i128(m.n(1));
        unsigned kind = unsigned(m.n(2));
        std::vector<Val> xs{m.a[3], m.a[4], m.a[5]};
        std::string l = m.str(6);
        checkLin(m, m.a[0], q, xs,
                 [kind](const std::vector<Poly>& p) {
                     const Poly &x = p[0], &y = p[1], &z = p[2];
                     switch (kind) {
                     case 0: return padd(x, y);
                     case 1: return psub(x, y);
                     case 2: return pscale(x, -1);
                     case 3: return pmul(x, y);
                     case 4: return padd(x, pmul(y, z));
                     case 5: return psub(x, pmul(y, z));
                     case 6: return pmul(z, psub(x, y));
                     case 7: return psub(pmul(x, y), z);
                     default: return x;
                     }
                 },
                 l);
        m.none();
    };
    // got, q, coefs (u64*), xs, unit, n, label: got == sum coef*x mod q
    M["qa_comb"] = [](MC& m) {
        i128 q = i128(m.n(1));
        uint64_t cp = m.n(2), xp = m.n(3), u = m.n(4), n = m.n(5);
        std::string l = m.str(6);
        std::vector<Val> xs;
        std::vector<i128> cs;
        for (uint64_t i = 0; i < n; i++) {
            Val c = need(loadBytes(m.st, vint(cp + 8 * i, 64), 8), m.st,
                         "a coefficient");
            cs.push_back(i128(c.c));
            xs.push_back(loadBytes(m.st, vint(xp + u * i, 64), unsigned(u)));
        }
        checkLin(m, m.a[0], q, xs,
                 [&](const std::vector<Poly>& p) {
                     Poly r;
                     for (size_t i = 0; i < p.size(); i++)
                         r = padd(r, pscale(p[i], cs[i]));
                     return r;
                 },
                 l);
        m.none();
    };
    // congruent to an arithmetic expression in postfix form: i pushes x[i],
    // -1 multiplies, -2 adds, -3 subtracts, 1000 + c pushes c
    M["qa_rpn"] = [](MC& m) { // got, q, prog, len, xs, unit, n, label
        i128 q = i128(m.n(1));
        uint64_t pp = m.n(2), pl = m.n(3), xp = m.n(4), u = m.n(5), n = m.n(6);
        std::string l = m.str(7);
        std::vector<Val> xs;
        std::vector<int> prog;
        for (uint64_t i = 0; i < pl; i++)
            prog.push_back(int(int32_t(need(loadBytes(m.st, vint(pp + 4 * i, 64), 4),
                                            m.st, "an expression").c)));
        for (uint64_t i = 0; i < n; i++)
            xs.push_back(loadBytes(m.st, vint(xp + u * i, 64), unsigned(u)));
        checkLin(m, m.a[0], q, xs,
                 [&](const std::vector<Poly>& p) {
                     std::vector<Poly> st;
                     for (int c : prog) {
                         if (c >= 1000) st.push_back(pconst(c - 1000));
                         else if (c >= 0) st.push_back(p.at(unsigned(c)));
                         else {
                             Poly b = st.back();
                             st.pop_back();
                             Poly a = st.back();
                             st.back() = c == -1 ? residue(pmul(a, b), q)
                                                 : c == -2 ? padd(a, b) : psub(a, b);
                         }
                     }
                     return st.back();
                 },
                 l);
        m.none();
    };
    // congruent to sum coef*x mod q, in [0, hi]
    M["qa_range"] = [](MC& m) { // x, lo, hi, label
        std::string l = m.str(3);
        uint64_t lo = m.n(1), hi = m.n(2);
        Range r;
        if (m.a[0].k == UNDEF) {
            std::string w;
            bool d = pathWitness(m.st, w);
            obligation(l, d ? 1 : 2, "uninitialised value");
        } else if (vrange(m.a[0], m.st.facts, r) && r.lo >= i128(lo) &&
                   r.hi <= i128(hi))
            obligation(l, 0, "");
        else {
            std::set<int> s;
            symsOf(m.a[0], s);
            Val v = m.a[0];
            failCheck(m.st, l, s, "out of range: " + vstr(v).substr(0, 300),
                      [&](Asg& a) {
                          u128 x;
                          return evalVal(v, a, x) && (x < lo || x > hi);
                      });
        }
        m.none();
    };
    // undecided whether a condition holds: 0/1 constant, 2 otherwise
    M["qa_decided"] = [](MC& m) {
        Val c = m.a[0];
        if (c.w != 1) c = icmp(NE, c, vint(0, c.w), m.st.facts);
        m.ret(vint(unsigned(decide(c, m.st.facts)), 32));
    };
    M["qa_assume"] = [](MC& m) {
        Val c = m.a[0];
        if (c.w != 1) c = icmp(NE, c, vint(0, c.w), m.st.facts);
        if (!assume(c, true, m.st.facts)) throw PathEnd();
        m.none();
    };
    M["qa_print"] = [](MC& m) {
        errs() << m.str(0) << ": " << vstr(m.a[1]) << "   facts: "
               << cstr(m.st.facts.cons) << " excluded "
               << m.st.facts.excluded.size() << "\n";
        m.none();
    };
    M["qa_opaque"] = [](MC& m) {
        m.ret(vopaqueR(i128(m.n(0)), i128(m.n(1)), 64, "harness"));
    };
    M["qa_fill_opaque"] = [](MC& m) { // p, count, unit, lo, hi
        uint64_t p = m.n(0), n = m.n(1), u = m.n(2);
        for (uint64_t i = 0; i < n; i++)
            storeBytes(m.st, vint(p + i * u, 64), unsigned(u),
                       vopaqueR(i128(m.n(3)), i128(m.n(4)), unsigned(u) * 8,
                                "harness"));
        m.none();
    };
}

static bool model(const Function* F, const CallBase* cb, std::vector<Val>& args,
                  State& st, std::vector<Outcome>& os)
{
    if (gModels.empty()) initModels();
    auto it = gModelCache.find(F);
    const Handler* h = nullptr;
    if (it == gModelCache.end()) {
        auto mi = gModels.find(F->getName().str());
        if (mi != gModels.end()) h = &mi->second;
        gModelCache[F] = h;
    } else
        h = it->second;
    MC m{F, cb, args, st, os};
    if (!h && F->getName().starts_with("_ZNSt24uniform_int_distributionImEclI") && args.size() == 2) {
        // any value the distribution allows
        uint64_t lo = fld(m.st, m.n(0), 0), hi = fld(m.st, m.n(0), 8);
        if (lo > hi) throw Unsupported{"empty range of a distribution"};
        m.ret(lo == hi ? vint(lo, 64) : vsym(newSym(lo, hi, "random"), 64));
        return true;
    }
    if (!h && F->getName().starts_with("_ZN9__gnu_cxx12__to_xstringI") &&
        args.size() == 5) {
        // result, conversion, room, format, value
        std::string fm = m.str(3);
        Val v = need(args[4], st, "a number to print");
        char buf[40];
        if (fm == "%d" || fm == "%ld" || fm == "%lld")
            snprintf(buf, sizeof buf, "%lld",
                     fm == "%d" ? (long long)int32_t(v.c) : (long long)v.c);
        else if (fm == "%u" || fm == "%lu" || fm == "%llu")
            snprintf(buf, sizeof buf, "%llu",
                     fm == "%u" ? (unsigned long long)uint32_t(v.c)
                                : (unsigned long long)v.c);
        else
            throw Unsupported{"number format " + fm};
        uint64_t self = m.n(0), n = strlen(buf), d = self + 16;
        if (n > 15) {
            d = addrOf(allocHeap(st, n + 1, 1, ""));
            storeBytes(st, vint(self + 16, 64), 8, vint(i128(n), 64));
        }
        storeBytes(st, vint(self, 64), 8, vint(d, 64));
        storeBytes(st, vint(self + 8, 64), 8, vint(i128(n), 64));
        for (uint64_t i = 0; i <= n; i++)
            storeBytes(st, vint(d + i, 64), 1, vint(uint8_t(buf[i]), 8));
        m.none();
        return true;
    }
    if (!h && F->isDeclaration() && args.size() <= 3 &&
        (F->getName().starts_with("_ZNSols") ||
         F->getName().starts_with("_ZStlsISt11char_traitsIcEE") ||
         F->getName() == "_ZNSo3putEc")) {
        // text written for people to read
        m.ret(args[0]);
        return true;
    }
    if (h) {
        (*h)(m);
        return true;
    }
    if (F->isIntrinsic()) {
        std::string n = F->getName().str();
        if (n.rfind("llvm.x86.", 0) == 0) {
            if (x86(m, n)) return true;
        } else if (intrinsic(m, F->getIntrinsicID()))
            return true;
        throw Unsupported{"intrinsic " + n};
    }
    return false;
}
