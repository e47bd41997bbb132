#include "interp.h"

#include "llvm/Analysis/PostDominators.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

#include <chrono>
#include <cmath>
#include <iostream>

using namespace llvm;

namespace qai {

static Module* gM;
static const DataLayout* gDL;
static std::vector<Val> gPool(2);
static uint64_t gSteps = 0, gStepBase = 0, gStepLimit = 400000000ull;
static uint64_t gFault = 0; // address of the fault counter
static double gTimeLimit = 0;
static std::chrono::steady_clock::time_point gT0;
static uint64_t gForks = 0, gMerges = 0, gMaxPaths = 0, gCalls = 0;
static std::set<const Function*> gVisitedFns;
static std::string gHarness;
static i128 gNormQ = 0;
static unsigned gPartitionLimit = 256;
static bool gTrace = false;

// ------------------------------------------------------------ reporting
struct ObKey {
    std::string label;
    bool operator<(const ObKey& o) const { return label < o.label; }
};
struct ObRes {
    uint64_t ok = 0, viol = 0, undec = 0;
    std::string msg;
};
static std::map<std::string, ObRes> gObs;
static std::vector<std::string> gObOrder;
static std::set<std::string> gEventSeen;
static uint64_t gEndedPaths = 0, gDonePaths = 0;

static std::string jesc(const std::string& s)
{
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if ((unsigned char)c < 32)
            r += ' ';
        else
            r += c;
    }
    return r;
}

static std::vector<const Instruction*> gStack; // call sites
static const Instruction* gCur = nullptr;

static std::string locOf(const Instruction* I, bool& inRepo)
{
    inRepo = false;
    if (!I) return "?";
    const DILocation* d = I->getDebugLoc();
    std::string fn = demangle(I->getFunction()->getName().str());
    size_t par = fn.find('(');
    if (par != std::string::npos && par > 0) fn = fn.substr(0, par);
    if (!d) return fn;
    std::string f = d->getFilename().str();
    inRepo = f.find("/repo/src/") != std::string::npos;
    size_t p = f.rfind("/repo/");
    if (p != std::string::npos) f = f.substr(p + 6);
    return f + ":" + std::to_string(d->getLine()) + " (" + fn + ")";
}
static std::string where()
{
    bool r;
    std::string l = locOf(gCur, r);
    if (r) return l;
    for (size_t i = gStack.size(); i-- > 0;) {
        std::string m = locOf(gStack[i], r);
        if (r) return m;
    }
    return l;
}
static std::string backtrace()
{
    std::string s;
    bool r;
    s = locOf(gCur, r);
    for (size_t i = gStack.size(); i-- > 0;)
        s += " <- " + locOf(gStack[i], r);
    return s;
}

static std::string gScope;
static void obligation(const std::string& label, int status,
                       const std::string& msg)
{
    auto it = gObs.find(label);
    if (it == gObs.end()) {
        gObOrder.push_back(label);
        it = gObs.insert({label, ObRes()}).first;
    }
    if (status == 0)
        it->second.ok++;
    else if (status == 1) {
        if (!it->second.viol) it->second.msg = gScope + msg;
        it->second.viol++;
    } else {
        if (!it->second.viol && !it->second.undec) it->second.msg = gScope + msg;
        it->second.undec++;
    }
}

static std::string asgStr(const Asg& a)
{
    std::string s;
    int n = 0;
    for (auto& kv : a) {
        if (gSyms[kv.first].def || gSyms[kv.first].form) continue;
        if (n++ > 12) {
            s += " ...";
            break;
        }
        if (!s.empty()) s += ", ";
        s += gSyms[kv.first].name + "=" + str128(kv.second);
    }
    return s.empty() ? "any input" : s;
}

// feasible path? returns witness text
static bool pathWitness(const State& st, std::string& out)
{
    Asg a;
    if (!findWitness({}, st.facts, [](Asg&) { return true; }, a, 4000))
        return false;
    out = asgStr(a);
    return true;
}

static void event(const State& st, const std::string& kind,
                  const std::string& msg)
{
    std::string w;
    bool def = pathWitness(st, w);
    std::string text = msg + " at " + where();
    if (def) text += " [for " + w + "]";
    text += " [" + backtrace() + "]";
    obligation(kind, def ? 1 : 2, text);
}
static void unsupported(const std::string& msg)
{
    obligation("analysis-complete", 2, msg + " at " + backtrace());
}

// ------------------------------------------------------------- memory ops
static Region& rawRegion(Mem& m, uint32_t id)
{
    RegP& p = id >= HEAP0    ? m.heap.slot(id - HEAP0)
              : id >= STACK0 ? m.stack.slot(id - STACK0)
                             : m.glob.slot(id);
    if (p.use_count() > 1) p = std::make_shared<Region>(*p);
    return *p;
}
static const Region* regionAt(const Mem& m, uint32_t id)
{
    const PVec& v = id >= HEAP0 ? m.heap : id >= STACK0 ? m.stack : m.glob;
    uint32_t i = id >= HEAP0 ? id - HEAP0 : id >= STACK0 ? id - STACK0 : id;
    if (i >= v.n) return nullptr;
    return v.get(i).get();
}
static uint64_t addrOf(uint32_t id)
{
    return (uint64_t(id) << OBJ_SHIFT) + OBJ_MID + (id >= HEAP0 ? 16 : 0);
}
static void splitAddr(uint64_t a, uint32_t& id, int64_t& off)
{
    id = uint32_t(a >> OBJ_SHIFT);
    off = int64_t(a & ((uint64_t(1) << OBJ_SHIFT) - 1)) - int64_t(OBJ_MID) -
          (id >= HEAP0 ? 16 : 0);
}

static uint32_t allocHeap(State& st, uint64_t size, int how,
                          const std::string& name)
{
    if (size > (1u << 27)) {
        unsupported("allocation of " + std::to_string(size) + " bytes");
        throw PathEnd();
    }
    auto r = std::make_shared<Region>();
    r->kind = R_HEAP;
    r->how = uint8_t(how);
    r->size = size;
    r->c.resize(size);
    r->name = name;
    return HEAP0 + uint32_t(st.mem.heap.push(r));
}

static std::string describe(const Region& r, uint32_t id)
{
    const char* k = r.kind == R_HEAP    ? "heap block"
                    : r.kind == R_STACK ? "local variable"
                                        : "global";
    return std::string(k) + " " +
           (r.name.empty() ? "#" + std::to_string(id) : r.name) + " of " +
           std::to_string(r.size) + " bytes";
}

// checks an access; throws PathEnd on a violation
static void checkAccess(State& st, uint64_t a, uint64_t n, bool wr,
                        uint32_t& id, int64_t& off)
{
    if (n == 0) {
        splitAddr(a, id, off);
        return;
    }
    const char* what = wr ? "write" : "read";
    splitAddr(a, id, off);
    if (a < (uint64_t(1) << OBJ_SHIFT)) {
        event(st, "memory-safety",
              std::string(what) + " through a null pointer");
        throw PathEnd();
    }
    const Region* r = regionAt(st.mem, id);
    if (!r || r->kind == R_FUNC) {
        event(st, "memory-safety", std::string(what) + " at invalid address");
        throw PathEnd();
    }
    if (r->freed) {
        event(st, "memory-safety",
              std::string(what) + " after free of " + describe(*r, id));
        throw PathEnd();
    }
    if (off < 0 || uint64_t(off) + n > r->size) {
        event(st, "memory-safety",
              std::string("out-of-bounds ") + what + " of " +
                  std::to_string(n) + " bytes at offset " +
                  std::to_string(off) + " of " + describe(*r, id));
        throw PathEnd();
    }
    if (wr && r->ro) {
        event(st, "memory-safety", "write to constant " + describe(*r, id));
        throw PathEnd();
    }
    for (auto& fb : r->forb)
        if (uint64_t(off) < fb.off + fb.len && fb.off < uint64_t(off) + n &&
            (wr ? fb.wr : fb.rd)) {
            event(st, fb.msg,
                  std::string(wr ? "write to" : "read of") +
                      " a protected buffer (" + fb.msg + "), byte " +
                      std::to_string(off));
            throw PathEnd();
        }
}

static Val loadRaw(const Region& r, uint64_t off, unsigned n, const Facts& f)
{
    // constants
    const Cell* c = &r.c[off];
    bool cst = true;
    for (unsigned i = 0; i < n; i++)
        if (c[i].idx != 1) {
            cst = false;
            break;
        }
    if (cst) {
        u128 v = 0;
        for (unsigned i = n; i-- > 0;) v = (v << 8) | c[i].b;
        return vint(v, n * 8);
    }
    if (c[0].idx > 1 && c[0].k == 0) {
        const Val& v = gPool[c[0].idx];
        if (v.w == n * 8) {
            bool whole = true;
            for (unsigned i = 1; i < n; i++)
                if (c[i].idx != c[0].idx || c[i].k != i) {
                    whole = false;
                    break;
                }
            if (whole) return v;
        }
    }
    std::vector<Val> parts;
    unsigned i = 0;
    while (i < n) {
        if (c[i].idx == 0) {
            parts.push_back(vundef(8));
            i++;
        } else if (c[i].idx == 1) {
            parts.push_back(vint(c[i].b, 8));
            i++;
        } else {
            unsigned j = i + 1;
            while (j < n && c[j].idx == c[i].idx &&
                   c[j].k == c[i].k + (j - i))
                j++;
            parts.push_back(
                vslice(gPool[c[i].idx], c[i].k * 8, (j - i) * 8, f));
            i = j;
        }
    }
    Val v = vconcat(parts, f);
    if (v.k == SEG) {
        bool all = true;
        for (auto& e : segOf(v).s) all &= e.v.k == UNDEF;
        if (all) return vundef(v.w);
    }
    return v;
}
static void storeRaw(Region& r, uint64_t off, unsigned n, const Val& v)
{
    if (v.k == INT || v.k == FP) {
        u128 c = v.c;
        for (unsigned i = 0; i < n; i++) {
            r.c[off + i].idx = 1;
            r.c[off + i].b = uint8_t(c);
            r.c[off + i].k = 0;
            c >>= 8;
        }
        return;
    }
    if (v.k == UNDEF) {
        for (unsigned i = 0; i < n; i++) r.c[off + i] = Cell();
        return;
    }
    if (v.k == SEG) {
        // byte-aligned segments separately
        bool al = true;
        for (auto& e : segOf(v).s) al &= e.w % 8 == 0;
        if (al) {
            Facts nf;
            unsigned o = 0;
            for (auto& e : segOf(v).s) {
                Val p = vslice(e.v, e.off, e.w, nf);
                if (p.k == SEG) {
                    gPool.push_back(p);
                    for (unsigned i = 0; i < e.w / 8; i++) {
                        Cell& c = r.c[off + o + i];
                        c.idx = uint32_t(gPool.size() - 1);
                        c.k = uint8_t(i);
                    }
                } else
                    storeRaw(r, off + o, e.w / 8, p);
                o += e.w / 8;
            }
            return;
        }
    }
    Val w = v;
    if (v.w != n * 8) {
        Facts nf;
        w = vzext(v, n * 8, nf);
        if (w.k == INT || w.k == UNDEF) {
            storeRaw(r, off, n, w);
            return;
        }
    }
    gPool.push_back(w);
    for (unsigned i = 0; i < n; i++) {
        r.c[off + i].idx = uint32_t(gPool.size() - 1);
        r.c[off + i].k = uint8_t(i);
    }
}

// drop the pieces which the path facts exclude
static Val refine(const Val& v, const Facts& f)
{
    if (v.k != ABS && v.k != SEG) return v;
    try {
        Abs a;
        if (!toAbs(v, f, a)) return v;
        Abs o;
        for (auto& p : a.ps) {
            if (!p.cs.empty() && !feasible(p.cs, f)) continue;
            Range r = rangeOf(p.p, p.cs, f);
            if (r.empty()) continue;
            if (r.lo == r.hi)
                o.ps.push_back({p.cs, pconst(r.lo)});
            else
                o.ps.push_back(p);
        }
        if (o.ps.empty()) return v;
        return fromAbs(std::move(o), v.w, f);
    } catch (Overflow&) {
        return v;
    }
}

// value must be a constant on this path: split the path when it is not
static Val need(const Val& v, State& st, const char* what)
{
    if (v.k == INT) return v;
    if (v.k == UNDEF) {
        event(st, "uninitialised",
              std::string("uninitialised value used as ") + what);
        throw PathEnd();
    }
    Val r = refine(v, st.facts);
    if (r.k == INT) return r;
    NeedSplit ns;
    Abs a;
    bool ok = toAbs(r, st.facts, a);
    if (ok)
        for (auto& p : a.ps) {
            if (p.p.isConst()) {
                ns.cases.push_back(p.cs);
                continue;
            }
            Range q = rangeOf(p.p, p.cs, st.facts);
            if (q.hi - q.lo > 40) {
                ok = false;
                break;
            }
            for (i128 x = q.lo; x <= q.hi; x++) {
                Case c = p.cs;
                if (addCons(c, p.p, x, x, st.facts)) ns.cases.push_back(c);
            }
        }
    if (!ok || ns.cases.size() < 2 || ns.cases.size() > 64)
        throw Unsupported{std::string("value not bounded enough for ") +
                          what + ": " + vstr(v)};
    throw ns;
}

// look-up in a table whose index is a function of one small symbol
static bool loadTable(State& st, const Val& addr, unsigned n, Val& out)
{
    int root;
    std::vector<i128> t;
    bool exact = false;
    if (n > 8 || !gf2Func(addr, st.facts, root, t, &exact)) return false;
    for (auto& x : t) {
        if (x == GF2_NONE) continue;
        uint32_t id;
        int64_t off;
        if (x < 0) return false;
        splitAddr(uint64_t(x), id, off);
        const Region* reg = regionAt(st.mem, id);
        if (!reg || reg->freed || off < 0 || uint64_t(off) + n > reg->size ||
            !reg->forb.empty()) {
            if (!exact) return false;
            checkAccess(st, uint64_t(x), n, false, id, off);
            reg = regionAt(st.mem, id);
        }
        Val v = loadRaw(*reg, uint64_t(off), n, st.facts);
        if (v.k == UNDEF && exact) {
            event(st, "uninitialised",
                  "uninitialised entry looked up in " + describe(*reg, id));
            throw PathEnd();
        }
        if (v.k != INT) return false;
        x = i128(v.c);
    }
    Poly p;
    if (!gf2Table(root, t, true, p)) return false;
    Abs a;
    a.ps.push_back({{}, p});
    out = fromAbs(std::move(a), n * 8, st.facts);
    return true;
}

static Val loadBytes(State& st, const Val& addr, unsigned n)
{
    if (addr.k != INT) {
        Val r = refine(addr, st.facts);
        Val tv;
        if (gGf2 && r.k != INT && loadTable(st, r, n, tv)) return tv;
        if (r.k != INT && (r.k == ABS || r.k == SEG)) {
            // address with symbolic index inside one region
            Range g;
            if (vrange(r, st.facts, g) && (g.lo >> OBJ_SHIFT) ==
                                              (g.hi >> OBJ_SHIFT) &&
                g.hi - g.lo > 40) {
                uint32_t id;
                int64_t off;
                Abs a;
                toAbs(r, st.facts, a);
                const Region* reg = regionAt(st.mem, uint32_t(
                                                         g.lo >> OBJ_SHIFT));
                int64_t o0, o1;
                splitAddr(uint64_t(g.lo), id, o0);
                splitAddr(uint64_t(g.hi), id, o1);
                if (reg && !reg->freed && o0 >= 0 &&
                    uint64_t(o1) + n <= reg->size) {
                    checkAccess(st, uint64_t(g.lo), n, false, id, off);
                    return vopaque(n * 8, "load at symbolic index");
                }
            }
        }
        Val c = need(addr, st, "an address");
        return loadBytes(st, c, n);
    }
    uint32_t id;
    int64_t off;
    checkAccess(st, uint64_t(addr.c), n, false, id, off);
    if (n == 0) return vundef(0);
    return loadRaw(*regionAt(st.mem, id), uint64_t(off), n, st.facts);
}
static void storeBytes(State& st, const Val& addr, unsigned n, const Val& v)
{
    Val a = need(addr, st, "an address");
    uint32_t id;
    int64_t off;
    checkAccess(st, uint64_t(a.c), n, true, id, off);
    storeRaw(rawRegion(st.mem, id), uint64_t(off), n, v);
}

static Val loadType(State& st, const Val& addr, Type* ty);
static Val vaddc(const Val& a, uint64_t k, const Facts& f)
{
    if (a.k == INT) return vint(a.c + k, 64);
    return binop(ADD, a, vint(k, 64), 64, f);
}
static unsigned bitsOf(Type* t)
{
    return unsigned(gDL->getTypeSizeInBits(t).getFixedValue());
}
static Val loadType(State& st, const Val& addr, Type* ty)
{
    if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
        // one access check for the whole vector
        Val a = need(addr, st, "an address");
        unsigned eb = bitsOf(vt->getElementType());
        uint32_t id;
        int64_t off;
        checkAccess(st, uint64_t(a.c), eb / 8 * vt->getNumElements(), false,
                    id, off);
        const Region* r = regionAt(st.mem, id);
        std::vector<Val> e;
        for (unsigned i = 0; i < vt->getNumElements(); i++)
            e.push_back(
                loadRaw(*r, uint64_t(off) + i * (eb / 8), eb / 8, st.facts));
        return vvec(std::move(e));
    }
    if (auto* s = dyn_cast<StructType>(ty)) {
        const StructLayout* sl = gDL->getStructLayout(s);
        std::vector<Val> e;
        for (unsigned i = 0; i < s->getNumElements(); i++)
            e.push_back(loadType(st, vaddc(addr, sl->getElementOffset(i),
                                           st.facts),
                                 s->getElementType(i)));
        return vvec(std::move(e));
    }
    unsigned b = bitsOf(ty);
    unsigned n = (b + 7) / 8;
    Val v = loadBytes(st, addr, n);
    if (ty->isDoubleTy()) {
        if (v.k == INT) {
            v.k = FP;
            return v;
        }
        return vundef(64);
    }
    if (b != n * 8) v = vtrunc(v, b, st.facts);
    return v;
}
static void storeType(State& st, const Val& addr, Type* ty, const Val& v)
{
    if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
        Val a = need(addr, st, "an address");
        unsigned eb = bitsOf(vt->getElementType()) / 8;
        uint32_t id;
        int64_t off;
        checkAccess(st, uint64_t(a.c), eb * vt->getNumElements(), true, id,
                    off);
        Region& r = rawRegion(st.mem, id);
        for (unsigned i = 0; i < vt->getNumElements(); i++)
            storeRaw(r, uint64_t(off) + i * eb, eb,
                     v.k == VEC ? vecOf(v)[i] : vundef(eb * 8));
        return;
    }
    if (auto* s = dyn_cast<StructType>(ty)) {
        const StructLayout* sl = gDL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++)
            storeType(st, vaddc(addr, sl->getElementOffset(i), st.facts),
                      s->getElementType(i),
                      v.k == VEC ? vecOf(v)[i]
                                 : vundef(bitsOf(s->getElementType(i))));
        return;
    }
    unsigned b = bitsOf(ty);
    unsigned n = (b + 7) / 8;
    Val w = v;
    if (b != n * 8) w = vzext(v, n * 8, st.facts);
    storeBytes(st, addr, n, w);
}

// ---------------------------------------------------------------- constants
static std::map<const GlobalValue*, uint32_t> gGlobId;
static std::vector<const Function*> gFuncOf; // by region id
static Val constVal(const Constant* c);

static Val undefOf(Type* t)
{
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        std::vector<Val> e(vt->getNumElements(),
                           vundef(bitsOf(vt->getElementType())));
        return vvec(std::move(e));
    }
    if (auto* s = dyn_cast<StructType>(t)) {
        std::vector<Val> e;
        for (auto* x : s->elements()) e.push_back(undefOf(x));
        return vvec(std::move(e));
    }
    if (auto* s = dyn_cast<ArrayType>(t)) {
        std::vector<Val> e(s->getNumElements(), undefOf(s->getElementType()));
        return vvec(std::move(e));
    }
    if (t->isVoidTy()) return vundef(0);
    return vundef(bitsOf(t));
}
static Val zeroOf(Type* t)
{
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        std::vector<Val> e(vt->getNumElements(),
                           vint(0, bitsOf(vt->getElementType())));
        return vvec(std::move(e));
    }
    if (auto* s = dyn_cast<StructType>(t)) {
        std::vector<Val> e;
        for (auto* x : s->elements()) e.push_back(zeroOf(x));
        return vvec(std::move(e));
    }
    if (auto* s = dyn_cast<ArrayType>(t)) {
        std::vector<Val> e(s->getNumElements(), zeroOf(s->getElementType()));
        return vvec(std::move(e));
    }
    if (t->isDoubleTy()) return vfp(0);
    return vint(0, bitsOf(t));
}
static u128 apToU128(const APInt& a)
{
    u128 r = a.getRawData()[0];
    if (a.getBitWidth() > 64) r |= u128(a.getRawData()[1]) << 64;
    return r & maskW(a.getBitWidth());
}
static Pred predOf(CmpInst::Predicate p);
static Val constVal(const Constant* c)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 128) throw Unsupported{"wide constant"};
        return vint(apToU128(ci->getValue()), ci->getBitWidth());
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (t->isDoubleTy()) return vfp(cf->getValueAPF().convertToDouble());
        return vundef(bitsOf(t));
    }
    if (isa<ConstantPointerNull>(c)) return vint(0, 64);
    if (isa<UndefValue>(c)) return undefOf(t);
    if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (auto* a = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> e;
        for (unsigned i = 0; i < a->getNumElements(); i++)
            e.push_back(constVal(a->getElementAsConstant(i)));
        return vvec(std::move(e));
    }
    if (auto* a = dyn_cast<ConstantAggregate>(c)) {
        std::vector<Val> e;
        for (unsigned i = 0; i < a->getNumOperands(); i++)
            e.push_back(constVal(a->getOperand(i)));
        return vvec(std::move(e));
    }
    if (auto* g = dyn_cast<GlobalAlias>(c)) return constVal(g->getAliasee());
    if (auto* g = dyn_cast<GlobalValue>(c)) {
        auto it = gGlobId.find(g);
        if (it == gGlobId.end()) throw Unsupported{"unknown global"};
        return vint(addrOf(it->second), 64);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        Facts nf;
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* g = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!g->accumulateConstantOffset(*gDL, off))
                throw Unsupported{"constant gep"};
            Val b = constVal(cast<Constant>(g->getPointerOperand()));
            return vaddc(b, off.getZExtValue(), nf);
        }
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast:
        case Instruction::IntToPtr:
        case Instruction::PtrToInt:
            return constVal(ce->getOperand(0));
        case Instruction::Sub:
            return binop(SUB, constVal(ce->getOperand(0)),
                         constVal(ce->getOperand(1)), bitsOf(t), nf);
        case Instruction::Add:
            return binop(ADD, constVal(ce->getOperand(0)),
                         constVal(ce->getOperand(1)), bitsOf(t), nf);
        case Instruction::Trunc:
            return vtrunc(constVal(ce->getOperand(0)), bitsOf(t), nf);
        case Instruction::ZExt:
            return vzext(constVal(ce->getOperand(0)), bitsOf(t), nf);
        case Instruction::ICmp:
            return icmp(predOf(CmpInst::Predicate(ce->getPredicate())),
                        constVal(ce->getOperand(0)),
                        constVal(ce->getOperand(1)), nf);
        default:
            break;
        }
    }
    throw Unsupported{"constant expression"};
}
static void initInto(Region& r, uint64_t off, const Constant* c)
{
    Type* t = c->getType();
    uint64_t sz = gDL->getTypeAllocSize(t);
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
        for (uint64_t i = 0; i < sz; i++) {
            r.c[off + i].idx = 1;
            r.c[off + i].b = 0;
        }
        return;
    }
    if (isa<UndefValue>(c)) {
        // static storage: padding reads as zero
        for (uint64_t i = 0; i < sz; i++) {
            r.c[off + i].idx = 1;
            r.c[off + i].b = 0;
        }
        return;
    }
    if (auto* a = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = gDL->getTypeAllocSize(a->getElementType());
        for (unsigned i = 0; i < a->getNumElements(); i++)
            initInto(r, off + i * es, a->getElementAsConstant(i));
        return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        const StructLayout* sl = gDL->getStructLayout(s->getType());
        for (uint64_t i = 0; i < sz; i++) {
            r.c[off + i].idx = 1;
            r.c[off + i].b = 0;
        }
        for (unsigned i = 0; i < s->getNumOperands(); i++)
            initInto(r, off + sl->getElementOffset(i), s->getOperand(i));
        return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c)) {
        uint64_t es = gDL->getTypeAllocSize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); i++)
            initInto(r, off + i * es, a->getOperand(i));
        return;
    }
    if (auto* a = dyn_cast<ConstantVector>(c)) {
        uint64_t es = gDL->getTypeAllocSize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); i++)
            initInto(r, off + i * es, a->getOperand(i));
        return;
    }
    try {
        Val v = constVal(c);
        storeRaw(r, off, unsigned(gDL->getTypeStoreSize(t)), v);
    } catch (Unsupported&) {
    }
}

// ---------------------------------------------------------------- functions
struct Opnd {
    int slot = -1;
    Val c;
};
struct CI {
    const Instruction* I;
    unsigned op;
    int dst;
    std::vector<Opnd> ops;
    unsigned w = 0;               // result width
    std::vector<std::pair<int, int64_t>> gep; // operand index, scale
    int64_t gepOff = 0;
};
struct BB {
    const BasicBlock* b;
    std::vector<CI> ins; // without phis
    std::vector<const PHINode*> phis;
    std::vector<int> phiDst;
    std::vector<std::vector<std::pair<int, Opnd>>> phiIn; // per phi (pred,op)
    int ipdom = -1; // -1: exit
    std::vector<char> live; // slots live at entry (after phis)
};
struct FnInfo {
    const Function* F;
    std::vector<BB> bbs;
    std::map<const BasicBlock*, int> ix;
    std::map<const Value*, int> slot;
    int nslots = 0;
};
static std::map<const Function*, std::unique_ptr<FnInfo>> gFns;

static FnInfo* getFn(const Function* F)
{
    auto it = gFns.find(F);
    if (it != gFns.end()) return it->second.get();
    auto fi = std::make_unique<FnInfo>();
    fi->F = F;
    for (auto& a : F->args()) fi->slot[&a] = fi->nslots++;
    for (auto& b : *F) {
        fi->ix[&b] = int(fi->bbs.size());
        fi->bbs.emplace_back();
        fi->bbs.back().b = &b;
        for (auto& i : b)
            if (!i.getType()->isVoidTy()) fi->slot[&i] = fi->nslots++;
    }
    auto mkOp = [&](const Value* v) {
        Opnd o;
        if (auto* c = dyn_cast<Constant>(v)) {
            try {
                o.c = constVal(c);
            } catch (Unsupported&) {
                o.c = v->getType()->isSized() ? undefOf(v->getType())
                                              : vundef(0);
            }
        } else {
            auto s = fi->slot.find(v);
            if (s != fi->slot.end()) o.slot = s->second;
        }
        return o;
    };
    for (auto& b : fi->bbs) {
        for (auto& i : *b.b) {
            if (auto* p = dyn_cast<PHINode>(&i)) {
                b.phis.push_back(p);
                b.phiDst.push_back(fi->slot[p]);
                std::vector<std::pair<int, Opnd>> in;
                for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
                    in.push_back({fi->ix[p->getIncomingBlock(k)],
                                  mkOp(p->getIncomingValue(k))});
                b.phiIn.push_back(in);
                continue;
            }
            if (isa<DbgInfoIntrinsic>(i)) continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(&i)) {
                Intrinsic::ID id = ii->getIntrinsicID();
                if (id == Intrinsic::lifetime_start ||
                    id == Intrinsic::lifetime_end ||
                    id == Intrinsic::assume ||
                    id == Intrinsic::experimental_noalias_scope_decl ||
                    id == Intrinsic::prefetch)
                    continue;
            }
            CI c;
            c.I = &i;
            c.op = i.getOpcode();
            c.dst = i.getType()->isVoidTy() ? -1 : fi->slot[&i];
            Type* t = i.getType();
            if (t->isSized() && !t->isVoidTy()) c.w = bitsOf(t);
            if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                c.ops.push_back(mkOp(g->getPointerOperand()));
                int64_t off = 0;
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g);
                     gi != ge; ++gi) {
                    Value* ix = gi.getOperand();
                    if (StructType* s = gi.getStructTypeOrNull()) {
                        off += int64_t(
                            gDL->getStructLayout(s)->getElementOffset(
                                cast<ConstantInt>(ix)->getZExtValue()));
                        continue;
                    }
                    int64_t sc = int64_t(
                        gDL->getTypeAllocSize(gi.getIndexedType()));
                    if (auto* k = dyn_cast<ConstantInt>(ix)) {
                        off += sc * k->getSExtValue();
                        continue;
                    }
                    c.gep.push_back({int(c.ops.size()), sc});
                    c.ops.push_back(mkOp(ix));
                }
                c.gepOff = off;
            } else if (auto* cb = dyn_cast<CallBase>(&i)) {
                for (unsigned k = 0; k < cb->arg_size(); k++)
                    c.ops.push_back(mkOp(cb->getArgOperand(k)));
                c.ops.push_back(mkOp(cb->getCalledOperand()));
            } else {
                for (auto& o : i.operands()) {
                    if (isa<BasicBlock>(o))
                        c.ops.emplace_back();
                    else
                        c.ops.push_back(mkOp(o));
                }
            }
            b.ins.push_back(std::move(c));
        }
    }
    // post-dominators over the normal-flow graph
    size_t n = fi->bbs.size();
    std::vector<std::vector<int>> succ(n);
    for (size_t i = 0; i < n; i++) {
        const Instruction* t = fi->bbs[i].b->getTerminator();
        if (auto* inv = dyn_cast<InvokeInst>(t))
            succ[i].push_back(fi->ix[inv->getNormalDest()]);
        else
            for (const BasicBlock* s : successors(fi->bbs[i].b))
                succ[i].push_back(fi->ix[s]);
    }
    // blocks which can reach a return
    std::vector<char> canRet(n, 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = n; i-- > 0;) {
            if (canRet[i]) continue;
            bool r = isa<ReturnInst>(fi->bbs[i].b->getTerminator());
            for (int s : succ[i]) r |= canRet[s];
            if (r) {
                canRet[i] = 1;
                ch = true;
            }
        }
    }
    // iterative sets (bitsets over blocks + exit)
    std::vector<std::vector<char>> pd(n, std::vector<char>(n + 1, 1));
    ch = true;
    while (ch) {
        ch = false;
        for (size_t i = n; i-- > 0;) {
            std::vector<char> s(n + 1, 0);
            bool first = true;
            for (int t : succ[i]) {
                if (!canRet[t] && canRet[i]) continue;
                if (first) {
                    s = pd[t];
                    first = false;
                } else
                    for (size_t k = 0; k <= n; k++) s[k] &= pd[t][k];
            }
            if (first) s[n] = 1;
            s[i] = 1;
            if (s != pd[i]) {
                pd[i] = s;
                ch = true;
            }
        }
    }
    for (size_t i = 0; i < n; i++) {
        // nearest strict post-dominator: the one with the largest set
        int best = -1;
        size_t bestN = 0;
        for (size_t k = 0; k < n; k++)
            if (k != i && pd[i][k]) {
                size_t cnt = 0;
                for (size_t z = 0; z <= n; z++) cnt += pd[k][z];
                if (best < 0 || cnt > bestN) {
                    best = int(k);
                    bestN = cnt;
                }
            }
        fi->bbs[i].ipdom = best;
    }
    // liveness
    size_t S = size_t(fi->nslots);
    std::vector<std::vector<char>> in(n, std::vector<char>(S, 0));
    ch = true;
    while (ch) {
        ch = false;
        for (size_t i = n; i-- > 0;) {
            std::vector<char> live(S, 0);
            for (const BasicBlock* s : successors(fi->bbs[i].b)) {
                int t = fi->ix[s];
                for (size_t k = 0; k < S; k++) live[k] |= in[t][k];
                BB& tb = fi->bbs[t];
                for (size_t p = 0; p < tb.phis.size(); p++)
                    live[tb.phiDst[p]] = 0;
                for (auto& ph : tb.phiIn)
                    for (auto& e : ph)
                        if (e.first == int(i) && e.second.slot >= 0)
                            live[e.second.slot] = 1;
            }
            BB& b = fi->bbs[i];
            for (size_t k = b.ins.size(); k-- > 0;) {
                if (b.ins[k].dst >= 0) live[b.ins[k].dst] = 0;
                for (auto& o : b.ins[k].ops)
                    if (o.slot >= 0) live[o.slot] = 1;
            }
            if (live != in[i]) {
                in[i] = live;
                ch = true;
            }
        }
    }
    for (size_t i = 0; i < n; i++) fi->bbs[i].live = in[i];
    FnInfo* r = fi.get();
    gFns[F] = std::move(fi);
    return r;
}

// ---------------------------------------------------------------- merging
typedef std::vector<Val> Env;
struct Item {
    State st;
    Env env;
    int bb = 0, pred = -1;
    size_t ix = 0;
    bool entered = false; // phis of bb already evaluated
    std::vector<uint32_t> allocas;
};
enum ArrK { A_STOP, A_RET, A_THROW };
struct Arr {
    ArrK k;
    Item it;
    Val ret;
    std::string exc;
};

static bool sameCons(const Case& a, const Cons& c)
{
    for (auto& k : a)
        if (k == c) return true;
    return false;
}
// live heap blocks newer than n: shape of the heap
static bool sameHeap(const Mem& a, const Mem& b)
{
    if (a.stack.n != b.stack.n) return false;
    size_t n = std::max(a.heap.n, b.heap.n);
    for (size_t c = 0; c * 64 < n; c++) {
        if (c < a.heap.v.size() && c < b.heap.v.size() &&
            a.heap.v[c] == b.heap.v[c])
            continue;
        for (size_t i = c * 64; i < n && i < (c + 1) * 64; i++) {
            const Region* x = i < a.heap.n ? a.heap.get(i).get() : nullptr;
            const Region* y = i < b.heap.n ? b.heap.get(i).get() : nullptr;
            bool lx = x && !x->freed, ly = y && !y->freed;
            if (lx != ly) return false;
            if (lx && x->size != y->size) return false;
        }
    }
    return true;
}

static bool looksPtr(u128 v)
{
    uint64_t a = uint64_t(v);
    uint32_t id = uint32_t(a >> OBJ_SHIFT);
    return (v >> 64) == 0 && id > 0 && id < (1u << 26) &&
           (a & (OBJ_MID)) != 0 && (id < 4096 || id >= STACK0);
}

struct Refuse {};
static uint64_t gRefusals = 0, gRefusalLimit = 48;

static void joinRegion(Region& out, const std::vector<const Region*>& rs,
                       const std::vector<const Dnf*>& cs, const Facts& f)
{
    size_t n = rs.size();
    uint64_t sz = out.size;
    uint64_t i = 0;
    while (i < sz) {
        bool same = true;
        for (size_t k = 1; k < n && same; k++)
            same = rs[k]->c[i] == rs[0]->c[i];
        if (same) {
            i++;
            continue;
        }
        // granule: largest extent that starts here in some arm
        unsigned g = 1;
        bool allConst = true;
        for (size_t k = 0; k < n; k++) {
            const Cell& c = rs[k]->c[i];
            if (c.idx > 1) {
                allConst = false;
                if (c.k == 0) {
                    unsigned w = gPool[c.idx].w / 8;
                    unsigned m = 0;
                    while (m < w && i + m < sz &&
                           rs[k]->c[i + m].idx == c.idx &&
                           rs[k]->c[i + m].k == m)
                        m++;
                    g = std::max(g, m);
                }
            } else if (c.idx == 0)
                allConst = false;
        }
        if (allConst) {
            // extend to the aligned word when all bytes are constant
            for (unsigned w = 8; w > 1; w /= 2) {
                uint64_t s = i & ~uint64_t(w - 1);
                if (s + w > sz) continue;
                bool ok = true;
                for (size_t k = 0; k < n && ok; k++)
                    for (unsigned b = 0; b < w && ok; b++)
                        ok = rs[k]->c[s + b].idx == 1;
                if (ok) {
                    i = s;
                    g = w;
                    break;
                }
            }
        }
        while (i + g > sz) g--;
        std::vector<Val> vs;
        bool ptr = false;
        for (size_t k = 0; k < n; k++) {
            vs.push_back(loadRaw(*rs[k], i, g, f));
            if (g == 8 && vs.back().k == INT && looksPtr(vs.back().c))
                ptr = true;
        }
        if (ptr && allConst) throw Refuse();
        std::vector<const Val*> pv;
        for (auto& v : vs) pv.push_back(&v);
        Val j = vjoin(pv, cs, f);
        if (gGf2) j = gf2Normalise(j, f);
        storeRaw(out, i, g, j);
        i += g;
    }
}

static bool mergeable(const Arr& a, const Arr& b)
{
    return a.k == b.k && a.k != A_THROW && sameHeap(a.it.st.mem, b.it.st.mem);
}

// merge arrivals which reached the same point; base: facts at the fork
static void mergeArr(std::vector<Arr>& as, const Facts& base,
                     const std::vector<char>* live)
{
    if (as.size() < 2) return;
    std::vector<std::vector<size_t>> groups;
    for (size_t i = 0; i < as.size(); i++) {
        bool placed = false;
        for (auto& g : groups)
            if (mergeable(as[g[0]], as[i])) {
                g.push_back(i);
                placed = true;
                break;
            }
        if (!placed) groups.push_back({i});
    }
    // exact description of every arrival, for the groups it is not part of
    std::vector<Dnf> others;
    std::vector<char> othersExact;
    bool split = groups.size() > 1;
    if (split)
        for (auto& a : as) {
            Dnf d;
            bool ex = dnfDelta(a.it.st.facts, base, d);
            others.push_back(d);
            othersExact.push_back(ex);
        }
    std::vector<Arr> out;
    for (auto& g : groups) {
        if (g.size() == 1) {
            out.push_back(std::move(as[g[0]]));
            continue;
        }
        size_t n = g.size();
        std::vector<Dnf> dl(n);
        std::vector<const Dnf*> dp;
        bool approx = base.approx;
        for (size_t i = 0; i < n; i++) {
            dnfDelta(as[g[i]].it.st.facts, base, dl[i]);
            approx |= as[g[i]].it.st.facts.approx;
        }
        for (size_t i = 0; i < n; i++) dp.push_back(&dl[i]);
        Facts nf = base;
        nf.approx = approx;
        // states which left on another way are not in this group
        for (size_t i = 0; i < others.size(); i++) {
            if (std::find(g.begin(), g.end(), i) != g.end()) continue;
            if (!othersExact[i])
                nf.approx = true;
            else
                for (auto& c : others[i])
                    if (!c.empty()) nf.excluded.push_back(c);
        }
        for (auto& k : as[g[0]].it.st.facts.cons) {
            bool all = true;
            for (size_t i = 1; i < n && all; i++)
                all = sameCons(as[g[i]].it.st.facts.cons, k);
            if (all && !sameCons(nf.cons, k)) nf.cons.push_back(k);
        }
        // excluded cases common to all arms
        for (auto& e : as[g[0]].it.st.facts.excluded) {
            bool all = true;
            for (size_t i = 1; i < n && all; i++) {
                bool has = false;
                for (auto& x : as[g[i]].it.st.facts.excluded)
                    if (x.size() == e.size() &&
                        std::equal(x.begin(), x.end(), e.begin()))
                        has = true;
                all = has;
            }
            bool inBase = false;
            for (auto& x : nf.excluded)
                if (x.size() == e.size() &&
                    std::equal(x.begin(), x.end(), e.begin()))
                    inBase = true;
            if (all && !inBase) nf.excluded.push_back(e);
        }
        const uint64_t lossy0 = gJoinLoss;
        try {
            Arr m;
            m.k = as[g[0]].k;
            m.it = as[g[0]].it; // copies share structure
            m.ret = as[g[0]].ret;
            auto joinVec = [&](PVec Mem::*pv) {
                size_t cnt = 0;
                for (size_t i = 0; i < n; i++)
                    cnt = std::max(cnt, (as[g[i]].it.st.mem.*pv).n);
                PVec& mv = m.it.st.mem.*pv;
                while (mv.n < cnt) mv.push(nullptr);
                for (size_t c = 0; c * 64 < cnt; c++) {
                    bool same = true;
                    for (size_t i = 1; i < n && same; i++) {
                        auto& x = as[g[i]].it.st.mem.*pv;
                        auto& y = as[g[0]].it.st.mem.*pv;
                        same = c < x.v.size() && c < y.v.size() &&
                               x.v[c] == y.v[c];
                    }
                    if (same) continue;
                    for (size_t r = c * 64; r < cnt && r < (c + 1) * 64;
                         r++) {
                        std::vector<const Region*> rs;
                        std::vector<const Dnf*> cs;
                        bool eq = true;
                        const Region* live1 = nullptr;
                        for (size_t i = 0; i < n; i++) {
                            auto& x = as[g[i]].it.st.mem.*pv;
                            const Region* q =
                                r < x.n ? x.get(r).get() : nullptr;
                            if (q && !q->freed) {
                                if (!rs.empty() && rs[0] != q) eq = false;
                                rs.push_back(q);
                                cs.push_back(dp[i]);
                                if (!live1) live1 = q;
                            } else if (q && !live1)
                                ;
                        }
                        if (rs.empty()) {
                            // freed everywhere
                            for (size_t i = 0; i < n; i++) {
                                auto& x = as[g[i]].it.st.mem.*pv;
                                if (r < x.n && x.get(r)) {
                                    mv.slot(r) = x.get(r);
                                    break;
                                }
                            }
                            continue;
                        }
                        if (eq) {
                            if (mv.get(r).get() != rs[0])
                                for (size_t i = 0; i < n; i++) {
                                    auto& x = as[g[i]].it.st.mem.*pv;
                                    if (r < x.n && x.get(r).get() == rs[0]) {
                                        mv.slot(r) = x.get(r);
                                        break;
                                    }
                                }
                            continue;
                        }
                        for (auto* q : rs)
                            if (q->size != rs[0]->size) throw Refuse();
                        auto nr = std::make_shared<Region>(*rs[0]);
                        joinRegion(*nr, rs, cs, nf);
                        mv.slot(r) = nr;
                    }
                }
            };
            joinVec(&Mem::glob);
            joinVec(&Mem::stack);
            joinVec(&Mem::heap);
            m.it.st.facts = nf;
            if (m.k == A_RET) {
                std::vector<const Val*> pv;
                for (size_t i = 0; i < n; i++) pv.push_back(&as[g[i]].ret);
                if (pv[0]->w) m.ret = vjoin(pv, dp, nf);
                if (gGf2) m.ret = gf2Normalise(m.ret, nf);
            } else {
                for (size_t s = 0; s < m.it.env.size(); s++) {
                    if (live && !(*live)[s]) continue;
                    std::vector<const Val*> pv;
                    for (size_t i = 0; i < n; i++)
                        pv.push_back(&as[g[i]].it.env[s]);
                    bool ptr = false, same = true;
                    for (size_t i = 0; i < n; i++) {
                        ptr |= pv[i]->k == INT && pv[i]->w == 64 &&
                               looksPtr(pv[i]->c);
                        same &= valEq(*pv[0], *pv[i]);
                    }
                    if (same) continue;
                    if (ptr) throw Refuse();
                    m.it.env[s] = vjoin(pv, dp, nf);
                    if (gGf2) m.it.env[s] = gf2Normalise(m.it.env[s], nf);
                }
            }
            // a join that forgets values is put off while few paths are open
            if (gJoinLoss != lossy0 && n <= 16 && gRefusals < gRefusalLimit) {
                gRefusals++;
                throw Refuse();
            }
            gMerges++;
            out.push_back(std::move(m));
        } catch (Refuse&) {
            for (size_t i = 0; i < n; i++) out.push_back(std::move(as[g[i]]));
        }
    }
    as = std::move(out);
}

// ---------------------------------------------------------------- execution
static std::vector<Outcome> callFn(const Function* F, std::vector<Val>&& args,
                                   State&& st);

#include "models.inc"

static void step()
{
    if (++gSteps - gStepBase > gStepLimit) throw Unsupported{"step budget exhausted in " + backtrace()};
    if ((gSteps & 0xffff) == 0 && gTimeLimit > 0) {
        double t = std::chrono::duration<double>(
                       std::chrono::steady_clock::now() - gT0)
                       .count();
        if (t > gTimeLimit) throw Unsupported{"time budget exhausted"};
    }
}

static const Val& opv(const CI& c, size_t i, const Env& env)
{
    const Opnd& o = c.ops[i];
    return o.slot >= 0 ? env[o.slot] : o.c;
}

static Val vecMap2(const Val& a, const Val& b, Type* ty,
                   const std::function<Val(const Val&, const Val&)>& fn)
{
    if (a.k != VEC || b.k != VEC) return undefOf(ty);
    std::vector<Val> e;
    auto &x = vecOf(a), &y = vecOf(b);
    for (size_t i = 0; i < x.size(); i++) e.push_back(fn(x[i], y[i]));
    return vvec(std::move(e));
}

static Op opOf(unsigned o)
{
    switch (o) {
    case Instruction::Add: return ADD;
    case Instruction::Sub: return SUB;
    case Instruction::Mul: return MUL;
    case Instruction::UDiv: return UDIV;
    case Instruction::URem: return UREM;
    case Instruction::SDiv: return SDIV;
    case Instruction::SRem: return SREM;
    case Instruction::Shl: return SHL;
    case Instruction::LShr: return LSHR;
    case Instruction::AShr: return ASHR;
    case Instruction::And: return AND;
    case Instruction::Or: return OR;
    default: return XOR;
    }
}
static Pred predOf(CmpInst::Predicate p)
{
    switch (p) {
    case CmpInst::ICMP_EQ: return EQ;
    case CmpInst::ICMP_NE: return NE;
    case CmpInst::ICMP_ULT: return ULT;
    case CmpInst::ICMP_ULE: return ULE;
    case CmpInst::ICMP_UGT: return UGT;
    case CmpInst::ICMP_UGE: return UGE;
    case CmpInst::ICMP_SLT: return SLT;
    case CmpInst::ICMP_SLE: return SLE;
    case CmpInst::ICMP_SGT: return SGT;
    default: return SGE;
    }
}

static Val bitcastTo(const Val& v, Type* ty, const Facts& f)
{
    if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
        unsigned eb = bitsOf(vt->getElementType());
        if (v.k == VEC && vecOf(v).size() == vt->getNumElements() &&
            vecOf(v)[0].w == eb)
            return v;
        std::vector<Val> e;
        for (unsigned i = 0; i < vt->getNumElements(); i++)
            e.push_back(vslice(v, i * eb, eb, f));
        return vvec(std::move(e));
    }
    if (v.k == VEC) {
        if (v.w <= 128) {
            std::vector<Val> e = vecOf(v);
            return vconcat(e, f);
        }
        return v;
    }
    if (ty->isDoubleTy() && v.k == INT) {
        Val r = v;
        r.k = FP;
        return r;
    }
    if (ty->isIntegerTy() && v.k == FP) return vint(v.c, 64);
    return v;
}

// simple (non-control, non-call) instructions
static Val evalInst(const CI& c, Env& env, State& st)
{
    const Instruction* I = c.I;
    Type* ty = I->getType();
    const Facts& f = st.facts;
    switch (c.op) {
    case Instruction::Add:
    case Instruction::Sub:
    case Instruction::Mul:
    case Instruction::UDiv:
    case Instruction::URem:
    case Instruction::SDiv:
    case Instruction::SRem:
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr:
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor: {
        Op o = opOf(c.op);
        const Val &a = opv(c, 0, env), &b = opv(c, 1, env);
        if (ty->isVectorTy())
            return vecMap2(a, b, ty, [&](const Val& x, const Val& y) {
                return binop(o, x, y, x.w, f);
            });
        if (o >= UDIV && o <= SREM && b.k == INT && b.c == 0) {
            event(st, "division", "division by zero");
            throw PathEnd();
        }
        if (o >= UDIV && o <= SREM && b.k != INT) {
            Val d = refine(b, f);
            return binop(o, a, d, c.w, f);
        }
        return binop(o, a, b, c.w, f);
    }
    case Instruction::ICmp: {
        Pred p = predOf(cast<ICmpInst>(I)->getPredicate());
        const Val &a = opv(c, 0, env), &b = opv(c, 1, env);
        if (ty->isVectorTy())
            return vecMap2(a, b, ty, [&](const Val& x, const Val& y) {
                return icmp(p, x, y, f);
            });
        return icmp(p, a, b, f);
    }
    case Instruction::Trunc: {
        const Val& a = opv(c, 0, env);
        if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
            if (a.k != VEC) return undefOf(ty);
            std::vector<Val> e;
            for (auto& x : vecOf(a))
                e.push_back(vtrunc(x, bitsOf(vt->getElementType()), f));
            return vvec(std::move(e));
        }
        return vtrunc(a, c.w, f);
    }
    case Instruction::ZExt:
    case Instruction::SExt: {
        const Val& a = opv(c, 0, env);
        bool sx = c.op == Instruction::SExt;
        if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
            if (a.k != VEC) return undefOf(ty);
            unsigned eb = bitsOf(vt->getElementType());
            std::vector<Val> e;
            for (auto& x : vecOf(a))
                e.push_back(sx ? vsext(x, eb, f) : vzext(x, eb, f));
            return vvec(std::move(e));
        }
        return sx ? vsext(a, c.w, f) : vzext(a, c.w, f);
    }
    case Instruction::PtrToInt: {
        const Val& a = opv(c, 0, env);
        if (c.w < 64) return vtrunc(a, c.w, f);
        if (c.w > 64) return vzext(a, c.w, f);
        return a;
    }
    case Instruction::IntToPtr: {
        const Val& a = opv(c, 0, env);
        if (a.w < 64) return vzext(a, 64, f);
        return a;
    }
    case Instruction::BitCast:
        return bitcastTo(opv(c, 0, env), ty, f);
    case Instruction::Freeze:
        // unspecified, but one value (the upper half of a widened register)
        if (isa<UndefValue>(I->getOperand(0))) {
            const Val u = opv(c, 0, env);
            if (u.k != VEC) return vopaque(u.w, "unspecified");
            std::vector<Val> e;
            for (auto& x : vecOf(u)) {
                if (x.w != 64) return u;
                e.push_back(vconcat({vopaque(32, "unspecified"),
                                     vopaque(32, "unspecified")},
                                    f));
            }
            return vvec(std::move(e));
        }
        return opv(c, 0, env);
    case Instruction::AddrSpaceCast:
        return opv(c, 0, env);
    case Instruction::Select: {
        const Val& s = opv(c, 0, env);
        if (s.k == VEC) {
            auto &m = vecOf(s), &x = vecOf(opv(c, 1, env)),
                 &y = vecOf(opv(c, 2, env));
            std::vector<Val> e;
            for (size_t i = 0; i < m.size(); i++)
                e.push_back(vselect(m[i], x[i], y[i], f));
            return vvec(std::move(e));
        }
        const Val &a = opv(c, 1, env), &b = opv(c, 2, env);
        int d = decide(s, f);
        if (d == 3) {
            event(st, "uninitialised", "selection on an uninitialised value");
            throw PathEnd();
        }
        if (d == 2 && (ty->isPointerTy() || a.k == UNDEF || b.k == UNDEF)) {
            NeedSplit ns;
            for (int t = 0; t < 2; t++) {
                Facts g = f;
                if (!assume(s, t, g)) continue;
                Dnf dl;
                dnfDelta(g, f, dl);
                for (auto& x : dl) {
                    if (x.empty()) return vselect(s, a, b, f);
                    ns.cases.push_back(x);
                }
            }
            if (ns.cases.size() >= 2) throw ns;
        }
        return vselect(s, a, b, f);
    }
    case Instruction::GetElementPtr: {
        const Val& b = opv(c, 0, env);
        if (b.k == VEC) return undefOf(ty);
        Val r = c.gepOff ? vaddc(b, uint64_t(c.gepOff), f) : b;
        for (auto& g : c.gep) {
            const Val& ix = opv(c, size_t(g.first), env);
            if (ix.k == INT && r.k == INT) {
                u128 s = ix.c;
                if (ix.w < 64 && ((s >> (ix.w - 1)) & 1)) s |= ~maskW(ix.w);
                r = vint(r.c + s * u128(i128(g.second)), 64);
                continue;
            }
            Val e = ix.w < 64 ? vsext(ix, 64, f) : ix;
            Val m = binop(MUL, e, vint(u128(i128(g.second)), 64), 64, f);
            r = binop(ADD, r, m, 64, f);
        }
        return r;
    }
    case Instruction::Load: {
        const Val& a = opv(c, 0, env);
        auto* L = cast<LoadInst>(I);
        if (ty->isVectorTy()) {
            Val p = need(a, st, "an address");
            uint64_t al = L->getAlign().value();
            if (al > 16 && uint64_t(p.c) % al) {
                event(st, "memory-safety",
                      "misaligned vector load (needs " + std::to_string(al) +
                          "-byte alignment)");
                throw PathEnd();
            }
        }
        return loadType(st, a, ty);
    }
    case Instruction::Store: {
        auto* S = cast<StoreInst>(I);
        Type* vt = S->getValueOperand()->getType();
        if (vt->isVectorTy()) {
            Val p = need(opv(c, 1, env), st, "an address");
            uint64_t al = S->getAlign().value();
            if (al > 16 && uint64_t(p.c) % al) {
                event(st, "memory-safety",
                      "misaligned vector store (needs " +
                          std::to_string(al) + "-byte alignment)");
                throw PathEnd();
            }
        }
        Val v = opv(c, 0, env);
        if (gGf2 && v.k != VEC)
            v = gf2Normalise(v, f);
        else if (gNormQ) {
            if (v.k == VEC) {
                std::vector<Val> e;
                // vectors of 64-bit elements hold packed lanes
                for (auto& x : vecOf(v)) {
                    if (x.k == SEG) {
                        std::vector<Val> parts;
                        for (auto& s : segOf(x).s)
                            parts.push_back(normalise(
                                vslice(s.v, s.off, s.w, f), gNormQ, f));
                        e.push_back(vconcat(parts, f));
                    } else
                        e.push_back(normalise(x, gNormQ, f));
                }
                v = vvec(std::move(e));
            } else
                v = normalise(v, gNormQ, f);
        }
        storeType(st, opv(c, 1, env), vt, v);
        return vundef(0);
    }
    case Instruction::Alloca: {
        auto* A = cast<AllocaInst>(I);
        uint64_t n = gDL->getTypeAllocSize(A->getAllocatedType());
        if (A->isArrayAllocation()) {
            Val k = need(opv(c, 0, env), st, "an allocation size");
            n *= uint64_t(k.c);
        }
        auto r = std::make_shared<Region>();
        r->kind = R_STACK;
        r->size = n;
        r->c.resize(n);
        r->name = A->getName().str();
        uint32_t id = STACK0 + uint32_t(st.mem.stack.push(r));
        return vint(addrOf(id), 64);
    }
    case Instruction::ExtractValue: {
        Val v = opv(c, 0, env);
        for (unsigned k : cast<ExtractValueInst>(I)->indices()) {
            if (v.k != VEC) return undefOf(ty);
            v = Val(vecOf(v)[k]);
        }
        return v;
    }
    case Instruction::InsertValue: {
        Val v = opv(c, 0, env);
        auto ix = cast<InsertValueInst>(I)->getIndices();
        if (ix.size() != 1) throw Unsupported{"nested insertvalue"};
        if (v.k != VEC) v = undefOf(ty);
        std::vector<Val> e = vecOf(v);
        e[ix[0]] = opv(c, 1, env);
        return vvec(std::move(e));
    }
    case Instruction::ExtractElement: {
        const Val& v = opv(c, 0, env);
        Val k = need(opv(c, 1, env), st, "a lane index");
        if (v.k != VEC || size_t(k.c) >= vecOf(v).size()) return undefOf(ty);
        return vecOf(v)[size_t(k.c)];
    }
    case Instruction::InsertElement: {
        Val v = opv(c, 0, env);
        Val k = need(opv(c, 2, env), st, "a lane index");
        if (v.k != VEC) v = undefOf(ty);
        std::vector<Val> e = vecOf(v);
        if (size_t(k.c) < e.size()) e[size_t(k.c)] = opv(c, 1, env);
        return vvec(std::move(e));
    }
    case Instruction::ShuffleVector: {
        const Val &a = opv(c, 0, env), &b = opv(c, 1, env);
        auto mask = cast<ShuffleVectorInst>(I)->getShuffleMask();
        unsigned eb = bitsOf(cast<FixedVectorType>(ty)->getElementType());
        std::vector<Val> e;
        for (int m : mask) {
            if (m < 0)
                e.push_back(vundef(eb));
            else if (size_t(m) < vecOf(a).size())
                e.push_back(vecOf(a)[size_t(m)]);
            else
                e.push_back(vecOf(b)[size_t(m) - vecOf(a).size()]);
        }
        return vvec(std::move(e));
    }
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv: {
        const Val &a = opv(c, 0, env), &b = opv(c, 1, env);
        if (a.k != FP || b.k != FP) throw Unsupported{"floating point"};
        double x = fpOf(a), y = fpOf(b);
        return vfp(c.op == Instruction::FAdd   ? x + y
                   : c.op == Instruction::FSub ? x - y
                   : c.op == Instruction::FMul ? x * y
                                               : x / y);
    }
    case Instruction::FNeg: {
        const Val& a = opv(c, 0, env);
        if (a.k != FP) throw Unsupported{"floating point"};
        return vfp(-fpOf(a));
    }
    case Instruction::UIToFP:
    case Instruction::SIToFP: {
        Val a = need(opv(c, 0, env), st, "a floating point operand");
        if (!ty->isDoubleTy()) throw Unsupported{"floating point"};
        if (c.op == Instruction::UIToFP) return vfp(double(uint64_t(a.c)));
        u128 s = a.c;
        if (a.w < 128 && ((s >> (a.w - 1)) & 1)) s |= ~maskW(a.w);
        return vfp(double(int64_t(s)));
    }
    case Instruction::FPToUI:
    case Instruction::FPToSI: {
        const Val& a = opv(c, 0, env);
        if (a.k != FP) throw Unsupported{"floating point"};
        double d = fpOf(a);
        return c.op == Instruction::FPToUI ? vint(uint64_t(d), c.w)
                                           : vint(u128(i128(int64_t(d))), c.w);
    }
    case Instruction::FCmp: {
        const Val &a = opv(c, 0, env), &b = opv(c, 1, env);
        if (a.k != FP || b.k != FP) throw Unsupported{"floating point"};
        double x = fpOf(a), y = fpOf(b);
        bool r;
        switch (cast<FCmpInst>(I)->getPredicate()) {
        case CmpInst::FCMP_OEQ:
        case CmpInst::FCMP_UEQ: r = x == y; break;
        case CmpInst::FCMP_ONE:
        case CmpInst::FCMP_UNE: r = x != y; break;
        case CmpInst::FCMP_OLT:
        case CmpInst::FCMP_ULT: r = x < y; break;
        case CmpInst::FCMP_OLE:
        case CmpInst::FCMP_ULE: r = x <= y; break;
        case CmpInst::FCMP_OGT:
        case CmpInst::FCMP_UGT: r = x > y; break;
        case CmpInst::FCMP_OGE:
        case CmpInst::FCMP_UGE: r = x >= y; break;
        default: throw Unsupported{"fcmp"};
        }
        return vint(r, 1);
    }
    case Instruction::Fence:
        return vundef(0);
    case Instruction::AtomicRMW: {
        auto* R = cast<AtomicRMWInst>(I);
        Type* vt = R->getValOperand()->getType();
        Val old = loadType(st, opv(c, 0, env), vt);
        const Val& x = opv(c, 1, env);
        Val nv;
        switch (R->getOperation()) {
        case AtomicRMWInst::Add: nv = binop(ADD, old, x, old.w, f); break;
        case AtomicRMWInst::Sub: nv = binop(SUB, old, x, old.w, f); break;
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::And: nv = binop(AND, old, x, old.w, f); break;
        case AtomicRMWInst::Or: nv = binop(OR, old, x, old.w, f); break;
        case AtomicRMWInst::Xor: nv = binop(XOR, old, x, old.w, f); break;
        default: throw Unsupported{"atomicrmw"};
        }
        storeType(st, opv(c, 0, env), vt, nv);
        return old;
    }
    case Instruction::AtomicCmpXchg: {
        auto* X = cast<AtomicCmpXchgInst>(I);
        Type* vt = X->getNewValOperand()->getType();
        Val old = loadType(st, opv(c, 0, env), vt);
        Val same = icmp(EQ, old, opv(c, 1, env), f);
        storeType(st, opv(c, 0, env), vt,
                  vselect(same, opv(c, 2, env), old, f));
        return vvec({old, same});
    }
    default:
        throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
    }
}

static void enterBlock(FnInfo* fi, Item& it)
{
    if (it.entered) return;
    BB& b = fi->bbs[it.bb];
    if (!b.phis.empty()) {
        std::vector<Val> vs;
        for (size_t p = 0; p < b.phis.size(); p++) {
            bool found = false;
            for (auto& e : b.phiIn[p])
                if (e.first == it.pred) {
                    vs.push_back(e.second.slot >= 0 ? it.env[e.second.slot]
                                                    : e.second.c);
                    found = true;
                    break;
                }
            if (!found) vs.push_back(undefOf(b.phis[p]->getType()));
        }
        for (size_t p = 0; p < b.phis.size(); p++) {
            it.env[b.phiDst[p]] =
                gGf2     ? gf2Normalise(vs[p], it.st.facts)
                : gNormQ ? normalise(vs[p], gNormQ, it.st.facts)
                         : vs[p];
        }
    }
    it.entered = true;
    it.ix = 0;
}

static int gDepth = 0;

static std::vector<Arr> runBlocks(FnInfo* fi, Item&& start, int stop);

// split the control flow: arms are (state, target)
static void forkTo(FnInfo* fi, Item& it, int from,
                   std::vector<std::pair<State, int>>&& arms, int stop,
                   std::vector<Item>& work, std::vector<Arr>& out)
{
    gForks++;
    Facts base = it.st.facts;
    int ip = fi->bbs[from].ipdom;
    std::vector<Arr> at;
    for (auto& a : arms) {
        Item n;
        n.st = std::move(a.first);
        n.env = it.env;
        n.allocas = it.allocas;
        n.bb = a.second;
        n.pred = from;
        std::vector<Arr> r = runBlocks(fi, std::move(n), ip);
        for (auto& x : r) {
            if (x.k == A_STOP)
                at.push_back(std::move(x));
            else
                out.push_back(std::move(x));
        }
    }
    if (ip < 0) {
        // returns
        mergeArr(out, base, nullptr);
        return;
    }
    mergeArr(at, base, &fi->bbs[ip].live);
    if (at.size() + work.size() + out.size() > gPartitionLimit)
        throw Unsupported{"too many path partitions"};
    for (auto& x : at) {
        if (ip == stop) {
            out.push_back(std::move(x));
        } else
            work.push_back(std::move(x.it));
    }
}

static std::vector<Arr> runBlocks(FnInfo* fi, Item&& start, int stop)
{
    std::vector<Arr> out;
    std::vector<Item> work;
    work.push_back(std::move(start));
    if (++gDepth > 3000) {
        gDepth--;
        throw Unsupported{"control nesting too deep"};
    }
    struct D {
        ~D() { gDepth--; }
    } dguard;
    while (!work.empty()) {
        Item it = std::move(work.back());
        work.pop_back();
        bool alive = true;
        while (alive) {
            // block entry
            if (!it.entered) {
                enterBlock(fi, it);
                if (it.bb == stop) {
                    Arr a;
                    a.k = A_STOP;
                    a.it = std::move(it);
                    out.push_back(std::move(a));
                    break;
                }
            }
            BB& b = fi->bbs[it.bb];
            const CI& c = b.ins[it.ix];
            step();
            gCur = c.I;
            try {
                switch (c.op) {
                case Instruction::Br: {
                    auto* br = cast<BranchInst>(c.I);
                    if (br->isUnconditional()) {
                        it.pred = it.bb;
                        it.bb = fi->ix[br->getSuccessor(0)];
                        it.entered = false;
                        break;
                    }
                    const Val& cv = opv(c, 0, it.env);
                    int d = decide(cv, it.st.facts);
                    if (d == 3) {
                        event(it.st, "uninitialised",
                              "branch on an uninitialised value");
                        throw PathEnd();
                    }
                    if (d != 2) {
                        it.pred = it.bb;
                        it.bb = fi->ix[br->getSuccessor(d ? 0 : 1)];
                        it.entered = false;
                        break;
                    }
                    std::vector<std::pair<State, int>> arms;
                    Val cond = cv;
                    for (int t = 1; t >= 0; t--) {
                        State s = it.st;
                        if (!assume(cond, t, s.facts)) continue;
                        arms.push_back(
                            {std::move(s),
                             fi->ix[br->getSuccessor(t ? 0 : 1)]});
                    }
                    if (arms.size() == 1) {
                        it.st = std::move(arms[0].first);
                        it.pred = it.bb;
                        it.bb = arms[0].second;
                        it.entered = false;
                        break;
                    }
                    alive = false;
                    if (!arms.empty())
                        forkTo(fi, it, it.bb, std::move(arms), stop, work,
                               out);
                    break;
                }
                case Instruction::Switch: {
                    auto* sw = cast<SwitchInst>(c.I);
                    Val v = refine(opv(c, 0, it.env), it.st.facts);
                    if (v.k == UNDEF) {
                        event(it.st, "uninitialised",
                              "switch on an uninitialised value");
                        throw PathEnd();
                    }
                    std::vector<std::pair<State, int>> arms;
                    State rest = it.st;
                    bool restOk = true;
                    for (auto& cs : sw->cases()) {
                        if (!restOk) break;
                        Val e = icmp(EQ, v,
                                     vint(apToU128(
                                              cs.getCaseValue()->getValue()),
                                          v.w),
                                     rest.facts);
                        int d = decide(e, rest.facts);
                        if (d == 0) continue;
                        State s = rest;
                        if (assume(e, true, s.facts))
                            arms.push_back(
                                {std::move(s),
                                 fi->ix[cs.getCaseSuccessor()]});
                        if (d == 1 || !assume(e, false, rest.facts))
                            restOk = false;
                    }
                    if (restOk)
                        arms.push_back(
                            {std::move(rest), fi->ix[sw->getDefaultDest()]});
                    if (arms.size() == 1) {
                        it.st = std::move(arms[0].first);
                        it.pred = it.bb;
                        it.bb = arms[0].second;
                        it.entered = false;
                        break;
                    }
                    alive = false;
                    if (!arms.empty())
                        forkTo(fi, it, it.bb, std::move(arms), stop, work,
                               out);
                    break;
                }
                case Instruction::Ret: {
                    Arr a;
                    a.k = A_RET;
                    if (!c.ops.empty()) a.ret = opv(c, 0, it.env);
                    a.it.st = std::move(it.st);
                    out.push_back(std::move(a));
                    alive = false;
                    break;
                }
                case Instruction::Resume: {
                    Arr a;
                    a.k = A_THROW;
                    a.it.st = std::move(it.st);
                    out.push_back(std::move(a));
                    alive = false;
                    break;
                }
                case Instruction::Unreachable:
                    alive = false;
                    break;
                case Instruction::LandingPad: {
                    std::vector<Val> e;
                    e.push_back(vint(addrOf(gGlobId[nullptr]), 64));
                    e.push_back(vopaqueR(0, 1000, 32, "eh selector"));
                    it.env[c.dst] = vvec(std::move(e));
                    it.ix++;
                    break;
                }
                case Instruction::Call:
                case Instruction::Invoke: {
                    auto* cb = cast<CallBase>(c.I);
                    std::vector<Val> args;
                    for (size_t k = 0; k + 1 < c.ops.size(); k++)
                        args.push_back(opv(c, k, it.env));
                    // byval arguments: copy
                    for (unsigned k = 0; k < cb->arg_size(); k++)
                        if (cb->isByValArgument(k)) {
                            uint64_t n = gDL->getTypeAllocSize(
                                cb->getParamByValType(k));
                            auto r = std::make_shared<Region>();
                            r->kind = R_STACK;
                            r->size = n;
                            r->c.resize(n);
                            r->name = "byval";
                            Val src = need(args[k], it.st, "an address");
                            uint32_t sid;
                            int64_t so;
                            checkAccess(it.st, uint64_t(src.c), n, false, sid,
                                        so);
                            const Region* sr = regionAt(it.st.mem, sid);
                            for (uint64_t z = 0; z < n; z++)
                                r->c[z] = sr->c[uint64_t(so) + z];
                            uint32_t id =
                                STACK0 + uint32_t(it.st.mem.stack.push(r));
                            args[k] = vint(addrOf(id), 64);
                        }
                    std::vector<Outcome> os;
                    const Function* callee = cb->getCalledFunction();
                    if (cb->isInlineAsm()) {
                        os.resize(1);
                        os[0].st = std::move(it.st);
                        os[0].ret =
                            c.dst >= 0
                                ? opaqueOf(cb->getType(), "inline asm")
                                : vundef(0);
                    } else {
                        if (!callee) {
                            Val cv = need(opv(c, c.ops.size() - 1, it.env),
                                          it.st, "a call target");
                            uint32_t id;
                            int64_t off;
                            splitAddr(uint64_t(cv.c), id, off);
                            const Region* r = regionAt(it.st.mem, id);
                            if (!r || r->kind != R_FUNC || off != 0) {
                                event(it.st, "memory-safety",
                                      "call through an invalid pointer");
                                throw PathEnd();
                            }
                            callee = r->fn;
                        }
                        gStack.push_back(c.I);
                        struct P {
                            ~P() { gStack.pop_back(); }
                        } pop;
                        if (!model(callee, cb, args, it.st, os)) {
                            if (callee->isDeclaration()) {
                                throw Unsupported{
                                    "call of external function " +
                                    demangle(callee->getName().str())};
                            }
                            os = callFn(callee, std::move(args),
                                        std::move(it.st));
                        }
                    }
                    gCur = c.I;
                    auto* inv = dyn_cast<InvokeInst>(cb);
                    if (os.empty()) {
                        alive = false;
                        break;
                    }
                    size_t n = os.size();
                    Item saved;
                    if (n > 1) {
                        saved.env = it.env;
                        saved.allocas = it.allocas;
                        saved.bb = it.bb;
                        saved.pred = it.pred;
                        saved.ix = it.ix;
                        saved.entered = true;
                    }
                    bool used = false;
                    for (size_t k = 0; k < n; k++) {
                        Item* t;
                        Item tmp;
                        if (!used && k + 1 == n) {
                            t = &it;
                            used = true;
                        } else {
                            tmp = saved;
                            t = &tmp;
                        }
                        t->st = std::move(os[k].st);
                        bool dead = false;
                        if (os[k].threw) {
                            if (inv) {
                                t->pred = t->bb;
                                t->bb = fi->ix[inv->getUnwindDest()];
                                t->entered = false;
                            } else {
                                Arr a;
                                a.k = A_THROW;
                                a.exc = os[k].exc;
                                a.it.st = std::move(t->st);
                                out.push_back(std::move(a));
                                dead = true;
                            }
                        } else {
                            if (c.dst >= 0) t->env[c.dst] = os[k].ret;
                            if (inv) {
                                t->pred = t->bb;
                                t->bb = fi->ix[inv->getNormalDest()];
                                t->entered = false;
                            } else
                                t->ix++;
                        }
                        if (t == &it) {
                            if (dead) alive = false;
                        } else if (!dead) {
                            work.push_back(std::move(tmp));
                            if (work.size() > gPartitionLimit)
                                throw Unsupported{"too many path partitions"};
                        }
                    }
                    break;
                }
                default: {
                    Val v = evalInst(c, it.env, it.st);
                    if (c.dst >= 0) it.env[c.dst] = std::move(v);
                    it.ix++;
                }
                }
            } catch (PathEnd&) {
                gEndedPaths++;
                alive = false;
            } catch (NeedSplit& ns) {
                gForks++;
                for (auto& cs : ns.cases) {
                    Item n = it;
                    bool ok = true;
                    for (auto& k : cs)
                        ok &= addCons(n.st.facts.cons, k.p, k.lo, k.hi,
                                      n.st.facts);
                    if (!ok) continue;
                    work.push_back(std::move(n));
                }
                if (work.size() > gPartitionLimit)
                    throw Unsupported{"too many path partitions"};
                alive = false;
            }
        }
    }
    return out;
}

static std::vector<Outcome> callFn(const Function* F, std::vector<Val>&& args,
                                   State&& st)
{
    if (gStack.size() > 400) throw Unsupported{"recursion too deep"};
    FnInfo* fi = getFn(F);
    gVisitedFns.insert(F);
    gCalls++;
    Item it;
    it.env.resize(size_t(fi->nslots));
    size_t k = 0;
    for (auto& a : F->args()) {
        if (k < args.size()) it.env[fi->slot[&a]] = std::move(args[k]);
        k++;
    }
    size_t sp = st.mem.stack.n;
    Facts base = st.facts;
    it.st = std::move(st);
    it.bb = 0;
    std::vector<Arr> as = runBlocks(fi, std::move(it), -1);
    // drop the frame
    for (auto& a : as) {
        Mem& m = a.it.st.mem;
        while (m.stack.n > sp) {
            m.stack.slot(m.stack.n - 1) = nullptr;
            m.stack.n--;
        }
    }
    mergeArr(as, base, nullptr);
    gMaxPaths = std::max<uint64_t>(gMaxPaths, as.size());
    std::vector<Outcome> os;
    for (auto& a : as) {
        Outcome o;
        o.st = std::move(a.it.st);
        o.ret = a.ret;
        o.threw = a.k == A_THROW;
        o.exc = a.exc;
        os.push_back(std::move(o));
    }
    return os;
}

static void setupGlobals(State& st)
{
    // id 0 is never valid; id 1: exception object
    st.mem.glob.push(std::make_shared<Region>());
    {
        auto r = std::make_shared<Region>();
        r->kind = R_GLOBAL;
        r->size = 256;
        r->c.resize(256);
        r->name = "exception";
        for (auto& c : r->c) c.idx = 1;
        st.mem.glob.push(r);
        gGlobId[nullptr] = 1;
        // counts down to the allocation which fails
        r = std::make_shared<Region>();
        r->kind = R_GLOBAL;
        r->size = 8;
        r->c.resize(8);
        r->name = "fault counter";
        for (auto& c : r->c) c.idx = 1;
        gFault = addrOf(uint32_t(st.mem.glob.push(r)));
    }
    for (auto& F : *gM) {
        auto r = std::make_shared<Region>();
        r->kind = R_FUNC;
        r->fn = &F;
        r->name = F.getName().str();
        gGlobId[&F] = uint32_t(st.mem.glob.push(r));
    }
    for (auto& G : gM->globals()) {
        auto r = std::make_shared<Region>();
        r->kind = R_GLOBAL;
        Type* t = G.getValueType();
        r->size = t->isSized() ? uint64_t(gDL->getTypeAllocSize(t)) : 0;
        if (G.isDeclaration()) r->size = std::max<uint64_t>(r->size, 512);
        r->c.resize(r->size);
        r->name = demangle(G.getName().str());
        gGlobId[&G] = uint32_t(st.mem.glob.push(r));
    }
    for (auto& G : gM->globals()) {
        Region& r = rawRegion(st.mem, gGlobId[&G]);
        if (G.hasInitializer()) {
            initInto(r, 0, G.getInitializer());
            r.ro = G.isConstant();
        } else {
            for (auto& c : r.c) {
                c.idx = 1;
                c.b = 0;
            }
        }
    }
}

} // namespace qai

using namespace qai;

int main(int argc, char** argv)
{
    if (getenv("QAI_TRACE"))
        gOpaqueHook = [](const std::string& w) {
            if (w != "bitwise" && w != "clock" && w != "inline asm") fprintf(stderr, "OPAQUE %s %s\n", w.c_str(), backtrace().c_str());
        };

    std::string file;
    std::vector<std::string> runs;
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--run")
            runs.push_back(argv[++i]);
        else if (a == "--list")
            list = true;
        else if (a == "--steps")
            gStepLimit = strtoull(argv[++i], nullptr, 10);
        else if (a == "--time")
            gTimeLimit = atof(argv[++i]);
        else if (a == "--trace")
            gTrace = true;
        else
            file = a;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> M = parseIRFile(file, err, ctx);
    if (!M) {
        err.print("qai", errs());
        return 2;
    }
    if (list) {
        for (auto& F : *M)
            if (!F.isDeclaration() && F.getName().starts_with("qah_"))
                outs() << F.getName() << "\n";
        return 0;
    }
    gM = M.get();
    gDL = &M->getDataLayout();
    gT0 = std::chrono::steady_clock::now();

    State st0;
    setupGlobals(st0);
    // static initialisers
    try {
        if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) {
            std::vector<std::pair<uint64_t, Function*>> cs;
            if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (auto& o : arr->operands()) {
                    auto* s = cast<ConstantStruct>(o);
                    cs.push_back(
                        {cast<ConstantInt>(s->getOperand(0))->getZExtValue(),
                         dyn_cast<Function>(
                             s->getOperand(1)->stripPointerCasts())});
                }
            std::stable_sort(cs.begin(), cs.end(),
                             [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& c : cs)
                if (c.second) {
                    auto os = callFn(c.second, {}, std::move(st0));
                    if (os.size() != 1) {
                        errs() << "static initialiser did not complete\n";
                        return 2;
                    }
                    st0 = std::move(os[0].st);
                }
        }
    } catch (Unsupported& u) {
        errs() << "static initialiser: " << u.why << " at " << backtrace()
               << "\n";
        return 2;
    }

    for (auto& name : runs) {
        Function* F = M->getFunction(name);
        if (!F || F->isDeclaration()) {
            outs() << "{\"harness\":\"" << name
                   << "\",\"error\":\"no such harness\"}\n";
            continue;
        }
        gHarness = name;
        gObs.clear();
        gObOrder.clear();
        gSteps = gStepBase = gForks = gMerges = gCalls = gMaxPaths = 0;
        gDonePaths = gEndedPaths = 0;
        gScope.clear();
        gVisitedFns.clear();
        gNormQ = 0;
        gGf2 = false;
        gf2Reset();
        gOpaqueCount = 0;
        gOpaqueWhy.clear();
        gRefusals = 0;
        gT0 = std::chrono::steady_clock::now();
        State st = st0;
        size_t paths = 0;
        gStack.clear();
        gDepth = 0;
        try {
            auto os = callFn(F, {}, std::move(st));
            paths = os.size();
            for (auto& o : os)
                if (o.threw)
                    event(o.st, "exception",
                          "exception escapes: " + o.exc);
        } catch (Unsupported& u) {
            unsupported(u.why);
        } catch (Overflow&) {
            unsupported("polynomial overflow");
        }
        double t = std::chrono::duration<double>(
                       std::chrono::steady_clock::now() - gT0)
                       .count();
        std::string fns;
        std::set<std::string> rf;
        for (auto* f : gVisitedFns) {
            if (auto* sp = f->getSubprogram()) {
                std::string fn = sp->getFilename().str();
                if (fn.find("/repo/src/") != std::string::npos)
                    rf.insert(demangle(f->getName().str()));
            }
        }
        int n = 0;
        for (auto& f : rf) {
            if (n++) fns += ",";
            fns += "\"" + jesc(f.substr(0, 160)) + "\"";
        }
        std::string obs;
        for (auto& l : gObOrder) {
            auto& o = gObs[l];
            if (!obs.empty()) obs += ",";
            obs += "{\"label\":\"" + jesc(l) +
                   "\",\"ok\":" + std::to_string(o.ok) +
                   ",\"viol\":" + std::to_string(o.viol) +
                   ",\"undec\":" + std::to_string(o.undec) + ",\"msg\":\"" +
                   jesc(o.msg.substr(0, 3000)) + "\"}";
        }
        std::string why;
        for (auto& kv : gOpaqueWhy) {
            if (!why.empty()) why += ",";
            why += "\"" + jesc(kv.first) + "\":" + std::to_string(kv.second);
        }
        char tb[32];
        snprintf(tb, sizeof tb, "%.2f", t);
        outs() << "{\"harness\":\"" << name << "\",\"paths\":" << paths
               << ",\"ended\":" << gEndedPaths << ",\"done\":" << gDonePaths
               << ",\"steps\":" << gSteps << ",\"calls\":" << gCalls
               << ",\"forks\":" << gForks << ",\"merges\":" << gMerges
               << ",\"symbols\":" << gSyms.size() << ",\"opaque\":{" << why
               << "},\"time\":" << tb << ",\"obligations\":[" << obs
               << "],\"functions\":[" << fns << "]}\n";
        outs().flush();
    }
    return 0;
}
