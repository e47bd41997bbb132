// Rules over the call graph and the statements of the library, on LLVM IR.
//
//   qacg MODULE --src DIR --rule throw|effects|assert
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>

using namespace llvm;

static Module* gM;
static const DataLayout* gDL;
static std::string gSrc;

static std::string jesc(const std::string& s)
{
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\';
        if ((unsigned char)c < 32) {
            o += ' ';
            continue;
        }
        o += c;
    }
    return o;
}
static std::string nice(const Function* F)
{
    std::string s = demangle(F->getName().str());
    return s.size() > 160 ? s.substr(0, 160) + "..." : s;
}
static std::string path(const DIFile* f)
{
    std::string n = f->getFilename().str();
    if (n.empty() || n[0] == '/') return n;
    return f->getDirectory().str() + "/" + n;
}
static std::string srcFile(const Function* F)
{
    auto* sp = F->getSubprogram();
    if (!sp) return "";
    return path(sp->getFile());
}
static bool inRepo(const Function* F)
{
    return srcFile(F).find(gSrc) == 0;
}
static std::string where(const Instruction* I)
{
    const DebugLoc& l = I->getDebugLoc();
    if (!l) return nice(I->getFunction());
    std::string f = path(l->getScope()->getFile());
    if (f.find(gSrc) == 0) f = f.substr(gSrc.size());
    return f + ":" + std::to_string(l.getLine());
}

struct Finding {
    std::string label, msg;
};
static std::vector<Finding> gViol, gUndec;
static size_t gObl, gOk;
static std::set<std::string> gSeenMsg;
static void viol(const std::string& l, const std::string& m)
{
    if (gSeenMsg.insert(l + m).second) gViol.push_back({l, m});
}
static void undec(const std::string& l, const std::string& m)
{
    if (gSeenMsg.insert(l + m).second) gUndec.push_back({l, m});
}

// ------------------------------------------------------------- call graph
struct VEntry {
    const GlobalVariable* vt;
    uint64_t off; // address point
};
static std::map<const Metadata*, std::vector<VEntry>> gTypes;

static const Constant* vtEntry(const Constant* C, uint64_t off)
{
    while (true) {
        if (auto* s = dyn_cast<ConstantStruct>(C)) {
            auto* sl = gDL->getStructLayout(s->getType());
            if (off >= sl->getSizeInBytes()) return nullptr;
            unsigned i = sl->getElementContainingOffset(off);
            off -= sl->getElementOffset(i);
            C = s->getOperand(i);
        } else if (auto* a = dyn_cast<ConstantArray>(C)) {
            uint64_t es = gDL->getTypeAllocSize(a->getType()->getElementType());
            uint64_t i = off / es;
            if (i >= a->getNumOperands()) return nullptr;
            off -= i * es;
            C = a->getOperand(unsigned(i));
        } else
            return off ? nullptr : C;
    }
}

static void indexTypes()
{
    for (auto& G : gM->globals()) {
        SmallVector<MDNode*, 4> ts;
        G.getMetadata(LLVMContext::MD_type, ts);
        for (auto* t : ts) {
            uint64_t off = mdconst::extract<ConstantInt>(t->getOperand(0))->getZExtValue();
            gTypes[t->getOperand(1).get()].push_back({&G, off});
        }
    }
}

// the value a local holds when it is only ever loaded and stored
static const Value* strip(const Value* V)
{
    return V->stripPointerCastsAndAliases();
}

struct Callees {
    std::vector<const Function*> fs;
    bool exact = true;
};
static std::map<const CallBase*, Callees> gCallees;

// a load from a vtable: load ptr, gep(vt, slot), vt = load ptr, obj
static bool virtualCall(const CallBase* CB, Callees& out)
{
    const Value* fp = CB->getCalledOperand();
    auto* L = dyn_cast<LoadInst>(fp);
    if (!L) return false;
    const Value* p = L->getPointerOperand();
    int64_t slot = 0;
    if (auto* g = dyn_cast<GEPOperator>(p)) {
        APInt o(64, 0);
        if (!g->accumulateConstantOffset(*gDL, o)) return false;
        slot = o.getSExtValue();
        p = g->getPointerOperand();
    }
    const Metadata* type = nullptr;
    for (auto* U : p->users())
        if (auto* c = dyn_cast<CallInst>(U))
            if (auto* f = c->getCalledFunction())
                if (f->getName() == "llvm.type.test" ||
                    f->getName() == "llvm.public.type.test") {
                    auto* mv = cast<MetadataAsValue>(c->getArgOperand(1));
                    type = mv->getMetadata();
                }
    if (!type) return false;
    std::set<const Function*> s;
    for (auto& e : gTypes[type]) {
        if (!e.vt->hasInitializer()) {
            out.exact = false;
            continue;
        }
        const Constant* c = vtEntry(e.vt->getInitializer(), e.off + uint64_t(slot));
        if (!c) continue;
        if (auto* f = dyn_cast<Function>(c->stripPointerCastsAndAliases())) s.insert(f);
    }
    out.fs.assign(s.begin(), s.end());
    return true;
}

static const Callees& callees(const CallBase* CB)
{
    auto it = gCallees.find(CB);
    if (it != gCallees.end()) return it->second;
    Callees c;
    if (CB->isInlineAsm()) {
    } else if (auto* f = dyn_cast<Function>(strip(CB->getCalledOperand())))
        c.fs.push_back(f);
    else if (!virtualCall(CB, c)) {
        // any function of that type whose address is taken
        c.exact = false;
        for (auto& F : *gM)
            if (F.hasAddressTaken() && F.getFunctionType() == CB->getFunctionType() &&
                !F.isDeclaration()) {
                bool onlyVt = true;
                for (auto* U : F.users())
                    if (!isa<Constant>(U) && !(isa<CallBase>(U) && cast<CallBase>(U)->getCalledOperand() == &F))
                        onlyVt = false;
                if (!onlyVt) c.fs.push_back(&F);
            }
    }
    return gCallees[CB] = c;
}

static bool isDbg(const Instruction& I)
{
    return isa<DbgInfoIntrinsic>(I);
}

// ------------------------------------------------------------- rule: throw
static const std::map<std::string, const char*> THROWERS = {
    {"_Znwm", "_ZTISt9bad_alloc"},
    {"_Znam", "_ZTISt9bad_alloc"},
    {"_ZnwmSt11align_val_t", "_ZTISt9bad_alloc"},
    {"_ZnamSt11align_val_t", "_ZTISt9bad_alloc"},
    {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"},
    {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
    {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
    {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
    {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
    {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
    {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"},
    {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
    {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
    {"__cxa_bad_cast", "_ZTISt8bad_cast"},
    {"__cxa_bad_typeid", "_ZTISt10bad_typeid"},
};
static const std::map<std::string, const char*> STDBASE = {
    {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11logic_error", "_ZTISt9exception"},
    {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"},
    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt10bad_typeid", "_ZTISt9exception"},
};
static bool derives(const std::string& t, const std::string& base, int depth = 0)
{
    if (t == base) return true;
    if (depth > 12) return false;
    auto it = STDBASE.find(t);
    if (it != STDBASE.end() && derives(it->second, base, depth + 1)) return true;
    if (auto* G = gM->getNamedGlobal(t))
        if (G->hasInitializer())
            if (auto* s = dyn_cast<ConstantStruct>(G->getInitializer()))
                for (unsigned i = 2; i < s->getNumOperands(); i++)
                    if (auto* g = dyn_cast<GlobalVariable>(
                            s->getOperand(i)->stripPointerCasts()))
                        if (g->getName().starts_with("_ZTI") &&
                            derives(g->getName().str(), base, depth + 1))
                            return true;
    return false;
}
static std::string typeName(const std::string& t)
{
    std::string d = demangle(t);
    if (d.find("typeinfo for ") == 0) d = d.substr(13);
    return d;
}

// functions of the run-time libraries which never throw
static bool quietExternal(const Function* F)
{
    StringRef n = F->getName();
    if (F->doesNotThrow() || F->isIntrinsic()) return true;
    static const char* Q[] = {
        "memcpy", "memset", "memmove", "memcmp", "strlen", "free", "malloc",
        "calloc", "realloc", "aligned_alloc", "posix_memalign", "htonl", "ntohl",
        "gettimeofday", "clock_gettime", "printf", "fprintf", "puts", "putchar",
        "snprintf", "sprintf", "abort", "exit", "_exit", "fwrite", "fflush",
        "log2", "log", "sqrt", "pow", "ceil", "floor", "atoi", "getenv"};
    for (auto* q : Q)
        if (n == q) return true;
    if (n.starts_with("__cxa_")) return true;
    if (n.starts_with("_Zd")) return true; // operator delete
    std::string d = demangle(n.str());
    // streams report through their state
    if (d.find("basic_ostream") != std::string::npos ||
        d.find("basic_istream") != std::string::npos ||
        d.find("basic_ios") != std::string::npos || d.find("std::ios") == 0 ||
        d.find("std::istream") == 0 || d.find("std::ostream") == 0)
        return true;
    if (d.find("std::__detail") == 0 || d.find("std::_Rb_tree_") == 0) return true;
    if (d.find("~") != std::string::npos) return true;
    if (d.find("::what() const") != std::string::npos) return true;
    return false;
}

typedef std::map<std::string, const Instruction*> Throws; // type -> source
static std::map<const Function*, Throws> gThrows;

static bool padFilters(const LandingPadInst* LP, const std::string& t)
{
    for (unsigned i = 0; i < LP->getNumClauses(); i++) {
        if (!LP->isCatch(i)) continue;
        auto* c = LP->getClause(i)->stripPointerCasts();
        if (isa<ConstantPointerNull>(c)) return true;
        if (t == "?") continue;
        if (derives(t, c->getName().str())) return true;
    }
    return false;
}

// is the exception which arrives at the pad dropped by termination?
static bool terminates(const LandingPadInst* LP)
{
    for (auto& I : *LP->getParent())
        if (auto* c = dyn_cast<CallBase>(&I))
            if (auto* f = c->getCalledFunction())
                if (f->getName() == "__clang_call_terminate") return true;
    return false;
}

static void throwsOfCall(const CallBase* CB, const std::map<const Function*, Throws>& cur,
                         std::set<std::string>& out)
{
    if (CB->doesNotThrow()) return;
    const Callees& cs = callees(CB);
    for (auto* f : cs.fs) {
        std::string n = f->getName().str();
        if (n == "__cxa_throw") {
            auto* ti = CB->getArgOperand(1)->stripPointerCasts();
            out.insert(ti->getName().str());
            continue;
        }
        if (n == "__cxa_rethrow") {
            // whatever reached a pad of this function
            for (auto& I : instructions(CB->getFunction()))
                if (auto* iv = dyn_cast<InvokeInst>(&I)) {
                    if (iv->getCalledFunction() &&
                        iv->getCalledFunction()->getName() == "__cxa_rethrow")
                        continue;
                    std::set<std::string> in;
                    throwsOfCall(iv, cur, in);
                    for (auto& t : in)
                        if (padFilters(iv->getLandingPadInst(), t)) out.insert(t);
                }
            continue;
        }
        auto it = THROWERS.find(n);
        if (it != THROWERS.end()) {
            out.insert(it->second);
            continue;
        }
        if (f->isDeclaration()) {
            if (!quietExternal(f)) out.insert("?");
            continue;
        }
        if (f->doesNotThrow()) continue;
        auto ct = cur.find(f);
        if (ct != cur.end())
            for (auto& kv : ct->second) out.insert(kv.first);
    }
    if (!cs.exact && cs.fs.empty()) out.insert("?");
}

static void computeThrows()
{
    // callers, for the worklist
    std::map<const Function*, std::set<const Function*>> callers;
    std::deque<const Function*> work;
    std::set<const Function*> in;
    for (auto& F : *gM) {
        if (F.isDeclaration()) continue;
        for (auto& I : instructions(F))
            if (auto* cb = dyn_cast<CallBase>(&I))
                for (auto* f : callees(cb).fs) callers[f].insert(&F);
        work.push_back(&F);
        in.insert(&F);
    }
    while (!work.empty()) {
        auto* F = work.front();
        work.pop_front();
        in.erase(F);
        Throws& T = gThrows[F];
        bool changed = false;
        for (auto& I : instructions(const_cast<Function*>(F))) {
            auto* cb = dyn_cast<CallBase>(&I);
            if (!cb) continue;
            std::set<std::string> s;
            throwsOfCall(cb, gThrows, s);
            if (s.empty()) continue;
            const LandingPadInst* LP = nullptr;
            if (auto* iv = dyn_cast<InvokeInst>(cb)) LP = iv->getLandingPadInst();
            for (auto& t : s) {
                if (LP && (padFilters(LP, t) || terminates(LP))) continue;
                if (T.insert({t, cb}).second) changed = true;
            }
        }
        if (changed)
            for (auto* c : callers[F])
                if (in.insert(c).second) work.push_back(c);
    }
}

static std::string throwPath(const Function* F, const std::string& t)
{
    std::string s = nice(F);
    std::set<const Function*> seen;
    for (int i = 0; i < 40 && seen.insert(F).second; i++) {
        auto it = gThrows[F].find(t);
        if (it == gThrows[F].end()) break;
        auto* cb = cast<CallBase>(it->second);
        s += " -> " + where(cb);
        const Function* next = nullptr;
        for (auto* f : callees(cb).fs) {
            if (f->isDeclaration()) {
                s += " " + nice(f);
                return s;
            }
            if (gThrows.count(f) && gThrows[f].count(t)) next = f;
        }
        if (!next) break;
        s += " " + nice(next);
        F = next;
    }
    return s;
}

static void ruleThrow()
{
    computeThrows();
    size_t reach = 0;
    for (auto& F : *gM) {
        if (F.isDeclaration() || !F.getName().starts_with("quadiron_")) continue;
        auto* sp = F.getSubprogram();
        if (!sp || !inRepo(&F)) continue;
        // one obligation per call site of the operation
        for (auto& I : instructions(F)) {
            auto* cb = dyn_cast<CallBase>(&I);
            if (!cb || isa<IntrinsicInst>(cb)) continue;
            std::set<std::string> s;
            throwsOfCall(cb, gThrows, s);
            gObl++;
            reach += !s.empty();
            const LandingPadInst* LP = nullptr;
            if (auto* iv = dyn_cast<InvokeInst>(cb)) LP = iv->getLandingPadInst();
            bool ok = true;
            for (auto& t : s) {
                if (LP && padFilters(LP, t)) continue;
                ok = false;
                std::string via;
                for (auto* f : callees(cb).fs)
                    if (gThrows.count(f) && gThrows[f].count(t)) via = throwPath(f, t);
                std::string m = F.getName().str() + " lets " +
                                (t == "?" ? std::string("an exception of unknown type") : typeName(t)) +
                                " escape from " + where(cb) +
                                (via.empty() ? "" : " through " + via);
                if (t == "?")
                    undec("no exception leaves the C interface", m);
                else if (LP && terminates(LP))
                    viol("no exception leaves the C interface",
                         F.getName().str() + " terminates when " + typeName(t) + " arrives from " + where(cb));
                else
                    viol("no exception leaves the C interface", m);
            }
            gOk += ok;
        }
    }
    outs() << "\"throwing_call_sites\":" << reach << ",";
}

// ----------------------------------------------------------- rule: effects
static bool diagName(const Function* F)
{
    auto* sp = F->getSubprogram();
    StringRef n = sp ? sp->getName() : F->getName();
    return n.starts_with("dump") || n.contains("_dump") ||
           n.starts_with("operator<<") || n.starts_with("operator>>") ||
           n.starts_with("row_dump") || n.starts_with("print") || n.starts_with("show_") ||
           n == "compute_omegas_cached";
}
static bool randName(const Function* F)
{
    auto* sp = F->getSubprogram();
    StringRef n = sp ? sp->getName() : F->getName();
    n = n.substr(0, n.find('<'));
    return n == "rand" || n == "prng" || n == "weighted_rand" || n.ends_with("_rand");
}

static const char* FORBIDDEN[] = {
    "exit", "_exit", "_Exit", "quick_exit", "abort", "raise", "kill", "signal", "sigaction",
    "printf", "puts", "putchar", "vprintf", "fprintf", "vfprintf", "fwrite", "fputs", "fputc",
    "putc", "perror", "write", "dprintf", "open", "open64", "fopen", "fopen64", "creat", "unlink", "remove",
    "rename", "mkdir", "rmdir", "read", "fread", "getline", "scanf", "fscanf", "getchar",
    "getenv", "setenv", "putenv", "unsetenv", "secure_getenv", "system", "popen", "fork",
    "execve", "execvp", "execl", "socket", "connect", "send", "recv", "chdir", "tmpfile",
    "mkstemp", "sleep", "usleep", "nanosleep", "setlocale", "srand", "rand", "random", "srandom",
    "rand_r", "drand48", "lrand48", "getrandom", "getentropy", "time", "clock", "syslog",
    "std::terminate()", "std::unexpected()"};
static bool forbidden(const Function* F, std::string& why)
{
    std::string n = F->getName().str();
    if (!F->isDeclaration()) return false;
    for (auto* f : FORBIDDEN)
        if (n == f || demangle(n) == f) {
            why = n;
            return true;
        }
    std::string d = demangle(n);
    for (auto* p : {"std::random_device", "std::basic_ofstream", "std::basic_ifstream",
                    "std::basic_fstream", "std::basic_filebuf", "std::locale::global",
                    "std::this_thread", "std::thread", "std::async"})
        if (d.find(p) != std::string::npos) {
            why = d;
            return true;
        }
    return false;
}
static bool isClock(const Function* F)
{
    std::string n = F->getName().str();
    std::string d = demangle(n);
    return n == "gettimeofday" || n == "clock_gettime" || n == "llvm.readcyclecounter" ||
           n.find("llvm.x86.rdtsc") == 0 ||
           (d.find("std::chrono") == 0 && d.find("::now()") != std::string::npos);
}
static bool constType(const DIType* t)
{
    while (t) {
        if (t->getTag() == dwarf::DW_TAG_const_type) return true;
        if (auto* c = dyn_cast<DICompositeType>(t)) {
            if (c->getTag() != dwarf::DW_TAG_array_type) return false;
            t = c->getBaseType();
        } else if (auto* d = dyn_cast<DIDerivedType>(t)) {
            if (d->getTag() != dwarf::DW_TAG_typedef) return false;
            t = d->getBaseType();
        } else
            return false;
    }
    return false;
}
static bool mutableGlobal(const GlobalVariable* G)
{
    if (G->isConstant()) return false;
    StringRef n = G->getName();
    if (n.starts_with("_ZT") || n.starts_with("__dso_handle") || n.starts_with("llvm.") ||
        n.contains("__ioinit") || n.starts_with("_ZGV"))
        return false;
    SmallVector<DIGlobalVariableExpression*, 2> es;
    G->getDebugInfo(es);
    for (auto* e : es)
        if (constType(e->getVariable()->getType())) return false;
    return true;
}
static bool stdStream(const GlobalVariable* G)
{
    StringRef n = G->getName();
    return n == "_ZSt4cout" || n == "_ZSt4cerr" || n == "_ZSt4clog" || n == "_ZSt3cin" ||
           n == "stdout" || n == "stderr" || n == "stdin";
}

static void globalsOf(const Value* V, std::set<const GlobalVariable*>& s, int d = 0)
{
    if (auto* g = dyn_cast<GlobalVariable>(V)) {
        s.insert(g);
        return;
    }
    if (d > 6) return;
    if (auto* ce = dyn_cast<ConstantExpr>(V))
        for (auto& o : ce->operands()) globalsOf(o, s, d + 1);
}

static std::set<const Function*> gDiag; // diagnostics and sources of random data
static std::map<const Function*, const Instruction*> gFrom; // reached by
static std::vector<const Function*> gReach;

static std::string reachPath(const Function* F)
{
    std::vector<std::string> p;
    for (int i = 0; i < 12; i++) {
        auto it = gFrom.find(F);
        if (it == gFrom.end() || !it->second) break;
        p.push_back(where(it->second));
        F = it->second->getFunction();
    }
    std::string s = nice(F);
    for (size_t i = p.size(); i--;) s += " -> " + p[i];
    return s;
}

static void computeReach()
{
    std::map<const Function*, std::set<const Function*>> callers;
    std::vector<const Function*> repo;
    for (auto& F : *gM) {
        if (F.isDeclaration()) continue;
        for (auto& I : instructions(F))
            if (auto* cb = dyn_cast<CallBase>(&I))
                for (auto* f : callees(cb).fs) callers[f].insert(&F);
        if (inRepo(&F)) repo.push_back(&F);
    }
    // diagnostics: by name, and helpers which only they call
    for (auto& F : *gM)
        if (!F.isDeclaration() && inRepo(&F) && (diagName(&F) || randName(&F))) gDiag.insert(&F);
    for (bool ch = true; ch;) {
        ch = false;
        for (auto& F : *gM) {
            if (F.isDeclaration() || gDiag.count(&F)) continue;
            auto it = callers.find(&F);
            if (it == callers.end()) continue;
            bool all = true, any = false;
            for (auto* c : it->second) {
                if (c == &F) continue;
                any = true;
                if (!gDiag.count(c)) all = false;
            }
            if (any && all) {
                gDiag.insert(&F);
                ch = true;
            }
        }
    }
    std::deque<const Function*> w;
    for (auto* F : repo)
        if (!gDiag.count(F)) {
            gFrom[F] = nullptr;
            w.push_back(F);
        }
    while (!w.empty()) {
        auto* F = w.front();
        w.pop_front();
        gReach.push_back(F);
        for (auto& I : instructions(const_cast<Function*>(F))) {
            auto* cb = dyn_cast<CallBase>(&I);
            if (!cb) continue;
            for (auto* f : callees(cb).fs) {
                if (f->isDeclaration()) continue;
                // a coding operation which calls one of them is looked at below
                if (gDiag.count(f)) continue;
                if (gFrom.count(f)) continue;
                gFrom[f] = &I;
                w.push_back(f);
            }
        }
    }
}

// ---- flow of clock readings
// A place is a local (alloca), a field of a class (struct type, offset) or
// anything else.
struct Place {
    const AllocaInst* a = nullptr;
    const Type* t = nullptr;
    uint64_t off = 0;
    bool operator<(const Place& o) const
    {
        return std::tie(a, t, off) < std::tie(o.a, o.t, o.off);
    }
};
static bool placeOf(const Value* P, Place& out)
{
    P = strip(P);
    if (auto* a = dyn_cast<AllocaInst>(P)) {
        out.a = a;
        return true;
    }
    if (auto* g = dyn_cast<GEPOperator>(P)) {
        const Value* b = strip(g->getPointerOperand());
        if (auto* a = dyn_cast<AllocaInst>(b)) {
            out.a = a; // the whole local
            return true;
        }
        APInt o(64, 0);
        if (g->getSourceElementType()->isStructTy() &&
            g->accumulateConstantOffset(*gDL, o)) {
            out.t = g->getSourceElementType();
            out.off = o.getZExtValue();
            return true;
        }
    }
    return false;
}

static void clockFlow()
{
    std::set<const Value*> T;
    std::set<Place> TP;
    std::map<const Value*, const Instruction*> src;
    auto isReach = std::set<const Function*>(gReach.begin(), gReach.end());
    auto retTaint = std::set<const Function*>();
    std::map<const Value*, std::string> origin;
    auto bad = [&](const Instruction* I, const std::string& what) {
        viol("results do not depend on a clock", what + " at " + where(I) + " in " + nice(I->getFunction()));
    };
    size_t readings = 0;
    for (bool ch = true; ch;) {
        ch = false;
        auto add = [&](const Value* v) {
            if (T.insert(v).second) ch = true;
        };
        auto addP = [&](const Place& p) {
            if (TP.insert(p).second) ch = true;
        };
        for (auto* F : gReach)
            for (auto& I : instructions(const_cast<Function*>(F))) {
                if (isDbg(I)) continue;
                if (auto* cb = dyn_cast<CallBase>(&I)) {
                    if (cb->isInlineAsm()) {
                        auto* ia = cast<InlineAsm>(cb->getCalledOperand());
                        StringRef s = ia->getAsmString();
                        if (s.contains("rdtsc") || s.contains("cntvct") || s.contains("mftb")) add(&I);
                        else if (any_of(cb->args(), [&](const Use& u) { return T.count(u.get()); }))
                            add(&I);
                        continue;
                    }
                    for (auto* f : callees(cb).fs) {
                        if (isClock(f)) {
                            add(&I);
                            for (auto& a : cb->args())
                                if (a->getType()->isPointerTy()) {
                                    Place p;
                                    if (placeOf(a.get(), p)) addP(p);
                                }
                            continue;
                        }
                        if (!f->isDeclaration()) {
                            for (unsigned i = 0; i < cb->arg_size() && i < f->arg_size(); i++)
                                if (T.count(cb->getArgOperand(i))) add(f->getArg(i));
                            if (retTaint.count(f)) add(&I);
                            // a local passed by reference, or by coerced value
                            for (unsigned i = 0; i < cb->arg_size() && i < f->arg_size(); i++) {
                                Place p;
                                if (cb->getArgOperand(i)->getType()->isPointerTy() &&
                                    isa<AllocaInst>(strip(cb->getArgOperand(i))) &&
                                    placeOf(cb->getArgOperand(i), p) && TP.count(p))
                                    add(f->getArg(i));
                            }
                        } else if (f->isIntrinsic()) {
                            if (auto* mt = dyn_cast<MemTransferInst>(cb)) {
                                Place s, d;
                                bool ts = placeOf(mt->getSource(), s) && TP.count(s);
                                if (ts && placeOf(mt->getDest(), d)) addP(d);
                            } else
                                for (auto& a : cb->args())
                                    if (T.count(a.get())) add(&I);
                        }
                    }
                    continue;
                }
                if (auto* L = dyn_cast<LoadInst>(&I)) {
                    Place p;
                    if (T.count(L->getPointerOperand())) add(&I);
                    if (placeOf(L->getPointerOperand(), p) && TP.count(p)) add(&I);
                    continue;
                }
                if (auto* S = dyn_cast<StoreInst>(&I)) {
                    if (T.count(S->getValueOperand())) {
                        Place p;
                        if (placeOf(S->getPointerOperand(), p)) addP(p);
                    }
                    continue;
                }
                if (auto* R = dyn_cast<ReturnInst>(&I)) {
                    if (R->getReturnValue() && T.count(R->getReturnValue()) &&
                        retTaint.insert(F).second)
                        ch = true;
                    continue;
                }
                bool t = false;
                for (auto& o : I.operands())
                    if (T.count(o.get())) t = true;
                if (t && !I.getType()->isVoidTy()) add(&I);
            }
    }
    for (auto* F : gReach)
        for (auto& I : instructions(const_cast<Function*>(F))) {
            if (isDbg(I)) continue;
            auto* br = dyn_cast<BranchInst>(&I);
            if (br && br->isConditional()) {
                if (T.count(br->getCondition())) bad(&I, "a clock reading decides a branch");
            } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                if (T.count(sw->getCondition())) bad(&I, "a clock reading decides a branch");
            } else if (auto* se = dyn_cast<SelectInst>(&I)) {
                if (T.count(se->getCondition())) bad(&I, "a clock reading selects a value");
            } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                for (auto& x : g->indices())
                    if (T.count(x.get())) bad(&I, "a clock reading is an index");
            } else if (auto* S = dyn_cast<StoreInst>(&I)) {
                if (T.count(S->getValueOperand())) {
                    readings++;
                    gObl++;
                    Place p;
                    if (!placeOf(S->getPointerOperand(), p))
                        bad(&I, "a clock reading is stored in data");
                    else
                        gOk++;
                }
            } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                if (cb->isInlineAsm()) continue;
                for (auto* f : callees(cb).fs)
                    if (f->isDeclaration() && !f->isIntrinsic() && !isClock(f))
                        for (auto& a : cb->args())
                            if (T.count(a.get()))
                                bad(&I, "a clock reading is passed to " + nice(f));
            }
        }
    outs() << "\"clock_stores\":" << readings << ",";
}

static void ruleEffects()
{
    computeReach();
    std::set<std::string> ext;
    size_t sites = 0;
    for (auto* F : gReach) {
        // the handler of exceptions which leave a noexcept function
        if (F->getName() == "__clang_call_terminate") continue;
        for (auto& I : instructions(const_cast<Function*>(F))) {
            if (isDbg(I)) continue;
            if (auto* cb = dyn_cast<CallBase>(&I)) {
                const Callees& cs = callees(cb);
                sites++;
                gObl++;
                bool ok = true;
                if (!cs.exact && cs.fs.empty()) {
                    ok = false;
                    undec("calls are resolved", "call through a pointer at " + where(&I) + " in " + nice(F));
                }
                if (cb->isInlineAsm()) {
                    auto* ia = cast<InlineAsm>(cb->getCalledOperand());
                    if (StringRef(ia->getAsmString()).contains("syscall") ||
                        StringRef(ia->getAsmString()).contains("int $"))
                        viol("no forbidden effect", "system call at " + where(&I)), ok = false;
                }
                for (auto* f : cs.fs) {
                    std::string why;
                    if (forbidden(f, why)) {
                        ok = false;
                        viol("no forbidden effect", "call of " + why + " at " + where(&I) + " in " +
                                                        nice(F) + ", reached by " + reachPath(F));
                    } else if (f->isDeclaration() && !f->isIntrinsic())
                        ext.insert(f->getName().str());
                    if (!gDiag.count(F) && gDiag.count(f) && inRepo(f) && (diagName(f) || randName(f))) {
                        ok = false;
                        viol("no forbidden effect",
                             std::string(randName(f) ? "random data is drawn" : "diagnostics are written") +
                                 " by " + nice(f) + " at " + where(&I) + " in " + nice(F));
                    }
                }
                gOk += ok;
            }
            std::set<const GlobalVariable*> gs;
            for (auto& o : I.operands()) globalsOf(o.get(), gs);
            for (auto* g : gs) {
                if (stdStream(g)) {
                    gObl++;
                    viol("no forbidden effect", demangle(g->getName().str()) + " used at " + where(&I) +
                                                    " in " + nice(F) + ", reached by " + reachPath(F));
                } else if (mutableGlobal(g) && inRepo(F)) {
                    gObl++;
                    viol("no mutable global state", demangle(g->getName().str()) + " used at " + where(&I) +
                                                        " in " + nice(F) + ", reached by " + reachPath(F));
                } else if (mutableGlobal(g) && !g->isDeclaration()) {
                    // a variable of a header of the standard library
                    undec("no mutable global state", demangle(g->getName().str()) + " used at " + where(&I));
                }
            }
        }
    }
    clockFlow();
    outs() << "\"functions\":" << gReach.size() << ",\"call_sites\":" << sites
           << ",\"diagnostics\":" << gDiag.size() << ",\"externals\":[";
    bool first = true;
    for (auto& e : ext) {
        if (!first) outs() << ",";
        first = false;
        outs() << "\"" << jesc(demangle(e).substr(0, 100)) << "\"";
    }
    outs() << "],";
}

// ------------------------------------------------------------ rule: assert
// what a pointer may point to
struct Base {
    std::set<const AllocaInst*> locals;
    std::set<unsigned> params;
    std::set<const GlobalVariable*> globals;
    bool heap = false;  // memory allocated here
    bool other = false; // anything reached through memory
};
static std::map<const AllocaInst*, bool> gEsc;
static std::set<const AllocaInst*> gNamed;

static void baseOf(const Value* V, Base& b, std::set<const Value*>& seen)
{
    V = strip(V);
    if (!seen.insert(V).second) return;
    if (auto* a = dyn_cast<AllocaInst>(V)) {
        b.locals.insert(a);
    } else if (auto* p = dyn_cast<Argument>(V)) {
        b.params.insert(p->getArgNo());
    } else if (auto* g = dyn_cast<GlobalVariable>(V)) {
        b.globals.insert(g);
    } else if (auto* g = dyn_cast<GEPOperator>(V)) {
        baseOf(g->getPointerOperand(), b, seen);
    } else if (auto* ph = dyn_cast<PHINode>(V)) {
        for (auto& x : ph->incoming_values()) baseOf(x, b, seen);
    } else if (auto* s = dyn_cast<SelectInst>(V)) {
        baseOf(s->getTrueValue(), b, seen);
        baseOf(s->getFalseValue(), b, seen);
    } else if (isa<ConstantPointerNull>(V) || isa<UndefValue>(V)) {
    } else if (auto* l = dyn_cast<LoadInst>(V)) {
        auto* a = dyn_cast<AllocaInst>(strip(l->getPointerOperand()));
        if (!a || !a->getAllocatedType()->isPointerTy()) {
            b.other = true;
            return;
        }
        // everything ever stored in that local
        for (auto* U : a->users()) {
            if (auto* s = dyn_cast<StoreInst>(U)) {
                if (s->getPointerOperand() == a) baseOf(s->getValueOperand(), b, seen);
                else b.other = true; // its address is kept
            } else if (isa<LoadInst>(U) || isa<IntrinsicInst>(U)) {
            } else
                b.other = true;
        }
    } else if (auto* c = dyn_cast<CallBase>(V)) {
        auto* f = c->getCalledFunction();
        if (f && (f->getName().starts_with("_Zn") || f->getName() == "malloc" ||
                  f->getName() == "__cxa_allocate_exception" || f->getName() == "calloc")) {
            b.heap = true;
            return;
        }
        // std::forward, std::move, operator* and the like hand an argument on
        bool handed = false;
        if (f && !f->isDeclaration() && !inRepo(f)) {
            for (auto& a : c->args())
                if (a->getType()->isPointerTy()) {
                    baseOf(a.get(), b, seen);
                    handed = true;
                }
        }
        b.other = true;
        (void)handed;
    } else
        b.other = true;
}

struct Writes {
    std::map<unsigned, const Instruction*> params;
    const Instruction* other = nullptr; // memory reached otherwise
};
static std::map<const Function*, Writes> gW;

static bool readOnlyExternal(const Function* F)
{
    if (F->onlyReadsMemory() || F->doesNotAccessMemory()) return true;
    static const char* R[] = {"memcmp", "strlen", "strcmp", "log2", "log", "sqrt", "pow", "ceil", "floor",
                              "htonl", "ntohl", "free", "__clang_call_terminate", "__cxa_begin_catch",
                              "__cxa_end_catch", "_ZSt9terminatev", "__gxx_personality_v0", "abs", "abort",
                              "__cxa_throw", "__cxa_allocate_exception", "__cxa_free_exception", "malloc"};
    for (auto* r : R)
        if (F->getName() == r) return true;
    if (F->getName().starts_with("_Zn") || F->getName().starts_with("_Zd")) return true;
    return false;
}

// calls back for each write of an instruction
static bool writesOf(const Instruction& I, const std::function<void(const Value*, const Instruction*)>& ptr,
                     const std::function<void(const Instruction*)>& any,
                     const std::function<void(const Function*)>& unknown)
{
    if (isDbg(I)) return true;
    if (auto* s = dyn_cast<StoreInst>(&I)) {
        ptr(s->getPointerOperand(), &I);
    } else if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) {
        ptr(I.getOperand(0), &I);
    } else if (auto* m = dyn_cast<AnyMemIntrinsic>(&I)) {
        ptr(m->getDest(), &I);
    } else if (auto* cb = dyn_cast<CallBase>(&I)) {
        if (cb->isInlineAsm()) {
            if (cast<InlineAsm>(cb->getCalledOperand())->hasSideEffects() && !cb->onlyReadsMemory()) {
                // reading the cycle counter writes nothing
                StringRef s = cast<InlineAsm>(cb->getCalledOperand())->getAsmString();
                if (!s.contains("rdtsc")) any(&I);
            }
            return true;
        }
        const Callees& cs = callees(cb);
        if (!cs.exact && cs.fs.empty()) any(&I);
        for (auto* f : cs.fs) {
            if (f->isIntrinsic()) {
                auto id = f->getIntrinsicID();
                if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end ||
                    id == Intrinsic::assume || id == Intrinsic::type_test)
                    continue;
                if (f->onlyReadsMemory() || f->doesNotAccessMemory()) continue;
                for (auto& a : cb->args())
                    if (a->getType()->isPointerTy()) ptr(a.get(), &I);
                continue;
            }
            if (f->isDeclaration()) {
                if (readOnlyExternal(f)) continue;
                unknown(f);
                continue;
            }
            const Writes& w = gW[f];
            if (w.other) any(&I);
            for (auto& kv : w.params)
                if (kv.first < cb->arg_size()) ptr(cb->getArgOperand(kv.first), &I);
        }
    }
    return true;
}

static void computeWrites()
{
    std::map<const Function*, std::set<const Function*>> callers;
    std::deque<const Function*> work;
    std::set<const Function*> in;
    for (auto& F : *gM) {
        if (F.isDeclaration()) continue;
        for (auto& I : instructions(F)) {
            if (auto* cb = dyn_cast<CallBase>(&I))
                for (auto* f : callees(cb).fs) callers[f].insert(&F);
        }
        work.push_back(&F);
        in.insert(&F);
    }
    while (!work.empty()) {
        auto* F = work.front();
        work.pop_front();
        in.erase(F);
        Writes& w = gW[F];
        bool ch = false;
        for (auto& I : instructions(const_cast<Function*>(F)))
            writesOf(
                I,
                [&](const Value* p, const Instruction* at) {
                    Base b;
                    std::set<const Value*> seen;
                    baseOf(p, b, seen);
                    for (auto x : b.params)
                        if (w.params.insert({x, at}).second) ch = true;
                    if ((b.other || !b.globals.empty()) && !w.other) {
                        w.other = at;
                        ch = true;
                    }
                },
                [&](const Instruction* at) {
                    if (!w.other) {
                        w.other = at;
                        ch = true;
                    }
                },
                [&](const Function*) {});
        if (ch)
            for (auto* c : callers[F])
                if (in.insert(c).second) work.push_back(c);
    }
}

static std::string writeChain(const Instruction* I)
{
    std::string s;
    for (int i = 0; i < 8 && I; i++) {
        s += " -> " + where(I);
        auto* cb = dyn_cast<CallBase>(I);
        if (!cb || isa<IntrinsicInst>(cb)) break;
        const Instruction* n = nullptr;
        for (auto* f : callees(cb).fs) {
            auto it = gW.find(f);
            if (it == gW.end()) continue;
            if (it->second.other) n = it->second.other;
            else if (!it->second.params.empty()) n = it->second.params.begin()->second;
        }
        I = n;
    }
    return s;
}

static bool markerCall(const Instruction& I, const char* n)
{
    auto* cb = dyn_cast<CallBase>(&I);
    auto* f = cb ? cb->getCalledFunction() : nullptr;
    return f && f->getName().contains(n);
}

static void ruleAssert()
{
    computeWrites();
    for (auto& F : *gM)
        for (auto& I : instructions(F))
            if (auto* d = dyn_cast<DbgDeclareInst>(&I))
                if (auto* a = dyn_cast_or_null<AllocaInst>(d->getAddress()))
                    if (!(d->getVariable()->isArtificial())) gNamed.insert(a);
    std::set<std::pair<std::string, unsigned>> sites, bad;
    for (auto& F : *gM) {
        if (F.isDeclaration() || !inRepo(&F)) continue;
        for (auto& I0 : instructions(F)) {
            if (!markerCall(I0, "qa_assert_begin")) continue;
            auto loc = std::make_pair(I0.getDebugLoc() ? path(I0.getDebugLoc()->getScope()->getFile()) : "",
                                      I0.getDebugLoc() ? I0.getDebugLoc().getLine() : 0);
            sites.insert(loc);
            gObl++;
            bool ok = true;
            std::set<const BasicBlock*> seen;
            std::deque<const Instruction*> w;
            auto push = [&](const BasicBlock* B) {
                if (seen.insert(B).second) w.push_back(&B->front());
            };
            auto walk = [&](const Instruction* I) {
                for (; I; I = I->getNextNode()) {
                    if (markerCall(*I, "qa_assert_end")) return;
                    writesOf(
                        *I,
                        [&](const Value* p, const Instruction* at) {
                            Base b;
                            std::set<const Value*> sn;
                            baseOf(p, b, sn);
                            std::string what;
                            for (auto* a : b.locals)
                                if (gNamed.count(a)) what = "a local variable";
                            if (!b.params.empty()) what = "memory of the caller";
                            if (!b.globals.empty()) what = "a global variable";
                            if (b.other) what = "memory";
                            if (what.empty()) return;
                            ok = false;
                            viol("assertions have no side effects",
                                 what + " is written by the assertion at " + where(&I0) + " in " + nice(&F) +
                                     writeChain(at));
                        },
                        [&](const Instruction* at) {
                            ok = false;
                            viol("assertions have no side effects",
                                 "memory is written by the assertion at " + where(&I0) + " in " + nice(&F) +
                                     writeChain(at));
                        },
                        [&](const Function* f) {
                            undec("assertions have no side effects",
                                  "call of " + nice(f) + " in the assertion at " + where(&I0));
                        });
                    if (I->isTerminator()) {
                        if (auto* iv = dyn_cast<InvokeInst>(I)) push(iv->getNormalDest());
                        else
                            for (unsigned i = 0; i < I->getNumSuccessors(); i++) push(I->getSuccessor(i));
                    }
                }
            };
            walk(I0.getNextNode());
            while (!w.empty()) {
                auto* I = w.front();
                w.pop_front();
                walk(I);
            }
            gOk += ok;
        }
    }
    outs() << "\"assertions\":" << sites.size() << ",\"sites\":[";
    bool first = true;
    for (auto& s : sites) {
        if (!first) outs() << ",";
        first = false;
        std::string f = s.first.find(gSrc) == 0 ? s.first.substr(gSrc.size()) : s.first;
        outs() << "\"" << jesc(f) << ":" << s.second << "\"";
    }
    outs() << "],";
}

int main(int argc, char** argv)
{
    std::string file, rule;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--src") gSrc = argv[++i];
        else if (a == "--rule") rule = argv[++i];
        else file = a;
    }
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(file, err, C);
    if (!M) {
        err.print("qacg", errs());
        return 2;
    }
    gM = M.get();
    gDL = &M->getDataLayout();
    indexTypes();
    outs() << "{";
    if (rule == "throw") ruleThrow();
    else if (rule == "effects") ruleEffects();
    else if (rule == "assert") ruleAssert();
    else
        return 2;
    auto list = [](const char* k, const std::vector<Finding>& v) {
        outs() << "\"" << k << "\":[";
        for (size_t i = 0; i < v.size(); i++)
            outs() << (i ? "," : "") << "{\"label\":\"" << jesc(v[i].label) << "\",\"msg\":\""
                   << jesc(v[i].msg) << "\"}";
        outs() << "],";
    };
    list("violations", gViol);
    list("undecided", gUndec);
    outs() << "\"obligations\":" << gObl << ",\"discharged\":" << gOk << "}\n";
    return 0;
}
