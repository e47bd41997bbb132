// Abstract value domain of the interpreter: constants (pointers are constants:
// every memory region has an address range), case-split integer polynomials
// over bounded symbols, floor and residue definitions of symbols, bit-slices
// and vectors of those.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace qai {

typedef __int128 i128;
typedef unsigned __int128 u128;

std::string str128(i128 v);

struct Overflow {};

// ---------------------------------------------------------------- symbols
struct Poly;
struct Sym {
    i128 lo, hi;
    std::string name;
    // floor definition: this = floor(def / d)
    std::shared_ptr<Poly> def;
    i128 d = 0;
    // residue definition: this ≡ form (mod q), form over base symbols
    std::shared_ptr<Poly> form;
    i128 q = 0;
    bool opaque = false; // over-approximation: not a function of the inputs
    bool linear = false; // defined in gf2.cpp
    // what the value is a function of, for the search of counter-examples
    std::shared_ptr<const struct Eval> ev;
};
extern std::vector<Sym> gSyms;
int newSym(i128 lo, i128 hi, const std::string& name);

extern std::vector<std::vector<int>> gMonos;
int monoOf(const std::vector<int>& m);

// ------------------------------------------------------------ polynomials
struct Poly {
    std::vector<std::pair<int, i128>> t; // sorted by monomial id, coef != 0
    i128 c = 0;
    bool isConst() const { return t.empty(); }
    bool operator==(const Poly& o) const { return c == o.c && t == o.t; }
    bool operator<(const Poly& o) const
    {
        if (c != o.c) return c < o.c;
        return t < o.t;
    }
};
Poly pconst(i128 c);
Poly psym(int s);
Poly padd(const Poly& a, const Poly& b);
Poly psub(const Poly& a, const Poly& b);
Poly pscale(const Poly& a, i128 k);
Poly pmul(const Poly& a, const Poly& b);
std::string pstr(const Poly& p);

// ------------------------------------------------------------ constraints
struct Cons {
    Poly p; // no constant term, content 1, first coefficient positive
    i128 lo, hi;
    bool operator==(const Cons& o) const
    {
        return lo == o.lo && hi == o.hi && p == o.p;
    }
};
typedef std::vector<Cons> Case;
struct Facts {
    Case cons;                  // hold on this path
    std::vector<Case> excluded; // conjunctions known to be false
    bool approx = false;        // some states in here may be unreachable
};
typedef std::vector<Case> Dnf; // disjunction of conjunctions
struct Range {
    i128 lo, hi;
    bool empty() const { return lo > hi; }
};
Range rangeOf(const Poly& p, const Case& cs, const Facts& f, int depth = 2);
bool feasible(const Case& cs, const Facts& f);
bool conj(const Case& a, const Case& b, const Facts& f, Case& out);
// add lo <= p <= hi; false: recognisably infeasible
bool addCons(Case& cs, const Poly& p, i128 lo, i128 hi, const Facts& f);
std::string cstr(const Case& c);

struct Piece {
    Case cs;
    Poly p;
};
struct Abs {
    std::vector<Piece> ps;
};

// ------------------------------------------------------------ values
enum Kind : uint8_t { UNDEF, INT, ABS, VEC, SEG, FP };
struct Val {
    Kind k = UNDEF;
    uint16_t w = 0; // bit width
    u128 c = 0;     // INT
    std::shared_ptr<const void> p;
    const Abs& abs() const { return *static_cast<const Abs*>(p.get()); }
    bool isInt() const { return k == INT; }
};
struct SegE {
    Val v; // INT, ABS or UNDEF
    unsigned off, w;
};
struct SegV {
    std::vector<SegE> s;
};
struct VecV {
    std::vector<Val> e;
};
inline u128 maskW(unsigned w)
{
    return w >= 128 ? ~u128(0) : ((u128(1) << w) - 1);
}
// one-bit symbol: all of the listed bit-strings are zero
Val vallzero(const std::vector<Val>& vals, unsigned w, const Facts& f);
Val vint(u128 c, unsigned w);
Val vundef(unsigned w);
Val vfp(double d);
double fpOf(const Val& v);
Val vsym(int s, unsigned w);
Val vvec(std::vector<Val>&& e);
Val vopaque(unsigned w, const std::string& why);
extern uint64_t gJoinLoss, gInJoin;
extern void (*gOpaqueHook)(const std::string&);
Val vopaqueR(i128 lo, i128 hi, unsigned w, const std::string& why);
inline const std::vector<Val>& vecOf(const Val& v)
{
    return static_cast<const VecV*>(v.p.get())->e;
}
inline const SegV& segOf(const Val& v)
{
    return *static_cast<const SegV*>(v.p.get());
}
std::string vstr(const Val& v);
bool toAbs(const Val& v, const Facts& f, Abs& out);
// build a value from pieces whose polynomials are taken mod 2^w
Val fromAbs(Abs&& a, unsigned w, const Facts& f);
bool valEq(const Val& a, const Val& b); // structural

enum Op { ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, SHL, LSHR, ASHR, AND, OR, XOR };
Val binop(Op o, const Val& a, const Val& b, unsigned w, const Facts& f);
enum Pred { EQ, NE, ULT, ULE, UGT, UGE, SLT, SLE, SGT, SGE };
Val icmp(Pred p, const Val& a, const Val& b, const Facts& f);
Val vtrunc(const Val& a, unsigned w, const Facts& f);
Val vzext(const Val& a, unsigned w, const Facts& f);
Val vsext(const Val& a, unsigned w, const Facts& f);
Val vselect(const Val& c, const Val& a, const Val& b, const Facts& f);
Val vbswap(const Val& a, const Facts& f);
Val vslice(const Val& a, unsigned off, unsigned w, const Facts& f);
Val vconcat(const std::vector<Val>& parts, const Facts& f); // LSB first
// value is v[i] under the conditions c[i] (on top of the facts f)
Val vjoin(const std::vector<const Val*>& v, const std::vector<const Dnf*>& c,
          const Facts& f);
// the states of f among those of base; false: over-approximated
bool dnfDelta(const Facts& f, const Facts& base, Dnf& out);
bool vrange(const Val& v, const Facts& f, Range& r);
// truth of a 1-bit value: 0 false, 1 true, 2 undecided, 3 undefined
int decide(const Val& v, const Facts& f);
// refine path facts by "v == truth"; false: infeasible
bool assume(const Val& v, bool truth, Facts& f);
// refine by "v is the constant of piece i" (piecewise constant value)
bool hasOpaque(const Poly& p);
bool factsOpaque(const Facts& f);

// residues
Poly residue(const Poly& p, i128 q);
Val normalise(const Val& v, i128 q, const Facts& f);

// search for an assignment of the base symbols which satisfies the path
// facts and the case, and on which pred holds. Deterministic.
typedef std::map<int, i128> Asg;
bool evalPoly(const Poly& p, Asg& a, i128& out); // false: opaque symbol
bool evalVal(const Val& v, Asg& a, u128& out);
bool holds(const Case& c, Asg& a, bool& opq);
bool holdsFacts(const Facts& f, Asg& a, bool& opq);
bool findWitness(const std::vector<int>& syms, const Facts& f,
                 const std::function<bool(Asg&)>& pred, Asg& out, int tries);
// where an opaque value comes from: only used to evaluate counter-examples
struct Eval {
    std::vector<Val> args;
    std::vector<Dnf> when;
    std::function<bool(const std::vector<u128>&, u128&)> fn; // null: join
    unsigned off = 0, w = 0;
};
void symsOf(const Val& v, std::set<int>& s);
void symsOf(const Poly& p, std::set<int>& s);
void symsOf(const Case& c, std::set<int>& s);
void symsOf(const Facts& f, std::set<int>& s);

extern unsigned gMaxPieces, gMaxTerms;
// congruences mod q which follow from the equalities in cs and f, reduced;
// false: contradictory
bool modRows(const Case& cs, const Facts& f, i128 q, std::vector<Poly>& rows);
// d is a multiple of q whenever cs and f hold
bool modZero(const Poly& d, const Case& cs, const Facts& f, i128 q);
i128 modulusOf(const Poly& d);
Poly substEq(Poly p, const Case& cs, i128 q);
extern uint64_t gOpaqueCount;

// values which are linear over GF(2) in the bits of the inputs, and values
// which are functions of one small symbol
extern bool gGf2;
void gf2Reset();
bool gf2Xor(const Poly& a, const Poly& b, Poly& out);
bool gf2Or(const Poly& a, const Poly& b, Poly& out);
bool gf2Slice(const Poly& a, unsigned off, unsigned w, Poly& out);
bool gf2Shl(const Poly& a, unsigned n, unsigned w, Poly& out);
bool gf2Concat(const std::vector<std::pair<Poly, unsigned>>& ps, Poly& out);
static const i128 GF2_NONE = i128(1) << 126;
// exact: the points of the domain are known to be feasible
bool gf2Func(const Val& v, const Facts& f, int& root, std::vector<i128>& out,
             bool* exact = nullptr);
bool gf2Table(int root, const std::vector<i128>& t, bool tab, Poly& out);
bool gf2Same(const Poly& a, const Poly& b, const Case& cs, const Facts& f);
Val gf2Normalise(const Val& v, const Facts& f);
bool gf2Comb(unsigned n, uint64_t poly, const std::vector<uint64_t>& coefs,
             const std::vector<Poly>& xs, Poly& out);
bool gf2Eval(int s, const std::function<bool(int, i128&)>& base, i128& out);
void gf2Deps(int s, std::set<int>& out);
extern std::map<std::string, uint64_t> gOpaqueWhy;
} // namespace qai
