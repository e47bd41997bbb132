// Abstract interpreter over LLVM IR.
#pragma once
#include "value.h"

#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"

namespace qai {

// ------------------------------------------------------------- memory
// addresses: (region << 36) + 2^35 + bias + offset
static const unsigned OBJ_SHIFT = 36;
static const uint64_t OBJ_MID = uint64_t(1) << 35;

struct Cell {
    uint32_t idx = 0; // 0 uninitialised, 1 constant, else index in the pool
    uint8_t k = 0;    // byte inside the pooled value
    uint8_t b = 0;    // constant byte
    bool operator==(const Cell& o) const
    {
        return idx == o.idx && (idx == 1 ? b == o.b : k == o.k);
    }
};

struct Forbid {
    uint64_t off, len;
    bool rd, wr;
    std::string msg;
};

enum RKind : uint8_t { R_GLOBAL, R_HEAP, R_STACK, R_FUNC };

struct Region {
    RKind kind = R_HEAP;
    bool freed = false, ro = false;
    uint8_t how = 0; // 1 new, 2 new[], 3 malloc
    uint64_t size = 0;
    std::vector<Cell> c;
    std::vector<Forbid> forb;
    std::string name;
    const llvm::Function* fn = nullptr;
};
typedef std::shared_ptr<Region> RegP;

struct Chunk {
    RegP r[64];
};
struct PVec {
    std::vector<std::shared_ptr<Chunk>> v;
    size_t n = 0;
    const RegP& get(size_t i) const { return v[i / 64]->r[i % 64]; }
    RegP& slot(size_t i)
    {
        auto& c = v[i / 64];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        return c->r[i % 64];
    }
    size_t push(RegP r)
    {
        if (n % 64 == 0 && n / 64 == v.size())
            v.push_back(std::make_shared<Chunk>());
        n++;
        slot(n - 1) = std::move(r);
        return n - 1;
    }
};

static const uint32_t STACK0 = 1u << 20, HEAP0 = 1u << 22;

struct Mem {
    PVec glob, heap, stack;
};

struct State {
    Mem mem;
    Facts facts;
};

struct Outcome {
    State st;
    Val ret;
    bool threw = false;
    std::string exc;
};

struct PathEnd {}; // path stops here (event already recorded)
struct NeedSplit {
    std::vector<Case> cases;
};
struct Unsupported {
    std::string why;
};

} // namespace qai
