// Hash-consed bit-vector expressions.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint8_t {
    CONST, VAR,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    UMIN,
    EQ, ULT, ULE, SLT, SLE,
    ITE, ZEXT, SEXT, EXTRACT, CONCAT,
    FADD, FSUB, FMUL, FDIV, FEQ, FLT, FLE, FUNO, FEXT, FTRUNC, SITOF, UITOF, FTOSI, FTOUI
};

struct VarSet {
    std::vector<uint32_t> v; // sorted
    bool undef = false;
};

struct Expr {
    Op op;
    uint8_t w;
    uint32_t id;
    uint64_t c; // constant value, variable index, or extract offset
    const Expr *k[3];
    const VarSet *vs;
    uint32_t depth;
    mutable uint32_t gen = 0;
    mutable uint64_t val = 0, mx = 0;
    mutable bool mxok = false;
    mutable uint8_t tz = 255;
    mutable uint64_t *bm = nullptr; // truth table of a condition over one variable of at most 8 bits
    mutable void *z3bv = nullptr, *z3bool = nullptr;
};
typedef const Expr *E;

struct VarInfo {
    std::string name;
    unsigned w;
    bool undef;
    E e;
};
extern std::vector<VarInfo> g_vars;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

E mkConst(unsigned w, uint64_t v);
E mkVar(const std::string &name, unsigned w, bool undef); // same (name,w) => same variable
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkByte(E a, unsigned off); // 8 bits of a, kept recognisable so that adjacent bytes can be put together again
bool tropEq(E a, E b); // provably equal as minima of sums
E mkNot(E a); // width 1
E mkFun(Op op, unsigned w, E a, E b = nullptr);
uint64_t foldBin(Op op, unsigned w, uint64_t a, uint64_t b);
uint64_t foldFun(Op op, unsigned w, unsigned wa, uint64_t a, uint64_t b);
E substVars(E e, const std::unordered_map<uint32_t, E> &map);
unsigned trailingZeros(E e);
uint64_t maxVal(E e);

typedef std::vector<uint64_t> Model; // by variable index; missing = 0
uint64_t evalExpr(E e, const Model &m);
void newEvalGen();
uint64_t evalExprSameGen(E e, const Model &m);
std::string exprStr(E e, int depth = 6);
size_t exprCount();
const uint64_t *truthTable(E e); // null unless e is such a condition
