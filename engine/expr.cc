#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>

std::vector<VarInfo> g_vars;

struct Key {
    Op op; uint8_t w; uint64_t c; E k0, k1, k2;
    bool operator==(const Key &o) const {
        return op == o.op && w == o.w && c == o.c && k0 == o.k0 && k1 == o.k1 && k2 == o.k2;
    }
};
struct KeyHash {
    size_t operator()(const Key &k) const {
        uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w;
        auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix(k.c); mix(k.k0 ? k.k0->id + 1 : 0); mix(k.k1 ? k.k1->id + 1 : 0); mix(k.k2 ? k.k2->id + 1 : 0);
        return h;
    }
};
static std::unordered_map<Key, Expr *, KeyHash> g_tab;
static uint32_t g_nextId = 1;
static VarSet g_emptySet;
static std::unordered_map<std::string, uint32_t> g_varByName;
static std::unordered_map<uint64_t, const VarSet *> g_unionMemo;
static std::unordered_map<std::string, const VarSet *> g_setIntern;
static std::unordered_map<const VarSet *, uint32_t> g_setId;

size_t exprCount() { return g_tab.size(); }

static const VarSet *internSet(std::vector<uint32_t> v) {
    if (v.empty()) return &g_emptySet;
    std::string key((const char *)v.data(), v.size() * 4);
    auto it = g_setIntern.find(key);
    if (it != g_setIntern.end()) return it->second;
    VarSet *s = new VarSet();
    for (auto x : v) if (g_vars[x].undef) s->undef = true;
    s->v = std::move(v);
    g_setIntern[key] = s;
    uint32_t id = g_setId.size() + 1;
    g_setId[s] = id;
    return s;
}
static const VarSet *unionSet(const VarSet *a, const VarSet *b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    uint64_t ia = g_setId[a], ib = g_setId[b];
    if (ia > ib) std::swap(ia, ib);
    uint64_t key = ia << 32 | ib;
    auto it = g_unionMemo.find(key);
    if (it != g_unionMemo.end()) return it->second;
    std::vector<uint32_t> r;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    auto s = internSet(std::move(r));
    g_unionMemo[key] = s;
    return s;
}

static E intern(Op op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr) {
    Key k{op, (uint8_t)w, c, a, b, d};
    auto it = g_tab.find(k);
    if (it != g_tab.end()) return it->second;
    Expr *e = new Expr();
    e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
    e->id = g_nextId++;
    const VarSet *vs = &g_emptySet;
    uint32_t dep = 0;
    for (E x : {a, b, d}) if (x) { vs = unionSet(vs, x->vs); dep = std::max(dep, x->depth); }
    e->vs = vs;
    e->depth = dep + 1;
    g_tab.emplace(k, e);
    return e;
}

E mkConst(unsigned w, uint64_t v) { return intern(CONST, w, v & maskw(w)); }

E mkVar(const std::string &name, unsigned w, bool undef) {
    std::string key = name + "/" + std::to_string(w);
    auto it = g_varByName.find(key);
    if (it != g_varByName.end()) return g_vars[it->second].e;
    uint32_t idx = g_vars.size();
    g_vars.push_back({name, w, undef, nullptr});
    g_varByName[key] = idx;
    Expr *e = const_cast<Expr *>(intern(VAR, w, idx));
    e->vs = internSet({idx});
    g_vars[idx].e = e;
    return e;
}

static double bd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t db(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static float bf(uint64_t v) { uint32_t x = v; float d; memcpy(&d, &x, 4); return d; }
static uint64_t fb(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

uint64_t foldFun(Op op, unsigned w, unsigned wa, uint64_t a, uint64_t b) {
    switch (op) {
    case FADD: return w == 64 ? db(bd(a) + bd(b)) : fb(bf(a) + bf(b));
    case FSUB: return w == 64 ? db(bd(a) - bd(b)) : fb(bf(a) - bf(b));
    case FMUL: return w == 64 ? db(bd(a) * bd(b)) : fb(bf(a) * bf(b));
    case FDIV: return w == 64 ? db(bd(a) / bd(b)) : fb(bf(a) / bf(b));
    case FEQ: return wa == 64 ? bd(a) == bd(b) : bf(a) == bf(b);
    case FLT: return wa == 64 ? bd(a) < bd(b) : bf(a) < bf(b);
    case FLE: return wa == 64 ? bd(a) <= bd(b) : bf(a) <= bf(b);
    case FUNO: return wa == 64 ? (std::isnan(bd(a)) || std::isnan(bd(b))) : (std::isnan(bf(a)) || std::isnan(bf(b)));
    case FEXT: return db((double)bf(a));
    case FTRUNC: return fb((float)bd(a));
    case SITOF: return w == 64 ? db((double)sx(a, wa)) : fb((float)sx(a, wa));
    case UITOF: return w == 64 ? db((double)(a & maskw(wa))) : fb((float)(a & maskw(wa)));
    case FTOSI: return (uint64_t)(int64_t)(wa == 64 ? bd(a) : bf(a)) & maskw(w);
    case FTOUI: return (uint64_t)(wa == 64 ? bd(a) : bf(a)) & maskw(w);
    default: abort();
    }
}
// a double that is exactly a small integer: the integer as a signed bit vector
static E asInteger(E e) {
    if (e->w != 64) return nullptr;
    if (e->op == SITOF && e->k[0]->w <= 50) return e->k[0];
    if (e->op == UITOF && e->k[0]->w <= 49) return mkZext(e->k[0], e->k[0]->w + 1);
    if (e->op == CONST) {
        double d;
        memcpy(&d, &e->c, 8);
        if (!(d >= -1e14 && d <= 1e14) || d != (double)(int64_t)d || (d == 0 && e->c)) return nullptr;
        int64_t v = (int64_t)d;
        for (unsigned w = 2; w <= 48; w++) if (v >= -(1ll << (w - 1)) && v < (1ll << (w - 1))) return mkConst(w, (uint64_t)v & ((1ull << w) - 1));
    }
    return nullptr;
}
E mkFun(Op op, unsigned w, E a, E b) {
    if (a->op == CONST && (!b || b->op == CONST))
        return mkConst(w, foldFun(op, w, a->w, a->c, b ? b->c : 0));
    if (b && (op == FLT || op == FLE || op == FEQ || op == FADD || op == FSUB)) {
        E x = asInteger(a), y = asInteger(b);
        if (x && y) {
            unsigned m = std::max(x->w, y->w) + 1;
            x = mkSext(x, m); y = mkSext(y, m);
            if (op == FLT) return mkBin(SLT, x, y);
            if (op == FLE) return mkBin(SLE, x, y);
            if (op == FEQ) return mkBin(EQ, x, y);
            if (m <= 50) return mkFun(SITOF, 64, mkBin(op == FADD ? ADD : SUB, x, y), nullptr);
        }
    }
    if (op == FUNO && asInteger(a) && asInteger(b)) return mkConst(1, 0);
    if (op == FEQ && a == b) return mkNot(mkFun(FUNO, 1, a, b));
    return intern(op, w, 0, a, b);
}

uint64_t foldBin(Op op, unsigned w, uint64_t a, uint64_t b) {
    uint64_t m = maskw(w);
    a &= m; b &= m;
    switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: {
        int64_t x = sx(a, w), y = sx(b, w);
        if (y == 0) return x < 0 ? 1 : m;
        if (y == -1) return (0 - a) & m;
        return (uint64_t)(x / y) & m;
    }
    case SREM: {
        int64_t x = sx(a, w), y = sx(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (uint64_t)(x % y) & m;
    }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: { int64_t x = sx(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : x >> b) & m; }
    case UMIN: return std::min(a, b);
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sx(a, w) < sx(b, w);
    case SLE: return sx(a, w) <= sx(b, w);
    default: abort();
    }
}

static unsigned tz1(E e);
unsigned trailingZeros(E e) {
    if (e->tz == 255) e->tz = tz1(e);
    return e->tz;
}
static unsigned tz1(E e) {
    switch (e->op) {
    case CONST: return e->c ? std::min<unsigned>(__builtin_ctzll(e->c), e->w) : e->w;
    case SHL: if (e->k[1]->op == CONST) return std::min<unsigned>(e->w, trailingZeros(e->k[0]) + e->k[1]->c); return 0;
    case MUL: return std::min<unsigned>(e->w, trailingZeros(e->k[0]) + trailingZeros(e->k[1]));
    case ADD: case SUB: case OR: case XOR: case UMIN: return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case AND: return std::max(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case ITE: return std::min(trailingZeros(e->k[1]), trailingZeros(e->k[2]));
    case ZEXT: { unsigned t = trailingZeros(e->k[0]); return t == e->k[0]->w ? e->w : t; }
    case SEXT: { unsigned t = trailingZeros(e->k[0]); return t == e->k[0]->w ? e->w : t; }
    case CONCAT: { unsigned t = trailingZeros(e->k[1]); return t == e->k[1]->w ? t + trailingZeros(e->k[0]) : t; }
    case EXTRACT: { unsigned t = trailingZeros(e->k[0]); return t > e->c ? std::min<unsigned>(e->w, t - e->c) : 0; }
    default: return 0;
    }
}

// cheap upper bound of the unsigned value
static uint64_t maxVal1(E e);
uint64_t maxVal(E e) {
    if (e->op == CONST) return e->c;
    if (!e->mxok) { e->mx = maxVal1(e); e->mxok = true; }
    return e->mx;
}
static uint64_t maxVal1(E e) {
    uint64_t m = maskw(e->w);
    switch (e->op) {
    case CONST: return e->c;
    case ZEXT: return maxVal(e->k[0]);
    case AND: return std::min(maxVal(e->k[0]), maxVal(e->k[1]));
    case UMIN: return std::min(maxVal(e->k[0]), maxVal(e->k[1]));
    case ITE: return std::max(maxVal(e->k[1]), maxVal(e->k[2]));
    case UREM: if (e->k[1]->op == CONST && e->k[1]->c) return std::min(maxVal(e->k[0]), e->k[1]->c - 1); return m;
    case UDIV: if (e->k[1]->op == CONST && e->k[1]->c) return maxVal(e->k[0]) / e->k[1]->c; return m;
    case LSHR: if (e->k[1]->op == CONST && e->k[1]->c < 64) return maxVal(e->k[0]) >> e->k[1]->c; return m;
    case SHL: if (e->k[1]->op == CONST && e->k[1]->c < e->w) { uint64_t x = maxVal(e->k[0]); if (x <= (m >> e->k[1]->c)) return x << e->k[1]->c; } return m;
    case OR: case XOR: { uint64_t x = maxVal(e->k[0]) | maxVal(e->k[1]); if (!x) return 0; unsigned b = 64 - __builtin_clzll(x); return maskw(b) & m; }
    case ADD: { uint64_t a = maxVal(e->k[0]), b = maxVal(e->k[1]); if (a <= m - b && a + b >= a) return a + b; return m; }
    case MUL: { uint64_t a = maxVal(e->k[0]), b = maxVal(e->k[1]); __uint128_t p = (__uint128_t)a * b; if (p <= m) return (uint64_t)p; return m; }
    case CONCAT: return (maxVal(e->k[0]) << e->k[1]->w) | maskw(e->k[1]->w);
    default: return m;
    }
}

static bool isConst(E e) { return e->op == CONST; }
static E mkMin(E a, E b);
static bool isTrue(E e) { return e->op == CONST && e->c; }

E mkNot(E a) {
    if (isConst(a)) return mkConst(1, !a->c);
    if (a->op == XOR && isTrue(a->k[1])) return a->k[0];
    // not(a<b) == b<=a
    if (a->op == ULT) return mkBin(ULE, a->k[1], a->k[0]);
    if (a->op == ULE) return mkBin(ULT, a->k[1], a->k[0]);
    if (a->op == SLT) return mkBin(SLE, a->k[1], a->k[0]);
    if (a->op == SLE) return mkBin(SLT, a->k[1], a->k[0]);
    return intern(XOR, 1, 0, a, mkConst(1, 1));
}

static bool iteConstLeaves(E e, int budget) {
    if (isConst(e)) return true;
    if (e->op != ITE || budget <= 0) return false;
    return iteConstLeaves(e->k[1], budget - 1) && iteConstLeaves(e->k[2], budget - 1);
}
template <class F> static E mapIte(E e, F f) {
    if (isConst(e)) return f(e);
    return mkIte(e->k[0], mapIte(e->k[1], f), mapIte(e->k[2], f));
}

// a|b where one operand only has bits above all bits of the other: put the fields side by side.
static E joinFields(E a, E b) {
    for (int i = 0; i < 2; i++, std::swap(a, b)) {
        unsigned t = trailingZeros(a);
        uint64_t m = maxVal(b);
        if (!t || t >= a->w || m > maskw(t)) continue;
        return mkConcat(mkExtract(a, t, a->w - t), mkExtract(b, 0, t));
    }
    return nullptr;
}
E mkBin(Op op, E a, E b) {
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
    unsigned w = a->w;
    unsigned rw = (op >= EQ && op <= SLE) ? 1 : w;
    if (isConst(a) && isConst(b)) return mkConst(rw, foldBin(op, w, a->c, b->c));
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
    if (comm && (isConst(a) || (!isConst(b) && a->id > b->id))) std::swap(a, b);
    // push op with constant into small ITE trees with constant leaves
    if (isConst(b) && a->op == ITE && iteConstLeaves(a, 6))
        return mapIte(a, [&](E l) { return mkBin(op, l, b); });
    if (isConst(a) && b->op == ITE && iteConstLeaves(b, 6))
        return mapIte(b, [&](E l) { return mkBin(op, a, l); });
    switch (op) {
    case UMIN: return mkMin(a, b);
    case ADD:
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (a->op == ADD && isConst(a->k[1])) return mkBin(ADD, a->k[0], mkConst(w, a->k[1]->c + b->c));
        }
        if (a->op == ADD && isConst(a->k[1])) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
        if (b->op == ADD && isConst(b->k[1])) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
        if (w == 1) return mkBin(XOR, a, b);
        if (!isConst(b) && (a->op == SHL || b->op == SHL)) if (E r = joinFields(a, b)) return r;
        break;
    case SUB:
        if (a == b) return mkConst(w, 0);
        if (isConst(b)) return mkBin(ADD, a, mkConst(w, 0 - b->c));
        if (a->op == ADD) {
            if (a->k[1] == b) return a->k[0];
            if (a->k[0] == b) return a->k[1];
            if (isConst(a->k[1])) return mkBin(ADD, mkBin(SUB, a->k[0], b), a->k[1]);
        }
        if (b->op == ADD && isConst(b->k[1])) return mkBin(ADD, mkBin(SUB, a, b->k[0]), mkConst(w, 0 - b->k[1]->c));
        if (w == 1) return mkBin(XOR, a, b);
        break;
    case MUL:
        if (isConst(b)) {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            if ((b->c & (b->c - 1)) == 0) return mkBin(SHL, a, mkConst(w, __builtin_ctzll(b->c)));
        }
        if (w == 1) return mkBin(AND, a, b);
        break;
    case UDIV:
        if (isConst(b) && b->c) {
            if (b->c == 1) return a;
            if ((b->c & (b->c - 1)) == 0) return mkBin(LSHR, a, mkConst(w, __builtin_ctzll(b->c)));
        }
        break;
    case UREM:
        if (isConst(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(AND, a, mkConst(w, b->c - 1));
        break;
    case AND:
        if (a == b) return a;
        if (isConst(b)) {
            if (b->c == 0) return b;
            if (b->c == maskw(w)) return a;
            if (a->op == AND && isConst(a->k[1])) return mkBin(AND, a->k[0], mkConst(w, a->k[1]->c & b->c));
            // low mask => zext(extract)
            if ((b->c & (b->c + 1)) == 0) {
                unsigned n = 64 - __builtin_clzll(b->c);
                if (maxVal(a) <= b->c) return a;
                return mkZext(mkExtract(a, 0, n), w);
            }
        }
        break;
    case OR:
        if (a == b) return a;
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (b->c == maskw(w)) return b;
        }
        if (w > 1) if (E r = joinFields(a, b)) return r;
        break;
    case XOR:
        if (a == b) return mkConst(w, 0);
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (w == 1) return mkNot(a);
            if (a->op == XOR && isConst(a->k[1])) return mkBin(XOR, a->k[0], mkConst(w, a->k[1]->c ^ b->c));
        }
        break;
    case SHL:
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(w, 0);
            if (a->op == SHL && isConst(a->k[1])) return mkBin(SHL, a->k[0], mkConst(w, a->k[1]->c + b->c));
        }
        break;
    case LSHR:
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(w, 0);
            return mkZext(mkExtract(a, b->c, w - b->c), w);
        }
        break;
    case ASHR:
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) b = mkConst(w, w - 1);
            return mkSext(mkExtract(a, b->c, w - b->c), w);
        }
        break;
    case EQ:
        if (a == b) return mkConst(1, 1);
        if (isConst(b)) {
            if (w == 1) return b->c ? a : mkNot(a);
            if (a->op == ZEXT) {
                if (b->c > maskw(a->k[0]->w)) return mkConst(1, 0);
                return mkBin(EQ, a->k[0], mkConst(a->k[0]->w, b->c));
            }
            if (a->op == SEXT) {
                uint64_t t = b->c & maskw(a->k[0]->w);
                if (((uint64_t)sx(t, a->k[0]->w) & maskw(w)) != b->c) return mkConst(1, 0);
                return mkBin(EQ, a->k[0], mkConst(a->k[0]->w, t));
            }
            if (a->op == ADD && isConst(a->k[1])) return mkBin(EQ, a->k[0], mkConst(w, b->c - a->k[1]->c));
            if (a->op == XOR && isConst(a->k[1])) return mkBin(EQ, a->k[0], mkConst(w, b->c ^ a->k[1]->c));
            if (a->op == CONCAT) {
                unsigned lw = a->k[1]->w;
                return mkBin(AND, mkBin(EQ, a->k[0], mkConst(a->k[0]->w, b->c >> lw)),
                             mkBin(EQ, a->k[1], mkConst(lw, b->c)));
            }
            if (a->op == SHL && isConst(a->k[1])) {
                unsigned s = a->k[1]->c;
                if (b->c & maskw(s)) return mkConst(1, 0);
                return mkBin(EQ, mkExtract(a->k[0], 0, w - s), mkConst(w - s, b->c >> s));
            }
            if (b->c > maxVal(a)) return mkConst(1, 0);
            if (a->op == ITE && isConst(a->k[1])) {
                if (a->k[1]->c == b->c) return mkBin(OR, a->k[0], mkBin(EQ, a->k[2], b));
                return mkBin(AND, mkNot(a->k[0]), mkBin(EQ, a->k[2], b));
            }
            if (a->op == ITE && isConst(a->k[2])) {
                if (a->k[2]->c == b->c) return mkBin(OR, mkNot(a->k[0]), mkBin(EQ, a->k[1], b));
                return mkBin(AND, a->k[0], mkBin(EQ, a->k[1], b));
            }
        }
        if (w >= 16 && a->depth > 3 && b->depth > 3 && tropEq(a, b)) return mkConst(1, 1);
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(EQ, a->k[0], b->k[0]);
        if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(EQ, a->k[0], b->k[0]);
        break;
    case ULT:
        if (a == b) return mkConst(1, 0);
        if (isConst(b)) {
            if (b->c == 0) return mkConst(1, 0);
            if (maxVal(a) < b->c) return mkConst(1, 1);
            if (b->c == 1) return mkBin(EQ, a, mkConst(w, 0));
            if (a->op == ZEXT) return mkBin(ULT, a->k[0], mkConst(a->k[0]->w, b->c)); // b->c <= max
        }
        if (isConst(a)) {
            if (a->c == maskw(w)) return mkConst(1, 0);
            if (maxVal(b) <= a->c) return mkConst(1, 0);
            if (b->op == ZEXT) return mkBin(ULT, mkConst(b->k[0]->w, a->c), b->k[0]);
        }
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(ULT, a->k[0], b->k[0]);
        break;
    case ULE:
        if (a == b) return mkConst(1, 1);
        if (isConst(b)) {
            if (maxVal(a) <= b->c) return mkConst(1, 1);
            return mkBin(ULT, a, mkConst(w, b->c + 1));
        }
        if (isConst(a)) {
            if (a->c == 0) return mkConst(1, 1);
            return mkBin(ULT, mkConst(w, a->c - 1), b);
        }
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(ULE, a->k[0], b->k[0]);
        break;
    case SLT:
        if (a == b) return mkConst(1, 0);
        // both known non-negative => unsigned
        if (maxVal(a) <= maskw(w) >> 1 && maxVal(b) <= maskw(w) >> 1) return mkBin(ULT, a, b);
        if (isConst(b) && sx(b->c, w) <= 0 && maxVal(a) <= maskw(w) >> 1) return mkConst(1, 0);
        if (isConst(a) && sx(a->c, w) < 0 && maxVal(b) <= maskw(w) >> 1) return mkConst(1, 1);
        break;
    case SLE:
        if (a == b) return mkConst(1, 1);
        if (maxVal(a) <= maskw(w) >> 1 && maxVal(b) <= maskw(w) >> 1) return mkBin(ULE, a, b);
        break;
    default: break;
    }
    return intern(op, rw, 0, a, b);
}

// Unsigned minimum as a sorted chain without duplicates; x+k is dropped when x+j with j<=k is present.
static void minOperands(E e, std::vector<E> &out) {
    if (e->op == UMIN) { minOperands(e->k[0], out); minOperands(e->k[1], out); }
    else out.push_back(e);
}
static E mkMin(E a, E b) {
    unsigned w = a->w;
    std::vector<E> v;
    minOperands(a, v);
    minOperands(b, v);
    if (v.size() > 64) return intern(UMIN, w, 0, a->id < b->id ? a : b, a->id < b->id ? b : a);
    std::sort(v.begin(), v.end(), [](E x, E y) { return x->id < y->id; });
    v.erase(std::unique(v.begin(), v.end()), v.end());
    std::vector<E> keepv;
    auto split = [&](E e, E &base, uint64_t &k) {
        if (e->op == CONST) { base = nullptr; k = e->c; }
        else if (e->op == ADD && isConst(e->k[1]) && maxVal(e) < maskw(w)) { base = e->k[0]; k = e->k[1]->c; }
        else { base = e; k = 0; }
    };
    // all addends of e: x + y >= x when nothing wraps
    struct A { static void addends(E e, std::vector<E> &o, uint64_t &k) { if (e->op == ADD && maxVal(e) < maskw(e->w)) { addends(e->k[0], o, k); addends(e->k[1], o, k); } else if (e->op == CONST) k += e->c; else o.push_back(e); } };
    std::vector<std::vector<E>> ad(v.size());
    std::vector<uint64_t> ks(v.size());
    for (size_t i = 0; i < v.size(); i++) {
        E base;
        split(v[i], base, ks[i]);
        if (base) A::addends(base, ad[i], ks[i]);
        std::sort(ad[i].begin(), ad[i].end(), [](E x, E y) { return x->id < y->id; });
    }
    auto idless = [](E x, E y) { return x->id < y->id; };
    for (size_t i = 0; i < v.size(); i++) {
        bool drop = false;
        for (size_t j = 0; j < v.size() && !drop; j++) {
            if (j == i) continue;
            if (maxVal(v[j]) == maskw(w)) continue;
            // v[j] <= v[i]: every addend of j is one of i and its constant is no larger
            if (ks[j] <= ks[i] && std::includes(ad[i].begin(), ad[i].end(), ad[j].begin(), ad[j].end(), idless) && (ad[i] != ad[j] || ks[i] != ks[j] || j < i)) drop = true;
        }
        if (!drop) keepv.push_back(v[i]);
    }
    E r = keepv[0];
    for (size_t i = 1; i < keepv.size(); i++) r = intern(UMIN, w, 0, r, keepv[i]);
    return r;
}
static bool sameUpToZext(E x, E y) { // x: operand of a comparison, y: value of the select
    if (x == y) return true;
    if (isConst(x) && isConst(y)) return x->c == y->c;
    return y->op == ZEXT && y->k[0] == x;
}
static E asMin(E c, E a, E b) {
    if ((c->op != ULT && c->op != ULE) || a->w < 8) return nullptr;
    E x = c->k[0], y = c->k[1];
    if (maxVal(a) > maskw(a->w) >> 1 || maxVal(b) > maskw(a->w) >> 1) return nullptr;
    if (sameUpToZext(x, a) && sameUpToZext(y, b)) return mkMin(a, b);
    if (c->op == ULT && isConst(y) && isConst(b) && sameUpToZext(x, a) && b->c + 1 == y->c) return mkMin(a, b);
    if (c->op == ULT && isConst(x) && isConst(a) && sameUpToZext(y, b) && a->c == x->c + 1) return mkMin(a, b);
    return nullptr;
}
E mkIte(E c, E a, E b) {
    if (isConst(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == XOR && c->w == 1 && isTrue(c->k[1])) return mkIte(c->k[0], b, a);
    if (a->w == 1) {
        if (isConst(a) && isConst(b)) return a->c ? c : mkNot(c);
        if (isConst(a)) return a->c ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
        if (isConst(b)) return b->c ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
    }
    if (a->op == ITE && a->k[0] == c) a = a->k[1];
    if (b->op == ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (E m = asMin(c, a, b)) return m;
    // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if (b->op == ITE && b->k[1] == a) return mkIte(mkBin(OR, c, b->k[0]), a, b->k[2]);
    return intern(ITE, a->w, 0, c, a, b);
}

E mkZext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isConst(a)) return mkConst(w, a->c);
    if (a->op == ZEXT) return mkZext(a->k[0], w);
    if (a->op == EXTRACT && a->c == 0 && maxVal(a->k[0]) <= maskw(a->w))
        return a->k[0]->w >= w ? mkExtract(a->k[0], 0, w) : mkZext(a->k[0], w);
    if (a->op == ITE && iteConstLeaves(a, 6)) return mapIte(a, [&](E l) { return mkZext(l, w); });
    return intern(ZEXT, w, 0, a);
}
E mkSext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isConst(a)) return mkConst(w, (uint64_t)sx(a->c, a->w));
    if (a->op == SEXT) return mkSext(a->k[0], w);
    if (a->op == ZEXT) return mkZext(a->k[0], w);
    if (a->w > 1 && maxVal(a) <= maskw(a->w) >> 1) return mkZext(a, w);
    if (a->op == ITE && iteConstLeaves(a, 6)) return mapIte(a, [&](E l) { return mkSext(l, w); });
    return intern(SEXT, w, 0, a);
}
E mkExtract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (off + w > a->w) abort();
    if (isConst(a)) return mkConst(w, a->c >> off);
    if (off && (maxVal(a) >> off) == 0) return mkConst(w, 0);
    switch (a->op) {
    case UMIN:
        if (off == 0 && maxVal(a->k[0]) <= maskw(w) && maxVal(a->k[1]) <= maskw(w)) return mkMin(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    case EXTRACT: return mkExtract(a->k[0], off + a->c, w);
    case CONCAT: {
        unsigned lw = a->k[1]->w;
        if (off + w <= lw) return mkExtract(a->k[1], off, w);
        if (off >= lw) return mkExtract(a->k[0], off - lw, w);
        return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
    }
    case ZEXT: {
        unsigned iw = a->k[0]->w;
        if (off >= iw) return mkConst(w, 0);
        if (off + w <= iw) return mkExtract(a->k[0], off, w);
        return mkZext(mkExtract(a->k[0], off, iw - off), w);
    }
    case SEXT: {
        unsigned iw = a->k[0]->w;
        if (off + w <= iw) return mkExtract(a->k[0], off, w);
        if (off < iw) return mkSext(mkExtract(a->k[0], off, iw - off), w);
        return mkSext(mkExtract(a->k[0], iw - 1, 1), w);
    }
    case AND: case OR: case XOR:
        return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case ADD: case SUB: case MUL:
        if (off == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    case SHL:
        if (isConst(a->k[1])) {
            unsigned s = a->k[1]->c;
            if (off >= s) return mkExtract(a->k[0], off - s, w);
            if (off + w <= s) return mkConst(w, 0);
            return mkConcat(mkExtract(a->k[0], 0, off + w - s), mkConst(s - off, 0));
        }
        break;
    case ITE:
        if (isConst(a->k[1]) || isConst(a->k[2]) || a->k[1]->op == ITE || a->k[2]->op == ITE) {
            if (a->depth < 400) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
        }
        break;
    default: break;
    }
    return intern(EXTRACT, w, off, a);
}
E mkByte(E a, unsigned off) {
    if (a->w > 8 && (a->op == ADD || a->op == SUB || a->op == MUL || a->op == UMIN || a->op == SHL) && (maxVal(a) >> off)) return intern(EXTRACT, 8, off, a);
    return mkExtract(a, off, 8);
}
E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) abort();
    if (isConst(hi) && isConst(lo)) return mkConst(w, hi->c << lo->w | lo->c);
    if (isConst(hi) && hi->c == 0) return mkZext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
        return mkExtract(hi->k[0], lo->c, w);
    if (hi->op == ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
    if (hi->op == CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
    if (lo->op == CONCAT && hi->op == EXTRACT && lo->k[0]->op == EXTRACT && hi->k[0] == lo->k[0]->k[0] &&
        hi->c == lo->k[0]->c + lo->k[0]->w)
        return mkConcat(mkExtract(hi->k[0], lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
    if (isConst(hi) && lo->op == CONCAT && isConst(lo->k[0])) return mkConcat(mkConst(hi->w + lo->k[0]->w, hi->c << lo->k[0]->w | lo->k[0]->c), lo->k[1]);
    // same-condition ITEs (byte pieces of one select)
    if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0])
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    return intern(CONCAT, w, 0, hi, lo);
}

E substVars(E e, const std::unordered_map<uint32_t, E> &map) {
    std::unordered_map<E, E> memo;
    struct R {
        const std::unordered_map<uint32_t, E> &map;
        std::unordered_map<E, E> &memo;
        E go(E e) {
            if (e->op == CONST) return e;
            if (e->op == VAR) { auto it = map.find(e->c); return it == map.end() ? e : it->second; }
            auto it = memo.find(e);
            if (it != memo.end()) return it->second;
            E a = e->k[0] ? go(e->k[0]) : nullptr, b = e->k[1] ? go(e->k[1]) : nullptr, d = e->k[2] ? go(e->k[2]) : nullptr;
            E r;
            switch (e->op) {
            case ITE: r = mkIte(a, b, d); break;
            case ZEXT: r = mkZext(a, e->w); break;
            case SEXT: r = mkSext(a, e->w); break;
            case EXTRACT: r = mkExtract(a, e->c, e->w); break;
            case CONCAT: r = mkConcat(a, b); break;
            default: r = e->op >= FADD ? mkFun(e->op, e->w, a, b) : mkBin(e->op, a, b);
            }
            return memo[e] = r;
        }
    } r{map, memo};
    return r.go(e);
}

static uint32_t g_gen = 1;
void newEvalGen() { ++g_gen; }
uint64_t evalExprSameGen(E e, const Model &m) {
    if (e->op == CONST) return e->c;
    if (e->op == VAR) return e->c < m.size() ? m[e->c] & maskw(e->w) : 0;
    if (e->gen == g_gen) return e->val;
    uint64_t r;
    if (e->op == ITE) r = evalExprSameGen(e->k[0], m) ? evalExprSameGen(e->k[1], m) : evalExprSameGen(e->k[2], m);
    else {
        uint64_t a = evalExprSameGen(e->k[0], m), b = e->k[1] ? evalExprSameGen(e->k[1], m) : 0;
        switch (e->op) {
        case ZEXT: r = a; break;
        case SEXT: r = (uint64_t)sx(a, e->k[0]->w) & maskw(e->w); break;
        case EXTRACT: r = (a >> e->c) & maskw(e->w); break;
        case CONCAT: r = a << e->k[1]->w | b; break;
        default:
            r = e->op >= FADD ? foldFun(e->op, e->w, e->k[0]->w, a, b) : foldBin(e->op, e->k[0]->w, a, b);
        }
    }
    e->gen = g_gen;
    e->val = r;
    return r;
}
uint64_t evalExpr(E e, const Model &m) { newEvalGen(); return evalExprSameGen(e, m); }

std::string exprStr(E e, int depth) {
    static const char *n[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
        "umin", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat", "fadd", "fsub", "fmul", "fdiv", "feq", "flt", "fle", "funo", "fext", "ftrunc", "sitof", "uitof", "ftosi", "ftoui"};
    if (e->op == CONST) return std::to_string(e->c) + ":" + std::to_string(e->w);
    if (e->op == VAR) return g_vars[e->c].name;
    if (!depth) return "..";
    std::string s = std::string("(") + n[e->op];
    if (e->op == EXTRACT) s += "[" + std::to_string(e->c) + "+" + std::to_string(e->w) + "]";
    for (E x : e->k) if (x) s += " " + exprStr(x, depth - 1);
    return s + ")";
}

const uint64_t *truthTable(E e) {
    if (e->bm) return e->bm;
    if (e->w != 1 || e->vs->v.size() != 1) return nullptr;
    uint32_t v = e->vs->v[0];
    if (g_vars[v].w > 8) return nullptr;
    uint64_t *b = (uint64_t *)calloc(4, 8);
    static Model m;
    if (m.size() < v + 1) m.resize(v + 1, 0);
    for (unsigned x = 0; x < (1u << g_vars[v].w); x++) {
        m[v] = x;
        if (evalExpr(e, m)) b[x >> 6] |= 1ull << (x & 63);
    }
    e->bm = b;
    return b;
}

// ---- minima of sums: a value is written as the minimum of sums of atoms plus a constant, when nothing can wrap
struct Mono { std::vector<std::pair<E, uint32_t>> a; uint64_t k; }; // atoms sorted by id, with multiplicities
typedef std::vector<Mono> Trop;
static bool monoLe(const Mono &x, const Mono &y) { // x <= y for all (unsigned) atom values
    if (x.k > y.k) return false;
    size_t j = 0;
    for (auto &p : x.a) {
        while (j < y.a.size() && y.a[j].first->id < p.first->id) j++;
        if (j == y.a.size() || y.a[j].first != p.first || y.a[j].second < p.second) return false;
    }
    return true;
}
static bool monoEq(const Mono &x, const Mono &y) { return x.k == y.k && x.a == y.a; }
static bool monoLess(const Mono &x, const Mono &y) {
    if (x.a.size() != y.a.size()) return x.a.size() < y.a.size();
    for (size_t i = 0; i < x.a.size(); i++) {
        if (x.a[i].first != y.a[i].first) return x.a[i].first->id < y.a[i].first->id;
        if (x.a[i].second != y.a[i].second) return x.a[i].second < y.a[i].second;
    }
    return x.k < y.k;
}
static void tropReduce(Trop &t) {
    std::sort(t.begin(), t.end(), monoLess);
    Trop r;
    for (size_t i = 0; i < t.size(); i++) {
        bool drop = false;
        for (size_t j = 0; j < t.size() && !drop; j++)
            if (j != i && monoLe(t[j], t[i]) && (!monoEq(t[i], t[j]) || j < i)) drop = true;
        if (!drop) r.push_back(t[i]);
    }
    t.swap(r);
}
static const size_t TROP_MAX = 160;
static std::unordered_map<E, Trop *> g_trop; // null: not of this form within the limit
static const Trop *trop(E e);
static const Trop *trop1(E e) {
    auto atom = [&](E x) { Trop *t = new Trop(1); (*t)[0].k = 0; (*t)[0].a.push_back({x, 1}); return t; };
    switch (e->op) {
    case CONST: { Trop *t = new Trop(1); (*t)[0].k = e->c; return t; }
    case ZEXT: return trop(e->k[0]);
    case SEXT: if (e->k[0]->w > 1 && maxVal(e->k[0]) <= maskw(e->k[0]->w) >> 1) return trop(e->k[0]); return atom(e);
    case EXTRACT: if (e->c == 0 && maxVal(e->k[0]) <= maskw(e->w)) return trop(e->k[0]); return atom(e);
    case UMIN: {
        const Trop *a = trop(e->k[0]), *b = trop(e->k[1]);
        if (!a || !b) return nullptr;
        Trop *t = new Trop(*a);
        t->insert(t->end(), b->begin(), b->end());
        tropReduce(*t);
        if (t->size() > TROP_MAX) { delete t; return nullptr; }
        return t;
    }
    case ADD: {
        uint64_t x = maxVal(e->k[0]), y = maxVal(e->k[1]), m = maskw(e->w);
        if (x > m - y) return atom(e);
        const Trop *a = trop(e->k[0]), *b = trop(e->k[1]);
        if (!a || !b || a->size() * b->size() > 4000) return nullptr;
        Trop *t = new Trop();
        for (auto &p : *a) for (auto &q : *b) {
            Mono s;
            s.k = p.k + q.k;
            size_t i = 0, j = 0;
            while (i < p.a.size() || j < q.a.size()) {
                if (j == q.a.size() || (i < p.a.size() && p.a[i].first->id < q.a[j].first->id)) s.a.push_back(p.a[i++]);
                else if (i == p.a.size() || q.a[j].first->id < p.a[i].first->id) s.a.push_back(q.a[j++]);
                else { s.a.push_back({p.a[i].first, p.a[i].second + q.a[j].second}); i++; j++; }
            }
            t->push_back(s);
        }
        tropReduce(*t);
        if (t->size() > TROP_MAX) { delete t; return nullptr; }
        return t;
    }
    case CONCAT: case SHL: case MUL: {
        if (!isConst(e->k[1])) return atom(e);
        if (e->op == CONCAT && (e->k[1]->c || e->k[1]->w > 12)) return atom(e);
        uint64_t f = e->op == CONCAT ? 1ull << e->k[1]->w : e->op == MUL ? e->k[1]->c : e->k[1]->c < 16 ? 1ull << e->k[1]->c : 0;
        if (!f || f > 4096 || maxVal(e->k[0]) > maskw(e->w) / f) return atom(e);
        const Trop *a = trop(e->k[0]);
        if (!a) return nullptr;
        Trop *t = new Trop(*a);
        for (auto &p : *t) { p.k *= f; for (auto &q : p.a) q.second *= f; }
        return t;
    }
    case ITE: {
        E c = e->k[0];
        if (c->op == ULT || c->op == ULE || ((c->op == SLT || c->op == SLE) && maxVal(c->k[0]) <= maskw(c->k[0]->w) >> 1 && maxVal(c->k[1]) <= maskw(c->k[1]->w) >> 1)) {
            if (tropEq(c->k[0], e->k[1]) && tropEq(c->k[1], e->k[2])) {
                const Trop *a = trop(e->k[1]), *b = trop(e->k[2]);
                Trop *t = new Trop(*a);
                t->insert(t->end(), b->begin(), b->end());
                tropReduce(*t);
                if (t->size() > TROP_MAX) { delete t; return nullptr; }
                return t;
            }
        }
        return atom(e);
    }
    default: return atom(e);
    }
}
static const Trop *trop(E e) {
    auto it = g_trop.find(e);
    if (it != g_trop.end()) return it->second;
    const Trop *t = trop1(e);
    g_trop[e] = const_cast<Trop *>(t);
    return t;
}
bool tropEq(E a, E b) {
    if (a == b) return true;
    if (a->vs != b->vs) return false; // also when one side has a variable that plays no role; then the solver decides
    const Trop *x = trop(a), *y = trop(b);
    if (!x || !y || x->size() != y->size()) return false;
    for (size_t i = 0; i < x->size(); i++) if (!monoEq((*x)[i], (*y)[i])) return false;
    return true;
}
