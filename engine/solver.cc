#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <unordered_set>

SolverStats g_sstats;
unsigned g_auditEvery = 64;
static Z3_context ctx;
static Z3_solver smtSolver, bvSolver, fpSolver;
static std::vector<Z3_ast> varAst;

static void onErr(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}
static void setU(Z3_solver s, const char *k, unsigned v) {
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k), v);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
}
static Z3_tactic T(const char *n) { Z3_tactic t = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, t); return t; }
static Z3_tactic then(Z3_tactic a, Z3_tactic b) { Z3_tactic t = Z3_tactic_and_then(ctx, a, b); Z3_tactic_inc_ref(ctx, t); return t; }
void solverInit() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, onErr);
    Z3_tactic bv = then(T("simplify"), then(T("propagate-values"), then(T("solve-eqs"), then(T("elim-uncnstr"), then(T("simplify"), then(T("bit-blast"), T("sat")))))));
    bvSolver = Z3_mk_solver_from_tactic(ctx, bv);
    Z3_solver_inc_ref(ctx, bvSolver);
    fpSolver = Z3_mk_solver_from_tactic(ctx, T("qffpbv"));
    Z3_solver_inc_ref(ctx, fpSolver);
    smtSolver = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, smtSolver);
    setU(smtSolver, "rlimit", 400000);
    setU(bvSolver, "rlimit", 400000000);
    setU(fpSolver, "rlimit", 1500000000);
}

static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast toBool(E e);
static Z3_ast toBv(E e);
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); }
static Z3_ast rne() { static Z3_ast r = keep(Z3_mk_fpa_rne(ctx)); return r; }
static Z3_ast rtz() { static Z3_ast r = keep(Z3_mk_fpa_rtz(ctx)); return r; }
// floating point view: avoid bv<->fp round trips
static std::unordered_map<E, Z3_ast> fpMemo;
static Z3_ast toFp(E e) {
    auto it = fpMemo.find(e);
    if (it != fpMemo.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
    case FADD: r = Z3_mk_fpa_add(ctx, rne(), toFp(e->k[0]), toFp(e->k[1])); break;
    case FSUB: r = Z3_mk_fpa_sub(ctx, rne(), toFp(e->k[0]), toFp(e->k[1])); break;
    case FMUL: r = Z3_mk_fpa_mul(ctx, rne(), toFp(e->k[0]), toFp(e->k[1])); break;
    case FDIV: r = Z3_mk_fpa_div(ctx, rne(), toFp(e->k[0]), toFp(e->k[1])); break;
    case FEXT: case FTRUNC: r = Z3_mk_fpa_to_fp_float(ctx, rne(), toFp(e->k[0]), fps(e->w)); break;
    case SITOF: r = Z3_mk_fpa_to_fp_signed(ctx, rne(), toBv(e->k[0]), fps(e->w)); break;
    case UITOF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne(), toBv(e->k[0]), fps(e->w)); break;
    case ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), toFp(e->k[1]), toFp(e->k[2])); break;
    default: r = Z3_mk_fpa_to_fp_bv(ctx, toBv(e), fps(e->w)); break;
    }
    fpMemo[e] = keep(r);
    return r;
}
static Z3_ast toBv(E e) {
    if (e->z3bv) return (Z3_ast)e->z3bv;
    Z3_ast r = nullptr;
    auto A = [&] { return toBv(e->k[0]); };
    auto B = [&] { return toBv(e->k[1]); };
    switch (e->op) {
    case CONST: r = Z3_mk_unsigned_int64(ctx, e->c, bvs(e->w)); break;
    case VAR: {
        std::string n = "v" + std::to_string(e->c);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bvs(e->w));
        break;
    }
    case ADD: r = Z3_mk_bvadd(ctx, A(), B()); break;
    case SUB: r = Z3_mk_bvsub(ctx, A(), B()); break;
    case MUL: r = Z3_mk_bvmul(ctx, A(), B()); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, A(), B()); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, A(), B()); break;
    case UREM: r = Z3_mk_bvurem(ctx, A(), B()); break;
    case SREM: r = Z3_mk_bvsrem(ctx, A(), B()); break;
    case SHL: r = Z3_mk_bvshl(ctx, A(), B()); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, A(), B()); break;
    case ASHR: r = Z3_mk_bvashr(ctx, A(), B()); break;
    case AND: if (e->w > 1) r = Z3_mk_bvand(ctx, A(), B()); break;
    case OR: if (e->w > 1) r = Z3_mk_bvor(ctx, A(), B()); break;
    case XOR: if (e->w > 1) r = Z3_mk_bvxor(ctx, A(), B()); break;
    case ITE: if (e->w > 1) r = Z3_mk_ite(ctx, toBool(e->k[0]), toBv(e->k[1]), toBv(e->k[2])); break;
    case UMIN: r = Z3_mk_ite(ctx, Z3_mk_bvult(ctx, A(), B()), A(), B()); break;
    case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, A()); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, A()); break;
    case EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, A()); break;
    case CONCAT: r = Z3_mk_concat(ctx, A(), B()); break;
    case FADD: case FSUB: case FMUL: case FDIV: case FEXT: case FTRUNC: case SITOF: case UITOF:
        r = Z3_mk_fpa_to_ieee_bv(ctx, toFp(e)); break;
    case FTOSI: r = Z3_mk_fpa_to_sbv(ctx, rtz(), toFp(e->k[0]), e->w); break;
    case FTOUI: r = Z3_mk_fpa_to_ubv(ctx, rtz(), toFp(e->k[0]), e->w); break;
    default: break;
    }
    if (!r) { // boolean operator used as a bit
        r = Z3_mk_ite(ctx, toBool(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1)));
    }
    const_cast<Expr *>(e)->z3bv = keep(r);
    return r;
}
static Z3_ast toBool(E e) {
    if (e->z3bool) return (Z3_ast)e->z3bool;
    Z3_ast r = nullptr;
    auto A = [&] { return toBv(e->k[0]); };
    auto B = [&] { return toBv(e->k[1]); };
    switch (e->op) {
    case CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case EQ: if (e->k[0]->w == 1) r = Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1])); else r = Z3_mk_eq(ctx, A(), B()); break;
    case ULT: r = Z3_mk_bvult(ctx, A(), B()); break;
    case ULE: r = Z3_mk_bvule(ctx, A(), B()); break;
    case SLT: r = Z3_mk_bvslt(ctx, A(), B()); break;
    case SLE: r = Z3_mk_bvsle(ctx, A(), B()); break;
    case AND: { Z3_ast x[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(ctx, 2, x); break; }
    case OR: { Z3_ast x[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(ctx, 2, x); break; }
    case XOR:
        if (e->k[1]->op == CONST && e->k[1]->c) r = Z3_mk_not(ctx, toBool(e->k[0]));
        else r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1]));
        break;
    case ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    case FEQ: r = Z3_mk_fpa_eq(ctx, toFp(e->k[0]), toFp(e->k[1])); break;
    case FLT: r = Z3_mk_fpa_lt(ctx, toFp(e->k[0]), toFp(e->k[1])); break;
    case FLE: r = Z3_mk_fpa_leq(ctx, toFp(e->k[0]), toFp(e->k[1])); break;
    case FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, toFp(e->k[0])), Z3_mk_fpa_is_nan(ctx, toFp(e->k[1]))}; r = Z3_mk_or(ctx, 2, x); break; }
    default: r = Z3_mk_eq(ctx, toBv(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1))); break;
    }
    const_cast<Expr *>(e)->z3bool = keep(r);
    return r;
}

static std::unordered_map<E, bool> fpUse;
static bool usesFp(E e) {
    if (e->op >= FADD) return true;
    if (e->op == CONST || e->op == VAR) return false;
    auto it = fpUse.find(e);
    if (it != fpUse.end()) return it->second;
    bool r = false;
    for (E x : e->k) if (x && usesFp(x)) { r = true; break; }
    return fpUse[e] = r;
}

struct CacheEnt { SatRes r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::string, CacheEnt> cache;
typedef std::vector<std::pair<uint32_t, uint64_t>> PModel;
static std::vector<PModel> recent;
static size_t recentPos;

static double slowLimit() { static double v = getenv("SYMX_SLOW") ? atof(getenv("SYMX_SLOW")) : 1e9; return v; }
static SatRes runSolver(Z3_solver s, const std::vector<E> &q, const std::vector<uint32_t> &vars, PModel &pm) {
    Z3_solver_push(ctx, s);
    for (E e : q) Z3_solver_assert(ctx, s, toBool(e));
    Z3_lbool r = Z3_solver_check(ctx, s);
    SatRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (res == SAT) {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        for (uint32_t v : vars) {
            Z3_ast out;
            uint64_t x = 0;
            if (Z3_model_eval(ctx, m, toBv(g_vars[v].e), true, &out)) Z3_get_numeral_uint64(ctx, out, (uint64_t *)&x);
            pm.push_back({v, x});
        }
        Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_pop(ctx, s, 1);
    return res;
}

// Conditions over few small variables: backtracking over the exact domains. Complete (every assignment is either
// visited or excluded by a violated condition) or gives up (UNKNOWN).
static SatRes finiteDomain(const std::vector<E> &q, const std::vector<uint32_t> &vars, E extra, const Model &base, PModel &pm) {
    size_t n = vars.size();
    if (n < 2 || n > 12) return UNKNOWN;
    struct V { uint32_t v; std::vector<uint8_t> vals; bool ex; };
    std::vector<V> o(n);
    for (size_t i = 0; i < n; i++) {
        if (g_vars[vars[i]].e->w > 8) return UNKNOWN;
        uint64_t dom[4] = {~0ull, ~0ull, ~0ull, ~0ull};
        for (E e : q)
            if (e->vs->v.size() == 1 && e->vs->v[0] == vars[i])
                if (const uint64_t *b = truthTable(e)) for (int k = 0; k < 4; k++) dom[k] &= b[k];
        o[i].v = vars[i];
        o[i].ex = std::find(extra->vs->v.begin(), extra->vs->v.end(), vars[i]) != extra->vs->v.end();
        unsigned top = 1u << g_vars[vars[i]].e->w;
        for (unsigned x = 0; x < top; x++) if (dom[x >> 6] >> (x & 63) & 1) o[i].vals.push_back((uint8_t)x);
        if (o[i].vals.size() > 64) return UNKNOWN;
    }
    std::stable_sort(o.begin(), o.end(), [](const V &a, const V &b) { return a.ex != b.ex ? a.ex : a.vals.size() < b.vals.size(); });
    std::vector<std::vector<E>> at(n);
    for (E e : q) {
        if (e->vs->v.size() < 2) { if (e->vs->v.size() == 1 && truthTable(e)) continue; }
        size_t lv = 0;
        for (size_t i = 0; i < n; i++) if (std::find(e->vs->v.begin(), e->vs->v.end(), o[i].v) != e->vs->v.end()) lv = i;
        at[lv].push_back(e);
    }
    static Model m;
    m = base;
    if (m.size() < g_vars.size()) m.resize(g_vars.size(), 0);
    std::vector<size_t> pos(n, 0);
    int budget = 1500;
    size_t d = 0;
    while (true) {
        if (pos[d] == o[d].vals.size()) {
            if (d == 0) return UNSAT;
            pos[d] = 0;
            pos[--d]++;
            continue;
        }
        m[o[d].v] = o[d].vals[pos[d]];
        newEvalGen();
        bool ok = true;
        for (E e : at[d]) {
            if (--budget < 0) return UNKNOWN;
            if (!evalExprSameGen(e, m)) { ok = false; break; }
        }
        if (!ok) { pos[d]++; continue; }
        if (d + 1 == n) break;
        if (--budget < 0) return UNKNOWN;
        d++;
    }
    for (size_t i = 0; i < n; i++) pm.push_back({o[i].v, m[o[i].v]});
    return SAT;
}

SatRes solverCheck(const std::vector<E> &cs, E extra, const Model &base, Model &out) {
    if (extra->op == CONST) {
        if (!extra->c) return UNSAT;
        out = base;
        return SAT;
    }
    // slice
    static std::vector<uint8_t> mark;
    static std::vector<uint32_t> vars;
    mark.assign(g_vars.size(), 0);
    vars.clear();
    auto addVars = [&](E e) { for (uint32_t v : e->vs->v) if (!mark[v]) { mark[v] = 1; vars.push_back(v); } };
    addVars(extra);
    std::vector<E> q;
    static std::vector<E> rest, nrest;
    rest.assign(cs.begin(), cs.end());
    for (bool ch = true; ch;) {
        ch = false;
        nrest.clear();
        for (E c : rest) {
            bool hit = false;
            for (uint32_t v : c->vs->v) if (mark[v]) { hit = true; break; }
            if (hit) { q.push_back(c); addVars(c); ch = true; } else nrest.push_back(c);
        }
        rest.swap(nrest);
    }
    q.push_back(extra);
    std::sort(q.begin(), q.end(), [](E a, E b) { return a->id < b->id; });
    q.erase(std::unique(q.begin(), q.end()), q.end());
    std::string key;
    for (E e : q) key.append((const char *)&e->id, 4);
    auto apply = [&](const PModel &pm) {
        out = base;
        if (out.size() < g_vars.size()) out.resize(g_vars.size(), 0);
        for (auto &p : pm) out[p.first] = p.second;
    };
    auto it = cache.find(key);
    if (it != cache.end()) {
        g_sstats.cacheHits++;
        if (it->second.r == SAT) apply(it->second.m);
        return it->second.r;
    }
    // a condition on one small variable: exact domain of that variable under its own constraints
    static Model tmp;
    if (const uint64_t *tt = truthTable(extra)) {
        uint32_t v = extra->vs->v[0];
        uint64_t dom[4] = {tt[0], tt[1], tt[2], tt[3]};
        bool only = true;
        for (E e : q) {
            if (e->vs->v.size() == 1 && e->vs->v[0] == v) { const uint64_t *b = truthTable(e); for (int i = 0; i < 4; i++) dom[i] &= b[i]; }
            else only = false;
        }
        if (!(dom[0] | dom[1] | dom[2] | dom[3])) { g_sstats.domain++; g_sstats.unsat++; cache[key] = {UNSAT, {}}; return UNSAT; }
        tmp = base;
        if (tmp.size() < g_vars.size()) tmp.resize(g_vars.size(), 0);
        int tries = 0;
        for (unsigned x = 0; x < 256 && tries < 12; x++) {
            if (!(dom[x >> 6] >> (x & 63) & 1)) continue;
            tries++;
            tmp[v] = x;
            bool ok = true;
            if (!only) { newEvalGen(); for (size_t k = 0; ok && k < q.size(); k++) ok = evalExprSameGen(q[k], tmp); }
            if (ok) {
                if (only) { g_sstats.domain++; g_sstats.sat++; cache[key] = {SAT, {{v, x}}}; } else g_sstats.modelHits++;
                out = tmp;
                return SAT;
            }
        }
    }
    // try recent models
    for (size_t i = 0; i < recent.size(); i++) {
        size_t j = (recentPos + recent.size() - 1 - i) % recent.size();
        tmp = base;
        if (tmp.size() < g_vars.size()) tmp.resize(g_vars.size(), 0);
        bool any = false;
        for (auto &p : recent[j]) if (mark[p.first]) { tmp[p.first] = p.second; any = true; }
        if (!any) continue;
        newEvalGen();
        bool ok = evalExprSameGen(extra, tmp);
        for (size_t k = 0; ok && k < q.size(); k++) ok = evalExprSameGen(q[k], tmp);
        if (ok) { g_sstats.modelHits++; out = tmp; return SAT; }
    }
    PModel fm;
    SatRes fr = finiteDomain(q, vars, extra, base, fm);
    if (fr != UNKNOWN) {
        g_sstats.domain++;
        // the solver confirms a share of these verdicts
        static unsigned nth = 0;
        if (nth++ % g_auditEvery == 0) {
            PModel zm;
            bool fpq = false;
            for (E e : q) if (usesFp(e)) { fpq = true; break; }
            auto t0 = std::chrono::steady_clock::now();
            SatRes z = runSolver(fpq ? fpSolver : smtSolver, q, vars, zm);
            g_sstats.audits++;
            g_sstats.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (z != UNKNOWN && z != fr) { fprintf(stderr, "symx: finite-domain verdict differs from the solver's\n"); g_sstats.unknown++; return UNKNOWN; }
        }
        if (fr == SAT) { g_sstats.sat++; apply(fm); } else g_sstats.unsat++;
        cache[key] = {fr, fm};
        return fr;
    }
    auto t0 = std::chrono::steady_clock::now();
    bool fp = false;
    for (E e : q) if (usesFp(e)) { fp = true; break; }
    PModel pm;
    SatRes r;
    if (fp) r = runSolver(fpSolver, q, vars, pm);
    else {
        r = runSolver(smtSolver, q, vars, pm);
        if (r == UNKNOWN) { pm.clear(); r = runSolver(bvSolver, q, vars, pm); }
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_sstats.queries++;
    g_sstats.seconds += dt;
    if (dt > g_sstats.maxSeconds) g_sstats.maxSeconds = dt;
    if (dt > slowLimit()) {
        fprintf(stderr, "slow query %.2fs res=%d n=%zu\n", dt, r, q.size());
        for (E e : q) fprintf(stderr, "   %s\n", exprStr(e, 8).substr(0, 400).c_str());
    }
    if (r == SAT) g_sstats.sat++; else if (r == UNSAT) g_sstats.unsat++; else g_sstats.unknown++;
    if (r == SAT) {
        apply(pm);
        // the solver's model must satisfy the query under our own evaluator
        newEvalGen();
        for (E e : q) if (!evalExprSameGen(e, out)) {
            fprintf(stderr, "symx: solver model does not satisfy query: %s\n", exprStr(e, 8).c_str());
            r = UNKNOWN;
            break;
        }
        if (r == SAT) {
            if (recent.size() < 24) { recent.push_back(pm); recentPos = recent.size() % 24; }
            else { recent[recentPos] = pm; recentPos = (recentPos + 1) % recent.size(); }
        }
    }
    cache[key] = {r, r == SAT ? pm : PModel()};
    return r;
}
