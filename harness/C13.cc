// @bound histories of 6 operations (thorough 7) on two result sets (add, merge, copy one result, read, assign), arbitrary 64-bit documents and relevancies any integer of -128..127, sets of up to 6 (7) results
// @bound 3 results (thorough 4) with arbitrary finite and infinite double relevancies
// @bound sets of 15..20 and 33 results in rising, falling, mixed and all-equal patterns with one arbitrary relevancy
// @time c13_history_t 850
// @assume relevancies are not NaN
#include "common.h"
#include "MatchResults.hh"
#include <cstring>

struct R { DocumentID id; double r; };
struct Model {
    R v[80];
    int n = 0;
    void add(DocumentID id, double r) { v[n].id = id; v[n++].r = r; }
    void merge(const Model &o) { int k = o.n; for (int i = 0; i < k; i++) v[n++] = o.v[i]; }
    // falling relevancy, equal ones in the order they came
    void sorted(R *out) const {
        for (int i = 0; i < n; i++) {
            int k = i;
            while (k > 0 && out[k - 1].r < v[i].r) { out[k] = out[k - 1]; k--; }
            out[k] = v[i];
        }
    }
};
static void same(const MatchResults &m, const Model &e) {
    R want[80];
    vp_check(m.size() == (size_t)e.n, "a result set has as many results as were put in");
    if (m.size() != (size_t)e.n) return;
    e.sorted(want);
    bool id = true, rel = true;
    for (int i = 0; i < e.n; i++) {
        id = id & (m.getDocumentID(i) == want[i].id);
        rel = rel & (m.getRelevancy(i) == want[i].r);
    }
    vp_check(id, "documents are listed by falling relevancy, ties in order of addition");
    vp_check(rel, "every document is listed with its own relevancy");
}
static void history(int ops, int max) {
    MatchResults a, b;
    Model ma, mb;
    R in[8];
    for (int i = 0; i < ops; i++) { in[i].id = vp_u64("document"); in[i].r = (double)(int8_t)vp_u8("relevancy"); }
    for (int i = 0; i < ops; i++) {
        switch (vp_choose("op", 8)) {
        case 0: a.addResult(in[i].id, in[i].r); ma.add(in[i].id, in[i].r); break;
        case 1: b.addResult(in[i].id, in[i].r); mb.add(in[i].id, in[i].r); break;
        case 2: vp_assume(ma.n + mb.n <= max && mb.n > 0); a.addResults(b); ma.merge(mb); break;
        case 3: {
            vp_assume(mb.n > 0);
            int k = vp_choose("which", mb.n);
            R s[80];
            mb.sorted(s);
            a.copyResult(b, k);
            ma.add(s[k].id, s[k].r);
            break;
        }
        case 4: vp_assume(ma.n > 1); same(a, ma); break;
        case 5: vp_assume(mb.n > 1); same(b, mb); break;
        case 6: vp_assume(ma.n > 0); b = a; mb = ma; break;
        case 7: {
            vp_assume(ma.n > 0);
            int k = vp_choose("which", ma.n);
            R s[80];
            ma.sorted(s);
            a.copyResult(a, k);
            ma.add(s[k].id, s[k].r);
            break;
        }
        }
    }
    same(a, ma);
    same(b, mb);
    MatchResults c(a);
    same(c, ma);
}
VP_ENTRY(c13_history) { history(6, 6); vp_reach("history"); }
VP_ENTRY(c13_history_t) { history(7, 7); vp_reach("history"); }
static void doubles(int n) {
    MatchResults m;
    Model e;
    for (int i = 0; i < n; i++) {
        uint64_t bits = vp_u64("relevancy");
        double r;
        vp_assume((bits & 0x7ff0000000000000ull) != 0x7ff0000000000000ull || (bits & 0xfffffffffffffull) == 0);
        memcpy(&r, &bits, 8);
        m.addResult(100 + i, r);
        e.add(100 + i, r);
    }
    same(m, e);
}
VP_ENTRY(c13_doubles) { doubles(3); vp_reach("doubles"); }
VP_ENTRY(c13_doubles_t) { doubles(4); vp_reach("doubles"); }
VP_ENTRY(c13_many) {
    static const int counts[] = {15, 16, 17, 20, 33};
    int n = counts[vp_choose("count", 5)], pattern = vp_choose("pattern", 4), at = vp_choose("at", 4) * (n - 1) / 3;
    double x = (double)vp_u8("relevancy");
    MatchResults m, o;
    Model e;
    bool merge = vp_choose("merge", 2);
    for (int i = 0; i < n; i++) {
        double r = pattern == 0 ? i : pattern == 1 ? n - i : pattern == 2 ? (i * 7) % 5 : 3;
        if (i == at) r = x;
        if (merge && i >= n / 2) o.addResult(1000 - i, r); else m.addResult(1000 - i, r);
        e.add(1000 - i, r);
    }
    if (merge) { if (o.size()) o.getDocumentID(0); m.getRelevancy(0); m.addResults(o); }
    same(m, e);
    vp_reach("many");
}
// small and close relevancies stay apart
VP_ENTRY(c13_close) {
    MatchResults m;
    Model e;
    double base = vp_choose("scale", 2) == 0 ? 1.0 : 1e-9;
    for (int i = 0; i < 4; i++) {
        double r = base + base * (double)vp_choose("step", 3) * 1e-7;
        m.addResult(i, r);
        e.add(i, r);
    }
    same(m, e);
    vp_reach("close");
}
