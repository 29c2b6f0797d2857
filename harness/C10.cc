// @bound histories of up to 4 operations (thorough 5) out of pair settings, group settings and clears with arbitrary costs, letters on both sides of the table limit; all pairs of 9 letters probed
// @bound histories of up to 2 operations (thorough 3) probed with one letter of 6 against every 16-bit letter
// @bound one and two pair settings between arbitrary letters of 512..65535 probed with two arbitrary letters of 512..65535, and pair settings with both letters arbitrary within 500..523
// @bound all pairs of letters below 512 without settings or after clearing
// @time c10_row 300
#include "common.h"
#include "ErrorValues.hh"

struct Model {
    struct Pair { Letter_ a, b; int cost; };
    Pair single[8];
    int singles = 0;
    Letter_ member[8][4];
    int members[8], groupCost[8], groups = 0;
    void pair(Letter_ a, Letter_ b, int c) { single[singles++] = {a, b, c}; }
    bool group(const Letter_ *l, int n, int c) {
        for (int i = 0; i < n; i++)
            for (int g = 0; g < groups; g++)
                for (int k = 0; k < members[g]; k++) if (member[g][k] == l[i]) return false;
        for (int i = 0; i < n; i++) member[groups][i] = l[i];
        members[groups] = n; groupCost[groups++] = c;
        return true;
    }
    void clear() { singles = groups = 0; }
    int cost(Letter_ a, Letter_ b) const {
        int c = ErrorValues::getDefaultError();
        for (int g = 0; g < groups; g++) {
            bool x = false, y = false;
            for (int k = 0; k < members[g]; k++) { x = x | (member[g][k] == a); y = y | (member[g][k] == b); }
            c = (int)(uint32_t)vp_ite(x & y, (uint32_t)groupCost[g], (uint32_t)c);
        }
        for (int i = 0; i < singles; i++) {
            bool m = ((single[i].a == a) & (single[i].b == b)) | ((single[i].a == b) & (single[i].b == a));
            c = (int)(uint32_t)vp_ite(m, (uint32_t)single[i].cost, (uint32_t)c);
        }
        return (int)(uint32_t)vp_ite(a == b, 0, (uint32_t)c);
    }
};
static const Letter_ pairs[][2] = {{'a', 'b'}, {0x3b1, 'a'}, {0x3b2, 0x3b1}, {511, 512}, {'b', 'b'}};
static const Letter_ groups[][4] = {{'a', 'b', 0, 0}, {'a', 0x3b1, 0x3b2, 0}, {511, 512, 'b', 0}, {0x3b1, 'c', 'c', 0}};
static const int groupLen[] = {2, 3, 3, 3};

static void apply(ErrorValues &e, Model &m, int cost) {
    unsigned o = vp_choose("op", 10);
    if (o < 5) {
        e.setError(Letter(pairs[o][0]), Letter(pairs[o][1]), cost);
        m.pair(pairs[o][0], pairs[o][1], cost);
    } else if (o < 9) {
        const Letter_ *g = groups[o - 5];
        int n = groupLen[o - 5];
        Word w = mkWord(g, n);
        int t = throws<std::runtime_error>([&] { e.setGroupError(w, cost); });
        bool ok = m.group(g, n, cost);
        vp_check(t == (ok ? NOTHROW : THROWS), "a group is refused exactly when one of its letters is taken");
    } else {
        e.clearErrors();
        m.clear();
    }
}
static void history(unsigned n) {
    ErrorValues e;
    Model m;
    int c[5];
    for (unsigned i = 0; i < n; i++) c[i] = (int)vp_u32("cost");
    for (unsigned i = 0; i < n; i++) apply(e, m, c[i]);
    static const Letter_ probe[] = {'a', 'b', 'c', 0x3b1, 0x3b2, 511, 512, 0x1b1, 0xffff};
    bool ok = true;
    for (Letter_ x : probe)
        for (Letter_ y : probe) ok = ok & (e.getSubstituteError(Letter(x), Letter(y)) == m.cost(x, y));
    vp_check(ok, "substitution costs follow the settings");
}
VP_ENTRY(c10_history) { history(4); vp_reach("history"); }
VP_ENTRY(c10_history_t) { history(5); vp_reach("history"); }
static void row(unsigned n) {
    ErrorValues e;
    Model m;
    int c[4];
    for (unsigned i = 0; i < n; i++) c[i] = (int)vp_u32("cost");
    Letter_ y = (Letter_)vp_u16("second");
    for (unsigned i = 0; i < n; i++) apply(e, m, c[i]);
    static const Letter_ probe[] = {'a', 'b', 'z', 0x3b1, 511, 512};
    Letter_ x = probe[vp_choose("first", 6)];
    bool flip = vp_choose("flip", 2);
    vp_check(e.getSubstituteError(Letter(flip ? y : x), Letter(flip ? x : y)) == m.cost(x, y), "the cost of a letter against any letter follows the settings");
}
VP_ENTRY(c10_row) { row(2); vp_reach("row"); }
VP_ENTRY(c10_row_t) { row(3); vp_reach("row"); }
static void pairsIn(unsigned n, int lo, int hi) {
    ErrorValues e;
    Model m;
    for (unsigned i = 0; i < n; i++) {
        Letter_ a = letter("a", lo, hi), b = letter("b", lo, hi);
        int c = (int)vp_u32("cost");
        e.setError(Letter(a), Letter(b), c);
        m.pair(a, b, c);
    }
    Letter_ x = letter("x", lo, hi), y = letter("y", lo, hi);
    vp_check(e.getSubstituteError(Letter(x), Letter(y)) == m.cost(x, y), "the cost of any two letters follows the pair settings");
}
VP_ENTRY(c10_large) { pairsIn(1 + vp_choose("settings", 2), 512, 65535); vp_reach("large"); }
VP_ENTRY(c10_limit) { pairsIn(1, 500, 523); vp_reach("limit"); }
VP_ENTRY(c10_limit_t) { pairsIn(2, 508, 515); vp_reach("limit"); }
// two small letters, everything arbitrary, no setting
static void plain(int base) {
    ErrorValues e;
    if (vp_choose("cleared", 2)) { e.setError(Letter('a'), Letter(base), 7); e.setGroupError(Word("xyz"), 9); e.clearErrors(); }
    Letter_ x = letter("x", base, base + 15), y = letter("y", 0, 511);
    bool flip = vp_choose("flip", 2);
    vp_check(e.getSubstituteError(Letter(flip ? y : x), Letter(flip ? x : y)) == (int)(uint32_t)vp_ite(x == y, 0, 100), "without settings the default error applies");
}
VP_ENTRY(c10_default) { plain(16 * vp_choose("band", 32)); vp_reach("default"); }
