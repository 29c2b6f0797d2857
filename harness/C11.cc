// @bound sequences of 2 groups (thorough 3, and 2 of up to 3 letters) of 1..2 arbitrary letters of 2048..55295 with arbitrary costs; membership and cost of two arbitrary letters of that range compared before and after
// @bound sequences of 3 groups out of overlapping and disjoint words with letters on both sides of the table limit (thorough 4), the offending letter first, middle, last or twice; all pairs of 12 letters, and one letter against every 16-bit letter
// @assume letters of a group are not white space or surrogates (a word refuses those)
// @time c11_three_t 900
// @time c11_long_t 900
#include "common.h"
#include "ErrorValues.hh"

struct Group { Letter_ l[4]; int n; int cost; bool in; };
static bool has(const Group &g, Letter_ l) {
    bool r = false;
    for (int i = 0; i < g.n; i++) r = r | (g.l[i] == l);
    return r;
}
static int cost(const Group *g, int n, Letter_ a, Letter_ b, int start) {
    int c = start;
    for (int i = 0; i < n; i++) if (g[i].in) c = (int)(uint32_t)vp_ite(has(g[i], a) & has(g[i], b), (uint32_t)g[i].cost, (uint32_t)c);
    return (int)(uint32_t)vp_ite(a == b, 0, (uint32_t)c);
}
static bool member(const Group *g, int n, Letter_ a) {
    bool r = false;
    for (int i = 0; i < n; i++) if (g[i].in) r = r | has(g[i], a);
    return r;
}
static bool add(ErrorValues &e, Group *g, int i) {
    bool free = true;
    for (int k = 0; k < g[i].n; k++) free = free & !member(g, i, g[i].l[k]);
    Word w = mkWord(g[i].l, g[i].n);
    int t = throws<std::exception>([&] { e.setGroupError(w, g[i].cost); });
    vp_check(t != OTHER, "a refusal is a standard exception");
    g[i].in = t == NOTHROW;
    vp_check(g[i].in == free, "a group is refused exactly when one of its letters is taken");
    return g[i].in;
}
static Letter_ big(const char *n) {
    Letter_ c = (Letter_)vp_u16(n);
    vp_assume((c >= 2048) & (c < 0xd800));
    return c;
}
static void symbolic(int n, int max, bool full) {
    ErrorValues e;
    Group g[3];
    Letter_ x = big("x"), y = 0;
    int before[2], after[2], total = 0;
    for (int i = 0; i < n; i++) {
        g[i].n = 1 + vp_choose("length", max);
        for (int k = 0; k < g[i].n; k++) { g[i].l[k] = big("l"); }
        g[i].cost = (int)vp_u32("cost");
        g[i].in = false;
        total += g[i].n;
    }
    if (total <= max) y = big("y");
    else { int i = vp_choose("other", n); y = g[i].l[0]; if (!full) x = g[n - 1].l[g[n - 1].n - 1]; }
    for (int i = 0; i < n; i++) {
        bool last = i == n - 1;
        if (last) { before[0] = e.getSubstituteError(Letter(x), Letter(y)); before[1] = e.isInGroup(Letter(x)); }
        bool ok = add(e, g, i);
        if (last) {
            after[0] = e.getSubstituteError(Letter(x), Letter(y)); after[1] = e.isInGroup(Letter(x));
            if (!ok) { vp_check((before[0] == after[0]) & (before[1] == after[1]), "a refused group changes nothing"); vp_reach("refused"); }
            else vp_reach("accepted");
        }
    }
    vp_check(after[0] == cost(g, n, x, y, 100), "letters of one accepted group cost what it says, others the default");
    vp_check((bool)after[1] == member(g, n, x), "exactly the letters of accepted groups are members");
}
VP_ENTRY(c11_symbolic) { symbolic(2, 2, true); vp_reach("symbolic"); }
VP_ENTRY(c11_long_t) { symbolic(2, 3, false); vp_reach("long"); }
VP_ENTRY(c11_three_t) { symbolic(3, 2, false); vp_reach("three"); }

static const Letter_ sets[][4] = {
    {'a', 'b', 0, 0}, {'c', 'd', 'e', 0}, {'a', 'f', 'g', 0}, {'f', 'a', 'g', 0}, {'f', 'g', 'a', 0}, {'h', 'h', 0, 0},
    {'b', 0x3b1, 0x3b2, 0}, {0x3b3, 0x3b1, 'd', 0}, {511, 512, 0, 0}, {512, 'a', 511, 'c'}, {0, 0, 0, 0}};
static const int lens[] = {2, 3, 3, 3, 3, 2, 3, 3, 2, 4, 0};
static void sequence(int n, bool wide) {
    ErrorValues e;
    Group g[4];
    int c[4], pc = (int)vp_u32("paircost");
    Letter_ y = (Letter_)vp_u16("second");
    for (int i = 0; i < n; i++) c[i] = (int)vp_u32("cost");
    for (int i = 0; i < n; i++) {
        unsigned s = vp_choose("set", 11);
        for (int k = 0; k < 4; k++) g[i].l[k] = sets[s][k];
        g[i].n = lens[s]; g[i].cost = c[i]; g[i].in = false;
        add(e, g, i);
    }
    // a group setting never overrides a later pair setting
    bool pair = vp_choose("pair", 2);
    if (pair) e.setError(Letter('d'), Letter('c'), pc);
    static const Letter_ probe[] = {'a', 'b', 'c', 'd', 'f', 'g', 'h', 0x3b1, 0x3b2, 511, 512, 'z'};
    bool ok = true, in = true;
    if (!wide) {
        for (Letter_ p : probe) {
            in = in & (e.isInGroup(Letter(p)) == member(g, n, p));
            for (Letter_ q : probe) {
                int w = cost(g, n, p, q, 100);
                if (pair && ((p == 'c' && q == 'd') || (p == 'd' && q == 'c'))) w = pc;
                ok = ok & (e.getSubstituteError(Letter(p), Letter(q)) == w);
            }
        }
    } else {
        Letter_ p = probe[vp_choose("first", 12)];
        int w = cost(g, n, p, y, 100);
        if (pair) w = (int)(uint32_t)vp_ite(((p == 'c') & (y == 'd')) | ((p == 'd') & (y == 'c')), (uint32_t)pc, (uint32_t)w);
        ok = e.getSubstituteError(Letter(p), Letter(y)) == w;
        in = e.isInGroup(Letter(y)) == member(g, n, y);
    }
    vp_check(ok, "letters of one accepted group cost what it says");
    vp_check(in, "exactly the letters of accepted groups are members");
}
VP_ENTRY(c11_sequence) { sequence(3, false); vp_reach("sequence"); }
VP_ENTRY(c11_wide) { sequence(1, true); vp_reach("wide"); }
VP_ENTRY(c11_sequence_t) { sequence(4, false); vp_reach("sequence"); }
VP_ENTRY(c11_wide_t) { sequence(2, true); vp_reach("wide"); }
// clearing frees the letters again
VP_ENTRY(c11_clear) {
    ErrorValues e;
    Group g[2];
    int c0 = (int)vp_u32("cost"), c1 = (int)vp_u32("cost");
    unsigned a = vp_choose("set", 10), b = vp_choose("set", 10);
    for (int k = 0; k < 4; k++) { g[0].l[k] = sets[a][k]; g[1].l[k] = sets[b][k]; }
    g[0] = {{sets[a][0], sets[a][1], sets[a][2], sets[a][3]}, lens[a], c0, false};
    add(e, g, 0);
    e.clearErrors();
    g[0] = {{sets[b][0], sets[b][1], sets[b][2], sets[b][3]}, lens[b], c1, false};
    add(e, g, 0);
    bool ok = true;
    for (Letter_ p : {(Letter_)'a', (Letter_)'b', (Letter_)'c', (Letter_)0x3b1, (Letter_)512, (Letter_)'d'}) {
        ok = ok & (e.isInGroup(Letter(p)) == member(g, 1, p));
        for (Letter_ q : {(Letter_)'a', (Letter_)'b', (Letter_)'g', (Letter_)0x3b2, (Letter_)511, (Letter_)'d'}) ok = ok & (e.getSubstituteError(Letter(p), Letter(q)) == cost(g, 1, p, q, 100));
    }
    vp_check(ok, "only the groups added after clearing count");
    vp_reach("clear");
}
