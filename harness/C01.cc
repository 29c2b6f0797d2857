// @bound one or two dictionary words of up to 3 letters and queries of up to 3 letters with every letter symbolic over a 3-letter alphabet and all six costs symbolic in 0..255 (thorough: 4 by 4)
// @bound default costs and substring mode: words and queries of up to 5 letters (quick), every letter symbolic
// @bound letters above the lookup-table limit (Greek, symbolic) with pair and group errors
// @assume costs are non-negative and at most 255 in the symbolic-cost entries
// @bound words of 1..2 (thorough 3) letters with every cost symbolic, in multiples of 16, 4096 or 2^20 (up to 2^24, thorough 2^28); words of 40..300 letters with one arbitrary difference and up to 2 missing letters
#include "common.h"
#include "ErrorValues.hh"
#include "IndexMatches.hh"
#include "LevenshteinIndex.hh"

static Letter_ P, Q2;
static int pairCost;
static int subPair(Letter_ x, Letter_ y) {
    bool pr = ((x == P) & (y == Q2)) | ((x == Q2) & (y == P));
    return (int)(uint32_t)vp_ite(x == y, 0, vp_ite(pr, (uint32_t)pairCost, 100));
}
static int subDefault(Letter_ x, Letter_ y) { return (int)(uint32_t)vp_ite(x == y, 0, 100); }

static void symbolicCosts(ErrorValues &e, Costs &c) {
    int ins = vp_u8("ins"), del = vp_u8("del"), endDel = vp_u8("end"), start = vp_u8("start"), trans = vp_u8("trans");
    e.setInsertionError(ins);
    e.setDeletionError(del);
    e.setEndDeletionError(endDel);
    e.setStartInsertionError(start);
    e.setTransposeError(trans);
    c.ins = ins; c.del = del; c.endDel = endDel; c.trans = trans; c.start = start;
}
static void lookupOne(const Letter_ *q, size_t m, const Letter_ *d, size_t n, const ErrorValues &e, const Costs &c) {
    LevenshteinIndex ind;
    ind.insertWord(mkWord(d, n), 7);
    IndexMatches r;
    ind.findWords(mkWord(q, m), e, 0x7fffffff, r);
    vp_check(r.size() == 1, "a word within a huge limit is reported exactly once");
    vp_check(r.getMatch(0) == 7, "the reported ID is the word's");
    vp_observe("err", (uint64_t)r.getMatchError(0));
    vp_check(r.getMatchError(0) == refCost(q, m, d, n, c), "the reported error is the minimum edit cost");
    vp_reach("cost compared");
}
static void letters(const char *nm, Letter_ *l, size_t n, int lo, int hi) { for (size_t i = 0; i < n; i++) l[i] = letter(nm, lo, hi); }

// every cost symbolic at once; the letters' pattern (which letters coincide, which form the special pair) is one path each
static void costs(size_t maxQ, size_t maxD) {
    ErrorValues e;
    Costs c;
    symbolicCosts(e, c);
    P = 'a'; Q2 = 'b';
    pairCost = vp_u8("pair");
    e.setError(Letter(P), Letter(Q2), pairCost);
    c.sub = subPair;
    size_t m = vp_choose("qlen", maxQ + 1), n = 1 + vp_choose("dlen", maxD);
    Letter_ q[8], d[8];
    for (size_t i = 0; i < m; i++) q[i] = 'a' + vp_choose("q", 3);
    for (size_t i = 0; i < n; i++) d[i] = 'a' + vp_choose("d", 3);
    size_t above = vp_choose("above", 2);
    e.setSubstringStartLimit(m + above);
    if (above) c.start = c.ins;
    lookupOne(q, m, d, n, e, c);
}
VP_ENTRY(c01_costs) { costs(4, 4); vp_reach("costs"); }
VP_ENTRY(c01_costs_t) { costs(5, 5); vp_reach("costs"); }

static void fixedCosts(bool substring, size_t maxQ, size_t maxD, int hi) {
    size_t m = vp_choose("qlen", maxQ + 1), n = 1 + vp_choose("dlen", maxD);
    Letter_ q[8], d[8];
    letters("q", q, m, 'a', hi);
    letters("d", d, n, 'a', hi);
    ErrorValues e;
    Costs c = {100, 100, 100, 100, 100, subDefault};
    if (substring) {
        e.setSubstringMode();
        c.endDel = 15;
        c.start = m >= 3 ? 15 : 100;
    }
    lookupOne(q, m, d, n, e, c);
}
VP_ENTRY(c01_default) { fixedCosts(false, 4, 4, 'c'); vp_reach("default"); }
VP_ENTRY(c01_substring) { fixedCosts(true, 4, 5, 'b'); vp_reach("substring"); }
VP_ENTRY(c01_default_t) { fixedCosts(false, 6, 6, 'c'); vp_reach("default"); }
VP_ENTRY(c01_substring_t) { fixedCosts(true, 5, 7, 'c'); vp_reach("substring"); }

// two words sharing a prefix, looked up together: the shared part of the cost table must not leak between branches
static void two(size_t max0, size_t max1, int k) {
    ErrorValues e;
    Costs c;
    int ins = vp_u8("ins"), del = vp_u8("del"), trans = vp_u8("trans");
    e.setInsertionError(ins);
    e.setStartInsertionError(del);
    e.setDeletionError(del);
    e.setEndDeletionError(del);
    e.setTransposeError(trans);
    c.ins = ins; c.del = c.endDel = c.start = del; c.trans = trans; c.sub = subDefault;
    Letter_ q[3], d[2][4];
    size_t n0 = 1 + vp_choose("len0", max0), n1 = 1 + vp_choose("len1", max1);
    for (size_t i = 0; i < 3; i++) q[i] = 'a' + vp_choose("q", k);
    for (size_t i = 0; i < n0; i++) d[0][i] = 'a' + vp_choose("d0", k);
    for (size_t i = 0; i < n1; i++) d[1][i] = 'a' + vp_choose("d1", k);
    Word w0 = mkWord(d[0], n0), w1 = mkWord(d[1], n1);
    if (w0 == w1) return;
    LevenshteinIndex ind;
    ind.insertWord(w0, 0);
    ind.insertWord(w1, 1);
    IndexMatches r;
    ind.findWords(mkWord(q, 3), e, 0x7fffffff, r);
    vp_check(r.size() == 2, "both words are reported");
    vp_check(r.getMatch(0) != r.getMatch(1), "each word is reported once");
    for (size_t i = 0; i < 2; i++) {
        unsigned id = r.getMatch(i);
        vp_check(id < 2, "reported IDs belong to indexed words");
        vp_check(r.getMatchError(i) == refCost(q, 3, d[id], id ? n1 : n0, c), "each reported error is that word's minimum edit cost");
    }
    vp_reach("two words");
}
VP_ENTRY(c01_two) { two(2, 3, 2); vp_reach("two"); }
VP_ENTRY(c01_two_t) { two(3, 3, 3); vp_reach("two"); }
// letters outside the lookup table
static Letter_ G0, G1, G2;
static int groupCost;
static int subGreek(Letter_ x, Letter_ y) {
    bool grp = ((x == G0) | (x == G1) | (x == G2)) & ((y == G0) | (y == G1) | (y == G2));
    bool pr = ((x == P) & (y == Q2)) | ((x == Q2) & (y == P));
    return (int)(uint32_t)vp_ite(x == y, 0, vp_ite(pr, (uint32_t)pairCost, vp_ite(grp, (uint32_t)groupCost, 100)));
}
VP_ENTRY(c01_greek) {
    Letter_ q[2], d[2];
    letters("q", q, 2, 0x3b0, 0x3b4);
    letters("d", d, 2, 0x3b0, 0x3b4);
    ErrorValues e;
    G0 = 0x3b0; G1 = 0x3b1; G2 = 'a';
    P = 0x3b2; Q2 = 0x3b3;
    groupCost = vp_u8("group");
    pairCost = vp_u8("pair");
    Letter_ g[3] = {G0, G1, G2};
    e.setGroupError(mkWord(g, 3), groupCost);
    e.setError(Letter(P), Letter(Q2), pairCost);
    Costs c = {100, 100, 100, 100, 100, subGreek};
    lookupOne(q, 2, d, 2, e, c);
    vp_reach("greek");
}
// costs far apart and totals beyond 16 bits
static int bigSub;
static int subBig(Letter_ x, Letter_ y) { return (int)(uint32_t)vp_ite(x == y, 0, (uint32_t)bigSub); }
static void big(size_t maxQ, size_t maxD, int hi) {
    size_t m = vp_choose("qlen", maxQ + 1), n = 1 + vp_choose("dlen", maxD);
    Letter_ q[8], d[8];
    letters("q", q, m, 0x3b0, 0x3b1);
    letters("d", d, n, 0x3b0, 0x3b1);
    int by = 8 * vp_choose("scale", 3) + 4, ins = vp_range("ins", 0, hi) << by, del = vp_range("del", 0, hi) << by, end = vp_range("end", 0, hi) << by, trans = vp_range("trans", 0, hi) << by;
    bigSub = vp_range("sub", 0, hi) << by;
    ErrorValues e;
    e.setInsertionError(ins);
    e.setStartInsertionError(del);
    e.setDeletionError(del);
    e.setEndDeletionError(end);
    e.setTransposeError(trans);
    e.setError(Letter(0x3b0), Letter(0x3b1), bigSub);
    Costs c = {ins, del, end, del, trans, subBig};
    lookupOne(q, m, d, n, e, c);
}
VP_ENTRY(c01_big) { big(2, 2, 15); vp_reach("big"); }
VP_ENTRY(c01_big_t) { big(2, 3, 255); vp_reach("big"); }
// words far longer than a byte can count
VP_ENTRY(c01_long) {
    static const int lens[] = {40, 255, 256, 300};
    int n = lens[vp_choose("length", 4)], at = vp_choose("at", 4) * (n - 1) / 3, cut = vp_choose("cut", 3);
    Letter b[300], x[300];
    for (int i = 0; i < n; i++) b[i] = x[i] = Letter('a' + i % 7);
    x[at] = Letter((Letter_)(0x70 + vp_choose("letter", 3)));
    LevenshteinIndex ind;
    ind.insertWord(Word(b, n), 1);
    ErrorValues e;
    e.setError(Letter('p'), Letter('a' + at % 7), 50);
    IndexMatches r;
    ind.findWords(Word(x, n - cut), e, 1000, r);
    vp_check(r.size() == 1 && r.getMatch(0) == 1, "a long word is found");
    Letter_ l = (Letter_)x[at];
    int want = at < n - cut ? (int)(uint32_t)vp_ite(l == 'p', 50, 100) : 0;
    if (at < n - cut || cut == 0) vp_check(r.getMatchError(0) == want + cut * e.getEndDeletionError(), "the cost of a long word is that of its differences");
    vp_reach("long");
}
