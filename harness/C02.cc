// @bound one dictionary word of up to 3 letters, query of up to 2 letters (every pattern over 2 letters), all six costs and the limit symbolic (costs 0..15, limit 0..63; thorough: 3 by 4 letters over 3 letters, costs 0..31)
// @bound dictionaries of 3 words of up to 3 letters over 2 letters, query of 2 or 3 letters, insertion order permuted, limit symbolic 0..511 under default, substring and cheap-swap costs
// @bound 20 simultaneous matches with two symbolic substitution costs; lookups repeated up to 3 times
// @assume costs are non-negative and within the stated bounds
#include "common.h"
#include "ErrorValues.hh"
#include "IndexMatches.hh"
#include "LevenshteinIndex.hh"

static int pairCost, subCost = 100;
static int subPair(Letter_ x, Letter_ y) {
    bool pr = ((x == 'a') & (y == 'b')) | ((x == 'b') & (y == 'a'));
    return (int)(uint32_t)vp_ite(x == y, 0, vp_ite(pr, (uint32_t)pairCost, (uint32_t)subCost));
}
static int subDefault(Letter_ x, Letter_ y) { return x == y ? 0 : 100; }

static void one(size_t maxQ, size_t maxD, int k, int hi) {
    ErrorValues e;
    Costs c;
    int ins = vp_range("ins", 0, hi), del = vp_range("del", 0, hi), endDel = vp_range("end", 0, hi), start = vp_range("start", 0, hi), trans = vp_range("trans", 0, hi);
    pairCost = vp_range("pair", 0, hi);
    e.setInsertionError(ins);
    e.setDeletionError(del);
    e.setEndDeletionError(endDel);
    e.setStartInsertionError(start);
    e.setTransposeError(trans);
    e.setError(Letter('a'), Letter('b'), pairCost);
    c.ins = ins; c.del = del; c.endDel = endDel; c.trans = trans; c.start = start; c.sub = subPair;
    int max = vp_range("max", 0, 4 * hi + 3);
    size_t m = vp_choose("qlen", maxQ + 1), n = 1 + vp_choose("dlen", maxD);
    Letter_ q[8], d[8];
    for (size_t i = 0; i < m; i++) q[i] = 'a' + vp_choose("q", k);
    for (size_t i = 0; i < n; i++) d[i] = 'a' + vp_choose("d", k);
    LevenshteinIndex ind;
    ind.insertWord(mkWord(d, n), 3);
    IndexMatches r;
    ind.findWords(mkWord(q, m), e, max, r);
    int want = refCost(q, m, d, n, c);
    if (r.size()) {
        vp_check(r.size() == 1, "a word is reported at most once");
        vp_check(r.getMatch(0) == 3, "the reported ID is the word's");
        vp_check(r.getMatchError(0) == want, "the reported error is the word's cost");
        vp_check(want <= max, "a reported word is within the limit");
        vp_reach("found");
    } else {
        vp_check(want > max, "a word within the limit is found");
        vp_reach("not found");
    }
}
VP_ENTRY(c02_one) { one(2, 3, 2, 15); vp_reach("one"); }
VP_ENTRY(c02_one_t) { one(3, 4, 3, 31); vp_reach("one"); }

// Every word present exactly when within the limit, ascending errors.
static void checkResult(const IndexMatches &r, const Letter_ (*d)[4], const size_t *n, const unsigned *ids, size_t nw, const Letter_ *q, size_t m, int max, const Costs &c) {
    int prev = 0;
    for (size_t i = 0; i < r.size(); i++) {
        vp_check(r.getMatchError(i) >= prev, "matches come in non-decreasing order of error");
        prev = r.getMatchError(i);
    }
    size_t found = 0;
    for (size_t w = 0; w < nw; w++) {
        int want = refCost(q, m, d[w], n[w], c);
        size_t hits = 0;
        for (size_t i = 0; i < r.size(); i++)
            if (r.getMatch(i) == ids[w]) {
                hits++;
                vp_check(r.getMatchError(i) == want, "each match carries its own error");
            }
        vp_check(hits == (want <= max ? 1u : 0u), "a word is found exactly when it is within the limit, and once");
        found += hits;
    }
    vp_check(found == r.size(), "nothing else is found");
}
static void config(ErrorValues &e, Costs &c, unsigned k, size_t m) {
    c = {100, 100, 100, 100, 100, subDefault};
    if (k == 1) { e.setSubstringMode(); c.endDel = 15; c.start = m >= 3 ? 15 : 100; }
    if (k == 2) { e.setTransposeError(10); c.trans = 10; }
    if (k == 3) {
        e.setInsertionError(40); e.setDeletionError(70); e.setEndDeletionError(5); e.setStartInsertionError(90); e.setTransposeError(0);
        c.ins = 40; c.del = 70; c.endDel = 5; c.start = 90; c.trans = 0;
    }
}
static const unsigned perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
static void many(size_t minQ, size_t maxQ, size_t maxD, int k, unsigned nperm) {
    ErrorValues e;
    Costs c;
    int max = vp_range("max", 0, 511);
    size_t m = minQ + vp_choose("qlen", maxQ - minQ + 1);
    config(e, c, vp_choose("config", 4), m);
    Letter_ q[4], d[3][4];
    size_t n[3];
    unsigned ids[3] = {11, 5, 8};
    for (size_t i = 0; i < m; i++) q[i] = 'a' + vp_choose("q", k);
    // three different words in lexicographic order of (length, letters); the insertion order is chosen below
    unsigned total = 0, pw = 1;
    for (size_t l = 1; l <= maxD; l++) { pw *= k; total += pw; }
    unsigned at = 0;
    for (size_t w = 0; w < 3; w++) {
        unsigned v = at + vp_choose("word", total - at - (2 - w));
        at = v + 1;
        size_t len = 1;
        for (unsigned p = k; v >= p; p *= k) { v -= p; len++; }
        n[w] = len;
        for (size_t i = 0; i < len; i++) { d[w][i] = 'a' + v % k; v /= k; }
    }
    unsigned p = vp_choose("order", nperm);
    LevenshteinIndex ind;
    for (size_t i = 0; i < 3; i++) { unsigned w = perm[p][i]; ind.insertWord(mkWord(d[w], n[w]), ids[w]); }
    IndexMatches r;
    ind.findWords(mkWord(q, m), e, max, r);
    checkResult(r, d, n, ids, 3, q, m, max, c);
    vp_reach("many");
}
VP_ENTRY(c02_many) { many(2, 3, 2, 2, 6); vp_reach("entry"); }
VP_ENTRY(c02_long) { many(2, 3, 3, 2, 1); vp_reach("entry"); }
VP_ENTRY(c02_many_t) { many(1, 3, 3, 2, 6); vp_reach("entry"); }

// letters symbolic instead of enumerated
VP_ENTRY(c02_letters) {
    ErrorValues e;
    Costs c;
    int max = vp_range("max", 0, 399);
    config(e, c, 2 * vp_choose("config", 2), 2);
    Letter_ q[2], d[2][4];
    size_t n[2] = {1 + vp_choose("len", 3), 2};
    unsigned ids[2] = {1, 0};
    for (int i = 0; i < 2; i++) q[i] = letter("q", 'a', 'd');
    for (size_t w = 0; w < 2; w++) for (size_t i = 0; i < n[w]; i++) d[w][i] = letter("d", 'a', 'd');
    Word w0 = mkWord(d[0], n[0]), w1 = mkWord(d[1], n[1]);
    vp_assume(!(w0 == w1));
    LevenshteinIndex ind;
    ind.insertWord(w0, ids[0]);
    ind.insertWord(w1, ids[1]);
    IndexMatches r;
    ind.findWords(mkWord(q, 2), e, max, r);
    checkResult(r, d, n, ids, 2, q, 2, max, c);
    vp_reach("letters");
}

// more matches than the sort's small-array threshold
static int costX, costY;
static int subMany(Letter_ x, Letter_ y) {
    if (x == y) return 0;
    if (x > y) { Letter_ t = x; x = y; y = t; }
    if (x == 'a' && y == 'b') return costX;
    if (x == 'a' && y == 'c') return costY;
    return 100;
}
VP_ENTRY(c02_sorted) {
    ErrorValues e;
    costX = vp_range("x", 0, 220);
    costY = vp_range("y", 0, 120);
    e.setError(Letter('a'), Letter('b'), costX);
    e.setError(Letter('c'), Letter('a'), costY);
    Costs c = {100, 100, 100, 100, 100, subMany};
    // the position at which the interesting words are inserted
    unsigned posB = vp_choose("posB", 10) * 2, posC = 19 - 3 * vp_choose("posC", 4);
    LevenshteinIndex ind;
    Letter_ q[1] = {'a'};
    Letter_ d[20][4];
    size_t n[20];
    unsigned ids[20];
    unsigned next = 0;
    for (unsigned i = 0; i < 20; i++) {
        ids[i] = 100 - i;
        n[i] = 1;
        if (i == posB) d[i][0] = 'b';
        else if (i == posC) d[i][0] = 'c';
        else if (next == 5) { d[i][0] = 'a'; next++; }
        else {
            // ten at distance one, the others at distance two
            d[i][0] = 'd' + next;
            if (next % 2) { n[i] = 2; d[i][1] = 'k'; }
            next++;
        }
        ind.insertWord(mkWord(d[i], n[i]), ids[i]);
    }
    IndexMatches r;
    ind.findWords(mkWord(q, 1), e, 200, r);
    checkResult(r, d, n, ids, 20, q, 1, 200, c);
    vp_reach("sorted");
}

// lookups change nothing, whatever they return
VP_ENTRY(c02_repeat) {
    ErrorValues e;
    Costs c = {100, 100, 100, 100, 100, subDefault};
    Letter_ q[2][2], d[3][4] = {{'a', 'b'}, {'a'}, {'b', 'a', 'b'}};
    size_t n[3] = {2, 1, 3};
    unsigned ids[3] = {0, 1, 2};
    LevenshteinIndex ind;
    for (int w = 0; w < 3; w++) for (int k = 0; k <= w; k++) ind.insertWord(mkWord(d[w], n[w]), ids[w]);
    size_t m[2];
    for (int i = 0; i < 2; i++) {
        m[i] = vp_choose("qlen", 3);
        for (size_t j = 0; j < m[i]; j++) q[i][j] = letter("q", 'a', 'c');
    }
    int max = vp_range("max", 0, 300);
    size_t nodes = ind.numNodes();
    for (int i = 0; i < 3; i++) {
        IndexMatches r;
        ind.findWords(mkWord(q[i & 1], m[i & 1]), e, max, r);
        checkResult(r, d, n, ids, 3, q[i & 1], m[i & 1], max, c);
    }
    vp_check(ind.numWords() == 3 && ind.maxCount() == 3 && ind.numNodes() == nodes, "lookups do not change the index");
    for (int w = 0; w < 3; w++) vp_check(ind.wordCount(ids[w]) == size_t(w + 1) && ind.hasWord(mkWord(d[w], n[w])), "lookups keep every word and count");
    vp_reach("repeat");
}
