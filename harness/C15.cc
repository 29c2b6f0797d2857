// @bound 2 documents of 2 fields with 1..2 words of a vocabulary, queries of 1..2 words, weights of the fields out of 7 values each
// @bound every error value reachable by one or two substitutions of any cost 0..255, word counts 1..5 of the matched and of the most common word
// @bound relevancies compared with the formula to a relative difference of 1e-9
// @time c15_formula 300
// @time c15_formula_t 850
#include "matcher.h"

static double wt[2];
static double weight(const W &f) { return f.l[0] == 't' ? wt[0] : f.l[0] == 'b' ? wt[1] : 1.0; }
static bool searchableTitle(const W &f) { return f.l[0] != 'b'; }
static void compare(const MatchResults &r, const Doc *d, int nd, const Ref &ref) {
    int pos[16];
    checkDocs(r, d, nd, ref.hit, pos);
    for (int i = 0; i < nd; i++) {
        if (!ref.hit[i] || pos[i] < 0) continue;
        vp_check(close_(r.getRelevancy(pos[i]), ref.rel[i]), "the relevancy follows the formula");
        for (int k = 0; k < nd; k++)
            if (ref.hit[k] && pos[k] >= 0 && ref.rel[i] > ref.rel[k] + 1e-6) vp_check(pos[i] < pos[k], "a more relevant document comes first");
    }
}
static void formula(int wordsA, int vs, int qs) {
    static const double values[] = {1.0, 0.0, 0.5, 2.0, 3.75, 1e-3, 1000.0};
    Matcher m;
    Doc d[2];
    W q[2];
    wt[0] = wt[1] = 1.0;
    int a = vp_choose("title weight", 4), b = a ? vp_choose("body weight", 3) * 2 : 0;
    if (a) { wt[0] = values[a == 1 ? 3 : a == 2 ? 1 : 5]; m.getIndexWeights().setWeight(Word("title"), wt[0]); }
    if (b) { wt[1] = values[b]; m.getIndexWeights().setWeight(Word("body"), wt[1]); }
    for (int i = 0; i < 2; i++) {
        d[i].id = ids[i];
        d[i].n = 2;
        for (int f = 0; f < 2; f++) {
            d[i].f[f].name = W(f ? "body" : "title");
            d[i].f[f].n = i == 0 && f == 0 ? wordsA : 1;
            for (int k = 0; k < d[i].f[f].n; k++) d[i].f[f].w[k] = pick("d", i == 0 ? vs : 3);
        }
    }
    int nq = 1 + vp_choose("qwords", 2);
    for (int i = 0; i < nq; i++) q[i] = pick("q", i ? 2 : qs);
    Ref ref;
    ref.weight = weight;
    indexAll(m, d, 2);
    SearchParameters p;
    if (vp_choose("hide body", 2)) { p.addNonsearchingField(Word("body")); ref.searchable = searchableTitle; }
    ref.search(d, 2, q, nq);
    compare(m.match(listOf(q, nq), p), d, 2, ref);
}
VP_ENTRY(c15_formula) { formula(2, 3, 3); vp_reach("formula"); }
VP_ENTRY(c15_formula_t) { formula(2, 5, 6); vp_reach("formula"); }
static int pairCost_;
static int subPair_(Letter_ x, Letter_ y) {
    bool pr = ((x == 'a') & (y == 'b')) | ((x == 'b') & (y == 'a'));
    return (int)(uint32_t)vp_ite(x == y, 0, vp_ite(pr, (uint32_t)pairCost_, 100));
}
// every error value
VP_ENTRY(c15_error) {
    Matcher m;
    pairCost_ = vp_range("cost", 0, 255);
    m.getErrorValues().setError(Letter('a'), Letter('b'), pairCost_);
    Doc d[2];
    static const char *words[] = {"b", "bb", "ab", "abc", "aab"};
    for (int i = 0; i < 2; i++) {
        d[i].id = ids[i];
        d[i].n = 1;
        d[i].f[0].name = W("text");
        d[i].f[0].n = 1;
        d[i].f[0].w[0] = W(words[vp_choose("w", 5)]);
    }
    static const char *queries[] = {"aa", "a", "acb"};
    W q[2] = {W(queries[vp_choose("q", 3)]), W("bb")};
    int nq = 1 + vp_choose("second", 2);
    Ref ref;
    ref.c.sub = subPair_;
    ref.search(d, 2, q, nq);
    indexAll(m, d, 2);
    compare(m.match(listOf(q, nq)), d, 2, ref);
    vp_reach("error");
}
// rare and common words, counts per field
VP_ENTRY(c15_counts) {
    Matcher m;
    Doc d[4];
    int mine = 1 + vp_choose("own", 5), common = vp_choose("common", 6), other = vp_choose("other field", 6);
    for (int i = 0; i < 4; i++) {
        d[i].id = ids[i];
        d[i].n = 2;
        d[i].f[0].name = W("title");
        d[i].f[1].name = W("body");
    }
    auto put = [&](int doc, int f, const char *w) { Field &x = d[doc].f[f]; x.w[x.n++] = W(w); };
    for (int i = 0; i < mine; i++) put(i % 2, 0, "word");
    for (int i = 0; i < common; i++) put(i % 3, 0, "other");
    for (int i = 0; i < other; i++) put(i % 4, 1, "word");
    put(3, 1, "more");
    W q[2] = {W("word"), W("other")};
    int nq = 1 + vp_choose("second", 2);
    Ref ref;
    ref.search(d, 4, q, nq);
    indexAll(m, d, 4);
    compare(m.match(listOf(q, nq)), d, 4, ref);
    vp_reach("counts");
}
// arbitrary letters
VP_ENTRY(c15_letters) {
    Matcher m;
    Doc d[2];
    W q[2];
    auto any = [](const char *n, W &w, int len) { w.n = len; for (int i = 0; i < len; i++) { w.l[i] = (Letter_)vp_u16(n); vp_assume((w.l[i] >= 2048) & (w.l[i] < 0xd800)); } };
    for (int i = 0; i < 2; i++) {
        d[i].id = ids[i];
        d[i].n = 1;
        d[i].f[0].name = W("text");
        d[i].f[0].n = 2 - i;
        for (int k = 0; k < 2 - i; k++) any("d", d[i].f[0].w[k], 1);
    }
    int nq = 1 + vp_choose("second", 2);
    any("q", q[0], 1);
    if (nq > 1) any("q", q[1], 1);
    indexAll(m, d, 2);
    MatchResults r = m.match(listOf(q, nq));
    Ref ref;
    ref.search(d, 2, q, nq);
    compare(r, d, 2, ref);
    vp_reach("letters");
}
// scaling one field's weight scales that field's share only
VP_ENTRY(c15_scale) {
    Matcher m;
    Doc d[3];
    for (int i = 0; i < 3; i++) {
        d[i].id = ids[i];
        d[i].n = 2;
        for (int f = 0; f < 2; f++) {
            d[i].f[f].name = W(f ? "body" : "title");
            d[i].f[f].n = 1;
            d[i].f[f].w[0] = pick("d", 3);
        }
    }
    indexAll(m, d, 3);
    W q = pick("q", 3);
    wt[0] = wt[1] = 1.0;
    static const double values[] = {0.25, 2.0, 7.0, 0.0};
    for (int step = 0; step < 3; step++) {
        Ref ref;
        ref.weight = weight;
        ref.search(d, 3, &q, 1);
        compare(m.match(listOf(&q, 1)), d, 3, ref);
        if (step == 2) break;
        int f = vp_choose("field", 2);
        wt[f] = values[vp_choose("weight", 4)];
        m.getIndexWeights().setWeight(Word(f ? "body" : "title"), wt[f]);
    }
    vp_reach("scale");
}
