// @bound 3 documents of 2 fields of 1..2 words, filters of 1..3 terms of 0..2 subterms out of known and unknown words and fields
// @bound filter words and fields of 1..2 arbitrary letters above the table limit against documents with arbitrary letters
// @time c16_terms 300
// @time c16_terms_t 850
#include "matcher.h"

struct Sub { W field, word; };
static bool contains(const Doc &d, const Sub &s) {
    for (int f = 0; f < d.n; f++)
        if (eqW(d.f[f].name, s.field))
            for (int k = 0; k < d.f[f].n; k++) if (eqW(d.f[f].w[k], s.word)) return true;
    return false;
}
static bool passes(const Doc &d, const Sub (*t)[2], const int *len, int terms) {
    for (int i = 0; i < terms; i++) {
        bool all = true;
        for (int k = 0; k < len[i]; k++) if (!contains(d, t[i][k])) all = false;
        if (all) return true;
    }
    return false;
}
static void checkFiltered(Matcher &m, const Doc *d, int nd, const WordList &q, const Sub (*t)[2], const int *len, int terms) {
    SearchParameters p;
    for (int i = 0; i < terms; i++) {
        if (i) p.getResultFilter().addNewTerm();
        for (int k = 0; k < len[i]; k++) p.getResultFilter().addNewSubTerm(t[i][k].field.word(), t[i][k].word.word());
    }
    MatchResults plain = m.match(q), r = m.match(q, p), again = m.match(q);
    size_t n = 0;
    for (int i = 0; i < nd; i++) {
        int a = -1, b = -1, c = -1, times = 0;
        for (size_t k = 0; k < plain.size(); k++) if (plain.getDocumentID(k) == d[i].id) a = (int)k;
        for (size_t k = 0; k < r.size(); k++) if (r.getDocumentID(k) == d[i].id) { b = (int)k; times++; }
        for (size_t k = 0; k < again.size(); k++) if (again.getDocumentID(k) == d[i].id) c = (int)k;
        bool want = a >= 0 && passes(d[i], t, len, terms);
        vp_check(times <= 1, "no document is returned twice");
        vp_check((b >= 0) == want, "exactly the matching documents that satisfy a term are kept");
        if (want && b >= 0) vp_check(close_(r.getRelevancy(b), plain.getRelevancy(a)), "filtering does not change relevancies");
        vp_check((a >= 0) == (c >= 0), "filtering does not influence later searches");
        if (a >= 0 && c >= 0) vp_check(close_(again.getRelevancy(c), plain.getRelevancy(a)), "filtering does not influence later relevancies");
        n += times;
    }
    vp_check(n == r.size() && plain.size() == again.size(), "only matching documents are returned");
    for (size_t k = 0; k + 1 < r.size(); k++) vp_check(r.getRelevancy(k) >= r.getRelevancy(k + 1), "filtered results are ordered");
}
static void corpus(Doc *d, int nd) {
    for (int i = 0; i < nd; i++) {
        d[i].id = ids[i];
        d[i].n = 2;
        d[i].f[0].name = W("title");
        d[i].f[1].name = W("body");
        d[i].f[0].n = 2; d[i].f[1].n = 1;
        d[i].f[0].w[0] = W("ab");
        d[i].f[0].w[1] = W(i == 0 ? "xyz" : i == 1 ? "body" : "pqr");
        d[i].f[1].w[0] = W(i == 0 ? "pqr" : "xyz");
    }
}
static void terms(int maxTerms, int subs) {
    static const Sub sub[] = {{W("title"), W("xyz")}, {W("body"), W("xyz")}, {W("title"), W("pqr")}, {W("body"), W("body")},
                              {W("none"), W("xyz")}, {W("title"), W("none")}, {W("body"), W("ab")}, {W("none"), W("nope")}};
    Matcher m;
    Doc d[3];
    corpus(d, 3);
    indexAll(m, d, 3);
    Sub t[3][2];
    int len[3];
    int n = 1 + vp_choose("terms", maxTerms);
    for (int i = 0; i < n; i++) {
        len[i] = vp_choose("subterms", 3);
        for (int k = 0; k < len[i]; k++) t[i][k] = sub[vp_choose("subterm", i == 2 ? 3 : subs)];
    }
    WordList q;
    q.addWord(Word("ab"));
    if (vp_choose("query", 2)) q.addWord(Word("xyz"));
    checkFiltered(m, d, 3, q, t, len, n);
    // filters do not make words known
    int e = throws<std::invalid_argument>([&] { m.onlineMatch(q, Word("none")); });
    vp_check(e == THROWS, "filtering with an unknown field does not create it");
}
VP_ENTRY(c16_terms) { terms(2, 8); vp_reach("terms"); }
VP_ENTRY(c16_terms_t) { terms(3, 8); vp_reach("terms"); }
static W any(const char *name, int max) {
    W w;
    w.n = 1 + vp_choose("length", max);
    for (int i = 0; i < w.n; i++) { w.l[i] = (Letter_)vp_u16(name); vp_assume((w.l[i] >= 2048) & (w.l[i] < 0xd800)); }
    return w;
}
static void letters(int len) {
    Matcher m;
    Doc d[2];
    for (int i = 0; i < 2; i++) {
        d[i].id = ids[i];
        d[i].n = 1;
        d[i].f[0].name = W("text");
        d[i].f[0].n = 2;
        d[i].f[0].w[0] = W("ab");
        d[i].f[0].w[1] = any("d", i ? 1 : len);
    }
    Sub t[1][2];
    int l[1] = {1};
    t[0][0].field = vp_choose("any field", 2) ? any("field", 1) : W("text");
    t[0][0].word = any("word", len);
    indexAll(m, d, 2);
    WordList q;
    q.addWord(Word("ab"));
    checkFiltered(m, d, 2, q, t, l, 1);
}
VP_ENTRY(c16_letters) { letters(3); vp_reach("letters"); }
// many results, many of them satisfying several terms
VP_ENTRY(c16_many) {
    Matcher m;
    Doc d[14];
    int n = 9 + vp_choose("documents", 5);
    for (int i = 0; i < n; i++) {
        d[i].id = ids[i];
        d[i].n = 1;
        d[i].f[0].name = W("text");
        d[i].f[0].w[0] = W(i % 4 ? "ab" : "abcd");
        d[i].f[0].w[1] = W(i % 2 ? "odd" : "even");
        d[i].f[0].w[2] = W(i % 3 ? "some" : "third");
        d[i].f[0].n = 3;
    }
    indexAll(m, d, n);
    static const char *w[] = {"odd", "third", "some", "even"};
    Sub t[2][2];
    int l[2] = {(int)vp_choose("first", 3), (int)vp_choose("second", 3)};
    for (int i = 0; i < 2; i++) for (int k = 0; k < l[i]; k++) t[i][k] = {W("text"), W(w[vp_choose("word", 4)])};
    WordList q;
    q.addWord(Word("ab"));
    checkFiltered(m, d, n, q, t, l, 2);
    vp_reach("many");
}
