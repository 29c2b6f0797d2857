// @bound 3 documents with fields of 1..2 words of 1..2 symbolic letters (of 2..3 values), all orders and all ways to cut the list into calls of index, fields set in either order, queries of 1..2 symbolic words through match (with and without filter) and onlineMatch
// @bound histories in which up to 2 (thorough 3) searches with known, unknown or ill-formed words are interleaved with indexing and repeated
// @assume the relevancies of one search in two matchers may differ in the last digits, as sums of the same numbers in another order do (tolerance 1e-9)
// @time c25_cut 200
// @time c25_words_t 850
// @time c25_searches_t 850
// @time c25_four_t 850
#include "matcher.h"

static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
static void same(const MatchResults &a, const MatchResults &b, const char *what) {
    vp_check(a.size() == b.size(), what);
    for (size_t i = 0; i < a.size(); i++) {
        bool found = false;
        for (size_t k = 0; k < b.size(); k++)
            if (a.getDocumentID(i) == b.getDocumentID(k)) found = close_(a.getRelevancy(i), b.getRelevancy(k));
        vp_check(found, what);
    }
    for (size_t i = 1; i < b.size(); i++) vp_check(b.getRelevancy(i - 1) >= b.getRelevancy(i), "results are sorted in any order of indexing");
}
static void identical(const MatchResults &a, const MatchResults &b, const char *what) {
    vp_check(a.size() == b.size(), what);
    for (size_t i = 0; i < a.size(); i++) vp_check((a.getDocumentID(i) == b.getDocumentID(i)) & (a.getRelevancy(i) == b.getRelevancy(i)), what);
}
static W sym(const char *name, int n, int values) {
    W w;
    for (int i = 0; i < n; i++) w.l[i] = letter(name, 'a', 'a' + values - 1);
    w.n = n;
    return w;
}
// index in the given order, cut after the documents whose bit is set in cuts
static void indexAs(Matcher &m, const Document *d, int n, const int *order, int cuts) {
    Corpus *c = new Corpus;
    for (int i = 0; i < n; i++) {
        c->addDocument(d[order[i]]);
        if (((cuts >> i) & 1) || i == n - 1) { m.index(*c); delete c; c = i == n - 1 ? nullptr : new Corpus; }
    }
}
static void compare(Matcher &a, Matcher &b, const W *q, int nq, const W &field) {
    WordList l = listOf(q, nq);
    same(a.match(l), b.match(l), "the order of indexing does not change a search");
    same(a.onlineMatch(l, field.word()), b.onlineMatch(l, field.word()), "the order of indexing does not change an online search");
}
// orders and cuts of one-field documents
static void orders(int values, int len, int nq, bool cuts) {
    Matcher a, b;
    int p = vp_choose("order", 6), c = cuts ? vp_choose("cuts", 4) : 0;
    static const int id[] = {0, 1, 2};
    W f("t"), q[2];
    Document d[3] = {Document(3), Document(1), Document(2)};
    for (int i = 0; i < 3; i++) {
        W w = sym("word", i == 1 ? 1 : len, values);
        WordList l;
        l.addWord(w.word());
        if (i == 2) l.addWord(W("ab").word());
        d[i].addText(f.word(), l);
    }
    for (int i = 0; i < nq; i++) q[i] = sym("query", 2 - i, values);
    indexAs(a, d, 3, id, 0);
    indexAs(b, d, 3, perms[p], c);
    compare(a, b, q, nq, f);
    vp_reach("orders");
}
VP_ENTRY(c25_order) { orders(2, 2, 1, false); vp_reach("order"); }
VP_ENTRY(c25_cut) { orders(2, 1, 2, true); vp_reach("cut"); }
VP_ENTRY(c25_words_t) { orders(3, 2, 1, true); vp_reach("words"); }
// two fields, set in either order, in documents in either order; also setting a field twice
static void fields(int values, bool filter) {
    Matcher a, b;
    int swap = vp_choose("fields", 2), order = vp_choose("order", 2), again = vp_choose("again", 2), cut = vp_choose("cut", 2);
    W f[2] = {W("t"), W("u")}, q[1] = {sym("query", 2, values)};
    Document d[2] = {Document(5), Document(4)}, e[2] = {Document(5), Document(4)};
    WordList text[2][2];
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < 2; k++) {
            text[i][k].addWord(sym("word", 2, values).word());
            if (k == 1) text[i][k].addWord(W("aa").word());
        }
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < 2; k++) {
            d[i].addText(f[k].word(), text[i][k]);
            if (again && k == 0) e[i].addText(f[1].word(), text[i][0]);
            e[i].addText(f[k ^ swap].word(), text[i][k ^ swap]);
            if (again && k == 0) e[i].addText(f[k ^ swap].word(), text[i][k ^ swap]);
        }
    // text set twice counts once: the last one stands
    if (again && swap) for (int i = 0; i < 2; i++) e[i].addText(f[1].word(), text[i][1]);
    static const int id[] = {0, 1}, rev[] = {1, 0};
    indexAs(a, d, 2, id, 0);
    indexAs(b, e, 2, order ? rev : id, cut);
    compare(a, b, q, 1, f[0]);
    if (filter) {
        SearchParameters p;
        p.getResultFilter().addNewSubTerm(f[1].word(), q[0].word());
        same(a.match(listOf(q, 1), p), b.match(listOf(q, 1), p), "the order of indexing does not change a filtered search");
        SearchParameters n;
        n.addNonsearchingField(f[0].word());
        same(a.match(listOf(q, 1), n), b.match(listOf(q, 1), n), "the order of indexing does not change a search of some fields");
    }
    vp_reach("fields");
}
VP_ENTRY(c25_fields) { fields(2, false); vp_reach("set"); }
VP_ENTRY(c25_filter) { fields(2, true); vp_reach("set"); }
// searches in between change nothing and repeat
static void search(Matcher &m, int kind, const W &q) {
    WordList l = listOf(&q, 1);
    SearchParameters p;
    switch (kind) {
    case 0: m.match(l); break;
    case 1: try { m.onlineMatch(l, Word("t")); } catch (const std::invalid_argument &) {} break; // not an index yet
    case 2: p.getResultFilter().addNewSubTerm(q.word(), q.word()); p.addNonsearchingField(q.word()); m.match(l, p); break;
    case 3: try { m.onlineMatch(l, q.word()); } catch (const std::invalid_argument &) {} break;
    case 4: try { m.match("a\xff"); } catch (const std::runtime_error &) {} break;
    case 5: p.getResultFilter().addNewTerm(); p.getResultFilter().addNewSubTerm(Word("nosuch"), Word("nothere")); p.setDynamic(false); m.match("zzz t", p); break;
    }
}
static void searches(int n, int values) {
    Matcher a, b;
    W q = sym("query", 2, values), o = sym("other", 1, values + 1);
    Document d[2] = {Document(5), Document(4)};
    for (int i = 0; i < 2; i++) {
        WordList l;
        l.addWord(sym("word", 2, values).word());
        l.addWord(W("b").word());
        d[i].addText(Word("t"), l);
    }
    for (int i = 0; i < 2; i++) {
        Corpus c;
        c.addDocument(d[i]);
        a.index(c);
    }
    for (int i = 0; i < 3; i++) {
        if (i < n) search(b, vp_choose("search", 6), o);
        Corpus c;
        if (i < 2) c.addDocument(d[i]);
        b.index(c);
    }
    WordList l = listOf(&q, 1);
    MatchResults r = a.match(l), s = a.onlineMatch(l, Word("t"));
    same(r, b.match(l), "searches do not change what a later search finds");
    same(s, b.onlineMatch(l, Word("t")), "searches do not change what a later online search finds");
    identical(r, a.match(l), "repeating a search gives the same answer");
    identical(s, a.onlineMatch(l, Word("t")), "repeating an online search gives the same answer");
    vp_reach("searches");
}
VP_ENTRY(c25_searches) { searches(2, 2); vp_reach("between"); }
VP_ENTRY(c25_searches_t) { searches(3, 2); vp_reach("between"); }
// indexing nothing, empty documents and documents without known words change nothing
VP_ENTRY(c25_nothing) {
    Matcher a, b;
    int where = vp_choose("where", 3), what = vp_choose("what", 3);
    W q = sym("query", 2, 2);
    Document d[2] = {Document(5), Document(4)};
    for (int i = 0; i < 2; i++) {
        WordList l;
        l.addWord(sym("word", 2, 2).word());
        d[i].addText(Word("t"), l);
    }
    for (int i = 0; i < 3; i++) {
        if (i == where) {
            Corpus c;
            Document e(77);
            if (what == 1) c.addDocument(e);
            if (what == 2) { e.addText(Word("t"), ""); c.addDocument(e); }
            b.index(c);
        }
        if (i == 2) break;
        Corpus c;
        c.addDocument(d[i]);
        a.index(c);
        b.index(c);
    }
    compare(a, b, &q, 1, W("t"));
    vp_reach("nothing");
}
// four documents of fixed words of a vocabulary
VP_ENTRY(c25_four_t) {
    static const int id[] = {0, 1, 2, 3};
    int order[4] = {0, 1, 2, 3};
    for (int i = 0; i < 3; i++) { int k = i + vp_choose("pick", 4 - i), t = order[i]; order[i] = order[k]; order[k] = t; }
    int cuts = vp_choose("cuts", 8);
    Matcher a, b;
    W q = sym("query", 2, 3);
    Document d[4] = {Document(ids[0]), Document(ids[1]), Document(ids[2]), Document(ids[3])};
    static const char *const text[] = {"ab ab abcd", "ba b", "xyz ab aa", "ab axbx b"};
    for (int i = 0; i < 4; i++) { d[i].addText(Word("t"), text[i]); if (i & 1) d[i].addText(Word("u"), text[i ^ 2]); }
    indexAs(a, d, 4, id, 0);
    indexAs(b, d, 4, order, cuts);
    compare(a, b, &q, 1, W("t"));
    vp_reach("four");
}
