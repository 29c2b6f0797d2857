// @bound 2 documents of a primary field of 1..3 words and a second field of 1 word out of a vocabulary, queries of 1..3 words with repetitions, primary field known, unknown, only a word, or empty
// @bound documents, primary field words and query words of one arbitrary letter above the table limit
// @time c17_bonus 300
// @time c17_bonus_t 850
#include "matcher.h"

static int exact(const Doc &d, const W &primary, const W *q, int nq, int *words) {
    int n = 0;
    *words = -1;
    for (int f = 0; f < d.n; f++) {
        if (!eqW(d.f[f].name, primary)) continue;
        *words = d.f[f].n;
        for (int i = 0; i < nq; i++) {
            bool in = false;
            for (int k = 0; k < d.f[f].n; k++) if (eqW(d.f[f].w[k], q[i])) in = true;
            n += in;
        }
    }
    return n;
}
static void checkOnline(Matcher &m, const Doc *d, int nd, const W &primary, const W *q, int nq) {
    Ref ref;
    ref.search(d, nd, q, nq);
    MatchResults r = m.onlineMatch(listOf(q, nq), primary.word());
    bool hit[16], perfect[16];
    double want[16];
    for (int i = 0; i < nd; i++) {
        int words, n = exact(d[i], primary, q, nq, &words);
        perfect[i] = n == nq && n == words && n > 0;
        hit[i] = ref.hit[i] || n > 0;
        want[i] = ref.rel[i] + 2 * n + (perfect[i] ? 100 : 0);
    }
    int pos[16];
    checkDocs(r, d, nd, hit, pos);
    for (int i = 0; i < nd; i++) {
        if (!hit[i] || pos[i] < 0) continue;
        vp_check(close_(r.getRelevancy(pos[i]), want[i]), "the relevancy is the ordinary one plus the bonus of exact matches");
        for (int k = 0; k < nd; k++)
            if (hit[k] && pos[k] >= 0 && perfect[i] && !perfect[k] && want[k] < 50) vp_check(pos[i] < pos[k], "a perfect match comes first");
    }
}
static void bonus(int words, int vs, int nqMax) {
    Matcher m;
    Doc d[2];
    W q[3];
    for (int i = 0; i < 2; i++) {
        d[i].id = ids[i];
        d[i].n = 2;
        d[i].f[0].name = W("title");
        d[i].f[0].n = i ? 1 : 1 + vp_choose("words", words);
        for (int k = 0; k < d[i].f[0].n; k++) d[i].f[0].w[k] = pick("t", vs);
        d[i].f[1].name = W("body");
        d[i].f[1].n = 1;
        d[i].f[1].w[0] = i ? W("ab") : pick("b", vs);
    }
    int nq = 1 + vp_choose("query", nqMax);
    for (int i = 0; i < nq; i++) q[i] = pick("q", vs);
    indexAll(m, d, 2);
    checkOnline(m, d, 2, W(vp_choose("primary", 2) ? "title" : "body"), q, nq);
}
VP_ENTRY(c17_bonus) { bonus(3, 3, 2); vp_reach("bonus"); }
VP_ENTRY(c17_bonus_t) { bonus(3, 4, 3); vp_reach("bonus"); }
VP_ENTRY(c17_letters) {
    Matcher m;
    Doc d[2];
    W q[2];
    auto any = [](const char *n, W &w) { w.n = 1; w.l[0] = (Letter_)vp_u16(n); vp_assume((w.l[0] >= 2048) & (w.l[0] < 0xd800)); };
    for (int i = 0; i < 2; i++) {
        d[i].id = ids[i];
        d[i].n = 1;
        d[i].f[0].name = W("title");
        d[i].f[0].n = 2 - i;
        for (int k = 0; k < 2 - i; k++) any("d", d[i].f[0].w[k]);
    }
    int nq = 1 + vp_choose("second", 2);
    any("q", q[0]);
    if (nq > 1) any("q", q[1]);
    indexAll(m, d, 2);
    checkOnline(m, d, 2, W("title"), q, nq);
    vp_reach("letters");
}
// primary fields that are no index are refused, others are not
VP_ENTRY(c17_primary) {
    Matcher m;
    Doc d[2];
    static const char *names[] = {"title", "body", "empty", "word", "tit", "titles", "none", "", "query"};
    for (int i = 0; i < 2; i++) {
        d[i].id = ids[i];
        d[i].n = i ? 2 : 3;
        d[i].f[0].name = W("title");
        d[i].f[0].n = 1;
        d[i].f[0].w[0] = W("word");
        d[i].f[1].name = W(i ? "empty" : "body");
        d[i].f[1].n = i ? 0 : 1;
        d[i].f[1].w[0] = W("word");
        d[i].f[2].name = W("empty");
    }
    int k = vp_choose("name", 9);
    bool indexed = vp_choose("indexed", 2);
    if (indexed) indexAll(m, d, 2);
    W q[1] = {W("query")};
    if (vp_choose("search first", 2)) m.match("query none");
    if (vp_choose("filter first", 2)) { SearchParameters p; p.getResultFilter().addNewSubTerm(Word("none"), Word("query")); m.match("word", p); }
    WordList l = vp_choose("empty query", 2) ? WordList() : listOf(q, 1);
    int t = throws<std::invalid_argument>([&] { m.onlineMatch(l, W(names[k]).word()); });
    bool known = indexed && k < 2;
    if (k != 2) vp_check(t == (known ? NOTHROW : THROWS), "exactly unknown primary fields are refused");
    else vp_check(t != OTHER, "a field without words is accepted or refused");
    if (indexed) { W w[1] = {W("word")}; checkOnline(m, d, 2, W("title"), w, 1); }
    vp_reach("primary");
}
// the same word several times in the query and in the field; the field set anew in a second batch
VP_ENTRY(c17_again) {
    Matcher m;
    Doc d[1];
    d[0].id = ids[1];
    d[0].n = 1;
    d[0].f[0].name = W("title");
    d[0].f[0].n = 1 + vp_choose("words", 3);
    for (int k = 0; k < d[0].f[0].n; k++) d[0].f[0].w[k] = W(vp_choose("w", 2) ? "xyz" : "abcd");
    W q[3];
    int nq = 1 + vp_choose("query", 3);
    for (int i = 0; i < nq; i++) q[i] = W(vp_choose("q", 2) ? "xyz" : "abcd");
    indexAll(m, d, 1);
    checkOnline(m, d, 1, W("title"), q, nq);
    checkOnline(m, d, 1, W("title"), q, nq);
    vp_reach("again");
}
