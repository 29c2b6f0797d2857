// @bound 2 documents, 1 field of 1 word (thorough 2) each, words and query of 1..2 arbitrary letters above the table limit
// @bound 2 documents of 2 fields with 1..2 words out of a vocabulary of 8, queries of 1..2 words, every non-searching and dynamic setting
// @bound one word pair with an any substitution cost of 0..511; corpora of 9..14 matching documents; document IDs including 0, 2^32+7 and 2^64-1
// @assume words of 1..4 letters; at most 14 documents
// @time c14_fields 300
// @time c14_letters_t 850
// @time c14_fields_t 850
// @bound 300 documents of one own and one common word, queried by a word with two letters of 8 values
#include "matcher.h"

static W anyWord(const char *name, int max) {
    W w;
    w.n = 1 + vp_choose("length", max);
    for (int i = 0; i < w.n; i++) { w.l[i] = (Letter_)vp_u16(name); vp_assume((w.l[i] >= 2048) & (w.l[i] < 0xd800)); }
    return w;
}
static void run(Matcher &m, const Doc *d, int nd, const W *q, int nq, Ref &ref, SearchParameters *p = nullptr) {
    int pos[16];
    indexAll(m, d, nd);
    MatchResults r = p ? m.match(listOf(q, nq), *p) : m.match(listOf(q, nq));
    ref.search(d, nd, q, nq);
    checkDocs(r, d, nd, ref.hit, pos);
}
static void letters(int words, int len) {
    Matcher m;
    Doc d[2];
    for (int i = 0; i < 2; i++) {
        d[i].id = ids[i];
        d[i].n = 1;
        d[i].f[0].name = W("text");
        d[i].f[0].n = words;
        for (int k = 0; k < words; k++) d[i].f[0].w[k] = anyWord("d", len);
    }
    W q = anyWord("q", len);
    Ref ref;
    run(m, d, 2, &q, 1, ref);
}
VP_ENTRY(c14_letters) { letters(1, 2); vp_reach("letters"); }
VP_ENTRY(c14_letters_t) { letters(2, 2); vp_reach("letters"); }
static unsigned hidden;
static bool searchable(const W &f) { return !((hidden & 1 && f.l[0] == 't') || (hidden & 2 && f.l[0] == 'b')); }
static void fields(int max, int vs) {
    Matcher m;
    Doc d[2];
    W q[2];
    hidden = vp_choose("hidden", 4);
    bool dyn = vp_choose("dynamic", 2);
    for (int i = 0; i < 2; i++) {
        d[i].id = ids[i];
        d[i].n = 2;
        for (int f = 0; f < 2; f++) {
            d[i].f[f].name = W(f ? "body" : "title");
            d[i].f[f].n = (i == 0 && f == 0) ? 1 + vp_choose("words", max) : 1;
            for (int k = 0; k < d[i].f[f].n; k++) d[i].f[f].w[k] = pick("d", i ? vs : 6);
        }
    }
    int nq = 1 + vp_choose("qwords", 2);
    for (int i = 0; i < nq; i++) q[i] = pick("q", i ? 2 : 6);
    SearchParameters p;
    p.setDynamic(dyn);
    if (hidden & 1) p.addNonsearchingField(Word("title"));
    if (hidden & 2) p.addNonsearchingField(Word("body"));
    p.addNonsearchingField(Word("other"));
    Ref ref;
    ref.dynamic = dyn;
    ref.searchable = searchable;
    run(m, d, 2, q, nq, ref, &p);
}
VP_ENTRY(c14_fields) { fields(1, 3); vp_reach("fields"); }
VP_ENTRY(c14_fields_t) { fields(2, 4); vp_reach("fields"); }
// arbitrary substitution cost decides
static int pairCost_;
static int subPair_(Letter_ x, Letter_ y) {
    bool pr = ((x == 'a') & (y == 'b')) | ((x == 'b') & (y == 'a'));
    return (int)(uint32_t)vp_ite(x == y, 0, vp_ite(pr, (uint32_t)pairCost_, 100));
}
static void limit(int pairs) {
    static const char *words[] = {"b", "bb", "abb", "bbbb", "bab"};
    static const char *queries[] = {"a", "aa", "aba", "aaaa", "bb"};
    Matcher m;
    Doc d[1];
    int base = 256 * vp_choose("high", 2);
    pairCost_ = vp_range("cost", base, base + 255);
    m.getErrorValues().setError(Letter('a'), Letter('b'), pairCost_);
    d[0].id = ids[0];
    d[0].n = 1;
    d[0].f[0].name = W("text");
    d[0].f[0].n = 1;
    int i = vp_choose("w", 5), j = pairs ? (int)vp_choose("q", 5) : i;
    d[0].f[0].w[0] = W(words[i]);
    W q[2] = {W(queries[j]), W("zzzzz")};
    bool dyn = vp_choose("dynamic", 2);
    SearchParameters p;
    p.setDynamic(dyn);
    Ref ref;
    ref.dynamic = dyn;
    ref.c.sub = subPair_;
    run(m, d, 1, q, 1 + vp_choose("second", 2), ref, &p);
}
VP_ENTRY(c14_limit) { limit(1); vp_reach("limit"); }
VP_ENTRY(c14_many) {
    Matcher m;
    Doc d[14];
    int n = 9 + vp_choose("documents", 6), odd = vp_choose("odd", 3);
    for (int i = 0; i < n; i++) {
        d[i].id = ids[i];
        d[i].n = 1;
        d[i].f[0].name = W("text");
        d[i].f[0].w[0] = W(odd == 0 || i % 3 ? "ab" : odd == 1 ? "xyzzy" : "ba");
        d[i].f[0].w[1] = W(i == 4 ? "abc" : "unrel");
        d[i].f[0].n = 2;
    }
    W q[2] = {W("ab"), W("abc")};
    Ref ref;
    run(m, d, n, q, 1 + vp_choose("qwords", 2), ref);
    vp_reach("many");
}
// empty queries and corpora, words without documents
VP_ENTRY(c14_empty) {
    Matcher m;
    Doc d[2];
    int n = vp_choose("documents", 3);
    for (int i = 0; i < n; i++) {
        d[i].id = ids[i];
        d[i].n = vp_choose("fields", 3);
        for (int f = 0; f < d[i].n; f++) {
            d[i].f[f].name = W(f ? "body" : "title");
            d[i].f[f].n = vp_choose("words", 2);
            d[i].f[f].w[0] = pick("d", 2);
        }
    }
    W q = pick("q", 6);
    Ref ref;
    ref.search(d, n, &q, 1);
    int pos[16];
    if (vp_choose("unindexed", 2) == 0) indexAll(m, d, n);
    else for (bool &h : ref.hit) h = false;
    checkDocs(m.match(q.word().length() ? listOf(&q, 1) : WordList()), d, n, ref.hit, pos);
    vp_check(m.match(WordList()).size() == 0, "an empty query returns nothing");
    vp_check(m.match("").size() == 0, "an empty query text returns nothing");
    vp_check(m.match(" \t").size() == 0, "a blank query text returns nothing");
    vp_reach("empty");
}
// the text forms of a query mean the words of the text
VP_ENTRY(c14_text) {
    Matcher m;
    Doc d[2];
    for (int i = 0; i < 2; i++) {
        d[i].id = ids[i];
        d[i].n = 1;
        d[i].f[0].name = W("text");
        d[i].f[0].n = 1;
        d[i].f[0].w[0] = pick("d", 6);
    }
    W q[2] = {pick("q", 6), pick("q", 3)};
    static const char *gap[] = {" ", "\t\n", "  "};
    string t = string(gap[vp_choose("lead", 3)]) + q[0].word().asUtf8() + gap[vp_choose("gap", 3)] + q[1].word().asUtf8();
    for (size_t i = 0; i < t.size(); i++) if (vp_choose("upper", 2)) { for (size_t k = i; k < t.size(); k++) if (t[k] >= 'a' && t[k] <= 'z') t[k] -= 32; break; } else if (i > 1) break;
    Ref ref;
    ref.search(d, 2, q, 2);
    indexAll(m, d, 2);
    int pos[16];
    SearchParameters p;
    switch (vp_choose("form", 3)) {
    case 0: checkDocs(m.match(t.c_str()), d, 2, ref.hit, pos); break;
    case 1: checkDocs(m.match(t), d, 2, ref.hit, pos); break;
    case 2: checkDocs(m.match(t.c_str(), p), d, 2, ref.hit, pos); break;
    }
    vp_reach("text");
}
// more documents, words and fields than a byte can count
VP_ENTRY(c14_corpus) {
    Matcher m;
    int n = 300, same = 270 * vp_choose("same", 2);
    Corpus c;
    for (int i = 0; i < n; i++) {
        Document d(((DocumentID)i << 32) + 5);
        Letter_ k[4] = {(Letter_)(0x1000 + i), (Letter_)(0x2000 + i), (Letter_)(0x3000 + i), (Letter_)(0x4000 + i)};
        WordList l;
        l.addWord(mkWord(k, 4));
        if (i < same) l.addWord(Word("common"));
        d.addText(Word("field"), l);
        c.addDocument(d);
    }
    m.index(c);
    int i = vp_choose("which", 4) * 299 / 3;
    Letter_ k[4] = {(Letter_)(0x1000 + i), (Letter_)(0x2000 + i), letter("letter", 0x500, 0x507), letter("letter", 0x500, 0x507)};
    WordList q;
    q.addWord(mkWord(k, 4));
    MatchResults r = m.match(q);
    vp_check(r.size() == 1 && r.getDocumentID(0) == ((DocumentID)i << 32) + 5, "each of many documents is found by its word");
    q.addWord(Word("common"));
    r = m.match(q);
    vp_check(r.size() == (size_t)(same + (i >= same)), "all documents with a common word are found");
    vp_reach("corpus");
}
