// @bound 2..3 documents with the same ID and one with another, fields of 1..2 words of 1..2 symbolic letters (of 2..3 values), in one or several calls of index, queries of 1..2 symbolic words, with and without filter
// @time c28_same_t 850
// @time c28_filter_t 850
#include "matcher.h"

static W sym(const char *name, int n, int values) {
    W w;
    for (int i = 0; i < n; i++) w.l[i] = letter(name, 'a', 'a' + values - 1);
    w.n = n;
    return w;
}
struct Version { W w[2]; int n; };
// what the versions of one ID amount to: error and rarity per distinct word
static void same(int values, int len, bool filter) {
    Matcher m;
    int cuts = vp_choose("cuts", 4), extra = vp_choose("extra", 2);
    Version v[3];
    W q = sym("query", 2, values);
    // versions 0 and 1 have ID 7, version 2 has ID 8
    for (int i = 0; i < 3; i++) {
        v[i].n = 1 + (i == 1 && extra);
        for (int k = 0; k < v[i].n; k++) v[i].w[k] = k || i == 2 ? W("ab") : sym("word", len, values);
    }
    Corpus *c = new Corpus;
    for (int i = 0; i < 3; i++) {
        Document d(i == 2 ? 8 : 7);
        WordList l;
        for (int k = 0; k < v[i].n; k++) l.addWord(v[i].w[k].word());
        d.addText(Word("t"), l);
        c->addDocument(d);
        if (i == 2 || ((cuts >> i) & 1)) { m.index(*c); delete c; c = i == 2 ? nullptr : new Corpus; }
    }
    // expected relevancies
    double want[2] = {0, 0};
    bool hit[2] = {false, false};
    size_t most = 0;
    for (int pass = 0; pass < 2; pass++)
        for (int i = 0; i < 3; i++)
            for (int k = 0; k < v[i].n; k++) {
                size_t n = 0;
                for (int a = 0; a < 3; a++) for (int b = 0; b < v[a].n; b++) if (eqW(v[a].w[b], v[i].w[k])) n++;
                if (pass == 0) { if (n > most) most = n; continue; }
                int who = i == 2;
                bool seen = false;
                for (int a = who ? 2 : 0; a <= i; a++) for (int b = 0; b < (a == i ? k : v[a].n); b++) if (eqW(v[a].w[b], v[i].w[k])) seen = true;
                if (seen) continue;
                Costs cc = {100, 100, 100, 100, 100, subDefault_};
                int e = refCost(q.l, q.n, v[i].w[k].l, v[i].w[k].n, cc);
                if (e > 200) continue;
                hit[who] = true;
                want[who] += 100.0 / (100.0 + e) * (1.0 - (double)n / (double)(most + 1));
            }
    SearchParameters p;
    if (filter) {
        W f = sym("filter", 2, values);
        p.getResultFilter().addNewSubTerm(Word("t"), f.word());
        bool has[2] = {false, false};
        for (int i = 0; i < 3; i++) for (int k = 0; k < v[i].n; k++) if (eqW(v[i].w[k], f)) has[i == 2] = true;
        for (int i = 0; i < 2; i++) hit[i] = hit[i] && has[i];
    }
    MatchResults r = filter ? m.match(listOf(&q, 1), p) : m.match(listOf(&q, 1));
    int n = 0;
    for (int i = 0; i < 2; i++) {
        int times = 0;
        bool rel = false;
        for (size_t k = 0; k < r.size(); k++) if (r.getDocumentID(k) == (DocumentID)(7 + i)) { times++; rel = close_(r.getRelevancy(k), want[i]); }
        vp_check(times == (hit[i] ? 1 : 0), "an ID indexed several times is one result");
        vp_check(!hit[i] || rel, "each distinct word of an ID counts once");
        n += times;
    }
    vp_check(r.size() == (size_t)n, "only IDs that were indexed are returned");
    // online search
    if (!filter) {
        MatchResults o = m.onlineMatch(listOf(&q, 1), Word("t"));
        for (int i = 0; i < 2; i++) {
            int times = 0;
            for (size_t k = 0; k < o.size(); k++) times += o.getDocumentID(k) == (DocumentID)(7 + i);
            vp_check(times == (hit[i] ? 1 : 0), "an ID indexed several times is one online result");
        }
    }
    vp_reach("same");
}
VP_ENTRY(c28_same) { same(2, 2, false); vp_reach("ids"); }
VP_ENTRY(c28_filter) { same(2, 2, true); vp_reach("ids"); }
VP_ENTRY(c28_same_t) { same(4, 2, false); vp_reach("ids"); }
VP_ENTRY(c28_filter_t) { same(3, 2, true); vp_reach("ids"); }
// different fields of several versions: all stay searchable
VP_ENTRY(c28_fields) {
    Matcher m;
    int both = vp_choose("both", 2);
    W a = sym("word", 2, 3), b = sym("word", 2, 3), q = sym("query", 2, 3);
    Corpus c;
    Document d(7), e(7);
    WordList l, k;
    l.addWord(a.word());
    k.addWord(b.word());
    d.addText(Word("t"), l);
    e.addText(Word("u"), k);
    c.addDocument(d);
    if (!both) m.index(c);
    Corpus c2;
    (both ? c : c2).addDocument(e);
    m.index(both ? c : c2);
    Costs cc = {100, 100, 100, 100, 100, subDefault_};
    int x = refCost(q.l, q.n, a.l, a.n, cc), y = refCost(q.l, q.n, b.l, b.n, cc);
    double want = (x <= 200 ? 50.0 / (100.0 + x) : 0) + (y <= 200 ? 50.0 / (100.0 + y) : 0);
    MatchResults r = m.match(listOf(&q, 1));
    vp_check(r.size() == 1, "an ID indexed several times is one result");
    vp_check(r.getDocumentID(0) == 7 && close_(r.getRelevancy(0), want), "the fields of all versions count");
    SearchParameters p;
    p.getResultFilter().addNewSubTerm(Word("t"), a.word());
    p.getResultFilter().addNewSubTerm(Word("u"), b.word());
    vp_check(m.match(listOf(&q, 1), p).size() == 1, "a filter sees the words of all versions");
    vp_reach("fields");
}
