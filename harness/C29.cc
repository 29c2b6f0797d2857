// @bound two objects of a kind and up to 4 (thorough 6) operations interleaved between them, with symbolic letters (of 2..3 values), costs of any 32-bit value, created and destroyed in either order
// @time c29_matchers_t 850
#include "matcher.h"
#include "IndexMatches.hh"
#include "LevenshteinIndex.hh"
#include "WordStore.hh"

static W sym(const char *name, int n, int values) {
    W w;
    for (int i = 0; i < n; i++) w.l[i] = letter(name, 'a', 'a' + values - 1);
    w.n = n;
    return w;
}
static void identical(const MatchResults &a, const MatchResults &b, const char *what) {
    vp_check(a.size() == b.size(), what);
    for (size_t i = 0; i < a.size(); i++) vp_check((a.getDocumentID(i) == b.getDocumentID(i)) & (a.getRelevancy(i) == b.getRelevancy(i)), what);
}
static void add(Matcher &m, DocumentID id, const W &field, const W &w) {
    Corpus c;
    Document d(id);
    WordList l;
    l.addWord(w.word());
    d.addText(field.word(), l);
    c.addDocument(d);
    m.index(c);
}
// what one matcher finds does not depend on what is done with another
static void matchers(int n, int values) {
    Matcher *alone = new Matcher, *m = new Matcher, *other = vp_choose("early", 2) ? new Matcher : nullptr;
    int before = vp_choose("before", 2);
    W a = sym("word", 2, values), b = sym("word", 1, values), q = sym("query", 2, values);
    if (before) { add(*alone, 1, W("t"), a); add(*m, 1, W("t"), a); }
    if (!other) other = new Matcher;
    for (int i = 0; i < n; i++) {
        switch (vp_choose("op", 6)) {
        case 0: add(*other, 1, W("t"), b); break;
        case 1: add(*other, 2, W("u"), q); break;
        case 2: other->getErrorValues().setSubstringMode(); other->getErrorValues().setError(Letter('a'), Letter('b'), 3); break;
        case 3: other->getIndexWeights().setWeight(Word("t"), 9); break;
        case 4: other->match(listOf(&q, 1)); break;
        case 5: { SearchParameters p; p.setDynamic(false); p.addNonsearchingField(Word("t")); p.getResultFilter().addNewSubTerm(Word("u"), b.word()); other->match(listOf(&b, 1), p); break; }
        }
    }
    if (!before) { add(*alone, 1, W("t"), a); add(*m, 1, W("t"), a); }
    add(*alone, 2, W("t"), b);
    add(*m, 2, W("t"), b);
    int gone = vp_choose("gone", 2);
    if (gone) delete other;
    identical(alone->match(listOf(&q, 1)), m->match(listOf(&q, 1)), "a matcher is not affected by another");
    identical(alone->onlineMatch(listOf(&q, 1), Word("t")), m->onlineMatch(listOf(&q, 1), Word("t")), "an online search is not affected by another matcher");
    if (!gone) delete other;
    delete alone;
    delete m;
    vp_reach("matchers");
}
VP_ENTRY(c29_matchers) { matchers(2, 2); vp_reach("apart"); }
VP_ENTRY(c29_matchers_t) { matchers(3, 2); vp_reach("apart"); }
// word stores and indexes
static void stores(int n) {
    WordStore *s[2];
    int first = vp_choose("first", 2);
    s[first] = new WordStore;
    s[!first] = new WordStore;
    LevenshteinIndex *x[2] = {new LevenshteinIndex, new LevenshteinIndex};
    W seen[2][8];
    int cnt[2][8], k[2] = {0, 0};
    for (int i = 0; i < n; i++) {
        int who = vp_choose("which", 2);
        W w = sym("word", 1 + (i & 1), 3);
        int at = -1;
        for (int j = 0; j < k[who]; j++) if (eqW(seen[who][j], w)) at = j;
        if (at < 0) { at = k[who]++; seen[who][at] = w; cnt[who][at] = 0; }
        cnt[who][at]++;
        WordID id = s[who]->getID(w.word());
        vp_check(id == (WordID)at, "a store numbers its own words");
        x[who]->insertWord(w.word(), id);
    }
    int gone = vp_choose("gone", 3); // destroy one of them, or none
    if (gone < 2) { delete s[gone]; delete x[gone]; }
    for (int who = 0; who < 2; who++) {
        if (who == gone) continue;
        vp_check(x[who]->numWords() == (size_t)k[who], "an index counts its own words");
        size_t most = 0;
        for (int j = 0; j < k[who]; j++) {
            vp_check(s[who]->hasWord(seen[who][j].word()) && sameLetters(s[who]->getWord(j), seen[who][j].l, seen[who][j].n), "a store keeps its own words");
            vp_check(x[who]->wordCount(j) == (size_t)cnt[who][j], "an index counts its own words");
            if ((size_t)cnt[who][j] > most) most = cnt[who][j];
        }
        vp_check(x[who]->maxCount() == most, "an index counts its own words");
        vp_check(!s[who]->hasWord((WordID)k[who]), "a store has its own words only");
        W o = sym("other", 1, 3);
        bool known = false;
        for (int j = 0; j < k[who]; j++) if (eqW(seen[who][j], o)) known = true;
        vp_check(s[who]->hasWord(o.word()) == known && x[who]->hasWord(o.word()) == known, "a store has its own words only");
    }
    for (int who = 0; who < 2; who++) if (who != gone) { delete s[who]; delete x[who]; }
    vp_reach("stores");
}
VP_ENTRY(c29_stores) { stores(4); vp_reach("apart"); }
VP_ENTRY(c29_stores_t) { stores(6); vp_reach("apart"); }
// cost settings
static void costs(int n) {
    ErrorValues *a = new ErrorValues, *b = new ErrorValues, untouched;
    int v = (int)vp_u32("cost");
    for (int i = 0; i < n; i++) {
        switch (vp_choose("op", 6)) {
        case 0: a->setError(Letter('a'), Letter('b'), v); break;
        case 1: if (!a->isInGroup(Letter('a'))) a->setGroupError(Word("abc"), v); break;
        case 2: a->setInsertionError(v); a->setDeletionError(v); a->setTransposeError(v); break;
        case 3: a->setSubstringMode(); break;
        case 4: a->clearErrors(); break;
        case 5: a->addNumberpadErrors(); a->addKeyboardErrors(); break;
        }
    }
    if (vp_choose("gone", 2)) { delete a; a = nullptr; }
    ErrorValues late;
    ErrorValues *all[3] = {b, &untouched, &late};
    Letter_ x = letter("letter", 'a', 'z'), y = letter("letter", '0', 'z');
    for (int i = 0; i < 3; i++) {
        ErrorValues &e = *all[i];
        vp_check((e.getInsertionError() == 100) & (e.getDeletionError() == 100) & (e.getEndDeletionError() == 100) & (e.getTransposeError() == 100) & (e.getStartInsertionError(5) == 100), "cost settings are those of one object");
        vp_check((uint32_t)e.getSubstituteError(Letter(x), Letter(y)) == (uint32_t)vp_ite(x == y, 0, 100), "letter costs are those of one object");
        vp_check(!e.isInGroup(Letter('a')), "groups are those of one object");
    }
    delete a;
    delete b;
    vp_reach("costs");
}
VP_ENTRY(c29_costs) { costs(2); vp_reach("apart"); }
VP_ENTRY(c29_costs_t) { costs(3); vp_reach("apart"); }
// looking up in two indexes with one set of costs, and reusing a match list after clearing it
VP_ENTRY(c29_lookups) {
    LevenshteinIndex x[2];
    ErrorValues e;
    W w[2] = {sym("word", 2, 3), sym("word", 2, 3)}, q = sym("query", 2, 3);
    for (int i = 0; i < 2; i++) x[i].insertWord(w[i].word(), 5 + i);
    IndexMatches m[2], again;
    for (int i = 0; i < 2; i++) x[i].findWords(q.word(), e, 100, m[i]);
    Costs cc = {100, 100, 100, 100, 100, subDefault_};
    for (int i = 0; i < 2; i++) {
        int c = refCost(q.l, q.n, w[i].l, w[i].n, cc);
        vp_check(m[i].size() == (c <= 100 ? 1u : 0u), "a lookup finds words of its own index");
        if (m[i].size()) vp_check(m[i].getMatch(0) == (WordID)(5 + i) && m[i].getMatchError(0) == c, "a lookup finds words of its own index");
        x[i].findWords(q.word(), e, 100, again);
        vp_check(again.size() == m[i].size(), "a cleared match list holds the new matches only");
        for (size_t k = 0; k < again.size(); k++) vp_check(again.getMatch(k) == m[i].getMatch(k) && again.getMatchError(k) == m[i].getMatchError(k), "a cleared match list holds the new matches only");
        again.clear();
        vp_check(again.size() == 0, "a cleared match list is empty");
    }
    vp_reach("lookups");
}
