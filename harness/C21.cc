// @bound every accessor with an arbitrary 64-bit position (word IDs: 32 bits) on containers of 0..4 (thorough 0..9) elements, empty ones included, built by adding, copying, moving or merging
// @bound pairs of term and subterm positions, both arbitrary, on filters of 1..3 terms of 0..3 subterms
#include "common.h"
#include "ColumbusHelpers.hh"
#include "Corpus.hh"
#include "Document.hh"
#include "ErrorValues.hh"
#include "IndexMatches.hh"
#include "LevenshteinIndex.hh"
#include "MatchResults.hh"
#include "ResultFilter.hh"
#include "WordList.hh"
#include "WordStore.hh"

template <class F> static void access(bool exists, F f) {
    int t = throws<std::out_of_range>(f);
    if (exists) vp_check(t == NOTHROW, "existing positions are never refused");
    else vp_check(t == THROWS, "positions that do not exist are refused with an out-of-range error");
}
static void word(int max) {
    Letter_ l[10];
    int n = vp_choose("length", max + 1);
    for (int i = 0; i < n; i++) l[i] = anyLetter("letter");
    Word w = mkWord(l, n);
    uint64_t pos = vp_u64("position");
    Letter_ got = 0;
    access(pos < (uint64_t)n, [&] { got = w[pos]; });
    for (int i = 0; i < n; i++) if (pos == (uint64_t)i) vp_check(got == l[i], "an existing position gives the letter there");
}
VP_ENTRY(c21_word) { word(4); vp_reach("word"); }
VP_ENTRY(c21_word_t) { word(9); vp_reach("word"); }
VP_ENTRY(c21_refused) {
    // words that were assigned to, also in vain
    Word w("abcd");
    static const char *t[] = {"ab", "", "\xff", "a b", "abcdef"};
    try { w = t[vp_choose("text", 5)]; } catch (const std::exception &) {}
    if (vp_choose("move", 2)) { Word x(std::move(w)); w = Word("z"); vp_check(x.length() <= 6, "short"); }
    uint64_t pos = vp_u64("position");
    access(pos < w.length(), [&] { (void)(Letter_)w[pos]; });
    vp_reach("refused");
}
static void list(int max) {
    WordList a;
    Letter_ l[10];
    int n = vp_choose("size", max + 1);
    for (int i = 0; i < n; i++) { l[i] = anyLetter("letter"); a.addWord(mkWord(l + i, 1)); }
    uint64_t pos = vp_u64("position");
    WordList b;
    int how = vp_choose("copy", 3);
    if (how == 1) b = a;
    if (how == 2) b = WordList(a);
    const WordList &r = how ? b : a;
    bool same = false;
    access(pos < (uint64_t)n, [&] { const Word &w = r[pos]; for (int i = 0; i < n; i++) if (pos == (uint64_t)i) same = sameLetters(w, l + i, 1); });
    if (pos < (uint64_t)n) vp_check(same, "an existing position gives the word there");
}
VP_ENTRY(c21_list) { list(4); vp_reach("list"); }
VP_ENTRY(c21_list_t) { list(9); vp_reach("list"); }
static void results(int max) {
    MatchResults a, b;
    uint64_t id[10];
    int n = vp_choose("size", max + 1);
    for (int i = 0; i < n; i++) { id[i] = vp_u64("id"); a.addResult((DocumentID)id[i], 100 - i); }
    uint64_t pos = vp_u64("position");
    int how = vp_choose("built", 5);
    if (how == 1) b = a;
    if (how == 2) b.addResults(a);
    if (how == 3) for (int i = 0; i < n; i++) b.copyResult(a, i);
    if (how == 4) b = MatchResults(a);
    const MatchResults &r = how ? b : a;
    DocumentID d = 0;
    double v = 0;
    int what = vp_choose("access", 3);
    if (what == 0) access(pos < (uint64_t)n, [&] { d = r.getDocumentID(pos); });
    if (what == 1) access(pos < (uint64_t)n, [&] { v = r.getRelevancy(pos); });
    if (what == 2) {
        MatchResults c;
        access(pos < (uint64_t)n, [&] { c.copyResult(r, pos); });
        vp_check(c.size() == (pos < (uint64_t)n ? 1u : 0u), "a refused copy adds nothing");
        if (pos < (uint64_t)n) d = c.getDocumentID(0);
    }
    for (int i = 0; i < n; i++)
        if (pos == (uint64_t)i) vp_check(what == 1 ? v == 100 - i : d == (DocumentID)id[i], "an existing position gives the result there");
    vp_check(r.size() == (size_t)n, "access leaves the results as they were");
}
VP_ENTRY(c21_results) { results(3); vp_reach("results"); }
VP_ENTRY(c21_results_t) { results(6); vp_reach("results"); }
static void corpus(int max) {
    Corpus c;
    uint64_t id[10];
    int n = vp_choose("size", max + 1);
    for (int i = 0; i < n; i++) { id[i] = vp_u64("id"); c.addDocument(Document((DocumentID)id[i])); }
    uint64_t pos = vp_u64("position");
    DocumentID d = 0;
    access(pos < (uint64_t)n, [&] { d = c.getDocument(pos).getID(); });
    for (int i = 0; i < n; i++) if (pos == (uint64_t)i) vp_check(d == (DocumentID)id[i], "an existing position gives the document there");
}
VP_ENTRY(c21_corpus) { corpus(4); vp_reach("corpus"); }
VP_ENTRY(c21_corpus_t) { corpus(9); vp_reach("corpus"); }
static void matches(int max) {
    LevenshteinIndex ind;
    ErrorValues e;
    IndexMatches m;
    int n = vp_choose("size", max + 1);
    for (int i = 0; i < n; i++) { Letter_ l[2] = {'a', (Letter_)('a' + i)}; ind.insertWord(mkWord(l, 2), 10 + i); }
    ind.insertWord(Word("xyzw"), 5);
    ind.findWords(Word("a"), e, 100, m);
    bool cleared = vp_choose("clear", 2);
    if (cleared) m.clear();
    size_t k = cleared ? 0 : n;
    vp_check(m.size() == k, "as many matches as words within the error");
    uint64_t pos = vp_u64("position");
    int what = vp_choose("access", 3);
    if (what == 0) access(pos < k, [&] { WordID i = m.getMatch(pos); vp_check(i >= 10 && i < 10 + (WordID)n, "an existing position gives a match"); });
    if (what == 1) access(pos < k, [&] { vp_check(m.getMatchError(pos) == 100, "an existing position gives the error of a match"); });
    if (what == 2) access(pos < k, [&] { m.getQuery(pos); });
}
VP_ENTRY(c21_matches) { matches(4); vp_reach("matches"); }
VP_ENTRY(c21_matches_t) { matches(9); vp_reach("matches"); }
VP_ENTRY(c21_filter) {
    ResultFilter f;
    Letter_ l[3][3];
    int n = 1 + vp_choose("terms", 3), k[3];
    for (int i = 0; i < n; i++) {
        if (i) f.addNewTerm();
        k[i] = vp_choose("subterms", 4);
        for (int j = 0; j < k[i]; j++) { l[i][j] = anyLetter("letter"); f.addNewSubTerm(Word("field"), mkWord(l[i] + j, 1)); }
    }
    uint64_t term = vp_u64("term"), sub = vp_u64("subterm");
    bool t = term < (uint64_t)n, s = false;
    uint64_t size = 0;
    for (int i = 0; i < n; i++) if (term == (uint64_t)i) { s = sub < (uint64_t)k[i]; size = k[i]; }
    int what = vp_choose("access", 3);
    if (what == 0) access(t, [&] { vp_check(f.numSubTerms(term) == size, "an existing term has the subterms added to it"); });
    if (what == 1) access(t && s, [&] { vp_check(f.getField(term, sub) == Word("field"), "an existing subterm has its field"); });
    if (what == 2) access(t && s, [&] {
        const Word &w = f.getWord(term, sub);
        for (int i = 0; i < n; i++) for (int j = 0; j < k[i]; j++)
            if (term == (uint64_t)i && sub == (uint64_t)j) vp_check(sameLetters(w, l[i] + j, 1), "an existing subterm has its word");
    });
    vp_reach("filter");
}
static void store(int max) {
    WordStore s;
    int n = vp_choose("size", max + 1);
    for (int i = 0; i < n; i++) { Letter_ l[2] = {(Letter_)('a' + i % 3), (Letter_)('a' + i)}; s.getID(mkWord(l, 2)); s.getID(mkWord(l, 2)); }
    WordID id = (WordID)vp_u32("id");
    access(id < (WordID)n, [&] {
        Word w = s.getWord(id);
        for (int i = 0; i < n; i++) { Letter_ l[2] = {(Letter_)('a' + i % 3), (Letter_)('a' + i)}; if (id == (WordID)i) vp_check(sameLetters(w, l, 2), "an existing ID gives its word"); }
    });
    vp_check(s.hasWord(id) == (id < (WordID)n), "exactly issued IDs are known");
}
VP_ENTRY(c21_store) { store(4); vp_reach("store"); }
VP_ENTRY(c21_store_t) { store(9); vp_reach("store"); }
