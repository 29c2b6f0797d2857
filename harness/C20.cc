// @bound texts of 1..3 (thorough 4) arbitrary bytes given to every operation that takes text; words from 1..3 arbitrary letters (including refused ones)
// @bound histories of up to 3 (thorough 4) operations on words, lists, documents, result sets; 60 indexed words with growing storage; conflicting error groups of symbolic letters; searches, filters, online searches
// @bound every operation on storage failing at its nth call (n up to 4); missing and ill-formed data files
// @assume memory never runs out
#include "matcher.h"
#include "ColumbusHelpers.hh"
#include "IndexMatches.hh"
#include "LevenshteinIndex.hh"
#include "Trie.hh"
#include "WordStore.hh"
#include "columbus.h"
#include <new>
#include <utility>

// everything acquired by f has been released when it is done, however it ends
template <class F> static void balanced(F f) {
    uint64_t live = vp_live(), maps = vp_maps(), files = vp_files();
    int t = throws<std::exception>(f);
    vp_check(t != OTHER, "only standard errors are raised");
    vp_check(vp_live() == live, "all memory is released");
    vp_check(vp_maps() == maps, "all mappings are released");
    vp_check(vp_files() == files, "all files are closed");
}
static void bytes(char *b, int max) {
    int n = vp_choose("length", max + 1);
    for (int i = 0; i < n; i++) { b[i] = (char)vp_u8("byte"); vp_assume(b[i] != 0); }
    b[n] = 0;
}
static void text(int max) {
    char b[8];
    bytes(b, max);
    int what = vp_choose("operation", 9);
    string s(b);
    balanced([&] {
        Word field("field");
        switch (what) {
        case 0: { Word w(b); Word c(w); break; }
        case 1: { Word w("abc"); try { w = b; } catch (const std::runtime_error &) {} w = "def"; break; }
        case 2: { WordList l = splitToWords(b); break; }
        case 3: { Letter c[] = {Letter(','), Letter(' ')}; WordList l = split(b, c, 2); break; }
        case 4: { Document d(1); d.addText(field, "one two"); d.addText(field, b); break; }
        case 5: { Document d(1); d.addText(field, s); break; }
        case 6: { Word w("abc"); bool r = w == b; r = w != s; (void)r; break; }
        case 7: { ColWord w = col_word_new(b); col_word_delete(w); break; }
        case 8: { ColDocument d = col_document_new(3); col_document_add_text(d, (ColWord)&field, b); col_document_delete(d); break; }
        }
    });
}
VP_ENTRY(c20_text) { text(3); vp_reach("text"); }
VP_ENTRY(c20_text_t) { text(4); vp_reach("text"); }
// queries, with and without the operation failing
VP_ENTRY(c20_query) {
    char b[4];
    bytes(b, 2);
    int what = vp_choose("operation", 5);
    balanced([&] {
        Matcher m;
        Doc d[1];
        d[0].id = 1; d[0].n = 1;
        d[0].f[0].name = W("title"); d[0].f[0].n = 1; d[0].f[0].w[0] = W("ab");
        indexAll(m, d, 1);
        SearchParameters p;
        switch (what) {
        case 0: m.match(b); break;
        case 1: m.match(string(b)); break;
        case 2: p.getResultFilter().addNewSubTerm(Word("title"), Word(b)); m.match("ab", p); break;
        case 3: m.onlineMatch(splitToWords(b), Word("title")); m.onlineMatch(splitToWords("ab"), Word(b)); break;
        case 4: { ColMatchResults r = col_matcher_match((ColMatcher)&m, b); col_match_results_delete(r); break; }
        }
    });
    vp_reach("query");
}
VP_ENTRY(c20_letters) {
    Letter l[3];
    int n = vp_choose("length", 4);
    for (int i = 0; i < n; i++) l[i] = Letter(vp_u16("letter"));
    unsigned size = vp_choose("size", 9);
    bool zero = false;
    for (int i = 0; i < n; i++) zero = zero | ((Letter_)l[i] == 0);
    vp_assume(!zero);
    balanced([&] {
        Word w(l, n);
        char *b = new char[size];
        try { w.toUtf8(b, size); } catch (...) { delete[] b; throw; }
        delete[] b;
        string s = w.asUtf8();
        Word j = w.join(w);
        w = j;
    });
    vp_reach("letters");
}
// histories of value operations
struct AnyObj { virtual ~AnyObj() {} };
template <class T, class Make> static void history(int ops, Make make) {
    int plan[4];
    for (int i = 0; i < ops; i++) plan[i] = vp_choose("op", 9);
    balanced([&] {
        T *a = make(0), *b = make(1);
        for (int i = 0; i < ops; i++) {
            switch (plan[i]) {
            case 0: *a = *b; break;
            case 1: { const T &r = *a; *a = r; break; }
            case 2: { T c(*a); *b = c; break; }
            case 3: { T c(std::move(*a)); delete a; a = b; b = make(2); break; }
            case 4: { *a = std::move(*b); delete b; b = make(1); break; }
            case 5: { T c(*b); *a = std::move(c); c = *a; break; }
            case 6: { T *c = new T(*a); delete a; a = c; break; }
            case 7: { T *c = make(i); std::swap(a, c); delete c; break; }
            case 8: { T c(std::move(*b)); *b = std::move(c); break; }
            }
        }
        delete a;
        delete b;
    });
}
static void values(int ops) {
    switch (vp_choose("class", 4)) {
    case 0: history<Word>(ops, [](int k) { return k ? new Word(k == 1 ? "abcdefghijkl" : "x") : new Word(); }); break;
    case 1: history<WordList>(ops, [](int k) { WordList *l = new WordList(); for (int i = 0; i < k; i++) l->addWord(Word("word")); return l; }); break;
    case 2: history<MatchResults>(ops, [](int k) { MatchResults *l = new MatchResults(); for (int i = 0; i < k; i++) l->addResult(i, i); return l; }); break;
    case 3: history<Document>(ops, [](int k) { Document *d = new Document(k); if (k) d->addText(Word(k == 1 ? "a" : "b"), "some text"); return d; }); break;
    }
}
VP_ENTRY(c20_values) { values(3); vp_reach("values"); }
VP_ENTRY(c20_values_t) { values(4); vp_reach("values"); }
// indexes and stores that grow, and the searches on them
static void grow(int what, int n) {
    switch (what) {
    case 0: {
        LevenshteinIndex ind;
        for (int i = 0; i < n; i++) { Letter_ l[3] = {(Letter_)('a' + i % 7), (Letter_)('a' + i / 7), 'x'}; ind.insertWord(mkWord(l, 3), i); }
        ErrorValues e;
        IndexMatches m;
        ind.findWords(Word("abx"), e, 100, m);
        m.clear();
        ind.findWords(Word("abx"), e, 200, m);
        break;
    }
    case 1: {
        WordStore s;
        for (int i = 0; i < n; i++) { Letter_ l[2] = {(Letter_)('a' + i % 7), (Letter_)('a' + i / 7)}; s.getID(mkWord(l, 2)); }
        for (int i = 0; i < n; i++) Word w = s.getWord(i);
        throws<std::out_of_range>([&] { s.getWord(n); });
        break;
    }
    case 2: {
        Trie t;
        for (int i = 0; i < n; i++) { Letter_ l[2] = {(Letter_)('a' + i % 7), (Letter_)('a' + i / 7)}; t.insertWord(mkWord(l, 2), i); }
        break;
    }
    case 3: {
        Matcher *m = new Matcher();
        try {
            Corpus c;
            for (int i = 0; i < 3; i++) {
                Document d(i);
                d.addText(Word("title"), i == 1 ? "alpha beta" : "gamma delta epsilon zeta eta theta iota");
                d.addText(Word("body"), "some words that are indexed");
                c.addDocument(d);
            }
            m->index(c);
            m->index(c);
            m->match("alpha some");
            SearchParameters p;
            p.addNonsearchingField(Word("body"));
            p.getResultFilter().addNewSubTerm(Word("title"), Word("alpha"));
            p.getResultFilter().addNewTerm();
            m->match("some alpha", p);
            m->onlineMatch(splitToWords("alpha beta"), Word("title"));
            m->getIndexWeights().setWeight(Word("title"), 2);
            throws<std::invalid_argument>([&] { m->onlineMatch(splitToWords("alpha beta"), Word("none")); });
        } catch (...) { delete m; throw; }
        delete m;
        break;
    }
    }
}
VP_ENTRY(c20_grow) {
    int what = vp_choose("class", 4);
    balanced([&] { grow(what, 60); });
    vp_reach("grow");
}
VP_ENTRY(c20_faults) {
    static const int kinds[] = {VP_TMPFILE, VP_FTRUNCATE, VP_MMAP, VP_MUNMAP, VP_MADVISE, VP_ICONV_OPEN};
    int what = vp_choose("class", 4), kind = kinds[vp_choose("kind", 6)], nth = vp_choose("nth", 5);
    if (kind == VP_MUNMAP) {
        // a failing unmapping while growing; the ones while destroying cannot be undone
        balanced([&] {
            Trie t;
            vp_fault(kind, nth);
            try { for (int i = 0; i < 30; i++) { Letter_ l[2] = {(Letter_)('a' + i % 7), (Letter_)('a' + i / 7)}; t.insertWord(mkWord(l, 2), i); } } catch (const std::runtime_error &) {}
            vp_fault(kind, -1);
        });
    } else balanced([&] { vp_fault(kind, nth); try { grow(what, 60); } catch (...) { vp_fault(kind, -1); throw; } vp_fault(kind, -1); });
    vp_fault(kind, -1);
    vp_reach("faults");
}
// error groups that conflict, data files that are missing or ill-formed
VP_ENTRY(c20_errors) {
    Letter_ l[4];
    for (int i = 0; i < 4; i++) l[i] = letter("letter", 'a', 'e');
    int file = vp_choose("file", 4);
    static const char *text[] = {"ab\ncd\n", "ab\nbc\n", "a b\n", "ab\n\xff\xff\n"};
    if (file) vp_setdatadir("somewhere");
    vp_addfile("somewhere/latinAccentedLetterGroups.txt", text[vp_choose("text", 4)]);
    balanced([&] {
        ErrorValues e;
        e.setGroupError(mkWord(l, 2), 10);
        try { e.setGroupError(mkWord(l + 2, 2), 20); } catch (const std::runtime_error &) {}
        e.setError(Letter(l[0]), Letter(l[2]), 5);
        if (file == 2) e.clearErrors();
        if (file) e.addAccents(latinAccentGroup);
        else { e.clearErrors(); e.addStandardErrors(); e.addNumberpadErrors(); e.addStandardErrors(); }
    });
    vp_reach("errors");
}
VP_ENTRY(c20_capi) {
    int bad = vp_choose("bad", 5);
    uint64_t pos = vp_u64("position");
    balanced([&] {
        ColMatcher m = col_matcher_new();
        ColCorpus c = col_corpus_new();
        ColDocument d = col_document_new(1);
        ColWord f = col_word_new("field");
        col_document_add_text(d, f, "some text");
        if (bad == 1) col_document_add_text(d, f, "\xff");
        col_corpus_add_document(c, d);
        col_document_delete(d);
        col_matcher_index(m, c);
        col_corpus_delete(c);
        if (bad == 2) vp_fault(VP_ICONV_OPEN, 1);
        ColMatchResults r = col_matcher_match(m, bad == 3 ? "some \xff" : "some text");
        vp_fault(VP_ICONV_OPEN, -1);
        if (r) { col_match_results_get_id(r, pos); col_match_results_get_relevancy(r, pos); }
        if (r) col_match_results_delete(r);
        char b[4];
        col_word_as_utf8(f, b, 4);
        col_index_weights_set_weight(col_matcher_get_index_weights(m), f, 2);
        if (bad == 4) { col_error_values_add_standard_errors(col_matcher_get_error_values(m)); col_error_values_add_standard_errors(col_matcher_get_error_values(m)); }
        col_word_delete(f);
        col_matcher_delete(m);
    });
    vp_reach("capi");
}
