// @bound document text, field name or query of 1..3 (thorough 4) arbitrary non-zero bytes, and pairs of arbitrary text of 1 (thorough 1..2) bytes and arbitrary query of 1 byte; through the C++ and C interfaces; default, standard or substring costs
// @bound every arrangement of words and white space in texts of up to 10 (thorough 12) bytes
// @bound words of 1 (thorough 1..2) arbitrary accepted letters (surrogate pairs included) as text, field names, filter words, primary fields and queries
// @time c24_pair_t 850
// @time c24_letters_t 850
// @time c24_letters_standard_t 850
// @time c24_standard_t 850
// @time c24_query_t 850
#include "matcher.h"
#include "ColumbusHelpers.hh"
#include "columbus.h"

static void bytes(const char *name, char *b, int min, int max) {
    int n = min + vp_choose("length", max - min + 1);
    for (int i = 0; i < n; i++) { b[i] = (char)vp_u8(name); vp_assume(b[i] != 0); }
    b[n] = 0;
}
// a documented error or none
template <class F> static bool documented(F f) {
    try { f(); return true; }
    catch (const std::runtime_error &) {}
    catch (const std::invalid_argument &) {}
    catch (const std::out_of_range &) {}
    catch (...) { vp_check(false, "only documented errors are raised"); }
    return false;
}
static void usable(Matcher &m) {
    Corpus c;
    Document d(99);
    d.addText(Word("usable"), "zzzz");
    c.addDocument(d);
    m.index(c);
    MatchResults r = m.match("zzzz");
    bool found = false;
    for (size_t i = 0; i < r.size(); i++) found = found | (r.getDocumentID(i) == 99);
    vp_check(found, "the matcher stays usable");
}
static void costs(Matcher &m, int which) {
    switch (which) {
    case 1: m.getErrorValues().addStandardErrors(); break;
    case 2: m.getErrorValues().setSubstringMode(); break;
    }
}
static void one(int max, int what, int cost = 0) {
    Matcher m;
    costs(m, cost);
    char b[8];
    bytes("byte", b, 0, max);
    Corpus c;
    Document d(1);
    documented([&] { d.addText(Word("field"), "some text"); });
    bool ok;
    switch (what) {
    case 0: // text
        ok = documented([&] { d.addText(Word("field"), b); });
        vp_check(d.getText(Word("field")).size() == 2 || ok, "refused text changes nothing");
        break;
    case 1: // field name
        documented([&] { d.addText(Word(b), "other text"); });
        break;
    }
    c.addDocument(d);
    documented([&] { m.index(c); });
    MatchResults r;
    switch (what) {
    case 2: documented([&] { r = m.match(b); }); break;
    case 3: documented([&] { r = m.onlineMatch(splitToWords(b), Word("field")); }); break;
    case 4: documented([&] {
        SearchParameters p;
        p.getResultFilter().addNewSubTerm(Word("field"), Word(b));
        r = m.match("text", p);
    }); break;
    default: r = m.match("text"); break;
    }
    for (size_t i = 0; i < r.size(); i++) vp_check(r.getDocumentID(i) == 1 && r.getRelevancy(i) > 0, "results are documents of the corpus");
    usable(m);
}
VP_ENTRY(c24_text) { one(3, 0); vp_reach("one"); }
VP_ENTRY(c24_text_t) { one(4, 0); vp_reach("one"); }
VP_ENTRY(c24_field) { one(3, 1); vp_reach("one"); }
VP_ENTRY(c24_field_t) { one(4, 1); vp_reach("one"); }
VP_ENTRY(c24_query) { one(3, 2); vp_reach("one"); }
VP_ENTRY(c24_query_t) { one(4, 2); vp_reach("one"); }
VP_ENTRY(c24_online) { one(3, 3); vp_reach("one"); }
VP_ENTRY(c24_online_t) { one(4, 3); vp_reach("one"); }
VP_ENTRY(c24_filter) { one(3, 4); vp_reach("one"); }
VP_ENTRY(c24_filter_t) { one(4, 4); vp_reach("one"); }
VP_ENTRY(c24_standard) { one(2, 2, 1); vp_reach("one"); }
VP_ENTRY(c24_standard_t) { one(3, 2, 1); vp_reach("one"); }
VP_ENTRY(c24_substring) { one(3, 2, 2); vp_reach("one"); }
VP_ENTRY(c24_substring_t) { one(4, 2, 2); vp_reach("one"); }
// any arrangement of words and white space: each byte is a letter or a separator
static void layout(int max) {
    char b[16];
    int n = 1 + vp_choose("length", max), words = 0;
    bool in = false;
    for (int i = 0; i < n; i++) {
        b[i] = (char)vp_u8("byte");
        vp_assume((b[i] == 'a') | (b[i] == ' '));
        bool space = b[i] == ' ';
        words += !space & !in;
        in = !space;
    }
    b[n] = 0;
    WordList l = splitToWords(b);
    vp_check(l.size() == (size_t)words, "a text has as many words as it has runs of letters");
    Document d(1);
    d.addText(Word("field"), b);
    vp_check(d.getText(Word("field")).size() == (size_t)words, "a text has as many words as it has runs of letters");
    Letter c[] = {Letter(' ')};
    vp_check(split(b, c, 1).size() == (size_t)words, "a text has as many words as it has runs of letters");
    vp_reach("layout");
}
VP_ENTRY(c24_layout) { layout(10); vp_reach("split"); }
VP_ENTRY(c24_layout_t) { layout(12); vp_reach("split"); }
static void pair(int textMax, int queryMax) {
    Matcher m;
    char t[8], q[8];
    bytes("text", t, 1, textMax);
    bytes("query", q, 1, queryMax);
    Corpus c;
    Document d(1);
    if (!documented([&] { d.addText(Word("field"), t); })) { vp_reach("refused"); vp_assume(0); }
    c.addDocument(d);
    m.index(c);
    MatchResults r;
    documented([&] { r = m.match(q); });
    vp_check(r.size() <= 1, "one document is found at most once");
    // searching with the text itself finds the document
    r = m.match(t);
    vp_check(r.size() == (d.getText(Word("field")).size() > 0 ? 1u : 0u), "a document is found by its own text");
    usable(m);
}
VP_ENTRY(c24_pair) { pair(1, 1); vp_reach("pair"); }
VP_ENTRY(c24_pair_t) { pair(2, 1); vp_reach("pair"); }
static void capi(int max) {
    char b[8];
    bytes("byte", b, 0, max);
    int what = vp_choose("what", 4);
    ColMatcher m = col_matcher_new();
    ColCorpus c = col_corpus_new();
    ColDocument d = col_document_new(1);
    ColWord f = col_word_new(what == 1 ? b : "field");
    if (what == 1 && !f) f = col_word_new("field");
    col_document_add_text(d, f, "some text");
    if (what == 0) col_document_add_text(d, f, b);
    col_corpus_add_document(c, d);
    col_matcher_index(m, c);
    ColMatchResults r = col_matcher_match(m, what == 2 ? b : "text");
    if (r) {
        size_t n = col_match_results_size(r);
        vp_check(n <= 1, "one document is found at most once");
        for (size_t i = 0; i < n; i++) vp_check(col_match_results_get_id(r, i) == 1, "results are documents of the corpus");
        col_match_results_delete(r);
    }
    if (what == 3) {
        ColWord w = col_word_new(b);
        if (w) {
            col_index_weights_set_weight(col_matcher_get_index_weights(m), w, 3);
            vp_check(col_index_weights_get_weight(col_matcher_get_index_weights(m), w) == 3, "weights of any field can be set");
            char o[24];
            col_word_as_utf8(w, o, sizeof o);
            vp_check(col_word_length(w) <= (size_t)max, "a word is no longer than its text");
            col_word_delete(w);
        }
    }
    usable(*(Matcher *)m);
    col_word_delete(f);
    col_document_delete(d);
    col_corpus_delete(c);
    col_matcher_delete(m);
}
VP_ENTRY(c24_capi) { capi(3); vp_reach("capi"); }
VP_ENTRY(c24_capi_t) { capi(4); vp_reach("capi"); }
// words of any letters a word may have
static void letters(int max, int standard) {
    Matcher m;
    int what = vp_choose("what", 5), n = 1 + vp_choose("length", max);
    if (what == 2) costs(m, standard ? 1 : vp_choose("substring", 2) * 2);
    else vp_assume(!standard);
    Letter l[3];
    for (int i = 0; i < n; i++) { l[i] = Letter(vp_u16("letter")); vp_assume((Letter_)l[i] != 0); }
    Word w;
    if (!documented([&] { w = Word(l, n); })) { vp_reach("refused"); return; }
    WordList one, some;
    one.addWord(w);
    some.addWord(Word("some"));
    if (what < 2) some.addWord(w);
    Corpus c;
    Document d(1);
    d.addText(what == 0 ? w : Word("field"), some);
    c.addDocument(d);
    m.index(c);
    MatchResults r;
    SearchParameters p;
    switch (what) {
    case 0: r = m.match(one); vp_check(r.size() == 1, "any word is found again"); r = m.onlineMatch(one, w); vp_check(r.size() == 1 && r.getRelevancy(0) > 2, "any word is found exactly"); break;
    case 1: r = m.match(w.asUtf8()); break;
    case 2: r = m.match(one); break;
    case 3: documented([&] { r = m.onlineMatch(one, w); }); break;
    case 4: p.addNonsearchingField(w); p.getResultFilter().addNewSubTerm(w, w); r = m.match(some, p); vp_check(r.size() == 0, "no document satisfies the filter"); break;
    }
    vp_check(r.size() <= 1, "one document is found at most once");
    usable(m);
    vp_reach("letters");
}
VP_ENTRY(c24_letters) { letters(1, 0); vp_reach("words"); }
VP_ENTRY(c24_letters_t) { letters(2, 0); vp_reach("words"); }
VP_ENTRY(c24_letters_standard_t) { letters(2, 1); vp_reach("words"); }
// empty text, empty names, empty queries everywhere
VP_ENTRY(c24_empty) {
    Matcher m;
    Corpus c;
    Document d(1);
    bool field = vp_choose("field", 2), text = vp_choose("text", 2), indexed = vp_choose("indexed", 2);
    d.addText(field ? Word("field") : Word(), text ? "some" : " \t");
    c.addDocument(d);
    if (indexed) m.index(c);
    WordList l;
    l.addWord(Word());
    if (vp_choose("more", 2)) l.addWord(Word("some"));
    documented([&] { m.match(""); m.match("  "); m.match(WordList()); });
    MatchResults r;
    documented([&] { r = m.match(l); });
    documented([&] { r = m.onlineMatch(l, field ? Word("field") : Word()); });
    documented([&] { r = m.onlineMatch(WordList(), Word()); });
    documented([&] { SearchParameters p; p.addNonsearchingField(Word()); p.getResultFilter().addNewSubTerm(Word(), Word()); r = m.match(l, p); });
    usable(m);
    vp_reach("empty");
}
