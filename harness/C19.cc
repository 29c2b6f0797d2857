// @bound words from 1..3 (thorough 4) arbitrary bytes, converted into exactly sized buffers of every size 0..10
// @bound result sets of 0..3 results with arbitrary 64-bit IDs and arbitrary finite double relevancies, read at an arbitrary 64-bit position
// @bound 2 documents with fields of 1..3 symbolic letters, queries of 1..2 symbolic letters, well-formed and ill-formed texts; weights any double; costs of any letter of 0..511 against 5 representative letters
// @assume object arguments are valid objects of the right kind, as created by the library
#include "matcher.h"
#include "columbus.h"
#include <cstring>

static bool sameBits(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static double anyDouble(const char *n) {
    uint64_t b = vp_u64(n);
    vp_assume((b >> 52 & 2047) != 2047);
    double d;
    memcpy(&d, &b, 8);
    return d;
}
static void word(int max) {
    char b[8];
    int n = vp_choose("length", max + 1);
    for (int i = 0; i < n; i++) { b[i] = (char)vp_u8("byte"); vp_assume(b[i] != 0); }
    b[n] = 0;
    ColWord c = col_word_new(b);
    Word w;
    int t = throws<std::exception>([&] { w = Word(b); });
    vp_check(t != OTHER, "building a word succeeds or raises a standard error");
    vp_check((c == nullptr) == (t == THROWS), "exactly refused words are reported by a null handle");
    if (!c) { vp_reach("refused"); return; }
    vp_check(*(Word *)c == w, "the C word is the C++ word");
    vp_check(col_word_length(c) == w.length(), "the length of a C word is that of the C++ word");
    unsigned size = vp_choose("size", 11);
    char *x = new char[size], *y = new char[size];
    for (unsigned i = 0; i < size; i++) x[i] = y[i] = 'q';
    col_word_as_utf8(c, x, size);
    t = throws<std::exception>([&] { w.toUtf8(y, size); });
    if (t == NOTHROW) vp_check(!strcmp(x, y), "the text of a C word is that of the C++ word");
    vp_check(*(Word *)c == w, "conversion leaves the word as it was");
    delete[] x;
    delete[] y;
    col_word_delete(c);
    vp_reach("accepted");
}
VP_ENTRY(c19_word) { word(3); vp_reach("word"); }
VP_ENTRY(c19_word_t) { word(4); vp_reach("word"); }
VP_ENTRY(c19_results) {
    uint64_t id[3];
    double rel[3];
    int n = vp_choose("results", 4);
    for (int i = 0; i < n; i++) { id[i] = vp_u64("id"); rel[i] = anyDouble("relevancy"); }
    uint64_t pos = vp_u64("position");
    ColMatchResults r = col_match_results_new();
    vp_check(r && col_match_results_size(r) == 0, "a new result set is empty");
    MatchResults &m = *(MatchResults *)r;
    for (int i = 0; i < n; i++) m.addResult((DocumentID)id[i], rel[i]);
    vp_check(col_match_results_size(r) == m.size() && m.size() == (size_t)n, "the C size is the C++ size");
    bool relFirst = vp_choose("relevancy first", 2);
    DocumentID d = 0;
    if (!relFirst) d = col_match_results_get_id(r, pos);
    double v = col_match_results_get_relevancy(r, pos);
    if (relFirst) d = col_match_results_get_id(r, pos);
    DocumentID wd = INVALID_DOCID;
    double wv = -1.0;
    int t = throws<std::out_of_range>([&] { wd = m.getDocumentID(pos); });
    int t2 = throws<std::out_of_range>([&] { wv = m.getRelevancy(pos); });
    vp_check(t == t2 && t == (pos < (uint64_t)n ? NOTHROW : THROWS), "exactly existing positions are read");
    vp_check(d == wd, "document IDs read through C equal those read through C++");
    vp_check(sameBits(v, wv), "relevancies read through C equal those read through C++");
    vp_check(col_match_results_size(r) == (size_t)n, "reading leaves the result set as it was");
    col_match_results_delete(r);
    vp_reach("results");
}
VP_ENTRY(c19_weights) {
    Letter_ l[3];
    double v[3];
    for (int i = 0; i < 3; i++) { l[i] = anyLetter("field"); uint64_t b = vp_u64("weight"); memcpy(v + i, &b, 8); }
    ColMatcher m = col_matcher_new();
    ColIndexWeights w = col_matcher_get_index_weights(m);
    vp_check(w == (ColIndexWeights) & ((Matcher *)m)->getIndexWeights(), "the C weights are the weights of the matcher");
    for (int i = 0; i < 2; i++) {
        Word f = mkWord(l + i, 1);
        col_index_weights_set_weight(w, (ColWord)&f, v[i]);
        vp_check(sameBits(col_index_weights_get_weight(w, (ColWord)&f), v[i]), "weights set through C are read through C");
        vp_check(sameBits(((Matcher *)m)->getIndexWeights().getWeight(f), v[i]), "weights set through C are read through C++");
    }
    Word f = mkWord(l + 2, 1);
    vp_check(sameBits(col_index_weights_get_weight(w, (ColWord)&f), ((Matcher *)m)->getIndexWeights().getWeight(f)), "weights read through C equal those read through C++");
    ((Matcher *)m)->getIndexWeights().setWeight(f, v[2]);
    vp_check(sameBits(col_index_weights_get_weight(w, (ColWord)&f), v[2]), "weights set through C++ are read through C");
    col_matcher_delete(m);
    vp_reach("weights");
}
VP_ENTRY(c19_errors) {
    bool std = vp_choose("standard", 2), sub = vp_choose("substring", 2), stdLast = vp_choose("standard last", 2);
    static const Letter_ others[] = {'s', '2', 0xe9, 0x10d, 'o'};
    Letter_ a = (Letter_)(vp_choose("block", 2) * 0x100 + vp_u8("a")), b = others[vp_choose("b", 5)];
    int len = 2 + vp_choose("length", 2);
    ColMatcher m = col_matcher_new();
    ErrorValues e, &f = ((Matcher *)m)->getErrorValues();
    ColErrorValues c = col_matcher_get_error_values(m);
    vp_check(c == (ColErrorValues)&f, "the C error values are those of the matcher");
    if (std && !stdLast) { col_error_values_add_standard_errors(c); e.addStandardErrors(); }
    if (sub) { col_error_values_set_substring_mode(c); e.setSubstringMode(); }
    if (std && stdLast) { col_error_values_add_standard_errors(c); e.addStandardErrors(); }
    vp_check(e.getInsertionError() == f.getInsertionError() && e.getDeletionError() == f.getDeletionError() && e.getTransposeError() == f.getTransposeError()
             && e.getEndDeletionError() == f.getEndDeletionError(), "costs set through C equal those set through C++");
    vp_check(e.getStartInsertionError(len) == f.getStartInsertionError(len), "start costs set through C equal those set through C++");
    vp_check(e.getSubstituteError(Letter(a), Letter(b)) == f.getSubstituteError(Letter(a), Letter(b)), "letter costs set through C equal those set through C++");
    vp_check(e.isInGroup(Letter(a)) == f.isInGroup(Letter(a)), "error groups set through C equal those set through C++");
    // a second time is refused inside, but never escapes
    if (std) col_error_values_add_standard_errors(c);
    col_matcher_delete(m);
    vp_reach("errors");
}
// the same documents and the same search through both interfaces
static bool fill(char *o, const char *name, int max) {
    int n = 1 + vp_choose(name, max);
    for (int i = 0; i < n; i++) o[i] = (char)vp_range(name, 'a', 'd');
    o[n] = 0;
    return true;
}
static void matching(int textMax) {
    static const char *fields[] = {"title", "body"};
    uint64_t id[2] = {vp_u64("id"), vp_u64("id")};
    vp_assume(id[0] != id[1]);
    char text[2][8], query[8];
    fill(text[0], "text", textMax);
    fill(text[1], "text", 1);
    fill(query, "query", 2);
    int f2 = vp_choose("field", 2), bad = vp_choose("bad", 4);
    ColMatcher cm = col_matcher_new();
    ColCorpus cc = col_corpus_new();
    Matcher m;
    Corpus c;
    for (int i = 0; i < 2; i++) {
        ColDocument d = col_document_new((DocumentID)id[i]);
        vp_check(col_document_get_id(d) == (DocumentID)id[i], "a C document reports its own ID");
        Document dd((DocumentID)id[i]);
        ColWord f = col_word_new(fields[i ? f2 : 0]);
        Word ff(fields[i ? f2 : 0]);
        col_document_add_text(d, f, text[i]);
        dd.addText(ff, text[i]);
        if (bad == 1) col_document_add_text(d, f, "new \xff text"); // refused, leaves the document as it was
        if (bad == 2 && i) { col_document_add_text(d, f, ""); dd.addText(ff, ""); }
        vp_check(((Document *)d)->fieldCount() == 1 && ((Document *)d)->getText(ff).size() == dd.getText(ff).size(), "text added through C is that added through C++");
        col_word_delete(f);
        col_corpus_add_document(cc, d);
        c.addDocument(dd);
        col_document_add_text(d, (ColWord)&ff, "changed later");
        col_document_delete(d);
    }
    vp_check(((Corpus *)cc)->size() == 2, "documents added through C are in the corpus");
    for (int i = 0; i < 2; i++) vp_check(((Corpus *)cc)->getDocument(i).getID() == (DocumentID)id[i], "documents added through C are in the corpus in order");
    if (bad == 3) vp_check(col_matcher_match(cm, "\xc3") == nullptr, "a refused query gives a null result");
    col_matcher_index(cm, cc);
    col_corpus_delete(cc);
    m.index(c);
    if (bad == 1) vp_check(col_matcher_match(cm, "a \xe2\x28\xa1") == nullptr, "a refused query gives a null result");
    ColMatchResults r = col_matcher_match(cm, query);
    MatchResults x = m.match(query);
    vp_check(r != nullptr, "an accepted query gives a result");
    vp_check(col_match_results_size(r) == x.size(), "a search through C finds as many documents as through C++");
    for (size_t i = 0; i < x.size() && i < col_match_results_size(r); i++) {
        vp_check(col_match_results_get_id(r, i) == x.getDocumentID(i), "a search through C finds the documents found through C++");
        vp_check(sameBits(col_match_results_get_relevancy(r, i), x.getRelevancy(i)), "a search through C gives the relevancies given through C++");
    }
    vp_check(col_match_results_get_id(r, x.size()) == INVALID_DOCID && col_match_results_get_relevancy(r, x.size()) == -1.0, "positions after the last give the failure values");
    col_matcher_delete(cm);
    vp_check(col_match_results_size(r) == x.size(), "results outlive the matcher");
    col_match_results_delete(r);
}
VP_ENTRY(c19_match) { matching(2); vp_reach("match"); }
VP_ENTRY(c19_match_t) { matching(3); vp_reach("match"); }
// failing storage while indexing through C: no exception, the matcher stays usable
VP_ENTRY(c19_storage) {
    static const int kinds[] = {VP_TMPFILE, VP_FTRUNCATE, VP_MMAP};
    int kind = kinds[vp_choose("kind", 3)], nth = vp_choose("nth", 2);
    bool second = vp_choose("second time", 2);
    ColMatcher m = col_matcher_new();
    Corpus c;
    Document d(4);
    d.addText(Word("title"), "one two");
    d.addText(Word("body"), "three");
    c.addDocument(d);
    if (second) col_matcher_index(m, (ColCorpus)&c);
    vp_fault(kind, nth);
    col_matcher_index(m, (ColCorpus)&c);
    vp_fault(kind, -1);
    if (second) {
        ColMatchResults r = col_matcher_match(m, "one");
        vp_check(r && col_match_results_size(r) == 1, "the matcher is usable after a failure");
        col_match_results_delete(r);
    }
    col_matcher_delete(m);
    vp_reach("storage");
}
// deleting nothing is allowed
VP_ENTRY(c19_null) {
    col_word_delete(nullptr);
    col_document_delete(nullptr);
    col_match_results_delete(nullptr);
    col_corpus_delete(nullptr);
    col_matcher_delete(nullptr);
    vp_reach("null");
}
