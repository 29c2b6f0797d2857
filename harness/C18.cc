// @bound every sequence of 3 (thorough 4) settings of 3 fields to lists of 0..2 words, field names and words of one letter each arbitrary (16 bits, also equal to each other), field names possibly prefixes of one another
// @bound corpora of up to 4 documents (IDs arbitrary 64-bit), originals changed, copied over or destroyed after being added
// @bound text given as UTF-8 of 0..4 symbolic characters out of letters and separators
// @time c18_fields_t 850
// @time c18_corpus 300
// @bound 300 fields, words of a field and documents
#include "common.h"
#include "ColumbusHelpers.hh"
#include "Corpus.hh"
#include "Document.hh"
#include "WordList.hh"

struct F { Letter_ name[2]; int n; Letter_ w[3]; int k; };
// document contents equal to the model
static void same(const Document &d, const F *f, int n) {
    vp_check(d.fieldCount() == (size_t)n, "the number of fields is the number of distinct fields set");
    WordList names;
    names.addWord(Word("kept"));
    d.getFieldNames(names);
    vp_check(names.size() == (size_t)n + 1 && names[0] == Word("kept"), "field names are appended, each once");
    for (int i = 0; i < n; i++) {
        int listed = 0;
        for (size_t k = 1; k < names.size(); k++) if (sameLetters(names[k], f[i].name, f[i].n)) listed++;
        vp_check(listed == 1, "every field is listed exactly once");
        const WordList &t = d.getText(mkWord(f[i].name, f[i].n));
        vp_check(t.size() == (size_t)f[i].k, "a field has the words last set");
        for (int k = 0; k < f[i].k && k < (int)t.size(); k++) vp_check(sameLetters(t[k], f[i].w + k, 1), "a field gives back the words last set, in order");
    }
}
static void counts(const Document &d, const F *f, int n, const Letter_ *w) {
    size_t total = 0;
    Word word = mkWord(w, 1);
    for (int i = 0; i < n; i++) {
        size_t c = 0;
        for (int k = 0; k < f[i].k; k++) if (f[i].w[k] == w[0]) c++;
        total += c;
        vp_check(d.wordCount(word, mkWord(f[i].name, f[i].n)) == c, "the word count of a field is the number of occurrences");
    }
    vp_check(d.totalWordCount(word) == total, "the total word count is the number of occurrences in all fields");
}
static int set(F *f, int n, const Letter_ *name, int len, const Letter_ *w, int k) {
    int i = 0;
    while (i < n && !eqLetters(f[i].name, f[i].n, name, len)) i++;
    if (i == n) { f[i].n = len; f[i].name[0] = name[0]; f[i].name[1] = name[1]; }
    f[i].k = k;
    for (int j = 0; j < k; j++) f[i].w[j] = w[j];
    return i == n ? n + 1 : n;
}
static void fields(int steps, int lists) {
    uint64_t id = vp_u64("id");
    Document d((DocumentID)id);
    F f[5];
    int n = 0;
    for (int s = 0; s < steps; s++) {
        Letter_ name[2] = {anyLetter("field"), 'x'}, w[2];
        int len = 1 + vp_choose("field length", 2), k = vp_choose("words", lists);
        WordList l;
        for (int j = 0; j < k; j++) { w[j] = anyLetter("word"); l.addWord(mkWord(w + j, 1)); }
        n = set(f, n, name, len, w, k);
        d.addText(mkWord(name, len), l);
        l.addWord(Word("later"));
    }
    vp_check(d.getID() == (DocumentID)id, "a document reports its own ID");
    same(d, f, n);
    // unknown fields
    Letter_ u[1] = {anyLetter("other field")};
    bool known = false;
    for (int i = 0; i < n; i++) if (eqLetters(f[i].name, f[i].n, u, 1)) known = true;
    int t = throws<std::invalid_argument>([&] { d.getText(mkWord(u, 1)); });
    vp_check(t == (known ? NOTHROW : THROWS), "exactly unknown fields are refused");
    if (!known) vp_check(d.wordCount(Word("x"), mkWord(u, 1)) == 0, "an unknown field has no words");
    same(d, f, n);
}
VP_ENTRY(c18_fields) { fields(3, 3); vp_reach("fields"); }
VP_ENTRY(c18_fields_t) { fields(4, 2); vp_reach("fields"); }
VP_ENTRY(c18_counts) {
    F f[3];
    int n = 0;
    Letter_ w[6], q[1];
    Document d(5);
    for (int i = 0; i < 2; i++) {
        Letter_ name[2] = {(Letter_)('f' + i), 0};
        int k = 1 + vp_choose("words", 3);
        WordList l;
        for (int j = 0; j < k; j++) { w[j] = letter("w", 'a', 'd'); l.addWord(mkWord(w + j, 1)); }
        n = set(f, n, name, 1, w, k);
        d.addText(mkWord(name, 1), l);
    }
    q[0] = letter("q", 'a', 'h');
    counts(d, f, n, q);
    counts(Document(d), f, n, q);
    vp_check(d.wordCount(Word(), Word("f")) == 0 && d.totalWordCount(Word("aa")) == 0, "words that do not occur are counted 0 times");
    vp_reach("counts");
}
// text is split into words exactly as splitting it does; through both text overloads
VP_ENTRY(c18_text) {
    char b[6];
    int n = vp_choose("length", 5);
    static const char alphabet[] = "aB \t\nz";
    for (int i = 0; i < n; i++) b[i] = alphabet[vp_choose("character", 6)];
    b[n] = 0;
    bool byString = vp_choose("string", 2);
    Document d(0);
    d.addText(Word("f"), "to be replaced");
    if (byString) d.addText(Word("f"), std::string(b)); else d.addText(Word("f"), b);
    const WordList &t = d.getText(Word("f"));
    size_t k = 0;
    for (int i = 0; i < n;) {
        if (isSpace((unsigned char)b[i])) { i++; continue; }
        Letter_ w[6];
        int len = 0;
        while (i < n && !isSpace((unsigned char)b[i])) { w[len++] = b[i] == 'B' ? 'b' : b[i]; i++; }
        vp_check(k < t.size() && sameLetters(t[k], w, len), "text is stored as its words in order");
        k++;
    }
    vp_check(t.size() == k && d.fieldCount() == 1, "text is stored as exactly its words");
    vp_reach("text");
}
// refused text leaves the document as it was
VP_ENTRY(c18_refused) {
    Document d(9);
    d.addText(Word("f"), "one two");
    bool other = vp_choose("other field", 2);
    static const char *bad[] = {"\xff", "ok \xc0\x80", "\xed\xa0\x80", "three \xe2\x82"};
    const char *b = bad[vp_choose("bad", 4)];
    int t = throws<std::exception>([&] { d.addText(Word(other ? "g" : "f"), b); });
    vp_check(t == THROWS, "ill-formed text is refused");
    vp_check(d.fieldCount() == 1 && d.getText(Word("f")).size() == 2 && d.getText(Word("f"))[1] == Word("two"), "refused text leaves the document as it was");
    vp_reach("refused");
}
VP_ENTRY(c18_corpus) {
    uint64_t id[4];
    Letter_ w[4];
    Corpus c;
    int n = vp_choose("documents", 5);
    for (int i = 0; i < n; i++) { id[i] = vp_u64("id"); w[i] = anyLetter("w"); }
    int later = vp_choose("later", 4);
    Document keep(1);
    vector<Document *> orig;
    for (int i = 0; i < n; i++) {
        Document *d = new Document((DocumentID)id[i]);
        WordList l;
        l.addWord(mkWord(w + i, 1));
        d->addText(Word("f"), l);
        if (later == 1) keep = *d;
        c.addDocument(later == 1 ? keep : *d);
        vp_check(c.size() == (size_t)i + 1, "a corpus has as many documents as were added");
        orig.push_back(d);
        if (later == 0) { d->addText(Word("f"), "changed"); d->addText(Word("g"), "added"); }
        if (later == 1) { keep.addText(Word("f"), WordList()); keep.addText(Word("h"), WordList()); }
        if (later == 2) *d = keep;
    }
    if (later == 3) for (Document *d : orig) delete d;
    vp_check(c.size() == (size_t)n, "a corpus has as many documents as were added");
    for (int i = 0; i < n; i++) {
        const Document &d = c.getDocument(i);
        vp_check(d.getID() == (DocumentID)id[i], "documents come back in the order added");
        vp_check(d.fieldCount() == 1, "documents keep the fields they had when added");
        const WordList &l = d.getText(Word("f"));
        vp_check(l.size() == 1 && sameLetters(l[0], w + i, 1), "documents keep the text they had when added");
    }
    if (later != 3) for (Document *d : orig) delete d;
    vp_reach("corpus");
}
// copies give back the same, and a list obtained from a document stays equal while other fields are set
VP_ENTRY(c18_copies) {
    Letter_ a[1] = {anyLetter("a")}, b[1] = {anyLetter("b")};
    Document d(3);
    WordList l;
    l.addWord(mkWord(a, 1));
    d.addText(Word("f"), l);
    const WordList &t = d.getText(Word("f"));
    WordList l2;
    l2.addWord(mkWord(b, 1));
    d.addText(Word("g"), l2);
    vp_check(t.size() == 1 && sameLetters(t[0], a, 1), "setting another field leaves a field alone");
    Document e(4);
    e.addText(Word("z"), "old text");
    if (vp_choose("assign", 2)) e = d; else e = Document(d);
    d.addText(Word("f"), l2);
    d.addText(Word("g"), d.getText(Word("f")));
    vp_check(e.getID() == 3 && e.fieldCount() == 2 && e.getText(Word("f")).size() == 1 && sameLetters(e.getText(Word("f"))[0], a, 1) && sameLetters(e.getText(Word("g"))[0], b, 1), "copies keep their contents");
    vp_check(throws<std::invalid_argument>([&] { e.getText(Word("z")); }) == THROWS, "a copy has only the fields of the original");
    // a field set to its own contents
    d.addText(Word("f"), d.getText(Word("f")));
    vp_check(d.getText(Word("f")).size() == 1 && sameLetters(d.getText(Word("f"))[0], b, 1), "setting a field to its own text changes nothing");
    vp_reach("copies");
}
// more fields, words and documents than a byte can count
VP_ENTRY(c18_many) {
    Letter_ x = letter("letter", 'a', 'c');
    Document d(1);
    WordList l;
    for (int i = 0; i < 300; i++) {
        Letter_ k[2] = {(Letter_)('d' + i % 20), (Letter_)('a' + i / 20)};
        l.addWord(i % 100 == 99 ? mkWord(&x, 1) : Word("b"));
        if (i % 10 == 9) d.addText(mkWord(k, 2), l);
    }
    for (int i = 0; i < 270; i++) {
        Letter_ k[2] = {(Letter_)('d' + i % 20), (Letter_)('q' + i / 20)};
        d.addText(mkWord(k, 2), "a");
    }
    vp_check(d.fieldCount() == 300, "every field is listed");
    WordList names;
    d.getFieldNames(names);
    vp_check(names.size() == 300, "every field is listed");
    Letter_ k[2] = {(Letter_)('d' + 299 % 20), (Letter_)('a' + 299 / 20)};
    Word last = mkWord(k, 2);
    vp_check(d.getText(last).size() == 300, "a long text is kept");
    size_t own = x == 'b' ? 300 : 297;
    vp_check(d.wordCount(Word("b"), last) == own, "words of a long text are counted");
    size_t total = 0;
    for (int i = 9; i < 300; i += 10) for (int w = 0; w <= i; w++) total += w % 100 == 99 ? x == 'b' : 1;
    vp_check(d.totalWordCount(Word("b")) == total, "words of all fields are counted");
    Corpus c;
    for (int i = 0; i < 300; i++) c.addDocument(Document(i * 1000003ull));
    vp_check(c.size() == 300, "a corpus holds many documents");
    for (int i = 0; i < 300; i++) vp_check(c.getDocument(i).getID() == (DocumentID)(i * 1000003ull), "a corpus returns its documents in order");
    vp_reach("many");
}
