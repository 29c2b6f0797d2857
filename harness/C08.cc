// @bound every sequence of 5 operations (thorough 6) on two objects of the same class: append an element, copy-assign, move-assign, destroy and copy-construct, destroy and move-construct, self-assign, change and destroy a copy; elements symbolic (any 16-bit letter, any relevancy step, any document ID)
// @bound words: every sequence of 2 assignments (thorough 3) of accepted text, text with whitespace, ill-formed text or another word
// @assume a moved-from object is only assigned to or destroyed
#include "common.h"
#include "Document.hh"
#include "MatchResults.hh"
#include "WordList.hh"
#include <utility>

struct Tok { Letter_ l; uint64_t id; };
struct WordT {
    typedef Word T;
    static T *make() { return new Word(); }
    static T *copy(const T &o) { return new Word(o); }
    static T *move(T &&o) { return new Word(std::move(o)); }
    static void append(T &t, const Tok &k) { Letter_ l[1] = {k.l}; t = t.join(mkWord(l, 1)); }
    static bool equals(const T &t, const Tok *v, size_t n) {
        Letter_ l[8];
        for (size_t i = 0; i < n; i++) l[i] = v[i].l;
        return sameLetters(t, l, n) && t == mkWord(l, n);
    }
};
struct ListT {
    typedef WordList T;
    static T *make() { return new WordList(); }
    static T *copy(const T &o) { return new WordList(o); }
    static T *move(T &&o) { return new WordList(std::move(o)); }
    static void append(T &t, const Tok &k) { Letter_ l[2] = {k.l, 'x'}; t.addWord(mkWord(l, 2)); }
    static bool equals(const T &t, const Tok *v, size_t n) {
        if (t.size() != n) return false;
        bool r = true;
        for (size_t i = 0; i < n; i++) { Letter_ l[2] = {v[i].l, 'x'}; r = r & sameLetters(t[i], l, 2); }
        return r;
    }
};
struct ResT {
    typedef MatchResults T;
    static T *make() { return new MatchResults(); }
    static T *copy(const T &o) { return new MatchResults(o); }
    static T *move(T &&o) { return new MatchResults(std::move(o)); }
    // later elements rank higher
    static void append(T &t, const Tok &k) { t.addResult((DocumentID)k.id, (double)t.size()); }
    static bool equals(const T &t, const Tok *v, size_t n) {
        if (t.size() != n) return false;
        bool r = true;
        for (size_t i = 0; i < n; i++) r = r & (t.getDocumentID(i) == (DocumentID)v[n - 1 - i].id) & (t.getRelevancy(i) == (double)(n - 1 - i));
        return r;
    }
};
struct DocT {
    typedef Document T;
    static T *make() { return new Document((DocumentID)17); }
    static T *copy(const T &o) { return new Document(o); }
    static T *move(T &&o) { return new Document(std::move(o)); }
    static const char *field(size_t i) { static const char *f[] = {"f", "g", "h", "i", "j", "k"}; return f[i]; }
    static void append(T &t, const Tok &k) { WordList wl; Letter_ l[1] = {k.l}; wl.addWord(mkWord(l, 1)); t.addText(Word(field(t.fieldCount())), wl); }
    static bool equals(const T &t, const Tok *v, size_t n) {
        if (t.fieldCount() != n || t.getID() != 17) return false;
        bool r = true;
        for (size_t i = 0; i < n; i++) { const WordList &w = t.getText(Word(field(i))); Letter_ l[1] = {v[i].l}; r = r & (w.size() == 1) & sameLetters(w[0], l, 1); }
        return r;
    }
};

template <class M> static void history(unsigned steps) {
    typedef typename M::T T;
    T *o[2] = {M::make(), M::make()};
    Tok v[2][8];
    size_t n[2] = {0, 0};
    bool moved[2] = {false, false};
    Tok extra = {'e', 5};
    for (unsigned s = 0; s < steps; s++) {
        unsigned i = vp_choose("object", 2), j = 1 - i, op = vp_choose("operation", 7);
        switch (op) {
        case 0:
            if (moved[i]) return;
            v[i][n[i]].l = anyLetter("letter");
            v[i][n[i]].id = vp_u64("id");
            M::append(*o[i], v[i][n[i]]);
            n[i]++;
            break;
        case 1: case 2: case 3: case 4:
            if (moved[j]) return;
            if (op == 1) *o[i] = *o[j];
            else if (op == 2) *o[i] = std::move(*o[j]);
            else {
                delete o[i];
                o[i] = op == 3 ? M::copy(*o[j]) : M::move(std::move(*o[j]));
            }
            n[i] = n[j];
            for (size_t k = 0; k < n[j]; k++) v[i][k] = v[j][k];
            moved[i] = false;
            moved[j] = op == 2 || op == 4;
            break;
        case 5: {
            if (moved[i]) return;
            T &same = *o[i];
            *o[i] = same;
            break;
        }
        default: {
            if (moved[i]) return;
            T c(*o[i]);
            vp_check(M::equals(c, v[i], n[i]), "a copy is equal to the original");
            M::append(c, extra);
            break;
        }
        }
        for (int k = 0; k < 2; k++) if (!moved[k]) vp_check(M::equals(*o[k], v[k], n[k]), "every object keeps its own value");
    }
    delete o[0];
    delete o[1];
    vp_reach("history");
}
VP_ENTRY(c08_word) { history<WordT>(5); vp_reach("entry"); }
VP_ENTRY(c08_list) { history<ListT>(5); vp_reach("entry"); }
VP_ENTRY(c08_results) { history<ResT>(5); vp_reach("entry"); }
VP_ENTRY(c08_document) { history<DocT>(5); vp_reach("entry"); }
VP_ENTRY(c08_word_t) { history<WordT>(6); vp_reach("entry"); }
VP_ENTRY(c08_list_t) { history<ListT>(6); vp_reach("entry"); }
VP_ENTRY(c08_results_t) { history<ResT>(6); vp_reach("entry"); }
VP_ENTRY(c08_document_t) { history<DocT>(6); vp_reach("entry"); }

// accepted and refused assignments to a word
static void refused(unsigned steps) {
    Letter_ cur[4];
    size_t n = vp_choose("initial", 3);
    for (size_t i = 0; i < n; i++) cur[i] = anyLetter("letter");
    Word *w = new Word(mkWord(cur, n));
    for (unsigned s = 0; s < steps; s++) {
        unsigned op = vp_choose("assign", 5);
        char t[8] = "abc";
        bool ok = true, str = vp_choose("string", 2);
        unsigned at = 0;
        switch (op) {
        case 0: t[1] = (char)vp_range("c", 'a', 'z'); break;
        case 1: at = vp_choose("at", 3); t[at] = " \t\n\r"[vp_choose("white", 4)]; ok = false; break;
        case 2: at = vp_choose("at", 3); t[at] = (char)vp_u8("bad"); vp_assume((unsigned char)t[at] >= 0x80); ok = false; break;
        case 3: t[0] = 0; break;
        default: {
            Letter_ l[2] = {anyLetter("letter"), 'q'};
            *w = mkWord(l, 2);
            cur[0] = l[0]; cur[1] = l[1]; n = 2;
            vp_check(sameLetters(*w, cur, n), "assigning a word gives its letters");
            continue;
        }
        }
        bool threw = false;
        try {
            if (str) *w = string(t); else *w = t;
        } catch (const std::exception &) { threw = true; }
        vp_check(threw == !ok, "exactly text with whitespace and ill-formed text is refused");
        if (ok) {
            n = t[0] ? 3 : 0;
            for (size_t i = 0; i < n; i++) cur[i] = (unsigned char)t[i];
            vp_check(sameLetters(*w, cur, n), "assigning text gives its letters");
        } else {
            vp_check(w->length() == 0 || sameLetters(*w, cur, n), "after a refused assignment the word is empty or unchanged");
            n = w->length();
            vp_reach("refused");
        }
        vp_check(throws<std::out_of_range>([&] { (void)(*w)[(unsigned)n]; }) == THROWS, "a word ends where its length says");
        Word c(*w), e;
        vp_check(c == *w && sameLetters(c, cur, n) && c.asUtf8() == w->asUtf8() && c.hash() == w->hash(), "the word stays usable");
        e = *w;
        vp_check(e.join(*w).length() == 2 * n, "the word stays usable");
    }
    delete w;
    vp_reach("assigned");
}
VP_ENTRY(c08_refused) { refused(2); vp_reach("entry"); }
VP_ENTRY(c08_refused_t) { refused(3); vp_reach("entry"); }
// a moved-from object accepts every kind of assignment
VP_ENTRY(c08_moved) {
    Letter_ l[2] = {anyLetter("letter"), anyLetter("letter")};
    Word a = mkWord(l, 2), b(std::move(a));
    unsigned k = vp_choose("kind", 4);
    if (k == 0) a = "ab";
    else if (k == 1) a = b;
    else if (k == 2) a = mkWord(l, 1);
    else a = string("ab");
    Letter_ ab[2] = {'a', 'b'};
    vp_check(sameLetters(a, k == 1 || k == 2 ? l : ab, k == 2 ? 1 : 2), "a moved-from word can be assigned to");
    vp_check(sameLetters(b, l, 2), "moving transfers the letters");
    WordList x;
    x.addWord(b);
    WordList y(std::move(x)), z;
    if (k == 0) x = y; else if (k == 1) x = std::move(y); else if (k == 2) x = z; else { }
    if (k < 2) vp_check(x.size() == 1 && sameLetters(x[0], l, 2), "a moved-from list can be assigned to");
    if (k == 2) vp_check(x.size() == 0, "a moved-from list can be assigned to");
    vp_reach("moved");
}
