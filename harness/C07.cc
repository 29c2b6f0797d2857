// @bound pairs of words of 0..3 arbitrary letters (thorough 5) and triples of words of 0..2 letters (thorough 3); every letter any 16-bit non-surrogate non-space letter
// @bound comparison with text: words of 0..2 letters against every well-formed text of 0..2 characters
#include "common.h"
static size_t any(Letter_ *l, size_t max) {
    size_t n = vp_choose("len", max + 1);
    for (size_t i = 0; i < n; i++) l[i] = anyLetter("letter");
    return n;
}
// lexicographic order, no branches on the letters
static bool refLess(const Letter_ *a, size_t n, const Letter_ *b, size_t m) {
    bool r = n < m;
    size_t k = n < m ? n : m;
    for (size_t i = k; i-- > 0;) r = (a[i] < b[i]) | ((a[i] == b[i]) & r);
    return r;
}
static void pair(size_t max) {
    Letter_ a[8], b[8];
    size_t n = any(a, max), m = any(b, max);
    Word x = mkWord(a, n), y = mkWord(b, m);
    bool eq = eqLetters(a, n, b, m);
    vp_check((x == y) == eq, "words are equal exactly when their letters are");
    vp_check((x != y) == !eq, "unequal is the opposite of equal");
    vp_check((x < y) == refLess(a, n, b, m), "less-than is the lexicographic order");
    vp_check((y < x) == refLess(b, m, a, n), "less-than is the lexicographic order");
    vp_check(x == x && !(x != x) && !(x < x), "a word equals itself");
    if (eq) { vp_check(x.hash() == y.hash(), "equal words have equal hashes"); vp_reach("equal"); }
    else vp_reach("different");
    Word copy(x);
    vp_check(copy.hash() == x.hash(), "the hash depends on the letters only");
    Word j = x.join(y);
    Letter_ both[16];
    for (size_t i = 0; i < n; i++) both[i] = a[i];
    for (size_t i = 0; i < m; i++) both[n + i] = b[i];
    vp_check(sameLetters(j, both, n + m), "joining puts the letters one after the other");
    vp_check(j == mkWord(both, n + m) && Word(j) == j, "a joined word is an ordinary word");
    if (n && m) vp_check(throws<std::out_of_range>([&] { (void)j[n + m]; }) == THROWS, "a joined word ends where its letters end");
    vp_check(sameLetters(x, a, n) && sameLetters(y, b, m), "comparing and joining change nothing");
    Word self = x.join(x);
    vp_check(self.length() == 2 * n, "a word can be joined with itself");
}
VP_ENTRY(c07_pair) { pair(3); vp_reach("pair"); }
VP_ENTRY(c07_pair_t) { pair(5); vp_reach("pair"); }

static void triple(size_t max) {
    Letter_ a[3][4];
    Word w[3];
    for (int i = 0; i < 3; i++) { size_t n = any(a[i], max); w[i] = mkWord(a[i], n); }
    bool l01 = w[0] < w[1], l12 = w[1] < w[2], l02 = w[0] < w[2], l10 = w[1] < w[0], e01 = w[0] == w[1];
    vp_check(!(l01 & l12) | l02, "less-than is transitive");
    vp_check(!(l01 & l10), "less-than is asymmetric");
    vp_check(l01 | l10 | e01, "of two different words one is less");
    vp_check(!e01 | (l02 == (w[1] < w[2])), "equal words are ordered alike");
    vp_reach("triple");
}
VP_ENTRY(c07_triple) { triple(2); vp_reach("entry"); }
VP_ENTRY(c07_triple_t) { triple(3); vp_reach("entry"); }

// a word against text, the text being the encoding of letters
VP_ENTRY(c07_text) {
    Letter_ a[4], b[4];
    size_t n = any(a, 2), m = any(b, 2);
    Word x = mkWord(a, n);
    char t[8];
    size_t k = 0;
    for (size_t i = 0; i < m; i++) {
        uint32_t c = b[i];
        if (c < 0x80) t[k++] = c;
        else if (c < 0x800) { t[k++] = 0xc0 | c >> 6; t[k++] = 0x80 | (c & 0x3f); }
        else { t[k++] = 0xe0 | c >> 12; t[k++] = 0x80 | ((c >> 6) & 0x3f); t[k++] = 0x80 | (c & 0x3f); }
    }
    t[k] = 0;
    bool eq = eqLetters(a, n, b, m);
    vp_check((x == t) == eq && (x == string(t)) == eq, "comparing with text agrees with the text's letters");
    vp_check((x != t) == !eq && (x != string(t)) == !eq, "comparing with text agrees with the text's letters");
    vp_reach("text");
}
// the hash of a long word depends on every letter position
VP_ENTRY(c07_long) {
    Letter_ l[40];
    size_t n = 1 + vp_choose("len", 36), at = vp_choose("at", n);
    for (size_t i = 0; i < n; i++) l[i] = (Letter_)('a' + i % 26);
    l[at] = anyLetter("letter");
    Word x = mkWord(l, n), y = mkWord(l, n), z = x.join(y);
    vp_check(x == y && x.hash() == y.hash(), "equal words have equal hashes");
    l[at] ^= 1;
    vp_assume((l[at] != 0) & !isSpace(l[at]));
    Word d = mkWord(l, n);
    vp_check(!(d == x) && d != x && (d < x) != (x < d), "one different letter makes a different word");
    vp_check((d < x) == (l[at] < (Letter_)x[at]), "less-than is the lexicographic order");
    vp_reach("long");
}
