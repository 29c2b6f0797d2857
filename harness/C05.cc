// @bound texts: every byte string of up to 4 bytes (thorough 6); a fixed 0..6 byte text before and a fixed 0..4 byte character after an arbitrary 2-byte sequence
// @bound letter arrays: up to 4 arbitrary 16-bit letters (thorough 6), with or without a terminating zero letter
// @bound a space, tab, newline or carriage return at every position of texts of up to 6 letters
// @assume no zero letter inside a letter array except as its last element
#include "common.h"
#include "ColumbusHelpers.hh"
#include <cstring>
#include <unicode/uchar.h>

// UTF-8 by the book (Unicode Table 3-7); returns the number of code units or -1 if ill formed
static int decode(const unsigned char *s, size_t n, Letter_ *out) {
    int k = 0;
    for (size_t i = 0; i < n;) {
        unsigned b = s[i];
        if (b < 0x80) { out[k++] = b; i++; continue; }
        unsigned lo = 0x80, hi = 0xbf;
        size_t extra;
        if (b >= 0xc2 && b <= 0xdf) extra = 1;
        else if (b >= 0xe0 && b <= 0xef) { extra = 2; if (b == 0xe0) lo = 0xa0; if (b == 0xed) hi = 0x9f; }
        else if (b >= 0xf0 && b <= 0xf4) { extra = 3; if (b == 0xf0) lo = 0x90; if (b == 0xf4) hi = 0x8f; }
        else return -1;
        uint32_t c = b & (extra == 1 ? 0x1f : extra == 2 ? 0xf : 7);
        if (i + extra >= n) return -1;
        for (size_t j = 1; j <= extra; j++) {
            unsigned x = s[i + j];
            if ((x < lo) | (x > hi)) return -1;
            lo = 0x80; hi = 0xbf;
            c = c << 6 | (x & 0x3f);
        }
        if (extra == 3) { c -= 0x10000; out[k++] = 0xd800 + (c >> 10); out[k++] = 0xdc00 + (c & 0x3ff); }
        else out[k++] = c;
        i += extra + 1;
    }
    return k;
}
static void checkText(const char *t, size_t n) {
    Letter_ want[16];
    bool space = false;
    for (size_t i = 0; i < n; i++) space = space | isSpace((unsigned char)t[i]);
    int k = decode((const unsigned char *)t, n, want);
    int how = vp_choose("from", 3); // constructor, std::string constructor, assignment
    Word w("old");
    bool inv = false, other = false, fine = false;
    try {
        if (how == 0) w = Word(t);
        else if (how == 1) w = Word(string(t));
        else w = t;
        fine = true;
    } catch (const std::invalid_argument &) { inv = true; } catch (const std::exception &) { other = true; }
    vp_check(fine | inv | other, "refusals are standard exceptions");
    if (k < 0) {
        vp_check(!fine, "ill-formed text is refused");
        vp_reach("ill formed");
    } else if (space) {
        vp_check(inv, "text with whitespace is refused as an invalid argument");
        vp_reach("space");
    } else {
        vp_check(fine, "well-formed text without whitespace is accepted");
        vp_check(w.length() == (size_t)k, "the length is the number of code units");
        bool eq = true;
        for (int i = 0; i < k; i++) eq = eq & ((Letter_)w[i] == (Letter_)u_tolower(want[i]));
        vp_check(eq, "the letters are the text's code units in lower case");
        vp_reach("accepted");
    }
}
static void text(size_t max) {
    char t[8];
    size_t n = vp_choose("len", max + 1);
    for (size_t i = 0; i < n; i++) { t[i] = (char)vp_u8("byte"); vp_assume(t[i] != 0); }
    t[n] = 0;
    checkText(t, n);
}
VP_ENTRY(c05_text) { text(4); vp_reach("text"); }
VP_ENTRY(c05_text_t) { text(6); vp_reach("text"); }
// characters of every length around an arbitrary pair of bytes
VP_ENTRY(c05_mixed) {
    static const char *cls[] = {"", "A", "\xc3\x84", "\xe1\xb8\x80", "\xf0\x9d\x84\x9e", "Stra\xc3\x9f"};
    char t[20];
    strcpy(t, cls[vp_choose("before", 6)]);
    size_t n = strlen(t);
    t[n] = (char)vp_u8("byte"); t[n + 1] = (char)vp_u8("byte");
    vp_assume((t[n] != 0) & (t[n + 1] != 0));
    n += 2;
    strcpy(t + n, cls[vp_choose("after", 5)]);
    checkText(t, strlen(t));
    vp_reach("mixed");
}
// upper and lower case of one letter give equal words
VP_ENTRY(c05_case) {
    char a[4], b[4];
    unsigned c = 0x80 + (unsigned)vp_range("c", 0, 0x77f);
    unsigned d = (unsigned)u_tolower((UChar32)c);
    vp_assume(d < 0x800 && d >= 0x80);
    a[0] = 0xc0 | c >> 6; a[1] = 0x80 | (c & 0x3f); a[2] = 0;
    b[0] = 0xc0 | d >> 6; b[1] = 0x80 | (d & 0x3f); b[2] = 0;
    vp_check(Word(a) == Word(b), "words differing only in case are equal");
    vp_reach("case");
}
VP_ENTRY(c05_space) {
    char t[8];
    size_t n = 1 + vp_choose("len", 6), at = vp_choose("at", n);
    for (size_t i = 0; i < n; i++) t[i] = (char)vp_range("c", 1, 127);
    unsigned c = (unsigned char)t[at];
    vp_assume(isSpace(c));
    t[n] = 0;
    vp_check(throws<std::invalid_argument>([&] { Word w(t); }) == THROWS, "text with whitespace is refused as an invalid argument");
    vp_reach("space");
}

static void checkLetters(size_t max) {
    size_t n = vp_choose("len", max + 1);
    bool term = vp_choose("terminated", 2);
    Letter *l = new Letter[n + term];
    Letter_ v[8];
    bool space = false, broken = false, high = false;
    for (size_t i = 0; i < n; i++) {
        v[i] = (Letter_)vp_u16("letter");
        vp_assume(v[i] != 0);
        l[i] = Letter(v[i]);
        space = space | isSpace(v[i]);
        bool hi = (v[i] >= 0xd800) & (v[i] < 0xdc00), lo = (v[i] >= 0xdc00) & (v[i] < 0xe000);
        broken = broken | (lo != high);
        high = hi;
    }
    broken = broken | high;
    if (term) l[n] = Letter((Letter_)0);
    bool fine = false, inv = false;
    try {
        Word w(l, n + term);
        fine = true;
        vp_check(sameLetters(w, v, n), "a word built from letters has exactly these letters");
        Word x(w);
        vp_check(x == w, "and can be copied");
    } catch (const std::invalid_argument &) { inv = true; }
    vp_check(fine != inv, "letters are accepted or refused as an invalid argument");
    vp_check(fine == !(space | broken), "exactly whitespace and unpaired surrogates are refused");
    delete[] l;
    if (fine) vp_reach("accepted"); else vp_reach("refused");
}
VP_ENTRY(c05_letters) { checkLetters(4); vp_reach("letters"); }
VP_ENTRY(c05_letters_t) { checkLetters(6); vp_reach("letters"); }
// what counts as whitespace
VP_ENTRY(c05_white) {
    Letter_ c = (Letter_)vp_u16("c");
    vp_check(Columbus::isWhitespace(Letter(c)) == isSpace(c), "whitespace is space, tab, newline and carriage return");
    vp_reach("white");
}
