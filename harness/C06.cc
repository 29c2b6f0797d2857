// @bound words of 0..3 units, each an arbitrary 16-bit letter or an arbitrary surrogate pair (up to 6 letters, thorough 4 units), converted into an exactly sized heap buffer of every size 0..14
// @bound round trip: words of 0..3 such units (thorough 4); a word built from the text has the same letters in lower case
// @assume no zero letters in the word
#include "common.h"
#include <cstring>
#include <unicode/uchar.h>

static size_t anyUnits(Letter_ *l, size_t max) {
    size_t u = vp_choose("units", max + 1), n = 0;
    for (size_t i = 0; i < u; i++) {
        if (vp_choose("pair", 2)) {
            l[n++] = 0xd800 | (vp_u16("high") & 0x3ff);
            l[n++] = 0xdc00 | (vp_u16("low") & 0x3ff);
        } else l[n++] = anyLetter("letter");
    }
    return n;
}
static size_t encode(const Letter_ *l, size_t n, unsigned char *o) {
    size_t k = 0;
    for (size_t i = 0; i < n; i++) {
        uint32_t c = l[i];
        if (c < 0x80) o[k++] = c;
        else if (c < 0x800) { o[k++] = 0xc0 | c >> 6; o[k++] = 0x80 | (c & 0x3f); }
        else if ((c & 0xfc00) == 0xd800) {
            c = 0x10000 + ((c & 0x3ff) << 10) + (l[++i] & 0x3ff);
            o[k++] = 0xf0 | c >> 18; o[k++] = 0x80 | ((c >> 12) & 0x3f); o[k++] = 0x80 | ((c >> 6) & 0x3f); o[k++] = 0x80 | (c & 0x3f);
        } else { o[k++] = 0xe0 | c >> 12; o[k++] = 0x80 | ((c >> 6) & 0x3f); o[k++] = 0x80 | (c & 0x3f); }
    }
    o[k] = 0;
    return k;
}
static void buffer(size_t units) {
    Letter_ l[12];
    size_t n = anyUnits(l, units);
    Word w = mkWord(l, n);
    unsigned char want[64];
    size_t k = encode(l, n, want);
    unsigned size = vp_choose("size", 15);
    char *b = new char[size];
    int t = throws<std::exception>([&] { w.toUtf8(b, size); });
    vp_check(t == (k + 1 <= size ? NOTHROW : THROWS), "conversion succeeds exactly when text and terminator fit");
    if (t == NOTHROW) {
        bool eq = true;
        for (size_t i = 0; i <= k; i++) eq = eq & ((unsigned char)b[i] == want[i]);
        vp_check(eq, "the buffer holds the encoding of the letters and a terminating zero");
        vp_reach("fits");
    } else vp_reach("too small");
    vp_check(sameLetters(w, l, n), "conversion does not change the word");
    delete[] b;
}
VP_ENTRY(c06_buffer) { buffer(3); vp_reach("buffer"); }
VP_ENTRY(c06_buffer_t) { buffer(4); vp_reach("buffer"); }

static void roundtrip(size_t units) {
    Letter_ l[12];
    size_t n = anyUnits(l, units);
    Word w = mkWord(l, n);
    unsigned char want[64];
    size_t k = encode(l, n, want);
    string s = w.asUtf8();
    vp_check(s.size() == k, "the text has the length of the encoding");
    bool eq = true;
    for (size_t i = 0; i < k; i++) eq = eq & ((unsigned char)s[i] == want[i]);
    vp_check(eq, "the text is the encoding of the letters");
    vp_check(w == s, "a word equals its own text");
    vp_check(!(w != s) && !(w != s.c_str()), "a word does not differ from its own text");
    Word back(s);
    vp_check(back.length() == n, "building a word from the text gives a word of the same length");
    bool same = true;
    for (size_t i = 0; i < n; i++) same = same & ((Letter_)back[i] == (Letter_)u_tolower(l[i]));
    vp_check(same, "building a word from the text gives the letters back, in lower case");
}
VP_ENTRY(c06_roundtrip) { roundtrip(3); vp_reach("roundtrip"); }
VP_ENTRY(c06_roundtrip_t) { roundtrip(4); vp_reach("roundtrip"); }
