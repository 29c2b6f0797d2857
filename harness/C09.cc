// @bound every ASCII text of up to 7 letters (thorough 9) split at one or two arbitrary ASCII separators, and into words
// @bound every byte text of up to 4 bytes (thorough 5) split at one arbitrary ASCII separator and into words
// @bound runs of 0..3 separators around pieces of 1..8 letters in growing and shrinking order
#include "common.h"
#include "ColumbusHelpers.hh"
#include "WordList.hh"
#include <cstring>
#include <unicode/uchar.h>

static bool isSep(unsigned char c, const Letter_ *sep, int n) {
    bool r = false;
    for (int i = 0; i < n; i++) r = r | (c == sep[i]);
    return r;
}
// The pieces, each given to the Word constructor by hand.
static void checkSplit(const char *t, size_t n, const Letter_ *sep, int nsep, bool words) {
    Letter seps[4];
    for (int i = 0; i < nsep; i++) seps[i] = Letter(sep[i]);
    WordList want, got;
    bool bad = false, threw = false, std_ = true;
    size_t b = 0, pieces = 0;
    for (size_t i = 0; i <= n; i++) {
        if (i == n || isSep((unsigned char)t[i], sep, nsep)) {
            if (i > b) {
                pieces++;
                try { want.addWord(Word(string(t + b, i - b))); } catch (const std::exception &) { bad = true; }
            }
            b = i + 1;
        }
    }
    try {
        if (words) { WordList r = splitToWords(t); got = r; }
        else { WordList r = split(t, seps, nsep); got = r; }
    } catch (const std::exception &) { threw = true; } catch (...) { std_ = false; }
    vp_check(std_, "failures are standard exceptions");
    vp_check(threw == bad, "splitting fails exactly when a piece is not a word");
    if (!bad && !threw) {
        vp_check(got.size() == pieces, "there are as many words as pieces between separators");
        bool eq = true;
        for (size_t i = 0; i < pieces && i < got.size(); i++) {
            const Word &x = got[i], &y = want[i];
            if (x.length() != y.length()) eq = false;
            else for (size_t k = 0; k < x.length(); k++) eq = eq & ((Letter_)x[k] == (Letter_)y[k]);
        }
        vp_check(eq, "the words are the pieces in order");
    }
}
static const Letter_ white[4] = {' ', '\t', '\n', '\r'};
static void ascii(size_t max, bool words) {
    char t[12];
    Letter_ sep[2] = {0, 0};
    int ns = 0;
    if (!words) {
        ns = 1 + vp_choose("separators", 2);
        for (int i = 0; i < ns; i++) sep[i] = (Letter_)vp_range("sep", 1, 127);
    }
    size_t n = vp_choose("len", max + 1);
    for (size_t i = 0; i < n; i++) {
        t[i] = (char)vp_range("c", 1, 127);
        if (!words) vp_assume(!isSpace((unsigned char)t[i]) | isSep((unsigned char)t[i], sep, ns));
    }
    t[n] = 0;
    if (words) checkSplit(t, n, white, 4, true); else checkSplit(t, n, sep, ns, false);
}
VP_ENTRY(c09_ascii) { ascii(7, false); vp_reach("ascii"); }
VP_ENTRY(c09_words) { ascii(7, true); vp_reach("words"); }
VP_ENTRY(c09_ascii_t) { ascii(9, false); vp_reach("ascii"); }
VP_ENTRY(c09_words_t) { ascii(9, true); vp_reach("words"); }
static void bytes(size_t max) {
    char t[12];
    bool words = vp_choose("words", 2);
    Letter_ sep[1] = {words ? (Letter_)' ' : (Letter_)vp_range("sep", 1, 127)};
    size_t n = vp_choose("len", max + 1);
    for (size_t i = 0; i < n; i++) { t[i] = (char)vp_u8("byte"); vp_assume(t[i] != 0); }
    t[n] = 0;
    if (words) checkSplit(t, n, white, 4, true); else checkSplit(t, n, sep, 1, false);
}
VP_ENTRY(c09_bytes) { bytes(4); vp_reach("bytes"); }
VP_ENTRY(c09_bytes_t) { bytes(5); vp_reach("bytes"); }
// longer pieces, the conversion buffer is reused from piece to piece
VP_ENTRY(c09_runs) {
    char t[64];
    size_t n = 0;
    Letter_ sep[1] = {(Letter_)vp_range("sep", 1, 127)};
    Letter_ c = (Letter_)vp_range("letter", 33, 126);
    vp_assume(c != sep[0] && sep[0] != 'k');
    for (int p = 0; p < 3; p++) {
        unsigned s = p == 0 ? vp_choose("lead", 3) : 1 + vp_choose("gap", 3);
        for (unsigned i = 0; i < s; i++) t[n++] = (char)sep[0];
        static const unsigned len[] = {1, 2, 4, 8};
        unsigned l = len[vp_choose("piece", 4)];
        for (unsigned i = 0; i < l; i++) t[n++] = i == l / 2 ? (char)c : 'k';
    }
    for (unsigned i = vp_choose("trail", 3); i > 0; i--) t[n++] = (char)sep[0];
    t[n] = 0;
    checkSplit(t, n, sep, 1, false);
    vp_reach("runs");
}
// well-formed text never fails
VP_ENTRY(c09_total) {
    static const char *unit[] = {"a", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9d\x84\x9e", " ", "\t", "\n", "\r", "B"};
    char t[40] = "";
    size_t pieces = 0;
    bool in = false;
    unsigned n = vp_choose("units", 5);
    for (unsigned i = 0; i < n; i++) {
        unsigned u = vp_choose("unit", 9);
        strcat(t, unit[u]);
        bool sp = u >= 4 && u < 8;
        if (!sp && !in) pieces++;
        in = !sp;
    }
    char x = (char)vp_range("last", 33, 126);
    size_t l = strlen(t);
    t[l] = x; t[l + 1] = 0;
    if (!in) pieces++;
    WordList w = splitToWords(t);
    vp_check(w.size() == pieces, "splitting well-formed text into words gives its pieces");
    const Word &e = w[pieces - 1];
    vp_check((Letter_)e[(unsigned)e.length() - 1] == (Letter_)u_tolower(x), "the last piece ends with the last letter");
    vp_reach("total");
}
