// @bound histories of 3 insertions (thorough 4) of words of 0..2 letters, each letter any 16-bit non-surrogate non-space letter (or the word one arbitrary surrogate pair), then a lookup of an arbitrary word of 0..3 letters
// @bound every history of 5 insertions (thorough 6) over the 7 words of up to 2 letters over two arbitrary different letters
// @bound storage growth: 0..140 nodes inserted beforehand (crossing the 1024, 2048 and 4096 byte boundaries at every alignment), then 2 arbitrary words
// @assume equal words are inserted with equal word IDs and different words with different IDs
// @bound 250..264 insertions of one word and 300 different words with IDs up to 2^32; words of 255..300 letters with one arbitrary letter
#include "common.h"
#include "LevenshteinIndex.hh"

struct W { Letter_ l[4]; size_t n; unsigned id; };
static W anyWord(const char *nm, unsigned max, bool pairs) {
    W w;
    unsigned k = vp_choose(nm, max + 1 + pairs);
    if (k > max) {
        w.n = 2;
        w.l[0] = 0xd800 + (Letter_)vp_range("high", 0, 0x3ff);
        w.l[1] = 0xdc00 + (Letter_)vp_range("low", 0, 0x3ff);
    } else {
        w.n = k;
        for (unsigned i = 0; i < k; i++) w.l[i] = anyLetter("letter");
    }
    return w;
}
static void checkIndex(const LevenshteinIndex &ind, const W *w, unsigned n, const W &probe, bool probeIn) {
    unsigned distinct = 0;
    size_t maxc = 0;
    for (unsigned i = 0; i < n; i++) {
        if (!w[i].n) continue;
        size_t cnt = 0;
        bool first = true;
        for (unsigned j = 0; j < n; j++)
            if (w[j].n && w[j].id == w[i].id) { cnt++; if (j < i) first = false; }
        if (first) distinct++;
        if (cnt > maxc) maxc = cnt;
        vp_check(ind.wordCount(w[i].id) == cnt, "a word's count is the number of its insertions");
        vp_check(ind.hasWord(mkWord(w[i].l, w[i].n)), "an inserted word is present");
    }
    vp_check(ind.numWords() == distinct, "the number of words is the number of different words inserted");
    vp_check(ind.maxCount() == maxc, "the highest count is that of the most frequent word");
    vp_check(ind.hasWord(mkWord(probe.l, probe.n)) == probeIn, "a word is present exactly when it was inserted");
    vp_check(ind.wordCount(1000) == 0, "an unused ID has count zero");
}
static void insertAll(LevenshteinIndex &ind, W *w, unsigned n, unsigned base) {
    for (unsigned i = 0; i < n; i++) {
        w[i].id = base + i;
        for (unsigned j = 0; j < i; j++)
            if (eqLetters(w[i].l, w[i].n, w[j].l, w[j].n)) { w[i].id = w[j].id; break; }
        ind.insertWord(mkWord(w[i].l, w[i].n), w[i].id);
    }
}
static bool contains(const W *w, unsigned n, const W &p) {
    bool r = false;
    for (unsigned i = 0; i < n; i++) r = r | (w[i].n != 0 && eqLetters(w[i].l, w[i].n, p.l, p.n));
    return r;
}
static void letters(unsigned n) {
    W w[4];
    LevenshteinIndex ind;
    for (unsigned i = 0; i < n; i++) w[i] = anyWord("len", 2, true);
    insertAll(ind, w, n, 5);
    W p = anyWord("probe", 3, true);
    checkIndex(ind, w, n, p, contains(w, n, p));
    vp_reach("letters");
}
VP_ENTRY(c03_letters) { letters(3); vp_reach("entry"); }
VP_ENTRY(c03_letters_t) { letters(4); vp_reach("entry"); }

static void history(unsigned n, unsigned k) {
    Letter_ A = anyLetter("A"), B = anyLetter("B");
    vp_assume(A != B);
    const Letter_ text[7][2] = {{0}, {A}, {B}, {A, A}, {A, B}, {B, A}, {B, B}};
    W w[7];
    LevenshteinIndex ind;
    for (unsigned i = 0; i < n; i++) {
        unsigned c = vp_choose("word", k);
        w[i].n = c == 0 ? 0 : c < 3 ? 1 : 2;
        w[i].l[0] = text[c][0]; w[i].l[1] = text[c][1];
        w[i].id = c;
        ind.insertWord(mkWord(w[i].l, w[i].n), c);
        // after every step, every word of the alphabet
        for (unsigned q = 0; q < k; q++) {
            W p = {{text[q][0], text[q][1]}, q == 0 ? 0u : q < 3 ? 1u : 2u, q};
            checkIndex(ind, w, i + 1, p, contains(w, i + 1, p));
        }
    }
    vp_reach("history");
}
VP_ENTRY(c03_history) { history(5, 7); vp_reach("entry"); }
VP_ENTRY(c03_history_t) { history(6, 7); vp_reach("entry"); }

VP_ENTRY(c03_growth) {
    unsigned fill = vp_choose("fill", 141);
    LevenshteinIndex ind;
    Letter b[150];
    for (unsigned i = 0; i < fill; i++) b[i] = Letter('a' + i % 3);
    unsigned half = fill / 2;
    Word x(b, half), y(b + half, fill - half);
    bool same = x == y;
    ind.insertWord(x, 0);
    ind.insertWord(y, same ? 0 : 1);
    W w[3];
    for (int i = 0; i < 2; i++) { w[i].n = 1 + i; for (int j = 0; j <= i; j++) w[i].l[j] = letter("letter", 'p', 'z'); }
    w[2].n = 2; w[2].l[0] = letter("letter", 'p', 'z'); w[2].l[1] = 'q';
    insertAll(ind, w, 3, 5);
    W p = w[0];
    p.l[0] = letter("probe", 'p', 'z');
    vp_check(half == 0 || ind.hasWord(x), "words inserted before growth stay present");
    vp_check(fill - half == 0 || ind.hasWord(y), "words inserted before growth stay present");
    bool extra0 = half > 0, extra1 = fill - half > 0 && !(same && half > 0);
    unsigned distinct = 2 + (w[2].id == 7 ? 1 : 0);
    vp_check(ind.numWords() == distinct + extra0 + extra1, "growth keeps the number of words");
    for (int i = 0; i < 3; i++) vp_check(ind.hasWord(mkWord(w[i].l, w[i].n)), "words inserted after growth are present");
    vp_check(ind.hasWord(mkWord(p.l, 1)) == (p.l[0] == w[0].l[0]), "after growth a word is present exactly when it was inserted");
    if (half) { Word c(b, half - 1); vp_check(ind.hasWord(c) == (half - 1 != 0 && c == y), "a prefix is not present unless inserted"); }
    vp_reach("growth");
}
// more words, insertions and letters than a byte can count
VP_ENTRY(c03_many) {
    LevenshteinIndex ind;
    Letter_ l[3] = {letter("letter", 'a', 'c'), 'x', 'y'};
    Word w = mkWord(l, 3);
    int times = 250 + 7 * vp_choose("times", 3);
    for (int i = 0; i < times; i++) ind.insertWord(w, 70000);
    vp_check(ind.wordCount(70000) == (size_t)times && ind.maxCount() == (size_t)times && ind.numWords() == 1, "a word inserted often is counted as often");
    vp_check(ind.wordCount(70000 - 65536) == 0, "an unused ID has count zero");
    for (int i = 0; i < 300; i++) {
        Letter_ k[3] = {(Letter_)('d' + i % 20), (Letter_)('a' + i / 20), 'z'};
        ind.insertWord(mkWord(k, 3), 4294960000u + i);
    }
    vp_check(ind.numWords() == 301 && ind.maxCount() == (size_t)times, "many words are counted");
    int i = vp_choose("which", 4) * 299 / 3;
    Letter_ k[3] = {(Letter_)('d' + i % 20), (Letter_)('a' + i / 20), 'z'};
    vp_check(ind.hasWord(mkWord(k, 3)) && ind.wordCount(4294960000u + i) == 1, "each of many words is present");
    k[2] = letter("probe", 'y', 'z');
    vp_check(ind.hasWord(mkWord(k, 3)) == (k[2] == 'z'), "a word is present exactly when it was inserted");
    vp_reach("many");
}
VP_ENTRY(c03_long) {
    static const int lens[] = {255, 256, 257, 300};
    int n = lens[vp_choose("length", 4)];
    Letter b[300];
    for (int i = 0; i < n; i++) b[i] = Letter('a' + i % 7);
    LevenshteinIndex ind;
    ind.insertWord(Word(b, n), 1);
    vp_check(ind.hasWord(Word(b, n)) && !ind.hasWord(Word(b, n - 1)) && !ind.hasWord(Word(b, n - 255)) && ind.numWords() == 1, "long words are kept whole");
    int at = vp_choose("at", 3) * (n - 1) / 2;
    Letter_ was = (Letter_)b[at], l = letter("letter", 'a', 'g');
    b[at] = Letter(l);
    vp_check(ind.hasWord(Word(b, n)) == (l == was), "long words differ by any letter");
    vp_reach("long");
}
