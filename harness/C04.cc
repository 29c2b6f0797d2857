// @bound 3 words (thorough 4) of 0..2 letters, each letter any 16-bit non-surrogate non-space letter (or the word one arbitrary surrogate pair), stored in sequence, then all of them asked again, with an arbitrary probe word and an arbitrary 32-bit ID
// @bound every history of 5 requests over the 7 words of up to 2 letters over two arbitrary different letters
// @bound storage growth: 0..140 nodes stored beforehand (crossing the 1024, 2048 and 4096 byte boundaries at every alignment), then 2 arbitrary words
// @bound 300 words; words of 255..300 letters with one arbitrary letter
#include "common.h"
#include "WordStore.hh"

struct W { Letter_ l[4]; size_t n; };
static W anyWord(const char *nm, unsigned max) {
    W w;
    unsigned k = vp_choose(nm, max + 2);
    if (k > max) {
        w.n = 2;
        w.l[0] = 0xd800 + (Letter_)vp_range("high", 0, 0x3ff);
        w.l[1] = 0xdc00 + (Letter_)vp_range("low", 0, 0x3ff);
    } else {
        w.n = k;
        for (unsigned i = 0; i < k; i++) w.l[i] = anyLetter("letter");
    }
    return w;
}
static bool same(const W &a, const W &b) { return eqLetters(a.l, a.n, b.l, b.n); }
static void store(unsigned n) {
    W w[4];
    unsigned id[4];
    WordStore s;
    for (unsigned i = 0; i < n; i++) w[i] = anyWord("len", 2);
    unsigned next = 0;
    for (unsigned i = 0; i < n; i++) {
        bool known = false;
        id[i] = next;
        for (unsigned j = 0; j < i && !known; j++)
            if (same(w[i], w[j])) { id[i] = id[j]; known = true; }
        Word x = mkWord(w[i].l, w[i].n);
        vp_check(s.hasWord(x) == known, "a word is known exactly when it has been given an ID");
        vp_check(s.getID(x) == id[i], "IDs are dense, in order of first appearance, and equal for equal words");
        if (!known) next++;
        for (unsigned j = 0; j <= i; j++) {
            vp_check(s.getID(mkWord(w[j].l, w[j].n)) == id[j], "an ID never changes");
            vp_check(sameLetters(s.getWord(id[j]), w[j].l, w[j].n), "an ID gives back its word");
        }
    }
    W p = anyWord("probe", 3);
    bool in = false;
    for (unsigned i = 0; i < n; i++) in = in | same(p, w[i]);
    vp_check(s.hasWord(mkWord(p.l, p.n)) == in, "only words that were given an ID are known");
    uint32_t q = vp_u32("id");
    vp_check(s.hasWord((WordID)q) == (q < next), "exactly the issued IDs are known");
    int t = throws<std::out_of_range>([&] { Word x = s.getWord((WordID)q); bool ok = false; for (unsigned i = 0; i < n; i++) ok = ok | ((id[i] == q) & sameLetters(x, w[i].l, w[i].n)); vp_check(ok, "an issued ID gives its word"); });
    vp_check(t == (q < next ? NOTHROW : THROWS), "an ID that was never issued is refused as out of range");
    vp_reach("store");
}
VP_ENTRY(c04_store) { store(3); vp_reach("entry"); }
VP_ENTRY(c04_store_t) { store(4); vp_reach("entry"); }

static void history(unsigned n) {
    Letter_ A = anyLetter("A"), B = anyLetter("B");
    vp_assume(A != B);
    const Letter_ text[7][2] = {{0}, {A}, {B}, {A, A}, {A, B}, {B, A}, {B, B}};
    static const unsigned len[7] = {0, 1, 1, 2, 2, 2, 2};
    int id[7] = {-1, -1, -1, -1, -1, -1, -1};
    int next = 0;
    WordStore s;
    for (unsigned i = 0; i < n; i++) {
        unsigned c = vp_choose("word", 7);
        if (id[c] < 0) id[c] = next++;
        vp_check(s.getID(mkWord(text[c], len[c])) == (WordID)id[c], "IDs are dense, in order of first appearance, and equal for equal words");
        for (unsigned k = 0; k < 7; k++) {
            vp_check(s.hasWord(mkWord(text[k], len[k])) == (id[k] >= 0), "a word is known exactly when it has been given an ID");
            if (id[k] >= 0) vp_check(sameLetters(s.getWord((WordID)id[k]), text[k], len[k]), "an ID gives back its word");
        }
    }
    vp_reach("history");
}
VP_ENTRY(c04_history) { history(5); vp_reach("entry"); }
VP_ENTRY(c04_history_t) { history(6); vp_reach("entry"); }

VP_ENTRY(c04_growth) {
    unsigned fill = vp_choose("fill", 141);
    WordStore s;
    Letter b[150];
    for (unsigned i = 0; i < fill; i++) b[i] = Letter('a' + i % 3);
    unsigned half = fill / 2;
    Word x(b, half), y(b + half, fill - half);
    WordID ix = s.getID(x), iy = s.getID(y);
    W w[2];
    w[0].n = 1; w[0].l[0] = letter("letter", 'p', 'z');
    w[1].n = 2; w[1].l[0] = letter("letter", 'p', 'z'); w[1].l[1] = letter("letter", 'p', 'z');
    WordID a = s.getID(mkWord(w[0].l, 1)), c = s.getID(mkWord(w[1].l, 2));
    unsigned n = x == y ? 1 : 2;
    vp_check(ix == 0 && iy == n - 1 && a == n && c == n + 1, "IDs stay dense across growth");
    vp_check(s.getID(x) == ix && s.getID(y) == iy && s.getWord(ix) == x && s.getWord(iy) == y, "words stored before growth keep their IDs");
    vp_check(sameLetters(s.getWord(a), w[0].l, 1) && sameLetters(s.getWord(c), w[1].l, 2), "words stored after growth are given back");
    Letter_ p[1] = {letter("probe", 'p', 'z')};
    vp_check(s.hasWord(mkWord(p, 1)) == (p[0] == w[0].l[0]), "only words that were given an ID are known");
    vp_check(!s.hasWord((WordID)(n + 2)), "nothing else was issued");
    vp_reach("growth");
}
// more words and letters than a byte can count
VP_ENTRY(c04_many) {
    WordStore s;
    Letter_ first[2] = {letter("letter", 'a', 'c'), '-'};
    s.getID(mkWord(first, 2));
    for (int i = 1; i < 300; i++) {
        Letter_ k[3] = {(Letter_)('a' + i % 20), (Letter_)('a' + i / 20), 'z'};
        vp_check(s.getID(mkWord(k, 3)) == (WordID)i, "IDs stay dense");
    }
    int i = 1 + vp_choose("which", 4) * 298 / 3;
    Letter_ k[3] = {(Letter_)('a' + i % 20), (Letter_)('a' + i / 20), 'z'};
    vp_check(s.getID(mkWord(k, 3)) == (WordID)i && sameLetters(s.getWord(i), k, 3), "each of many words keeps its ID");
    vp_check(s.getID(mkWord(first, 2)) == 0 && sameLetters(s.getWord(0), first, 2), "the first of many words keeps its ID");
    vp_check(s.hasWord((WordID)299) && !s.hasWord((WordID)300), "nothing else was issued");
    vp_reach("many");
}
VP_ENTRY(c04_long) {
    static const int lens[] = {255, 256, 257, 300};
    int n = lens[vp_choose("length", 4)], at = vp_choose("at", 3) * (n - 1) / 2;
    Letter b[300];
    for (int i = 0; i < n; i++) b[i] = Letter('a' + i % 7);
    WordStore s;
    Word w(b, n);
    s.getID(w);
    vp_check(s.getWord(0) == w && s.getWord(0).length() == (size_t)n, "a long word is given back whole");
    Letter_ was = (Letter_)b[at], l = letter("letter", 'a', 'g');
    b[at] = Letter(l);
    Word v(b, n);
    vp_check(s.getID(v) == (l == was ? 0u : 1u), "long words differ by any letter");
    vp_check(s.getWord(l == was ? 0 : 1) == v, "a long word is given back whole");
    vp_reach("long");
}
