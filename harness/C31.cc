// @bound tries of up to 4 (thorough 5) words of 1..3 letters (of 3 values, or any 16-bit letters in 2 words of 2 letters), walked completely; tries of 40 letters that grow
// @bound word statistics over histories of up to 4 (thorough 5) arbitrary word IDs of 32 bits
// @bound pairs of word IDs that differ in any one bit; 250..262 occurrences of a word
#include "common.h"
#include "MatcherStatistics.hh"
#include "Trie.hh"

struct P { Letter_ l[4]; int n; };
static bool prefix(const P &a, const P &b) { return a.n <= b.n && eqLetters(a.l, a.n, b.l, a.n); }
// walks everything below a node and records the words and the paths found
struct Walk {
    const Trie &t;
    P path[40], word[8];
    WordID id[8];
    int paths = 0, words = 0;
    Walk(const Trie &t_) : t(t_) {}
    void go(TrieOffset node, P at) {
        vp_check(paths < 40, "the trie is a finite tree");
        path[paths++] = at;
        if (t.getWordID(node) != INVALID_WORDID) {
            vp_check(words < 8, "only inserted words are in the trie");
            word[words] = at;
            id[words++] = t.getWordID(node);
            Word w = t.getWord(node);
            vp_check(sameLetters(w, at.l, at.n), "the word of a node is the path to it");
            vp_check(t.findWord(w) == node && t.hasWord(w), "the path to a node is found");
        }
        TrieOffset s = t.getSiblingList(node);
        while (s) {
            TrieOffset c = t.getChild(s);
            vp_check(t.getParent(c) == node, "parents are the inverse of children");
            vp_check(t.getSiblingTo(node, c) == s, "siblings lead to their children");
            vp_check(t.hasSibling(s) == (t.getNextSibling(s) != 0), "hasSibling tells whether there is a next sibling");
            vp_check(at.n < 4, "paths are no longer than the words");
            P n = at;
            n.l[n.n++] = t.getLetter(s);
            go(c, n);
            s = t.getNextSibling(s);
        }
    }
};
static void check(const Trie &t, const P *w, int n) {
    Walk k(t);
    P none;
    none.n = 0;
    vp_check(t.getParent(t.getRoot()) == 0, "the root has no parent");
    k.go(t.getRoot(), none);
    vp_check(k.words == n, "each inserted word is there once");
    for (int i = 0; i < n; i++) {
        int times = 0;
        for (int j = 0; j < k.words; j++) if (eqLetters(w[i].l, w[i].n, k.word[j].l, k.word[j].n)) { times++; vp_check(k.id[j] == (WordID)(i + 10), "each word has the ID it was inserted with"); }
        vp_check(times == 1, "each inserted word is there once");
    }
    // every path is a prefix of some word, and there is one node for each distinct prefix
    for (int i = 0; i < k.paths; i++) {
        bool some = k.path[i].n == 0;
        for (int j = 0; j < n; j++) if (prefix(k.path[i], w[j])) some = true;
        vp_check(some, "every node lies on the path to a word");
        for (int j = 0; j < i; j++) vp_check(!eqLetters(k.path[i].l, k.path[i].n, k.path[j].l, k.path[j].n), "no two nodes have the same path");
    }
    vp_check(t.numWords() == (size_t)n, "the number of words is that of the distinct words");
}
static void tree(int n, int values) {
    Trie t;
    P w[6];
    int distinct = 0;
    for (int i = 0; i < n; i++) {
        P p;
        p.n = 1 + vp_choose("length", i == 0 ? 3 : 2);
        for (int k = 0; k < p.n; k++) p.l[k] = values ? letter("letter", 'a', 'a' + values - 1) : anyLetter("letter");
        int at = -1;
        for (int k = 0; k < distinct; k++) if (eqLetters(w[k].l, w[k].n, p.l, p.n)) at = k;
        if (at < 0) { at = distinct; w[distinct++] = p; }
        TrieOffset node = t.insertWord(mkWord(p.l, p.n), at + 10);
        vp_check(t.getWordID(node) == (WordID)(at + 10), "inserting gives the node of the word");
        vp_check(t.findWord(mkWord(p.l, p.n)) == node, "inserting gives the node that is found");
    }
    size_t nodes = t.numNodes();
    check(t, w, distinct);
    // looking up anything changes nothing
    P o;
    o.n = 1 + vp_choose("length", 2);
    for (int k = 0; k < o.n; k++) o.l[k] = values ? letter("other", 'a', 'a' + values) : anyLetter("other");
    bool isWord = false, isPrefix = false;
    for (int k = 0; k < distinct; k++) { if (eqLetters(o.l, o.n, w[k].l, w[k].n)) isWord = true; if (prefix(o, w[k])) isPrefix = true; }
    vp_check(t.hasWord(mkWord(o.l, o.n)) == isWord, "only inserted words are known");
    vp_check((t.findWord(mkWord(o.l, o.n)) != 0) == isPrefix, "exactly the prefixes of words have nodes");
    vp_check(t.numNodes() == nodes && t.numWords() == (size_t)distinct, "lookups change nothing");
    vp_reach("tree");
}
VP_ENTRY(c31_tree) { tree(3, 2); vp_reach("walked"); }
VP_ENTRY(c31_letters) { tree(2, 0); vp_reach("walked"); }
VP_ENTRY(c31_tree_t) { tree(4, 2); vp_reach("walked"); }
VP_ENTRY(c31_letters_t) { tree(3, 0); vp_reach("walked"); }
// the tree survives growth of its storage, wherever in the insertion it happens
VP_ENTRY(c31_growth) {
    Trie t;
    int shift = vp_choose("shift", 34);
    P w[6];
    // fill up to shortly before the first growth (letters of one long word)
    Letter_ pad[40];
    for (int i = 0; i < shift; i++) pad[i] = 'z';
    if (shift) t.insertWord(mkWord(pad, shift), 99);
    for (int i = 0; i < 4; i++) {
        w[i].n = 1 + (i & 1);
        for (int k = 0; k < w[i].n; k++) w[i].l[k] = (Letter_)('a' + 2 * i + k);
        t.insertWord(mkWord(w[i].l, w[i].n), i + 10);
    }
    Letter_ x = letter("letter", 'a', 'z');
    w[4].n = 1;
    w[4].l[0] = x;
    bool known = false;
    for (int i = 0; i < 4; i++) if (w[i].n == 1 && w[i].l[0] == x) known = true;
    vp_assume(!known);
    t.insertWord(mkWord(w[4].l, 1), shift == 1 && x == 'z' ? 99 : 14);
    for (int i = 0; i < 4; i++) {
        TrieOffset n = t.findWord(mkWord(w[i].l, w[i].n));
        vp_check(n && t.getWordID(n) == (WordID)(i + 10) && sameLetters(t.getWord(n), w[i].l, w[i].n), "words survive growth");
    }
    if (shift) vp_check(t.hasWord(mkWord(pad, shift)), "words survive growth");
    vp_check(t.numWords() == (size_t)(5 + (shift > 0) - (shift == 1 && x == 'z')), "the number of words survives growth");
    vp_reach("growth");
}
static void stats(int n) {
    MatcherStatistics s, o;
    // IDs at the start, across a table size and at the top of the range
    static const WordID base[] = {0, 251, 0xFFFFFFF8u};
    WordID w[6], b = base[vp_choose("base", 3)], q = b + vp_range("queried", 0, 7);
    size_t want = 0;
    for (int i = 0; i < n; i++) {
        w[i] = b + vp_range("word", 0, 7);
        s.wordProcessed(w[i]);
        s.addedWordToIndex(w[i], Word("field"));
        want += w[i] == q;
    }
    vp_check(s.getTotalWordCount(q) == want, "a word is counted as often as it was processed");
    vp_check(s.getTotalWordCount(q) == want, "reading a count does not change it");
    vp_check(o.getTotalWordCount(q) == 0, "a word never processed counts zero");
    vp_reach("stats");
}
// IDs that differ in any one bit are different words; counts go beyond a byte
VP_ENTRY(c31_counts) {
    MatcherStatistics s;
    WordID a = vp_choose("word", 2) ? 0x12345678u : 0, b = a ^ (1u << vp_choose("bit", 32));
    int times = 250 + vp_range("times", 0, 12);
    for (int i = 0; i < times; i++) s.wordProcessed(a);
    vp_check(s.getTotalWordCount(a) == (size_t)times, "a word is counted as often as it was processed");
    vp_check(s.getTotalWordCount(b) == 0, "a word never processed counts zero");
    s.wordProcessed(b);
    vp_check(s.getTotalWordCount(a) == (size_t)times && s.getTotalWordCount(b) == 1, "words are counted apart");
    vp_reach("counts");
}
VP_ENTRY(c31_stats) { stats(3); vp_reach("counted"); }
VP_ENTRY(c31_stats_t) { stats(4); vp_reach("counted"); }
