// @bound a fault at every call (symbolic position, so every call up to the last is covered) of tmpfile, ftruncate, mmap, munmap and madvise, one or two kinds failing in the same run, while building and filling a trie, index, word store or matcher with 60..300 words (up to 4 growths), and again after the failure
// @bound words of 1..2 letters, one of them arbitrary
// @assume a failing call has no other effect
#include "matcher.h"
#include "IndexMatches.hh"
#include "LevenshteinIndex.hh"
#include "Trie.hh"
#include "WordStore.hh"

static const int kinds[] = {VP_TMPFILE, VP_FTRUNCATE, VP_MMAP, VP_MUNMAP, VP_MADVISE};
static Word nth(int i, Letter_ last) {
    Letter_ l[2] = {(Letter_)(i < 40 ? 'a' + i % 7 : last), (Letter_)(i < 40 ? 'a' + i / 7 : 'a' + i)};
    return mkWord(l, 2);
}
struct TrieT {
    typedef Trie T;
    static void add(T &t, const Word &w, int i) { t.insertWord(w, i); }
    static bool has(const T &t, const Word &w, int) { return t.hasWord(w); }
};
struct IndexT {
    typedef LevenshteinIndex T;
    static void add(T &t, const Word &w, int i) { t.insertWord(w, i); }
    static bool has(const T &t, const Word &w, int i) { return t.hasWord(w) && t.wordCount(i) > 0; }
};
struct StoreT {
    typedef WordStore T;
    static void add(T &t, const Word &w, int) { t.getID(w); }
    static bool has(const T &t, const Word &w, int i) { return t.hasWord(w) && t.getWord(i) == w; }
};
struct MatcherT {
    typedef Matcher T;
    static void add(T &m, const Word &w, int i) {
        Corpus c;
        Document d(i);
        WordList l;
        l.addWord(w);
        d.addText(Word(i % 2 ? "odd" : "even"), l);
        c.addDocument(d);
        m.index(c);
    }
    static bool has(T &m, const Word &w, int i) {
        WordList l;
        l.addWord(w);
        MatchResults r = m.match(l);
        for (size_t k = 0; k < r.size(); k++) if (r.getDocumentID(k) == (DocumentID)i) return true;
        return false;
    }
};
template <class A> static void storage(int n, int faults) {
    Letter_ last = letter("letter", 'a', 'h');
    int k[2], at[2];
    for (int i = 0; i < faults; i++) k[i] = kinds[vp_choose("kind", 5)];
    if (faults > 1) vp_assume(k[0] < k[1]);
    for (int i = 0; i < faults; i++) at[i] = vp_range("nth", 0, 40);
    uint64_t live = vp_live(), maps = vp_maps(), files = vp_files();
    for (int i = 0; i < faults; i++) vp_fault(k[i], at[i]);
    bool must = false, may = false, failed = false, other = false;
    auto hits = [&] {
        for (int i = 0; i < faults; i++)
            if (vp_fault_hit(k[i])) { may = true; if (k[i] != VP_MADVISE && k[i] != VP_MUNMAP) must = true; }
    };
    typename A::T *t = nullptr;
    try { t = new typename A::T(); } catch (const std::runtime_error &) { failed = true; } catch (...) { other = true; }
    hits();
    vp_check(!other, "failing storage raises runtime errors only");
    vp_check(!must || failed, "failing storage is reported when building");
    vp_check(may || !failed, "working storage does not raise errors when building");
    if (t) {
        int done = 0;
        for (int i = 0; i < n && !failed; i++) {
            try { A::add(*t, nth(i, last), i); done++; } catch (const std::runtime_error &) { failed = true; } catch (...) { other = true; }
            if (other) break;
        }
        hits();
        vp_check(!other, "failing storage raises runtime errors only");
        vp_check(!must || failed, "failing storage is reported when inserting");
        vp_check(may || !failed, "working storage does not raise errors when inserting");
        for (int i = 0; i < faults; i++) vp_fault(k[i], -1);
        if (!failed) {
            for (int i = 0; i < done; i += 9) vp_check(A::has(*t, nth(i, last), i), "what was inserted is found");
            vp_reach("worked");
        } else vp_reach("failed");
        delete t;
    } else vp_reach("not built");
    for (int i = 0; i < faults; i++) vp_fault(k[i], -1);
    vp_check(vp_live() == live, "no memory is lost when storage fails");
    vp_check(vp_maps() == maps, "no mapping is lost when storage fails");
    vp_check(vp_files() == files, "no file is lost when storage fails");
}
VP_ENTRY(c22_trie) { storage<TrieT>(300, 1); vp_reach("trie"); }
VP_ENTRY(c22_index) { storage<IndexT>(300, 1); vp_reach("index"); }
VP_ENTRY(c22_store) { storage<StoreT>(300, 1); vp_reach("store"); }
VP_ENTRY(c22_matcher) { storage<MatcherT>(60, 1); vp_reach("matcher"); }
VP_ENTRY(c22_two) { storage<IndexT>(300, 2); vp_reach("two"); }
VP_ENTRY(c22_matcher_two_t) { storage<MatcherT>(150, 2); vp_reach("two"); }
// the object stays usable: the rest can be inserted when storage works again, and nothing inserted before is lost
template <class A> static void again(int n) {
    int k = kinds[vp_choose("kind", 4)], at = vp_range("nth", 0, 40);
    typename A::T t;
    vp_fault(k, at);
    int done = 0;
    bool failed = false;
    for (int i = 0; i < n && !failed; i++) {
        try { A::add(t, nth(i, 'z'), i); done++; } catch (const std::runtime_error &) { failed = true; }
    }
    vp_fault(k, -1);
    for (int i = done; i < n; i++) A::add(t, nth(i, 'z'), i);
    for (int i = 0; i < n; i += 5) vp_check(A::has(t, nth(i, 'z'), i), "everything inserted before and after a failure is found");
}
VP_ENTRY(c22_again) {
    switch (vp_choose("class", 3)) {
    case 0: again<TrieT>(200); break;
    case 1: again<IndexT>(200); break;
    case 2: again<StoreT>(200); break;
    }
    vp_reach("again");
}
// large words: growth by several doublings within one insertion
VP_ENTRY(c22_large) {
    int k = kinds[vp_choose("kind", 5)], at = vp_range("nth", 0, 20);
    uint64_t live = vp_live(), maps = vp_maps(), files = vp_files();
    vp_fault(k, at);
    bool failed = false;
    {
        Letter l[120];
        for (int i = 0; i < 120; i++) l[i] = Letter('a' + i % 26);
        Word w(l, 120);
        LevenshteinIndex *t = nullptr;
        try { t = new LevenshteinIndex(); t->insertWord(w, 0); } catch (const std::runtime_error &) { failed = true; }
        bool hit = vp_fault_hit(k);
        vp_check(failed == (hit && k != VP_MADVISE && k != VP_MUNMAP) || (hit && (k == VP_MADVISE || k == VP_MUNMAP)), "failing storage is reported, working storage is not");
        vp_fault(k, -1);
        if (t) { if (!failed) vp_check(t->hasWord(w) && t->numWords() == 1, "a long word is indexed"); delete t; }
    }
    vp_check(vp_live() == live && vp_maps() == maps && vp_files() == files, "nothing is lost when storage fails");
    vp_reach("large");
}
