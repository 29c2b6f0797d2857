// Shared by the harnesses: input construction and short reference models.
#pragma once
#include "vp.h"
#include "ColumbusCore.hh"
#include "Word.hh"
#include "WordList.hh"
#include <stdexcept>
#include <string>
#include <vector>
using namespace Columbus;
using std::string;
using std::vector;

static inline Letter_ letter(const char *name, int lo, int hi) { return (Letter_)vp_range(name, lo, hi); }
// a word of exactly these letters
static inline Word mkWord(const Letter_ *l, size_t n) {
    if (n == 0) return Word();
    Letter b[40];
    for (size_t i = 0; i < n; i++) b[i] = Letter(l[i]);
    return Word(b, n);
}
static inline bool isSpace(Letter_ c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
static inline bool isSurr(Letter_ c) { return (c & 0xf800) == 0xd800; }
static inline int imin(int a, int b) { return a < b ? a : b; }

struct Costs {
    int ins, del, endDel, start, trans; // start: what a letter skipped before the query costs (limit already applied)
    int (*sub)(Letter_, Letter_);
};
// Restricted Damerau-Levenshtein cost of turning query q[0..m) into dictionary word d[0..n).
static int refCost(const Letter_ *q, size_t m, const Letter_ *d, size_t n, const Costs &c) {
    int D[9][9];
    for (size_t j = 0; j <= m; j++) D[0][j] = (int)j * c.ins;
    for (size_t i = 1; i <= n; i++) {
        D[i][0] = (int)i * c.start;
        for (size_t j = 1; j <= m; j++) {
            int best = D[i][j - 1] + c.ins;
            best = imin(best, D[i - 1][j] + (j == m ? c.endDel : c.del));
            best = imin(best, D[i - 1][j - 1] + c.sub(q[j - 1], d[i - 1]));
            if (i > 1 && j > 1) {
                bool swap = (q[j - 1] == d[i - 2]) & (q[j - 2] == d[i - 1]);
                best = imin(best, (int)(uint32_t)vp_ite(swap, (uint32_t)(D[i - 2][j - 2] + c.trans), (uint32_t)best));
            }
            D[i][j] = best;
        }
    }
    return D[n][m];
}
static inline bool sameLetters(const Word &w, const Letter_ *l, size_t n) {
    if (w.length() != n) return false;
    bool r = true;
    for (size_t i = 0; i < n; i++) r = r & ((Letter_)w[i] == l[i]);
    return r;
}
// any letter a word may contain on its own
static inline Letter_ anyLetter(const char *name) {
    Letter_ c = (Letter_)vp_u16(name);
    vp_assume(!isSpace(c) & !isSurr(c) & (c != 0));
    return c;
}
static inline bool eqLetters(const Letter_ *a, size_t n, const Letter_ *b, size_t m) {
    if (n != m) return false;
    bool r = true;
    for (size_t i = 0; i < n; i++) r = r & (a[i] == b[i]);
    return r;
}
// does f() throw E, nothing, or something else?
enum { NOTHROW, THROWS, OTHER };
template <class E, class F> static inline int throws(F f) {
    try { f(); } catch (const E &) { return THROWS; } catch (...) { return OTHER; }
    return NOTHROW;
}
