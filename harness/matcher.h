// Corpora with small vocabularies and a reference search over them.
#pragma once
#include "common.h"
#include "Corpus.hh"
#include "Document.hh"
#include "ErrorValues.hh"
#include "IndexWeights.hh"
#include "MatchResults.hh"
#include "Matcher.hh"
#include "ResultFilter.hh"
#include "SearchParameters.hh"
#include <cmath>

struct W { // a word and its letters
    Letter_ l[6];
    int n = 0;
    W() {}
    W(const char *s) { for (n = 0; s[n]; n++) l[n] = (unsigned char)s[n]; }
    Word word() const { return mkWord(l, n); }
};
static inline bool eqW(const W &a, const W &b) { return eqLetters(a.l, a.n, b.l, b.n); }
struct Field { W name; W w[6]; int n = 0; };
struct Doc {
    DocumentID id = 0;
    Field f[3];
    int n = 0;
    Document make() const {
        Document d(id);
        for (int i = 0; i < n; i++) {
            WordList l;
            for (int k = 0; k < f[i].n; k++) l.addWord(f[i].w[k].word());
            d.addText(f[i].name.word(), l);
        }
        return d;
    }
};
static inline int subDefault_(Letter_ x, Letter_ y) { return (int)(uint32_t)vp_ite(x == y, 0, 100); }
struct Ref {
    Costs c = {100, 100, 100, 100, 100, subDefault_};
    bool dynamic = true;
    bool (*searchable)(const W &) = nullptr;
    double (*weight)(const W &) = nullptr;
    bool hit[16];
    double rel[16];
    // fills hit/rel for each document; documents have distinct IDs
    void search(const Doc *d, int nd, const W *q, int nq) {
        for (int i = 0; i < nd; i++) { hit[i] = false; rel[i] = 0; }
        for (int i = 0; i < nd; i++)
            for (int fi = 0; fi < d[i].n; fi++) {
                const Field &f = d[i].f[fi];
                if (searchable && !searchable(f.name)) continue;
                for (int k = 0; k < f.n; k++) {
                    bool seen = false;
                    for (int j = 0; j < k; j++) if (eqW(f.w[j], f.w[k])) seen = true;
                    if (seen) continue;
                    bool within = false;
                    int best = 1 << 28;
                    for (int x = 0; x < nq; x++) {
                        int e = refCost(q[x].l, q[x].n, f.w[k].l, f.w[k].n, c);
                        int max = !dynamic || q[x].n > 1 ? 200 : 100;
                        if (e <= max) { within = true; best = imin(best, e); }
                    }
                    if (!within) continue;
                    hit[i] = true;
                    // how often this word and the most common word occur in the field
                    size_t mine = 0, most = 0;
                    for (int a = 0; a < nd; a++)
                        for (int b = 0; b < d[a].n; b++) {
                            if (!eqW(d[a].f[b].name, f.name)) continue;
                            for (int w = 0; w < d[a].f[b].n; w++) {
                                size_t n = 0;
                                for (int a2 = 0; a2 < nd; a2++)
                                    for (int b2 = 0; b2 < d[a2].n; b2++)
                                        if (eqW(d[a2].f[b2].name, f.name))
                                            for (int w2 = 0; w2 < d[a2].f[b2].n; w2++) if (eqW(d[a2].f[b2].w[w2], d[a].f[b].w[w])) n++;
                                if (n > most) most = n;
                                if (eqW(d[a].f[b].w[w], f.w[k])) mine = n;
                            }
                        }
                    double factor = 1.0 - (double)mine / (double)(most + 1);
                    rel[i] += 100.0 / (100.0 + best) * factor * (weight ? weight(f.name) : 1.0);
                }
            }
    }
};
static inline bool close_(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
// the results are exactly the hits; returns the position of each document (or -1)
static void checkDocs(const MatchResults &r, const Doc *d, int nd, const bool *hit, int *pos) {
    int n = 0;
    for (int i = 0; i < nd; i++) {
        int at = -1, times = 0;
        for (size_t k = 0; k < r.size(); k++) if (r.getDocumentID(k) == d[i].id) { times++; if (at < 0) at = (int)k; }
        vp_check(times <= 1, "no document is returned twice");
        vp_check((times > 0) == hit[i], "a document is returned exactly when it matches");
        pos[i] = at;
        n += times;
    }
    vp_check((size_t)n == r.size(), "only documents of the corpus are returned");
}
static inline void indexAll(Matcher &m, const Doc *d, int nd) {
    Corpus c;
    for (int i = 0; i < nd; i++) c.addDocument(d[i].make());
    m.index(c);
}
static inline WordList listOf(const W *q, int n) {
    WordList l;
    for (int i = 0; i < n; i++) l.addWord(q[i].word());
    return l;
}
static const char *const vocab[] = {"a", "ab", "ba", "b", "abcd", "xyz", "axbx", "aa"};
static inline W pick(const char *name, int n) { return W(vocab[vp_choose(name, n)]); }
static const DocumentID ids[] = {7, 7 + (1ull << 32), 0, ~0ull, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23};
