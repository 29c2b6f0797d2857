// @bound histories of up to 3 (thorough 4) cost settings with any 32-bit values and any 64-bit limits, start-insertion cost read for any 64-bit length
// @bound 3 (thorough 4) weights of fields of 1..2 arbitrary letters set to any double; histories of up to 4 (thorough 5) search parameter and filter operations with arbitrary 1-letter words; indices of any 64-bit value
#include "matcher.h"
#include <cstring>

static const Letter_ probes[][2] = {{'a', 'b'}, {'a', 0x3b1}, {'c', 'd'}, {600, 601}};
struct Model {
    int ins = 100, del = 100, end = 100, start = 100, trans = 100, sub[4] = {100, 100, 100, 100};
    uint64_t limit = 0;
};
static void agree(const ErrorValues &e, const Model &m, uint64_t len) {
    vp_check(e.getInsertionError() == m.ins, "the insertion cost is the one set last");
    vp_check(e.getDeletionError() == m.del, "the deletion cost is the one set last");
    vp_check(e.getEndDeletionError() == m.end, "the end deletion cost is the one set last");
    vp_check(e.getTransposeError() == m.trans, "the transpose cost is the one set last");
    vp_check((uint32_t)e.getStartInsertionError(len) == (uint32_t)vp_ite(len >= m.limit, (uint32_t)m.start, (uint32_t)m.ins), "the start insertion cost applies to queries at least as long as the limit only");
    for (int i = 0; i < 4; i++) {
        vp_check(e.getSubstituteError(Letter(probes[i][0]), Letter(probes[i][1])) == m.sub[i], "the substitution cost is the one set last");
        vp_check(e.getSubstituteError(Letter(probes[i][1]), Letter(probes[i][0])) == m.sub[i], "the substitution cost is the one set last, in both directions");
        vp_check(e.getSubstituteError(Letter(probes[i][0]), Letter(probes[i][0])) == 0, "a letter costs nothing against itself");
    }
}
static void set(ErrorValues &e, Model &m, int op, int v, uint64_t l) {
    switch (op) {
    case 0: e.setInsertionError(v); m.ins = v; break;
    case 1: e.setDeletionError(v); m.del = v; break;
    case 2: e.setEndDeletionError(v); m.end = v; break;
    case 3: e.setStartInsertionError(v); m.start = v; break;
    case 4: e.setTransposeError(v); m.trans = v; break;
    case 5: e.setSubstringStartLimit(l); m.limit = l; break;
    case 6: e.setSubstringMode(); m.start = 15; m.end = 15; m.limit = 3; break;
    case 7: e.setError(Letter('a'), Letter('b'), v); m.sub[0] = v; break;
    case 8: e.setError(Letter(601), Letter(600), v); m.sub[3] = v; break;
    case 9: e.clearErrors(); for (int i = 0; i < 4; i++) m.sub[i] = 100; break;
    case 10: { bool t = e.isInGroup(Letter('c')); int r = throws<std::runtime_error>([&] { e.setGroupError(Word("cd"), v); }); vp_check(r == (t ? THROWS : NOTHROW), "a group is refused exactly when taken"); if (!t) m.sub[2] = v; break; }
    }
}
static void costs(int n) {
    Matcher *m = vp_choose("in a matcher", 2) ? new Matcher : nullptr;
    ErrorValues *own = m ? nullptr : new ErrorValues;
    ErrorValues &e = m ? m->getErrorValues() : *own;
    Model w;
    uint64_t len = vp_u64("length");
    agree(e, w, len);
    for (int i = 0; i < n; i++) {
        int v = (int)vp_u32("cost");
        uint64_t l = vp_u64("limit");
        set(e, w, vp_choose("setting", 11), v, l);
        agree(e, w, len);
    }
    if (m) vp_check(&m->getErrorValues() == &e, "a matcher has one set of costs");
    delete m;
    delete own;
    vp_reach("costs");
}
VP_ENTRY(c26_costs) { costs(3); vp_reach("set"); }
VP_ENTRY(c26_costs_t) { costs(4); vp_reach("set"); }
VP_ENTRY(c26_defaults) {
    vp_check(ErrorValues::getDefaultError() == 100 && ErrorValues::getDefaultGroupError() == 30 && ErrorValues::getDefaultTypoError() == 30, "the default costs are as documented");
    vp_check(ErrorValues::getSubstringDefaultEndDeletionError() == 15 && ErrorValues::getSubstringDefaultStartInsertionError() == 15, "the substring costs are as documented");
    SearchParameters p;
    vp_check(p.isDynamic(), "searches are dynamic unless set otherwise");
    vp_check(p.getResultFilter().numTerms() == 1 && p.getResultFilter().numSubTerms(0) == 0, "a new filter accepts everything");
    Letter_ l[4];
    int n = 1 + vp_choose("length", 4);
    for (int i = 0; i < n; i++) l[i] = anyLetter("letter");
    Word w = mkWord(l, n);
    vp_check(p.getDynamicError(w) == (n > 1 ? 200 : 100), "the dynamic error is one for one letter and two for more");
    vp_check(!p.isNonsearchingField(w), "all fields are searched unless set otherwise");
    p.setDynamic(false);
    vp_check(p.getDynamicError(w) == (n > 1 ? 200 : 100), "the dynamic error depends on the word only");
    IndexWeights iw;
    vp_check(iw.getWeight(w) == 1.0, "the weight of a field never set is 1");
    vp_check(iw.getWeight(Word()) == 1.0 && p.getDynamicError(Word()) == 100, "the empty word is a word like others");
    vp_reach("defaults");
}
static bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool eqBits(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
struct F { Letter_ l[2]; int n; };
static F field(const char *name) {
    F f;
    f.n = 1 + vp_choose("field length", 2);
    for (int i = 0; i < f.n; i++) f.l[i] = anyLetter(name);
    return f;
}
static bool sameF(const F &a, const F &b) { return eqLetters(a.l, a.n, b.l, b.n); }
static void weights(int n) {
    Matcher m, other;
    IndexWeights own, &w = vp_choose("in a matcher", 2) ? m.getIndexWeights() : own;
    F f[4];
    double v[4];
    for (int i = 0; i < n; i++) {
        f[i] = field("field");
        uint64_t b = vp_u64("weight");
        memcpy(v + i, &b, 8);
        w.setWeight(mkWord(f[i].l, f[i].n), v[i]);
        // every field set so far has the weight it was set to last
        for (int k = 0; k <= i; k++) {
            bool later = false;
            for (int j = k + 1; j <= i; j++) later = later | sameF(f[k], f[j]);
            bool r = eqBits(w.getWeight(mkWord(f[k].l, f[k].n)), v[k]);
            vp_check(r | later, "a weight reads back as set last");
        }
    }
    F o = field("other");
    bool known = false;
    for (int k = 0; k < n; k++) known = known | sameF(f[k], o);
    bool one = eqBits(w.getWeight(mkWord(o.l, o.n)), 1.0);
    vp_check(one | known, "the weight of a field never set is 1");
    vp_check(sameBits(other.getIndexWeights().getWeight(mkWord(f[0].l, f[0].n)), 1.0), "setting a weight of one matcher changes no other");
    vp_reach("weights");
}
VP_ENTRY(c26_weights) { weights(3); vp_reach("set"); }
VP_ENTRY(c26_weights_t) { weights(4); vp_reach("set"); }
// histories of search parameter settings
static void params(int n) {
    SearchParameters p, other;
    ResultFilter &f = p.getResultFilter();
    const SearchParameters &cp = p;
    bool dyn = true;
    Letter_ no[5], a[5], b[5];
    int nos = 0, terms = 1, in[6] = {0}, subs = 0, at[5], pos[5];
    for (int i = 0; i < n; i++) {
        switch (vp_choose("setting", 4)) {
        case 0: dyn = vp_u8("dynamic") != 0; p.setDynamic(dyn); break;
        case 1: no[nos] = anyLetter("field"); p.addNonsearchingField(mkWord(no + nos, 1)); nos++; break;
        case 2: f.addNewTerm(); in[terms++] = 0; break;
        case 3:
            a[subs] = anyLetter("filter field"); b[subs] = anyLetter("filter word");
            f.addNewSubTerm(mkWord(a + subs, 1), mkWord(b + subs, 1));
            at[subs] = terms - 1; pos[subs] = in[terms - 1]++; subs++;
            break;
        }
        vp_check(p.isDynamic() == dyn, "dynamic errors read back as set");
        for (int k = 0; k < nos; k++) vp_check(p.isNonsearchingField(mkWord(no + k, 1)), "a non-searching field reads back");
        const ResultFilter &r = cp.getResultFilter();
        vp_check(&r == &f, "the filter is that of the parameters");
        vp_check(r.numTerms() == (size_t)terms, "the filter has the terms added");
        for (int t = 0; t < terms; t++) vp_check(r.numSubTerms(t) == (size_t)in[t], "each term has the subterms added to it");
        for (int k = 0; k < subs; k++) {
            vp_check(sameLetters(r.getField(at[k], pos[k]), a + k, 1), "filter fields read back in order");
            vp_check(sameLetters(r.getWord(at[k], pos[k]), b + k, 1), "filter words read back in order");
        }
    }
    Letter_ o = anyLetter("other");
    bool known = false;
    for (int k = 0; k < nos; k++) known = known | (no[k] == o);
    vp_check(p.isNonsearchingField(mkWord(&o, 1)) == known, "only the fields named are not searched");
    vp_check(other.isDynamic() & (other.getResultFilter().numTerms() == 1) & !other.isNonsearchingField(mkWord(&o, 1)), "settings of one search change no other");
    // reading beyond the end is refused
    uint64_t t = vp_u64("term"), s = vp_u64("subterm");
    bool okTerm = t < (uint64_t)terms;
    if (okTerm) {
        int want = NOTHROW;
        if (s >= (uint64_t)in[t]) want = THROWS;
        vp_check(throws<std::out_of_range>([&] { f.getField(t, s); }) == want, "subterms that do not exist are refused");
        vp_check(throws<std::out_of_range>([&] { f.getWord(t, s); }) == want, "subterms that do not exist are refused");
    } else {
        vp_check(throws<std::out_of_range>([&] { f.numSubTerms(t); }) == THROWS, "terms that do not exist are refused");
        vp_check(throws<std::out_of_range>([&] { f.getField(t, s); }) == THROWS, "terms that do not exist are refused");
        vp_check(throws<std::out_of_range>([&] { f.getWord(t, s); }) == THROWS, "terms that do not exist are refused");
    }
    vp_reach("params");
}
VP_ENTRY(c26_params) { params(4); vp_reach("set"); }
VP_ENTRY(c26_params_t) { params(5); vp_reach("set"); }
// costs, weights and parameters of a matcher do not affect each other
VP_ENTRY(c26_apart) {
    Matcher m, o;
    Model w, d;
    uint64_t len = vp_u64("length");
    int v = (int)vp_u32("cost");
    Letter_ l = anyLetter("field");
    set(m.getErrorValues(), w, vp_choose("setting", 11), v, len);
    m.getIndexWeights().setWeight(mkWord(&l, 1), 2.5);
    SearchParameters p;
    p.setDynamic(false);
    p.addNonsearchingField(mkWord(&l, 1));
    agree(m.getErrorValues(), w, len);
    agree(o.getErrorValues(), d, len);
    vp_check(m.getIndexWeights().getWeight(mkWord(&l, 1)) == 2.5, "a weight reads back as set last");
    vp_check(o.getIndexWeights().getWeight(mkWord(&l, 1)) == 1.0, "setting a weight of one matcher changes no other");
    // searching and indexing leave the settings alone
    Corpus c;
    Document doc(1);
    doc.addText(mkWord(&l, 1), "some text");
    c.addDocument(doc);
    m.index(c);
    p.getResultFilter().addNewSubTerm(mkWord(&l, 1), Word("some"));
    if (v >= 0) m.match("text", p);
    agree(m.getErrorValues(), w, len);
    vp_check(m.getIndexWeights().getWeight(mkWord(&l, 1)) == 2.5, "searches leave the weights alone");
    vp_check(!p.isDynamic() && p.isNonsearchingField(mkWord(&l, 1)) && p.getResultFilter().numTerms() == 1, "searches leave their parameters alone");
    vp_reach("apart");
}
