#include "vp.h"
#include "Word.hh"
#include "LevenshteinIndex.hh"
#include "ErrorValues.hh"
#include "IndexMatches.hh"
#include <stdexcept>
using namespace Columbus;
VP_ENTRY(st_word) {
    Letter l[2] = {Letter((Letter_)vp_range("a", 'a', 'c')), Letter((Letter_)vp_range("b", 'a', 'c'))};
    Word w(l, 2), v("ab");
    vp_check((w == v) == ((l[0] == 'a') & (l[1] == 'b')), "eq");
    vp_observe("len", w.length());
    vp_reach("eq");
}
VP_ENTRY(st_lev) {
    ErrorValues e;
    LevenshteinIndex ind;
    ind.insertWord(Word("abc"), 1);
    ind.insertWord(Word("abd"), 2);
    Letter l[2] = {Letter((Letter_)vp_range("a", 'a', 'd')), Letter((Letter_)vp_range("b", 'a', 'd'))};
    Word q(l, 2);
    IndexMatches m;
    ind.findWords(q, e, 150, m);
    vp_observe("n", m.size());
    vp_check(m.size() <= 2, "size");
}
VP_ENTRY(st_decode) {
    char t[4] = {(char)vp_u8("c"), (char)vp_u8("c"), (char)vp_u8("c"), 0};
    try {
        Word w(t);
        vp_observe("len", w.length());
        for (size_t i = 0; i < w.length(); i++) vp_observe("l", w[i]);
    } catch (std::runtime_error &) {
        vp_observe("rt", 1);
    } catch (std::invalid_argument &) {
        vp_observe("inv", 1);
    }
}
