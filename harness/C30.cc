// @bound documents and queries of 3..4 (thorough 5) arbitrary ASCII bytes against the same text in the other case, with other and more white space; two-byte letters (Latin-1, Greek, Cyrillic) in both cases
// @time c30_query_t 850
// @time c30_text_t 850
#include "matcher.h"
#include "ColumbusHelpers.hh"

static void identical(const MatchResults &a, const MatchResults &b, const char *what) {
    vp_check(a.size() == b.size(), what);
    for (size_t i = 0; i < a.size(); i++) vp_check((a.getDocumentID(i) == b.getDocumentID(i)) & (a.getRelevancy(i) == b.getRelevancy(i)), what);
}
// n letters, blanks or tabs
static void text(const char *name, char *b, int n) {
    for (int i = 0; i < n; i++) {
        uint8_t c = vp_u8(name);
        vp_assume(((c >= 'a') & (c <= 'c')) | ((c >= 'A') & (c <= 'C')) | (c == ' ') | (c == '\t'));
        b[i] = (char)c;
    }
    b[n] = 0;
}
static bool blank(char c) { return (c == ' ') | (c == '\t'); }
// the same text in the other case, white space replaced
static void vary(const char *a, char *b, int n, bool spaces) {
    int k = 0;
    if (spaces) b[k++] = '\n';
    for (int i = 0; i < n; i++) {
        uint8_t c = (uint8_t)a[i];
        bool w = blank(a[i]);
        if (spaces) b[k++] = (char)vp_ite(w, '\r', c ^ 32);
        else b[k++] = (char)vp_ite(w, c, c ^ 32);
    }
    if (spaces) { b[k++] = ' '; b[k++] = '\t'; }
    b[k] = 0;
}
static void fill(Matcher &m, const char *t, const char *u) {
    Corpus c;
    Document d(1), e(2);
    d.addText(Word("f"), t);
    e.addText(Word("f"), u);
    c.addDocument(d);
    c.addDocument(e);
    m.index(c);
}
static void query(int n) {
    Matcher m;
    char q[10], v[16];
    int spaces = vp_choose("spaces", 2);
    fill(m, "ab Ca", "BBB abc");
    text("query", q, n);
    vary(q, v, n, spaces);
    MatchResults r = m.match(q);
    identical(r, m.match(v), "case and white space of a query do not matter");
    identical(r, m.match(std::string(v)), "a query may be given as any kind of text");
    identical(r, m.match(splitToWords(q)), "a query may be given as a list of words");
    SearchParameters p;
    identical(r, m.match(v, p), "default parameters are the defaults");
    identical(m.onlineMatch(splitToWords(q), Word("f")), m.onlineMatch(splitToWords(v), Word("F")), "case does not matter to an online search");
    vp_reach("query");
}
VP_ENTRY(c30_query) { query(3); vp_reach("same"); }
VP_ENTRY(c30_query_t) { query(5); vp_reach("same"); }
static void texts(int n) {
    Matcher a, b;
    char t[10], v[16];
    int spaces = vp_choose("spaces", 2);
    text("text", t, n);
    vary(t, v, n, spaces);
    fill(a, t, "abc");
    fill(b, v, "ABC");
    static const char *const q[] = {"ab", "b", "cab bc"};
    for (int i = 0; i < 3; i++) identical(a.match(q[i]), b.match(q[i]), "case and white space of a document do not matter");
    SearchParameters p;
    p.getResultFilter().addNewSubTerm(Word("F"), Word("AB"));
    SearchParameters o;
    o.getResultFilter().addNewSubTerm(Word("f"), Word("ab"));
    identical(a.match("ab", o), b.match("ab", p), "case does not matter to a filter");
    vp_reach("text");
}
VP_ENTRY(c30_text) { texts(3); vp_reach("same"); }
VP_ENTRY(c30_text_t) { texts(5); vp_reach("same"); }
// letters beyond ASCII that come in two cases
VP_ENTRY(c30_letters) {
    Matcher m;
    char lo[3] = {0}, up[3] = {0};
    Letter_ l = 0, u = 0;
    switch (vp_choose("alphabet", 3)) {
    case 0: u = letter("latin", 0xc0, 0xde); vp_assume(u != 0xd7); l = u + 32; break;
    case 1: u = letter("greek", 0x391, 0x3a9); vp_assume(u != 0x3a2); l = u + 32; break;
    case 2: u = letter("cyrillic", 0x410, 0x42f); l = u + 32; break;
    }
    lo[0] = (char)(0xc0 | l >> 6); lo[1] = (char)(0x80 | (l & 63));
    up[0] = (char)(0xc0 | u >> 6); up[1] = (char)(0x80 | (u & 63));
    vp_check(Word(lo) == Word(up), "words differing in case are equal");
    Corpus c;
    Document d(1);
    d.addText(Word("f"), up);
    d.addText(Word(up), lo);
    vp_check(d.fieldCount() == 2, "fields are named without regard to case");
    d.addText(Word(lo), lo);
    vp_check(d.fieldCount() == 2, "fields are named without regard to case");
    c.addDocument(d);
    m.index(c);
    MatchResults r = m.match(lo);
    identical(r, m.match(up), "case of a query does not matter");
    vp_check(r.size() == 1 && close_(r.getRelevancy(0), 1.0), "a word is found in any case");
    vp_check(m.onlineMatch(splitToWords(up), Word(lo)).getRelevancy(0) > 100, "a word is found exactly in any case");
    vp_reach("letters");
}
