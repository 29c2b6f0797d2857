// @bound number pad: every digit 2-9 against every 16-bit letter, in both orders
// @bound keyboard: all pairs of two letters below 512 and all pairs of a letter of the layout and any 16-bit letter
// @bound accents: one letter of every line of every shipped file against every 16-bit letter; all pairs within every line, with the files loaded in either order, alone, together, or with the keyboard
// @time c12_accents 300
#include "common.h"
#include "ErrorValues.hh"
#include "share_files.h"
#include <cstring>

static const char *padKeys[] = {"", "", "abc", "def", "ghi", "jkl", "mno", "pqrs", "tuv", "wxyz"};
static int padRef(int digit, Letter_ l) {
    if (l == '0' + digit) return 0;
    int c = 100;
    int r = (digit - 1) / 3, q = (digit - 1) % 3;
    for (int k = 2; k <= 9; k++) {
        int r2 = (k - 1) / 3, q2 = (k - 1) % 3;
        int d = (r > r2 ? r - r2 : r2 - r) + (q > q2 ? q - q2 : q2 - q);
        if (d > 1) continue;
        bool on = false;
        for (const char *s = padKeys[k]; *s; s++) on = on | (l == (Letter_)*s);
        c = (int)(uint32_t)vp_ite(on, d ? 50 : 0, (uint32_t)c);
    }
    return (int)(uint32_t)vp_ite(l == '0' + digit, 0, (uint32_t)c);
}
VP_ENTRY(c12_pad) {
    ErrorValues e;
    e.addNumberpadErrors();
    Letter_ l = (Letter_)vp_u16("letter");
    int d = 2 + vp_choose("digit", 8);
    bool flip = vp_choose("flip", 2);
    vp_check(e.getSubstituteError(Letter(flip ? l : '0' + d), Letter(flip ? '0' + d : l)) == padRef(d, l), "number pad costs follow the key layout");
    vp_reach("pad");
}
static const Letter_ keys[4][12] = {
    {'1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '+', 0},
    {'q', 'w', 'e', 'r', 't', 'y', 'u', 'i', 'o', 'p', 0xe5, 0},
    {'a', 's', 'd', 'f', 'g', 'h', 'j', 'k', 'l', 0xf6, 0xe4, '\''},
    {'z', 'x', 'c', 'v', 'b', 'n', 'm', ',', '.', '-', 0, 0}};
static const int rowLen[] = {11, 11, 12, 10};
// 0: not neighbours, 1: may be covered (bottom row), 2: must be covered
static int neighbours(Letter_ x, Letter_ y) {
    int r = 0;
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < rowLen[i]; j++) {
            auto hit = [&](Letter_ a, Letter_ b, int how) {
                r = (int)(uint32_t)vp_ite(((x == a) & (y == b)) | ((x == b) & (y == a)), how, (uint32_t)r);
            };
            if (j + 1 < rowLen[i]) hit(keys[i][j], keys[i][j + 1], i < 3 ? 2 : 1);
            if (i < 3 && j < rowLen[i + 1]) hit(keys[i][j], keys[i + 1][j], 2);
            if (i < 3 && j > 0 && j - 1 < rowLen[i + 1]) hit(keys[i][j], keys[i + 1][j - 1], 2);
        }
    return r;
}
static void checkKeys(ErrorValues &e, Letter_ x, Letter_ y) {
    int c = e.getSubstituteError(Letter(x), Letter(y)), n = neighbours(x, y);
    bool same = x == y;
    vp_check((c == 30) | (c == (int)(uint32_t)vp_ite(same, 0, 100)), "a pair of keys costs the typo error or the default error");
    vp_check((c != 30) | (n != 0), "only neighbouring keys have a reduced cost");
    vp_check((c == 30) | (n != 2), "neighbouring keys have a reduced cost");
}
VP_ENTRY(c12_keyboard) {
    ErrorValues e;
    e.addKeyboardErrors();
    int base = 16 * vp_choose("band", 32);
    Letter_ x = letter("x", base, base + 15), y = letter("y", 0, 511);
    bool flip = vp_choose("flip", 2);
    checkKeys(e, flip ? y : x, flip ? x : y);
    vp_reach("keyboard");
}
VP_ENTRY(c12_keyboard_any) {
    ErrorValues e;
    e.addKeyboardErrors();
    Letter_ y = (Letter_)vp_u16("letter");
    int i = vp_choose("row", 4), j = vp_choose("key", rowLen[i]);
    checkKeys(e, keys[i][j], y);
    vp_reach("any");
}
static int lines(const char *suffix, Word *out, int max) {
    int n = 0;
    for (auto &f : vp_share) {
        const char *p = strrchr(f.path, '/');
        if (!p || strncmp(p + 1, suffix, strlen(suffix))) continue;
        string text(f.text);
        size_t b = 0;
        while (b < text.size()) {
            size_t e = text.find('\n', b);
            if (e == string::npos) e = text.size();
            Word w(text.substr(b, e - b));
            if (w.length() && n < max) out[n++] = w;
            b = e + 1;
        }
    }
    return n;
}
static int load(ErrorValues &e, Word *w, unsigned how) {
    int n = 0;
    if (how == 0 || how == 2 || how == 4) n += lines("latin", w + n, 64 - n);
    if (how == 1 || how == 2 || how == 3 || how == 4) n += lines("greek", w + n, 64 - n);
    if (how == 3) n += lines("latin", w + n, 64 - n);
    int t = throws<std::exception>([&] {
        switch (how) {
        case 0: e.addAccents(latinAccentGroup); break;
        case 1: e.addAccents(greekAccentGroup); break;
        case 2: e.addAccents(latinAccentGroup); e.addAccents(greekAccentGroup); break;
        case 3: e.addAccents(greekAccentGroup); e.addAccents(latinAccentGroup); break;
        default: e.addStandardErrors();
        }
    });
    vp_check(t == NOTHROW, "the accent tables load without conflict");
    return n;
}
VP_ENTRY(c12_lines) {
    Word w[64];
    ErrorValues e;
    unsigned how = vp_choose("tables", 5);
    int n = load(e, w, how);
    vp_check(n > 5, "the accent files are there");
    bool ok = true, in = true;
    for (int i = 0; i < n; i++)
        for (size_t a = 0; a < w[i].length(); a++) {
            in = in & e.isInGroup(w[i][a]);
            for (size_t b = 0; b < w[i].length(); b++) ok = ok & (e.getSubstituteError(w[i][a], w[i][b]) == (w[i][a] == w[i][b] ? 0 : 30));
        }
    vp_check(ok, "every two letters of one line cost the group error");
    vp_check(in, "every letter of a line is in a group");
    if (how == 4) {
        bool k = true;
        for (int i = 0; i < 3; i++) for (int j = 0; j + 1 < rowLen[i]; j++) k = k & (e.getSubstituteError(Letter(keys[i][j]), Letter(keys[i][j + 1])) == 30);
        vp_check(k, "the standard errors include the keyboard");
    }
    vp_reach("lines");
}
VP_ENTRY(c12_accents) {
    Word w[64];
    ErrorValues e;
    Letter_ y = (Letter_)vp_u16("letter");
    int n = load(e, w, 2);
    int i = vp_choose("line", n);
    unsigned k = vp_choose("first", 2) ? 0 : (unsigned)w[i].length() - 1;
    Letter_ x = w[i][k];
    bool in = false, any = false;
    for (size_t a = 0; a < w[i].length(); a++) in = in | (w[i][(unsigned)a] == Letter(y));
    for (int l = 0; l < n; l++) for (size_t a = 0; a < w[l].length(); a++) any = any | (w[l][(unsigned)a] == Letter(y));
    vp_check(e.getSubstituteError(Letter(x), Letter(y)) == (int)(uint32_t)vp_ite(x == y, 0, vp_ite(in, 30, 100)), "a letter costs the group error against exactly the other letters of its line");
    vp_reach("accents");
}
