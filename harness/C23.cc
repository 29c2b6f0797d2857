// @bound COLUMBUS_DATADIR of 0..4 (thorough 6) letters out of 'a', 'b', '.' and '/' in every combination without empty components, unset, or the compiled-in directory; file present or missing there, decoys with other contents in every other place it might be looked for
// @bound arbitrary bytes (0..5, thorough 7) as the value, no file present
// @assume the compiled-in data directory ends in a slash; file names are compared byte by byte (no normalisation of paths)
#include "common.h"
#include "ColumbusSlow.hh"
#include "ErrorValues.hh"
#include <cstring>

#define LATIN "latinAccentedLetterGroups.txt"
#define GREEK "greekAccentedLetterGroups.txt"
static bool loads(ErrorValues &e, accentGroups g) {
    int t = throws<std::runtime_error>([&] { e.addAccents(g); });
    vp_check(t != OTHER, "only runtime errors are raised when loading accents");
    return t == NOTHROW;
}
static int cost(ErrorValues &e, char a, char b) { return e.getSubstituteError(Letter(a), Letter(b)); }
static void usable(ErrorValues &e) {
    vp_check(cost(e, 'x', 'y') == 12 && cost(e, 'x', 'z') == 100, "loading leaves costs that were set alone");
    e.setGroupError(Word("45"), 7);
    vp_check(cost(e, '4', '5') == 7 && e.isInGroup(Letter('5')) && cost(e, '4', '6') == 100, "error values stay usable");
}
// "mn" are together in the file that should be found, others pairs in decoys
static void checkLoaded(ErrorValues &e, bool want, bool got) {
    vp_check(got == want, "accents are loaded exactly if the file is where the configuration says");
    vp_check(cost(e, 'm', 'n') == (want ? ErrorValues::getDefaultGroupError() : 100), "accents come from the right file");
    vp_check(cost(e, 'm', 'o') == 100 && cost(e, 'n', 'o') == 100, "accents come from no other file");
    usable(e);
}
static void directory(int max) {
    char dir[8], slash[64], noSlash[64], dbl[64];
    int n = vp_choose("length", max + 1);
    for (int i = 0; i < n; i++) {
        dir[i] = "ab./"[vp_choose("letter", 4)];
        if (dir[i] == '/') vp_assume(i > 0 && dir[i - 1] != '/');
        if (dir[i] == '.') vp_assume(i > 0 && (dir[i - 1] == 'a' || dir[i - 1] == 'b'));
    }
    dir[n] = 0;
    char *value = new char[n + 1]; // exactly as long as the value
    memcpy(value, dir, n + 1);
    accentGroups g = vp_choose("greek", 2) ? greekAccentGroup : latinAccentGroup;
    const char *base = g == greekAccentGroup ? GREEK : LATIN;
    bool ends = n > 0 && dir[n - 1] == '/';
    bool present = vp_choose("present", 2) && n > 0;
    strcpy(slash, dir); strcat(slash, ends ? "" : "/"); strcat(slash, base);
    strcpy(noSlash, dir); strcat(noSlash, base);
    strcpy(dbl, dir); strcat(dbl, "//"); strcat(dbl, base);
    if (present) vp_addfile(slash, "mn\n");
    // decoys
    if (!ends && n) vp_addfile(noSlash, "mo\n");
    string inst = string(COLUMBUS_DATADIR) + base;
    if (n) vp_addfile(inst.c_str(), "no\n");
    vp_addfile(base, "mo\n");
    vp_setdatadir(value);
    ErrorValues e;
    e.setGroupError(Word("xy"), 12);
    checkLoaded(e, present, loads(e, g));
    string f = findDataFile(base);
    vp_check(f == (present ? slash : ""), "the path found is the directory, one slash and the name");
    vp_setdatadir("c"); // the next lookup follows the configuration then in force
    vp_addfile("c/" LATIN, "pq\n");
    ErrorValues e2;
    vp_check(loads(e2, latinAccentGroup) && cost(e2, 'p', 'q') == 30, "every lookup follows the configuration in force");
    vp_setdatadir(nullptr);
    delete[] value;
}
VP_ENTRY(c23_directory) { directory(4); vp_reach("directory"); }
VP_ENTRY(c23_directory_t) { directory(6); vp_reach("directory"); }
VP_ENTRY(c23_unset) {
    vp_setdatadir(nullptr);
    bool present = vp_choose("present", 2);
    accentGroups g = vp_choose("greek", 2) ? greekAccentGroup : latinAccentGroup;
    const char *base = g == greekAccentGroup ? GREEK : LATIN;
    string inst = string(COLUMBUS_DATADIR) + base, other = string(COLUMBUS_DATADIR) + (g == greekAccentGroup ? LATIN : GREEK);
    if (present) vp_addfile(inst.c_str(), "mn\n");
    vp_addfile(base, "mo\n");
    vp_addfile(other.c_str(), "no\n");
    ErrorValues e;
    e.setGroupError(Word("xy"), 12);
    checkLoaded(e, present, loads(e, g));
    vp_check(findDataFile(base) == (present ? inst : ""), "the path found is the compiled-in directory and the name");
    vp_reach("unset");
}
// any value at all: the value is read only within its text
static void anything(int max) {
    int n = vp_choose("length", max + 1);
    char *value = new char[n + 1];
    for (int i = 0; i < n; i++) { value[i] = (char)vp_u8("byte"); vp_assume(value[i] != 0); }
    value[n] = 0;
    if (n) vp_assume(value[0] != '/' && value[0] != 'v'); // stay below the scratch directory
    for (int i = 0; i < n; i++) vp_assume(value[i] != '.');
    vp_setdatadir(value);
    ErrorValues e;
    e.setGroupError(Word("xy"), 12);
    checkLoaded(e, false, loads(e, latinAccentGroup));
    vp_check(findDataFile(LATIN).empty(), "a file that does not exist is not found");
    vp_setdatadir(nullptr);
    delete[] value;
}
VP_ENTRY(c23_anything) { anything(5); vp_reach("anything"); }
VP_ENTRY(c23_anything_t) { anything(7); vp_reach("anything"); }
// standard errors with one of the files missing
VP_ENTRY(c23_standard) {
    bool latin = vp_choose("latin", 2), greek = vp_choose("greek", 2), slash = vp_choose("slash", 2);
    vp_setdatadir(slash ? "d/" : "d");
    if (latin) vp_addfile("d/" LATIN, "mn\n\nrs\n");
    if (greek) vp_addfile("d/" GREEK, "vw");
    ErrorValues e;
    e.setGroupError(Word("xy"), 12);
    int t = throws<std::runtime_error>([&] { e.addStandardErrors(); });
    vp_check(t == (latin && greek ? NOTHROW : THROWS), "standard errors need both files");
    vp_check(cost(e, 'r', 's') == 100 || latin, "only files that exist are loaded");
    if (t == NOTHROW) vp_check(cost(e, 'r', 's') == 30 && cost(e, 'v', 'w') == 30 && cost(e, 'm', 'n') == 30, "all files are loaded");
    vp_setdatadir(nullptr);
    vp_reach("standard");
}
