// Prints the simple lower-case mapping of the installed ICU as ranges.
#include <cstdio>
#include <unicode/uchar.h>
#include <vector>
struct R { unsigned lo, hi, step; int delta; };
int main() {
    std::vector<R> v;
    for (unsigned c = 0; c <= 0x10ffff; c++) {
        int d = (int)u_tolower(c) - (int)c;
        if (!d) continue;
        if (!v.empty() && v.back().delta == d) {
            R &r = v.back();
            if (c == r.hi + 1 && (r.lo == r.hi || r.step == 1)) { r.hi = c; r.step = 1; continue; }
            if (c == r.hi + 2 && (r.lo == r.hi || r.step == 2)) { r.hi = c; r.step = 2; continue; }
        }
        v.push_back({c, c, 1, d});
    }
    printf("struct VpLower { uint32_t lo, hi, step; int32_t delta; };\nstatic const VpLower vp_lower[] = {\n");
    for (auto &r : v) printf("{0x%x,0x%x,%u,%d},\n", r.lo, r.hi, r.step, r.delta);
    printf("};\n#define VP_NLOWER %zu\n#define VP_TOLOWER %s\n", v.size(),
#define S2(x) #x
#define S(x) S2(x)
        S(u_tolower));
}
