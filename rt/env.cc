// Environment models: iconv, ICU lower-casing, temporary files and mappings, environment, file lookup.
#include "vp.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iconv.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include "lower_table.h"
#include "share_files.h"

static int faultAt[VP_NFAULT] = {-1, -1, -1, -1, -1, -1}, faultCnt[VP_NFAULT], faultHit[VP_NFAULT];
static bool faulty(int k) {
    if (faultAt[k] < 0) return false;
    bool r = faultCnt[k]++ == faultAt[k];
    if (r) faultHit[k] = 1;
    return r;
}
static uint64_t nMaps, nFiles;
extern "C" {
void *vp_map_alloc(size_t);
void vp_map_free(void *);
size_t vp_map_size(void *);
void vp_fault(int k, int n) { faultAt[k] = n; faultCnt[k] = 0; faultHit[k] = 0; }
int vp_fault_hit(int k) { return faultHit[k]; }
uint64_t vp_maps() { return nMaps; }
uint64_t vp_files() { return nFiles; }

// ---- iconv: UTF-8 <-> UTF-16LE with glibc's behaviour on the way out (-1 on anything malformed or without room)
// a converter is an allocation, so that losing one is a leak and using a closed one an invalid access
static const char cdDecode = 1, cdEncode = 2;
static iconv_t converter(char kind) { char *c = (char *)malloc(1); *c = kind; return c; }
iconv_t iconv_open(const char *to, const char *from) {
    if (faulty(VP_ICONV_OPEN)) { errno = EMFILE; return (iconv_t)-1; }
    if (!strcmp(to, "UTF-16LE") && !strcmp(from, "UTF-8")) return converter(cdDecode);
    if (!strcmp(to, "UTF-8") && !strcmp(from, "UTF-16LE")) return converter(cdEncode);
    errno = EINVAL;
    return (iconv_t)-1;
}
int iconv_close(iconv_t c) { free(c); return 0; }
size_t iconv(iconv_t cd, char **inp, size_t *inl, char **outp, size_t *outl) {
    const char kind = *(const char *)cd;
    if (!inp || !*inp) return 0;
    const unsigned char *in = (const unsigned char *)*inp;
    unsigned char *out = (unsigned char *)*outp;
    size_t n = *inl, m = *outl, res = 0;
    int err = 0;
    while (n) {
        uint32_t c;
        size_t used;
        if (kind == cdDecode) {
            unsigned b = in[0];
            if (b < 0x80) { c = b; used = 1; }
            else if (b < 0xc2 || b > 0xf4) { err = EILSEQ; break; }
            else {
                used = vp_concretize(b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4);
                c = used == 2 ? b & 0x1f : used == 3 ? b & 0xf : b & 7;
                size_t i = 1;
                for (; i < used && i < n; i++) {
                    if ((in[i] & 0xc0) != 0x80) break;
                    c = c << 6 | (in[i] & 0x3f);
                }
                if (i < used) { err = i < n ? EILSEQ : EINVAL; break; }
                if ((used == 3 && c < 0x800) || (used == 4 && c < 0x10000) || c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) { err = EILSEQ; break; }
            }
            size_t need = vp_concretize(c >= 0x10000 ? 4 : 2);
            if (m < need) { err = E2BIG; break; }
            if (need == 2) { out[0] = c; out[1] = c >> 8; }
            else {
                uint32_t h = 0xd7c0 + (c >> 10), l = 0xdc00 + (c & 0x3ff);
                out[0] = h; out[1] = h >> 8; out[2] = l; out[3] = l >> 8;
            }
            out += need; m -= need;
        } else {
            if (n < 2) { err = EINVAL; break; }
            c = in[0] | in[1] << 8;
            used = 2;
            if (c >= 0xd800 && c < 0xe000) {
                if (c >= 0xdc00) { err = EILSEQ; break; }
                if (n < 4) { err = EINVAL; break; }
                uint32_t l = in[2] | in[3] << 8;
                if (l < 0xdc00 || l >= 0xe000) { err = EILSEQ; break; }
                c = ((c - 0xd7c0) << 10) + (l - 0xdc00);
                used = 4;
            }
            size_t need = vp_concretize(c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4);
            if (m < need) { err = E2BIG; break; }
            if (need == 1) out[0] = c;
            else {
                for (size_t i = need - 1; i > 0; i--) { out[i] = 0x80 | (c & 0x3f); c >>= 6; }
                out[0] = (need == 2 ? 0xc0 : need == 3 ? 0xe0 : 0xf0) | c;
            }
            out += need; m -= need;
        }
        in += used; n -= used;
    }
    if (err) { errno = err; res = (size_t)-1; }
    *inp = (char *)in; *inl = n; *outp = (char *)out; *outl = m;
    return res;
}

// ---- ICU: simple lower-case mapping, generated from the installed ICU
int32_t VP_TOLOWER(int32_t c) {
    uint32_t u = (uint32_t)c, r = u;
    if (!vp_is_symbolic(u)) {
        for (unsigned i = 0; i < VP_NLOWER; i++) {
            if (u < vp_lower[i].lo) break;
            if (u <= vp_lower[i].hi) { if ((u - vp_lower[i].lo) % vp_lower[i].step == 0) return (int32_t)(u + vp_lower[i].delta); break; }
        }
        return c;
    }
    uint64_t top = vp_upper(u);
    for (unsigned i = 0; i < VP_NLOWER; i++) {
        if (vp_lower[i].lo > top) break;
        // step is 1 or 2, ranges with step 2 start on a known parity
        bool in = (u >= vp_lower[i].lo) & (u <= vp_lower[i].hi) & ((vp_lower[i].step == 1) | (((u ^ vp_lower[i].lo) & 1) == 0));
        r = (uint32_t)vp_ite(in, u + vp_lower[i].delta, r);
    }
    return (int32_t)r;
}

// ---- temporary files and shared mappings
struct VFile { int used; size_t size; char *data; size_t cap; char *map; size_t maplen; };
static VFile vf[64];
struct VStream { int fd; };
FILE *tmpfile() {
    if (faulty(VP_TMPFILE)) { errno = EMFILE; return nullptr; }
    for (int i = 0; i < 64; i++)
        if (!vf[i].used) {
            vf[i].used = 1; vf[i].size = 0; vf[i].data = nullptr; vf[i].cap = 0; vf[i].map = nullptr; vf[i].maplen = 0;
            VStream *s = (VStream *)malloc(sizeof(VStream));
            s->fd = i + 100;
            nFiles++;
            return (FILE *)s;
        }
    errno = EMFILE;
    return nullptr;
}
FILE *tmpfile64() { return tmpfile(); }
int fileno(FILE *f) { return ((VStream *)f)->fd; }
static void dropData(VFile &v) { if (v.data) vp_map_free(v.data); v.data = nullptr; v.cap = 0; }
int fclose(FILE *f) {
    VStream *s = (VStream *)f;
    VFile &v = vf[s->fd - 100];
    v.used = 0;
    dropData(v);
    v.map = nullptr;
    nFiles--;
    free(s);
    return 0;
}
int ftruncate(int fd, long len) {
    if (faulty(VP_FTRUNCATE)) { errno = ENOSPC; return -1; }
    VFile &v = vf[fd - 100];
    if (fd < 100 || fd >= 164 || !v.used) { errno = EBADF; return -1; }
    v.size = len;
    return 0;
}
int ftruncate64(int fd, long len) { return ftruncate(fd, len); }
static size_t pg(size_t n) { return (n + 4095) & ~(size_t)4095; }
static VFile *ofMap(void *a) { for (int i = 0; i < 64; i++) if (vf[i].used && vf[i].map == a) return &vf[i]; return nullptr; }
void *mmap(void *, size_t len, int, int flags, int fd, long) {
    if (faulty(VP_MMAP) || !len) { errno = ENOMEM; return MAP_FAILED; }
    if (fd >= 0 && (fd < 100 || fd >= 164 || !vf[fd - 100].used)) { errno = EBADF; return MAP_FAILED; }
    size_t n = pg(len);
    if (fd >= 0 && pg(vf[fd - 100].size) < n) n = pg(vf[fd - 100].size);
    char *p = (char *)vp_map_alloc(n);
    nMaps++;
    if (fd >= 0) {
        VFile &v = vf[fd - 100];
        const char *src = v.map && vp_map_size(v.map) != (size_t)-1 ? v.map : v.data;
        size_t have = src == v.map && src ? vp_map_size(v.map) : v.cap;
        if (src) memcpy(p, src, have < n ? have : n);
        v.map = p;
        v.maplen = n;
    }
    return p;
}
void *mmap64(void *a, size_t l, int pr, int f, int fd, long o) { return mmap(a, l, pr, f, fd, o); }
int munmap(void *a, size_t len) {
    if (faulty(VP_MUNMAP)) { errno = EINVAL; return -1; }
    size_t have = vp_map_size(a);
    if (have == (size_t)-1) { errno = EINVAL; return -1; }
    if (pg(len) < have) return 0; // a tail stays mapped
    VFile *v = ofMap(a);
    if (v) {
        dropData(*v);
        v->data = (char *)vp_map_alloc(have);
        memcpy(v->data, a, have);
        v->cap = have;
        v->map = nullptr;
    }
    nMaps--;
    vp_map_free(a);
    return 0;
}
void *mremap(void *a, size_t oldlen, size_t newlen, int flags, ...) {
    if (faulty(VP_MMAP)) { errno = ENOMEM; return MAP_FAILED; }
    size_t have = vp_map_size(a);
    if (have == (size_t)-1) { errno = EINVAL; return MAP_FAILED; }
    VFile *v = ofMap(a);
    size_t n = pg(newlen);
    if (v && pg(v->size) < n) n = pg(v->size);
    char *p = (char *)vp_map_alloc(n);
    memcpy(p, a, have < n ? have : n);
    if (v) { v->map = p; v->maplen = n; }
    vp_map_free(a);
    return p;
}
int madvise(void *, size_t, int) { if (faulty(VP_MADVISE)) { errno = EINVAL; return -1; } return 0; }
int msync(void *, size_t, int) { return 0; }
int close(int) { return 0; }

// ---- environment and files
static const char *dataDir = VP_SHARE_DIR;
void vp_setdatadir(const char *v) { dataDir = v; }
char *getenv(const char *n) { return !strcmp(n, "COLUMBUS_DATADIR") ? (char *)dataDir : nullptr; }
char *secure_getenv(const char *n) { return getenv(n); }
static const char *extraPath[8], *extraText[8];
static int nExtra;
void vp_addfile(const char *p, const char *t) { extraPath[nExtra] = p; extraText[nExtra++] = t; }
const char *vp_file(const char *path) {
    for (int i = 0; i < nExtra; i++) if (!strcmp(extraPath[i], path)) return extraText[i];
    for (unsigned i = 0; i < sizeof vp_share / sizeof *vp_share; i++)
        if (!strcmp(vp_share[i].path, path)) return vp_share[i].text;
    return nullptr;
}
int stat(const char *path, struct stat *st) {
    if (!vp_file(path)) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = 0100644;
    st->st_size = strlen(vp_file(path));
    return 0;
}
int access(const char *path, int) { if (!vp_file(path)) { errno = ENOENT; return -1; } return 0; }
static long clk;
int gettimeofday(struct timeval *tv, void *) { clk += 1000; tv->tv_sec = clk / 1000000; tv->tv_usec = clk % 1000000; return 0; }
}
