// Native side of the harness interface: runs cases (input assignments) against the real library.
// usage: native CASEFILE ; each case: "entry name=value ..." on one line. Prints one result line per case.
#include "vp.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iconv.h>
#include <iostream>
#include <map>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <atomic>

static std::map<std::string, uint64_t> *in;
static std::map<std::string, int> *cnt;
static FILE *out;
static long live_;
static uint64_t maps_, files_;
static int faultAt[VP_NFAULT] = {-1, -1, -1, -1, -1, -1}, faultCnt[VP_NFAULT], faultHit[VP_NFAULT];
static bool counting;
static bool faulty(int k) {
    if (faultAt[k] < 0) return false;
    bool r = faultCnt[k]++ == faultAt[k];
    if (r) faultHit[k] = 1;
    return r;
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void onM(const volatile void *, size_t) { if (counting) live_++; }
static void onF(const volatile void *p) { if (counting && p) live_--; }
#endif
struct Pause { bool s; Pause() : s(counting) { counting = false; } ~Pause() { counting = s; } };
static uint64_t look(const char *name, std::string *full = nullptr) {
    Pause p;
    std::string n = std::string(name) + "#" + std::to_string((*cnt)[name]++);
    for (char &c : n) if (c == ' ') c = '~'; // as in the case file
    auto it = in->find(n);
    if (full) *full = n;
    return it == in->end() ? 0 : it->second;
}
extern "C" {
uint64_t vp_sym(const char *name, unsigned bits) { uint64_t v = look(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
unsigned vp_choose_(const char *name, unsigned n) { unsigned v = look(name); return v < n ? v : 0; }
void vp_assume_(bool c) { if (!c) { fprintf(out, " ASSUME"); fflush(out); _exit(76); } }
void vp_check_(bool c, const char *id) { if (!c) { fprintf(out, " CHECK:%s", id); fflush(out); _exit(77); } }
void vp_observe_(const char *n, uint64_t v) { Pause p; fprintf(out, " %s=%llu", n, (unsigned long long)v); fflush(out); }
void vp_reach_(const char *) {}
uint64_t vp_live() { return (uint64_t)live_; }
uint64_t vp_maps() { return maps_; }
uint64_t vp_files() { return files_; }
uint64_t vp_concretize(uint64_t v) { return v; }
int vp_is_symbolic(uint64_t) { return 0; }
int vp_is_undef(uint64_t) { return 0; }
uint64_t vp_upper(uint64_t v) { return v; }
uint64_t vp_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void vp_debug(const char *n, uint64_t v) { fprintf(stderr, "%s = %llu\n", n, (unsigned long long)v); }
void vp_setdatadir(const char *v) { Pause p; if (v) setenv("COLUMBUS_DATADIR", v, 1); else unsetenv("COLUMBUS_DATADIR"); }
void vp_addfile(const char *path, const char *text) {
    Pause p;
    std::string s(path);
    if (s.empty() || s[0] == '/' || s.find("..") != std::string::npos) abort(); // only inside the scratch directory
    for (size_t i = 0; i < s.size(); i++) if (s[i] == '/') mkdir(s.substr(0, i).c_str(), 0755);
    FILE *f = fopen(path, "w");
    if (!f) abort();
    fputs(text, f);
    fclose(f);
}
void vp_fault(int k, int n) { faultAt[k] = n; faultCnt[k] = 0; faultHit[k] = 0; }
int vp_fault_hit(int k) { return faultHit[k]; }

FILE *__real_tmpfile();
int __real_fclose(FILE *);
int __real_ftruncate(int, off_t);
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_madvise(void *, size_t, int);
void *__real_mremap(void *, size_t, size_t, int, ...);
iconv_t __real_iconv_open(const char *, const char *);
FILE *__wrap_tmpfile() { if (faulty(VP_TMPFILE)) { errno = EMFILE; return nullptr; } FILE *f = __real_tmpfile(); if (f) files_++; return f; }
int __wrap_fclose(FILE *f) { if (f && counting) files_--; return __real_fclose(f); }
int __wrap_ftruncate(int fd, off_t n) { if (faulty(VP_FTRUNCATE)) { errno = ENOSPC; return -1; } return __real_ftruncate(fd, n); }
static std::map<void *, size_t> *mm;
static size_t pg(size_t n) { return (n + 4095) & ~(size_t)4095; }
void *__wrap_mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
    if (faulty(VP_MMAP)) { errno = ENOMEM; return MAP_FAILED; }
    // a guard page after the mapping: an access past its end must fault
    if (!a && l) {
        char *g = (char *)__real_mmap(nullptr, pg(l) + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (g != MAP_FAILED) { a = g; f |= MAP_FIXED; }
    }
    void *r = __real_mmap(a, l, p, f, fd, o);
    Pause ps;
    if (r != MAP_FAILED) { maps_++; (*mm)[r] = l; }
    return r;
}
int __wrap_munmap(void *a, size_t l) {
    if (faulty(VP_MUNMAP)) { errno = EINVAL; return -1; }
    Pause ps;
    auto it = mm->find(a);
    int r = __real_munmap(a, l);
    if (!r && it != mm->end() && pg(l) >= pg(it->second)) {
        maps_--;
        mm->erase(it);
        // keep the address range unusable: a stale pointer must fault, not hit a new mapping
        __real_mmap(a, pg(l), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    }
    return r;
}
void *__wrap_mremap(void *a, size_t o, size_t n, int fl, void *na) {
    if (faulty(VP_MMAP)) { errno = ENOMEM; return MAP_FAILED; }
    void *r = __real_mremap(a, o, n, fl, na);
    Pause ps;
    if (r != MAP_FAILED) { mm->erase(a); (*mm)[r] = n; }
    return r;
}
int __wrap_madvise(void *a, size_t l, int v) { if (faulty(VP_MADVISE)) { errno = EINVAL; return -1; } return __real_madvise(a, l, v); }
iconv_t __wrap_iconv_open(const char *t, const char *f) { if (faulty(VP_ICONV_OPEN)) { errno = EMFILE; return (iconv_t)-1; } return __real_iconv_open(t, f); }
}

static void warm() {
    char b[16];
    for (int k = 0; k < 2; k++) {
        iconv_t c = __real_iconv_open(k ? "UTF-8" : "UTF-16LE", k ? "UTF-16LE" : "UTF-8");
        char src[] = "ab";
        char *i = src, *o = b;
        size_t il = 2, ol = 16;
        iconv(c, &i, &il, &o, &ol);
        iconv_close(c);
    }
    FILE *f = __real_tmpfile();
    if (f) __real_fclose(f);
    std::ifstream s("/dev/null");
    std::string l;
    getline(s, l);
    try { throw std::string("x"); } catch (std::string &) {}
    strerror(5);
    strerror(100000);
}

int main(int argc, char **argv) {
    in = new std::map<std::string, uint64_t>();
    cnt = new std::map<std::string, int>();
    mm = new std::map<void *, size_t>();
    warm();
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks(onM, onF);
#endif
    int limit = argc > 2 ? atoi(argv[2]) : 20;
    std::ifstream cf(argv[1]);
    std::string line;
    int n = 0;
    while (std::getline(cf, line)) {
        int p[2];
        if (pipe(p)) return 1;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            out = fdopen(p[1], "w");
            setvbuf(out, (char *)malloc(4096), _IOFBF, 4096);
            int nul = open("/dev/null", O_WRONLY);
            if (!getenv("VP_SHOW")) { dup2(nul, 1); dup2(nul, 2); }
            std::istringstream is(line);
            std::string entry, kv;
            is >> entry;
            while (is >> kv) {
                size_t e = kv.rfind('=');
                (*in)[kv.substr(0, e)] = strtoull(kv.c_str() + e + 1, nullptr, 10);
            }
            void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
            if (!fn) _exit(78);
            std::string d = "case" + std::to_string(n);
            mkdir(d.c_str(), 0755);
            if (chdir(d.c_str())) _exit(79);
            struct rlimit rl = {4096 * 1024ul, 4096 * 1024ul};
            rl.rlim_max = RLIM_INFINITY;
            (void)rl;
            alarm(limit);
            counting = true;
            fn();
            counting = false;
            fprintf(out, " DONE");
            fflush(out);
            _exit(0);
        }
        close(p[1]);
        std::string res;
        char b[4096];
        ssize_t k;
        while ((k = read(p[0], b, sizeof b)) > 0) res.append(b, k);
        close(p[0]);
        int st;
        waitpid(pid, &st, 0);
        printf("%d %s %d%s\n", n, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), res.c_str());
        n++;
    }
    return 0;
}
