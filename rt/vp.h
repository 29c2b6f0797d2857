// Harness interface. The same harness runs under the symbolic executor (inputs are symbolic) and natively
// (inputs are read from a case file) against the real library.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t vp_sym(const char *name, unsigned bits);
unsigned vp_choose_(const char *name, unsigned n);
void vp_assume_(bool c);
void vp_check_(bool c, const char *id);
void vp_observe_(const char *name, uint64_t v);
void vp_reach_(const char *label);
uint64_t vp_live(void);   // heap blocks currently allocated
uint64_t vp_maps(void);   // memory mappings currently held
uint64_t vp_files(void);  // stdio streams currently open
uint64_t vp_concretize(uint64_t v);
int vp_is_symbolic(uint64_t v);
int vp_is_undef(uint64_t v);
uint64_t vp_upper(uint64_t v);
uint64_t vp_ite(bool c, uint64_t a, uint64_t b); // c ? a : b without a branch
void vp_debug(const char *n, uint64_t v);
void vp_setdatadir(const char *v); // COLUMBUS_DATADIR; null unsets it
void vp_addfile(const char *path, const char *contents);
enum { VP_TMPFILE, VP_FTRUNCATE, VP_MMAP, VP_MUNMAP, VP_MADVISE, VP_ICONV_OPEN, VP_NFAULT };
void vp_fault(int kind, int nth); // make the nth call (0 based, from now) of that kind fail; -1: none
int vp_fault_hit(int kind);       // did the injected fault happen?
#ifdef __cplusplus
}
static inline uint8_t vp_u8(const char *n) { return (uint8_t)vp_sym(n, 8); }
static inline uint16_t vp_u16(const char *n) { return (uint16_t)vp_sym(n, 16); }
static inline uint32_t vp_u32(const char *n) { return (uint32_t)vp_sym(n, 32); }
static inline uint64_t vp_u64(const char *n) { return vp_sym(n, 64); }
static inline bool vp_bool(const char *n) { return vp_sym(n, 8) & 1; }
// symbolic value in [lo,hi]
static inline int vp_range(const char *n, int lo, int hi) {
    uint32_t v = (uint32_t)vp_sym(n, (uint32_t)(hi - lo) < 256 ? 8 : (uint32_t)(hi - lo) < 65536 ? 16 : 32);
    vp_assume_(v <= (uint32_t)(hi - lo));
    return lo + (int)v;
}
// one path per value in [0,n)
static inline unsigned vp_choose(const char *n, unsigned k) { return vp_choose_(n, k); }
static inline void vp_assume(bool c) { vp_assume_(c); }
static inline void vp_check(bool c, const char *id) { vp_check_(c, id); }
static inline void vp_observe(const char *n, uint64_t v) { vp_observe_(n, v); }
static inline void vp_reach(const char *l) { vp_reach_(l); }
#define VP_ENTRY(name) extern "C" __attribute__((visibility("default"), used, noinline)) void name()
#endif
