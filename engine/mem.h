// Copy-on-write, object-based memory with per-byte symbolic contents.
#pragma once
#include "expr.h"
#include <cstring>

static const uint64_t OBJ_OFF = 4096;
enum Region { R_GLOBAL = 1, R_HEAP = 2, R_STACK = 3, R_FUNC = 4 };
enum ObjKind : uint8_t { K_GLOBAL, K_CONST, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_MAP, K_FUNC };
static inline uint64_t mkAddr(unsigned region, uint64_t id) { return (uint64_t)region << 56 | id << 32 | OBJ_OFF; }
static inline unsigned addrRegion(uint64_t a) { return a >> 56; }
static inline uint32_t addrId(uint64_t a) { return (a >> 32) & 0xffffff; }

static const unsigned PS = 256;
struct Page {
    int rc;
    uint16_t n, ninit;
    uint16_t nsym;
    E *sym;        // n entries when present
    uint8_t *init; // bitmap; null when all or none initialised
    uint8_t b[1];
    bool isInit(unsigned i) const { return init ? init[i >> 3] >> (i & 7) & 1 : ninit == n; }
};
Page *pageNew(unsigned n, int fill); // fill: -1 uninitialised, otherwise byte value
Page *pageCopy(const Page *p);
void pageFree(Page *p);
static inline void pageRel(Page *p) { if (--p->rc == 0) pageFree(p); }

struct Obj {
    int rc;
    ObjKind kind;
    uint64_t size;
    Page **pg;
    unsigned np;
    const void *site; // allocating instruction
};
Obj *objNew(uint64_t size, ObjKind kind, int fill);
void objRel(Obj *o);

struct ObjTable {
    struct Chunk { int rc; Obj *o[32]; };
    std::vector<Chunk *> ch;
    uint32_t n = 0;
    ObjTable() {}
    ObjTable(const ObjTable &t) : ch(t.ch), n(t.n) { for (auto c : ch) c->rc++; }
    ObjTable &operator=(const ObjTable &t) = delete;
    ~ObjTable();
    Obj *get(uint32_t id) const { return id < n ? ch[id >> 5]->o[id & 31] : nullptr; }
    Obj *getw(uint32_t id);       // private copy of the object header
    uint32_t add(Obj *o);
    void clear(uint32_t id);      // drop the object, keep the id used
    void popTo(uint32_t newN);    // release ids >= newN for reuse
private:
    Chunk *own(uint32_t ci);
};
static inline Page *pageW(Obj *o, unsigned i) {
    Page *p = o->pg[i];
    if (p->rc > 1) { Page *q = pageCopy(p); p->rc--; o->pg[i] = p = q; }
    return p;
}
