#include "mem.h"

static Page *rawPage(unsigned n) {
    Page *p = (Page *)malloc(sizeof(Page) + n);
    p->rc = 1; p->n = n; p->ninit = 0; p->nsym = 0; p->sym = nullptr; p->init = nullptr;
    return p;
}
Page *pageNew(unsigned n, int fill) {
    Page *p = rawPage(n);
    memset(p->b, fill < 0 ? 0 : fill, n);
    p->ninit = fill < 0 ? 0 : n;
    return p;
}
Page *pageCopy(const Page *p) {
    Page *q = rawPage(p->n);
    memcpy(q->b, p->b, p->n);
    q->ninit = p->ninit;
    q->nsym = p->nsym;
    if (p->init) { q->init = (uint8_t *)malloc(PS / 8); memcpy(q->init, p->init, PS / 8); }
    if (p->nsym) { q->sym = (E *)malloc(sizeof(E) * p->n); memcpy(q->sym, p->sym, sizeof(E) * p->n); }
    return q;
}
void pageFree(Page *p) {
    if (p->sym) free(p->sym);
    if (p->init) free(p->init);
    free(p);
}
static Page *sharedPage(int fill) {
    static Page *z = nullptr, *u = nullptr;
    Page *&r = fill < 0 ? u : z;
    if (!r) { r = pageNew(PS, fill < 0 ? -1 : 0); r->rc = 1 << 28; }
    r->rc++;
    return r;
}
Obj *objNew(uint64_t size, ObjKind kind, int fill) {
    Obj *o = new Obj;
    o->rc = 1; o->kind = kind; o->size = size; o->site = nullptr;
    o->np = (size + PS - 1) / PS;
    o->pg = o->np ? (Page **)malloc(sizeof(Page *) * o->np) : nullptr;
    for (unsigned i = 0; i < o->np; i++) {
        unsigned n = i + 1 < o->np ? PS : size - (uint64_t)i * PS;
        o->pg[i] = n == PS && o->np > 1 && fill <= 0 ? sharedPage(fill) : pageNew(n, fill);
    }
    return o;
}
void objRel(Obj *o) {
    if (--o->rc) return;
    for (unsigned i = 0; i < o->np; i++) pageRel(o->pg[i]);
    free(o->pg);
    delete o;
}
ObjTable::~ObjTable() {
    for (auto c : ch) if (--c->rc == 0) {
        for (auto o : c->o) if (o) objRel(o);
        delete c;
    }
}
ObjTable::Chunk *ObjTable::own(uint32_t ci) {
    Chunk *c = ch[ci];
    if (c->rc > 1) {
        Chunk *d = new Chunk(*c);
        d->rc = 1;
        for (auto o : d->o) if (o) o->rc++;
        c->rc--;
        ch[ci] = c = d;
    }
    return c;
}
Obj *ObjTable::getw(uint32_t id) {
    Chunk *c = own(id >> 5);
    Obj *o = c->o[id & 31];
    if (o->rc > 1) {
        Obj *q = new Obj(*o);
        q->rc = 1;
        q->pg = q->np ? (Page **)malloc(sizeof(Page *) * q->np) : nullptr;
        for (unsigned i = 0; i < q->np; i++) { q->pg[i] = o->pg[i]; q->pg[i]->rc++; }
        o->rc--;
        c->o[id & 31] = o = q;
    }
    return o;
}
uint32_t ObjTable::add(Obj *o) {
    uint32_t id = n++;
    if ((id >> 5) >= ch.size()) { Chunk *c = new Chunk(); c->rc = 1; memset(c->o, 0, sizeof c->o); ch.push_back(c); }
    own(id >> 5)->o[id & 31] = o;
    return id;
}
void ObjTable::clear(uint32_t id) {
    Chunk *c = own(id >> 5);
    if (c->o[id & 31]) objRel(c->o[id & 31]);
    c->o[id & 31] = nullptr;
}
void ObjTable::popTo(uint32_t m) {
    while (n > m) { clear(n - 1); n--; }
}
