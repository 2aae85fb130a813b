// Symbolic program state: byte-granular copy-on-write memory objects, frames, threads.
#pragma once
#include "expr.h"
#include <memory>
#include <map>
#include <array>

struct AggV;
struct Val {
    uint64_t c = 0; Expr *e = nullptr; const AggV *agg = nullptr;
    Val() {}
    Val(uint64_t v) : c(v) {}
    Val(Expr *x) { if (x->k == KConst) c = x->c; else e = x; }
    bool conc() const { return !e; }
};
struct AggV { std::vector<Val> v; };

enum { ST_CONC = 0, ST_SYM = 1, ST_UNINIT = 2 };
enum ObjKind : uint8_t { OHeap, OStack, OGlobal, OFunc };
static const int MAXT = 8;
struct Shadow { uint8_t wt = 255; uint32_t wc = 0; std::array<uint32_t, MAXT> rc{}; };

struct Obj {
    int rc = 1; uint32_t size = 0; ObjKind kind = OHeap; bool ro = false; bool norace = false;
    std::vector<uint8_t> d, st; std::vector<Expr *> sym;
    std::vector<Shadow> shadow;
    const char *name = "";
};
struct Page { int rc = 1; Obj *o[64] = {}; };

struct Mem {
    std::vector<Page *> pages; uint32_t next = 1;
    static void unref(Obj *o) { if (o && --o->rc == 0) delete o; }
    static void unrefP(Page *p) { if (p && --p->rc == 0) { for (auto o : p->o) unref(o); delete p; } }
    Mem() {}
    Mem(const Mem &m) : pages(m.pages), next(m.next) { for (auto p : pages) if (p) ++p->rc; }
    Mem &operator=(const Mem &) = delete;
    ~Mem() { for (auto p : pages) unrefP(p); }
    Obj *get(uint32_t id) const { size_t p = id >> 6; if (p >= pages.size() || !pages[p]) return nullptr; return pages[p]->o[id & 63]; }
    Page *wpage(size_t p) {
        if (p >= pages.size()) pages.resize(p + 1, nullptr);
        if (!pages[p]) pages[p] = new Page();
        else if (pages[p]->rc > 1) { Page *n = new Page(); for (int i = 0; i < 64; i++) { n->o[i] = pages[p]->o[i]; if (n->o[i]) ++n->o[i]->rc; } --pages[p]->rc; pages[p] = n; }
        return pages[p];
    }
    Obj *getW(uint32_t id) {
        Page *p = wpage(id >> 6); Obj *&o = p->o[id & 63];
        if (!o) return nullptr;
        if (o->rc > 1) { Obj *n = new Obj(*o); n->rc = 1; --o->rc; o = n; }
        return o;
    }
    uint32_t add(Obj *o) { uint32_t id = next++; Page *p = wpage(id >> 6); p->o[id & 63] = o; return id; }
    void erase(uint32_t id) { Page *p = wpage(id >> 6); unref(p->o[id & 63]); p->o[id & 63] = nullptr; }
};
static const uint64_t OBJ_BASE = 0x10000;  // offset of the first byte inside an object's 4 GiB slot
static inline uint64_t mkAddr(uint32_t id, uint64_t off = 0) { return ((uint64_t)id << 32) | (OBJ_BASE + off); }
static inline uint32_t addrId(uint64_t a) { return (uint32_t)(a >> 32); }
static inline int64_t addrOff(uint64_t a) { return (int64_t)(a & 0xffffffffull) - (int64_t)OBJ_BASE; }
