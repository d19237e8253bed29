// Copy-on-write memory: objects with concrete 64-bit base addresses
// (id << 32 | 0x10000), contents in 256-byte pages of concrete, symbolic or
// uninitialised bytes.
#pragma once
#include "expr.h"
#include <algorithm>

static const u64 kObjOff = 0x10000;
static const u32 kStackIdBase = 0x40000000u;
static const u32 kFuncIdBase = 0x60000000u;

struct Page {
  u32 ref; 
  u64 nonconc[4];  // 1: not concrete
  Expr **sym;      // entry null and nonconc bit set: uninitialised
  u8 data[256];
  bool isnc(unsigned i) const { return (nonconc[i >> 6] >> (i & 63)) & 1; }
};
struct PageDir { u32 ref; void *p[64]; };

inline Page *newPage(bool undef) {
  Page *p = (Page *)malloc(sizeof(Page)); p->ref = 1; p->sym = nullptr;
  for (u64 &w : p->nonconc) w = undef ? ~0ull : 0; memset(p->data, 0, 256); return p;
}
inline Page *clonePage(Page *o) {
  Page *p = (Page *)malloc(sizeof(Page)); memcpy(p, o, sizeof(Page)); p->ref = 1;
  if (o->sym) { p->sym = (Expr **)malloc(256 * sizeof(Expr *)); memcpy(p->sym, o->sym, 256 * sizeof(Expr *)); }
  return p;
}
inline void unrefPage(Page *p) { if (p && --p->ref == 0) { free(p->sym); free(p); } }
inline int levelFor(u32 size) { int l = 0; u64 cap = 256; while (cap < size) { cap *= 64; ++l; } return l; }
inline void unrefTree(void *t, int lvl) {
  if (!t) return;
  if (lvl == 0) { unrefPage((Page *)t); return; }
  PageDir *d = (PageDir *)t;
  if (--d->ref == 0) { for (void *c : d->p) unrefTree(c, lvl - 1); free(d); }
}
inline void refTree(void *t, int lvl) { if (t) { if (lvl == 0) ((Page *)t)->ref++; else ((PageDir *)t)->ref++; } }

enum ObjKind : u8 { KNone, KHeapNew, KHeapNewArr, KMalloc, KGlobal, KStack };
struct Obj { u32 size; ObjKind kind; bool alive, ro, zero; u8 lvl; bool symsz; void *root; };

struct Chunk { u32 ref; Obj o[64]; };

struct ObjTable {
  std::vector<Chunk *> ch; u32 n = 0;
  ObjTable() {}
  ObjTable(const ObjTable &t) : ch(t.ch), n(t.n) { for (Chunk *c : ch) c->ref++; }
  ObjTable &operator=(const ObjTable &t) = delete;
  ~ObjTable() { for (Chunk *c : ch) drop(c); }
  static void drop(Chunk *c) { if (--c->ref == 0) { for (Obj &o : c->o) if (o.root) unrefTree(o.root, o.lvl); free(c); } }
  const Obj *get(u32 i) const { return i < n ? &ch[i >> 6]->o[i & 63] : nullptr; }
  Obj *mut(u32 i) {
    Chunk *&c = ch[i >> 6];
    if (c->ref > 1) {
      Chunk *d = (Chunk *)malloc(sizeof(Chunk)); memcpy(d, c, sizeof(Chunk)); d->ref = 1;
      for (Obj &o : d->o) refTree(o.root, o.lvl);
      c->ref--; c = d;
    }
    return &c->o[i & 63];
  }
  u32 add() {
    if ((n & 63) == 0 && (n >> 6) == ch.size()) { Chunk *c = (Chunk *)calloc(1, sizeof(Chunk)); c->ref = 1; ch.push_back(c); }
    return n++;
  }
};

struct Memory {
  ObjTable heap, stack;
  Memory() { heap.add(); }  // id 0: null page, never alive
  static u64 addrOf(u32 id) { return ((u64)id << 32) | kObjOff; }
  const Obj *find(u64 addr, u64 *off) const {
    u32 id = addr >> 32; *off = (addr & 0xffffffffu) - kObjOff;
    if (id >= kFuncIdBase) return nullptr;
    const Obj *o = id >= kStackIdBase ? stack.get(id - kStackIdBase) : heap.get(id);
    if (!o || !o->alive) return nullptr;
    return o;
  }
  const Obj *findAny(u64 addr) const {
    u32 id = addr >> 32; if (id >= kFuncIdBase) return nullptr;
    return id >= kStackIdBase ? stack.get(id - kStackIdBase) : heap.get(id);
  }
  Obj *mutObj(u64 addr) { u32 id = addr >> 32; return id >= kStackIdBase ? stack.mut(id - kStackIdBase) : heap.mut(id); }
  void initObj(Obj *o, u32 size, ObjKind k, bool zero) {
    o->size = size; o->kind = k; o->alive = true; o->ro = false; o->zero = zero; o->lvl = levelFor(size); o->root = nullptr;
  }
  u64 alloc(u32 size, ObjKind k, bool zero) { u32 id = heap.add(); initObj(heap.mut(id), size, k, zero); return addrOf(id); }
  u64 allocStack(u32 size) { u32 id = stack.add(); Obj *o = stack.mut(id); if (o->root) { unrefTree(o->root, o->lvl); o->root = nullptr; } initObj(o, size, KStack, false); return addrOf(kStackIdBase + id); }
  void popStack(u32 to) {
    while (stack.n > to) { Obj *o = stack.mut(stack.n - 1); if (o->root) unrefTree(o->root, o->lvl); o->root = nullptr; o->alive = false; stack.n--; }
  }
  void kill(u64 addr) { Obj *o = mutObj(addr); o->alive = false; if (o->root) unrefTree(o->root, o->lvl); o->root = nullptr; }
  const Page *rpage(const Obj *o, u32 off) const {
    void *t = o->root;
    for (int l = o->lvl; l > 0 && t; --l) t = ((PageDir *)t)->p[(off >> (8 + 6 * (l - 1))) & 63];
    return (const Page *)t;
  }
  Page *wpage(Obj *o, u32 off) {  // o from mutObj
    void **t = &o->root;
    for (int l = o->lvl; l > 0; --l) {
      PageDir *d = (PageDir *)*t;
      if (!d) { d = (PageDir *)calloc(1, sizeof(PageDir)); d->ref = 1; *t = d; }
      else if (d->ref > 1) { PageDir *e = (PageDir *)malloc(sizeof(PageDir)); memcpy(e, d, sizeof(PageDir)); e->ref = 1; for (void *c : e->p) refTree(c, l - 1); d->ref--; *t = e; d = e; }
      t = &d->p[(off >> (8 + 6 * (l - 1))) & 63];
    }
    Page *p = (Page *)*t;
    if (!p) { p = newPage(!o->zero); *t = p; }
    else if (p->ref > 1) { Page *q = clonePage(p); p->ref--; *t = q; p = q; }
    return p;
  }
  // Cell access.
  struct Cell { Expr *e; u8 v; bool undef; };
  Cell rcell(const Obj *o, u32 off) const {
    const Page *p = rpage(o, off); unsigned i = off & 255;
    if (!p) return {nullptr, 0, !o->zero};
    if (!p->isnc(i)) return {nullptr, p->data[i], false};
    Expr *e = p->sym ? p->sym[i] : nullptr;
    return {e, 0, e == nullptr};
  }
  void wcell(Obj *o, u32 off, const Cell &c) {
    Page *p = wpage(o, off); unsigned i = off & 255;
    if (!c.e && !c.undef) { p->nonconc[i >> 6] &= ~(1ull << (i & 63)); p->data[i] = c.v; if (p->sym) p->sym[i] = nullptr; return; }
    p->nonconc[i >> 6] |= 1ull << (i & 63);
    if (c.e) { if (!p->sym) p->sym = (Expr **)calloc(256, sizeof(Expr *)); p->sym[i] = c.e; }
    else if (p->sym) p->sym[i] = nullptr;
  }
};
