// @TITLE: arena allocation sequences, small sizes byte for byte
// @BOUND: block size 0..4, 4 requests of 0..5 bytes each or a 12 byte object, arena moved once at any point or never
// @BOUND-THOROUGH: block size 0..6, 5 requests of 0..6 bytes each or a 12 byte object, arena moved once at any point or never
// @COVER: oversize exact newblock moved object
#include <memory>
#include "bant/util/arena.h"
#include "sym.h"
struct Obj { int a; const char *p; Obj(int x, const char *q) : a(x), p(q) {} };
struct Blk { char *p; size_t n; unsigned char tag; };
extern "C" void harness_main() {
  const bool th = sym_tier(); const int K = th ? 5 : 4; const int bs = sym::choose(th ? 7 : 5, "block_size");
  bant::Arena first(bs); std::unique_ptr<bant::Arena> moved; bant::Arena *a = &first;
  const int move_at = sym::choose(K + 1, "move_at");
  Blk b[8]; int n = 0; Obj *objs[8]; int no = 0; char dummy[8];
  unsigned char tag = sym::byte("tag");
  for (int i = 0; i < K; ++i) {
    if (i == move_at) { moved = std::make_unique<bant::Arena>(std::move(*a)); a = moved.get(); sym_cover("moved"); }
    const int sz = sym::choose(th ? 8 : 7, "size"); const int big = th ? 7 : 6;
    char *p; size_t len;
    if (sz == big) {
      Obj *o = a->New<Obj>(i, dummy + i); p = (char *)o; len = sizeof(Obj);
      sym_assert(o->a == i && o->p == dummy + i, "New forwards its arguments"); objs[no++] = o; sym_cover("object");
    } else { p = (char *)a->Alloc(sz); len = sz; if (sz > bs) sym_cover("oversize"); if (sz == bs && sz) sym_cover("exact"); }
    sym_assert(p != nullptr, "allocation is not null");
    for (int j = 0; j < n; ++j) {
      bool disjoint = p + len <= b[j].p || b[j].p + b[j].n <= p || len == 0 || b[j].n == 0;
      sym_assert(disjoint, "allocation overlaps an earlier one");
    }
    if (n && p != b[n - 1].p + b[n - 1].n) sym_cover("newblock");
    b[n] = {p, len, (unsigned char)(tag + i)};
    if (sz != big) for (size_t k = 0; k < len; ++k) p[k] = (char)(b[n].tag + k);  // out of bounds is reported as a memory error
    else b[n].tag = 0;
    ++n;
    for (int j = 0; j < n; ++j) if (b[j].n != sizeof(Obj)) for (size_t k = 0; k < b[j].n; ++k) sym_assert((unsigned char)b[j].p[k] == (unsigned char)(b[j].tag + k), "contents of an earlier block changed");
    for (int j = 0; j < no; ++j) sym_assert(objs[j]->p == dummy + objs[j]->a, "object changed");
    sym_trace(len);
  }
}
