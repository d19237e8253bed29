// @TITLE: arena allocation with symbolic block size and symbolic request sizes
// @BOUND: block size any value 0..65535, 4 requests of any size 0..65535, all decided by z3 as pointer arithmetic
// @BOUND-THOROUGH: 6 requests
// @COVER: fits newblock oversize exact
#include "bant/util/arena.h"
#include "sym.h"
static uint16_t u16(const char *n) { uint16_t v; sym_make(&v, 2, n); return v; }
extern "C" void harness_main() {
  const int K = sym_tier() ? 6 : 4; const uint16_t bs = u16("block_size"); bant::Arena a(bs); uintptr_t p[8]; size_t n[8];
  for (int i = 0; i < K; ++i) {
    n[i] = u16("size"); char *q = (char *)a.Alloc(n[i]); p[i] = (uintptr_t)q;
    sym_assert(q != nullptr, "allocation is not null");
    sym_check_range(q, n[i]);
    for (int j = 0; j < i; ++j) sym_assert((p[i] + n[i] <= p[j]) | (p[j] + n[j] <= p[i]) | (n[i] == 0) | (n[j] == 0), "allocation overlaps an earlier one");
    if (i) { if (p[i] == p[i - 1] + n[i - 1]) sym_cover("fits"); else sym_cover("newblock"); }
    if (n[i] > bs) sym_cover("oversize"); else if (n[i] == bs) sym_cover("exact");
  }
  sym_trace(p[0] != 0); sym_trace(n[0]);
}
