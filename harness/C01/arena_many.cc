// @TITLE: many allocations: contents of all of them at the end
// @BOUND: block size 0, 16, 64 or 1000; 400 requests cycling through 3 sizes out of 6 after a first one of any size up to 70; moved at any of 4 places or never; with and without statistics
// @BOUND-THOROUGH: 3000 requests
// @COVER: moved verbose
#include <memory>
#include <vector>
#include "bant/util/arena.h"
#include "sym.h"
extern "C" void harness_main() {
  static const int kBlock[] = {0, 16, 64, 1000}, kSize[] = {0, 1, 7, 16, 33, 64}; const int bs = kBlock[sym::choose(4, "block_size")], n = sym_tier() ? 3000 : 400; const bool verbose = sym::flip("verbose"); const int move_at = sym::choose(5, "move_at") * n / 4 + 1;
  auto first = std::make_unique<bant::Arena>(bs); std::unique_ptr<bant::Arena> moved; bant::Arena *a = first.get(); if (verbose) { a->SetVerbose(true); sym_cover("verbose"); }
  const int s0 = sym::choose(71, "first_size"); int cyc[3]; const int k = sym::choose(sym_tier() ? 20 : 4, "cycle"); for (int i = 0, left = k * 5; i < 3; ++i, left /= 6) cyc[i] = kSize[(left + i * 2 + s0) % 6];
  struct B { unsigned char *p; size_t n; }; std::vector<B> b;
  for (int i = 0; i < n; ++i) {
    if (i == move_at) { moved = std::make_unique<bant::Arena>(std::move(*a)); a = moved.get(); first.reset(); sym_cover("moved"); }
    const size_t len = i ? cyc[i % 3] : s0; auto *p = (unsigned char *)a->Alloc(len); sym_assert(p != nullptr, "not null"); for (size_t j = 0; j < len; ++j) p[j] = (unsigned char)(i * 31 + j); b.push_back({p, len});
  }
  for (int i = 0; i < n; ++i) for (size_t j = 0; j < b[i].n; ++j) if (b[i].p[j] != (unsigned char)(i * 31 + j)) sym_fail("contents of every block are as written");
  sym_trace(s0);
}
