// @TITLE: arena allocation sequences around block boundaries for realistic block sizes
// @BOUND: block size 7, 64, 4096 or 65536; 4 requests from {1, 3, half, block-1, block, block+1, 2*block+5}
// @BOUND-THOROUGH: the same with 5 requests
// @COVER: oversize exact
#include "bant/util/arena.h"
#include "sym.h"
extern "C" void harness_main() {
  static const int kBs[] = {7, 64, 4096, 65536}; const size_t bs = kBs[sym::choose(4, "block_size")]; const int K = sym_tier() ? 5 : 4;
  bant::Arena a((int)bs); char *p[8]; size_t n[8];
  for (int i = 0; i < K; ++i) {
    const size_t menu[] = {1, 3, bs / 2, bs - 1, bs, bs + 1, 2 * bs + 5}; n[i] = menu[sym::choose(7, "size")];
    if (n[i] > bs) sym_cover("oversize"); if (n[i] == bs) sym_cover("exact");
    p[i] = (char *)a.Alloc(n[i]); sym_assert(p[i] != nullptr, "null");
    for (int j = 0; j < i; ++j) sym_assert(p[i] + n[i] <= p[j] || p[j] + n[j] <= p[i], "allocation overlaps an earlier one");
    p[i][0] = (char)(i + 1); p[i][n[i] - 1] = (char)(i + 1); p[i][n[i] / 2] = (char)(i + 1);
    for (int j = 0; j <= i; ++j) sym_assert(p[j][0] == j + 1 && p[j][n[j] - 1] == j + 1 && p[j][n[j] / 2] == j + 1, "contents of an earlier block changed");
  }
  sym_trace(n[0]);
}
