// @TITLE: DisjointRangeMap against a linear search
// @BOUND: 1..4 non-empty disjoint string ranges inside one 8 byte text (every boundary, gap and adjacency), every insertion order, every query sub-range; optional re-insertion of one range
// @BOUND-THOROUGH: 1..5 ranges inside a 10 byte text
// @COVER: hit miss adjacent straddle reinsert
#include <string_view>
#include "bant/util/disjoint-range-map.h"
#include "sym.h"
extern "C" void harness_main() {
  const bool th = sym_tier(); const int L = th ? 10 : 8; static const char text[17] = "0123456789abcdef"; std::string_view all(text, L);
  const int n = 1 + sym::choose(th ? 5 : 4, "ranges"); int b[5], e[5];
  int prev = 0;
  for (int i = 0; i < n; ++i) {  // ascending disjoint ranges
    uint8_t x, y; sym_make(&x, 1, "begin"); sym_make(&y, 1, "end"); sym_assume(x >= prev && y > x && y <= L); b[i] = (int)sym_concretize(x); e[i] = (int)sym_concretize(y); if (i && b[i] == e[i - 1]) sym_cover("adjacent"); prev = e[i];
  }
  bant::DisjointRangeMap<std::string_view, int> m;
  int left[5] = {0, 1, 2, 3, 4}; int order[5];
  for (int i = 0, r = n; i < n; ++i, --r) { int k = sym::choose(r, "order"); order[i] = left[k]; for (int q = k; q + 1 < r; ++q) left[q] = left[q + 1]; }
  for (int i = 0; i < n; ++i) { int k = order[i]; sym_assert(m.Insert(all.substr(b[k], e[k] - b[k]), 100 + k), "insertion of a new range succeeds"); }
  if (sym::flip("again")) { sym_assert(!m.Insert(all.substr(b[0], e[0] - b[0]), 7), "re-insertion is reported"); sym_cover("reinsert"); }
  uint8_t qb, qe; sym_make(&qb, 1, "qbegin"); sym_make(&qe, 1, "qend"); sym_assume(qb < qe && qe <= L); int s = (int)sym_concretize(qb), t = (int)sym_concretize(qe);
  int want = 0; for (int i = 0; i < n; ++i) if (b[i] <= s && t <= e[i]) want = 100 + i;
  auto got = m.FindBySubrange(all.substr(s, t - s));
  if (want) { sym_assert(got.has_value() && *got == want, "query inside a stored range returns its value"); sym_cover("hit"); }
  else { sym_assert(!got.has_value(), "query not inside any stored range returns nothing"); sym_cover("miss"); for (int i = 0; i < n; ++i) if (s < e[i] && e[i] < t) sym_cover("straddle"); }
  sym_trace(want);
}
