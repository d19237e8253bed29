// @TITLE: many ranges, inserted forwards, backwards or interleaved
// @BOUND: 300 ranges of length 1 to 200000 with gaps of 0 to 2 bytes; any query beginning and ending within 3 bytes of the begin or end of any of 9 ranges and one of its neighbours
// @BOUND-THOROUGH: 3000 ranges
// @COVER: hit miss
// @TIME: 60 400
// @STEPS: 2000000000
#include <string_view>
#include <vector>
#include "bant/util/disjoint-range-map.h"
#include "sym.h"
extern "C" void harness_main() {
  const int N = sym_tier() ? 3000 : 300; static char text[40000000]; struct R { int b, e; }; std::vector<R> r; int at = 5;
  for (int i = 0; i < N; ++i) { at += i % 3; int len = i == 7 ? 200000 : i == 100 ? 70000 : 1 + i % 9; r.push_back({at, at + len}); at += len; }
  std::string_view all(text, at + 10); bant::DisjointRangeMap<std::string_view, int> m; const int order = sym::choose(3, "order");
  for (int i = 0; i < N; ++i) { int k = order == 0 ? i : order == 1 ? N - 1 - i : (int)((i * 7L) % N); if (order == 2) k = (int)((i * 1789L) % N); sym_assert(m.Insert(all.substr(r[k].b, r[k].e - r[k].b), k), "insertion of a new range succeeds"); }
  static const int kS[] = {0, 1, 6, 7, 8, 99, 100, 101, 298}; const int k = kS[sym::choose(9, "range")]; 
  int ps[8], c = 0; for (int i = k - 1; i <= k + 1; ++i) if (i >= 0 && i < N) { ps[c++] = r[i].b; ps[c++] = r[i].e; }
  int p = ps[sym::choose(c, "from")] - 3 + sym::choose(7, "d"), q = ps[sym::choose(c, "to")] - 3 + sym::choose(7, "d"); sym_assume(p >= 0 && p < q && q <= (int)all.size());
  int want = -1; for (int i = 0; i < N; ++i) if (r[i].b <= p && q <= r[i].e) want = i;
  auto got = m.FindBySubrange(all.substr(p, q - p)); sym_assert(got.has_value() == (want >= 0), "a lookup tells whether a stored range contains the text"); if (want >= 0) { sym_assert(*got == want, "a lookup yields the value of the range containing the text"); sym_cover("hit"); } else sym_cover("miss");
  sym_trace(want);
}
