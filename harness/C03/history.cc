// @TITLE: insertions and lookups in any order
// @BOUND: 1 to 3 ranges of a 5 byte text, before any insertion or at the end 2 (with 3 ranges: 1) lookups of any sub-range or re-insertions of any stored range; values are texts
// @BOUND-THOROUGH: 6 byte text
// @COVER: hit miss reinsert
// @TIME: 60 400
#include <string>
#include <string_view>
#include "bant/util/disjoint-range-map.h"
#include "sym.h"
extern "C" void harness_main() {
  const int L = 5 + sym_tier(); static const char text[] = "0123456789"; std::string_view all(text, L); bant::DisjointRangeMap<std::string_view, std::string> m;
  int b[3], e[3], n = 0; const int want = 1 + sym::choose(3, "ranges"); int asked = 0;
  for (int step = 0; step < 8; ++step) {
    const int what = sym::choose(n == want ? 2 : 3, "what");  // end or insert, lookup, re-insert
    if (what == 0 && n == want) break;
    if (what == 0 || what == 2) {
      uint8_t x, y; sym_make(&x, 1, "begin"); sym_make(&y, 1, "end"); sym_assume(x < y && y <= L); const int p = (int)sym_concretize(x), q = (int)sym_concretize(y); bool same = false;
      for (int i = 0; i < n; ++i) { if (b[i] == p && e[i] == q) same = true; else sym_assume(q <= b[i] || e[i] <= p); }
      if (what == 2) { sym_assume(same && asked < (want < 3 ? 2 : 1)); ++asked; sym_assert(!m.Insert(all.substr(p, q - p), "other"), "re-insertion is reported"); sym_cover("reinsert"); continue; }
      sym_assume(!same); sym_assert(m.Insert(all.substr(p, q - p), std::string("value of range ") + (char)('0' + n)), "insertion of a new range succeeds"); b[n] = p; e[n++] = q; continue;
    }
    sym_assume(asked < (want < 3 ? 2 : 1)); ++asked; uint8_t x, y; sym_make(&x, 1, "qbegin"); sym_make(&y, 1, "qend"); sym_assume(x < y && y <= L); const int p = (int)sym_concretize(x), q = (int)sym_concretize(y);
    int owner = -1; for (int i = 0; i < n; ++i) if (b[i] <= p && q <= e[i]) owner = i;
    auto got = m.FindBySubrange(all.substr(p, q - p)); sym_assert(got.has_value() == (owner >= 0), "a lookup tells whether a stored range contains the text"); if (owner >= 0) { sym_assert(*got == std::string("value of range ") + (char)('0' + owner), "a lookup yields the value of the range containing the text"); sym_cover("hit"); } else sym_cover("miss");
  }
  sym_trace(n);
}
