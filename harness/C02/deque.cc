// @TITLE: ArenaDeque against a plain array, for several block-size configurations
// @BOUND: 15 (minimum, maximum) block-size configurations, 0..20 appends (0..70 for the default configuration and 1/8, 3/17), element values arbitrary bytes, arena block sizes 1, 64, 1024
// @BOUND-THOROUGH: the same configurations with 0..40 appends, 0..200 for the default configuration and 1/8, 3/17
// @COVER: empty many default
#include "bant/util/arena-container.h"
#include "sym.h"
template <typename T> struct Mk { static T of(unsigned char v, int i) { return (T)(v + i); } };
struct Pt { int x; const void *p; bool operator==(const Pt &) const = default; };
template <> struct Mk<Pt> { static Pt of(unsigned char v, int i) { return {(int)v, (const void *)(0x1000ul + i)}; } };
template <typename T, uint16_t MIN, uint16_t MAX> static void run(int maxn) {
  static const int kBs[] = {1, 64, 1024};
  bant::Arena arena(kBs[sym::choose(3, "arena_block")]); bant::ArenaDeque<T, MIN, MAX> d;
  const int n = sym::choose(maxn + 1, "n"); if (n == 0) sym_cover("empty"); if (n > 12) sym_cover("many");
  unsigned char base; sym_make(&base, 1, "value");
  T *refs[256];
  for (int i = 0; i < n; ++i) { T &r = d.Append(Mk<T>::of(base, i), &arena); refs[i] = &r; sym_assert(r == Mk<T>::of(base, i), "Append returns the element"); sym_assert(d.size() == (size_t)i + 1, "size counts appends"); }
  sym_assert(d.size() == (size_t)n, "size");
  int k = 0; for (T &x : d) { sym_assert(k < n, "iteration visits too many elements"); sym_assert(x == Mk<T>::of(base, k), "iteration order and values"); sym_assert(&x == refs[k], "iteration yields the stored element"); ++k; }
  sym_assert(k == n, "iteration visits every element");
  for (int i = 0; i < n; ++i) { sym_assert(d[i] == Mk<T>::of(base, i), "random access"); sym_assert(&d[i] == refs[i], "references stay valid"); sym_assert(*refs[i] == Mk<T>::of(base, i), "earlier reference still denotes its element"); }
  sym_assert((d.begin() == d.end()) == (n == 0), "empty iteff begin is end");
  if (n) {  // random access at an arbitrary position, arbitrary values
    uint8_t pos; sym_make(&pos, 1, "pos"); sym_assume(pos < n); T want[256]; for (int i = 0; i < n; ++i) want[i] = Mk<T>::of(base, i);
    sym_assert(d[pos] == want[pos], "random access at any position");
  }
  // modifying through a reference is visible
  if (n) { *refs[n / 2] = Mk<T>::of(base, 99); sym_assert(d[n / 2] == Mk<T>::of(base, 99), "write through reference"); }
  sym_trace(n);
}
extern "C" void harness_main() {
  const int m = sym_tier() ? 40 : 20, big = sym_tier() ? 200 : 70;
  switch (sym::choose(17, "config")) {
  case 0: run<int, 1, 1>(m); break;  case 1: run<int, 1, 2>(m); break;  case 2: run<int, 1, 3>(m); break; case 3: run<int, 1, 4>(m); break;
  case 4: run<char, 1, 8>(big); break; case 5: run<int, 2, 2>(m); break; case 6: run<int, 2, 5>(m); break; case 7: run<int, 3, 3>(m); break;
  case 8: run<short, 3, 17>(big); break; case 9: run<int, 4, 16>(m); break; case 10: run<int, 5, 64>(m); break; case 11: run<int, 8, 8>(m); break;
  case 12: run<int, 7, 13>(m); break; case 13: run<int, 1, 64>(big); sym_cover("default"); break; case 14: run<Pt, 1, 64>(m); break; case 15: run<Pt, 2, 8>(m); break; default: run<int, 16, 4096>(m); break;
  }
}
