// @TITLE: ArenaDeque with many elements, two of them and other allocations in one arena
// @BOUND: 9 (minimum, maximum) block-size configurations up to 65535; two sequences filled in turn with other allocations of 0 to 24 bytes between; up to 70000 elements; any place within 3 of a power of two, of a sum of the block sizes or of the end, decided by z3
// @BOUND-THOROUGH: 200000 elements
// @TIME: 100 400
// @STEPS: 2000000000
// @COVER: small large
#include "bant/util/arena-container.h"
#include "sym.h"
static unsigned V(size_t i, unsigned salt) { return (unsigned)(i * 2654435761u + salt * 40503u) >> 7; }
template <typename T, uint16_t MIN, uint16_t MAX> static void run(size_t n) {
  bant::Arena arena(sym::flip("tiny-arena") ? 7 : 4096); bant::ArenaDeque<T, MIN, MAX> a, b; sym_cover(n > 5000 ? "large" : "small");
  T *near[64]; size_t at[64]; int m = 0; unsigned char *last = nullptr; size_t lastn = 0;
  for (size_t i = 0; i < n; ++i) {
    T &r = a.Append((T)V(i, 1), &arena); if (m < 64 && (i & (i + 1)) == 0) { near[m] = &r; at[m++] = i; }
    if (i % 3 == 0) b.Append((T)V(i, 2), &arena);
    if (i % 5 == 0) { for (size_t k = 0; k < lastn; ++k) sym_assert(last[k] == 0x5a, "other memory of the arena is not touched"); lastn = i % 25; last = (unsigned char *)arena.Alloc(lastn); for (size_t k = 0; k < lastn; ++k) last[k] = 0x5a; }
  }
  sym_assert(a.size() == n && b.size() == (n + 2) / 3, "size counts the appended elements");
  size_t k = 0; bool same = true; for (T &x : a) { same = same && k < n && x == (T)V(k, 1); ++k; } sym_assert(same && k == n, "iteration yields every element in order");
  k = 0; same = true; for (T &x : b) { same = same && k < n && x == (T)V(k, 2); k += 3; } sym_assert(same && k == 3 * ((n + 2) / 3), "iteration yields every element in order");
  for (int i = 0; i < m; ++i) sym_assert(*near[i] == (T)V(at[i], 1) && &a[at[i]] == near[i], "references stay valid");
  // Any place around the interesting ones.
  size_t spots[40]; int c = 0; for (size_t p = 1; p < n && c < 20; p *= 2) spots[c++] = p; size_t sum = 0; for (size_t bs = MIN; sum + bs < n && c < 38; bs = 2 * bs <= MAX ? 2 * bs : bs) { sum += bs; spots[c++] = sum; } spots[c++] = n - 1;
  const size_t s = spots[sym::choose(c, "spot")]; uint8_t off; sym_make(&off, 1, "off"); sym_assume(off < 7);
  bool ok = true; for (size_t o = 0; o < 7; ++o) if (s + o >= 3 && s + o - 3 < n) { size_t p = s + o - 3; const T *e = &a[p]; ok = ok && *e == (T)V(p, 1); if (p + 1 < n) ok = ok && e != &a[p + 1]; }
  sym_assert(ok, "random access yields the element of that number");
  if (s + off >= 3 && s + off - 3 < n) { T tab[7]; for (size_t o = 0; o < 7; ++o) { size_t p = s + o; tab[o] = p >= 3 && p - 3 < n ? a[p - 3] : T(); } T want[7]; for (size_t o = 0; o < 7; ++o) want[o] = s + o >= 3 ? (T)V(s + o - 3, 1) : T(); sym_assert(tab[off] == want[off], "random access yields the element of that number"); }
  sym_trace((long)n);
}
extern "C" void harness_main() {
  const size_t big = sym_tier() ? 200000 : 70000;
  switch (sym::choose(9, "config")) {
  case 0: run<char, 1, 64>(big); break; case 1: run<int, 16, 4096>(9000); break; case 2: run<short, 300, 700>(2000); break; case 3: run<char, 1, 65535>(big); break; case 4: run<char, 1, 256>(1200); break;
  case 5: run<long, 255, 256>(1500); break; case 6: run<char, 1, 1>(700); break; case 7: run<char, 32768, 65535>(big); break; default: run<int, 200, 1000>(3000); break;
  }
}
