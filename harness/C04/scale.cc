// @TITLE: line/column in texts with many lines and with long lines
// @SRCS: bant/frontend/linecolumn-map.cc
// @BOUND: uniform texts of 400 lines of 3 bytes, 3 lines of 70000, 67000 empty lines, and 66 lines of 1100; every position within 8 of any of the places 0, 255, 511, 65535, the middle or the end every length up to 4 from there, decided by z3
// @BOUND-THOROUGH: windows of 64, any position at all with 400 lines
// @COVER: many long empty both
#include "bant/frontend/linecolumn-map.h"
#include "sym.h"
extern "C" void harness_main() {
  static const int kLines[] = {400, 3, 67000, 66}, kWidth[] = {3, 70000, 1, 1100}; const int c = sym::choose(4, "shape"), L = kLines[c], w = kWidth[c], n = L * w;
  char *buf = new char[n]; for (int i = 0; i < n; ++i) buf[i] = i % w == w - 1 ? '\n' : 'x'; std::string_view text(buf, n);
  bant::LineColumnMap m; m.InitializeFromStringView(text); sym_assert((int)m.lines() == L + 1, "number of lines");
  uint32_t off, len; sym_make(&off, 4, "position"); sym_make(&len, 4, "length"); const uint32_t win = sym_tier() ? 64 : 8;
  if (c == 0 && sym_tier()) { sym_assume(off <= (uint32_t)n); } else { const int where[] = {0, 255, 511, 65535, n / 2, n}; const uint32_t at = where[sym::choose(6, "place")]; sym_assume(off + win >= at && off <= at + win && off <= (uint32_t)n); }
  sym_assume(len <= 4 && off + len <= (uint32_t)n);
  const bant::LineColumnRange r = m.GetRange(text.substr(off, len));
  sym_assert((uint32_t)r.start.line == off / w, "start line"); sym_assert((uint32_t)r.start.col == off % w, "start column");
  sym_assert((uint32_t)r.end.line == (off + len) / w, "end line"); sym_assert((uint32_t)r.end.col == (off + len) % w, "end column");
  static const char *const kCover[] = {"many", "long", "empty", "both"}; sym_cover(kCover[c]); delete[] buf;
}
