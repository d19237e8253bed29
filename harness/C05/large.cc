// @TITLE: locations with large line and column numbers
// @SRCS: bant/frontend/source-locator.cc
// @BOUND: any two of the four numbers out of 25 values around powers of ten and of two up to 2147483646, the rest 0 to 2
// @BOUND-THOROUGH: any three of the four
// @COVER: single oneline multiline
#include <sstream>
#include "bant/frontend/source-locator.h"
#include "sym.h"
extern "C" void harness_main() {
  static const int kV[] = {8, 9, 10, 98, 99, 100, 127, 128, 254, 255, 256, 998, 999, 1000, 32766, 32767, 32768, 65534, 65535, 65536, 99999, 999999, 16777216, 1234567890, 2147483645};
  int v[4]; int big = 0; for (int &x : v) { if (big < 2 + sym_tier() && sym::flip("big")) { ++big; x = kV[sym::choose(25, "number")]; } else x = sym::choose(3, "small"); }
  bant::LineColumnRange r; r.start = {v[0], v[1]}; r.end = {v[2], v[3]};
  sym_assume(r.end.line > r.start.line || (r.end.line == r.start.line && r.end.col > r.start.col));
  auto n = [](long x) { std::string s; do { s.insert(s.begin(), (char)('0' + x % 10)); x /= 10; } while (x); return s; };
  std::string want = "f:" + n(v[0] + 1L) + ":" + n(v[1] + 1L);
  if (v[0] != v[2]) { want += ":" + n(v[2] + 1L) + ":" + n(v[3]); sym_cover("multiline"); } else if (v[3] > v[1] + 1) { want += "-" + n(v[3]); sym_cover("oneline"); } else sym_cover("single");
  std::stringstream a; a << bant::FileLocation{"f", r}; sym_assert(a.str() == want + ":", "streamed location"); bant::FixedSourceLocator fx(bant::FileLocation{"f", r}); sym_assert(fx.Loc("x") == want + ":", "location as text"); sym::trace(want);
}
