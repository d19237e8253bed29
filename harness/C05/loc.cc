// @TITLE: location printing against an independently written formatter and parser
// @SRCS: bant/frontend/source-locator.cc
// @BOUND: file name of 0..3 arbitrary bytes; line and column numbers 0..1022 (quick)
// @BOUND-THOROUGH: file name of 0..5 arbitrary bytes; line and column numbers 0..16382
// @COVER: single oneline multiline
#include <sstream>
#include "bant/frontend/source-locator.h"
#include "sym.h"
static int num(const char *n) { uint16_t v; sym_make(&v, 2, n); sym_assume(v < (sym_tier() ? 16383 : 1023)); return v; }
static std::string dec(unsigned v) { char b[12]; int p = 12; do { b[--p] = '0' + v % 10; v /= 10; } while (v); return std::string(b + p, 12 - p); }
class Fix : public bant::SourceLocator {
 public:
  bant::FileLocation l; mutable int calls = 0; mutable std::string_view asked;
  bant::FileLocation GetLocation(std::string_view t) const override { ++calls; asked = t; return l; }
  std::string_view GetSurroundingLine(std::string_view t) const override { return t; }
};
extern "C" void harness_main() {
  std::string fn = sym::bytes(sym::choose(sym_tier() ? 6 : 4, "fnlen"), "fn");
  bant::LineColumnRange r; r.start = {num("sl"), num("sc")}; r.end = {num("el"), num("ec")};
  // non-empty range
  sym_assume((r.end.line > r.start.line && r.end.col >= 0) || (r.end.line == r.start.line && r.end.col > r.start.col));
  int kind = r.start.line != r.end.line ? 2 : r.end.col == r.start.col + 1 ? 0 : 1;
  std::string want = fn + ":" + dec(r.start.line + 1) + ":" + dec(r.start.col + 1);
  if (kind == 1) { want += "-" + dec(r.end.col); sym_cover("oneline"); }
  if (kind == 2) { want += ":" + dec(r.end.line + 1) + ":" + dec(r.end.col); sym_cover("multiline"); }
  if (kind == 0) sym_cover("single");
  want += ":";
  std::stringstream a; a << bant::FileLocation{fn, r};
  sym_assert(a.str() == want, "streamed FileLocation");
  Fix f; f.l = {fn, r}; std::string q = "x";
  std::string s = f.Loc(std::string_view(q));
  sym_assert(s == want, "Loc() string");
  sym_assert(f.calls == 1 && f.asked.data() == q.data() && f.asked.size() == 1, "Loc asks for the location of the given text");
  std::stringstream b; std::ostream &ret = f.Loc(b, q);
  sym_assert(&ret == &b, "Loc returns its stream"); sym_assert(b.str() == want, "Loc() stream");
  std::stringstream c; c << r; sym_assert(fn + ":" + c.str() == want, "streamed range");
  std::stringstream d; d << r.start; sym_assert(d.str() == dec(r.start.line + 1) + ":" + dec(r.start.col + 1), "streamed position");
  bant::FixedSourceLocator fx(f.l); sym_assert(fx.Loc(std::string_view(q)) == want, "fixed locator"); sym_assert(fx.GetSurroundingLine(q).data() == q.data(), "fixed locator line");
  sym_trace(want.size()); sym_trace((unsigned char)want[0]);
}
