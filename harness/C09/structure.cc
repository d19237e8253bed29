// @TITLE: printing statements: calls, lists, maps, tuples, comprehensions, assignments
// @SRCS: bant/frontend/print-visitor.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: one of 9 sentence frames with 3 holes, each any of 16 fillers
// @COVER: accepted rejected
#include "roundtrip.h"
extern "C" void harness_main() {
  static const std::string_view kFrame[][4] = {{"f(", ",", ",", ")"}, {"x=[", ",", ",", "]"}, {"x={", ",", ",", "}"}, {"x=(", ",", "", ")"}, {"x=[a ", " ", " ", "]"}, {"x={a:b ", " ", "", "}"}, {"(a,", ",", ")=", "\n"}, {"a.b(", ")", "\nc=", ""}, {"[", "", "\n[", "]"}};
  static const char kFill[][16] = {"               ", "a              ", "k=b            ", "a:1            ", "(a)            ", "(a,)           ", "()             ", "[a,[b],]       ", "for i in y     ", "for i,j in(c)  ", "for (i,j,) in c", "{k:v,}         ", "\"s\".f(x=r'')   ", ",              ", "1 .f(0x2)      ", "a[1](b)        "};
  const int f = sym::choose(9, "frame"); std::string t(kFrame[f][0]); for (int i = 1; i < 4; ++i) { t += TokenText(kFill, 16, 1, "fill"); t += kFrame[f][i]; }
  CheckRoundTrip(t);
}
