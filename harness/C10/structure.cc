// @TITLE: lists, tuples, maps, keyword arguments and comprehensions keep their elements in order
// @SRCS: bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: one of 9 sentence frames with 3 holes, each any of 17 fillers (elements, separators, closers, comprehension parts)
// @COVER: accepted rejected
#include "../parsecommon.h"
extern "C" void harness_main() {
  static const std::string_view kFrame[][4] = {{"f(", ",", ",", ")"}, {"x=[", ",", ",", "]"}, {"x={", ",", ",", "}"}, {"x=(", ",", "", ")"}, {"x=[a ", " ", " ", "]"}, {"x={a:b ", " ", "", "}"}, {"(a,", ",", ")=", "\n"}, {"a.b(", ")", "\nc=", ""}, {"[", "", "\n[", "]"}};
  static const char kFill[][16] = {"               ", "a              ", "k=b            ", "a:1            ", "(a)            ", "(a,)           ", "()             ", "[a,[b],]       ", "for i in y     ", "for i,j in(c)  ", "for (i,j,) in c", "{k:v,}         ", "\"s\".f(x=r'')   ", ",              ", "for i in [c]   ", "for i in {a:1} ", "for i,in f(x)  "};
  const int f = sym::choose(9, "frame"); std::string t(kFrame[f][0]); for (int i = 1; i < 4; ++i) { t += TokenText(kFill, 17, 1, "fill"); t += kFrame[f][i]; }
  CheckParse(t);
}
