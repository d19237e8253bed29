// @TITLE: grouping of operators, suffixes, unary operators and conditionals
// @SRCS: bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: x = operand (op operand)^2, each operand out of 6 forms incl. parenthesised, suffixed, unary; each op out of all 17 binary operators, if, if-else
// @BOUND-THOROUGH: 3 operators, operands after the first out of 2 forms
// @COVER: accepted
#include "../parsecommon.h"
extern "C" void harness_main() {
  static const char kOp[][8] = {"+      ", "-      ", "*      ", "/      ", "%      ", "|      ", ".      ", "<      ", "<=     ", "==     ", ">=     ", ">      ", "!=     ", "in     ", "not in ", "and    ", "or     ", "if     ", "else   "};
  static const char kVal[][12] = {"a          ", "(a + b)    ", "c[d]       ", "e[f:][:g]  ", "- a        ", "not (b)    "};
  const int n = sym_tier() ? 3 : 2; std::string t = "x = "; t += TokenText(kVal, 6, 1, "value");
  for (int i = 0; i < n; ++i) { t += TokenText(kOp, 19, 1, "op"); t += TokenText(kVal, sym_tier() ? 2 : 6, 1, "value"); }
  CheckParse(t);
}
