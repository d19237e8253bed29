// @TITLE: printing expressions of operators, suffixes, conditionals, with every way to parenthesise
// @SRCS: bant/frontend/print-visitor.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: x = [(] operand op [(] operand [)] op operand [)]..., 3 operands out of 6 forms, ops out of 9 representatives incl. if and else
// @BOUND-THOROUGH: all 19 operator spellings
// @COVER: accepted rejected
#include "roundtrip.h"
extern "C" void harness_main() {
  static const char kOp[][8] = {"+      ", ".      ", "if     ", "else   ", "not in ", "if c   ", "-      ", "%      ", "|      ", "*      ", "/      ", "<      ", "<=     ", "==     ", ">=     ", ">      ", "!=     ", "in     ", "and    ", "or     "};
  static const char kVal[][9] = {"a       ", "1       ", "-b      ", "c[d]    ", "[e][:f] ", "not g   "};
  const int ops = sym_tier() ? 20 : 7;
  static const char *const kShape[] = {"VOVOV", "(VOV)OV", "VO(VOV)", "(VOVOV)[V]", "V[VOV]OV", "VOVOVOV", "(VOV)OVOV", "VO(VOV)OV", "(VOV)O(VOV)", "((VOV)OV)OV"};
  std::string t = "x = "; bool first = true; for (const char *c = kShape[sym::choose(sym_tier() ? 10 : 10, "shape")]; *c; ++c) { if (*c == 'V') { t += TokenText(kVal, sym_tier() ? (first ? 6 : 2) : first ? 6 : 3, 1, "value"); first = false; } else if (*c == 'O') t += TokenText(kOp, ops, 1, "op"); else t += *c; }
  CheckRoundTrip(t);
}
