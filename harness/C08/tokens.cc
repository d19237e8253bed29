// @TITLE: parsing of arbitrary token sequences in the positions of a statement
// @SRCS: bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: one of 7 statement openings followed by 0..4 arbitrary tokens out of 24
// @BOUND-THOROUGH: 0..5 tokens
// @COVER: accepted rejected
#include "../parsecommon.h"
extern "C" void harness_main() {
  static const std::string_view kOpen[] = {"", "x=", "f(", "x=[a for ", "(a", "x=[", "x={a:"};
  static const char kTok[][5] = {"a   ", "1   ", "\"s\" ", "(   ", ")   ", "[   ", "]   ", "{   ", "}   ", ",   ", ":   ", "=   ", "+   ", "-   ", ".   ", "if  ", "else", "for ", "in  ", "not ", "\n   ", "%   ", "0o9 ", "#c\n "};
  std::string t(kOpen[sym::choose(7, "open")]); const int n = sym::choose(sym_tier() ? 6 : 5, "n"); t += TokenText(kTok, 24, n, "tok"); t.shrink_to_fit();
  CheckParse(t);
}
