// @TITLE: parsing of arbitrary character sequences as an expression or call
// @SRCS: bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: opening x=, f( or x=[ followed by 0..5 bytes out of a 1 quote ( ) [ ] { } , : = + - . newline space
// @BOUND-THOROUGH: 0..6 such bytes
// @COVER: accepted rejected
#include "../parsecommon.h"
extern "C" void harness_main() {
  static const std::string_view kOpen[] = {"x=", "f(", "x=["};
  std::string t(kOpen[sym::choose(3, "open")]); t += sym::upto(sym_tier() ? 6 : 5, "a1\"()[]{},:=+-.\n ", "text");
  CheckParse(t);
}
