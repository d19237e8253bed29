// @TITLE: printing triple quoted literals
// @SRCS: bant/frontend/print-visitor.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: triple quotes of either kind, raw or not, around 0..5 bytes out of quotes, backslash, newline, n
// @BOUND-THOROUGH: 0..7 bytes
// @COVER: accepted rejected
#include "roundtrip.h"
extern "C" void harness_main() {
  const std::string_view q = sym::flip("quote") ? "\"\"\"" : "'''"; std::string t = "x="; if (sym::flip("raw")) t += 'r'; t += q; t += sym::upto(sym_tier() ? 7 : 5, "\"'\\\nn", "text"); t += q; CheckRoundTrip(t);
}
