// @TITLE: printing string literals with any quotes, prefix, escapes
// @SRCS: bant/frontend/print-visitor.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: x = followed by 2..6 bytes out of double quote, single quote, backslash, r, newline, n
// @BOUND-THOROUGH: 2..8 bytes
// @COVER: accepted rejected
#include "roundtrip.h"
extern "C" void harness_main() {
  std::string t = "x="; t += sym::upto(sym_tier() ? 8 : 6, "\"'\\r\nn", "text", 2); CheckRoundTrip(t);
}
