// @TITLE: parsing of short arbitrary byte strings
// @SRCS: bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: text of 0..4 arbitrary bytes
// @BOUND-THOROUGH: text of 0..5 arbitrary bytes
// @COVER: accepted rejected
#include "../parsecommon.h"
extern "C" void harness_main() {
  const int n = sym::choose(sym_tier() ? 6 : 5, "len"); std::string s = sym::bytes(n, "text"); char *buf = new char[n]; for (int i = 0; i < n; ++i) buf[i] = s[i];
  CheckParse(std::string_view(buf, n)); delete[] buf;
}
