// @TITLE: string literals: quotes, prefixes, escapes and triple quotes
// @SRCS: bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: text of 5..7 bytes, each one of: double quote, single quote, backslash, r, newline, x
// @BOUND-THOROUGH: text of 5..9 such bytes
// @COVER: end
#include "../reflex.h"
extern "C" void harness_main() {
  const int n = sym::range(5, sym_tier() ? 9 : 7, "len"); std::string s = sym::over(n, "\"'\\r\nx", "text"); char *buf = new char[n]; for (int i = 0; i < n; ++i) buf[i] = s[i];
  CheckScan(std::string_view(buf, n), 0); sym_cover("end"); delete[] buf;
}
