// @TITLE: tokens of every short byte string agree with the reference tokenizer
// @SRCS: bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: text of 0..4 arbitrary bytes, with no, constant or alternating peeking
// @BOUND-THOROUGH: text of 0..5 arbitrary bytes
// @COVER: end
#include "../reflex.h"
extern "C" void harness_main() {
  const int n = sym::choose(sym_tier() ? 6 : 5, "len"); std::string s = sym::bytes(n, "text"); char *buf = new char[n]; for (int i = 0; i < n; ++i) buf[i] = s[i];
  CheckScan(std::string_view(buf, n), sym::choose(3, "peek")); sym_cover("end"); delete[] buf;
}
