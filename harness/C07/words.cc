// @TITLE: keywords, the two-word operator, and words that merely start like one
// @SRCS: bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: [byte] word [0..2 bytes] word [0..1 bytes], words out of the keywords, "" and "r", single bytes arbitrary in front, from a class alphabet in between and behind
// @COVER: notin notident
#include "../reflex.h"
extern "C" void harness_main() {
  static const char *const kWords[] = {"not", "in", "for", "and", "or", "if", "else", "", "0x", "0o", "=", "!"};
  static const std::string_view kClasses = "\n \\#'a_9=(.";
  const int max = sym_tier() ? 3 : 2;
  std::string t; if (sym::flip("front")) t += sym::over(1, kClasses, "b"); t += kWords[sym::choose(12, "w1")]; t += sym::upto(max, kClasses, "mid"); t += kWords[sym::choose(8, "w2")]; t += sym::upto(sym_tier() ? 2 : 1, kClasses, "tail");
  const int n = t.size(); char *buf = new char[n]; for (int i = 0; i < n; ++i) buf[i] = t[i]; std::string_view text(buf, n);
  RefTok f = RefNext(text, 0); if (f.type == bant::kNotIn) sym_cover("notin"); if (f.type == bant::kNot && f.end < n && RefNext(text, f.end).type == bant::kIdentifier && text.find("in") == f.end + 1) sym_cover("notident");
  CheckScan(text, sym::choose(2, "peek")); delete[] buf;
}
