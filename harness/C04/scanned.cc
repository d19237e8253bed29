// @TITLE: line/column of every place of a text that has been scanned
// @SRCS: bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: texts of up to 5 bytes out of both quotes, backslash, newline, # and x; with 0 to 3 such bytes (or space) between not and in, in a triple quoted string, or in a raw string; every position of it
// @BOUND-THOROUGH: 7 bytes, 5 between
// @COVER: plain not-in triple raw many
// @TIME: 200 780
#include "bant/frontend/scanner.h"
#include "sym.h"
extern "C" void harness_main() {
  const int part = sym::choose(4, "part"); std::string s;
  switch (part) {
  case 0: s = sym::upto(sym_tier() ? 7 : 5, "\"'\\\n#x", "text"); sym_cover("plain"); break;
  case 1: s = "not" + sym::upto(sym_tier() ? 5 : 3, "\n\\# x", "text") + "in\n"; sym_cover("not-in"); break;
  case 2: s = "\"\"\"" + sym::upto(sym_tier() ? 5 : 3, "\"'\\\nx", "text") + "\"\"\"\nx"; sym_cover("triple"); break;
  case 3: s = "r'" + sym::upto(sym_tier() ? 5 : 3, "'\\\nx#", "text") + "'\nx"; sym_cover("raw"); break;
  }
  const int n = s.size(); char *buf = new char[n]; for (int i = 0; i < n; ++i) buf[i] = s[i]; const std::string_view text(buf, n);
  bant::NamedLineIndexedContent c("f", text); bant::Scanner scan(c); int guard = 0; for (;;) { const bant::Token t = scan.Next(); if (t.type == bant::TokenType::kEof) break; sym_assert(++guard <= n, "progress"); 
    const auto l = c.GetLocation(t.text); int line = 0, col = 0; for (const char *p = buf; p < t.text.data(); ++p) if (*p == '\n') ++line, col = 0; else ++col; sym_assert(l.line_column_range.start.line == line && l.line_column_range.start.col == col, "location of a token when it is read"); }
  int lines = 1, line = 0, col = 0; for (char ch : text) lines += ch == '\n'; if (lines > 2) sym_cover("many"); sym_assert((int)c.mutable_line_index()->lines() == lines, "lines seen"); 
  for (int i = 0; i <= n; ++i) { const auto p = c.mutable_line_index()->GetPos(text.begin() + i); sym_assert(p.line == line && p.col == col, "line and column of every place"); if (i < n) { if (text[i] == '\n') ++line, col = 0; else ++col; } }
  sym_trace(lines); delete[] buf;
}
