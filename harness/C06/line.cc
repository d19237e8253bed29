// @TITLE: surrounding line and location of every sub-range of a named content
// @SRCS: bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: text of 0..7 arbitrary bytes, every sub-range including empty ones
// @BOUND-THOROUGH: text of 0..10 arbitrary bytes
// @COVER: inner whole multi
#include "bant/frontend/named-content.h"
#include "sym.h"
extern "C" void harness_main() {
  const int n = sym::choose(sym_tier() ? 11 : 8, "len"); std::string src = sym::bytes(n, "text");
  char *buf = new char[n]; for (int i = 0; i < n; ++i) buf[i] = src[i]; std::string_view text(buf, n);
  bant::NamedLineIndexedContent c("f/BUILD", text); c.mutable_line_index()->InitializeFromStringView(text);
  sym_assert(c.content().data() == buf && c.content().size() == (size_t)n && c.size() == (size_t)n, "content is the text given"); sym_assert(c.source_name() == "f/BUILD", "name");
  int b = sym::choose(n + 1, "begin"), e = b + sym::choose(n - b + 1, "end"); std::string_view sub = text.substr(b, e - b);
  int wb = b, we = e; while (wb > 0 && text[wb - 1] != '\n') --wb; while (we < n && text[we] != '\n') ++we;
  std::string_view got = c.GetSurroundingLine(sub);
  sym_assert(got.data() == buf + wb, "line begins after the previous newline or at the start"); sym_assert(got.size() == (size_t)(we - wb), "line ends before the next newline or at the end");
  int l = 0, col = 0, l2 = 0, col2 = 0; for (int i = 0; i < e; ++i) { if (i < b) { if (text[i] == '\n') ++l, col = 0; else ++col; } if (text[i] == '\n') ++l2, col2 = 0; else ++col2; }
  bant::FileLocation f = c.GetLocation(sub); sym_assert(f.filename == "f/BUILD", "location names the file"); sym_assert(f.line_column_range.start.line == l && f.line_column_range.start.col == col, "location start"); sym_assert(f.line_column_range.end.line == l2 && f.line_column_range.end.col == col2, "location end");
  if (wb > 0 && we < n) sym_cover("inner"); if (wb == 0 && we == n) sym_cover("whole"); if (l > 1) sym_cover("multi");
  sym_trace(got.size()); sym_trace(l); sym_trace(col); delete[] buf;
}
