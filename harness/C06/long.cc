// @TITLE: surrounding lines in texts with long lines and with many lines
// @SRCS: bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: one line of 70000 bytes, 3 of 1030, 200 of 3, 5000 empty lines; with a newline at the end or not; begin within 2 of the first, middle or last byte of one of 4 lines, length up to 3, or up to the next line, or a whole line
// @BOUND-THOROUGH: within 8, length up to 12
// @COVER: cross inner
// @STEPS: 2000000000
// @TIME: 60 400
#include "bant/frontend/named-content.h"
#include "sym.h"
extern "C" void harness_main() {
  static const int kLen[] = {70000, 1030, 3, 0}, kNum[] = {1, 3, 200, 5000}; const int shape = sym::choose(4, "shape"), len = kLen[shape], num = kNum[shape], w = sym_tier() ? 8 : 2;
  std::string t; for (int i = 0; i < num; ++i) { t.append(len, (char)('a' + i % 26)); if (i + 1 < num) t += '\n'; } if (sym::flip("newline-at-end")) t += '\n'; const int n = (int)t.size();
  char *buf = new char[n ? n : 1]; for (int i = 0; i < n; ++i) buf[i] = t[i]; std::string_view text(buf, n); bant::NamedLineIndexedContent c("f/BUILD", text); c.mutable_line_index()->InitializeFromStringView(text);
  const int ls[] = {0, num / 2, num > 1 ? num - 2 : 0, num - 1}, line = ls[sym::choose(4, "line")], where[] = {0, len / 2, len};
  const int b = line * (len + 1) + where[sym::choose(3, "where")] - w + sym::choose(2 * w + 1, "offset"); sym_assume(b >= 0 && b <= n);
  const int more = sym::choose(w + 4, "length"); const int e = more < w + 2 ? b + more : more == w + 2 ? b + len + 1 : b + len; sym_assume(e <= n);
  int wb = b, we = e; while (wb > 0 && t[wb - 1] != '\n') --wb; while (we < n && t[we] != '\n') ++we; std::string_view got = c.GetSurroundingLine(text.substr(b, e - b));
  sym_assert(got.data() == buf + wb, "line begins after the previous newline or at the start"); sym_assert(got.size() == (size_t)(we - wb), "line ends before the next newline or at the end");
  bant::FileLocation f = c.GetLocation(text.substr(b, e - b)); int l = 0, s = 0; for (int i = 0; i < b; ++i) if (t[i] == '\n') ++l, s = i + 1; sym_assert(f.line_column_range.start.line == l && f.line_column_range.start.col == b - s, "location start");
  for (int i = b; i < e; ++i) if (t[i] == '\n') ++l, s = i + 1; sym_assert(f.line_column_range.end.line == l && f.line_column_range.end.col == e - s, "location end"); sym_cover(l > f.line_column_range.start.line ? "cross" : "inner"); sym_trace(wb); sym_trace(we); delete[] buf;
}
