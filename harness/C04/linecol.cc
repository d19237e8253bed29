// @TITLE: line/column of every sub-range, index built directly or newline by newline
// @SRCS: bant/frontend/linecolumn-map.cc
// @BOUND: text of 0..6 arbitrary bytes, every sub-range; index initialised from the text or pushed one line start at a time
// @BOUND-THOROUGH: text of 0..9 arbitrary bytes
// @COVER: multi end
#include "bant/frontend/linecolumn-map.h"
#include "sym.h"
extern "C" void harness_main() {
  const int n = sym::choose(sym_tier() ? 10 : 7, "len"); std::string heap = sym::bytes(n, "text");
  char *buf = new char[n]; for (int i = 0; i < n; ++i) buf[i] = heap[i]; std::string_view text(buf, n);
  bant::LineColumnMap m; sym_assert(m.empty(), "fresh map is empty");
  if (sym::flip("push")) { m.PushNewline(text.begin()); for (int i = 0; i < n; ++i) if (text[i] == '\n') m.PushNewline(text.begin() + i + 1); }
  else m.InitializeFromStringView(text);
  int b = sym::choose(n + 1, "begin"), e = b + sym::choose(n - b + 1, "end");
  int lines = 1, bl = 0, bc = 0, el = 0, ec = 0;
  for (int i = 0, l = 0, c = 0; i <= n; ++i) { if (i == b) bl = l, bc = c; if (i == e) el = l, ec = c; if (i < n) { if (text[i] == '\n') { ++l; c = 0; ++lines; } else ++c; } }
  sym_assert((int)m.lines() == lines, "number of lines"); sym_assert(!m.empty(), "not empty after initialisation");
  bant::LineColumnRange r = m.GetRange(text.substr(b, e - b));
  sym_assert(r.start.line == bl, "start line"); sym_assert(r.start.col == bc, "start column"); sym_assert(r.end.line == el, "end line"); sym_assert(r.end.col == ec, "end column");
  bant::LineColumn p = m.GetPos(text.begin() + b); sym_assert(p.line == bl && p.col == bc, "position");
  if (lines > 2) sym_cover("multi"); if (e == n) sym_cover("end");
  sym_trace(lines); sym_trace(bl); sym_trace(bc); sym_trace(el); sym_trace(ec); delete[] buf;
}
