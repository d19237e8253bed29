// @TITLE: tables with many rows and columns and long cells
// @SRCS: bant/util/table-printer.cc
// @BOUND: JSON, CSV, s-expression, property list and plain text with 1 to 6 columns, 1, 12 or 60 rows, every second, third or each one with up to 1, 9 or 30 repeated last columns; cells of up to 4, 300 or 5000 bytes out of 40 with all special ones
// @COVER: native structured
// @STEPS: 2000000000
// @TIME: 100 400
#include "C23/decode.h"
extern "C" void harness_main() {
  const int f = sym::choose(5, "format"), cols = 1 + sym::choose(6, "columns"), shape = sym::choose(6, "shape"), every = sym::choose(3, "every") + 1; static const int kRows[] = {1, 12, 60, 12, 60, 3}, kRep[] = {1, 9, 9, 30, 1, 2}, kLen[] = {4, 4, 4, 300, 4, 5000};
  std::vector<std::string> head; for (int i = 0; i < cols; ++i) head.push_back(std::string(i % 3 ? "c" : "a-longer-header") + char('a' + i));
  unsigned x = 12345; auto cell = [&]() { static const char kC[] = "\"\\'\n\r\t\x01\x1f\x7f\xc3\xa9\0(),;:{}[]%sab01 7z/#"; std::string s; x = x * 1103515245u + 12345u; int n = (int)((x >> 8) % (kLen[shape] + 1)); for (int i = 0; i < n; ++i) { x = x * 1103515245u + 12345u; char c = kC[(x >> 9) % (sizeof(kC) - 1)]; if (f == 4 && c == '\n') c = 'n'; s += c; } return s; };
  std::vector<Row> t(kRows[shape]);
  for (size_t i = 0; i < t.size(); ++i) { Row &r = t[i]; r.repeated = i % every == 0; for (int c = 0; c < (r.repeated ? cols - 1 : cols); ++c) r.cell.push_back(cell()); if (r.repeated) for (size_t k = 0; k < i % (kRep[shape] + 1); ++k) r.rep.push_back(cell()); }
  if (f < 4) { sym_cover("structured"); Check(f, head, t); return; }
  sym_cover("native"); std::stringstream out; auto p = bant::TablePrinter::Create(out, bant::OutputFormat::kNative, head); std::vector<std::vector<std::string>> want;
  for (auto &r : t) if (r.repeated) { p->AddRowWithRepeatedLastColumn(r.cell, r.rep); for (auto &l : r.rep) { want.push_back(r.cell); want.back().push_back(l); } } else { p->AddRow(r.cell); want.push_back(r.cell); }
  p->Finish(); std::string o = out.str(); std::vector<size_t> width(cols); for (auto &w : want) for (int c = 0; c < cols; ++c) width[c] = std::max(width[c], w[c].size()); size_t q = 0;
  for (auto &w : want) { for (int c = 0; c < cols; ++c) { sym_assert(o.compare(q, w[c].size(), w[c]) == 0, "cell at its column"); q += w[c].size(); if (c + 1 < cols) { const size_t pad = width[c] + 1 - w[c].size(); sym_assert(o.compare(q, pad, std::string(pad, ' ')) == 0, "padded to the next column"); q += pad; } } while (q < o.size() && o[q] == ' ') ++q; sym_assert(q < o.size() && o[q] == '\n', "a line for each row"); ++q; }
  sym_assert(q == o.size(), "nothing else"); sym_trace((long)q);
}
