// @TITLE: structured table output is well formed and decodes to the rows and cells given
// @SRCS: bant/util/table-printer.cc
// @BOUND: JSON, CSV, s-expression and property list with 1 to 3 columns, 0 to 3 rows, each plain or with 0 to 2 repeated last columns; three arbitrary bytes in the cells (two adjacent ones, at any place in the table), arbitrary bytes in a header where the format allows
// @BOUND-THOROUGH: four arbitrary bytes
// @COVER: json csv sexpr plist repeated empty-list no-rows header
// @TIME: 300 780
#include "C23/decode.h"
extern "C" void harness_main() {
  static const char *const kName[] = {"json", "csv", "sexpr", "plist"};
  const int f = sym::choose(4, "format"), cols = sym::range(1, 3, "columns"), rows = sym::choose(4, "rows"); sym_cover(kName[f]); if (!rows) sym_cover("no-rows");
  std::vector<std::string> head; for (int i = 0; i < cols; ++i) head.push_back(std::string("col") + char('a' + i)); 
  const int special = sym::choose(4, "place"); if (special == 3 && f < 2) { head[0] = sym::bytes(2, "header"); sym_cover("header"); }
  int seen = 0; std::vector<std::string *> cells; std::vector<Row> t(rows);
  for (int i = 0; i < rows; ++i) {
    Row &r = t[i]; const int k = sym::choose(i == 0 ? 4 : 2, "row"); r.repeated = k > 0; const int nrep = k == 0 ? 0 : k == 1 ? 2 : k - 2; if (r.repeated) sym_cover("repeated"); if (r.repeated && !nrep) sym_cover("empty-list");
    for (int c = 0; c < (r.repeated ? cols - 1 : cols); ++c) r.cell.push_back(std::string(1, 'k' + c) + "1"); for (int c = 0; c < nrep; ++c) r.rep.push_back(c ? "" : "z'");
  }
  for (auto &r : t) { for (auto &c : r.cell) cells.push_back(&c); for (auto &c : r.rep) cells.push_back(&c); }
  const int nb = sym_tier() ? 3 : 2;
  if (!cells.empty() && special < 3) { std::string *a = special == 0 ? cells.front() : special == 1 ? cells.back() : cells[cells.size() / 2]; *a = sym::bytes(nb, "cell"); std::string *b = cells[cells.size() > 1 ? cells.size() - 2 : 0]; if (b != a) *b += sym::bytes(1, "cell2"); }
  Check(f, head, t);
}
