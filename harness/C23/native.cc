// @TITLE: plain text tables have a line for each row with the cells in aligned columns
// @SRCS: bant/util/table-printer.cc
// @BOUND: 1 to 3 columns, 0 to 3 rows, each plain or with 0 to 2 repeated last columns; cells of 0, 1, 3, 11 or 40 arbitrary bytes at the beginning (no newline), any of the sizes in any two cells
// @BOUND-THOROUGH: any of the sizes in any four cells
// @COVER: repeated empty-list no-rows wide empty-cell
// @TIME: 200 780
#include <sstream>
#include <vector>
#include "bant/util/table-printer.h"
#include "sym.h"
static int varied;
static std::string Cell(int seed) {
  static const int kSize[] = {2, 0, 1, 3, 11, 40}; int n = 2; if (varied < (sym_tier() ? 4 : 2)) { const int k = sym::choose(6, "size"); if (k) { ++varied; n = kSize[k]; } } if (n == 40) sym_cover("wide"); if (n == 0) sym_cover("empty-cell");
  std::string s(n, 'a'); for (int i = 0; i < n; ++i) s[i] = "abcdefgh%"[(i + seed) % 9]; if (n) { s[0] = (char)sym::byte("byte"); sym_assume(s[0] != '\n'); } return s;
}
extern "C" void harness_main() {
  static const char *const kHead[] = {"one", "a-long-header", "x"}; const int cols = 1 + sym::choose(3, "columns"), rows = sym::choose(4, "rows"); std::stringstream out; out << "before\n";
  auto t = bant::TablePrinter::Create(out, bant::OutputFormat::kNative, std::vector<std::string>(kHead, kHead + cols)); std::vector<std::vector<std::string>> want;
  for (int r = 0; r < rows; ++r) {
    std::vector<std::string> row; for (int c = 0; c + 1 < cols; ++c) row.push_back(Cell(r + c));
    const int repeat = sym::choose(4, "repeat"); std::vector<std::string> last; for (int i = 0; i < (repeat == 0 ? 1 : repeat - 1); ++i) last.push_back(Cell(r + i + 3));
    if (repeat == 0) { row.push_back(last[0]); t->AddRow(row); want.push_back(row); } else { sym_cover(last.empty() ? "empty-list" : "repeated"); t->AddRowWithRepeatedLastColumn(row, last); for (auto &l : last) { want.push_back(row); want.back().push_back(l); } }
  }
  t->Finish(); std::string o = out.str(); sym_assert(o.compare(0, 7, "before\n") == 0, "appended"); o = o.substr(7); if (want.empty()) sym_cover("no-rows");
  std::vector<size_t> width(cols); for (auto &w : want) for (int c = 0; c < cols; ++c) width[c] = std::max(width[c], w[c].size());
  size_t p = 0;
  for (auto &w : want) {
    for (int c = 0; c < cols; ++c) {
      for (char ch : w[c]) { sym_assert(p < o.size() && o[p] == ch, "cell at its column"); ++p; }
      if (c + 1 < cols) for (size_t i = w[c].size(); i < width[c] + 1; ++i) { sym_assert(p < o.size() && o[p] == ' ', "padded to the next column"); ++p; }
    }
    while (p < o.size() && o[p] == ' ') ++p; sym_assert(p < o.size() && o[p] == '\n', "a line for each row"); ++p;
  }
  sym_assert(p == o.size(), "nothing else"); sym::trace(o);
}
