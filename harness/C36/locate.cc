// @TITLE: locations of any text of any parsed file name that file and the true position
// @SRCS: bant/frontend/parsed-project.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc
// @ASSUME: text past the first syntax error of a file is not parsed and has no position
// @BOUND: two to three files with 0 to 4 arbitrary bytes (also broken ones) between fixed text; any sub-range of any of them; same package added twice
// @BOUND-THOROUGH: 0 to 6 bytes
// @COVER: multi-line same-package broken surrounding
// @TIME: 300 780
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "symfs.h"
#include "project.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  Proj p; const bool same = sym::flip("same_package"); std::string mid = sym::upto(sym_tier() ? 6 : 4, "x\n\"(", "content"); const std::string t0 = "foo(name = \"n" + mid + "\")\n";
  const auto *a = p.add("//a", t0); const std::string t1 = "bar(\n  name = \"m\")"; const auto *b = p.add(same ? "//a" : "//b", t1);
  if (same) { sym_cover("same-package"); sym_assert(a == b && p.project.ParsedFiles().size() == 1, "first file of the package is kept"); sym_assert(p.info.str().find("already seen before") != std::string::npos, "and the conflict reported"); }
  if (p.project.error_count()) { sym_cover("broken"); sym_assert(!a->errors.empty() && !p.info.str().empty(), "errors are kept and reported"); }
  const std::string_view id = FirstCall(a);
  if (id != "foo") return; const char *base = id.data(); const int from = sym::choose((int)t0.size(), "from"), len = sym::range(1, 2, "len"); sym_assume(from + len <= (p.project.error_count() ? 12 : (int)t0.size())); /* text past a syntax error is not parsed */
  const auto loc = p.project.GetLocation(std::string_view(base + from, len)); sym_assert(loc.filename == "a/BUILD", "names the file");
  int line = 0, col = 0, eline = 0, ecol = 0; for (int i = 0; i < from + len; ++i) { if (i == from) line = eline, col = ecol; if (t0[i] == '\n') { ++eline; ecol = 0; } else ++ecol; }
  sym_assert(loc.line_column_range.start.line == line && loc.line_column_range.start.col == col, "start position"); sym_assert(loc.line_column_range.end.line == eline && loc.line_column_range.end.col == ecol, "end position"); if (line) sym_cover("multi-line");
  const std::string_view sl = p.project.GetSurroundingLine(std::string_view(base + from, len)); int s = from; while (s > 0 && t0[s - 1] != '\n') --s; int e = from; while (e < (int)t0.size() && t0[e] != '\n') ++e; 
  sym_cover("surrounding"); sym_assert(sl.data() == base + s, "surrounding line starts where the line does"); sym_assert(sl.size() >= (size_t)(e - s), "and has all of it");
  if (!same) { const auto id2 = FirstCall(b); sym_assert(id2 == "bar", "call found"); const auto l2 = p.project.GetLocation(id2); sym_assert(l2.filename == "b/BUILD" && l2.line_column_range.start.line == 0 && l2.line_column_range.start.col == 0, "other file"); }
}
