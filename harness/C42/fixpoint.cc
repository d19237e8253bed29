// @TITLE: after the suggested dependency edits there is nothing left to suggest
// @SRCS: bant/tool/dwyu.cc bant/explore/header-providers.cc bant/explore/aliased-by.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @BOUND: as C31: a library, binary or test with a source and a header (in tree, generated or missing) with up to 4 includes arbitrary out of 10 names, 3 libraries in 2 packages exporting any of 3 headers with any of 10 attribute values (one of them with two at once), up to 2 aliases (also chained), up to 3 arbitrary dependencies (known or not, kept or not); sources given in 12 ways (lists, variables, select, glob, unknown), textual or public headers or not; in six parts that vary a part of this each; additions are at the end of the list, in the order suggested
// @BOUND-THOROUGH: more attribute combinations, deprecated and private aliases
// @ASSUME: of a sum of a list and something unknown, elaboration deliberately keeps the list only; sources given like this are taken to be that list
// @COVER: added removed both nothing
// @TIME: 300 780
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "dwyucommon.h"
extern "C" void harness_main() {
  Dwyu d; AnySituation(d, sym::choose(6, "part")); Dwyu e = d; d.Run();
  if (d.added_text.empty() && d.removed_text.empty()) { sym_cover("nothing"); return; }
  sym_cover(d.removed_text.empty() ? "added" : d.added_text.empty() ? "removed" : "both");
  auto has = [](const std::vector<std::string> &v, const std::string &x) { for (auto &y : v) if (x == y) return true; return false; };
  std::vector<Dwyu::Dep> deps; for (auto &x : e.deps) if (!has(d.removed_text, x.label)) deps.push_back(x);
  for (size_t i = 0; i < d.added_text.size(); ++i) deps.push_back({d.added_text[i], d.added_list[i], 0});
  e.deps = deps; e.Run();
  sym_assert(e.added_text.empty(), "nothing more to add"); sym_assert(e.removed_text.empty(), "nothing more to remove");
}
