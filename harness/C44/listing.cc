// @TITLE: what commands print does not depend on the order directories are listed in
// @SRCS: bant/cli-commands.cc bant/explore/aliased-by.cc bant/explore/dependency-graph.cc bant/explore/header-providers.cc bant/tool/canon-targets.cc bant/tool/compilation-db.cc bant/tool/dwyu.cc bant/tool/edit-callback.cc bant/tool/workspace.cc bant/util/table-printer.cc bant/util/glob-match-builder.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc bant/explore/query-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: permuted both preferred glob elaborated findings external parse-error
// @BOUND: two packages with up to five files (two names arbitrary letters), BUILD and BUILD.bazel in one of them (content: libraries with glob()s of up to two patterns, or with a syntax error), listed with any two of them first (thorough: four), the others forward or reversed; any of 14 commands and 3 patterns
// @ASSUME: no symbolic links between the directories of a package
// @TIME: 200 780
#include "../C27/cli.h"
#include <algorithm>
static void Shuffle(const char *dir, int most) {
  auto &f = symfs::fs(); auto &k = f.n[f.walk(dir)].kids; const auto was = k; int n = k.size();
  for (int i = 0; i < n - 1 && i < most; ++i) { const int at = i + sym::choose(n - i, "next"); const auto x = k[at]; k.erase(k.begin() + at); k.insert(k.begin() + i, x); }
  if (k != was) sym_cover("permuted");
}
extern "C" void harness_main() {
  static const char *const kPattern[] = {"//...", "//p:all", "//p:a"}; const int cmd = sym::choose(14, "command"), pat = sym::choose(3, "pattern"), both = sym::choose(4, "build_files");
  auto &f = symfs::fs(); f.put("WORKSPACE", ""); const std::string bad = both == 3 ? "cc_library(name = \n" : ""; const char *const g = both % 2 ? "glob([\"**/*.h\", \"*.cc\"], exclude = [\"m.h\"])" : "glob([\"*.h\"]) + glob([\"**/n*\"])";
  if (both != 1) f.put("p/BUILD", std::string("cc_library(name = \"a\", hdrs = ") + g + ", srcs = [\"x.cc\"], deps = [\":none\", \"//q:q\"])\nalias(name = \"s\", actual = \"//p:a\")\ngenrule(name = \"g\", outs = [\"o.h\"])\n" + bad);
  if (both != 0) { f.put("p/BUILD.bazel", std::string("cc_library(name = \"a\", hdrs = ") + g + ", srcs = [\"x.cc\"])\ncc_library(name = \"preferred\")\n"); }
  f.put("p/" + sym::over(1, "amz", "header") + ".h", ""); f.put("p/x.cc", "#include \"q/c.h\"\n#include \"p/d/n.h\"\n"); f.put("p/d/n.h", ""); f.put("p/d/" + sym::over(1, "az", "header2") + ".h", "");
  f.put("q/BUILD", "cc_library(name = \"q\", hdrs = [\"c.h\"], deps = [\"//p:a\"])\ncc_library(name = \"r\", hdrs = [\"c.h\"])\n" + bad);
  if (cmd == 4) { f.put("bazel-out/x", ""); f.put("external/e~1/BUILD", "cc_library(name = \"e\")"); sym_cover("external"); }
  bant::CommandlineFlags fl; fl.elaborate = cmd < 4 && sym::flip("elaborate"); fl.print_only_errors = both == 3 && cmd < 2; fl.recurse_dependency_depth = sym::flip("recursive") ? 9 : 0;
  const Ran a = Cli({kCommands[cmd], kPattern[pat]}, fl); Shuffle("p", sym_tier() ? 4 : 2); if (sym::flip("other_directories")) { for (const char *d : {"p/d", "."}) { auto &k = f.n[f.walk(d)].kids; std::reverse(k.begin(), k.end()); } } const Ran b = Cli({kCommands[cmd], kPattern[pat]}, fl);
  sym_assert(a.status == b.status, "same status"); sym_assert(a.out == b.out, "same output"); sym_assert(a.info == b.info, "same messages"); sym::trace(a.out);
  if (both >= 2) { sym_cover("both"); sym_assert(a.out.find("none") == std::string::npos, "BUILD is not used if there is a BUILD.bazel"); }
  if (a.out.find("preferred") != std::string::npos) sym_cover("preferred"); if (a.out.find("/n.h") != std::string::npos) sym_cover("glob"); if (fl.elaborate) sym_cover("elaborated"); if (a.status != bant::CliStatus::kExitSuccess) sym_cover("findings"); if (a.info.find("expected") != std::string::npos) sym_cover("parse-error");
}
