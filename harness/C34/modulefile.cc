// @TITLE: workspace files of any kind
// @SRCS: bant/explore/aliased-by.cc bant/explore/dependency-graph.cc bant/explore/header-providers.cc bant/tool/canon-targets.cc bant/tool/compilation-db.cc bant/tool/dwyu.cc bant/tool/edit-callback.cc bant/tool/workspace.cc bant/util/table-printer.cc bant/util/glob-match-builder.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc bant/explore/query-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: done none
// @BOUND: a MODULE.bazel or WORKSPACE with one call of any of 7 kinds having two of any of 9 attributes with any of 12 and 4 values, then any of 3 tokens; or none of these files
// @BOUND-THOROUGH: 12 values for both, 9 tokens
// @TIME: 200 780
#include "stages.h"
extern "C" void harness_main() {
  const int file = sym::choose(3, "file"); if (!file) { symfs::fs().put("WORKSPACE.txt", "module()"); std::stringstream o; bant::Session s(&o, &o, {}); sym_assert(!bant::LoadWorkspace(s).has_value(), "no workspace file"); sym_cover("none"); return; }
  static const char *const kRule[] = {"bazel_dep", "http_archive", "git_repository", "archive_override", "git_override", "local_path_override", "module"}, *const kAttr[] = {"name", "version", "repo_name", "module_name", "path", "url", "urls", "strip_prefix", "commit"};
  static const char *const kValue[] = {"\"x\"", "\"\"", "1", "[\"x\"]", "[]", "None", "x", "\"x\" + \"y\"", "\"@\"", "\"../e\"", "[1]", "f()"}, *const kToken[] = {"", "(", ")", "=", "[", "x", "bazel_dep()", "use_repo(x, \"y\", z = \"q\")", "load(\"//q:d.bzl\", \"r\")"};
  std::string t = std::string(kRule[sym::choose(7, "rule")]) + "("; const int a = sym::choose(9, "attribute"), b = sym::choose(9, "attribute"); sym_assume(sym_tier() ? a != b : a < b); for (int x : {a, b}) t += std::string(kAttr[x]) + " = " + kValue[sym::choose(x == a || sym_tier() ? 12 : 4, "value")] + ", ";
  t += ")\n"; t += kToken[sym::choose(sym_tier() ? 9 : a == 0 ? 3 : 1, "token")]; auto &f = symfs::fs(); f.put(file == 1 ? "MODULE.bazel" : "WORKSPACE", t); f.mkdirs("bazel-out/../../../external/x~1"); f.put("external/x/BUILD", ""); f.put("bazel-w/external/x~1.0/BUILD", ""); f.put("bazel-w/external/y/BUILD", "");
  bant::CommandlineFlags flags; flags.verbose = 3; std::stringstream out, info; bant::Session s(&out, &info, flags); auto w = bant::LoadWorkspace(s); if (w.has_value()) { bant::BestEffortAugmentFromExternalDir(*w); sym_cover("done"); Proj p(*w, flags); p.add("//p", "cc_library(name = \"a\", deps = [\"@x\", \"@y//:z\", \"@@x//e\"])\n"); Stages(p, *bant::BazelPattern::ParseFrom("//..."), *bant::BazelPattern::ParseFrom("//p:a")); }
  sym_assert(f.leaked() == 0, "files are closed");
}
