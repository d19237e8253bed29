// @TITLE: rules with any kind of value in any attribute
// @SRCS: bant/explore/aliased-by.cc bant/explore/dependency-graph.cc bant/explore/header-providers.cc bant/tool/canon-targets.cc bant/tool/compilation-db.cc bant/tool/dwyu.cc bant/tool/edit-callback.cc bant/tool/workspace.cc bant/util/table-printer.cc bant/util/glob-match-builder.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc bant/explore/query-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: done
// @BOUND: one of 9 rules with one of 7 names, and any of 15 attributes having any of 30 values
// @BOUND-THOROUGH: two attributes, with values out of 30 and 8
// @TIME: 200 780
#include "stages.h"
extern "C" void harness_main() {
  static const char *const kRule[] = {"cc_library", "alias", "genrule", "cc_test", "proto_library", "bazel_dep", "package", "git_repository", "cc_binary"}, *const kName[] = {"\"a\"", "", "\":\"", "\"\"", "1", "\"a\" + \"b\"", "[\"a\"]"};
  static const char *const kAttr[] = {"srcs", "hdrs", "deps", "visibility", "actual", "outs", "include_prefix", "strip_include_prefix", "includes", "textual_hdrs", "public_hdrs", "alwayslink", "version", "default_visibility", "repo_name"};
  static const char *const kValue[] = {"[\"a.cc\", \"a.h\"]", "\"\"", "\"//q:b\"", "[\"\"]", "[\":\"]", "[\"//q:b\", \":a\", \"@x//e:f\", \"//\", \"@\", \"//nope:x\"]", "[1, -1]", "1", "None", "x", "[x]", "[]", "{}", "()", "(\"a.h\",)", "[[\"a.h\"]]", "{\"a\": \"b\"}", "select({\"//conditions:default\": [\"a.cc\"]})", "select({})", "glob([\"*\"])", "glob()", "glob([\"*.cc\"], [\"\", 1])", "[\"a.cc\"] + x", "\"a\" % x", "-\"a\"", "[y for y in z]", "f()", "\"a\" if x", "[\"a.cc\"] + [\"../..\", \"/\"]", "x.y[0](1)"};
  auto value = [&](int n, const char *nm) { return std::string(" = ") + kValue[sym::choose(n, nm)] + ", "; };
  const std::string rule = kRule[sym::choose(9, "rule")]; const char *name = kName[sym::choose(7, "name")]; std::string t = rule + "(" + (*name ? std::string("name = ") + name + ", " : "");
  const int a = sym::choose(15, "attribute"); t += kAttr[a] + value(30, "value"); if (sym_tier()) { const int b = sym::choose(15, "attribute"); sym_assume(a != b); t += kAttr[b] + value(8, "value"); }
  RunAll("q = \"//q:b\"\n" + t + ")\n", true); sym_cover("done");
}
