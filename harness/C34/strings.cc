// @TITLE: strings of any content in any attribute
// @SRCS: bant/explore/aliased-by.cc bant/explore/dependency-graph.cc bant/explore/header-providers.cc bant/tool/canon-targets.cc bant/tool/compilation-db.cc bant/tool/dwyu.cc bant/tool/edit-callback.cc bant/tool/workspace.cc bant/util/table-printer.cc bant/util/glob-match-builder.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc bant/explore/query-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: done
// @BOUND: any of 9 attributes of 4 rules having a string of up to 3 characters out of 9
// @BOUND-THOROUGH: up to 4 characters
// @TIME: 200 780
#include "stages.h"
extern "C" void harness_main() {
  static const char *const kAttr[] = {"name = S", "srcs = [S]", "hdrs = [\"a.h\", S]", "deps = [S]", "visibility = [S]", "includes = [S]", "hdrs = [\"p/a.h\"], strip_include_prefix = S", "hdrs = [\"a.h\"], include_prefix = S", "hdrs = glob([S])"};
  static const char *const kOther[] = {"alias(name = \"a\", actual = S)", "genrule(name = \"a\", srcs = [S], outs = [S])", "alias(name = S, actual = \":a\")", "proto_library(name = S, srcs = [S])"};
  std::string s = "\""; const int n = sym::range(0, 3 + sym_tier(), "length"); for (int i = 0; i < n; ++i) { const char *const k = "a/:@.*\\~'"; s += k[sym::choose(9, "char")]; } s += "\"";
  const int k = sym::choose(13, "place"); std::string t, r = k < 9 ? std::string("cc_library(") + (k ? "name = \"a\", " : "") + kAttr[k] + ")" : kOther[k - 9]; for (char c : r) if (c == 'S') t += s; else t += c;
  RunAll(t + "\n", true); sym_cover("done");
}
