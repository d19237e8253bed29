// @TITLE: any sequence of tokens, in any place
// @SRCS: bant/explore/aliased-by.cc bant/explore/dependency-graph.cc bant/explore/header-providers.cc bant/tool/canon-targets.cc bant/tool/compilation-db.cc bant/tool/dwyu.cc bant/tool/edit-callback.cc bant/tool/workspace.cc bant/util/table-printer.cc bant/util/glob-match-builder.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc bant/explore/query-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: done
// @BOUND: any sequence of 3 tokens out of 19 in any of 6 places of a file
// @BOUND-THOROUGH: 4 tokens out of 16
// @TIME: 200 780
#include "stages.h"
extern "C" void harness_main() {
  static const char *const kPlace[] = {"", "cc_library(name = \"a\", ", "cc_library(name = \"a\", hdrs = ", "cc_library(name = \"a\", deps = [", "x = ", "alias(name = \"a\", actual = "};
  static const char *const kToken[] = {"(", ")", "[", "]", "{", "}", ",", "=", "+", ".", ":", "\"//q:b\"", "x", "for", "in", "if", "else", "cc_library", "\n"};
  std::string t = kPlace[sym::choose(6, "place")]; const int n = 3 + sym_tier(); for (int i = 0; i < n; ++i) { t += kToken[sym::choose(sym_tier() ? 16 : 19, "token")]; t += " "; }
  t += "\ncc_library(name = \"a\", srcs = x)\n"; RunAll(t, false); sym_cover("done");
}
