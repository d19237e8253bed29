// @TITLE: variables, concatenation and select over constants and unknowns
// @SRCS: bant/frontend/elaboration.cc bant/frontend/parsed-project.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/util/glob-match-builder.cc bant/workspace.cc bant/util/stat.cc
// @BOUND: two variables assigned and one call, with 4 holes in 8 frames (chains, parentheses, reassignment, nesting), each any of 14 values: plain, raw, triple-quoted strings, numbers, lists, tuples, maps, variables, unknown variables, select, calls
// @COVER: folded replaced selected partial mixed rejected
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "symfs.h"
#include "refelab.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  static const char kVal[][42] = {
    "\"a\"                                      ", "X                                        ", "[\"e\", X]                                 ", "(X + \"p\")                                ", "r'\\n'                                    ", "select({1: X, '//conditions:default':Y}) ", "('t', 1)                                 ", "{'k': X}                                 ", "\"\"\"\n\"\"\"                                  ", "U                                        ", "Y                                        ", "'\\''                                     ", "[]                                       ", "7                                        "};
  static const std::string_view kFrame[][5] = {{"X = ", "\nY = ", " + ", "\nf(k = ", ")\n"}, {"X = ", " + ", " + ", "\nf(X, Y, ", ")\n"}, {"X = ", "\nf(k = [", " + X, ", "], l = ", ")\n"}, {"X = ", "\nY = (", " + X) + ", "\nX = ", "\ng(X)(X)\n"}, {"X = ", "\nX = X + ", "\nf(n = g(X = ", ", a = X + ", "), b = X)\n"}, {"X = 'x'\n(X, Y) = ", "\nf(X + ", ")\nY = ", " if X else ", "\ng(Y)\n"}, {"X = ", "\nY = select({'a': ", " + X, X : ", "}) + ", "\ng(Y, X)\n"}, {"X = ", "\nY = -", " + X\nf(X - ", " + X, X == ", ")\ng(Y)\n"}};
  const int f = sym::choose(8, "frame"); std::string t(kFrame[f][0]);
  for (int i = 0; i < 4; ++i) { if (i == 3 && !sym_tier()) t += "'v'"; else t += TokenText(kVal, i == 0 ? 12 : i == 1 ? 9 : i == 2 && sym_tier() ? 14 : 7, 1, "value"); t += kFrame[f][i + 1]; }
  RefElab ref({}); CheckElab(t, "//p", &ref);
  if (ref.folded) sym_cover("folded"); if (ref.replaced) sym_cover("replaced"); if (ref.selected) sym_cover("selected"); if (ref.partial) sym_cover("partial"); if (ref.mixed) sym_cover("mixed");
}
