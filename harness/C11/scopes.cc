// @TITLE: which names stand for a variable: calls, members, keywords, comprehensions, tuples, nesting
// @SRCS: bant/frontend/elaboration.cc bant/frontend/parsed-project.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/util/glob-match-builder.cc bant/workspace.cc bant/util/stat.cc
// @BOUND: two variables, each any of 6 values, followed by two of 27 statements using names as callee, member, keyword, comprehension variable, tuple element, select and glob look-alikes
// @COVER: shadowed membered replaced rejected
// @ASSUME: no free names in the value of a variable are bound by a comprehension using it; no conditional directly after a member access
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "symfs.h"
#include "refelab.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  static const char kVal[][9] = {"'a'     ", "['b']   ", "foo     ", "x.y     ", "1       ", "g('c')  "};
  static const char kUse[][44] = {
    "X(a = Y)                                   ",
    "X(Y)(X)                                    ",
    "f(X = X, Y = [Y])                          ",
    "f(g = X(Y))                                ",
    "a = [X for X in Y]                         ",
    "a = [X for (X, Y) in X]                    ",
    "a = [[X for Y in X] for Z in Y]            ",
    "a = {X: Y for Y in X}                      ",
    "f(a = [X + Y for Z in Y for Y in X])       ",
    "a = Z.X                                    ",
    "a = X.Y.Z                                  ",
    "a = Z.X(Y)                                 ",
    "a = '%s'.format(X)                         ",
    "a = Z.X[Y]                                 ",
    "X.append(Y)                                ",
    "(X, Y) = f(Y)                              ",
    "(Z, X) = Y                                 ",
    "(a,) = X                                   ",
    "Y = X                                      ",
    "f(X[Y:X])                                  ",
    "f(-X, not Y, X in Y)                       ",
    "a = X if Y else X                          ",
    "Z.select({'//conditions:default': X})      ",
    "X = Z.Y + X                                ",
    "b = [f(X = Y) for Q in X]                  ",
    "f(X = select({':c': X}) + Y)               ",
    "f(select({':c': X, ':d': Y}), h(Y))        "};
  std::string t = "X = "; t += TokenText(kVal, 6, 1, "x"); t += "\nY = "; t += TokenText(kVal, sym_tier() ? 6 : 4, 1, "y"); t += '\n'; t += TokenText(kUse, 27, 1, "use"); t += '\n'; t += TokenText(kUse, 27, 1, "use"); t += "\nend(X, Y)\n";
  RefElab ref({}); CheckElab(t, "//p", &ref);
  if (ref.shadowed) sym_cover("shadowed"); if (ref.membered) sym_cover("membered"); if (ref.replaced) sym_cover("replaced");
}
