// @TITLE: the options of .bazelrc are taken over once each, in order
// @SRCS: bant/tool/compilation-db.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: option quoted again host windows other none
// @BOUND: up to 2 lines of any of 8 shapes, option of 1 to 2 characters (the second: 1) out of 4; the last line with or without end
// @BOUND-THOROUGH: up to 3 lines, option of 1 character
// @ASSUME: lines giving options for a named configuration (build:asan) or in comments are taken like others; no define of absl
// @TIME: 200 780
#include "compdb.h"
extern "C" void harness_main() {
  static const char *const kShape[] = {"build --cxxopt=@", "build --cxxopt @", "build --host_cxxopt=\"@\"", "build  --cxxopt='@' --copt=-w", "build --copt=@", "test --cxxopt=@ --cxxopt=-w", "build --cxxopt=/@", "build --cxxopt"};
  const int n = sym::range(0, 2 + sym_tier(), "lines"); std::string text; std::vector<std::string> want; auto add = [&](const std::string &o) { for (auto &x : want) if (x == o) { sym_cover("again"); return; } want.push_back(o); };
  for (int i = 0; i < n; ++i) {
    const int k = sym::choose(8, "shape"); std::string o = "-"; if (k != 7) o += sym::upto(i || sym_tier() ? 1 : 2, "a=/-", "option", 1); for (char &c : o) c = (char)sym_concretize((unsigned char)c);
    for (const char *c = kShape[k]; *c; ++c) if (*c == '@') text += o; else text += *c;
    if (i + 1 < n || sym::flip("end")) text += "\n";
    if (k <= 3 || k == 5) { add(o); sym_cover("option"); if (k == 2) sym_cover("host"); if (k == 2 || k == 3) sym_cover("quoted"); } if (k == 5) add("-w"); if (k == 6) sym_cover("windows"); if (k == 4 || k == 7) sym_cover("other");
  }
  symfs::fs().put(".bazelrc", "build --cxxopt=-not\n"); const auto got = bant::ExtractOptionsFromBazelrc(text); sym_assert(got == want, "options of the text given, once each in order"); if (want.empty()) sym_cover("none");
  symfs::fs().put(".bazelrc", text); Proj p; auto flags = Flags(p); want.push_back("-I."); want.push_back("-Ibazel-bin"); sym_assert(flags == want, "options come first");
}
