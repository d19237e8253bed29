// @TITLE: file and directory predicates of include and exclude patterns
// @SRCS: bant/util/glob-match-builder.cc
// @BOUND: one include pattern out of 16 forms (up to 4 components, up to 2 wildcards) with arbitrary letters or of 1 to 3 arbitrary characters, optionally a second include or an exclude pattern; any path of 1 to 3 components of 1 to 2 arbitrary characters
// @BOUND-THOROUGH: arbitrary patterns of up to 4 characters, paths of up to 4 components
// @COVER: selected excluded not-selected star doublestar trailing verbatim second special dirs
// @TIME: 300 780
#include <string>
#include <vector>
#include "bant/util/glob-match-builder.h"
#include "refglob.h"
#include "reflabel.h"
static std::string Pattern(const char *name, bool rich) {
  static const char *const kForm[] = {"?", "*", "?*", "*?", "?*?", "**/?", "**", "?/**", "?/?", "?/*", "*/?", "?/**/?*", "**/*?", "?/**/?/?", "*/**/?", "?/*/?/*"};
  const int k = sym::choose(rich ? 17 : 8, (std::string(name) + ".form").c_str());
  if (k == 16) {
    std::string p = sym::upto(sym_tier() ? 4 : 3, "a.*/", name, 1); for (char &c : p) c = (char)sym_concretize((unsigned char)c);
    for (auto &c : RefSplit(p, '/')) { sym_assume(!c.empty() && c != "." && c != ".."); int st = 0; for (size_t i = 0; i < c.size(); ++i) st = c[i] == '*' && i && c[i - 1] == '*' ? 1 : st; if (st) sym_assume(c == "**"); }
    return p;
  }
  std::string p = kForm[k]; for (char &c : p) if (c == '?') { c = sym::over(1, "a.[", name)[0]; c = (char)sym_concretize((unsigned char)c); if (c == '[') sym_cover("special"); } return p;
}
extern "C" void harness_main() {
  bant::GlobMatchBuilder b; const std::string in = Pattern("include", true); std::string in2, ex; const int more = sym::choose(3, "more");
  b.AddIncludePattern(in); if (more == 1) { in2 = Pattern("include2", false); b.AddIncludePattern(in2); sym_cover("second"); } if (more == 2) { ex = Pattern("exclude", false); b.AddExcludePattern(ex); }
  if (in == "*") sym_cover("star"); if (in.starts_with("**")) sym_cover("doublestar"); if (in.size() > 3 && in.ends_with("/**")) sym_cover("trailing"); if (in.find('*') == std::string::npos) sym_cover("verbatim");
  const int nc = sym::range(1, sym_tier() ? 4 : 3, "components"); Comps c; std::string path; std::vector<std::string> dirs;
  for (int i = 0; i < nc; ++i) { std::string s = sym::upto(i + 1 == nc ? 2 : sym_tier() ? 2 : 1, "ab.[", "component", 1); if (i) { dirs.push_back(path); path += "/"; } path += s; c.push_back(s); }
  const bool inc = Path(RefSplit(in, '/'), c) || (more == 1 && Path(RefSplit(in2, '/'), c)), exc = more == 2 && Path(RefSplit(ex, '/'), c), want = inc && !exc;
  auto file = b.BuildFileMatchPredicate(); auto dir = b.BuildDirectoryMatchPredicate(); const bool got = file(path); sym_trace(got);
  sym_assert(got == want, want ? "file matching an include and no exclude pattern is selected" : "no other file is selected"); sym_cover(want ? "selected" : inc ? "excluded" : "not-selected");
  if (inc) for (auto &d : dirs) { sym_cover("dirs"); sym_assert(dir(d), "directory on the way to a matching file is accepted"); }
}
