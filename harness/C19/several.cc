// @TITLE: sets of include and exclude patterns
// @SRCS: bant/util/glob-match-builder.cc
// @BOUND: every subset of up to 3 of 7 include patterns together with every subset of up to 2 (with 3 includes: 1) of 6 exclude patterns, deep and long ones among them; any one of 26 paths, or 1 to 2 components of arbitrary characters out of 4; predicates asked several times and built twice
// @COVER: selected excluded not-selected dirs
// @BOUND-THOROUGH: all subsets of the include patterns
// @TIME: 200 700
#include <string>
#include <vector>
#include "bant/util/glob-match-builder.h"
#include "refglob.h"
#include "reflabel.h"
extern "C" void harness_main() {
  static const char *const kIn[] = {"*.cc", "**/*.h", "a/b.cc", "src/**", "a/*/c/*.cc", "x", "a/**/testdata/very-long-directory-name-of-more-than-fifty-characters/**/*_test.cc"};
  static const char *const kEx[] = {"*_test.cc", "src/gen/**", "**/b.h", "a/b.cc", "**/*.cc", "x"};
  static const char *const kPath[] = {"m.cc", "m_test.cc", "b.h", "a/b.h", "a/b.cc", "a/b/c/d.cc", "a/b/c/d_test.cc", "a/b/b/c/d.cc", "src/x", "src/gen/x", "src/gen/a/b.h", "srcs/x", "src", "x", "xx", "a/x", "a/b/c.h", "a/bb.cc", "q/src/x", ".h", "a/.h", "a.h/b", "a/testdata/very-long-directory-name-of-more-than-fifty-characters/x_test.cc", "a/u/v/testdata/very-long-directory-name-of-more-than-fifty-characters/w/y/x_test.cc", "a/testdata/x_test.cc", "aXb.cc"};
  bant::GlobMatchBuilder b; std::vector<std::string> in, ex; int n = 0;
  for (auto &p : kIn) if ((sym_tier() || in.size() < 3) && sym::flip("include")) in.push_back(p);
  for (auto &p : kEx) if (n < (in.size() < 3 ? 2 : 1) && sym::flip("exclude")) { ex.push_back(p); ++n; }
  if (n % 2) { for (auto &p : ex) b.AddExcludePattern(p); for (size_t i = in.size(); i-- > 0;) b.AddIncludePattern(in[i]); } else { for (auto &p : in) b.AddIncludePattern(p); for (auto &p : ex) b.AddExcludePattern(p); }
  std::string path; const int k = sym::choose(27, "path"); if (k < 26) path = kPath[k]; else { path = sym::upto(2, "a.xs", "component", 1); if (sym::flip("deep")) path += "/" + sym::upto(2, "b.hc", "component", 1); }
  Comps c; for (auto &x : RefSplit(path, '/')) c.push_back(x);
  bool inc = false, exc = false; for (auto &p : in) inc |= Path(RefSplit(p, '/'), c); for (auto &p : ex) exc |= Path(RefSplit(p, '/'), c);
  auto f1 = b.BuildFileMatchPredicate(); auto dir = b.BuildDirectoryMatchPredicate(); auto f2 = b.BuildFileMatchPredicate(); const bool want = inc && !exc;
  sym_assert(f1(path) == want, want ? "file matching an include and no exclude pattern is selected" : "no other file is selected"); f1("m.cc"); f2("x"); sym_assert(f1(path) == want && f2(path) == want, "the answer stays the same"); sym_cover(want ? "selected" : inc ? "excluded" : "not-selected");
  if (inc) { sym_cover("dirs"); for (size_t i = 0; i < path.size(); ++i) if (path[i] == '/') sym_assert(dir(path.substr(0, i)), "directory on the way to a matching file is accepted"); }
  sym_trace(want);
}
