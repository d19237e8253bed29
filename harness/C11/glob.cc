// @TITLE: glob calls are replaced by the files they select
// @SRCS: bant/frontend/elaboration.cc bant/frontend/parsed-project.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/util/glob-match-builder.cc bant/workspace.cc bant/util/stat.cc
// @BOUND: a package in the root, a directory, or another project with files in up to three directories (one name out of 6), any of 14 forms of glob calls, with include and exclude any of 8 patterns
// @BOUND-THOROUGH: 8 names, and one more with up to two arbitrary characters
// @COVER: globbed empty kept external root excluded positional
// @ASSUME: include patterns are constants, or not known at all; exclude patterns are constants
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include <algorithm>
#include "symfs.h"
#include "refelab.h"
#include "refglob.h"
#include "reflabel.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
static std::vector<std::string> g_files; static bool g_empty = false, g_excluded = false;
static std::vector<std::string> Select(const std::vector<std::string> &inc, const std::vector<std::string> &exc) {
  std::vector<std::string> r; for (auto &f : g_files) { const auto c = RefSplit(f, '/'); bool in = false, ex = false; for (auto &p : inc) in |= Path(RefSplit(p, '/'), c); for (auto &p : exc) ex |= Path(RefSplit(p, '/'), c); if (in && ex) g_excluded = true; if (in && !ex) r.push_back(f); }
  std::sort(r.begin(), r.end()); g_empty |= r.empty(); return r;
}
extern "C" void harness_main() {
  static const char kPat[][8] = {"'*.h'  ", "'**'   ", "'d/*'  ", "'a.h'  ", "'**/*c'", "'d/**' ", "'x*'   ", "'d'    "};
  static const std::string_view kForm[][3] = {{"glob([", "])", ""}, {"glob([", ", ", "])"}, {"glob(include = [", "], exclude = [", "])"}, {"glob([", "], exclude = [", "])"}, {"glob([", "], [", "])"}, {"glob(exclude = [", "], include = [", "])"}, {"glob(X + [", "], exclude = X + [", "])"}, {"glob(U)", "", ""}, {"['v'] + glob([", "]) + glob([", "])"}, {"native.glob([", "], exclude = [", "], allow_empty = 1)"}, {"globe([", "])", ""}, {"glob(glob([", "]))", ""}, {"glob([U, ", "])", ""}, {"select({'//conditions:default': glob(select({'//conditions:default': [", "]}))})", ""}};
  auto &f = symfs::fs(); const int where = sym::choose(3, "package"); static const char *const kDir[] = {"", "p/", "ext/r/p/"}; static const char *const kPkg[] = {"//", "//p", "@r//p"};
  bant::BazelWorkspace ws; ws.project_location[{"r", "1"}] = bant::FilesystemPath("ext/r"); if (where == 2) sym_cover("external"); if (where == 0) sym_cover("root");
  static const char *const kName[] = {"x", ".h", "ac", "x.h", "a.c", "a.h", "d.h", "xh"};
  std::string nm = kName[sym::choose(sym_tier() ? 8 : 6, "file")];
  if (nm != "a.h") g_files.push_back(nm); g_files.insert(g_files.end(), {"a.h", "d/b.h", "d/e/c.c"}); if (sym_tier()) { std::string m = sym::upto(2, "hc.x", "name", 1); for (char &c : m) c = (char)sym_concretize((unsigned char)c); sym_assume(m != "." && m != ".."); g_files.push_back("d/" + m); }
  for (auto &x : g_files) f.put(kDir[where] + x, "");  f.mkdirs(std::string(kDir[where]) + "x.d"); if (where) f.put("q.h", "");
  const int form = sym::choose(14, "form"); std::string t = "X = ['x.a']\nf(k = "; t += kForm[form][0]; if (!kForm[form][1].empty()) t += TokenText(kPat, 8, 1, "pattern"); t += kForm[form][1]; if (!kForm[form][2].empty()) t += TokenText(kPat, 8, 1, "pattern2"); t += kForm[form][2]; t += ")\n";
  RefElab ref({}); ref.glob = Select; CheckElab(t, kPkg[where], &ref, ws); sym_assert(f.leaked() == 0, "directories are closed");
  if (ref.globbed) sym_cover("globbed"); else sym_cover("kept"); if (g_empty) sym_cover("empty"); if (g_excluded) sym_cover("excluded"); if (form == 4) sym_cover("positional");
}
