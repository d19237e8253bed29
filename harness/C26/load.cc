// @TITLE: projects named in workspace files are found in the directories they have been extracted to
// @SRCS: bant/workspace.cc bant/util/file-utils.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @BOUND: one dependency declared in any of the four workspace files, with an arbitrary name of 1 to 2 characters out of 3, version and repository name given or not; two external directories of arbitrary names (1 to 2 characters and one of 4 suffixes), one of them a file; with and without the scan of external directories
// @BOUND-THOROUGH: two dependencies
// @COVER: found absent version override glob repo_name augmented
// @TIME: 300 780
#include "symfs.h"
#include "bant/workspace.h"
#include "bant/session.h"
#include <sstream>
#include <map>
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
static std::string Name(const char *n) { return "a" + sym::upto(1, "ab", n); }
extern "C" void harness_main() {
  auto &f = symfs::fs(); const std::string base = "bazel-out/../../../external"; f.mkdirs("bazel-out"); f.mkdirs("external");
  static const char *const kSuffix[] = {"", "~1", "~override", "~2"}; std::vector<std::string> dirs, names; const int nd = 2;
  for (int i = 0; i < nd; ++i) { const int sf = sym::choose(4, "suffix"); std::string d = Name("dir") + kSuffix[sf]; for (auto &o : names) sym_assume(o != d); names.push_back(d); const bool isdir = i != 0 || sf == 1 || sf == 3 || sym::flip("is_dir"); if (isdir) { f.mkdirs("external/" + d); dirs.push_back(d); } else f.put("external/" + d, "x"); }
  static const char *const kFile[] = {"WORKSPACE", "MODULE.bazel", "WORKSPACE.bazel", "WORKSPACE.bzlmod"}; struct Dep { std::string name, key, version; }; std::vector<Dep> deps;
  const int file = sym::choose(4, "file"); std::string text;
  for (int i = 0; i < (sym_tier() ? 2 : 1); ++i) {
    Dep d; d.name = Name("name"); d.key = d.name; std::string t = std::string(file == 0 ? "http_archive" : "bazel_dep") + "(name=\"" + d.name + "\"";
    if (sym::flip("version")) { d.version = "1"; t += ",version=\"1\""; } if (sym::flip("repo_name")) { d.key = "r" + std::string(1, '0' + i); t += ",repo_name=\"" + d.key + "\""; sym_cover("repo_name"); }
    for (auto &o : deps) sym_assume(o.name != d.name); deps.push_back(d); text += t + ")\n";
  }
  f.put(kFile[file], text); std::stringstream out, info; bant::Session session(&out, &info, {});
  auto ws = bant::LoadWorkspace(session); sym_assert(ws.has_value(), "a workspace file is there"); const bool aug = sym::flip("augment"); if (aug) bant::BestEffortAugmentFromExternalDir(*ws);
  auto has = [&](const std::string &d) { for (auto &x : dirs) if (x == d) return true; return false; };
  std::map<std::string, std::string> want;
  for (auto &d : deps) {
    std::string dir; if (!d.version.empty() && has(d.name + "~1")) { dir = d.name + "~1"; sym_cover("version"); } else if (has(d.name)) dir = d.name; else if (has(d.name + "~override")) { dir = d.name + "~override"; sym_cover("override"); }
    else for (const char *s : {"~1", "~2"}) if (dir.empty() && has(d.name + s)) { dir = d.name + s; sym_cover("glob"); }
    if (!dir.empty()) want[d.key] = dir;
  }
  const std::map<std::string, std::string> declared = want;
  for (auto *s : sym_tier() ? std::initializer_list<const char *>{"a", "aa", "ab", "r0", "r1", "b"} : std::initializer_list<const char *>{"a", "aa", "ab", "r0", "b"}) {
    const auto r = ws->FindPathByProject(s); const auto q = ws->FindPathByProject(std::string("@") + s); sym_assert(r.has_value() == q.has_value() && (!r || r->path() == q->path()), "with or without @");
    if (r) sym::trace(r->path()); auto it = declared.find(s);
    if (it != declared.end()) { sym_cover("found"); sym_assert(r.has_value() && r->path() == base + "/" + it->second, "the directory the project is in"); continue; }
    bool any = false; if (aug) for (auto &d : dirs) any |= d.substr(0, d.find('~')) == s;
    if (!any) { sym_cover("absent"); sym_assert(!r, "not known"); continue; }
    sym_cover("augmented"); sym_assert(r.has_value(), "project with an external directory is known"); bool ok = false; for (auto &d : dirs) ok |= d.substr(0, d.find('~')) == s && r->path() == base + "/" + d; sym_assert(ok, "and found in a directory of that name");
  }
}
