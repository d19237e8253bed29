// @TITLE: BUILD files found in a directory tree are attributed to the package of their directory
// @SRCS: bant/frontend/parsed-project.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc
// @BOUND: two BUILD files (two names) up to two directories deep with arbitrary directory names of 1 to 2 characters (also starting with a dot), in the main or an external project in any of 3 places; four kinds of pattern
// @BOUND-THOROUGH: three BUILD files
// @COVER: root dotdir external both recursive one-package below
// @TIME: 300 780
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "symfs.h"
#include "project.h"
#include "reflabel.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  auto &f = symfs::fs(); const int ext = sym::choose(4, "project"); static const char *const kBase[] = {"", "ext/r", "bazel-out/../../../external/r", "x"}; const std::string base = kBase[ext]; f.mkdirs("bazel-out"); f.mkdirs("external");
  bant::BazelWorkspace ws; if (ext) { ws.project_location[{"r", "1"}] = bant::FilesystemPath(base); sym_cover("external"); }
  std::vector<std::string> dir, file; const int n = sym_tier() ? 3 : 2; std::string first;
  for (int i = 0; i < n; ++i) {
    std::string d; const int depth = sym::choose(i == 0 ? 3 : 2, "depth"); for (int k = 0; k < depth; ++k) { std::string c = k ? sym::over(1, "ab", "dir") : sym::upto(2, ".a", "dir", 1); sym_assume(c != "." && c != ".."); if (k) d += "/"; d += c; for (char &x : d) x = (char)sym_concretize((unsigned char)x); }
    if (d.starts_with(".")) sym_cover("dotdir"); if (d.empty()) sym_cover("root"); const std::string path = (base.empty() ? "" : ext == 2 ? "external/r/" : base + "/") + (d.empty() ? "" : d + "/") + (sym::flip("bazel") ? "BUILD.bazel" : "BUILD");
    for (auto &o : file) sym_assume(o != path); bool dup = false; for (auto &o : dir) dup |= o == d; if (dup) sym_cover("both");
    f.put(path, "foo(name=\"t" + std::string(1, '0' + i) + "\")\n"); dir.push_back(d); file.push_back(path);
  }
  f.put((base.empty() ? "" : ext == 2 ? "external/r/" : base + "/") + std::string("a/BUILDX"), "foo(name=\"no\")\n");
  const int pk = sym::choose(3, "pattern"); static const char *const kPat[] = {"//...", "//a/...", "//a:all"}; const auto pat = bant::BazelPattern::ParseFrom(std::string(ext ? "@r" : "") + kPat[pk]); sym_assert(pat.has_value(), "pattern"); sym_cover(pk == 2 ? "one-package" : pk ? "below" : "recursive");
  Proj p(ws); p.project.FillFromPattern(p.session, *pat); sym_assert(f.leaked() == 0, "files are closed");
  std::set<std::string> want; for (auto &d : dir) if (pk == 0 || d == "a" || (pk == 1 && d.starts_with("a/"))) want.insert(d);
  sym_assert(p.project.ParsedFiles().size() == want.size(), "one parsed file for each package in the pattern");
  for (const auto &[pkg, parsed] : p.project.ParsedFiles()) {
    sym_assert(pkg.project == (ext ? "@r" : "") && pkg == parsed->package, "in the project it was collected for"); sym_assert(want.count(pkg.path) == 1, "package is the directory relative to the root of the project"); sym::trace(pkg.path);
    int i = -1, have = 0; for (int k = 0; k < n; ++k) if (dir[k] == pkg.path) { ++have; if (i < 0 || file[k].ends_with(".bazel")) i = k; }
    const std::string_view id = FirstCall(parsed.get()); const auto loc = p.project.GetLocation(id);
    sym_assert(f.walk(loc.filename) == f.walk(file[i]), "content of the file of the package (BUILD.bazel if there are two), located in it"); sym_assert(f.walk(parsed->name()) == f.walk(file[i]), "name of it");
    sym_assert(p.project.FindParsedOrNull(pkg) == parsed.get(), "is found by its package"); sym_assert((p.info.str().find("already seen before") != std::string::npos) || have < 2, "conflict is reported");
  }
  if (want.size() == 2 || (want.size() == 1 && n == 2 && dir[0] != dir[1])) sym_assert(p.info.str().empty(), "no conflict"); sym_assert(p.project.error_count() == 0, "no errors");
}
