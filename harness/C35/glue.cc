// @TITLE: files read and directories listed are what gets recorded
// @SRCS: bant/util/filesystem-prewarm-cache.cc bant/util/file-utils.cc
// @WRAP: fopen popen pclose system getenv isatty open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: file dir missing
// @TIME: 120 700
// @BOUND: two operations (read a file, list a directory recursively) on any of 7 paths of a tree with a link and a directory named as a build file
#include "prewarm.h"
#include "bant/util/file-utils.h"
using namespace prewarm;
void harness_main() {
  Setup(); auto &f = symfs::fs(); f.put("/w/a/BUILD", "x"); f.put("/w/b/c/BUILD", "yy"); f.mkdirs("/w/d/BUILD"); int l = f.put("/w/l", "/w/b"); f.n[l].kind = 'l'; Init({"print"}); std::string want; std::set<std::string> seen;
  auto add = [&](std::string e) { if (seen.insert(e).second) want += e + "\n"; };
  static const char *kPath[] = {"a/BUILD", "b/c/BUILD", "d/BUILD", "none", "l/c/BUILD", "b", "a"};
  for (int i = 0; i < 2; ++i) {
    const std::string p = kPath[sym::choose(7, "path")]; f.log.clear(); const int x = f.walk(p); if (x < 0) sym_cover("missing");
    if (sym::flip("read")) { auto c = bant::ReadFileToString(bant::FilesystemPath(p)); sym_assert(c.has_value() == (x >= 0 && f.n[x].kind == 'f'), "a file can be read"); if (x >= 0) { add("F" + p); sym_cover("file"); } }
    else { bant::CollectFilesRecursive(bant::FilesystemPath(p), [](const bant::FilesystemPath &) { return true; }, [](const bant::FilesystemPath &) { return true; }); for (auto &e : f.log) if (e.starts_with("opendir ")) { const std::string d = e.substr(8); const int y = f.walk(d); if (y >= 0 && f.n[y].kind == 'd') { add("D" + d); sym_cover("dir"); } } }
  }
  auto rec = Records(); sym_assert(rec.size() == 1 && Get(rec[0]) == want, "the record lists the accesses made"); sym::trace(want);
}
