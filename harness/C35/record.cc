// @TITLE: every reported access is recorded once, with its kind; nothing is written without a cache directory
// @SRCS: bant/util/filesystem-prewarm-cache.cc
// @WRAP: fopen popen pclose system getenv isatty open close read stat lstat access opendir readdir closedir glob globfree
// @COVER: off again both-kinds
// @TIME: 120 700
// @BOUND: up to 3 reports of any kind of paths of 1 to 2 characters out of 3; HOME not set, cache directory absent, a file, or there
// @BOUND-THOROUGH: up to 4 reports
// @ASSUME: paths without newline
#include "prewarm.h"
using namespace prewarm;
void harness_main() {
  Setup(); const int mode = sym::choose(4, "mode"); auto &f = symfs::fs(); if (mode) f.unlink("/h/.cache/bant"); if (mode == 1) symstdio::w().env.clear(); if (mode == 2) f.put("/h/.cache/bant", "x"); const bool on = mode == 0;
  const bool init = mode == 3 || sym::flip("init"); if (init) Init({"print"}); const size_t nodes = f.n.size();
  std::string want; std::set<std::string> seen;
  const int n = sym::range(0, 3 + sym_tier(), "reports");
  for (int i = 0; i < n; ++i) {
    const bool file = sym::flip("file"); std::string p = sym::upto(2, "ab/", "path", 1); for (char &c : p) c = (char)sym_concretize((unsigned char)c);
    if (file) bant::FilesystemPrewarmCacheRememberFileWasAccessed(p); else bant::FilesystemPrewarmCacheRememberDirWasAccessed(p);
    const std::string e = (file ? "F" : "D") + p; if (seen.insert(e).second) want += e + "\n"; else sym_cover("again"); if (seen.count((file ? "D" : "F") + p)) sym_cover("both-kinds");
  }
  if (!on || !init) { sym_assert(f.n.size() == nodes && (mode == 2 ? f.n[f.walk("/h/.cache/bant")].data == "x" : true), "nothing is written without caching"); sym_assert(f.log.empty(), "nothing is touched without caching"); sym_cover("off"); return; }
  auto rec = Records(); sym_assert(rec.size() == 1, "one record"); sym_assert(Get(rec[0]) == want, "each access is recorded exactly once, with its kind"); sym::trace(Get(rec[0]));
}
