// @TITLE: comparable arguments use the same record, others do not
// @SRCS: bant/util/filesystem-prewarm-cache.cc
// @WRAP: fopen popen pclose system getenv isatty open close read stat lstat access opendir readdir closedir glob globfree
// @COVER: same different flags cwd
// @TIME: 120 700
// @BOUND: two argument lists of up to 2 arguments out of 4, the second with any one of 8 flag insertions at any place; same or other directory
// @ASSUME: different contents have different hashes (std::hash is the real one); lists differing only in order or in pairs of equal arguments are not told apart
#include "prewarm.h"
using namespace prewarm;
static std::vector<std::string> List(std::vector<std::string> *plain, bool flags) {
  static const char *kArg[] = {"print", "dwyu", "//...", "-r"}; const int n = sym::range(0, 2, "n"); std::vector<std::string> r; for (int i = 0; i < n; ++i) r.push_back(kArg[sym::choose(4, "arg")]); *plain = r;
  static const std::vector<std::string> kFlag[] = {{}, {"-v"}, {"-q"}, {"-k"}, {"-vq"}, {"-C", "/w"}, {"-o", "out"}, {"-f", "json"}}; const int k = flags ? sym::choose(8, "flag") : 0; if (k) { const int at = sym::range(0, n, "at"); r.insert(r.begin() + at, kFlag[k].begin(), kFlag[k].end()); sym_cover("flags"); } return r;
}
void harness_main() {
  Setup(); std::vector<std::string> p1, p2, a = List(&p1, false); const bool other = sym::flip("cwd"); Init(a); auto r1 = Records(); sym_assert(r1.size() == 1, "one record");
  symsched::w().max_threads = 0; if (other) { symfs::fs().cwd = "/v"; sym_cover("cwd"); } std::vector<std::string> b = List(&p2, true); Init(b); auto r2 = Records();
  auto norm = [](std::vector<std::string> x) { std::sort(x.begin(), x.end()); if (x.size() == 2 && x[0] == x[1]) x.clear(); return x; };
  if (norm(p1) != norm(p2) || other) { sym_assert(r2.size() == 2, "other arguments or directory: another record"); sym_cover("different"); } else if (p1 == p2) { sym_assert(r2.size() == 1, "comparable arguments: the same record"); sym_cover("same"); }
}
