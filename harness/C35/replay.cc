// @TITLE: a later run touches exactly the recorded paths, whatever the workers' schedule
// @SRCS: bant/util/filesystem-prewarm-cache.cc
// @WRAP: fopen popen pclose system getenv isatty open close read stat lstat access opendir readdir closedir glob globfree
// @COVER: file dir other exact cancelled
// @TIME: 120 700
// @BOUND: a record of 2 lines of any kind byte out of 3 and path of 0 to 1 characters out of 2, last line with or without end, without preemption; a record of 2 lines under every schedule with at most 1 preemption at locks and notifications; 2 of the workers get to run before exit; run to the end, or exit right away
// @BOUND-THOROUGH: 3 lines, 2 preemptions, 3 workers
// @ASSUME: paths without newline; accesses outside locks are ordered by the locks (no data race)
#include "prewarm.h"
using namespace prewarm;
void harness_main() {
  Setup(); auto &s = symsched::w(); const int T = sym_tier(); s.preempt = 0; s.max_threads = 2 + T;
  s.start_points = false; symfs::fs().cwd = "/v"; Init({"print"}); symfs::fs().cwd = "/w"; symfs::fs().mkdirs("/v"); const std::string last = Records().at(0);
  Init({"print"}); auto rec = Records(); std::erase(rec, last); sym_assert(rec.size() == 1, "one record per project and arguments"); sym_assert(symfs::fs().log.empty() && s.t.size() == 1, "without a record nothing is touched");
  const bool sched = sym::flip("schedules"); std::string text; std::multiset<std::string> want;
  for (int i = 0; i < 2 + T; ++i) {
    if (sched) { text += i ? "Db\n" : "Fa\n"; want.insert(i ? "opendir b" : "access a"); continue; }
    std::string k = sym::over(1, "FDx", "kind"), p = sym::upto(1, "ab", "path"); k[0] = (char)sym_concretize((unsigned char)k[0]); if (!p.empty()) p[0] = (char)sym_concretize((unsigned char)p[0]);
    text += k + p; if (i <= T || sym::flip("end")) text += "\n"; if (p.empty() || k == "x") { sym_cover("other"); continue; } want.insert((k == "F" ? "access " : "opendir ") + p); sym_cover(k == "F" ? "file" : "dir");
  }
  symfs::fs().put(rec[0], text); symfs::fs().mkdirs("/w/b"); const bool early = sym::flip("exit_early"); s.preempt = sched ? 1 + T : 0;
  Init({"print"}); sym_assert(Get(rec[0]).empty(), "the record is begun anew");
  if (!early) { symsched::drain(); std::multiset<std::string> got(symfs::fs().log.begin(), symfs::fs().log.end()); sym_assert(got == want, "exactly the recorded paths are touched"); sym_cover("exact"); }
  bant::FilesystemPrewarmCacheRememberFileWasAccessed("z"); sym_assert(Get(rec[0]) == "Fz\n", "the new record has the accesses of this run");
  // What happens at exit: the pool is destroyed, here since another one takes its place.
  const size_t workers = s.t.size(); s.preempt = early ? s.preempt : 0; s.max_threads = 0;
  symfs::fs().cwd = "/v"; Init({"print"}); for (size_t i = 1; i < workers; ++i) sym_assert(s.t[i]->done, "every worker ends"); if (early) sym_cover("cancelled");
  for (auto *x : symfs::fs().h) sym_assert(!x->open, "no directory stays open");
  std::multiset<std::string> got(symfs::fs().log.begin(), symfs::fs().log.end()); sym_assert(std::includes(want.begin(), want.end(), got.begin(), got.end()), "nothing but the recorded paths is touched");
}
