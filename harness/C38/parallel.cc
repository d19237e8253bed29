// @TITLE: results are stored whole and under their own file's key for every schedule of the workers and after an interrupt
// @SRCS: scripts/run-clang-tidy-cached.cc
// @FLAGS: -Dmain=tidy_main
// @WRAP: fopen popen pclose system getenv isatty
// @COVER: finding interrupted same-key different
// @TIME: 120 700
// @BOUND: 3 files (two of the same name in different directories, with same or different content), 2 workers, every schedule with at most 1 preemption at locks and commands, at most 1 interrupted command; then an undisturbed run
// @BOUND-THOROUGH: at most 2 preemptions, 3 workers
// @ASSUME: different contents have different hashes; accesses outside locks are ordered by the locks (no data race); the analyser does not depend on the directory of a file (the shared result is by name, content and headers)
#include "C38/tidy.h"
using namespace tidy;
void harness_main() {
  Setup(); auto &s = symsched::w(); s.hw = 2 + sym_tier(); s.preempt = 1 + sym_tier(); interrupts() = 1;
  const int k = sym::choose(3, "content"); Put("bant/a.cc", "1!"); Put("bant/d/a.cc", k == 0 ? "1!" : k == 1 ? "2!" : "2"); Put("bant/b.cc", "3!"); sym_cover(k == 0 ? "same-key" : "different");
  int r = Main(); if (interrupts() == 1) CheckReport(r);
  s.preempt = 0; interrupts() = 0; r = Main(); CheckReport(r); r = Main(); CheckReport(r); sym_assert(calls().empty(), "an unchanged project is not analysed again");
  sym::trace(Get("bant_clang-tidy.summary"));
}
