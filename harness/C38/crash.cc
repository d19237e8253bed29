// @TITLE: a run that is killed at any change of the file system leaves nothing that a later run takes for a result
// @SRCS: scripts/run-clang-tidy-cached.cc
// @FLAGS: -Dmain=tidy_main
// @WRAP: fopen popen pclose system getenv isatty
// @COVER: killed finished finding again
// @TIME: 120 700
// @BOUND: two sources, one including a header of the project; first run, or a second run after a change of the header, killed before any one of its changes of the file system or in the middle of any write; then two undisturbed runs; 1 worker
// @BOUND-THOROUGH: 2 workers, every schedule with at most 1 preemption
// @ASSUME: changes of the file system reach the disk in the order they are made; different contents have different hashes
#include "C38/tidy.h"
using namespace tidy;
void harness_main() {
  Setup(); auto &s = symsched::w(); s.hw = 1 + sym_tier(); s.preempt = 0;
  Put("bant/a.cc", "#include \"x.h\"\n!"); Put("bant/b.cc", sym::flip("b-clean") ? "2" : "2!"); Put("bant/x.h", "1");
  auto &f = symfs::fs(); if (sym::flip("second-run")) { int r = Main(); CheckReport(r); Put("bant/x.h", "3!"); sym_cover("again"); }
  s.preempt = sym_tier(); f.changes = 0; f.crash_at = sym::choose(64, "crash"); Main(); s.preempt = 0; const bool killed = f.has_crashed; sym_cover(killed ? "killed" : "finished"); f.restart();
  int r = Main(); CheckReport(r); r = Main(); CheckReport(r); sym_assert(calls().empty(), "an unchanged project is not analysed again");
  sym::trace(Get("bant_clang-tidy.summary"));
}
