// @TITLE: a stored result is reported again only if the file and the headers it includes are as before
// @SRCS: scripts/run-clang-tidy-cached.cc
// @FLAGS: -Dmain=tidy_main
// @WRAP: fopen popen pclose system getenv isatty
// @COVER: finding reused rerun swapped
// @TIME: 120 700
// @BOUND: one source with 6 include texts, two headers x.h y.h of one byte each out of three, before and after an arbitrary change of all three; two runs
// @BOUND-THOROUGH: as quick, three runs
// @ASSUME: different contents have different hashes (std::hash is the real one on the contents explored)
#include "C38/tidy.h"
using namespace tidy;
static const char *kSrc[] = {"int a;", "#include \"x.h\"\n", "#include \"x.h\"\n#include \"y.h\"\n", "#include \"d/y.h\"\n#include \"bant/x.h\"\n", "#include \"x.h\"\n#include \"bant/x.h\"\n", "#include \"x.h\"\n#include \"y.h\"\n#include \"../bant/x.h\"\n"};
static std::string Fill() { std::string t; int s = sym::choose(6, "source"); std::string x = sym::over(1, "12!", "x.h"), y = sym::over(1, "12!", "y.h"); x[0] = (char)sym_concretize((unsigned char)x[0]); y[0] = (char)sym_concretize((unsigned char)y[0]); Put("bant/a.cc", kSrc[s]); Put("bant/x.h", x); Put("bant/d/y.h", y); return std::string(kSrc[s]) + "\1" + x + "\1" + y; }
void harness_main() {
  Setup(); symsched::w().hw = 1; symsched::w().preempt = 0;
  std::string before, last; 
  for (int run = 0; run < (sym_tier() ? 3 : 2); ++run) {
    std::string now = Fill(); int r = Main(); CheckReport(r);
    if (run && now == last) { sym_assert(calls().empty(), "an unchanged project is not analysed again"); sym_cover("reused"); }
    if (run && now != last && calls().count("bant/a.cc")) sym_cover("rerun");
    if (run && now[now.size() - 1] == last[last.size() - 3] && now[now.size() - 3] == last[last.size() - 1] && now != last) sym_cover("swapped");
    last = now;
  }
}
