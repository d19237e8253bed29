// @TITLE: tool, arguments and configuration belong to the key; exactly the affected files are analysed again
// @SRCS: scripts/run-clang-tidy-cached.cc
// @FLAGS: -Dmain=tidy_main
// @WRAP: fopen popen pclose system getenv isatty
// @COVER: finding nothing-to-do config version args source newer clean stable-clean back
// @TIME: 120 700
// @BOUND: three sources and a header; two runs, between them any one of 11 changes (none, configuration, tool version, tool name, argument (other, added, removed), one byte of a source or header, build files or compilation database newer, file renamed or copied) and a third run with the change undone
// @ASSUME: different contents have different hashes (std::hash is the real one on the contents explored)
#include "C38/tidy.h"
using namespace tidy;
void harness_main() {
  Setup(); symsched::w().hw = 1; symsched::w().preempt = 0; env().args = {"-y"};
  std::string a = sym::over(2, "1!", "a.cc"), h = sym::over(1, "1!", "x.h"); for (char &c : a) c = (char)sym_concretize((unsigned char)c); h[0] = (char)sym_concretize((unsigned char)h[0]);
  Put("bant/a.cc", std::string("#include \"x.h\"\n") + a[0]); Put("bant/b.cpp", std::string(1, a[1])); Put("bant/d/c.cxx", "1"); Put("bant/x.h", h); Put("bant/readme.txt", "!"); Put("bant/t.hh", "!"); Put("other/o.cc", "!");
  const bool envdir = sym::flip("CACHE_DIR"); if (envdir) symstdio::w().env.emplace_back("CACHE_DIR", "/c");
  int r = Main(); CheckReport(r); std::set<std::string> want, bad; for (auto &c : calls()) { sym_assert(c.second == 1, "a file is analysed once"); want.insert(c.first); }
  sym_assert(want == std::set<std::string>({"bant/a.cc", "bant/b.cpp", "bant/d/c.cxx", "bant/x.h"}), "every source and header is analysed"); want.clear();
  for (auto &f : {"bant/a.cc", "bant/b.cpp", "bant/x.h"}) if (!Findings(f, ArgText(), false).empty()) bad.insert(f);
  const std::set<std::string> all{"bant/a.cc", "bant/b.cpp", "bant/d/c.cxx", "bant/x.h"}; const int what = sym::choose(11, "change"); bool undo = false; std::string old;
  switch (what) {
  case 0: sym_cover("nothing-to-do"); break;
  case 1: Put(".clang-tidy", "cfg2"); want = all; sym_cover("config"); break;
  case 2: env().version = "LLVM version 18.1.4\n"; want = all; sym_cover("version"); undo = true; break;
  case 3: { const char *k = "args"; int n = sym::choose(3, k); if (n == 0) env().args = {"-x"}; if (n == 1) env().args.push_back("-x"); if (n == 2) env().args.clear(); } want = all; sym_cover("args"); undo = true; break;
  case 4: old = Get("bant/b.cpp"); Put("bant/b.cpp", old + "2"); want = {"bant/b.cpp"}; sym_cover("source"); undo = true; break;
  case 5: old = Get("bant/x.h"); Put("bant/x.h", old + "2"); want = {"bant/a.cc", "bant/x.h"}; undo = true; break;
  case 6: Put("MODULE.bazel", "m"); want = bad; sym_cover(bad.empty() ? "stable-clean" : "newer"); break;
  case 7: Put("compile_commands.json", "[]"); want = bad; break;
  case 8: Put("bant/d/e.cc", Get("bant/b.cpp")); want = {"bant/d/e.cc"}; break;
  case 9: Put("bant/d/y.h", "1"); want = {"bant/d/y.h"}; break;
  case 10: env().version = "LLVM version 19.0.0\n"; env().tool = "clang-tidy-19"; symstdio::w().env.emplace_back("CLANG_TIDY", "clang-tidy-19"); want = all; break;
  }
  r = Main(); CheckReport(r); std::set<std::string> got; for (auto &c : calls()) { sym_assert(c.second == 1, "a file is analysed once"); got.insert(c.first); }
  sym_assert(got == want, "exactly the files with other inputs, or findings older than the build files, are analysed again"); if (r == 0) sym_cover("clean");
  if (undo) {
    if (what == 2) env().version = "LLVM version 18.1.3\n"; if (what == 3) env().args = {"-y"}; if (what == 4) Put("bant/b.cpp", old); if (what == 5) Put("bant/x.h", old);
    r = Main(); CheckReport(r); sym_assert(calls().empty(), "results of a state that was seen before are found again"); sym_cover("back");
  }
}
