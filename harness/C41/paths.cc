// @TITLE: file names in the report are relative to the project, whatever the name of its directory
// @SRCS: scripts/run-clang-tidy-cached.cc
// @FLAGS: -Dmain=tidy_main
// @WRAP: fopen popen pclose system getenv isatty
// @COVER: cwd root dot inner special none
// @TIME: 120 700
// @BOUND: directory /w?x/p of the project, or /b?/r of bazel's view of it, with any byte but / NUL newline and apostrophe at the ?; one line (two, if the byte is special in regular expressions), each starting with the project directory, bazel's directory, ./, both, or nothing, some naming the directory again within the line
// @BOUND-THOROUGH: two lines
// @ASSUME: paths without newline
#include "C38/tidy.h"
using namespace tidy;
void harness_main() {
  const bool which = sym::flip("which"); uint8_t c = sym::byte("char"); sym_assume((c != 0) & (c != '/') & (c != '\n') & (c != '\'')); const char ch = (char)sym_concretize(c);
  const bool special = strchr("+*?()[]{}|^$.\\", ch) != nullptr; if (special) sym_cover("special");
  const std::string cwd = which ? std::string("/w") + ch + "x/p" : "/w", root = which ? "/b/root" : std::string("/b") + ch + "/r";
  Setup(); auto &f = symfs::fs(); f.cwdnode = f.mkdirs(cwd); f.cwd = cwd; Put(".clang-tidy", "cfg"); Put("MODULE.bazel", "m"); Put("compile_commands.json", "[]");
  symsched::w().hw = 1; symsched::w().preempt = 0;
  symstdio::w().output = [&](const std::string &c) { return c.starts_with("bazel") ? root + "\n" : env().version; };
  Put("bant/a.cc", "1"); std::string raw, want;
  for (int i = 0; i < 1 + (special || sym_tier()); ++i) {
    const int p = sym::choose(i ? 3 : 5, "prefix"); std::string rest = "bant/a.cc:1:2: warning: x [a]\n"; if (i && sym::flip("inner")) { rest = "bant/a.cc:1: in " + cwd + "/bant ./b [a]\n"; sym_cover("inner"); }
    static const char *kCover[] = {"cwd", "root", "none", "dot", "dot"}; sym_cover(kCover[p]);
    raw += (p == 0 ? cwd + "/" : p == 1 ? root + "/" : p == 2 ? "" : p == 3 ? "./" : cwd + "/./") + rest; want += rest;
  }
  says() = [&](const std::string &) { return raw; };
  const int status = Main(); sym_assert(status != 0, "findings make the status a failure");
  sym_assert(Get("bant_clang-tidy.out") == "bant/a.cc:\n" + want, "names of files are relative to the project, all else is as the tool wrote it");
  sym_assert(Get("bant_clang-tidy.summary") == (special || sym_tier() ? "    2 [a]\n" : "    1 [a]\n"), "all are counted"); says() = nullptr;
  sym::trace(want);
}
