// @TITLE: every way to write a quoted include makes the result depend on the header
// @SRCS: scripts/run-clang-tidy-cached.cc
// @FLAGS: -Dmain=tidy_main
// @WRAP: fopen popen pclose system getenv isatty
// @COVER: finding changed odd-name
// @TIME: 120 700
// @BOUND: one source whose include line has any of 3 blanks (or none) at each of 3 places, 5 path prefixes, 8 header names (and, in one form, names with any first byte), alone or after another include; the header changes between two runs
// @ASSUME: file names without apostrophe; different contents have different hashes (std::hash is the real one on the contents explored)
#include "C38/tidy.h"
using namespace tidy;
void harness_main() {
  Setup(); symsched::w().hw = 1; symsched::w().preempt = 0;
  static const char *kName[] = {"x.h", "x.pb.h", "x+y.hpp", "x-y.hxx", "x y.h", "x@1.inl", "1.h", "x.H.h"}; static const char *kPre[] = {"", "d/", "../", "./", "a.b/c++/"};
  const int n = sym::choose(9, "name"); std::string name = n < 8 ? kName[n] : "q.h";
  if (n == 8) { uint8_t c = sym::byte("char"); sym_assume((c != 0) & (c != '/') & (c != '"') & (c != '\n') & (c != '.') & (c != '\'')); name[0] = (char)sym_concretize(c); }
  if (n > 2) sym_cover("odd-name");
  auto blank = [n](const char *w) { if (n == 8) return std::string(*w == 'h' ? 0 : 1, ' '); std::string s = sym::over(1, " \t-", w); s[0] = (char)sym_concretize((unsigned char)s[0]); return s == "-" ? std::string() : s; };
  std::string line = blank("before") + "#" + blank("hash") + "include" + blank("after") + "\"" + kPre[n == 8 ? 0 : sym::choose(5, "prefix")] + name + "\"\n", other = "#include \"z.h\"\n";
  const int order = n == 8 ? 0 : sym::choose(2, "order"); Put("bant/a.cc", order == 0 ? line : other + line); Put("bant/z.h", "z"); Put("bant/d/" + name, "1");
  int r = Main(); CheckReport(r);
  Put("bant/d/" + name, sym::flip("bad") ? "2!" : "2"); r = Main(); CheckReport(r); sym_assert(calls().count("bant/a.cc"), "a source is analysed again when a header it includes changed"); sym_cover("changed");
}
