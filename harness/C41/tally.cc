// @TITLE: the summary counts every finding under the check it is tagged with, most frequent first
// @SRCS: scripts/run-clang-tidy-cached.cc
// @FLAGS: -Dmain=tidy_main
// @WRAP: fopen popen pclose system getenv isatty
// @COVER: digit comma tie order untagged two-files
// @COVER-THOROUGH: digit comma tie order untagged two-files
// @TIME: 120 700
// @BOUND: two sources; one finding tagged with any check name of 3 characters out of letters, digits and .,+#=- and two more findings with either of 4 names or untagged text
// @BOUND-THOROUGH: three more findings
// @ASSUME: a finding is a line that ends with the name of the check in brackets
#include "C38/tidy.h"
using namespace tidy;
void harness_main() {
  Setup(); symsched::w().hw = 1; symsched::w().preempt = 0;
  Put("bant/a.cc", "1"); Put("bant/b.cc", "2");
  static const char *kName[] = {"[cert-err58-cpp]", "[a,b-c]", "[clang-diagnostic-c++17-extensions]", "[a]"};
  std::string own = sym::bytes(3, "tag");
  for (char &c : own) { const uint8_t u = (uint8_t)c; sym_assume(((u >= 'a') & (u <= 'z')) | ((u >= 'A') & (u <= 'Z')) | ((u >= '0') & (u <= '9')) | (u == '.') | (u == ',') | (u == '+') | (u == '#') | (u == '=') | (u == '-')); }
  std::string text[2]; std::map<std::string, int> want; bool odd = false;
  const int n = 2 + sym_tier();
  for (int i = 0; i < n; ++i) {
    const int k = sym::choose(5, "kind"), f = sym::choose(2, "file");
    text[f] += "bant/x:1:2: warning: some text" + (k < 4 ? std::string(" ") + kName[k] : std::string(" [no check]")) + "\n    int x[i] = 1;\n";
    if (k < 4) ++want[kName[k]]; else { odd = true; sym_cover("untagged"); }
    if (k == 0 || k == 2) sym_cover("digit"); if (k == 1) sym_cover("comma");
  }
  text[0] += "bant/x:3:1: error: more [" + own + "]\n"; ++want["[" + own + "]"];
  if (!text[1].empty()) sym_cover("two-files");
  says() = [&](const std::string &f) { return f == "bant/a.cc" ? text[0] : text[1]; };
  const int status = Main(); sym_assert(status != 0, "findings make the status a failure");
  std::string rep = "bant/a.cc:\n" + text[0] + (text[1].empty() ? "" : "bant/b.cc:\n" + text[1]), got = Get("bant_clang-tidy.out");
  const size_t other = text[1].empty() ? std::string::npos : 0;
  sym_assert(got == rep || (other == 0 && got == "bant/b.cc:\n" + text[1] + "bant/a.cc:\n" + text[0]), "the report has the findings of every file");
  // Most frequent first, same counts ordered by name.
  std::string sum = Get("bant_clang-tidy.summary"), expect; int left = (int)want.size(); std::vector<int> counts;
  for (int c = 9; c > 0; --c) { int same = 0; for (auto &w : want) if (w.second == c) { char b[16]; snprintf(b, sizeof(b), "%5d ", c); expect += b + w.first + "\n"; ++same; --left; } if (same > 1) sym_cover("tie"); if (same) counts.push_back(c); }
  if (counts.size() > 1) sym_cover("order");
  sym_assert(sum == expect, "the summary has the count of each check"); sym::trace(sum);
  says() = nullptr;
}
