// @TITLE: rules are printed iff they match the pattern and an identifier or string matches the expression
// @SRCS: bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc bant/explore/query-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: printed hidden unnamed visibility color case not-selected errors
// @BOUND: three rules in two packages with names and sources of 1 character out of 3 and 2, one of them maybe without name; 8 expressions, 4 patterns; color, only files with errors, or a file with an error
// @ASSUME: the expression is valid
// @TIME: 200 780
#include "grep.h"
extern "C" void harness_main() {
  static const char *const kRx[] = {"(a)", "(^b$)", "((?i)B)", "(c|lib)", "(a*)", "(//)", "(z)", "([^a]$)"}, *const kPattern[] = {"//...", "//p:all", "//p:a", "//q/..."};
  const int rx = sym::choose(8, "regex"), pat = sym::choose(4, "pattern"); const int mode = sym::choose(5, "mode"); const bool color = mode == 1 || mode == 3, errors = mode >= 2 && mode <= 3, bad = mode >= 3; const RE2 re(kRx[rx]);
  struct R { std::string pkg, name; std::vector<std::string> leaves; }; std::vector<R> r; std::string text[2];
  for (int i = 0; i < 3; ++i) {
    R x; x.pkg = i < 2 ? "p" : "q"; std::string nm = sym::upto(1, "abc", "name", i == 1 ? 0 : 1), src = i == 2 && !sym_tier() ? "b" : sym::over(1, i ? "ac" : "ab", "src"); if (!nm.empty()) nm[0] = (char)sym_concretize((unsigned char)nm[0]); src[0] = (char)sym_concretize((unsigned char)src[0]); x.name = nm; if (i == 1 && nm.empty()) sym_cover("unnamed");
    const std::string rule = i == 0 ? "lib" : "x"; x.leaves = {rule}; std::string b = rule + "("; if (!nm.empty()) { b += "name = \"" + nm + "\", "; x.leaves.push_back("name"); x.leaves.push_back(nm); } b += "s = [\"" + src + "\"]"; x.leaves.push_back("s"); x.leaves.push_back(src); if (i == 2) { b += ", visibility = [\"//v\"]"; x.leaves.push_back("visibility"); x.leaves.push_back("//v"); } text[i == 2] += b + ")\n"; r.push_back(x);
  }
  if (bad) text[0] += "x(\n";
  auto run = [&](const char *g, bool col, const char *pattern, bool e) { bant::CommandlineFlags f; f.grep_regex = g; f.do_color = col; f.print_only_errors = e; Proj p({}, f); p.add("//p", text[0]); p.add("//q", text[1]); bant::PrintProject(p.session, *bant::BazelPattern::ParseFrom(pattern), p.project); return p.out.str(); };
  const std::string all = run("", false, "//...", false); std::vector<std::string> block; for (size_t b = 0; b < all.size();) { sym_assert(all[b] == '#', "each rule starts with its position"); size_t e = all.find("\n# ", b); e = e == std::string::npos ? all.size() : e + 1; block.push_back(all.substr(b, e - b)); b = e; }
  sym_assert(block.size() >= 3, "all rules are printed"); sym_assert(block.back().find("(visibility: //v)") != std::string::npos, "with their visibility"); sym_cover("visibility"); std::string want;
  for (int i = 0; i < 3; ++i) {
    const std::string head = "# " + r[i].pkg + "/BUILD:"; const std::string &blk = block[i == 2 ? block.size() - 1 : i]; sym_assert(blk.starts_with(head), "the position names the file"); if (!r[i].name.empty()) sym_assert(blk.find(" //" + r[i].pkg + ":" + r[i].name) != std::string::npos || r[i].name == r[i].pkg, "and the target");
    bool hit = false; for (auto &l : r[i].leaves) Matches(l, re, &hit); const bool sel = pat == 0 ? true : pat == 1 ? r[i].pkg == "p" && !r[i].name.empty() : pat == 2 ? r[i].pkg == "p" && r[i].name == "a" : r[i].pkg == "q";
    const bool err = !errors || (bad && r[i].pkg == "p"); if (!err) sym_cover("errors"); if (!sel) sym_cover("not-selected"); if (hit && sel && err) { want += blk; sym_cover("printed"); if (rx == 2) sym_cover("case"); } else sym_cover("hidden");
  }
  sym_assume(block.size() == 3); const std::string got = run(kRx[rx], color, kPattern[pat], errors); if (color) sym_cover("color"); sym_assert((color ? Strip(got) : got) == want, "exactly the rules that match are printed"); sym_assert(color || got.find('\033') == std::string::npos, "no sequences without color"); sym::trace(got);
}
