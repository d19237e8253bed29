// @TITLE: the compilation database is valid JSON naming each source of the matching targets with its flags
// @SRCS: bant/tool/compilation-db.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: entry none not-matching shared quote control nameless options
// @BOUND: two targets of any of 3 rules and 3 names in two packages (also external), up to 2 sources and 1 header out of 4 each (the second: 1 source), one with an arbitrary character out of 4; 4 patterns; a .bazelrc with or without an option having special characters
// @BOUND-THOROUGH: the second target also with 2 sources and a header
// @ASSUME: source names are relative files or :files, not labels in other packages
// @TIME: 200 780
#include "compdb.h"
extern "C" void harness_main() {
  bant::BazelWorkspace w; w.project_location[{"p", "1"}] = bant::FilesystemPath("x/p"); Proj p(w); auto &f = symfs::fs(); f.cwdnode = f.mkdirs("/w\"k"); f.cwd = "/w\"k";
  const int rc = sym_tier() ? sym::choose(3, "bazelrc") : sym::flip("bazelrc"); if (rc) { f.put(".bazelrc", rc == 1 ? "build --cxxopt=-Dx\\y\n" : "build --cxxopt=-std=c++20 # \" \n"); sym_cover("options"); }
  static const char *const kRule[] = {"cc_library", "cc_test", "proto_library"}, *const kName[] = {"n", ":m", ":"}, *const kPattern[] = {"//...", "//a:all", "//a:n", "@p//..."};
  const int pat = sym::choose(4, "pattern"); std::set<std::string> want; const bool ext = sym::flip("external");
  std::string kSrc[] = {"s.cc", ":s.cc", "h.h", ""};
  auto src = [&](int k) { if (k == 3 && kSrc[3].empty()) { std::string c = sym::over(1, "b\"\t/", "char"); c[0] = (char)sym_concretize((unsigned char)c[0]); kSrc[3] = "x" + c + ".cc"; } return kSrc[k]; };
  for (int i = 0; i < 2; ++i) {
    const std::string rule = i == 0 ? kRule[sym::choose(3, "rule")] : "cc_binary", name = i == 0 ? kName[sym::choose(3, "name")] : "n"; std::vector<std::string> s; const int n = sym::range(0, 2 - (i && !sym_tier()), "srcs"); for (int k = 0; k < n; ++k) s.push_back(src(sym::choose(4, "src"))); const bool hdr = (i == 0 || sym_tier()) && sym::flip("hdrs");
    std::string b = rule + "(name = \"" + name + "\", srcs = ["; for (auto &x : s) b += "'" + x + "', "; b += "]"; if (hdr) { b += ", hdrs = [\"h.h\"]"; s.push_back("h.h"); } b += ")\n"; p.add(i == 0 ? "//a" : ext ? "@p//a" : "//b", b);
    const std::string nm = name == ":m" ? "m" : name == ":" ? "" : "n"; if (nm.empty()) sym_cover("nameless"); bool match = pat == 0 ? i == 0 || !ext : pat == 1 ? i == 0 : pat == 2 ? i == 0 && nm == "n" : i == 1 && ext; match &= rule != "proto_library" && !nm.empty(); if (!match) { sym_cover("not-matching"); continue; }
    for (auto x : s) { if (x[0] == ':') x.erase(0, 1); if (x[1] == '"') sym_cover("quote"); if (x[1] == '\t') sym_cover("control"); if (!want.insert((i == 0 ? "a/" : ext ? "x/p/a/" : "b/") + x).second) sym_cover("shared"); }
  }
  const auto flags = Flags(p, kPattern[pat]); const Json db = Database(p, kPattern[pat]); sym_assert(db.kind == 'a', "a list of entries"); std::set<std::string> got;
  if (rc) sym_assert(flags[0] == (rc == 1 ? "-Dx\\y" : "-std=c++20"), "option of .bazelrc");
  for (auto &e : db.a) { std::string file; CheckEntry(e, flags, f.cwd, &file); sym_assert(got.insert(file).second, "each source once"); sym_cover("entry"); }
  sym_assert(got == want, "the sources of the matching targets"); if (want.empty()) sym_cover("none");
}
