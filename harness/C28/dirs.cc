// @TITLE: every include directory that is needed is listed once, in flags and database
// @SRCS: bant/tool/compilation-db.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: includes virtual virtual-external root external unknown-external same-path nameless other-rule dup
// @BOUND: two targets in any of 3 packages (root, subdirectory, external); first of any of 5 rules, with 3 names, 5 include lists, with or without include_prefix, up to 2 dependencies out of 5 and 2; the second with 2 include lists; two external projects at the same path or not
// @BOUND-THOROUGH: second dependency also out of 5; second target also with any dependency, name and include_prefix
// @ASSUME: no external project with protobuf in its name (these get some more directories); no .bazelrc
// @TIME: 200 780
#include "compdb.h"
struct T { std::string project, path, loc, rule, name, includes; bool prefix; std::vector<std::string> deps; };
static std::string Cat(std::string a, const std::string &b) { return a.empty() ? b : b.empty() ? a : a + "/" + b; }
extern "C" void harness_main() {
  const bool same = sym::flip("same_path"); bant::BazelWorkspace w; w.project_location[{"p", "1"}] = bant::FilesystemPath("x/p"); w.project_location[{"q", "1"}] = bant::FilesystemPath(same ? "x/p" : "x/q");
  static const char *const kRule[] = {"cc_library", "cc_binary", "cc_test", "proto_library", "genrule"}, *const kName[] = {"n", ":m", ":"}, *const kInc[] = {"", "i", ".", "i j", "j i i"}, *const kDep[] = {":n", "@p//e", "@q//:z", "@u//z", "@q//e:y"};
  static const char *const kPkg[][3] = {{"", "", ""}, {"", "a", ""}, {"@p", "e", "x/p"}};
  Proj p(w); std::vector<T> t;
  for (int i = 0; i < 2; ++i) {
    T x; const auto &k = kPkg[sym::choose(3, "package")]; x.project = k[0]; x.path = k[1]; x.loc = k[2]; const bool full = i == 0 || sym_tier();
    if (i == 1 && t[0].project == x.project && t[0].path == x.path) sym_assume(false);
    x.rule = i == 0 ? kRule[sym::choose(5, "rule")] : "cc_library"; x.name = full ? kName[sym::choose(3, "name")] : "n"; x.includes = kInc[sym::choose(i == 0 ? 5 : 2, "includes")]; x.prefix = full && sym::flip("include_prefix");
    if (full) { const int n = sym::range(0, 2 - i, "deps"); for (int d = 0; d < n; ++d) x.deps.push_back(kDep[sym::choose(d == 0 || sym_tier() ? 5 : 2, "dep")]); }
    std::string b = x.rule + "(name = \"" + x.name + "\", "; if (x.prefix) b += "include_prefix = \"pf\", "; if (!x.includes.empty()) { b += "includes = [\""; for (char c : x.includes) if (c == ' ') b += "\", \""; else b += c; b += "\"], "; }
    b += "deps = ["; for (auto &d : x.deps) b += "\"" + d + "\", "; b += "])\n"; p.add(x.project + "//" + x.path, b); t.push_back(x);
  }
  std::set<std::string> want{".", "bazel-bin"};
  for (auto &x : t) {
    if (x.rule == "genrule") { sym_cover("other-rule"); continue; }
    std::string cur; for (char c : x.includes + " ") if (c == ' ') { if (!cur.empty()) { if (!want.insert(Cat(x.loc, Cat(x.path, cur))).second) sym_cover("dup"); sym_cover("includes"); } cur.clear(); } else cur += c;
    const std::string nm = x.name[0] == ':' ? x.name.substr(1) : x.name; if (nm.empty()) sym_cover("nameless");
    if (x.prefix && !nm.empty()) { want.insert(Cat(Cat(Cat("bazel-bin", x.project.empty() ? "" : "external/" + x.project.substr(1)), x.path), "_virtual_includes/" + nm)); sym_cover(x.project.empty() ? "virtual" : "virtual-external"); if (x.path.empty()) sym_cover("root"); }
    for (auto &d : x.deps) if (d[0] == '@' || !x.project.empty()) { if (d[1] == 'u') { sym_cover("unknown-external"); continue; } const std::string q = d[0] == '@' ? d.substr(1, 1) : x.project.substr(1); want.insert(q == "p" || same ? "x/p" : "x/q"); want.insert("bazel-bin/external/" + q); sym_cover(same ? "same-path" : "external"); }
  }
  const auto flags = Flags(p); std::set<std::string> got; for (auto &f : flags) { sym_assert(f.starts_with("-I"), "only include paths"); sym_assert(got.insert(f.substr(2)).second, "no directory twice"); }
  sym_assert(got == want, "the directories needed are listed"); sym_assert(flags[0] == "-I." && flags[1] == "-Ibazel-bin", "the project comes first"); sym_assert(Flags(p) == flags, "always in the same order");
  p.out.str(""); for (auto &f : flags) sym::trace(f);
}
