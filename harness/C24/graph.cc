// @TITLE: dependency graph and its inverse, up to the depth limit, packages read when needed
// @SRCS: bant/explore/dependency-graph.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @BOUND: rules a, b in one package, c in another one (already parsed, on disk under two names, on disk in the root package, missing or unreadable) and d nowhere; each rule with up to 2 arbitrary dependencies on a to d (also itself, twice), one as alias or bind; every pattern of 4, depth -1 to 3
// @BOUND-THOROUGH: up to 2 dependencies for each rule
// @TIME: 300 780
// @COVER: cycle self twice missing-target missing-package limit lazy alias unreadable
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "symfs.h"
#include "project.h"
#include "bant/explore/dependency-graph.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  const int where = sym::choose(6, "c_is"); const std::string q = where == 3 ? "" : "q";  // 0 parsed 1 BUILD 2 BUILD.bazel 3 root 4 missing 5 unreadable
  const std::string full[4] = {"//p:a", "//p:b", "//" + q + ":c", "//" + q + ":d"};
  std::vector<int> deps[3]; std::string text[3];
  for (int i = 0; i < 3; ++i) {
    const int nd = sym_tier() ? sym::choose(3, "deps") : (i == 0 ? sym::choose(3, "deps") : 1); const bool alias = i == 1 && sym::flip("alias"); std::string l, actual;
    for (int k = 0; k < nd; ++k) {
      const uint8_t t = sym::byte("dep"); sym_assume(t < 4); deps[i].push_back(t); std::string lab = "//p:a"; lab[4] += t;
      if (q.empty()) { if (sym::flip("outside")) { sym_assume(t >= 2); lab = "//:a"; lab[3] += t; } else sym_assume(t < 2); } else lab[2] = t < 2 ? 'p' : 'q';
      if (where == 0 && i == 0 && sym::flip("short")) { sym_assume(t < 2); lab = ":a"; lab[1] += t; }
      if (alias && k == nd - 1) actual = lab; else l += "\"" + lab + "\",";
    }
    if (alias) sym_cover("alias");
    text[i] = std::string(alias ? where & 1 ? "bind" : "alias" : "foo") + "(name=\"" + char('a' + i) + "\",deps=[" + l + "]" + (actual.empty() ? "" : ",actual=\"" + actual + "\"") + ")\n";
  }
  auto &f = symfs::fs(); f.add(0, "_", 'f'); bant::CommandlineFlags flags; flags.verbose = sym::flip("verbose"); Proj p({}, flags); p.add("//p", text[0] + text[1]);
  switch (where) { case 0: p.add("//q", text[2]); break; case 1: f.put("q/BUILD", text[2]); break; case 2: f.put("q/BUILD.bazel", text[2]); f.put("q/BUILD", "foo(name=\"d\")"); break; case 3: f.put("BUILD", text[2]); break; case 5: f.mkdirs("q/BUILD"); sym_cover("unreadable"); break; }
  const bool have_c = where < 4; const uint8_t db = sym::byte("depth"); sym_assume(db < 5); const int depth = (int)db - 1;
  static const char *const kPat[] = {"//p:all", "//p:a", "//...", "//q:c"}; const int pi = sym::choose(4, "pattern");
  const auto pat = bant::BazelPattern::ParseFrom(kPat[pi]); sym_assert(pat.has_value(), "pattern");
  const auto g = bant::BuildDependencyGraph(p.session, p.project.workspace(), *pat, depth, &p.project);
  // Reference
  for (auto &d : deps) for (int &t : d) t = (int)sym_concretize(t);
  for (int i = 0; i < 3; ++i) for (size_t k = 0; k < deps[i].size(); ++k) { if (deps[i][k] == i) sym_cover("self"); if (k && deps[i][0] == deps[i][1]) sym_cover("twice"); }
  int level[4]; for (int &l : level) l = -1; if (pi == 0 || pi == 2) level[0] = level[1] = 0; if (pi == 1) level[0] = 0; if ((pi == 2 || pi == 3) && where == 0) level[2] = 0;
  for (int l = 0; l < depth; ++l) for (int i = 0; i < 3; ++i) if (level[i] == l && (i < 2 || have_c)) for (int t : deps[i]) if (level[t] < 0) level[t] = l + 1;
  std::map<std::string, std::vector<std::string>> want, inv;
  for (int i = 0; i < 3; ++i) {
    if (level[i] >= 0 && i == 2 && !have_c) { sym_cover("missing-package"); continue; } if (level[i] < 0) { if (level[0] >= 0 && depth >= 0) for (int t : deps[0]) if (t == i) sym_cover("limit"); continue; }
    if (i == 2 && where) sym_cover("lazy"); auto &w = want[full[i]]; for (int t : deps[i]) { w.push_back(full[t]); inv[full[t]].push_back(full[i]); if (level[t] >= 0 && level[t] < level[i]) sym_cover("cycle"); }
  }
  if (level[3] >= 0) sym_cover("missing-target");
  sym::trace(MapText(g.depends_on)); sym::trace(MapText(g.has_dependents)); sym_assert(f.leaked() == 0, "files are closed");
  auto full_text = [](const bant::BazelTarget &t) { return t.package.project + "//" + t.package.path + ":" + t.target_name; };
  sym_assert(g.depends_on.size() == want.size(), "exactly the targets reachable within the limit have an entry");
  for (const auto &[t, d] : g.depends_on) {
    auto it = want.find(full_text(t)); sym_assert(it != want.end(), "entry of a target matched or reachable within the limit"); sym_assert(d.size() == it->second.size(), "with as many dependencies as written");
    for (size_t i = 0; i < d.size(); ++i) sym_assert(full_text(d[i]) == it->second[i], "with the dependencies written for it");
  }
  sym_assert(g.has_dependents.size() == inv.size(), "dependents exactly of the targets depended on");
  for (const auto &[t, d] : g.has_dependents) {
    auto it = inv.find(full_text(t)); sym_assert(it != inv.end() && it->second.size() == d.size(), "as many dependents as dependencies");
    for (const auto &x : it->second) { int n = 0, m = 0; for (const auto &y : d) n += full_text(y) == x; for (const auto &y : it->second) m += y == x; sym_assert(n == m, "dependents are the inverse of dependencies"); }
  }
}
