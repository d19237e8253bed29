// @TITLE: dependency graph of long chains through several packages
// @SRCS: bant/explore/dependency-graph.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @BOUND: eight rules, two each in four packages (all but the first read on demand), each depending on the next, plus one dependency from any to any of them; any depth from -1 to 9; 3 patterns
// @BOUND-THOROUGH: two further dependencies
// @TIME: 200 780
// @COVER: limit all cycle shortcut
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "symfs.h"
#include "project.h"
#include "bant/explore/dependency-graph.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
static std::string Full(int i) { return std::string("//") + "pqrs"[i / 2] + ":" + "ab"[i % 2]; }
extern "C" void harness_main() {
  std::vector<int> deps[8]; for (int i = 0; i < 7; ++i) deps[i].push_back(i + 1);
  for (int k = 0; k < (sym_tier() ? 2 : 1); ++k) { const int from = sym::choose(8, "from"), to = sym::choose(8, "to"); deps[from].push_back(to); sym_cover(to <= from ? "cycle" : "shortcut"); }
  auto &f = symfs::fs(); f.add(0, "_", 'f'); Proj p({}, {});
  for (int k = 0; k < 4; ++k) { std::string t; for (int i = 2 * k; i < 2 * k + 2; ++i) { t += std::string("foo(name = \"") + "ab"[i % 2] + "\", deps = ["; for (int d : deps[i]) t += "\"" + (d / 2 == k && (d & 1) ? ":" + Full(d).substr(4) : Full(d)) + "\", "; t += "])\n"; } if (k) f.put(std::string(1, "pqrs"[k]) + "/BUILD", t); else p.add("//p", t); }
  const int depth = sym::choose(11, "depth") - 1, pi = sym::choose(3, "pattern"); static const char *const kPat[] = {"//p:a", "//...", "//p:b"};
  const auto pat = bant::BazelPattern::ParseFrom(kPat[pi]); const auto g = bant::BuildDependencyGraph(p.session, p.project.workspace(), *pat, depth, &p.project);
  int level[8]; for (int i = 0; i < 8; ++i) level[i] = (i == 0 && pi != 2) || (i == 1 && pi != 0) ? 0 : -1;
  for (int l = 0; l < depth; ++l) for (int i = 0; i < 8; ++i) if (level[i] == l) for (int t : deps[i]) if (level[t] < 0) level[t] = l + 1;
  std::map<std::string, std::multiset<std::string>> want, inv; for (int i = 0; i < 8; ++i) if (level[i] >= 0) { auto &w = want[Full(i)]; for (int t : deps[i]) { w.insert(Full(t)); inv[Full(t)].insert(Full(i)); } }
  sym_cover(want.size() == 8 ? "all" : "limit");
  auto text = [](const auto &g) { std::map<std::string, std::multiset<std::string>> r; auto full = [](const bant::BazelTarget &t) { return t.package.project + "//" + t.package.path + ":" + t.target_name; }; for (const auto &[t, d] : g) { auto &x = r[full(t)]; for (const auto &y : d) x.insert(full(y)); } return r; };
  sym::trace(MapText(g.depends_on)); sym_assert(text(g.depends_on) == want, "exactly the targets reachable within the limit, with their dependencies"); sym_assert(text(g.has_dependents) == inv, "dependents are the inverse"); sym_assert(f.leaked() == 0, "files are closed");
}
