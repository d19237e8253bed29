// @TITLE: dependencies through several packages that are read when needed: missing, unreadable, malformed, in external projects
// @SRCS: bant/explore/dependency-graph.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @BOUND: nine targets in eight packages (one parsed, others on disk as BUILD or BUILD.bazel, of an external project, of an unknown one, missing, unreadable, with a syntax error after the rule, dependencies in a variable); one has three dependencies, two others one, each arbitrary; one external of two; depth -1 to 3
// @BOUND-THOROUGH: depth up to 5, all the choices independent
// @TIME: 200 780
// @COVER: lazy external missing
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include <map>
#include "symfs.h"
#include "project.h"
#include "bant/explore/dependency-graph.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  static const char *const kT[] = {"//a/m:t", "//b/u:t", "//c:t", "@e//s:t", "@n//s:t", "//z/w:t", "//c:u", "@e//:e", "//p:a"}; static const char *const kWritten[] = {"//a/m:t", "//b/u:t", "//c:t", "@e//s:t", "@n//s:t", "//z/w:t", "//c:u", "@e", ":a"};
  auto &f = symfs::fs(); f.add(0, "_", 'f'); bant::BazelWorkspace ws; ws.project_location.insert({bant::VersionedProject{.project = "e", .version = ""}, bant::FilesystemPath("ext/e")});
  std::map<std::string, std::vector<std::string>> edges; auto pick = [&](const char *n, const std::string &from) { int k = sym::choose(9, n); edges[from].push_back(kT[k]); return std::string(k == 8 && from != "//p:a" ? "//p:a" : kWritten[k]); };
  const std::string first = pick("dep1", "//p:a"); edges["//p:a"].push_back("//a/m:t"); const std::string third = pick("dep3", "//p:a");
  const std::string ct = pick("dep-of-c", "//c:t"), wt = sym_tier() ? pick("dep-of-w", "//z/w:t") : (edges["//z/w:t"].push_back("//c:u"), "//c:u"); edges["//c:u"]; edges["@e//:e"] = {"@e//s:t"};
  static const char *const kE[] = {"//t:t", ":none", "//c:t"}, *const kEF[] = {"@e//t:t", "@e//s:none", "@e//c:t"}; const int e = sym_tier() ? sym::choose(3, "dep-of-e") : sym::choose(2, "dep-of-e"); edges["@e//s:t"] = {kEF[e]}; edges["@e//t:t"];
  Proj p(std::move(ws)); p.add("//p", "foo(name=\"a\",deps=[\"" + first + "\",\"//a/m:t\",\"" + third + "\"])\n");
  f.mkdirs("a/m"); f.mkdirs("b/u/BUILD"); f.put("c/BUILD.bazel", "foo(name=\"t\",deps=[\"" + ct + "\"])\nfoo(name=\"u\")\n"); f.put("z/w/BUILD", "D=[\"" + wt + "\"]\nfoo(name=\"t\",deps=[]+D)\nfoo(name=\n");
  f.put("ext/e/BUILD", "foo(name=\"e\",deps=[\"//s:t\"])\n"); f.put("ext/e/s/BUILD.bazel", std::string("foo(name=\"t\",deps=[\"") + kE[e] + "\"])\n"); f.put("ext/e/t/BUILD", "foo(name=\"t\")\n");
  const int depth = sym::choose(sym_tier() ? 7 : 5, "depth") - 1; const auto g = bant::BuildDependencyGraph(p.session, p.project.workspace(), *bant::BazelPattern::ParseFrom("//p:all"), depth, &p.project);
  std::map<std::string, int> level{{"//p:a", 0}}; for (int l = 0; l < depth; ++l) { std::vector<std::string> next; for (auto &[t, at] : level) if (at == l && edges.count(t)) for (auto &d : edges[t]) next.push_back(d); for (auto &d : next) if (!level.count(d)) level[d] = l + 1; }
  std::map<std::string, std::vector<std::string>> inv; size_t have = 0; for (auto &[t, at] : level) if (edges.count(t)) { ++have; for (auto &d : edges[t]) inv[d].push_back(t); if (at) sym_cover(t[0] == '@' ? "external" : "lazy"); } else sym_cover("missing");
  auto full = [](const bant::BazelTarget &t) { return t.package.project + "//" + t.package.path + ":" + t.target_name; };
  sym_assert(g.depends_on.size() == have, "exactly the targets reachable within the limit have an entry");
  for (const auto &[t, d] : g.depends_on) { const std::string n = full(t); sym::trace(n); sym_assert(level.count(n) && edges.count(n), "entry of a target reachable within the limit"); std::vector<std::string> got; for (auto &x : d) got.push_back(full(x)); sym_assert(got == edges[n], "with the dependencies written for it"); }
  sym_assert(g.has_dependents.size() == inv.size(), "dependents exactly of the targets depended on");
  for (const auto &[t, d] : g.has_dependents) { std::vector<std::string> got, want = inv[full(t)]; for (auto &x : d) got.push_back(full(x)); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); sym_assert(got == want, "dependents are the inverse of dependencies"); }
  sym_assert(f.leaked() == 0, "files are closed");
}
