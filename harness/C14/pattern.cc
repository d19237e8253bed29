// @TITLE: patterns match exactly the targets and packages they denote
// @SRCS: bant/types-bazel.cc bant/workspace.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/util/file-utils.cc
// @BOUND: patterns [@r]//PATH with PATH up to 2 (quick) or 3 characters, and :NAME exact, :all, :*, :__pkg__, :__subpackages__, /... or a glob of up to 4 characters; matched against targets in 3 projects with paths of up to 4 and names of up to 3 characters
// @BOUND-THOROUGH: paths up to 3 and 5 characters, globs up to 5, names of up to 4 characters
// @COVER: exact-yes exact-no all-yes all-no rec-yes rec-no rec-below glob-yes glob-no project
#include "reflabel.h"
// Reference globbing of a name: * stands for any number of characters.
static bool RefGlob(std::string_view g, std::string_view n) {
  std::vector<char> cur(n.size() + 1, 0); cur[0] = 1;
  for (char c : g) { std::vector<char> nx(n.size() + 1, 0); if (c == '*') { char any = 0; for (size_t i = 0; i <= n.size(); ++i) { any |= cur[i]; nx[i] = any; } } else for (size_t i = 0; i < n.size(); ++i) nx[i + 1] = cur[i] & (n[i] == c); cur = nx; }
  return cur[n.size()];
}
static bool Below(const std::string &dir, const std::string &p) { return dir.empty() || p == dir || (p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/'); }
extern "C" void harness_main() {
  using namespace bant;
  const int deep = sym_tier() ? 1 : 0;
  RefPkg pp; if (sym::flip("pat.external")) pp.project = "@r"; 
  pp.path = sym::upto(2 + deep, "ab/", "pat.path"); if (!pp.path.empty()) { sym_assume(pp.path[0] != '/' && pp.path.back() != '/'); bool ok = true; for (size_t i = 0; i + 1 < pp.path.size(); ++i) ok &= !(pp.path[i] == '/' && pp.path[i + 1] == '/'); sym_assume(ok); }
  const int kind = sym::choose(8, "kind");
  std::string text = pp.project + "//" + pp.path, name;
  switch (kind) {
  case 0: name = sym::upto(3, "ab.", "pat.name", 1); text += ":" + name; break;
  case 1: sym_assume(!pp.path.empty()); name = RefSplit(pp.path, '/').back(); break;   // //a/b
  case 2: text += ":all"; break;
  case 3: text += ":*"; break;
  case 4: text += ":__pkg__"; break;
  case 5: text += ":__subpackages__"; break;
  case 6: text += pp.path.empty() ? "..." : "/..."; break;
  case 7: { name = sym::upto(4 + deep, "ab.*", "pat.glob", 2); bool star = false; for (char c : name) star |= c == '*'; sym_assume(star); text += ":" + name; break; }
  }
  if (kind == 0) sym_assume(name != "...");
  auto pat = BazelPattern::ParseFrom(text);
  sym_assert(pat.has_value(), "well-formed pattern is understood");
  sym_assert(pat->is_recursive() == (kind == 5 || kind == 6), "recursive exactly if so written");
  sym_assert(!pat->is_matchall(), "does not match everything");
  sym_assert(pat->project() == pp.project && pat->path() == pp.path, "pattern is rooted in the given project and path");
  RefPkg tp = AnyPackage("target", 4 + deep); std::string tn = sym::upto(3 + deep, "ab.", "target.name", 1);
  BazelPackage pkg(tp.project, tp.path); auto t = pkg.QualifiedTarget(tn); sym_assume(t.has_value());
  bool same_project = tp.project == pp.project, same = same_project && tp.path == pp.path, below = same_project && Below(pp.path, tp.path);
  bool want, wantp;
  switch (kind) {
  case 0: case 1: want = same && tn == name; wantp = same; sym_cover(want ? "exact-yes" : "exact-no"); break;
  case 5: case 6: want = wantp = below; sym_cover(want ? "rec-yes" : "rec-no"); if (below && !same) sym_cover("rec-below"); break;
  case 7: want = same && RefGlob(name, tn); wantp = same; sym_cover(want ? "glob-yes" : "glob-no"); break;
  default: want = wantp = same; sym_cover(want ? "all-yes" : "all-no");
  }
  if (!same_project) sym_cover("project");
  sym_assert(pat->Match(*t) == want, "pattern matches exactly the targets it denotes");
  sym_assert(pat->Match(pkg) == wantp, "pattern matches exactly the packages that can have such a target");
}
