// @TITLE: short forms of patterns, refused patterns, patterns without any meaning beyond their label
// @SRCS: bant/types-bazel.cc bant/workspace.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/util/file-utils.cc
// @BOUND: all pattern texts of up to 7 characters out of a / @ : . *
// @BOUND-THOROUGH: up to 9 characters
// @COVER: refused exact recursive package glob
#include "reflabel.h"
extern "C" void harness_main() {
  using namespace bant;
  std::string s = sym::upto(sym_tier() ? 9 : 7, "a/@:.*", "pattern");
  RefPkg root; auto t = RefTarget(s, root);
  auto pat = BazelPattern::ParseFrom(s);
  if (!t) { sym_cover("refused"); sym_assert(!pat.has_value(), "what is no label is no pattern"); return; }
  const std::string &p = t->pkg.path, &n = t->name;
  enum { kRefused, kExact, kAll, kRec, kGlob } kind; std::string path = p;
  const bool dots = p == "..." || (p.size() >= 4 && p.substr(p.size() - 4) == "/...");
  if (n == "*") kind = kAll;
  else if (dots) { kind = kRec; path = p == "..." ? "" : p.substr(0, p.size() - 4); }
  else if (n == "...") kind = p.empty() ? kRec : kRefused;
  else if (n.find('*') != std::string::npos) kind = kGlob;
  else kind = kExact;
  sym_assert(pat.has_value() == (kind != kRefused), "pattern accepted exactly if it has a meaning");
  if (kind == kRefused) { sym_cover("refused"); return; }
  sym_assert(pat->project() == t->pkg.project && pat->path() == path, "pattern rooted in that project and path");
  sym_assert(pat->is_recursive() == (kind == kRec) && !pat->is_matchall(), "recursive exactly if ... is written");
  sym_cover(kind == kRec ? "recursive" : kind == kAll ? "package" : kind == kGlob ? "glob" : "exact");
  // probes: the package itself, one below, a sibling with the same prefix, the same in another project
  std::string nm = n; for (char &c : nm) if (c == '*') c = 'a'; if (nm.empty()) nm = "x";
  BazelPackage here(t->pkg.project, path), below(t->pkg.project, path.empty() ? "x" : path + "/x"), sibling(t->pkg.project, path + "x"), other(t->pkg.project + "x", path);
  if (t->pkg.project.empty()) other.project = "@x";
  bool nameok = !n.empty();
  if (nameok || kind == kRec) sym_assert(pat->Match(*here.QualifiedTarget(nm)) , "target of that package and name matches");
  sym_assert(pat->Match(*here.QualifiedTarget(nm + "!")) == (kind == kRec || kind == kAll || (kind == kGlob && n.back() == '*')), "other name matches only if not restricted");
  sym_assert(pat->Match(*below.QualifiedTarget(nm)) == (kind == kRec), "package below matches only if recursive");
  sym_assert(pat->Match(*sibling.QualifiedTarget(nm)) == (kind == kRec && path.empty()), "sibling package does not match");
  sym_assert(!pat->Match(*other.QualifiedTarget(nm)) && !pat->Match(other), "other project does not match");
  sym_assert(pat->Match(here) && pat->Match(below) == (kind == kRec) && pat->Match(sibling) == (kind == kRec && path.empty()), "package match");
}
