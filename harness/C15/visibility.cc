// @TITLE: visibility entries admit exactly the targets they name
// @SRCS: bant/types-bazel.cc bant/workspace.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/util/file-utils.cc
// @BOUND: entries public, private, :__pkg__, __pkg__, :__subpackages__, __subpackages__, [@r]//PATH:__pkg__, [@r]//PATH:__subpackages__, [@r]//PATH/..., and labels; declared in packages of 3 projects with paths up to 3, PATH up to 3, seen from targets of 3 projects with paths up to 4 characters
// @BOUND-THOROUGH: paths up to 4 and 5 characters
// @COVER: public private-yes private-no pkg-yes pkg-no sub-yes sub-no sub-below group
#include "reflabel.h"
static bool Below(const std::string &dir, const std::string &p) { return dir.empty() || p == dir || (p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/'); }
extern "C" void harness_main() {
  using namespace bant;
  const int deep = sym_tier() ? 1 : 0;
  const int kind = sym::choose(11, "kind");
  RefPkg d = AnyPackage("declared", 2 + deep), e = d; BazelPackage declared(d.project, d.path);
  std::string text;
  if (kind >= 6 && kind < 9) { RefPkg x = AnyPackage("entry", 2 + deep); sym_assume(x.project != "@rx"); e.path = x.path; if (!x.project.empty()) e.project = x.project; text = x.project + "//" + x.path; }
  switch (kind) {
  case 0: text = "//visibility:public"; break;
  case 1: text = "//visibility:private"; break;
  case 2: text = ":__pkg__"; break;
  case 3: text = "__pkg__"; break;
  case 4: text = ":__subpackages__"; break;
  case 5: text = "__subpackages__"; break;
  case 6: text += ":__pkg__"; break;
  case 7: text += ":__subpackages__"; break;
  case 8: text += e.path.empty() ? "..." : "/..."; break;
  case 9: text = "//a:" + sym::upto(2, "ab_", "group", 1); sym_assume(text != "//a:__"); break;  // package groups: not understood yet, admit all
  case 10: text = ":" + sym::upto(3, "ab", "group", 1); break;
  }
  auto v = BazelPattern::ParseVisibility(text, declared);
  sym_assert(v.has_value(), "visibility entry is understood");
  RefPkg tp = AnyPackage("target", 3 + deep); BazelPackage from(tp.project, tp.path); auto t = from.QualifiedTarget(sym::upto(2, "ab", "name", 1));
  bool same = tp == e, below = tp.project == e.project && Below(e.path, tp.path), want;
  if (kind == 0) { want = true; sym_cover("public"); }
  else if (kind == 1) { want = same; sym_cover(want ? "private-yes" : "private-no"); }
  else if (kind == 2 || kind == 3 || kind == 6) { want = same; sym_cover(want ? "pkg-yes" : "pkg-no"); }
  else if (kind >= 9) { want = true; sym_cover("group"); }
  else { want = below; sym_cover(want ? "sub-yes" : "sub-no"); if (below && !same) sym_cover("sub-below"); }
  sym_assert(v->Match(*t) == want, "visibility admits exactly the targets it names");
  sym_assert(v->Match(from) == want, "visibility admits exactly the packages it names");
  sym_assert(v->is_matchall() == (kind == 0 || kind >= 9), "only public admits everything by itself");
}
