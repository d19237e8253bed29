// @TITLE: labels resolve as specified; printed targets resolve to the same target
// @SRCS: bant/types-bazel.cc bant/workspace.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/util/file-utils.cc
// @BOUND: all label texts of up to 7 characters out of a b / @ : ~ in 9 package contexts; printing relative to each context of the same project
// @BOUND-THOROUGH: label texts of up to 9 characters
// @COVER: resolved refused compact relative emptyname external
#include "reflabel.h"
extern "C" void harness_main() {
  using namespace bant;
  static const char *const kPrj[] = {"", "@a", "@b"}; static const char *const kPath[] = {"", "a", "b/a"};
  RefPkg ctx{kPrj[sym::choose(3, "ctx.project")], kPath[sym::choose(3, "ctx.path")]};
  BazelPackage context(ctx.project, ctx.path);
  std::string s = sym::upto(sym_tier() ? 9 : 7, "ab/@:~", "label");
  auto t = BazelTarget::ParseFrom(s, context); auto want = RefTarget(s, ctx);
  sym_assert(t.has_value() == want.has_value(), "label accepted exactly if well-formed");
  if (!t) { sym_cover("refused"); return; }
  sym_cover("resolved");
  sym_assert(Same(t->package, want->pkg), "label resolves to the right package");
  sym_assert(t->target_name == want->name, "label resolves to the right target name");
  if (t->target_name.empty()) { sym_cover("emptyname"); sym_assert(s.empty() || s.back() == ':' || s.back() == '/', "name only empty if none is given"); return; }
  if (!t->package.project.empty()) sym_cover("external");
  // Print absolutely, resolve in any package of the project
  const std::string abs = t->ToString(); if (abs.find(':') == std::string::npos) sym_cover("compact");
  RefPkg other{sym::flip("other.same") || t->package.project.empty() ? t->package.project : "@c", kPath[sym::choose(3, "other.path")]};
  BazelPackage o(other.project, other.path);
  auto back = BazelTarget::ParseFrom(abs, o);
  sym_assert(back.has_value() && *back == *t, "target printed absolutely resolves to the same target");
  const std::string rel = t->ToStringRelativeTo(o); if (rel[0] == ':') sym_cover("relative");
  back = BazelTarget::ParseFrom(rel, o);
  sym_assert(back.has_value() && *back == *t, "target printed relative to a package resolves to the same in that package");
  sym_assert(back->ToStringRelativeTo(o) == rel && back->ToString() == abs, "printing is stable");
  sym_assert((rel == ":" + t->target_name) == (t->package == o), "short form used exactly in the package itself");
}
