// @TITLE: the alias index is the inverse of the alias rules
// @SRCS: bant/explore/aliased-by.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @BOUND: two packages (one or both may be in the same or different external projects) with 2 rules in all: alias or library, with arbitrary name, actual label out of 8 shapes with arbitrary letters, or none
// @BOUND-THOROUGH: 3 rules
// @TIME: 300 780
// @COVER: same-package other-package duplicate not-alias no-actual chain external
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "symfs.h"
#include "project.h"
#include "reflabel.h"
#include "bant/explore/aliased-by.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  const int where = sym::choose(4, "external"); const std::string pr[2] = {where >= 2 ? "@r" : "", where == 0 ? "" : where == 3 ? "@s" : "@r"}; const bool ext = where; const std::string pkg[2] = {pr[0] + "//p", pr[1] + "//q"}; const RefPkg ref[2] = {{pr[0], "p"}, {pr[1], "q"}}; std::string text[2];
  struct A { std::string actual, alias; }; std::vector<A> want[2];
  const int kN = sym_tier() ? 3 : 2;
  for (int i = 0; i < kN; ++i) {
    const int w = sym::choose(2, "package"); const int kind = sym::choose(3, "rule"); const std::string n = sym::over(1, sym_tier() ? "ab" : "abx", "name"), t = sym::over(1, sym_tier() ? "ab" : "abx", "target");
    if (kind == 2) { text[w] += "alias(name=\"" + n + "\")\n"; sym_cover("no-actual"); continue; }
    static const char *const kShape[] = {":?", "?", "//p:?", "//q:?", "@r//q:?", "//p/?", "@r//:?", "//?"};
    std::string lab = kShape[sym::choose(kind == 1 ? 2 : 8, "label")]; for (char &c : lab) if (c == '?') c = t[0];
    text[w] += std::string(kind ? "cc_library" : "alias") + "(name=\"" + n + "\", actual=\"" + lab + "\")\n"; if (kind) { sym_cover("not-alias"); continue; }
    const auto r = RefTarget(lab, ref[w]); sym_assert(r.has_value(), "label"); if (ext && w) sym_cover("external"); sym_cover(r->pkg == ref[w] ? "same-package" : "other-package");
    want[w].push_back({(r->pkg.project + "//" + r->pkg.path + ":" + r->name), pkg[w] + ":" + n});
  }
  Proj p; for (int i = 0; i < 2; ++i) p.add(pkg[i], text[i]);
  const auto got = bant::ExtractAliasedBy(p.project); std::vector<A> all; const int first = 0;
  for (int i : {first, 1 - first}) for (auto &a : want[i]) all.push_back(a);
  size_t n = 0;
  auto full = [](const bant::BazelTarget &t) { return t.package.project + "//" + t.package.path + ":" + t.target_name; };
  for (const auto &[actual, by] : got) {
    sym_assert(!by.empty(), "no empty entries"); sym::trace(full(actual)); n += by.size();
    for (const auto &b : by) { sym::trace(full(b)); int have = 0, w = 0; for (const auto &c : by) have += c == b; for (auto &a : all) w += a.actual == full(actual) && a.alias == full(b); sym_assert(w == have, "listed once for each alias rule, and only for those"); if (w > 1) sym_cover("duplicate"); if (got.find(b) != got.end()) sym_cover("chain"); }
  }
  sym_assert(n == all.size(), "every alias rule is listed");
}
