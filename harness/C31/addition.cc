// @TITLE: suggested additions are needed, allowed and complete
// @SRCS: bant/tool/dwyu.cc bant/explore/header-providers.cc bant/explore/aliased-by.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @BOUND: a library, binary or test with a source and a header (in tree, generated or missing) with up to 4 includes arbitrary out of 10 names, 3 libraries in 2 packages exporting any of 3 headers with any of 10 attribute values (one of them with two at once), up to 2 aliases (also chained), up to 3 arbitrary dependencies (known or not); sources given in 12 ways, textual or public headers or not; in five parts that vary a part of this each
// @BOUND-THOROUGH: more attribute combinations, deprecated and private aliases
// @COVER: added not-visible testonly-blocked testonly-allowed alternatives unreadable self-provided same-package removed-too
// @TIME: 300 780
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "dwyucommon.h"
extern "C" void harness_main() {
  Dwyu d; const int part = sym::choose(5, "part"); AnySituation(d, part >= 3 ? part + 1 : part); d.Run();
  const std::set<std::string> deps = d.DepSet(); sym_assert(d.added.size() == d.added_list.size(), "each is added once");
  if (d.unreadable && d.added.size()) sym_cover("unreadable");
  for (auto &x : d.added) {
    sym_cover(x.compare(0, 4, "//p:") == 0 ? "same-package" : "added"); sym_assert(x != "//p:t", "the target does not depend on itself"); sym_assert(!deps.count(x), "is not a dependency yet");
    sym_assert(d.Known(x) && d.Visible(x), "is visible and not deprecated"); const bool testy = d.Has(x, Dwyu::kTestonly); if (testy) sym_cover("testonly-allowed"); sym_assert(!testy || d.Testy(), "is not for tests only if the target is not");
    bool needed = false;
    for (auto &inc : d.includes) { if (d.Own(inc)) continue; const auto p = d.Providers(inc); if (!p.count(x)) continue; bool have = p.count("//p:t"); for (auto &y : p) have |= deps.count(y) && !d.removed.count(y) && d.Usable(y); needed |= !have; }
    sym_assert(needed, "provides something included that none of the dependencies does"); if (d.removed.size()) sym_cover("removed-too");
  }
  for (auto &inc : d.includes) {
    if (d.Own(inc)) continue; const auto p = d.Providers(inc); if (p.count("//p:t")) { sym_cover("self-provided"); continue; }
    std::vector<std::string> usable; for (auto &x : p) { if (d.Usable(x)) usable.push_back(x); else sym_cover(d.Visible(x) ? "testonly-blocked" : "not-visible"); }
    if (usable.size() == 1 && !deps.count(usable[0])) sym_assert(d.added.count(usable[0]), "the only possible provider of an include is suggested");
    if (usable.size() > 1) sym_cover("alternatives");
  }
}
