// @TITLE: dependencies are suggested for removal only if no include needs them, and then they are
// @SRCS: bant/tool/dwyu.cc bant/explore/header-providers.cc bant/explore/aliased-by.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @BOUND: a library, binary or test with a source and a header (in tree, generated or missing) with up to 4 includes arbitrary out of 10 names, 3 libraries in 2 packages exporting any of 3 headers with any of 10 attribute values (one of them with two at once), up to 2 aliases (also chained), up to 3 arbitrary dependencies (known or not) with or without comments; sources given in 12 ways (lists, variables, select, glob, unknown), textual or public headers or not; in six parts that vary a part of this each
// @BOUND-THOROUGH: more attribute combinations, deprecated and private aliases
// @ASSUME: of a sum of a list and something unknown, elaboration deliberately keeps the list only; sources given like this are taken to be that list
// @COVER: removed unreadable unresolved unknown-dep alwayslink keep ignore-keep undecided invisible-provider generated duplicate self-provided alias-chain
// @TIME: 300 780
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "dwyucommon.h"
extern "C" void harness_main() {
  Dwyu d; AnySituation(d, sym::choose(6, "part")); d.Run();
  const std::set<std::string> deps = d.DepSet(); const bool resolved = d.AllResolved();
  if (d.unreadable) sym_cover("unreadable"); else if (!resolved) sym_cover("unresolved"); if (d.location == 1) sym_cover("generated"); if (deps.size() < d.deps.size()) sym_cover("duplicate"); if (d.alias.count("//l:y")) sym_cover("alias-chain");
  if (!resolved) sym_assert(d.removed.empty(), "no removals if a source can't be read or an include can't be resolved");
  std::set<std::string> after; for (auto &x : deps) if (!d.removed.count(x)) after.insert(x); for (auto &x : d.added) after.insert(x);
  for (auto &inc : d.includes) {
    if (d.Own(inc)) continue; const auto p = d.Providers(inc); if (p.count("//p:t")) { sym_cover("self-provided"); continue; }
    bool before = false, still = false, usable = false; for (auto &x : p) { before |= deps.count(x) > 0; still |= after.count(x) > 0; usable |= d.Usable(x); }
    if (!usable && before) sym_cover("invisible-provider"); if (!before && p.size() > 1) sym_cover("undecided");
    sym_assert(!before || still, "what an include needs is not removed without replacement");
  }
  for (auto &x : d.deps) {
    const bool gone = d.removed.count(x.full); if (gone) sym_cover("removed");
    if (!d.Known(x.full)) { sym_cover("unknown-dep"); sym_assert(!gone, "unknown dependencies are kept"); continue; }
    if (d.Alwayslink(x.full)) { sym_cover("alwayslink"); sym_assert(!gone, "always linked dependencies are kept"); continue; }
    const bool keep = x.keep == 1 || x.keep == 2; bool same_other = false; for (auto &y : d.deps) same_other |= &y != &x && y.full == x.full;
    if (keep && !d.ignore_keep) { sym_cover("keep"); if (!same_other) sym_assert(!gone, "dependencies marked to keep are kept"); continue; }
    if (keep) sym_cover("ignore-keep");
    bool provides = false; for (auto &inc : d.includes) if (!d.Own(inc)) provides |= d.Providers(inc).count(x.full) > 0;
    if (resolved && !provides) sym_assert(gone, "a dependency that provides nothing included is suggested to be removed");
  }
  sym_assert(d.removed_list.size() <= d.deps.size(), "each at most once");
}
