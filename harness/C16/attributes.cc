// @TITLE: each attribute of a rule call is reported as written, whatever its kind of value
// @SRCS: bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: one rule call (cc_library or other) with an attribute out of 22 names with 8 kinds of values of arbitrary content, and one of 5 others, in any order with the name
// @BOUND-THOROUGH: two arbitrary attributes, name optional
// @COVER-THOROUGH: noname
// @COVER: found alwayslink default own
#include "parsecommon.h"
#include "querycommon.h"
extern "C" void harness_main() {
  static const char kAttr[][21] = {"srcs                ", "hdrs                ", "textual_hdrs        ", "public_hdrs         ", "deps                ", "outs                ", "includes            ", "visibility          ", "alwayslink          ", "testonly            ", "include_prefix      ", "strip_include_prefix", "version             ", "repo_name           ", "actual              ", "deprecation         ", "name                ", "other               ", "nam                 ", "names               ", "default_visibility  ", "dep                 "};
  static const char *const kVal[] = {"\"@\"", "1", "[]", "[\"@\",\"m\"]", "True", "False", "glob([\"g\"], name=\"h\")", "TEST"};
  static const char *const kMore[][2] = {{"hdrs", "[\"z\"]"}, {"visibility", "[\"w\"]"}, {"alwayslink", "True"}, {"name", "\"o\""}, {"visibility", "VIS"}};
  const bool dflt = sym::flip("package"); const bool lib = sym::flip("cc_library");
  WantRule w; w.rule = lib ? "cc_library" : "cc_test";
  std::string t = dflt ? "package(default_visibility=[\"d\"])\n" : ""; t += w.rule + "(";
  const int where = sym::choose(3, "name_at"), more = sym_tier() ? 0 : sym::choose(5, "more");
  for (int i = 0, n = 0; i < 3; ++i) {
    std::string a, v;
    if (i == where) { if (sym_tier() && sym::flip("no_name")) continue; a = "name"; v = "\"n\""; }
    else if (n++ == (where & 1) || sym_tier()) { a = TokenText(kAttr, 22, 1, "attr"); v = kVal[sym::choose(8, "value")]; for (char &c : v) if (c == '@') c = sym::over(1, "pqr/", "content")[0]; }
    else { a = kMore[more][0]; v = kMore[more][1]; }
    t += a + " = " + v + ",";
    while (a.back() == ' ') a.pop_back();
    w.attr(a, v);
  }
  t += ")\n"; w.finish(dflt ? "d," : "", dflt);
  if (w.always) sym_cover("alwayslink"); if (dflt && w.vis == "d,") sym_cover("default"); if (w.own_vis) sym_cover("own");
  std::string want = w.s["name"].empty() ? "" : w.str(); sym_cover(want.empty() ? "noname" : "found");
  Parsed p(t);
  sym_assert(!p.bad, "well-formed"); 
  sym_assert(p.find(false, {}) == want, "rule is reported with exactly its attributes");
  sym_assert(p.find(true, {}) == w.str(), "also if names may be empty");
  sym_assert(p.find(false, {"cc_library"}) == (lib ? want : ""), "only rules of interest");
  sym_assert(p.find(false, {"cc_test", "cc_library"}) == want, "all rules of interest");
}
