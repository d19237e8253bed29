// @TITLE: sequences of rule calls, package() calls, nested calls, comprehensions: each rule reported once, in order, with its own attributes
// @SRCS: bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: 3 statements out of 17 forms (rules with various attributes, package(), nested calls in positional and keyword arguments, list comprehensions, lists, member calls, load()), each with an arbitrary name
// @BOUND-THOROUGH: 4 statements
// @COVER: package in-package nested comprehension many other
#include "querycommon.h"
extern "C" void harness_main() {
  std::string t, want, wanti; std::string dflt; bool has = false; int many = 0;
  const int kN = sym_tier() ? 4 : 3;
  for (int i = 0; i < kN; ++i) {
    WantRule w; w.rule = "cc_library"; std::string n = sym::over(1, "abcz:/_-", "content"); bool report = true, other = false; const int k = sym::choose(17, "statement");
    switch (k) {
    case 0: t += "cc_library(name=\"" + n + "\", hdrs=[\"h\"], deps=[\"d\"], alwayslink=True, testonly=1)\n"; w.attr("name", "\"" + n + "\""); w.attr("hdrs", "[\"h\"]"); w.attr("deps", "[\"d\"]"); w.attr("alwayslink", "True"); w.attr("testonly", "1"); break;
    case 1: t += "cc_library(name=\"" + n + "\", hdrs=[\"i\"], visibility=[\"v\"])\n"; w.attr("name", "\"" + n + "\""); w.attr("hdrs", "[\"i\"]"); w.attr("visibility", "[\"v\"]"); break;
    case 2: t += "alias(name=\"" + n + "\", actual=\":x\")\n"; w.rule = "alias"; other = true; w.attr("name", "\"" + n + "\""); w.s["actual"] = ":x"; break;
    case 3: t += "package(default_visibility=[\"" + n + "\"])\n"; report = false; has = true; dflt = n + ","; sym_cover("package"); break;
    case 4: t += "package(default_visibility=[], name=\"q\", testonly=1, visibility=[\"w\"])\n"; report = false; has = true; dflt = ""; break;
    case 5: t += "package(features=[\"f\"])\n"; report = false; break;
    case 6: t += "cc_library(foo(name=\"z\", testonly=1, deps=[\"z\"]), name=\"" + n + "\", hdrs=[\"h\"], srcs=glob([\"z\"], name=\"y\"))\n"; sym_cover("nested"); w.attr("name", "\"" + n + "\""); w.attr("hdrs", "[\"h\"]"); break;
    case 7: t += "cc_library(name=\"" + n + "\", hdrs=[\"h\"], [foo(name=\"z\", alwayslink=1)], visibility=VIS)\n"; w.attr("name", "\"" + n + "\""); w.attr("hdrs", "[\"h\"]"); w.attr("visibility", "VIS"); break;
    case 8: t += "[cc_library(name=\"" + n + "\", hdrs=[\"h\"]) for x in [1]]\n"; sym_cover("comprehension"); w.attr("name", "\"" + n + "\""); w.attr("hdrs", "[\"h\"]"); break;
    case 9: t += "native.cc_library(name=\"" + n + "\")\n"; w.attr("name", "\"" + n + "\""); break;
    case 10: t += "cc_library(hdrs=[\"h\"], deps=[\"z\"], testonly=1, visibility=[\"y\"])\n"; report = false; break;
    case 11: t += "load(\":x.bzl\", \"cc_library\")\n"; report = false; break;
    case 12: t += "other(cc_library(name=\"z\"), package(default_visibility=[\"z\"]), name=\"" + n + "\")\n"; w.rule = "other"; other = true; w.attr("name", "\"" + n + "\""); sym_cover("other"); break;
    case 13: t += "cc_library(package(default_visibility=[\"z\"]), name=\"" + n + "\", hdrs=[\"h\"], visibility=[])\n"; w.attr("name", "\"" + n + "\""); w.attr("hdrs", "[\"h\"]"); w.attr("visibility", "[]"); break;
    case 14: t += "[(cc_library(name=\"" + n + "\", hdrs=[\"h\"]), 1)]\n"; w.attr("name", "\"" + n + "\""); w.attr("hdrs", "[\"h\"]"); break;
    case 16: t += "package(cc_library(name=\"" + n + "\", hdrs=[\"h\"]), default_visibility=[\"u\"], [alias(name=\"a\")])\n"; report = false; has = true; dflt = "u,"; sym_cover("in-package"); break;
    case 15: t += "[cc_library(\"pos\", name=\"" + n + "\", hdrs=[\"h\"], includes=[\"i\"], include_prefix=\"p\", strip_include_prefix=\"s\") if a else alias(actual=\"b\")]\n"; w.attr("name", "\"" + n + "\""); w.attr("hdrs", "[\"h\"]"); w.attr("includes", "[\"i\"]"); w.attr("include_prefix", "\"p\""); w.attr("strip_include_prefix", "\"s\""); break;
    }
    if (!report) continue;
    w.finish(dflt, has); want += w.str(); if (!other) wanti += w.str(); ++many;
  }
  if (many == kN) sym_cover("many");
  Parsed p(t); sym_assert(!p.bad, "well-formed");
  sym_assert(p.find(false, {}) == want, "each rule with name reported once, in order, with its own attributes");
  sym_assert(p.find(false, {"cc_library"}) == wanti, "only those of interest, with the same attributes");
}
