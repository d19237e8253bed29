#pragma once
#include <map>
#include <sstream>
#include "bant/explore/query-utils.h"
#include "bant/frontend/named-content.h"
#include "bant/frontend/parser.h"
#include "bant/frontend/scanner.h"
#include "sym.h"
inline std::string ListText(bant::List *l) {
  if (!l) return "-"; std::string r; for (bant::Node *n : *l) { bant::Scalar *s = n->CastAsScalar(); r += s ? std::string(s->AsString()) : "?"; r += ","; } return r;
}
// Everything a query result says, as text.
inline std::string ResultText(const bant::query::Result &r) {
  std::string o(r.rule); auto add = [&](const char *k, std::string_view v) { o += "|"; o += k; o += "="; o += v; };
  add("name", r.name); add("actual", r.actual); add("version", r.version); add("repo_name", r.repo_name); add("deprecation", r.deprecation); add("include_prefix", r.include_prefix); add("strip_include_prefix", r.strip_include_prefix);
  add("srcs", ListText(r.srcs_list)); add("hdrs", ListText(r.hdrs_list)); add("textual_hdrs", ListText(r.textual_hdrs)); add("public_hdrs", ListText(r.public_hdrs)); add("deps", ListText(r.deps_list)); add("outs", ListText(r.outs_list)); add("visibility", ListText(r.visibility)); add("includes", ListText(r.includes_list));
  add("alwayslink", r.alwayslink ? "1" : "0"); add("testonly", r.testonly ? "1" : "0"); return o + "\n";
}
struct Parsed {
  std::string text; bant::NamedLineIndexedContent src; bant::Scanner scan; bant::Arena arena; std::stringstream err; bant::Parser parser; bant::List *ast; bool bad;
  explicit Parsed(const std::string &t) : text(t), src("pkg/BUILD", text), scan(src), arena(4096), parser(&scan, &arena, err) { ast = parser.parse(); bad = parser.parse_error(); }
  std::string find(bool empty, std::initializer_list<std::string_view> rules) {
    std::string o; bool inside = true;
    auto cb = [&](const bant::query::Result &r) { o += ResultText(r); inside &= r.node != nullptr && r.node->identifier()->id() == r.rule; };
    if (empty) bant::query::FindTargetsAllowEmptyName(ast, rules, cb); else bant::query::FindTargets(ast, rules, cb);
    sym_assert(inside, "reported with the node of the call"); return o;
  }
};
// What a written rule call is supposed to be reported as.
struct WantRule {
  std::string rule; std::map<std::string, std::string> s, l; bool own_vis = false, always = false, test = false; std::string vis = "-";
  static std::string items(const std::string &v) { std::string r; for (char c : v) if (c != '[' && c != ']' && c != '"' && c != ',') { r += c; r += ","; } return r; }
  void attr(const std::string &a, const std::string &v) {
    static const char *const kStr[] = {"name", "actual", "version", "repo_name", "deprecation", "include_prefix", "strip_include_prefix"};
    static const char *const kList[] = {"srcs", "hdrs", "textual_hdrs", "public_hdrs", "deps", "outs", "includes"};
    const bool scalar = v[0] == '"' || v == "1", list = v[0] == '[', id = v[0] >= 'A' && v[0] <= 'Z';
    if (scalar) for (auto k : kStr) if (a == k) s[k] = v == "1" ? "1" : v.substr(1, v.size() - 2);
    if (list) for (auto k : kList) if (a == k) l[k] = items(v);
    if (a == "visibility") { own_vis = true; if (list) vis = items(v); }
    if (a == "alwayslink" && (scalar || id)) always = v == "1" || v == "True";
    if (a == "testonly" && (scalar || id)) test = v == "1" || v == "True";
  }
  void finish(const std::string &dflt_vis, bool has_dflt) {
    if (rule == "cc_library" && (!l.count("hdrs") || l["hdrs"].empty())) always = true;
    if (!own_vis) vis = has_dflt ? dflt_vis : "-";
  }
  std::string str() {
    std::string o = rule; auto S = [&](const char *k) { o += std::string("|") + k + "=" + s[k]; }; auto L = [&](const char *k) { o += std::string("|") + k + "=" + (l.count(k) ? l[k] : "-"); };
    S("name"); S("actual"); S("version"); S("repo_name"); S("deprecation"); S("include_prefix"); S("strip_include_prefix");
    L("srcs"); L("hdrs"); L("textual_hdrs"); L("public_hdrs"); L("deps"); L("outs"); o += "|visibility=" + vis; L("includes");
    return o + "|alwayslink=" + (always ? "1" : "0") + "|testonly=" + (test ? "1" : "0") + "\n";
  }
};
