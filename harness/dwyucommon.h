// A target using libraries of another package, an independent account of what
// its includes need, and the edits suggested for it.
#pragma once
#include "symfs.h"
#include "project.h"
#include "bant/tool/dwyu.h"
#include "bant/frontend/elaboration.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
struct Dwyu {
  static constexpr int kForms = 12;
  enum Attr { kNone, kTestonly, kAlwayslink, kDeprecated, kPrivate, kForP, kForOther, kUnknownVis, kPublicList, kSubpackages, kAttrs };
  struct Lib { bool exists = true; std::string pkg; bool h = false, i = false, c = false; int attr = kNone, also = kNone; };
  std::map<std::string, Lib> libs;      // by full label
  std::map<std::string, std::string> alias;  // label to actual
  int rule = 0; bool testonly = false;  // of t
  std::string source, header_source; int location = 0, header_location = 0;  // 0 in tree, 1 generated, 2 missing
  struct Dep { std::string label, full; int keep = 0; }; std::vector<Dep> deps; bool ignore_keep = false;
  std::vector<std::string> includes;    // as written, in readable files
  bool unreadable = false; int form = 0, more = 0; std::string more_source;  // how srcs is written; 1 textual_hdrs 2 public_hdrs x.h
  std::set<std::string> removed, added; std::vector<std::string> removed_list, added_list, removed_text, added_text;
  Dwyu() { libs["//l:a"].pkg = libs["//l:b"].pkg = "//l"; libs["//p:c"].pkg = "//p"; libs["//p:c"].c = true; }
  static std::string AttrText(int a) {
    switch (a) { case kTestonly: return "testonly=True,"; case kAlwayslink: return "alwayslink=1,"; case kDeprecated: return "deprecation=\"old\","; case kPrivate: return "visibility=[\"//visibility:private\"],"; case kForP: return "visibility=[\"//o:__pkg__\",\"//p:__pkg__\"],"; case kForOther: return "visibility=[\"//o:__pkg__\"],"; case kUnknownVis: return "visibility=[VIS],"; case kPublicList: return "visibility=[\"//o:__pkg__\",\"//visibility:public\"],"; case kSubpackages: return "visibility=[\"//p:__subpackages__\"],"; default: return ""; }
  }
  bool Known(const std::string &l) const { return l == "//p:t" || alias.count(l) || (libs.count(l) && libs.at(l).exists); }
  bool Has(const std::string &l, int a) const { auto i = libs.find(l); return i == libs.end() ? alias_attr == a : i->second.attr == a || i->second.also == a; }
  int alias_attr = kNone;
  bool Visible(const std::string &l) const {
    if (Has(l, kDeprecated)) return false; if (l.compare(0, 4, "//p:") == 0) return true; return !Has(l, kPrivate) && !Has(l, kForOther);
  }
  bool Testy() const { return testonly || rule == 2; }
  bool Usable(const std::string &l) const { return Visible(l) && (!Has(l, kTestonly) || Testy()); }
  bool Alwayslink(const std::string &l) const { auto i = libs.find(l); return i != libs.end() && (Has(l, kAlwayslink) || !(i->second.h || i->second.i || i->second.c)); }
  bool Own(const std::string &inc) const { return inc == "t.h" || inc == "p/t.h"; }
  std::set<std::string> Providers(const std::string &inc) const {
    std::set<std::string> r;
    if (inc == "s.h" && rule == 0) r.insert("//p:t");
    for (auto &[l, x] : libs) if (x.exists && ((inc == "l/h.h" && x.h) || (inc == "l/i.h" && x.i) || ((inc == "p/c.h" || inc == "c.h") && x.c))) r.insert(l);
    for (size_t n = 0; n <= alias.size(); ++n) for (auto &[l, actual] : alias) if (r.count(actual)) r.insert(l);
    return r;
  }
  bool Resolved(const std::string &inc) const { return Own(inc) || !Providers(inc).empty(); }
  bool AllResolved() const { if (unreadable) return false; for (auto &i : includes) if (!Resolved(i)) return false; return true; }
  std::set<std::string> DepSet() const { std::set<std::string> r; for (auto &d : deps) r.insert(d.full); return r; }
  void Run() {
    std::string l, p = "# file\n";
    auto lib = [&](const std::string &name, const Lib &x, const std::string &hdrs) { return x.exists ? "cc_library(name=\"" + name + "\",srcs=[\"" + name + ".cc\"],hdrs=[" + hdrs + "]," + AttrText(x.attr) + (x.also == x.attr ? "" : AttrText(x.also)) + ")\n" : ""; };
    for (const char *n : {"a", "b"}) { const Lib &x = libs[std::string("//l:") + n]; l += lib(n, x, std::string(x.h ? "\"h.h\"," : "") + (x.i ? "\"i.h\"," : "")); }
    for (auto &[n, actual] : alias) if (n.compare(0, 4, "//l:") == 0) l += "alias(name=\"" + n.substr(4) + "\",actual=\"" + actual + "\"," + AttrText(alias_attr) + ")\n"; else p += "alias(name=\"" + n.substr(4) + "\",actual=\"" + actual + "\"," + AttrText(alias_attr) + ")\n";
    p += lib("c", libs["//p:c"], "\"c.h\"");
    static const char *const kRule[] = {"cc_library", "cc_binary", "cc_test"};
    // Sources written as a list or something that can be evaluated to one, or that can't (unknown ones).
    static const char *const kForm[] = {"[\"t.cc\"]", "[\"t\" + \".cc\"]", "[]+[\"t.cc\"]", "S", "select({\"//q:q\":[],\"//conditions:default\":[\"t.cc\"]})", "glob([\"*.cc\"])", "[\"t.cc\"]+glob([\"y*.cc\"])", "U", "select({\"//q:q\":[]})", "[\"t.cc\",U]", "f()", "[x+\".cc\" for x in [\"t\"]]"};
    if (form == 3) p += "S=[\"t.cc\"]\n"; if (form >= 7) unreadable = true;
    p += std::string(kRule[rule]) + "(name=\"t\",srcs=" + kForm[form] + ",hdrs=[\"t.h\",\"inc/s.h\"],strip_include_prefix=\"p/inc\",\n" + (more ? std::string(more == 1 ? "textual" : "public") + "_hdrs=[\"x.h\"],\n" : "") + (testonly ? "testonly=True,\n" : "") + "deps=[\n";
    static const char *const kKeep[] = {"", "# keep", "#x keep", "# hold", "# ke ep"};
    for (auto &d : deps) p += "\"" + d.label + "\"," + kKeep[d.keep] + "\n";
    p += "])\n";
    auto &f = symfs::fs(); if (f.walk("/_") < 0) f.add(0, "_", 'f'); f.mkdirs("p/inc");
    auto file = [&](const char *name, int where, const std::string &text) { if (where == 2) { unreadable = true; return; } f.put(std::string(where ? "bazel-bin/p/" : "p/") + name, text);
      size_t i = 0; while ((i = text.find("#include \"", i)) != std::string::npos) { i += 10; if (i > 10 && text[i - 11] != '\n') continue; includes.push_back(text.substr(i, text.find('"', i) - i)); } };
    if (form < 7 || form == 9) file("t.cc", location, source); file("t.h", header_location, header_source); if (more) file("x.h", 0, more_source); f.put("p/inc/s.h", "");
    bant::CommandlineFlags flags; flags.ignore_keep_comment = ignore_keep; Proj proj({}, flags); proj.add("//l", l); proj.add("//p", p);
    if (form) bant::Elaborate(proj.session, &proj.project);
    size_t n = 0; const auto pattern = bant::BazelPattern::ParseFrom("//p:t");
    const size_t count = bant::CreateDependencyEdits(proj.session, proj.project, *pattern, [&](bant::EditRequest op, const bant::BazelTarget &t, std::string_view before, std::string_view after) {
      ++n; sym_assert(t.package.project.empty() && t.package.path == "p" && t.target_name == "t", "edits are for the target asked for");
      sym_assert(op != bant::EditRequest::kRename, "no renames");
      const bool add = op == bant::EditRequest::kAdd; const std::string text(add ? after : before); sym::trace(text); sym_assert((add ? before : after).empty(), "one label");
      (add ? added_text : removed_text).push_back(text);
      std::string full; if (text.size() && text[0] == ':') full = "//p" + text; else if (text == "//l" || text == "//n") full = text + ":" + text.substr(2); else full = text;
      if (add) { added_list.push_back(full); added.insert(full); } else { removed_list.push_back(full); removed.insert(full); bool have = false; for (auto &d : deps) have |= d.label == text; sym_assert(have, "only dependencies the target has are removed, as written"); } });
    sym_assert(n == count, "returns the number of edits"); sym_assert(f.leaked() == 0, "files are closed");
  }
};
inline char Pick(const char *name, std::string_view from) { const char c = (char)sym::byte(name); sym_assume(sym::in(c, from)); return c; }
inline std::string Inc(const std::string &n) { return "#include \"" + n + "\"\n"; }
// Arbitrary situation; part selects what varies.
inline void AnySituation(Dwyu &d, int part) {
  auto &a = d.libs["//l:a"], &b = d.libs["//l:b"]; const bool deep = sym_tier(); a.h = true; b.i = true;
  auto include2 = [&](const char *al) { d.source += Inc(std::string("l/") + Pick("include1", al) + ".h"); d.source += Inc(std::string("l/") + Pick("include2", al) + ".h"); };
  auto dep = [&](const char *name, const char *al) { std::string l = "//l:a"; l[4] = Pick(name, al); d.deps.push_back({l, l}); };
  switch (part) {
  case 0: {  // attributes of libraries
    a.attr = sym::choose(Dwyu::kAttrs, "attribute_a"); b.attr = sym::choose(deep ? (int)Dwyu::kAttrs : 4, "attribute_b"); b.h = sym::flip("b_has_h");
    const int r = sym::choose(4, "rule"); d.rule = r == 3 ? 0 : r; d.testonly = r == 3; include2("hi"); dep("dep", "abq"); break; }
  case 1: {  // who provides what
    const int x = sym::choose(4, "a_has"); a.h = x & 1; a.i = x & 2; const int y = sym::choose(3, "b_has") + 1; b.h = y & 1; b.i = y & 2;
    switch (sym::choose(deep ? 4 : 3, "aliases")) { case 1: d.alias["//l:x"] = "//l:a"; break; case 2: d.alias["//l:x"] = "//l:y"; d.alias["//l:y"] = "//l:a"; break; case 3: d.alias["//l:x"] = "//l:a"; d.alias["//l:y"] = "//l:b"; d.alias_attr = sym::flip("alias_private") ? Dwyu::kPrivate : Dwyu::kDeprecated; break; }
    include2("hi"); dep("dep1", "abxy"); if (deep || sym::flip("two_deps")) dep("dep2", "abxyq"); break; }
  case 2: {  // files and includes
    d.location = sym::choose(3, "source_is"); d.header_location = sym::choose(2, "header_is") * 2; d.source = Inc(std::string("l/") + Pick("include1", "hiz") + ".h");
    static const char *const kOther[] = {"p/c.h", "c.h", "t.h", "p/t.h", "s.h", "u/n.h"}; const int k = sym::choose(8, "other_include"); if (k < 6) d.source += Inc(kOther[k]); else if (k == 6) d.source += "#include <l/i.h>\n// #include \"l/i.h\"\n";
    if (sym::flip("header_includes")) d.header_source = Inc(std::string("l/") + Pick("include_in_header", "hi") + ".h");
    d.rule = sym::choose(2, "rule"); if (sym::flip("alias_of_target")) d.alias["//p:w"] = "//p:t";
    if (sym::flip("short_dep")) d.deps.push_back({":c", "//p:c"}); dep("dep", "abq"); break; }
  case 3: {  // keep
    d.source = Inc(std::string("l/") + Pick("include1", "hiz") + ".h"); dep("dep1", "abq"); dep("dep2", "abq"); d.deps.push_back({":c", "//p:c"}); for (auto &x : d.deps) x.keep = sym::choose(deep ? 5 : 4, "keep"); d.ignore_keep = sym::flip("ignore_keep"); break; }
  case 5: {  // two attributes at once
    a.attr = sym::choose(Dwyu::kAttrs, "attribute_a"); a.also = 1 + sym::choose(3, "another_attribute_a"); b.attr = sym::choose(3, "attribute_b"); b.h = sym::flip("b_has_h"); d.rule = sym::choose(3, "rule"); d.source = Inc(std::string("l/") + Pick("include1", "hi") + ".h"); dep("dep1", "ab"); if (sym::flip("both")) dep("dep2", "ab"); break; }
  case 4: {  // how the sources are given
    d.form = sym::choose(Dwyu::kForms, "form"); d.more = sym::choose(3, "more_headers"); d.source = Inc(std::string("l/") + Pick("include1", "hiz") + ".h"); if (d.more) d.more_source = Inc(std::string("l/") + Pick("include2", "hiz") + ".h"); dep("dep1", "abq"); dep("dep2", "abq"); break; }
  }
}
