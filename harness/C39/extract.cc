// @TITLE: extraction commands print exactly the facts selected
// @SRCS: bant/cli-commands.cc bant/explore/aliased-by.cc bant/explore/dependency-graph.cc bant/explore/header-providers.cc bant/tool/canon-targets.cc bant/tool/compilation-db.cc bant/tool/dwyu.cc bant/tool/edit-callback.cc bant/tool/workspace.cc bant/util/table-printer.cc bant/util/glob-match-builder.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc bant/explore/query-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: list-packages list-targets lib-headers genrule-outputs depends-on has-dependents aliased-by recursive limited other-package csv json alias-provides
// @BOUND: four rules in two packages (the second library, alias or genrule; dependencies of the first: any subset of 3 out of 4, of the third: 2), names of two build files; any of 7 commands with 5 patterns, not recursive, one level, or all, as CSV or JSON
// @TIME: 200 780
#include "../C27/cli.h"
#include "../jsonreader.h"
struct Rule { std::string pkg, kind, name; std::vector<std::string> deps, provides; int line; std::string full() const { return "//" + pkg + ":" + name; } };
extern "C" void harness_main() {
  static const char *const kCmd[] = {"list-packages", "list-targets", "lib-headers", "genrule-outputs", "depends-on", "has-dependents", "aliased-by"};
  const int cmd = sym::choose(7, "command"), pat = sym::choose(5, "pattern"), rec = sym::choose(3, "recurse"), kind = sym::choose(3, "b_is"); static const char *const kPattern[] = {"//...", "//p/...", "//p:a", "//q:all", "//q:c"}; static const char *const kKind[] = {"cc_library", "alias", "genrule"};
  const std::string N = sym::over(1, "acm", "name_of_first"); std::vector<Rule> r{{"p", "cc_library", N, {}, {"p/a.h"}, 1}, {"p", kKind[kind], "b", {}, {}, 2}, {"q", "cc_library", "c", {}, {"q/c.h", "q/c2.h"}, 1}, {"q", "cc_test", "d", {}, {}, 2}};
  static const char *const kDep[][2] = {{":b", "//p:b"}, {"//q:c", "//q:c"}, {"//q:none", "//q:none"}, {"//z", "//z:z"}}; std::string deps, cdeps; const bool follow = rec || cmd == 4 || cmd == 5; if (follow) for (auto &d : kDep) if (sym::flip("dep")) { deps += std::string("\"") + d[0] + "\", "; r[0].deps.push_back(d[1]); if (r[0].deps.size() == 3) break; }
  if (follow && sym::flip("c_dep_d")) { cdeps += "\":d\", "; r[2].deps.push_back("//q:d"); } if (follow && sym::flip("c_dep_a")) { cdeps += "\"//p:" + N + "\", "; r[2].deps.push_back("//p:" + N); }
  if (kind == 1) r[1].deps = {"//q:c"}; if (kind == 0) r[1].provides = {"p/b.h"}; if (kind == 2) r[1].provides = {"p/g.txt"};
  auto &f = symfs::fs(); f.put("WORKSPACE", ""); static const char *const kB[] = {"(name = \"b\", hdrs = [\"b.h\"])", "(name = \"b\", actual = \"//q:c\")", "(name = \"b\", outs = [\"g.txt\"])"};
  f.put("p/BUILD", "cc_library(name = \"" + N + "\", hdrs = [\"a.h\"], deps = [" + deps + "])\n" + r[1].kind + kB[kind] + "\n"); const std::string qfile = cmd < 2 && sym::flip("bazel") ? "q/BUILD.bazel" : "q/BUILD"; f.put(qfile, "cc_library(name = \"c\", hdrs = [\"c.h\", \"c2.h\"], deps = [" + cdeps + "])\ncc_test(name = \"d\")\n");
  bant::CommandlineFlags fl; fl.recurse_dependency_depth = rec == 0 ? 0 : rec == 1 ? 1 : 1000; fl.output_format = bant::OutputFormat::kCSV; const Ran csv = Cli({kCmd[cmd], kPattern[pat]}, fl); fl.output_format = bant::OutputFormat::kJSON; const Ran json = Cli({kCmd[cmd], kPattern[pat]}, fl); sym_assert(csv.status == bant::CliStatus::kExitSuccess && json.status == csv.status, "success");
  // What was asked for: packages looked at, targets reached, facts printed.
  auto in = [&](const std::string &pkg, const std::string &name) { switch (pat) { case 0: return true; case 1: return pkg == "p"; case 2: return pkg == "p" && name == "a"; case 3: return pkg == "q"; default: return pkg == "q" && name == "c"; } };
  auto pkgin = [&](const std::string &pkg) { return pat == 0 || (pat <= 2 ? pkg == "p" : pkg == "q"); }; const bool hasdep = cmd == 5; int depth = rec == 0 ? (hasdep ? 1000 : 0) : rec == 1 ? 1 : 1000;
  std::set<std::string> pkgs; for (const char *p : {"p", "q"}) if (hasdep || pkgin(p)) pkgs.insert(p); std::map<std::string, int> level; for (auto &x : r) if (pkgs.count(x.pkg) && (hasdep || in(x.pkg, x.name))) level[x.full()] = 0;
  for (int l = 0; l < std::min(depth, 9); ++l) for (auto &x : r) if (auto it = level.find(x.full()); it != level.end() && it->second == l) for (auto &d : x.deps) if (!level.count(d)) { level[d] = l + 1; const std::string p = d.substr(2, 1); if (p != "z" && pkgs.insert(p).second) sym_cover("other-package"); }
  const bool all = rec > 0; std::multiset<std::string> want; auto row = [&](const std::string &a, const std::string &b) { auto text = [](const std::string &t) { return t == "//z:z" ? std::string("//z") : t; }; want.insert(text(a) + "," + text(b)); };
  auto base = [](const std::string &s) { return s.starts_with("./") ? s.substr(2) : s; };
  for (auto &x : r) {
    const bool have = pkgs.count(x.pkg), sel = have && (all || in(x.pkg, x.name)); std::string file = x.pkg == "p" ? "p/BUILD" : qfile;
    switch (cmd) {
    case 0: if (have && x.line == 1) row(file, "//" + x.pkg); break;
    case 1: if (sel) row(x.kind, x.full()); break;
    case 2: if (sel && x.kind == "cc_library") for (auto &h : x.provides) row(h, x.full());
      if (sel && x.kind == "alias" && pkgs.count("q")) for (auto &h : r[2].provides) row(h, x.full()), sym_cover("alias-provides"); break;
    case 3: if (sel && x.kind == "genrule") for (auto &h : x.provides) row(h, x.full()); break;
    case 4: if (level.count(x.full())) for (auto &d : x.deps) row(x.full(), d); break;
    case 5: if (level.count(x.full())) for (auto &d : x.deps) if (in(d.substr(2, 1), d.substr(4))) row(d, x.full()); break;
    case 6: if (have && x.kind == "alias") for (auto &d : x.deps) if (all || in(d.substr(2, 1), d.substr(4))) row(d, x.full()); break;
    }
  }
  sym_cover(kCmd[cmd]); if (rec) sym_cover(rec == 1 ? "limited" : "recursive");
  auto split = [](const std::string &s) { std::vector<std::string> r; size_t b = 0; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n') { r.push_back(s.substr(b, i - b)); b = i + 1; } sym_assert(b == s.size(), "complete lines"); return r; };
  auto place = [&](const std::string &at, const std::string &target) { for (auto &x : r) if (x.full() == target) { const std::string head = (x.pkg == "p" ? "p/BUILD" : qfile) + ":" + char('0' + x.line) + ":"; sym_assert(base(at).starts_with(head), "at the line of the rule"); } };
  std::multiset<std::string> got; auto lines = split(csv.out); sym_assert(!lines.empty(), "CSV has a header"); sym_cover("csv");
  for (size_t i = 1; i < lines.size(); ++i) { std::vector<std::string> c; std::string cur; for (char ch : lines[i] + ",") if (ch == ',') { sym_assert(cur.size() >= 2 && cur[0] == '\"' && cur.back() == '\"', "quoted cell"); c.push_back(cur.substr(1, cur.size() - 2)); cur.clear(); } else cur += ch; sym_assert(c.size() == (cmd == 1 ? 3 : 2), "cells of a row"); if (cmd == 1) place(c[0], c[2]); got.insert((cmd ? c[c.size() - 2] : base(c[0])) + "," + c.back()); }
  sym_assert(got == want, "exactly the facts asked for, as CSV"); got.clear();
  for (auto &l : split(json.out)) { const Json j = JsonReader::Parse(l, "each line is valid JSON"); sym_cover("json"); sym_assert(j.kind == 'o' && j.a.size() == (cmd == 1 ? 3 : 2), "cells of a row"); const Json &k = j.a[j.a.size() - 2], &v = j.a.back(); if (v.kind == 's') got.insert((cmd ? k.s : base(k.s)) + "," + v.s); else { for (auto &e : v.a) got.insert(k.s + "," + e.s); if (cmd != 4) sym_assert(!v.a.empty(), "nothing not asked for"); } }
  sym_assert(got == want, "exactly the facts asked for, as JSON"); sym::trace(json.out);
}
