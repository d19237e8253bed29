// @TITLE: parse and print tell exactly what is in the selected files
// @SRCS: bant/cli-commands.cc bant/explore/aliased-by.cc bant/explore/dependency-graph.cc bant/explore/header-providers.cc bant/tool/canon-targets.cc bant/tool/compilation-db.cc bant/tool/dwyu.cc bant/tool/edit-callback.cc bant/tool/workspace.cc bant/util/table-printer.cc bant/util/glob-match-builder.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc bant/explore/query-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: silent error-reported followed not-selected printed elaborated only-errors grep partial deeper all-bad
// @BOUND: three packages, one below the other, each with a rule (name of 1 character out of 3, source of any character out of 4, one dependency or none for the first two) behind a variable, and maybe something that is no statement: any of 6 wrong tokens (the same in each file); 6 patterns; parse with or without following dependencies, print plain, elaborated, only files with errors, or with an expression
// @BOUND-THOROUGH: and two of the files read from BUILD.bazel, dependencies of all three packages
// @TIME: 200 780
#include "../C27/cli.h"
struct Pkg { std::string path, name, src, dep, bad, file; };
static std::string Squeeze(const std::string &s) { std::string r; for (char c : s) if (c != ' ' && c != '\n') r += c; return r; }
extern "C" void harness_main() {
  auto &f = symfs::fs(); f.put("WORKSPACE", ""); const int mode = sym::choose(6, "mode"), pat = sym::choose(6, "pattern");  // parse, parse -r, print, print -e, print -E, print -g
  static const char *const kPattern[] = {"//...", "//p/...", "//p:all", "//p:a", "//q:all", "//p/s:b"}, *const kBad[] = {")", "]", "for", "=", ",", "%"}, *const kDep[] = {"", "//q:a", "//p/s:b", "//z:z"};
  std::vector<Pkg> pk{{"p", "", "", "", "", ""}, {"p/s", "", "", "", "", ""}, {"q", "", "", "", "", ""}}; int n_bad = 0, token = -1;
  for (size_t i = 0; i < 3; ++i) {
    Pkg &p = pk[i]; p.name = sym::over(1, i ? "ab" : "abc", "name"); p.name[0] = (char)sym_concretize((unsigned char)p.name[0]); p.src = i == 2 && !sym_tier() ? "x" : sym::over(1, "uxyz", "src"); p.file = p.path + (i && sym_tier() && sym::flip("bazel") ? "/BUILD.bazel" : "/BUILD");
    if (mode == 1 && (i < 2 || sym_tier())) p.dep = kDep[sym::choose(4, "dep")];
    if (sym::flip("bad")) { if (token < 0) token = sym::choose(mode < 2 ? 6 : 2, "token"); p.bad = kBad[token]; ++n_bad; }
    f.put(p.file, "V = [\"" + p.src + ".cc\"]\ncc_library(name = \"" + p.name + "\", srcs = V + [\"t.cc\"], deps = [" + (p.dep.empty() ? "" : "\"" + p.dep + "\"") + "])\n" + (p.bad.empty() ? "" : "W = " + p.bad + "\n"));
  }
  auto dir_sel = [&](const Pkg &p) { switch (pat) { case 0: return true; case 1: return p.path != "q"; case 2: case 3: return p.path == "p"; case 4: return p.path == "q"; default: return p.path == "p/s"; } };
  auto sel = [&](const Pkg &p) { return dir_sel(p) && (pat == 3 ? p.name == "a" : pat == 5 ? p.name == "b" : true); };
  bant::CommandlineFlags fl; if (mode == 1) fl.recurse_dependency_depth = 1000; fl.elaborate = mode == 3 || mode == 5; fl.print_only_errors = mode == 4; if (mode == 5) fl.grep_regex = "(^[xy])"; const Ran r = Cli({mode < 2 ? "parse" : "print", kPattern[pat]}, fl);
  sym_assert(r.status == bant::CliStatus::kExitSuccess, "success"); sym_assert(f.leaked() == 0, "files are closed");
  // Files looked at: the ones selected and, if asked for, what they depend on.
  std::set<std::string> read; for (auto &p : pk) if (dir_sel(p)) read.insert(p.path);
  if (mode == 1) { std::set<std::string> seen; std::vector<const Pkg *> todo; for (auto &p : pk) if (sel(p)) todo.push_back(&p), seen.insert("//" + p.path + ":" + p.name); while (!todo.empty()) { const Pkg *p = todo.back(); todo.pop_back(); if (p->dep.empty() || !seen.insert(p->dep).second) continue; for (auto &d : pk) if (p->dep.starts_with("//" + d.path + ":")) { if (read.insert(d.path).second) sym_cover("followed"); if (p->dep == "//" + d.path + ":" + d.name) { if (p != pk.data()) sym_cover("deeper"); todo.push_back(&d); } } } }
  std::multiset<std::string> got, want; std::string line; for (char c : r.info) if (c == '\n') { got.insert(line); line.clear(); } else line += c; sym_assert(line.empty(), "complete lines");
  for (auto &p : pk) if (read.count(p.path) && !p.bad.empty()) { want.insert(p.file + ":3:5"); sym_cover("error-reported"); } if (want.empty()) { sym_cover("silent"); sym_assert(r.info.empty(), "nothing to report without errors"); } if (n_bad == 3) sym_cover("all-bad");
  sym_assert(got.size() == want.size(), "one error for each file with one"); for (auto &w : want) { bool found = false; for (auto &g : got) found |= g.starts_with(w + ":") || g.starts_with(w + "-") || g.starts_with("./" + w + ":") || g.starts_with("./" + w + "-"); sym_assert(found, "errors are reported at their position"); }
  if (mode < 2) { sym_assert(r.out.empty(), "parse prints nothing else"); sym::trace(r.info); return; }
  // One block per rule, headed by a comment.
  std::map<std::string, std::string> block; for (size_t b = 0; b < r.out.size();) { sym_assert(r.out[b] == '#', "each rule starts with its position"); size_t nl = r.out.find('\n', b), e = r.out.find("\n# ", nl); sym_assert(nl != std::string::npos, "position has a line"); e = e == std::string::npos ? r.out.size() : e + 1; const bool dot = r.out.substr(b).starts_with("# ./"), fresh = block.emplace("# " + r.out.substr(b + (dot ? 4 : 2), nl - b - (dot ? 4 : 2)), r.out.substr(nl + 1, e - nl - 1)).second; sym_assert(fresh, "each rule is printed once"); b = e; }
  size_t n = 0; for (auto &p : pk) {
    const bool shown = sel(p) && (mode != 4 || !p.bad.empty()) && (mode != 5 || p.src == "x" || p.src == "y" ); if (!shown) { sym_cover("not-selected"); continue; }
    ++n; const std::string target = "//" + p.path + (p.path == p.name ? "" : ":" + p.name); auto it = block.find("# " + p.file + ":2:1-10: " + target); sym_assert(it != block.end(), "the rule is printed with its position and name"); sym_cover(mode == 5 ? "grep" : mode == 3 ? "elaborated" : mode == 4 ? "only-errors" : "printed"); if (!p.bad.empty()) sym_cover("partial");
    const std::string srcs = fl.elaborate ? "[\"" + p.src + ".cc\",\"t.cc\"]" : "V+[\"t.cc\"]"; const std::string w = "cc_library(name=\"" + p.name + "\",srcs=" + srcs + ",deps=[" + (p.dep.empty() ? "" : "\"" + p.dep + "\"") + "])", g = Squeeze(it->second); sym_assert(g == w, "the rule is printed as it is in the file");
  }
  sym_assert(block.size() == n, "nothing else is printed"); sym::trace(r.out);
}
