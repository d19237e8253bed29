// @TITLE: the workspace command lists exactly the external projects the selected targets use
// @SRCS: bant/cli-commands.cc bant/explore/aliased-by.cc bant/explore/dependency-graph.cc bant/explore/header-providers.cc bant/tool/canon-targets.cc bant/tool/compilation-db.cc bant/tool/dwyu.cc bant/tool/edit-callback.cc bant/tool/workspace.cc bant/util/table-printer.cc bant/util/glob-match-builder.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc bant/explore/query-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @BOUND: four declared projects (with or without version or repository name, one not extracted), two packages with a load and three rules; two of their seven references with arbitrary project letter (out of 5) in any of 8 forms; 7 patterns, CSV or JSON output
// @BOUND-THOROUGH: three references
// @COVER: all load deps actual none unlisted own csv json by-repository-name
// @TIME: 200 780
#include "../C27/cli.h"
#include "../jsonreader.h"
struct Ref { std::string text, project; };  // project it names, if any
static Ref AnyRef() {
  const int form = sym::choose(8, "form"); std::string p = form < 6 ? sym::over(1, "xyrnk", "project") : "";
  switch (form) {
  case 0: return {"@" + p + "//l:f", p}; case 1: return {"@" + p, p}; case 2: return {"@" + p + "//l", p}; case 3: return {"@" + p + "//:f.bzl", p}; case 4: return {"@" + p + "~2//l:f", p};
  case 5: return {"//" + p + ":f", ""}; case 6: return {":b", ""}; default: return {"@//q:c", ""};
  }
}
extern "C" void harness_main() {
  auto &f = symfs::fs(); f.mkdirs("bazel-out"); f.mkdirs("external/x~1"); f.mkdirs("external/y"); f.mkdirs("external/k~override");
  // x has a version, y is known by its repository name (and, as extracted, its own), k is overridden, n has never been extracted.
  f.put("MODULE.bazel", "bazel_dep(name = \"x\", version = \"1\")\nbazel_dep(name = \"y\", repo_name = \"r\")\nbazel_dep(name = \"n\", version = \"3\")\nbazel_dep(name = \"k\", version = \"5\")\n");
  struct Entry { std::string version, dir; }; const std::map<std::string, Entry> known{{"x", {"1", "x~1"}}, {"r", {"-", "y"}}, {"y", {"-", "y"}}, {"k", {"5", "k~override"}}};
  // Where the references are: load of p, deps of a, deps of c, actual of w, srcs of a (not looked at)
  enum { kLoad, kDepA, kDepA2, kDepC, kActual, kSrc, kArg, kPlaces }; std::vector<Ref> at[kPlaces]; const int kN = sym_tier() ? 3 : 2;
  int place = -1; for (int i = 0; i < kN; ++i) { const int p = sym::range(place + 1, kPlaces - 1, "place"); if (p + (kN - i) > kPlaces) { sym_assume(false); } place = p; at[p].push_back(AnyRef()); }
  auto text = [&](int p) { return at[p].empty() ? std::string() : "\"" + at[p][0].text + "\", "; };
  const std::string plain = "\":b\", \"//q:c\", ";
  f.put("p/BUILD", "load(" + (at[kLoad].empty() ? "\"//q:d.bzl\", " : text(kLoad)) + "\"sym\")\ncc_library(name = \"a\", srcs = [" + text(kSrc) + "], deps = [" + plain + text(kDepA) + text(kDepA2) + "])\ncc_library(name = \"b\", " + (at[kArg].empty() ? "" : "other = [" + text(kArg) + "]") + ")\n");
  f.put("q/BUILD", "cc_library(name = \"c\", deps = [" + text(kDepC) + "])\nalias(name = \"w\", " + (at[kActual].empty() ? "actual = \":c\"" : "actual = " + text(kActual)) + ")\n");
  static const char *const kPattern[] = {"", "//...", "//p/...", "//p:a", "//p:b", "//q:all", "//q:w"}; const int pat = sym::choose(7, "pattern"); const bool json = sym::flip("json"); bant::CommandlineFlags fl; fl.output_format = json ? bant::OutputFormat::kJSON : bant::OutputFormat::kCSV;
  std::vector<std::string> args{"workspace"}; if (pat) args.push_back(kPattern[pat]); const Ran r = Cli(args, fl); sym_assert(r.status == bant::CliStatus::kExitSuccess, "success");
  std::set<std::string> used; auto use = [&](int p, const char *why) { for (auto &x : at[p]) { if (x.project.empty()) { sym_cover("own"); continue; } if (!known.count(x.project)) { sym_cover("unlisted"); continue; } used.insert(x.project); sym_cover(why); if (x.project == "r") sym_cover("by-repository-name"); } };
  if (pat == 0) { for (auto &[k, v] : known) used.insert(k); sym_cover("all"); }
  const bool inp = pat >= 1 && pat <= 4, a = pat >= 1 && pat <= 3, c = pat == 1 || pat == 5, w = c || pat == 6;
  if (inp) use(kLoad, "load"); if (a) { use(kDepA, "deps"); use(kDepA2, "deps"); } if (c) use(kDepC, "deps"); if (w) use(kActual, "actual"); if (used.empty()) sym_cover("none");
  std::string want = json ? "" : "\"project\",\"version\",\"directory\"\n"; for (auto &p : used) { const Entry &e = known.at(p); const std::string dir = "bazel-out/../../../external/" + e.dir; if (json) want += p + "|" + e.version + "|" + dir + "\n"; else want += "\"" + p + "\",\"" + e.version + "\",\"" + dir + "\"\n"; }
  std::string got; if (json) { std::string line; for (char ch : r.out) if (ch == '\n') { const Json j = JsonReader::Parse(line, "each line is valid JSON"); sym_assert(j.kind == 'o' && j.a.size() == 3, "three cells"); got += j.a[0].s + "|" + j.a[1].s + "|" + j.a[2].s + "\n"; line.clear(); } else line += ch; sym_assert(line.empty(), "complete lines"); } else got = r.out;
  sym_cover(json ? "json" : "csv"); sym::trace(r.out);
  static std::string m; if (got != want) { m = "projects listed: " + got + " expected: " + want; sym_fail(m.c_str()); }
  sym_assert(f.leaked() == 0, "files are closed");
}
