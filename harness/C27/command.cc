// @TITLE: exactly the command meant is run, or none
// @SRCS: bant/cli-commands.cc bant/explore/aliased-by.cc bant/explore/dependency-graph.cc bant/explore/header-providers.cc bant/tool/canon-targets.cc bant/tool/compilation-db.cc bant/tool/dwyu.cc bant/tool/edit-callback.cc bant/tool/workspace.cc bant/util/table-printer.cc bant/util/glob-match-builder.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc bant/explore/query-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: exact prefix ambiguous unknown none bad-pattern two-patterns pattern-needed findings
// @BOUND: every beginning of every command name, followed by any further byte or none; 7 argument lists
// @TIME: 200 780
#include "cli.h"
using bant::CliStatus;
extern "C" void harness_main() {
  auto &f = symfs::fs(); f.mkdirs("bazel-out"); f.mkdirs("external/x~1"); f.put("MODULE.bazel", "bazel_dep(name = \"x\", version = \"1\")\n"); f.put("p/BUILD", "cc_library(name = \"a\", srcs = [\"a.cc\"], hdrs = [\"a.h\"], deps = [\"//p:b\", \":g\"])\ncc_library(name = \"b\", hdrs = [\"b.h\"])\ngenrule(name = \"g\", outs = [\"g.txt\"])\nalias(name = \"c\", actual = \":b\")\n"); f.put("p/a.cc", "#include \"p/a.h\"\n"); f.put("p/a.h", ""); f.put("p/b.h", "");
  // What shows that it was that command.
  static const char *const kShows[] = {"", "hdrs = [\"b.h\"]", "p/BUILD", " cc_library ", "1", "p/b.h", "//p:b", "//p:a", "//p:b", "p/g.txt", "buildozer 'remove deps //p:b' //p:a", "\"file\": \"p/a.cc\"", "-Ibazel-bin", "buildozer 'replace deps //p:b :b' //p:a"};
  const int c = sym::choose(14, "command"); const std::string full = kCommands[c]; std::string word = full.substr(0, sym::range(0, full.size(), "length")); if (sym::flip("more")) word += sym::bytes(1, "then");
  int hits = 0, which = -1; bool exact = false; for (int i = 0; i < 14; ++i) { const std::string_view n = kCommands[i]; if (n == word) { exact = true; which = i; } else if (!exact && n.starts_with(word)) { ++hits; which = i; } }
  static const char *const kArgs[][2] = {{"//p/...", nullptr}, {nullptr, nullptr}, {"p::", nullptr}, {"//p:a", "//p:b"}, {"//p:a", nullptr}, {"...", nullptr}, {"//nope/...", nullptr}}; const int a = sym::choose(7, "arguments"); std::vector<std::string> args{word}; for (const char *y : kArgs[a]) if (y) args.push_back(y);
  bant::CommandlineFlags fl; Ran r = Cli(args, fl); sym_assert(f.leaked() == 0, "files are closed");
  if (!exact && hits != 1) { sym_assert(r.status == CliStatus::kExitCommandlineClarification, "a word that is no or no single command: clarification needed"); sym_assert(r.out.empty() && !r.info.empty(), "and reported, with no output"); sym_cover(hits ? "ambiguous" : "unknown"); if (word.empty()) { r = Cli({}, fl); sym_assert(r.status == CliStatus::kExitCommandlineClarification && r.out.empty() && !r.info.empty(), "no command"); sym_cover("none"); } return; }
  sym_cover(exact ? "exact" : "prefix");
  if (a == 2 || a == 3) { sym_assert(r.status == CliStatus::kExitFailure && r.out.empty() && !r.info.empty(), "arguments not understood: failure, no output"); sym_cover(a == 2 ? "bad-pattern" : "two-patterns"); return; }
  if (a == 1 && (which == 1 || which == 10 || which == 13)) { sym_assert(r.status == CliStatus::kExitFailure && r.out.empty() && !r.info.empty(), "commands that need a pattern"); sym_cover("pattern-needed"); return; }
  const bool finds = (which == 10 || which == 13) && a != 6; sym_assert(r.status == (finds ? CliStatus::kExitCleanupFindings : CliStatus::kExitSuccess), "status of the command"); if (finds) sym_cover("findings");
  if (a == 0) { for (int i = 0; i < 14; ++i) if (*kShows[i] && i != 6 && i != 7 && i != 8 && i != 4 && i != 2) sym_assert((r.out.find(kShows[i]) != std::string::npos) == (i == which) || (which == 11 && i == 5), "output is that of the command"); if (which == 0) sym_assert(r.out.empty(), "parse is silent"); else if (which != 4) sym_assert(r.out.find(kShows[which]) != std::string::npos, "output is that of the command"); }
  if (which == 4 && a == 1) sym_assert(r.out.find("external/x~1") != std::string::npos, "workspace lists the projects");
  if (word != full || which != c) { std::vector<std::string> fa = args; fa[0] = kCommands[which]; Ran q = Cli(fa, fl); sym_assert(q.status == r.status && q.out == r.out && q.info == r.info, "the same as with the full name"); }
}
