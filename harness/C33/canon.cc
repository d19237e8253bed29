// @TITLE: suggested renames of dependencies keep their meaning and leave nothing further to suggest
// @SRCS: bant/tool/canon-targets.cc bant/tool/edit-callback.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @ASSUME: labels with an empty target name ("", ":", "//", "//a/") are not valid in a BUILD file and not considered
// @BOUND: a target in a package at the root, a subdirectory, or an external project with one dependency label of 0 to 6 arbitrary bytes of "ab/:@~" (optionally prefixed by the name of the package), plus one fixed canonical one; patterns selecting everything, the package, the target or something else
// @BOUND-THOROUGH: label of 0 to 8 bytes
// @COVER: renamed canonical invalid not-selected short-form version external rootpkg
// @TIME: 300 780
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "symfs.h"
#include "project.h"
#include "reflabel.h"
#include "bant/tool/canon-targets.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
struct E { bant::EditRequest op; std::string target, before, after; };
static std::string Full(const RefPkg &p, const std::string &n) { return p.project + "//" + p.path + ":" + n; }
static std::vector<E> Run(const std::string &pkg, const std::string &text, const std::string &pattern, size_t &count, std::string *info) {
  Proj p; p.add(pkg, text); std::vector<E> r; auto pat = bant::BazelPattern::ParseFrom(pattern);
  count = bant::CreateCanonicalizeEdits(p.session, p.project, *pat, [&](bant::EditRequest op, const bant::BazelTarget &t, std::string_view b, std::string_view a) { r.push_back({op, t.package.project + "//" + t.package.path + ":" + t.target_name, std::string(b), std::string(a)}); });
  if (info) *info = p.info.str();
  return r;
}
extern "C" void harness_main() {
  static const struct { const char *pkg, *project, *path; } kPkg[] = {{"//a", "", "a"}, {"//", "", ""}, {"@b//a", "@b", "a"}};
  const auto &k = kPkg[sym::choose(3, "package")]; const RefPkg ref{k.project, k.path};
  if (ref.project.size()) sym_cover("external"); if (ref.path.empty()) sym_cover("rootpkg");
  static const char *const kPre[] = {"", "//a", "@b//a", "//a/a"};
  const int pre = sym::choose(4, "prefix"); const int maxlen = sym_tier() ? 8 : 6;
  const std::string dep = std::string(kPre[pre]) + sym::upto(pre ? maxlen - 2 : maxlen, "ab/:@~", "dep");
  static const char *const kPattern[] = {"...", nullptr, nullptr, "//zz:b", nullptr};
  const int sel = sym::choose(5, "pattern"); std::string pattern = kPattern[sel] ? kPattern[sel] : ref.project + "//" + ref.path + (sel == 1 ? ":b" : sel == 2 ? ":all" : ":x");
  if (sel == 0) pattern = ref.project.empty() ? "..." : ref.project + "//...";
  const bool selected = sel < 3;
  auto text = [&](const std::string &d) { return "cc_library(name = \"b\", deps = [\":ok\", \"" + d + "\"])\n"; };
  size_t n = 0; std::string info; const auto edits = Run(k.pkg, text(dep), pattern, n, &info); sym_assert(n == edits.size(), "number of edits is returned");
  if (!selected) { sym_cover("not-selected"); sym_assert(edits.empty(), "targets not selected are left alone"); return; }
  const auto want = RefTarget(dep, ref); sym_assume(!want || !want->name.empty());  // no target without a name
  if (!want) { sym_cover("invalid"); sym_assert(edits.empty(), "labels not understood are left alone"); sym_assert(info.find("Invalid") != std::string::npos, "and reported"); return; }
  sym_assert(edits.size() <= 1, "at most one edit per label");
  if (edits.empty()) {
    sym_cover("canonical"); const bool short_form = dep.size() && dep[0] != ':';
    if (want->pkg == ref) sym_assert(dep == ":" + want->name, "labels in the same package are written :name");
    else {
      const size_t sl = want->pkg.path.rfind('/'); const std::string last = sl == std::string::npos ? want->pkg.path : want->pkg.path.substr(sl + 1);
      sym_assert(dep == want->pkg.project + "//" + want->pkg.path + ":" + want->name || dep == want->pkg.project + "//" + want->pkg.path || (want->pkg.path.empty() && dep == want->pkg.project), "others are written with the full package name");
      if (last == want->name && short_form && dep.find(':') == std::string::npos) sym_cover("short-form");
      sym_assert(last != want->name || last.empty() || dep.find(':') == std::string::npos, "without repeating the name of the package");
    }
    return;
  }
  sym_cover("renamed"); if (dep.find('~') != std::string::npos) sym_cover("version");
  const E &e = edits[0]; sym_assert(e.op == bant::EditRequest::kRename && e.target == Full(ref, "b") && e.before == dep, "renames that label of that target");
  sym_assert(e.after != dep, "to something else"); sym::trace(e.after);
  const auto got = RefTarget(e.after, ref); sym_assert(got && got->pkg == want->pkg && got->name == want->name, "that refers to the same target");
  size_t n2 = 0; const auto again = Run(k.pkg, text(e.after), pattern, n2, nullptr); sym_assert(again.empty() && n2 == 0, "nothing further to suggest afterwards");
}
