// @TITLE: package texts parse as specified, print and parse again to the same package
// @SRCS: bant/types-bazel.cc bant/workspace.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/util/file-utils.cc
// @BOUND: all package texts of up to 8 characters out of a / @ : ~ . (every other character is treated like the a)
// @BOUND-THOROUGH: texts of up to 11 characters
// @COVER: parsed refused project version multicolon
#include "reflabel.h"
extern "C" void harness_main() {
  using namespace bant;
  std::string s = sym::upto(sym_tier() ? 11 : 8, "a/@:~.", "text");
  std::optional<BazelPackage> p = BazelPackage::ParseFrom(s);
  // What follows a colon is the target and ignored. Packages don't contain colons.
  std::vector<std::string> parts = RefSplit(s, ':');
  std::optional<RefPkg> want; if (parts.size() <= 2) want = RefPackage(parts[0]); else sym_cover("multicolon");
  sym_assert(p.has_value() == want.has_value(), "package text accepted exactly if it has a package part");
  if (!p) { sym_cover("refused"); return; }
  sym_cover("parsed"); if (!p->project.empty()) sym_cover("project"); if (s.find('~') != std::string::npos) sym_cover("version");
  sym_assert(p->project == want->project, "project of the package text");
  sym_assert(p->path == want->path, "path of the package text");
  const std::string text = p->ToString();
  sym_assert(text == want->project + "//" + want->path, "package printed as project//path");
  std::optional<BazelPackage> again = BazelPackage::ParseFrom(text);
  sym_assert(again.has_value() && *again == *p, "printed package parses to the same package");
  sym_assert(again->ToString() == text, "and prints the same again");
}
