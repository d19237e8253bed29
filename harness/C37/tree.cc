// @TITLE: highlighting changes nothing but adding sequences around the matches
// @SRCS: bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc bant/explore/query-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @COVER: match no-match empty-match several color
// @BOUND: any of 8 shapes of trees with a string of up to 2 characters out of 3 and an identifier of 1 out of 2; any valid expression of 1 to 3 characters out of 7; with and without color
// @BOUND-THOROUGH: a string of up to 3 characters, an identifier of up to 2
// @ASSUME: the text has no escape characters
// @TIME: 200 780
#include "grep.h"
extern "C" void harness_main() {
  static const char *const kShape[] = {"f(x = \"S\")", "I(I = [\"S\", \"a\"], )", "f(I.I(\"S\"))", "f({\"S\": I[I]})", "f(x = \"S\" + r'S', y = 12)", "f([I for I in (\"S\",) if I])", "f(\"S\" if I else not I, -1)", "f(x = \"\", y = '''S''')"};
  std::string s = sym::upto(2 + sym_tier(), "aB_", "string"), id = sym::upto(1 + sym_tier(), "aB", "identifier", 1), rx = sym::upto(3, "aB.*^$|", "regex", 1);
  for (char &c : s) c = (char)sym_concretize((unsigned char)c); for (char &c : id) c = (char)sym_concretize((unsigned char)c); for (char &c : rx) c = (char)sym_concretize((unsigned char)c);
  const RE2 re("(" + rx + ")"); sym_assume(re.ok()); const char *shape = kShape[sym::choose(8, "shape")]; std::string text; std::vector<std::string> leaves;
  for (const char *c = shape; *c;) { if (*c == 'S') { text += s; leaves.push_back(s); ++c; } else if (*c == 'I') { text += id; leaves.push_back(id); ++c; } else if (*c == 'f' && c[1] == '(') { text += *c++; leaves.push_back("f"); } else if ((*c == 'x' || *c == 'y') && c[1] == ' ') { leaves.push_back(std::string(1, *c)); text += *c++; } else if (*c == '\"' && c[1] == 'a') { leaves.push_back("a"); text += "\"a\""; c += 3; } else if (*c == '\"' && c[1] == '\"') { leaves.push_back(""); text += "\"\""; c += 2; } else text += *c++; }
  bant::NamedLineIndexedContent src("BUILD", text); bant::Scanner scan(src); bant::Arena arena(4096); std::stringstream err; bant::Parser parser(&scan, &arena, err); bant::List *ast = parser.parse(); sym_assume(!parser.parse_error() && ast && ast->size() == 1); bant::Node *n = *ast->begin();
  std::stringstream plain, mono, color; bant::PrintVisitor p(plain), m(mono, &re, false), c(color, &re, true); p.WalkNonNull(n); m.WalkNonNull(n); c.WalkNonNull(n);
  sym_assert(mono.str() == plain.str(), "without color, the output is the plain text"); sym_assert(Strip(color.str()) == plain.str(), "without the sequences, the output is the plain text");
  bool any = false; std::vector<std::string> want; for (auto &l : leaves) for (auto &x : Matches(l, re, &any)) want.push_back(x);
  sym_assert(m.any_highlight() == any && c.any_highlight() == any && !p.any_highlight(), "reports whether any identifier or string matches"); sym_assert(Highlighted(color.str()) == want, "the matches are highlighted"); sym_cover(any ? "match" : "no-match"); if (any && want.empty()) sym_cover("empty-match"); if (want.size() > 1) sym_cover("several"); sym_cover("color"); sym::trace(color.str());
}
