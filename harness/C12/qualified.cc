// @TITLE: file names and targets qualified with a package
// @SRCS: bant/types-bazel.cc bant/workspace.cc bant/explore/query-utils.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/util/file-utils.cc
// @BOUND: packages of 3 projects with paths of up to 4 characters, file names of up to 4 arbitrary bytes, with and without known project location
// @COVER: toplevel sub colon external unknown
#include "reflabel.h"
extern "C" void harness_main() {
  using namespace bant;
  RefPkg r = AnyPackage("pkg", 4); BazelPackage p(r.project, r.path);
  std::string f = sym::bytes(sym::choose(5, "file.len"), "file");
  std::string plain = f; if (!f.empty() && f[0] == ':') { plain = f.substr(1); sym_cover("colon"); }
  std::string want = r.path.empty() ? plain : r.path + "/" + plain;
  sym_cover(r.path.empty() ? "toplevel" : "sub");
  sym_assert(p.QualifiedFile(f) == want, "QualifiedFile is package path, one slash and file name");
  BazelWorkspace ws; const bool known = sym::flip("known"), decoy = sym::flip("decoy");
  if (known) ws.project_location[{.project = "r", .version = "1"}] = FilesystemPath("ext/r1");
  if (decoy) { ws.project_location[{.project = "ra", .version = ""}] = FilesystemPath("ext/ra"); ws.project_location[{.project = "q", .version = ""}] = FilesystemPath("ext/q"); }
  std::string full = p.FullyQualifiedFile(ws, f);
  if (known && r.project == "@r") { sym_cover("external"); sym_assert(full == "ext/r1/" + want, "file in an external project is below the location of that project"); }
  else { if (!r.project.empty()) sym_cover("unknown"); sym_assert(full == want, "file in own or unknown project is relative"); }
  auto t = p.QualifiedTarget(f);
  sym_assert(t.has_value() == !plain.empty(), "a target has a name");
  if (t) sym_assert(t->package == p && t->target_name == plain, "QualifiedTarget is that name in that package");
}
