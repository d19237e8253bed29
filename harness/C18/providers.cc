// @TITLE: headers of several libraries, aliases and proto libraries are attributed to exactly their providers
// @SRCS: bant/explore/header-providers.cc bant/explore/aliased-by.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @BOUND: two packages with 3 rules out of 9 kinds (libraries with several headers, alias, proto_library and its C++ and grpc wrappers, others), with arbitrary names, headers and targets out of three letters
// @BOUND-THOROUGH: 4 rules
// @COVER: second-dep alias alias-chain proto grpc two-providers srcs-only
// @TIME: 300 780
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include <functional>
#include "symfs.h"
#include "project.h"
#include "bant/explore/header-providers.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  static const char *const kPkg[] = {"//", "//q"}; std::string text[2]; struct R { int kind, pkg; std::string n, t; }; std::vector<R> rules; const int kN = sym_tier() ? 4 : 3;
  for (int i = 0; i < kN; ++i) {
    R r; r.kind = sym::choose(9, "kind"); r.pkg = sym_tier() || i == 0 ? sym::choose(2, "package") : rules[0].pkg; r.n = sym::over(1, "xyz", "name"); r.t = sym::over(1, sym_tier() ? "xy" : "xyz", "header_or_target"); const std::string &n = r.n, &t = r.t;
    for (auto &o : rules) sym_assume(o.pkg != r.pkg || o.n != n);
    std::string &s = text[r.pkg];
    switch (r.kind) {
    case 0: s += "cc_library(name=\"" + n + "\",hdrs=[\"" + t + ".h\",\"o.h\"],srcs=[\"s.h\",\"s.cc\"])\n"; break;
    case 1: s += "cc_library(name=\"" + n + "\",srcs=[\"" + t + ".h\"])\n"; sym_cover("srcs-only"); break;
    case 2: s += "cc_test(name=\"" + n + "\",hdrs=[\"" + t + ".h\"])\n"; break;
    case 3: s += "grpc_cc_library(name=\"" + n + "\",public_hdrs=[\":" + t + ".h\"],hdrs=[\"i.h\"],textual_hdrs=[\"j.inc\"])\n"; break;
    case 4: s += "alias(name=\"" + n + "\",actual=\":" + t + "\")\n"; break;
    case 5: s += "alias(name=\"" + n + "\",actual=\"//q:" + t + "\")\n"; break;
    case 6: s += "proto_library(name=\"" + n + "\",srcs=[\"" + t + ".proto\",\":d/m.proto\",\"skip.txt\"])\n"; break;
    case 7: s += "cc_proto_library(name=\"" + n + "\",deps=[\":x\",\":" + t + "\"])\n"; break;
    case 8: s += "cc_grpc_library(name=\"" + n + "\",srcs=[\"q:r:s\",\":" + t + "\"])\n"; break;
    }
    rules.push_back(r);
  }
  std::map<std::string, std::set<std::string>> want;
  auto label = [&](int pkg, const std::string &n) { return std::string(kPkg[pkg]) + ":" + n; };
  for (auto &r : rules) {
    auto file = [&](const std::string &f) { return r.pkg ? "q/" + f : f; };
    std::function<void(const std::string &, int, const std::string &)> provides = [&](const std::string &f, int pkg, const std::string &n) {
      if (!want[file(f)].insert(label(pkg, n)).second) return;
      for (auto &a : rules) if ((a.kind == 4 && a.pkg == pkg && a.t == n) || (a.kind == 5 && pkg == 1 && a.t == n)) { sym_cover("alias"); if (n != r.n || pkg != r.pkg) sym_cover("alias-chain"); provides(f, a.pkg, a.n); }
    };
    auto lib = [&](const std::string &f) { provides(f, r.pkg, r.n); };
    if (r.kind == 0) { lib(r.t + ".h"); lib("o.h"); } if (r.kind == 3) { lib(r.t + ".h"); lib("i.h"); lib("j.inc"); }
    if (r.kind == 6) for (int grpc : {0, 1}) {
      const R *w = nullptr; int n = 0; for (auto &c : rules) if (c.kind == 7 + grpc && c.pkg == r.pkg && (c.t == r.n || (!grpc && r.n == "x"))) { if (!grpc && r.n != "x") sym_cover("second-dep"); w = &c; ++n; }
      sym_assume(n <= 1);  // by documentation, only one wrapper of each kind is expected
      if (w) for (const std::string &f : {r.t, std::string("d/m")}) for (const char *e : {".pb.h", ".proto.h"}) { provides(f + (grpc ? ".grpc" : "") + e, w->pkg, w->n); sym_cover(grpc ? "grpc" : "proto"); }
    }
  }
  Proj p; for (int i = 0; i < 2; ++i) p.add(kPkg[i], text[i]);
  std::stringstream info; const auto got = bant::ExtractHeaderToLibMapping(p.project, info, false);
  for (const auto &[h, ts] : got) { sym::trace(h); auto it = want.find(h); sym_assert(it != want.end(), "no header that is not exported"); std::set<std::string> g; for (const auto &t : ts) g.insert(t.ToString()); if (g.size() > 1) sym_cover("two-providers"); sym_assert(g == it->second, "provided by exactly the libraries exporting it, their aliases and wrappers"); }
  sym_assert(got.size() == want.size(), "every exported header is listed");
}
