// @TITLE: each edit request is one buildozer command naming operation, labels and target
// @SRCS: bant/tool/edit-callback.cc bant/types-bazel.cc
// @BOUND: up to 3 requests of any kind; labels of 0 to 3 arbitrary bytes; target in any package of up to 2 bytes with a name of 1 to 3 bytes
// @BOUND-THOROUGH: labels of 0 to 5 bytes, packages of up to 4 bytes
// @COVER: add remove rename external
// @TIME: 120 600
#include <sstream>
#include "reflabel.h"
#include "bant/tool/edit-callback.h"
extern "C" void harness_main() {
  std::stringstream out; auto cb = bant::CreateBuildozerDepsEditCallback(out); std::string want;
  const int n = sym::range(0, sym_tier() ? 3 : 2, "requests");
  const RefPkg pk = AnyPackage("package", sym_tier() ? 4 : 2); const std::string name = sym::upto(3, "abx", "name", 1);
  auto t = bant::BazelTarget::ParseFrom(pk.project + "//" + pk.path + ":" + name, bant::BazelPackage("", "")); sym_assert(t.has_value(), "target"); if (pk.project.size()) sym_cover("external");
  const size_t sl = pk.path.rfind('/'); const std::string last = sl == std::string::npos ? pk.path : pk.path.substr(sl + 1);
  const std::string to = last == name ? pk.project + "//" + pk.path : pk.project + "//" + pk.path + ":" + name;
  for (int i = 0; i < n; ++i) {
    const int op = sym::choose(3, "op"); const int m = sym_tier() ? 5 : 3; auto lab = [&](const char *w) { return sym::bytes(sym::choose(m + 1, w), w); };
    const std::string b = lab("before"), a = lab("after");
    switch (op) {
    case 0: sym_cover("add"); cb(bant::EditRequest::kAdd, *t, b, a); want += "buildozer 'add deps " + a + "' " + to + "\n"; break;
    case 1: sym_cover("remove"); cb(bant::EditRequest::kRemove, *t, b, a); want += "buildozer 'remove deps " + b + "' " + to + "\n"; break;
    default: sym_cover("rename"); cb(bant::EditRequest::kRename, *t, b, a); want += "buildozer 'replace deps " + b + " " + a + "' " + to + "\n";
    }
  }
  const std::string got = out.str(); sym_assert(got == want, "one command per request, in order"); sym::trace(got);
}
