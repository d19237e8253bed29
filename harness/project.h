// A project parsed from texts, and the session it is used in.
#pragma once
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "bant/explore/query-utils.h"
#include "bant/frontend/elaboration.h"
#include "bant/frontend/parsed-project.h"
#include "bant/session.h"
#include "bant/types-bazel.h"
#include "sym.h"
namespace bant {
class ParsedProjectTestUtil {
 public:
  static const ParsedBuildFile *Add(ParsedProject &p, SessionStreams &s, const BazelPackage &pkg, std::string_view file, std::string_view content) { return p.AddBuildFileContent(s, pkg, file, std::string(content)); }
};
}  // namespace bant
struct Proj {
  std::stringstream out, info; bant::ParsedProject project; bant::Session session;
  explicit Proj(bant::BazelWorkspace w = {}, bant::CommandlineFlags f = {}) : project(std::move(w), false), session(&out, &info, std::move(f)) {}
  static bant::BazelPackage Pkg(const std::string &s) { return s.empty() || s == "//" ? bant::BazelPackage("", "") : *bant::BazelPackage::ParseFrom(s); }
  const bant::ParsedBuildFile *add(const std::string &pkg, std::string_view content) {
    const bant::BazelPackage p = Pkg(pkg); const std::string file = (p.project.empty() ? "" : "ext/") + (p.path.empty() ? "" : p.path + "/") + "BUILD";
    return bant::ParsedProjectTestUtil::Add(project, session.streams(), p, file, content);
  }
};
// Name of the first rule called in the file: a text in the file itself.
inline std::string_view FirstCall(const bant::ParsedBuildFile *f) { std::string_view r; bant::query::FindTargetsAllowEmptyName(f->ast, {}, [&](const bant::query::Result &x) { if (r.empty()) r = x.node->identifier()->id(); }); return r; }
inline bant::BazelTarget Tgt(std::string_view s) { return *bant::BazelTarget::ParseFrom(s, bant::BazelPackage("", "")); }
inline std::string Join(const std::set<std::string> &s) { std::string r; for (auto &x : s) r += x + " "; return r; }
template <typename M> inline std::string MapText(const M &m) { std::string r; for (const auto &[k, v] : m) { r += k.ToString() + " ->"; for (const auto &x : v) r += " " + x.ToString(); r += "\n"; } return r; }
