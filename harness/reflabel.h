// Reference reading of package and label texts.
#pragma once
#include <optional>
#include <string>
#include <string_view>
#include <vector>
#include "bant/types-bazel.h"
#include "sym.h"
struct RefPkg { std::string project, path; bool operator==(const RefPkg &o) const { return project == o.project && path == o.path; } };
struct RefTgt { RefPkg pkg; std::string name; };
inline std::vector<std::string> RefSplit(const std::string &s, char c) { std::vector<std::string> r(1); for (char k : s) if (k == c) r.emplace_back(); else r.back() += k; return r; }
// [@project[~version]][//]path, no colon in it.
inline std::optional<RefPkg> RefPackage(const std::string &s) {
  if (s.size() < 2) return std::nullopt;
  RefPkg r; std::string rest = s;
  if (s[0] == '@') {
    size_t n = 0; while (n < s.size() && s[n] != '/') ++n;
    std::string prj = s.substr(0, n); rest = s.substr(n);
    const bool self = prj == "@";
    for (char c : prj) { if (c == '~') break; r.project += c; }
    if (r.project == "@") { if (!self) return std::nullopt; r.project = ""; }
  }
  size_t b = 0, e = rest.size(); while (b < e && rest[b] == '/') ++b; while (e > b && rest[e - 1] == '/') --e;
  r.path = rest.substr(b, e - b);
  for (size_t i = 0; i + 1 < r.path.size(); ++i) if (r.path[i] == '/' && r.path[i + 1] == '/') return std::nullopt;
  return r;
}
inline std::optional<RefTgt> RefTarget(const std::string &s, const RefPkg &ctx) {
  std::vector<std::string> p = RefSplit(s, ':'); if (p.size() > 2) return std::nullopt;
  if (p[0].empty()) return RefTgt{ctx, p.size() == 2 ? p[1] : ""};
  std::string name;
  if (p.size() == 2) name = p[1];
  else {
    std::vector<std::string> comp = RefSplit(s, '/');
    if (comp.size() > 1) name = comp.back();
    else if (s[0] == '@') name = s.substr(1);
    else return RefTgt{ctx, s};
  }
  auto pk = RefPackage(p[0]); if (!pk) return std::nullopt;
  if (pk->project.empty()) pk->project = ctx.project;
  return RefTgt{*pk, name};
}
inline bool Same(const bant::BazelPackage &a, const RefPkg &b) { return a.project == b.project && a.path == b.path; }
// An arbitrary well-formed package.
inline RefPkg AnyPackage(const char *name, int maxpath = 3) {
  RefPkg r; std::string n = name;
  switch (sym::choose(3, (n + ".project").c_str())) { case 1: r.project = "@r"; break; case 2: r.project = "@rx"; break; }
  r.path = sym::upto(maxpath, "ab/", (n + ".path").c_str());
  if (!r.path.empty()) { sym_assume(r.path[0] != '/' && r.path.back() != '/'); bool ok = true; for (size_t i = 0; i + 1 < r.path.size(); ++i) ok &= !(r.path[i] == '/' && r.path[i + 1] == '/'); sym_assume(ok); }
  return r;
}
