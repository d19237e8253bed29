// @TITLE: headers of one C++ library are listed at the paths they can be included by
// @SRCS: bant/explore/header-providers.cc bant/explore/aliased-by.cc bant/explore/query-utils.cc bant/frontend/parsed-project.cc bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/types-bazel.cc bant/frontend/print-visitor.cc bant/util/file-utils.cc bant/workspace.cc bant/util/stat.cc bant/frontend/elaboration.cc
// @BOUND: package of 3 kinds; one library with an arbitrary header path of up to 3 characters in any of three attributes, with or without a colon in front, with include_prefix, strip_include_prefix and one include directory of up to 3 arbitrary characters each (two of them at a time), plain or reversed index
// @BOUND-THOROUGH: up to 4 characters, all of them at a time
// @COVER: label stripped prefixed incdir plain canonicalized boundary root
// @TIME: 300 780
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
#include "symfs.h"
#include "project.h"
#include "bant/explore/header-providers.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
// Include path without leading ./ and /
static std::string Light(std::string s) { while (s.size() >= 2 && s[0] == '.' && s[1] == '/') s = s.substr(2); while (!s.empty() && s[0] == '/') s = s.substr(1); return s; }
// Whether dir (no slashes at the end) is one on the way to file, then the rest.
static bool Below(const std::string &dir, const std::string &file, std::string *rest) { if (file.size() <= dir.size() || file[dir.size()] != '/') return false; for (size_t i = 0; i < dir.size(); ++i) if (dir[i] != file[i]) return false; *rest = file.substr(dir.size() + 1); return true; }
extern "C" void harness_main() {
  static const char *const kPkg[] = {"//", "//a", "//a/b"}; static const char *const kAttr[] = {"hdrs", "textual_hdrs", "public_hdrs"}; const int max = sym_tier() ? 4 : 3;
  const int pk = sym::choose(3, "package"), what = sym_tier() ? 7 : sym::choose(4, "what");  // 1 include_prefix 2 strip 4 includes
  const std::string path = std::string(kPkg[pk]).substr(2);
  std::string hdr = sym::upto(max, "ab/.", "header", 1), pre, strip, inc;
  if (what & 1) pre = sym::upto(max, "ab/.", "include_prefix"); if (what & 2 || what == 3) strip = sym::upto(max, "ab/", "strip"); if ((what & 4) || what == 3 || what == 0) inc = sym::upto(max, "ab/", "includes");
  std::string t = "cc_library(name=\"n\", " + std::string(kAttr[sym::choose(3, "attribute")]) + "=[\"" + (sym::flip("colon") ? (sym_cover("label"), ":") : "") + hdr + "\"]";
  if (!pre.empty()) t += ",include_prefix=\"" + pre + "\""; if (!strip.empty()) t += ",strip_include_prefix=\"" + strip + "\""; if (!inc.empty()) t += ",includes=[\"" + inc + "\"]";
  Proj p; p.add(kPkg[pk], t + ")\n");
  std::set<std::string> want; const std::string fqn = path.empty() ? hdr : path + "/" + hdr; std::string rest;
  if (!pre.empty()) { want.insert(Light(pre + "/" + hdr)); sym_cover("prefixed"); }
  else {
    std::string s = strip; while (!s.empty() && s[0] == '/') s = s.substr(1); while (!s.empty() && s.back() == '/') s.pop_back();
    if (!s.empty() && Below(s, fqn, &rest)) { want.insert(Light(rest)); sym_cover("stripped"); } else { want.insert(Light(fqn)); sym_cover(s.empty() ? "plain" : "boundary"); }
    std::string d = inc; if (!d.empty() && d.back() == '/') d.pop_back();
    if (!inc.empty() && Below(d, fqn, &rest)) { want.insert(Light(rest)); sym_cover("incdir"); }
  }
  if (path.empty()) sym_cover("root"); if (Light(hdr) != hdr) sym_cover("canonicalized");
  const bool reversed = sym::flip("reversed"); std::stringstream info; const auto got = bant::ExtractHeaderToLibMapping(p.project, info, reversed);
  sym_assert(got.size() == want.size(), "as many include paths as there are");
  for (const auto &w : want) {
    const std::string key = reversed ? std::string(w.rbegin(), w.rend()) + "/" : w; auto it = got.find(key); sym_assert(it != got.end(), "listed at the path it can be included by");
    sym_assert(it->second.size() == 1 && it->second.begin()->ToString() == std::string(kPkg[pk]) + ":n", "with the library that exports it"); sym::trace(key);
  }
}
