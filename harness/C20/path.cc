// @TITLE: joining paths and extracting the file name, for paths built, copied, assigned and asked in any order
// @SRCS: bant/util/file-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @BOUND: directory of 0 to 3 and name of 0 to 3 arbitrary non-NUL bytes, built four ways, with 0 to 3 operations (ask, copy, assign, move) before the answer is compared
// @BOUND-THOROUGH: directory and name of 0 to 5 bytes
// @COVER: joined empty-dir slashes from-dirent plain name-with-slash
#include "symfs.h"
#include "bant/util/file-utils.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
static std::string Bytes(const char *n, int max) { std::string s = sym::bytes(sym::choose(max + 1, (std::string(n) + ".len").c_str()), n); bool ok = true; for (char c : s) ok &= c != 0; sym_assume(ok); return s; }
static std::string Last(const std::string &p) { std::string r; for (char c : p) { if (c == '/') r.clear(); else r += c; } return r; }
extern "C" void harness_main() {
  using bant::FilesystemPath; const int max = sym_tier() ? 5 : 3;
  std::string dir = Bytes("dir", max), name = Bytes("name", max), want; const int how = sym::choose(3, "how");
  FilesystemPath p("other/dir", "file"); const bool asked = sym::flip("asked"); if (asked) sym_assert(p.filename() == "file", "file name");
  if (how == 0) { want = name; p = FilesystemPath(name); sym_cover("plain"); }
  else {
    sym_assume(name.empty() || name[0] != '/');
    std::string d = dir; while (!d.empty() && d.back() == '/') d.pop_back(); if (d.size() + 1 < dir.size()) sym_cover("slashes");
    if (dir.empty()) sym_cover("empty-dir"); want = dir.empty() ? name : d + "/" + name; if (name.find('/') != std::string::npos) sym_cover("name-with-slash");
    if (how == 1) { p = FilesystemPath(dir, name); sym_cover("joined"); }
    else { struct dirent e; memset(&e, 0, sizeof e); memcpy(e.d_name, name.c_str(), name.size() + 1); e.d_type = DT_REG; p = FilesystemPath(dir, e); sym_cover("from-dirent"); }
  }
  for (int i = 0; i < (how == 1 ? 2 : 1); ++i) switch (sym::choose(5, "op")) {
    case 0: break;
    case 1: sym_assert(p.filename() == Last(want), "file name is the part after the last slash"); break;
    case 2: { FilesystemPath q(p); sym_assert(q.filename() == Last(want), "file name of a copy"); p = q; break; }
    case 3: { FilesystemPath q("x/y/zz"); if (asked) (void)q.filename(); q = p; p = FilesystemPath("k"); p = q; break; }
    case 4: { FilesystemPath q(std::move(p)); p = q; break; }
  }
  sym_assert(p.path() == want && std::string(p.c_str()) == want, "one separator at the joint, otherwise the characters given");
  const std::string_view f = p.filename(); sym_assert(f == Last(want), "file name is the part after the last slash");
  sym_assert(f.data() >= p.path().data() && f.data() + f.size() == p.path().data() + p.path().size(), "and lies in the path");
  sym_assert(p.filename() == Last(want), "asked again"); sym::trace(p.path()); sym::trace(p.filename());
}
