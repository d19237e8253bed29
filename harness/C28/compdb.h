#pragma once
#include "../symfs.h"
#include "../project.h"
#include "../jsonreader.h"
#include "bant/tool/compilation-db.h"
#include "bant/workspace.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
inline std::vector<std::string> Lines(const std::string &s) { std::vector<std::string> r; size_t b = 0; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n') { r.push_back(s.substr(b, i - b)); b = i + 1; } sym_assert(b == s.size(), "output ends with a line end"); return r; }
inline std::vector<std::string> Flags(Proj &p, const std::string &pattern = "//...") { p.out.str(""); bant::WriteCompilationFlags(p.session, p.project, *bant::BazelPattern::ParseFrom(pattern), false); return Lines(p.out.str()); }
inline Json Database(Proj &p, const std::string &pattern = "//...") { p.out.str(""); bant::WriteCompilationFlags(p.session, p.project, *bant::BazelPattern::ParseFrom(pattern), true); return JsonReader::Parse(p.out.str(), "the compilation database is valid JSON"); }
// The database entry has to have the same flags as printed.
inline void CheckEntry(const Json &e, const std::vector<std::string> &flags, const std::string &cwd, std::string *file) {
  const Json *f = e.get("file"), *a = e.get("arguments"), *d = e.get("directory"); sym_assert(e.kind == 'o' && e.keys.size() == 3 && f && a && d && f->kind == 's' && a->kind == 'a' && d->kind == 's', "an entry has file, arguments and directory"); *file = f->s; sym_assert(d->s == cwd, "directory is the current one");
  std::vector<std::string> got; for (auto &x : a->a) { sym_assert(x.kind == 's', "arguments are strings"); got.push_back(x.s); }
  sym_assert(got.size() >= 4 && got[0] == "gcc" && got[got.size() - 2] == "-c" && got.back() == f->s, "the command compiles that file");
  std::vector<std::string> norm; for (size_t i = 1; i + 2 < got.size(); ++i) if (got[i] == "-iquote") { sym_assert(i + 3 < got.size(), "include path has a value"); norm.push_back("-I" + got[++i]); } else norm.push_back(got[i]);
  size_t k = 0; for (auto &x : norm) if (k < flags.size() && x == flags[k]) ++k; sym_assert(k == flags.size(), "the flags are those of compile-flags, in that order");
  size_t inc = 0, fi = 0; for (auto &x : norm) inc += x.starts_with("-I"); for (auto &x : flags) fi += x.starts_with("-I"); sym_assert(inc == fi, "and no other include path");
  sym_assert(!norm.empty() && norm[0] == "-xc++", "the language is C++");
}
