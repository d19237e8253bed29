#pragma once
#include "../symfs.h"
#include "../project.h"
#include "bant/frontend/print-visitor.h"
#include "bant/frontend/parser.h"
#include "bant/frontend/scanner.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
inline std::string Strip(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\033') { while (i < s.size() && s[i] != 'm') ++i; } else r += s[i]; return r; }
// The places matched in a text, one after the other.
inline std::vector<std::string> Matches(const std::string &text, const RE2 &re, bool *any) {
  std::vector<std::string> r; std::vector<long> c; size_t at = 0; while (at <= text.size() && re.search(text, at, c)) { *any = true; if (c[1] > c[0]) { r.push_back(text.substr(c[0], c[1] - c[0])); at = c[1]; } else at = c[1] + 1; } return r;
}
inline std::vector<std::string> Highlighted(const std::string &s) {
  std::vector<std::string> r; size_t i = 0; while ((i = s.find("\033[7m", i)) != std::string::npos) { i += 4; size_t e = s.find("\033[27m", i); sym_assert(e != std::string::npos, "highlighting ends"); r.push_back(s.substr(i, e - i)); i = e; } return r;
}
