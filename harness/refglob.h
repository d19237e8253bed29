// What a glob pattern selects, independently of the code under test: pattern
// and path as lists of components.
#pragma once
#include <string>
#include <vector>
using Comps = std::vector<std::string>;
// One component, * matches any characters.
inline bool Comp(const std::string &p, const std::string &s, size_t i = 0, size_t j = 0) {
  std::vector<char> cur(s.size() + 1, 0), nxt; cur[0] = 1;
  for (char c : p) {
    nxt.assign(s.size() + 1, 0);
    if (c == '*') { char any = 0; for (size_t k = 0; k <= s.size(); ++k) { any |= cur[k]; nxt[k] = any; } }
    else for (size_t k = 0; k < s.size(); ++k) nxt[k + 1] = cur[k] & (s[k] == c);
    cur = nxt;
  }
  return cur[s.size()];
}
inline bool Path(const Comps &p, const Comps &s) {
  std::vector<char> cur(s.size() + 1, 0), nxt; cur[0] = 1;
  for (size_t q = 0; q < p.size(); ++q) {
    nxt.assign(s.size() + 1, 0);
    if (p[q] == "**") { char any = 0; const bool last = q + 1 == p.size(); for (size_t k = 0; k <= s.size(); ++k) { nxt[k] = last ? any : any | cur[k]; any |= cur[k]; } }
    else for (size_t k = 0; k < s.size(); ++k) nxt[k + 1] = cur[k] & Comp(p[q], s[k]);
    cur = nxt;
  }
  return cur[s.size()];
}
