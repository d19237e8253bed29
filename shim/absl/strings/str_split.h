#pragma once
#include <string>
#include <string_view>
#include <vector>
#include <utility>
namespace absl {
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(std::string_view s) const { for (char c : s) if (!(c == ' ' || (c >= 9 && c <= 13))) return true; return false; } };
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
struct ByAnyChar { std::string d; explicit ByAnyChar(std::string_view s) : d(s) {} };
struct MaxSplitsChar { char c; int n; };
inline MaxSplitsChar MaxSplits(char c, int n) { return {c, n}; }
class Splitter {
 public:
  std::vector<std::string_view> v;
  operator std::vector<std::string_view>() const { return v; }
  operator std::vector<std::string>() const { return std::vector<std::string>(v.begin(), v.end()); }
  template <typename A, typename B> operator std::pair<A, B>() const { return {A(v.size() > 0 ? v[0] : std::string_view()), B(v.size() > 1 ? v[1] : std::string_view())}; }
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
};
template <typename P> inline Splitter SplitImpl_(std::string_view s, P next, auto pred) {
  Splitter r; size_t pos = 0;
  for (;;) { size_t len = 0; size_t q = next(s, pos, &len); std::string_view piece = s.substr(pos, q == std::string_view::npos ? q : q - pos); if (pred(piece)) r.v.push_back(piece); if (q == std::string_view::npos) break; pos = q + len; }
  return r;
}
template <typename Pred = AllowEmpty> inline Splitter StrSplit(std::string_view s, char d, Pred p = {}) { return SplitImpl_(s, [d](std::string_view t, size_t pos, size_t *l) { *l = 1; return t.find(d, pos); }, p); }
template <typename Pred = AllowEmpty> inline Splitter StrSplit(std::string_view s, std::string_view d, Pred p = {}) { return SplitImpl_(s, [d](std::string_view t, size_t pos, size_t *l) { *l = d.size(); return t.find(d, pos); }, p); }
template <typename Pred = AllowEmpty> inline Splitter StrSplit(std::string_view s, const char *d, Pred p = {}) { return StrSplit(s, std::string_view(d), p); }
template <typename Pred = AllowEmpty> inline Splitter StrSplit(std::string_view s, ByAnyChar d, Pred p = {}) { return SplitImpl_(s, [d](std::string_view t, size_t pos, size_t *l) { *l = 1; return t.find_first_of(d.d, pos); }, p); }
template <typename Pred = AllowEmpty> inline Splitter StrSplit(std::string_view s, MaxSplitsChar d, Pred p = {}) { int n = d.n; return SplitImpl_(s, [d, n](std::string_view t, size_t pos, size_t *l) mutable { *l = 1; if (n-- <= 0) return std::string_view::npos; return t.find(d.c, pos); }, p); }
}
