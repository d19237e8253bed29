#pragma once
#include <charconv>
#include <string_view>
namespace absl {
template <typename I> inline bool SimpleAtoi(std::string_view s, I *o) { while (!s.empty() && (s.front() == ' ' || (s.front() >= 9 && s.front() <= 13))) s.remove_prefix(1); while (!s.empty() && (s.back() == ' ' || (s.back() >= 9 && s.back() <= 13))) s.remove_suffix(1); if (!s.empty() && s[0] == '+') s.remove_prefix(1); auto r = std::from_chars(s.data(), s.data() + s.size(), *o); return r.ec == std::errc() && r.ptr == s.data() + s.size(); }
}
