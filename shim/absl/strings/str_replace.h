#pragma once
#include <initializer_list>
#include <string>
#include <string_view>
#include <utility>
namespace absl {
// Left to right; at each position the longest matching needle wins.
inline int StrReplaceAll(std::initializer_list<std::pair<std::string_view, std::string_view>> reps, std::string *target) {
  std::string out; int n = 0; std::string_view s = *target;
  for (size_t i = 0; i < s.size();) {
    const std::pair<std::string_view, std::string_view> *best = nullptr;
    for (const auto &r : reps) if (!r.first.empty() && s.substr(i).starts_with(r.first) && (!best || r.first.size() > best->first.size())) best = &r;
    if (best) { out.append(best->second); i += best->first.size(); ++n; } else out.push_back(s[i++]);
  }
  *target = out; return n;
}
inline std::string StrReplaceAll(std::string_view s, std::initializer_list<std::pair<std::string_view, std::string_view>> reps) { std::string t(s); StrReplaceAll(reps, &t); return t; }
}
