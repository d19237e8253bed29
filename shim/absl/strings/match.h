#pragma once
#include <string_view>
namespace absl {
inline bool StrContains(std::string_view h, std::string_view n) { return h.find(n) != std::string_view::npos; }
inline bool StrContains(std::string_view h, char n) { return h.find(n) != std::string_view::npos; }
inline bool StartsWith(std::string_view h, std::string_view n) { return h.starts_with(n); }
inline bool EndsWith(std::string_view h, std::string_view n) { return h.ends_with(n); }
}
