#pragma once
#include <string_view>
namespace absl {
inline bool ConsumePrefix(std::string_view *s, std::string_view p) { if (!s->starts_with(p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(std::string_view *s, std::string_view p) { if (!s->ends_with(p)) return false; s->remove_suffix(p.size()); return true; }
inline std::string_view StripPrefix(std::string_view s, std::string_view p) { ConsumePrefix(&s, p); return s; }
inline std::string_view StripSuffix(std::string_view s, std::string_view p) { ConsumeSuffix(&s, p); return s; }
}
