#pragma once
#include "absl/strings/str_cat.h"
namespace absl {
template <typename R> inline std::string StrJoin(const R &r, std::string_view sep) { std::string o; bool f = true; for (const auto &x : r) { if (!f) o.append(sep); f = false; o.append(AlphaNum(x).Piece()); } return o; }
template <typename R, typename F> inline std::string StrJoin(const R &r, std::string_view sep, F fn) { std::string o; bool f = true; for (const auto &x : r) { if (!f) o.append(sep); f = false; fn(&o, x); } return o; }
}
