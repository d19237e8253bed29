#pragma once
#include <string>
#include <string_view>
#include <type_traits>
namespace absl {
class AlphaNum {
 public:
  AlphaNum(const char *s) : v_(s ? std::string_view(s) : std::string_view()) {}
  AlphaNum(std::string_view s) : v_(s) {}
  AlphaNum(const std::string &s) : v_(s) {}
  template <typename I> requires(std::is_integral_v<I> && !std::is_same_v<I, bool> && !std::is_same_v<I, char>)
  AlphaNum(I i) { unsigned long long u = i; bool neg = false; if constexpr (std::is_signed_v<I>) { if (i < 0) { neg = true; u = 0ull - (unsigned long long)(long long)i; } }
    int p = sizeof(b_); do { b_[--p] = '0' + u % 10; u /= 10; } while (u); if (neg) b_[--p] = '-'; v_ = std::string_view(b_ + p, sizeof(b_) - p); }
  AlphaNum(bool b) { b_[0] = b ? '1' : '0'; v_ = std::string_view(b_, 1); }
  AlphaNum(const AlphaNum &) = delete;
  std::string_view Piece() const { return v_; }
 private:
  char b_[24]; std::string_view v_;
};
template <typename... A> inline void StrAppend(std::string *out, const A &...a) {
  std::string r; ((r.append(AlphaNum(a).Piece())), ...); out->append(r);
}
template <typename... A> inline std::string StrCat(const A &...a) { std::string r; ((r.append(AlphaNum(a).Piece())), ...); return r; }
}
