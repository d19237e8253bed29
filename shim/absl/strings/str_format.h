#pragma once
#include <string>
#include <string_view>
#include <type_traits>
#include <cstdint>
namespace absl {
struct FmtArg_ {
  enum { S, I, U, D, C } k; std::string_view s; long long i = 0; double d = 0;
  FmtArg_(const char *x) : k(S), s(x) {}
  FmtArg_(std::string_view x) : k(S), s(x) {}
  FmtArg_(const std::string &x) : k(S), s(x) {}
  FmtArg_(char x) : k(C), i(x) {}
  FmtArg_(double x) : k(D), d(x) {}
  FmtArg_(float x) : k(D), d(x) {}
  template <typename T> requires(std::is_integral_v<T> && !std::is_same_v<T, char>) FmtArg_(T x) : k(std::is_signed_v<T> ? I : U), i((long long)x) {}
  template <typename T> requires(std::is_enum_v<T>) FmtArg_(T x) : k(I), i((long long)x) {}
};
inline void FmtPad_(std::string *o, std::string_view t, int w, bool left, char fill) {
  int n = (int)t.size(); if (!left) for (int i = n; i < w; ++i) o->push_back(fill); o->append(t); if (left) for (int i = n; i < w; ++i) o->push_back(' ');
}
inline std::string FmtImpl_(std::string_view f, const FmtArg_ *a, int na) {
  std::string o; int k = 0;
  for (size_t i = 0; i < f.size();) {
    if (f[i] != '%') { o.push_back(f[i++]); continue; }
    ++i; if (i < f.size() && f[i] == '%') { o.push_back('%'); ++i; continue; }
    bool left = false, zero = false, plus = false, alt = false; int w = 0, p = -1;
    for (; i < f.size(); ++i) { if (f[i] == '-') left = true; else if (f[i] == '0') zero = true; else if (f[i] == '+') plus = true; else if (f[i] == '#') alt = true; else if (f[i] != ' ') break; }
    if (i < f.size() && f[i] == '*') { w = (int)a[k++].i; if (w < 0) { left = true; w = -w; } ++i; } else while (i < f.size() && f[i] >= '0' && f[i] <= '9') w = w * 10 + (f[i++] - '0');
    if (i < f.size() && f[i] == '.') { ++i; p = 0; if (i < f.size() && f[i] == '*') { p = (int)a[k++].i; ++i; } else while (i < f.size() && f[i] >= '0' && f[i] <= '9') p = p * 10 + (f[i++] - '0'); }
    while (i < f.size() && (f[i] == 'l' || f[i] == 'h' || f[i] == 'z' || f[i] == 'j' || f[i] == 't' || f[i] == 'L' || f[i] == 'q')) ++i;
    char c = i < f.size() ? f[i++] : 0; if (k >= na) return o; const FmtArg_ &x = a[k++]; (void)alt;
    if (c == 's' || c == 'v') { if (x.k == FmtArg_::S) { std::string_view t = x.s; if (p >= 0) t = t.substr(0, p); FmtPad_(&o, t, w, left, ' '); continue; } c = x.k == FmtArg_::D ? 'f' : 'd'; }
    if (c == 'c') { char ch = (char)x.i; FmtPad_(&o, std::string_view(&ch, 1), w, left, ' '); continue; }
    std::string t;
    if (c == 'f' || c == 'g' || c == 'e') {
      double d = x.k == FmtArg_::D ? x.d : (double)x.i; if (p < 0) p = 6; bool neg = d < 0; if (neg) d = -d; double sc = 1; for (int q = 0; q < p; ++q) sc *= 10;
      unsigned long long v = (unsigned long long)(d * sc + 0.5); for (int q = 0; q < p || v || q == p; ++q) { if (q == p && p > 0) t.insert(t.begin(), '.'); t.insert(t.begin(), '0' + v % 10); v /= 10; } if (neg) t.insert(t.begin(), '-');
      FmtPad_(&o, t, w, left, ' '); continue;
    }
    unsigned long long u = (unsigned long long)x.i; bool neg = false; unsigned base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : 10;
    if ((c == 'd' || c == 'i') && x.k != FmtArg_::U && x.i < 0) { neg = true; u = 0ull - u; }
    char b[72]; int q = 72; const char *dg = c == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; do { b[--q] = dg[u % base]; u /= base; } while (u);
    while (p >= 0 && 72 - q < p) b[--q] = '0';
    if (zero && !left && p < 0) while (72 - q < w - (neg ? 1 : 0) && q > 1) b[--q] = '0';
    if (neg) b[--q] = '-'; else if (plus) b[--q] = '+';
    FmtPad_(&o, std::string_view(b + q, 72 - q), w, left, ' ');
  }
  return o;
}
template <typename... A> inline std::string StrFormat(std::string_view f, const A &...a) { FmtArg_ v[] = {FmtArg_(a)..., FmtArg_(0)}; return FmtImpl_(f, v, sizeof...(A)); }
template <typename... A> inline void StrAppendFormat(std::string *o, std::string_view f, const A &...a) { o->append(StrFormat(f, a...)); }
}
