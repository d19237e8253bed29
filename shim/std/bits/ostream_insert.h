#pragma once
#include <iosfwd>
#include <bits/postypes.h>
namespace std {
template <typename C, typename T>
inline basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &out, const C *s, streamsize n) { out.__insert(s, n); return out; }
}  // namespace std
