#pragma once
#include <cstdint>
#include <ctime>
namespace absl {
class Duration { public: int64_t ns = 0; Duration() {} explicit Duration(int64_t n) : ns(n) {}
  Duration &operator+=(Duration o) { ns += o.ns; return *this; } Duration &operator-=(Duration o) { ns -= o.ns; return *this; }
  friend Duration operator+(Duration a, Duration b) { return Duration(a.ns + b.ns); } friend Duration operator-(Duration a, Duration b) { return Duration(a.ns - b.ns); }
  friend bool operator==(Duration a, Duration b) { return a.ns == b.ns; } friend bool operator<(Duration a, Duration b) { return a.ns < b.ns; } friend bool operator>(Duration a, Duration b) { return a.ns > b.ns; } };
class Time { public: int64_t ns = 0; friend Duration operator-(Time a, Time b) { return Duration(a.ns - b.ns); } };
inline Duration ZeroDuration() { return Duration(); }
inline Duration Nanoseconds(int64_t n) { return Duration(n); } inline Duration Microseconds(int64_t n) { return Duration(n * 1000); } inline Duration Milliseconds(int64_t n) { return Duration(n * 1000000); } inline Duration Seconds(int64_t n) { return Duration(n * 1000000000); }
inline int64_t ToInt64Nanoseconds(Duration d) { return d.ns; } inline int64_t ToInt64Microseconds(Duration d) { return d.ns / 1000; } inline int64_t ToInt64Milliseconds(Duration d) { return d.ns / 1000000; } inline int64_t ToInt64Seconds(Duration d) { return d.ns / 1000000000; }
inline double ToDoubleSeconds(Duration d) { return d.ns / 1e9; } inline double ToDoubleMilliseconds(Duration d) { return d.ns / 1e6; }
}
