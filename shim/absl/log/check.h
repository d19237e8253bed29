// CHECK macros: a failed check is a fatal failure (reported as a violation).
#pragma once
#include <string_view>
#include <cstddef>
#include <cstdint>
#include <cassert>
extern "C" void abort() noexcept __attribute__((noreturn));
namespace absl_shim {
[[noreturn]] inline void sym_check_failed(const char *c, const char *f, int l) {
#ifdef SYMBOLIC
  __assert_fail(c, f, l, "CHECK");
#else
  __builtin_printf("%s:%d: %s failed\n", f, l, c); abort();
#endif
}
struct Fatal {
  const char *c, *f; int l;
  Fatal(const char *c, const char *f, int l) : c(c), f(f), l(l) {}
  template <typename T> Fatal &operator<<(const T &) { return *this; }
};
struct NullLog { template <typename T> NullLog &operator<<(const T &) { return *this; } };
}
#define CHECK(c) switch (0) case 0: default: if (c) [[likely]] {} else ::absl_shim::Fatal("CHECK " #c, __FILE__, __LINE__)
#define CHECK_OP_(a, op, b) CHECK((a) op (b))
#define CHECK_EQ(a, b) CHECK_OP_(a, ==, b)
#define CHECK_NE(a, b) CHECK_OP_(a, !=, b)
#define CHECK_LT(a, b) CHECK_OP_(a, <, b)
#define CHECK_LE(a, b) CHECK_OP_(a, <=, b)
#define CHECK_GT(a, b) CHECK_OP_(a, >, b)
#define CHECK_GE(a, b) CHECK_OP_(a, >=, b)
#define CHECK_NOTNULL(x) (x)
#define QCHECK CHECK
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
