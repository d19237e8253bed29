// Interface between a harness and the symbolic engine (or the native replay
// library, which reads recorded inputs from a file).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
extern "C" {
void sym_make(void *p, size_t n, const char *name);    // n arbitrary bytes
int sym_choose(int n, const char *name);               // arbitrary value in [0, n)
void sym_assume(bool c);
void sym_assert(bool c, const char *msg);
void sym_fail(const char *msg);
void sym_cover(const char *name);                      // reachability witness
void sym_trace(uint64_t v);                            // value compared in native validation
void sym_log(const char *m, uint64_t v);
void sym_done();                                       // ends the path
int sym_tier();                                        // 0 quick, 1 thorough
void sym_check_range(const void *p, size_t n);         // [p, p+n) lies in one live object
uint64_t sym_concretize(uint64_t v);                   // fork so that v is concrete
int sym_thread_new(void (*fn)(void *), void *arg);     // cooperative thread; fn must not return
void sym_thread_switch(int t);                         // continue thread t (0: the first)
void harness_main();
}
namespace sym {
inline int choose(int n, const char *name) { return sym_choose(n, name); }
inline int range(int lo, int hi, const char *name) { return lo + sym_choose(hi - lo + 1, name); }
inline bool flip(const char *name) { return sym_choose(2, name) != 0; }
// String of arbitrary bytes of given length.
inline std::string bytes(size_t n, const char *name) { std::string s(n, 'x'); sym_make(s.data(), n, name); return s; }
// String over an alphabet (arbitrary choice per byte, no forking).
inline bool in(char c, std::string_view al) { bool r = false; for (char a : al) r |= (c == a); return r; }
inline std::string over(size_t n, std::string_view alphabet, const char *name) {
  std::string s = bytes(n, name); bool ok = true; for (char c : s) ok &= in(c, alphabet); sym_assume(ok); return s;
}
inline std::string upto(size_t max, std::string_view alphabet, const char *name, size_t min = 0) {
  std::string ln = std::string(name) + ".len"; size_t n = min + (size_t)sym_choose((int)(max - min + 1), ln.c_str()); return over(n, alphabet, name);
}
inline uint8_t byte(const char *name) { uint8_t b; sym_make(&b, 1, name); return b; }
inline void trace(std::string_view s) { sym_trace(s.size()); for (char c : s) sym_trace((unsigned char)c); }
}  // namespace sym
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define CHECK_THAT(c, msg) sym_assert((c), msg)
