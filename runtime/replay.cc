// Native side of the sym_* interface: inputs come from a file written by the
// engine (argv[1]); used to reproduce violations and to validate samples.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <unistd.h>
#include <ucontext.h>
#include <sanitizer/common_interface_defs.h>
static FILE *g_in; static uint64_t g_hash = 1469598103934665603ull; static uint64_t g_traces; static int g_tierv; static std::vector<std::pair<std::string, std::string>> g_vals; static size_t g_next; static uint64_t g_want; static bool g_haswant;
static FILE *Out() { return stderr; }
static void finish() {
  fprintf(Out(), "REPLAY trace %016llx n=%llu\n", (unsigned long long)g_hash, (unsigned long long)g_traces);
  if (g_haswant && g_want != g_hash) { fprintf(Out(), "REPLAY trace differs, expected %016llx\n", (unsigned long long)g_want); _exit(78); }
  fprintf(Out(), "REPLAY finished\n"); _exit(0);
}
extern "C" {
void harness_main();
static const std::string &nextVal(const char *name) {
  static std::string empty;
  if (g_next >= g_vals.size()) { fprintf(Out(), "REPLAY no more inputs (%s)\n", name); _exit(77); }
  auto &v = g_vals[g_next++]; if (v.first != name) { fprintf(Out(), "REPLAY input order differs: %s vs %s\n", name, v.first.c_str()); _exit(77); }
  return v.second;
}
static bool g_verbose;
void sym_make(void *p, size_t n, const char *name) {
  const std::string &v = nextVal(name); if (v.size() != n) { fprintf(Out(), "REPLAY size of %s\n", name); _exit(77); }
  memcpy(p, v.data(), n);
  if (g_verbose) { fprintf(Out(), "  input %s = \"", name); for (unsigned char c : v) if (c >= 32 && c < 127 && c != '"' && c != '\\') fputc(c, Out()); else fprintf(Out(), "\\x%02x", c); fprintf(Out(), "\"\n"); }
}
int sym_choose(int n, const char *name) { int r = (unsigned char)nextVal(name)[0]; if (r >= n) _exit(77); if (g_verbose) fprintf(Out(), "  choice %s = %d\n", name, r); return r; }
void sym_assume(bool c) { if (!c) { fprintf(Out(), "REPLAY assumption does not hold\n"); _exit(77); } }
void sym_fail(const char *m) { fprintf(Out(), "REPLAY assertion failed: %s\n", m); _exit(1); }
void sym_assert(bool c, const char *m) { if (!c) sym_fail(m); }
void sym_cover(const char *) {}
void sym_trace(uint64_t v) { ++g_traces; for (int i = 0; i < 8; ++i) { g_hash ^= (v >> (8 * i)) & 0xff; g_hash *= 1099511628211ull; } }
void sym_log(const char *m, uint64_t v) { if (g_verbose) fprintf(Out(), "  log %s %llu\n", m, (unsigned long long)v); }
void sym_done() { finish(); }
int sym_tier() { return g_tierv; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_check_range(const void *p, size_t n) { if (n) { volatile char c = ((const char *)p)[0]; c = ((const char *)p)[n - 1]; (void)c; } }
int sym_is_symbolic(uint64_t) { return 0; }
// Threads as coroutines: the schedule is part of the inputs.
struct Fiber { ucontext_t c; char *stk = nullptr; size_t size = 0; const void *bottom = nullptr; void (*fn)(void *) = nullptr; void *arg = nullptr; void *fake = nullptr; };
static std::vector<Fiber *> g_fib; static int g_curfib;
static void landed(int from) { const void *b; size_t z; __sanitizer_finish_switch_fiber(g_fib[g_curfib]->fake, &b, &z); if (!g_fib[from]->stk) { g_fib[from]->bottom = b; g_fib[from]->size = z; } }
static int g_fromfib;
static void fiberMain() { landed(g_fromfib); Fiber *f = g_fib[g_curfib]; f->fn(f->arg); fprintf(Out(), "REPLAY thread entry returned\n"); _exit(77); }
int sym_thread_new(void (*fn)(void *), void *arg) {
  if (g_fib.empty()) g_fib.push_back(new Fiber);
  Fiber *f = new Fiber; f->size = 1 << 20; f->stk = (char *)malloc(f->size); f->bottom = f->stk; f->fn = fn; f->arg = arg; getcontext(&f->c); f->c.uc_stack.ss_sp = f->stk; f->c.uc_stack.ss_size = f->size; f->c.uc_link = nullptr; makecontext(&f->c, fiberMain, 0); g_fib.push_back(f); return (int)g_fib.size() - 1;
}
void sym_thread_switch(int t) {
  if (t == g_curfib) return; int from = g_curfib; g_fromfib = from; g_curfib = t;
  __sanitizer_start_switch_fiber(&g_fib[from]->fake, g_fib[t]->bottom, g_fib[t]->size); swapcontext(&g_fib[from]->c, &g_fib[t]->c); landed(g_fromfib);
}
#ifndef HARNESS_FS
int sym_fs_read(const char *, size_t, std::string *) __attribute__((weak));
int sym_fs_read(const char *, size_t, std::string *) { return 0; }
void sym_fs_write(const char *, size_t, const char *, size_t, int) __attribute__((weak));
void sym_fs_write(const char *, size_t, const char *, size_t, int) {}
#endif
}
int main(int argc, char **argv) {
  g_verbose = getenv("SYM_VERBOSE") != nullptr;
  if (argc < 2 || !(g_in = fopen(argv[1], "r"))) { fprintf(stderr, "usage: replay INPUTS\n"); return 2; }
  char *line = nullptr; size_t cap = 0; 
  while (getline(&line, &cap, g_in) > 0) {
    std::string l(line); while (!l.empty() && l.back() == '\n') l.pop_back();
    if (l.rfind("tier ", 0) == 0) g_tierv = atoi(l.c_str() + 5);
    if (l.rfind("trace ", 0) == 0) { g_want = strtoull(l.c_str() + 6, nullptr, 16); g_haswant = true; }
    if (l.rfind("in ", 0) == 0) { size_t sp = l.find(' ', 3); std::string name = l.substr(3, sp - 3), hex = sp == std::string::npos ? "" : l.substr(sp + 1), b; for (size_t i = 0; i + 1 < hex.size(); i += 2) b += (char)strtol(hex.substr(i, 2).c_str(), nullptr, 16); g_vals.emplace_back(name, b); }
  }
  harness_main();
  finish();
}
