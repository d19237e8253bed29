// stdio streams on files of symfs.h, and stand-ins for commands: nothing here
// ever starts a program.  Needs @WRAP: fopen popen pclose system getenv isatty.
#pragma once
#include <cstdio>
#include <functional>
#include "symfs.h"
namespace symstdio {
struct F { std::string path, data; size_t pos = 0; bool write = false; bool bad = false; };
struct W { bool active = false; int open = 0; std::function<int(const std::string &)> run; std::function<std::string(const std::string &)> output; std::vector<std::pair<std::string, std::string>> env; };
inline W &w() { static W *x = new W; return *x; }
inline F *make(const char *p, const char *mode) {
  F *f = new F; f->path = p; f->write = mode[0] != 'r'; if (f->write) sym_fs_write(p, strlen(p), "", 0, mode[0] == 'w'); else if (!sym_fs_read(p, strlen(p), &f->data)) { delete f; errno = ENOENT; return nullptr; } ++w().open; return f;
}
inline size_t rd(F *f, char *b, size_t n) { size_t k = std::min(n, f->data.size() - f->pos); memcpy(b, f->data.data() + f->pos, k); f->pos += k; return k; }
inline void wr(F *f, const char *b, size_t n) { if (n && f->write) sym_fs_write(f->path.data(), f->path.size(), b, n, 0); }
}  // namespace symstdio
extern "C" {
#ifdef NATIVE
FILE *__real_fopen(const char *, const char *); char *__real_getenv(const char *); int __real_isatty(int);
static ssize_t symstdio_rd(void *c, char *b, size_t n) { return symstdio::rd((symstdio::F *)c, b, n); }
static ssize_t symstdio_wr(void *c, const char *b, size_t n) { symstdio::wr((symstdio::F *)c, b, n); return n; }
static int symstdio_cl(void *c) { --symstdio::w().open; delete (symstdio::F *)c; return 0; }
static FILE *symstdio_file(symstdio::F *f) { if (!f) return nullptr; cookie_io_functions_t io{}; io.read = symstdio_rd; io.write = symstdio_wr; io.close = symstdio_cl; FILE *r = fopencookie(f, f->write ? "w" : "r", io); setvbuf(r, nullptr, _IONBF, 0); return r; }
FILE *__wrap_fopen(const char *p, const char *m) { if (!symstdio::w().active) return __real_fopen(p, m); return symstdio_file(symstdio::make(p, m)); }
FILE *__wrap_popen(const char *c, const char *) { symstdio::F *f = new symstdio::F; f->data = symstdio::w().output ? symstdio::w().output(c) : std::string(); ++symstdio::w().open; return symstdio_file(f); }
int __wrap_pclose(FILE *f) { return fclose(f); }
char *__wrap_getenv(const char *n) { if (!symstdio::w().active) return __real_getenv(n); for (auto &e : symstdio::w().env) if (e.first == n) return e.second.data(); return nullptr; }
int __wrap_isatty(int fd) { return symstdio::w().active ? 0 : __real_isatty(fd); }
#else
FILE *fopen(const char *p, const char *m) { return (FILE *)symstdio::make(p, m); }
FILE *popen(const char *c, const char *) { symstdio::F *f = new symstdio::F; f->data = symstdio::w().output ? symstdio::w().output(c) : std::string(); ++symstdio::w().open; return (FILE *)f; }
size_t fread(void *b, size_t s, size_t n, FILE *f) { return s == 0 ? 0 : symstdio::rd((symstdio::F *)f, (char *)b, s * n) / s; }
int fclose(FILE *f) { --symstdio::w().open; delete (symstdio::F *)f; return 0; }
int pclose(FILE *f) { return fclose(f); }
int feof(FILE *f) { return ((symstdio::F *)f)->pos >= ((symstdio::F *)f)->data.size(); }
int ferror(FILE *) { return 0; }
void sym_file_put(FILE *f, const char *b, size_t n) { if (f && f != stdout && f != stderr) symstdio::wr((symstdio::F *)f, b, n); }
char *getenv(const char *n) { for (auto &e : symstdio::w().env) if (e.first == n) return e.second.data(); return nullptr; }
#endif
int SYSCALL_(system)(const char *c) { return symstdio::w().run ? symstdio::w().run(c) : -1; }
}
