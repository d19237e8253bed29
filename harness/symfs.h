// In-memory file system behind the POSIX calls the code makes; nothing here
// ever reaches a real file.  In the native build the calls are redirected with
// the linker's --wrap (list them in @WRAP).
#pragma once
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <glob.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "sym.h"
#ifdef NATIVE
#define SYSCALL_(x) __wrap_##x
#else
#define SYSCALL_(x) x
#endif
namespace symfs {
struct Node { char kind; std::string data; std::vector<std::pair<std::string, int>> kids; int parent = 0; bool readable = true, typed = true; unsigned long ino = 0; long mtime = 1000; };  // kind: d(irectory) f(ile) l(ink)
struct Handle { int node; size_t pos; bool open; bool dir; struct dirent ent; };
struct FS {
  std::vector<Node> n; std::vector<Handle *> h; int (*short_read)(int fd, size_t want, size_t have) = nullptr; int opens = 0, double_close = 0;
  std::vector<std::string> log; bool logging = false; int cwdnode = 0; std::string cwd = "/"; long clock = 1000; bool reverse_dirs = false;
  // The process ends (power cut, kill -9) at change number crash_at: what is there then is kept in crashed.
  int changes = 0, crash_at = -1; bool has_crashed = false; std::vector<Node> crashed;
  void change() { if (changes++ == crash_at) { crashed = n; has_crashed = true; } }
  void restart() { if (has_crashed) n = crashed; has_crashed = false; crash_at = -1; crashed.clear(); }
  FS() { n.push_back(Node{'d'}); n[0].ino = 1; }
  int find(int dir, std::string_view name) const { for (auto &k : n[dir].kids) if (k.first == name) return k.second; return -1; }
  // Path to node, -1: none.
  int walk(std::string_view path, bool follow = true, int depth = 0) const {
    if (depth > 6 || path.empty()) return -1; int cur = path[0] == '/' ? 0 : cwdnode; size_t i = 0;
    while (i < path.size()) {
      while (i < path.size() && path[i] == '/') ++i; size_t b = i; while (i < path.size() && path[i] != '/') ++i; if (i == b) break;
      std::string_view c = path.substr(b, i - b); if (n[cur].kind != 'd') return -1;
      bool last = true; for (size_t k = i; k < path.size(); ++k) last &= path[k] == '/';
      if (c == ".") continue; if (c == "..") { cur = n[cur].parent; continue; }
      int x = find(cur, c); if (x < 0) return -1;
      if (n[x].kind == 'l' && (!last || follow)) { x = walk(n[x].data, true, depth + 1); if (x < 0) return -1; }
      cur = x;
    }
    return cur;
  }
  int add(int dir, const std::string &name, char kind, const std::string &data = "") { Node x{kind, data}; x.parent = dir; x.ino = 100 + n.size(); x.mtime = clock; n.push_back(x); n[dir].kids.emplace_back(name, (int)n.size() - 1); return (int)n.size() - 1; }
  int mkdirs(std::string_view path) { int cur = path.starts_with('/') ? 0 : cwdnode; size_t i = 0; while (i < path.size()) { while (i < path.size() && path[i] == '/') ++i; size_t b = i; while (i < path.size() && path[i] != '/') ++i; if (i == b) break; std::string c(path.substr(b, i - b)); int x = find(cur, c); cur = x >= 0 ? x : add(cur, c, 'd'); } return cur; }
  int put(std::string_view path, const std::string &data) { size_t s = path.rfind('/'); int d = s == std::string_view::npos ? cwdnode : s == 0 ? 0 : mkdirs(path.substr(0, s)); std::string nm(s == std::string_view::npos ? path : path.substr(s + 1)); int x = find(d, nm); if (x >= 0) { n[x].data = data; n[x].mtime = clock; return x; } return add(d, nm, 'f', data); }
  bool unlink(std::string_view path) { size_t s = path.rfind('/'); int d = s == std::string_view::npos ? cwdnode : walk(path.substr(0, s + 1)); if (d < 0 || n[d].kind != 'd') return false; std::string_view nm = s == std::string_view::npos ? path : path.substr(s + 1); for (size_t i = 0; i < n[d].kids.size(); ++i) if (n[d].kids[i].first == nm) { n[d].kids.erase(n[d].kids.begin() + i); return true; } return false; }
  int fd(int node, bool dir) { Handle *x = new Handle{node, 0, true, dir, {}}; h.push_back(x); ++opens; return (int)h.size() - 1; }
  int leaked() const { int r = 0; for (auto *x : h) r += x->open; return r; }
  void rec(const char *what, const char *path) { if (logging) log.push_back(std::string(what) + path); }
};
inline FS &fs() { static FS *f = new FS; return *f; }
inline int Fail(int e) { errno = e; return -1; }
inline int FillStat(int x, struct stat *s) {
  if (x < 0) return Fail(ENOENT); memset(s, 0, sizeof(*s)); const Node &k = fs().n[x];
  s->st_mode = k.kind == 'd' ? S_IFDIR | 0755 : k.kind == 'l' ? S_IFLNK | 0777 : S_IFREG | 0644; s->st_size = k.kind == 'd' ? 4096 : k.data.size(); s->st_ino = k.ino; s->st_nlink = 1; return 0;
}
// One * per component, matching anything not starting with a dot.
inline bool GlobComp(std::string_view p, std::string_view s) { size_t st = p.find('*'); if (st == std::string_view::npos) return p == s; if (s.starts_with('.') && st == 0) return false; std::string_view tail = p.substr(st + 1); if (!s.starts_with(p.substr(0, st))) return false; s.remove_prefix(st); for (size_t i = 0; i <= s.size(); ++i) if (GlobComp(tail, s.substr(i))) return true; return false; }
inline void GlobAll(int dir, std::string pre, std::string_view rest, std::vector<std::string> *out) {
  size_t s = rest.find('/'); std::string_view c = rest.substr(0, s); const bool last = s == std::string_view::npos;
  if (c.empty()) { if (last) out->push_back(pre); else GlobAll(dir, pre + "/", rest.substr(s + 1), out); return; }
  const Node &d = fs().n[dir]; if (d.kind != 'd') return; std::vector<std::pair<std::string, int>> m;
  if (c == ".") { m.emplace_back(".", dir); } else if (c == "..") { m.emplace_back("..", d.parent); } else for (auto &k : d.kids) if (GlobComp(c, k.first)) m.push_back(k);
  for (size_t i = 1; i < m.size(); ++i) for (size_t j = i; j > 0 && m[j].first < m[j - 1].first; --j) std::swap(m[j], m[j - 1]);
  for (auto &k : m) { int x = k.second; if (fs().n[x].kind == 'l') { if (!last) x = fs().walk(fs().n[x].data); if (x < 0) continue; } if (last) out->push_back(pre + k.first); else GlobAll(x, pre + k.first + "/", rest.substr(s + 1), out); }
}
}  // namespace symfs
extern "C" {
int SYSCALL_(open)(const char *p, int, ...) { auto &f = symfs::fs(); f.rec("open ", p); int x = f.walk(p); if (x < 0 || !f.n[x].readable) return symfs::Fail(ENOENT); return 1000 + f.fd(x, false); }
int SYSCALL_(close)(int fd) { auto &f = symfs::fs(); if (fd < 1000 || fd - 1000 >= (int)f.h.size() || !f.h[fd - 1000]->open) { ++f.double_close; return symfs::Fail(EBADF); } f.h[fd - 1000]->open = false; return 0; }
ssize_t SYSCALL_(read)(int fd, void *buf, size_t want) {
  auto &f = symfs::fs(); if (fd < 1000 || !f.h[fd - 1000]->open) return symfs::Fail(EBADF); auto *h = f.h[fd - 1000]; const auto &k = f.n[h->node]; if (k.kind == 'd') return symfs::Fail(EISDIR);
  size_t have = k.data.size() - h->pos; ssize_t c = want < have ? want : have; if (f.short_read) c = f.short_read(fd, want, have); if (c < 0) return symfs::Fail(EIO);
  memcpy(buf, k.data.data() + h->pos, c); h->pos += c; return c;
}
#ifndef SYMFS_FSTAT
#define SYMFS_FSTAT SYSCALL_(fstat)
#endif
int SYMFS_FSTAT(int fd, struct stat *s) { auto &f = symfs::fs(); if (fd < 1000 || !f.h[fd - 1000]->open) return symfs::Fail(EBADF); return symfs::FillStat(f.h[fd - 1000]->node, s); }
int SYSCALL_(stat)(const char *p, struct stat *s) { return symfs::FillStat(symfs::fs().walk(p), s); }
int SYSCALL_(lstat)(const char *p, struct stat *s) { return symfs::FillStat(symfs::fs().walk(p, false), s); }
int SYSCALL_(access)(const char *p, int mode) { auto &f = symfs::fs(); f.rec("access ", p); int x = f.walk(p); return x >= 0 && ((mode & R_OK) == 0 || f.n[x].readable) ? 0 : symfs::Fail(ENOENT); }
DIR *SYSCALL_(opendir)(const char *p) { auto &f = symfs::fs(); f.rec("opendir ", p); int x = f.walk(p); if (x < 0 || f.n[x].kind != 'd' || !f.n[x].readable) { errno = ENOENT; return nullptr; } return (DIR *)f.h[f.fd(x, true)]; }
struct dirent *SYSCALL_(readdir)(DIR *d) {
  auto *h = (symfs::Handle *)d; auto &f = symfs::fs(); if (!h->open) { ++f.double_close; return nullptr; } const auto &k = f.n[h->node]; if (h->pos >= k.kids.size() + 2) return nullptr;
  size_t i = h->pos++; int x = i == 0 ? h->node : i == 1 ? k.parent : k.kids[i - 2].second; const std::string nm = i == 0 ? "." : i == 1 ? ".." : k.kids[i - 2].first; const auto &e = f.n[x];
  h->ent.d_ino = e.ino; h->ent.d_type = !e.typed ? DT_UNKNOWN : e.kind == 'd' ? DT_DIR : e.kind == 'l' ? DT_LNK : DT_REG; memcpy(h->ent.d_name, nm.c_str(), nm.size() + 1); return &h->ent;
}
int SYSCALL_(closedir)(DIR *d) { auto *h = (symfs::Handle *)d; if (!h->open) { ++symfs::fs().double_close; return -1; } h->open = false; return 0; }
int SYSCALL_(glob)(const char *pat, int, int (*)(const char *, int), glob_t *g) {
  std::vector<std::string> m; std::string p(pat); std::string pre; std::string_view rest = p; while (rest.starts_with('/')) { pre = "/"; rest.remove_prefix(1); } symfs::GlobAll(pre.empty() ? symfs::fs().cwdnode : 0, pre, rest, &m);
  if (m.empty()) return GLOB_NOMATCH; g->gl_pathc = m.size(); g->gl_pathv = (char **)malloc((m.size() + 1) * sizeof(char *));
  for (size_t i = 0; i < m.size(); ++i) { g->gl_pathv[i] = (char *)malloc(m[i].size() + 1); memcpy(g->gl_pathv[i], m[i].c_str(), m[i].size() + 1); } g->gl_pathv[m.size()] = nullptr; return 0;
}
void SYSCALL_(globfree)(glob_t *g) { for (size_t i = 0; i < g->gl_pathc; ++i) free(g->gl_pathv[i]); free(g->gl_pathv); }
// std::fstream
int sym_fs_read(const char *p, size_t n, std::string *out) { auto &f = symfs::fs(); int x = f.walk(std::string_view(p, n)); if (x < 0 || f.n[x].kind != 'f' || !f.n[x].readable) return 0; *out = f.n[x].data; return 1; }
// std::filesystem
int sym_fs_kind(const char *p, size_t n, int follow) { auto &f = symfs::fs(); int x = f.walk(std::string_view(p, n), follow); return x < 0 ? 0 : f.n[x].kind; }
long sym_fs_mtime(const char *p, size_t n) { auto &f = symfs::fs(); int x = f.walk(std::string_view(p, n)); return x < 0 ? -1 : f.n[x].mtime; }
long sym_fs_size(const char *p, size_t n) { auto &f = symfs::fs(); int x = f.walk(std::string_view(p, n)); return x < 0 || f.n[x].kind == 'd' ? -1 : (long)f.n[x].data.size(); }
int sym_fs_mkdirs(const char *p, size_t n) { symfs::fs().change(); auto &f = symfs::fs(); std::string_view s(p, n); if (f.walk(s) >= 0) return 0; f.mkdirs(s); return 1; }
int sym_fs_remove(const char *p, size_t n) { symfs::fs().change(); return symfs::fs().unlink(std::string_view(p, n)); }
int sym_fs_rename(const char *a, size_t n, const char *b, size_t m) { symfs::fs().change(); auto &f = symfs::fs(); std::string_view from(a, n), to(b, m); int x = f.walk(from, false); if (x < 0) return 0; if (from == to) return 1; long t = f.n[x].mtime; std::string d = f.n[x].data; f.unlink(from); f.unlink(to); int y = f.put(to, d); f.n[y].mtime = t; return 1; }
int sym_fs_symlink(const char *to, size_t n, const char *p, size_t m) { symfs::fs().change(); auto &f = symfs::fs(); std::string_view path(p, m); if (f.walk(path, false) >= 0) return 0; int x = f.put(path, std::string(to, n)); f.n[x].kind = 'l'; return 1; }
int sym_fs_entry(const char *p, size_t n, size_t i, std::string *name) { auto &f = symfs::fs(); int x = f.walk(std::string_view(p, n)); if (x < 0 || f.n[x].kind != 'd' || i >= f.n[x].kids.size()) return 0; *name = f.n[x].kids[f.reverse_dirs ? f.n[x].kids.size() - 1 - i : i].first; return 1; }
void sym_fs_cwd(std::string *o) { *o = symfs::fs().cwd; }
}
#ifndef SYMFS_OWN_WRITE
extern "C" void sym_fs_write(const char *p, size_t n, const char *d, size_t len, int trunc) { auto &f = symfs::fs(); std::string_view path(p, n); f.change(); int x = f.walk(path); std::string s = x >= 0 && !trunc ? f.n[x].data : ""; if (f.crash_at >= 0 && len > 1) { f.put(path, s + std::string(d, len / 2)); f.change(); } s.append(d, len); f.put(path, s); }
#endif
