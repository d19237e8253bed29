// @TITLE: deep, wide and oddly named trees, large inode numbers
// @SRCS: bant/util/file-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @BOUND: a directory chain of up to 45 levels, 120 directories beside each other or 300 files in one; names of 1 to 255 bytes, beginning with one to three dots or not; four ways to write the start directory; types reported or not; inode numbers that agree in the low or high 32 bits, any one excluded file or directory
// @COVER: deep wide many dots-name inode
// @STEPS: 2000000000
// @TIME: 150 400
#include "symfs.h"
#include "bant/util/file-utils.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  auto &f = symfs::fs(); static const char *kStart[] = {"s", "s/", ".", "/r/s"}; f.cwdnode = f.mkdirs("/r"); f.cwd = "/r"; const int how = sym::choose(4, "start"); const std::string start = kStart[how]; if (how == 2) { f.cwdnode = f.mkdirs("/r/s"); f.cwd = "/r/s"; }
  const int top = f.mkdirs("/r/s"), shape = sym::choose(3, "shape"), inode = sym::choose(4, "inode"), name = sym::choose(6, "name"); const bool typed = (inode + name + how) & 1;
  static const char *kPre[] = {"d", ".", "..", "...", "-", " "}; auto nm = [&](int i) { std::string r = kPre[name]; if (i % 7 == 3) r.append(254 - r.size() - 3, 'l'); if (name == 3 && i == 0) return r; r += (char)('a' + i / 100); r += (char)('a' + i / 10 % 10); r += (char)('a' + i % 10); return r; };
  unsigned long count = 0; auto ino = [&](int x) { ++count; unsigned long v = inode == 0 ? 100 + count : inode == 1 ? (count << 32) + 77 : inode == 2 ? 0x123400000000ul + count : ~0ul << 32 | count; f.n[x].ino = v; f.n[x].typed = typed; return x; };
  std::vector<std::string> want; const std::string base = start.back() == '/' ? start : start + "/"; int cur = top; std::string p = base; std::vector<int> dirs;
  const int n = shape == 0 ? 45 : shape == 1 ? 120 : 300; const int out = sym::choose(3, "excluded") * 20; bool open = true; const std::string excl = nm(out ? out : 999);  // excluded directory or file
  for (int i = 0; i < n; ++i) {
    const std::string d = nm(i); if (shape == 2) { ino(f.add(top, d, 'f')); if (d != excl) want.push_back(base + d); continue; }
    const int x = ino(f.add(shape == 0 ? cur : top, d, 'd')); const std::string here = (shape == 0 ? p : base) + d + "/"; if (d == excl) { if (shape == 0) open = false; } const bool in = shape == 0 ? open : d != excl;
    ino(f.add(x, "f1", 'f')); ino(f.add(x, "f2", 'f')); if (in) { want.push_back(here + "f1"); want.push_back(here + "f2"); } if (shape == 0) { cur = x; p = here; }
  }
  sym_cover(shape == 0 ? "deep" : shape == 1 ? "wide" : "many"); if (name == 3) sym_cover("dots-name"); if (inode) sym_cover("inode");
  auto pred = [&](const bant::FilesystemPath &q) { return q.filename() != excl; }; auto r = bant::CollectFilesRecursive(bant::FilesystemPath(start), pred, pred);
  std::vector<std::string> got; for (auto &q : r) { std::string s(q.path()); if (how == 1 && s.starts_with("s//")) s.erase(1, 1); got.push_back(s); }
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); sym_assert(got.size() == want.size(), "as many files as there are"); sym_assert(got == want, "every file below the directory, under its path"); sym_assert(f.leaked() == 0 && f.double_close == 0, "directories are closed, once"); sym_trace((long)got.size());
}
