// @TITLE: recursive collection in arbitrary directory trees
// @SRCS: bant/util/file-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @BOUND: start directory with 3 arbitrary entries: each a file, directory, or symbolic link to any of them, the start directory or nowhere, in any directory; entry types reported or not; admitted by the predicate or not, one directory unreadable or without inode number
// @BOUND-THOROUGH: 4 entries
// @COVER: link-to-dir cycle dangling unreadable untyped link-refused nested no-inode
#include "symfs.h"
#include "bant/util/file-utils.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  auto &f = symfs::fs(); const int kN = sym_tier() ? 4 : 3; const int start = f.mkdirs("s"); std::vector<int> node{start}; std::vector<std::string> path{"s"}; std::vector<int> target{-1}; bool admit[8]; bool links = false;
  std::vector<int> dirs{0};
  for (int i = 1; i <= kN; ++i) {
    const int p = dirs[sym::choose((int)dirs.size(), "in")]; const int k = sym::choose(3, "kind"); const std::string nm(1, 'a' + i);
    const int x = f.add(node[p], nm, "fdl"[k]); node.push_back(x); path.push_back(path[p] + "/" + nm); target.push_back(k == 2 ? sym::choose(kN + 2, "link_to") : -1); if (k == 1) { dirs.push_back(i); if (p) sym_cover("nested"); } links |= k == 2;
    f.n[x].typed = sym::byte("type_reported") & 1;
    admit[i] = sym::byte("admit") & 1;
  }
  for (int i = 1; i <= kN; ++i) if (target[i] >= 0) { sym_assume(target[i] != i); f.n[node[i]].data = target[i] > kN ? "s/nowhere" : path[target[i]]; }
  if (dirs.size() > 1) switch (sym::choose(3, "oddity")) { case 1: f.n[node[dirs.back()]].readable = false; sym_cover("unreadable"); break; case 2: if (links) break; f.n[node[dirs.back()]].ino = 0; sym_cover("no-inode"); break; }
  // Directories that are to be visited, and the files in them.
  std::vector<int> visit{start}; std::vector<std::pair<int, std::string>> want; int start_twice = 0;
  for (size_t i = 0; i < visit.size(); ++i) {
    const auto &d = f.n[visit[i]]; if (!d.readable) continue;
    for (auto &k : d.kids) {
      const int id = k.first[0] - 'a'; int real = f.walk(path[id]); const bool isdir = real >= 0 && f.n[real].kind == 'd';
      if (f.n[k.second].kind == 'l') { if (isdir) sym_cover("link-to-dir"); else if (real < 0) sym_cover("dangling"); if (isdir && !admit[id]) sym_cover("link-refused"); }
      if (!isdir) { if (admit[id]) want.emplace_back(visit[i], k.first); continue; }
      if (!admit[id]) continue; bool seen = false; for (int v : visit) seen |= v == real; if (real == start) start_twice = 1; if (seen) { sym_cover("cycle"); continue; } visit.push_back(real);
    }
  }
  for (int i = 1; i <= kN; ++i) if (!f.n[node[i]].typed) sym_cover("untyped");
  int calls = 0;
  auto pred = [&](const bant::FilesystemPath &p) { sym_assert(++calls < 100, "terminates"); const auto n = p.filename(); sym_assert(n.size() == 1, "predicate sees an entry"); return admit[n[0] - 'a']; };
  std::vector<std::string> seen_files;
  auto fpred = [&](const bant::FilesystemPath &p) { const int real = f.walk(p.path()); sym_assert(real < 0 || f.n[real].kind != 'd', "file predicate is not asked about directories"); return pred(p); };
  auto dpred = [&](const bant::FilesystemPath &p) { const int real = f.walk(p.path()); sym_assert(real >= 0 && f.n[real].kind == 'd', "directory predicate is asked about directories only"); sym_assert(p.is_directory(), "is a directory"); sym_assert(p.is_symlink() == (f.n[f.walk(p.path(), false)].kind == 'l'), "knows whether it is a link"); return pred(p); };
  const auto r = bant::CollectFilesRecursive(bant::FilesystemPath("s"), dpred, fpred);
  sym_assert(f.leaked() == 0 && f.double_close == 0, "directories are closed, once");
  for (size_t i = 0; i < r.size(); ++i) { for (size_t j = 0; j < i; ++j) sym_assert(r[i].path() != r[j].path(), "no duplicate"); sym::trace(r[i].path()); }
  for (auto &w : want) {
    int n = 0; for (auto &p : r) if (p.filename() == w.second && f.walk(p.path().substr(0, p.path().size() - w.second.size())) == w.first) ++n;
    sym_assert(n >= 1, "every admitted file of every admitted directory is found"); sym_assert(n == 1 || (w.first == start && start_twice && n == 2), "found once");
  }
  size_t total = want.size(); if (start_twice) for (auto &w : want) total += w.first == start;
  sym_assert(r.size() <= total, "nothing else is found");
}
