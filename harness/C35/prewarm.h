#pragma once
#include <algorithm>
#include <set>
#include <thread>
#define SYMFS_OWN_WRITE
#include "symstdio.h"
#include "bant/util/filesystem-prewarm-cache.h"
extern "C" inline void sym_fs_write(const char *p, size_t n, const char *d, size_t len, int trunc) { auto &f = symfs::fs(); std::string_view path(p, n); int x = f.walk(path); std::string s = x >= 0 && !trunc ? f.n[x].data : ""; s.append(d, len); f.put(path, s); }
namespace prewarm {
inline void Setup() { auto &f = symfs::fs(); f.cwdnode = f.mkdirs("/w"); f.cwd = "/w"; f.mkdirs("/h/.cache/bant"); f.logging = true; auto &w = symstdio::w(); w.active = true; w.env = {{"HOME", "/h"}}; }
inline void Init(std::vector<std::string> a) { a.insert(a.begin(), "bant"); std::vector<char *> v; for (auto &x : a) v.push_back(x.data()); v.push_back(nullptr); bant::FilesystemPrewarmCacheInit((int)a.size(), v.data()); }
inline std::vector<std::string> Records() { std::vector<std::string> r; std::string n; for (size_t i = 0; sym_fs_entry("/h/.cache/bant", 14, i, &n); ++i) r.push_back("/h/.cache/bant/" + n); return r; }
inline std::string Get(const std::string &f) { std::string r; sym_fs_read(f.data(), f.size(), &r); return r; }
}  // namespace prewarm
