// @TITLE: reading large files in few reads of any of several sizes
// @SRCS: bant/util/file-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @BOUND: file of 4095, 4096, 65537 or 200000 bytes; each of up to 4 reads returns 1, 4096, all but one, all bytes, or an error; the rest whatever is wanted
// @BOUND-THOROUGH: up to 6 reads
// @COVER: content error chunks big
#include "symfs.h"
#include "bant/util/file-utils.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
static int reads; static bool stopped;
static int Short(int, size_t want, size_t have) {
  sym_assert(want <= have, "no more wanted than the file has"); if (++reads > 1) sym_cover("chunks"); if (reads > (sym_tier() ? 6 : 4)) return want;
  switch (sym::choose(5, "chunk")) { case 0: return 1; case 1: return want < 4096 ? want : 4096; case 2: return want > 1 ? want - 1 : 1; case 3: return want; default: stopped = true; sym_cover("error"); return -1; }
}
extern "C" void harness_main() {
  static const int kSize[] = {4095, 4096, 65537, 200000}; const int n = kSize[sym::choose(4, "size")]; std::string data(n, 'x'); for (int i = 0; i < n; ++i) data[i] = (i * 7 + i / 256) & 255; const char mark = (char)sym::byte("byte"); data[n / 2] = mark;
  auto &f = symfs::fs(); f.put("d/file", data); f.short_read = Short;
  const auto r = bant::ReadFileToString(bant::FilesystemPath("d/file")); sym_assert(f.leaked() == 0 && f.double_close == 0, "file is closed, once"); sym_assert(r.has_value() == !stopped, "content unless there was an error");
  if (r) { sym_cover("content"); if (n > 65536) sym_cover("big"); sym_assert(r->size() == (size_t)n, "complete"); sym_assert((*r)[n / 2] == mark, "byte in the middle"); sym_assert(*r == data, "byte for byte"); }
}
