// @TITLE: reading a file with arbitrary sizes, errors and early ends of the single reads
// @SRCS: bant/util/file-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @BOUND: file of 0 to 8 arbitrary bytes; every read returns an arbitrary number of bytes from error or early end to all that is wanted; file missing, unreadable, a directory or failing fstat
// @BOUND-THOROUGH: file of 0 to 12 bytes
// @COVER: content error early-end missing directory chunks fstat-fails
#define SYMFS_FSTAT fstat_of_model
#include "symfs.h"
#include "bant/util/file-utils.h"
namespace bant { static int remembered; void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) { ++remembered; } void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
static int reads, fstat_fails; static bool stopped;
static int Short(int, size_t want, size_t have) {
  ++reads; sym_assert(want <= have, "no more wanted than the buffer has room for"); if (reads > 1) sym_cover("chunks");
  const int c = sym::choose((int)want + 2, "chunk"); if (c == 0) { stopped = true; sym_cover("error"); return -1; } if (c == 1) { stopped = true; sym_cover("early-end"); return 0; } return c - 1;
}
extern "C" int SYSCALL_(fstat)(int fd, struct stat *s) { return fstat_fails ? -1 : fstat_of_model(fd, s); }
extern "C" void harness_main() {
  auto &f = symfs::fs(); const std::string data = sym::bytes(sym::choose(sym_tier() ? 13 : 9, "size"), "data"); const int node = f.put("d/file", data); const int kind = sym::choose(5, "situation");
  if (kind == 1) f.n[node].readable = false; fstat_fails = kind == 2; f.short_read = Short;
  const auto r = bant::ReadFileToString(bant::FilesystemPath(kind == 3 ? "d/none" : kind == 4 ? "d" : "d/file"));
  sym_assert(f.leaked() == 0, "file is closed"); sym_assert(f.double_close == 0, "closed once"); sym_trace(r.has_value());
  if (kind == 0) {
    sym_assert(r.has_value() == !stopped, "content unless there was an error or early end");
    if (r) { sym_cover("content"); sym_assert(*r == data, "complete content, byte for byte"); sym::trace(*r); }
  } else { sym_assert(!r.has_value(), "nothing if it can't be read"); if (kind == 3) sym_cover("missing"); if (kind == 4) sym_cover("directory"); if (kind == 2) sym_cover("fstat-fails"); }
}
