// A project in the file system, and commands run on it like from the command
// line.
#pragma once
#include <span>
#include "../symfs.h"
#include "../project.h"
#include "bant/cli-commands.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
struct Ran { bant::CliStatus status; std::string out, info; };
inline Ran Cli(std::vector<std::string> args, bant::CommandlineFlags f = {}) {
  std::stringstream out, info; bant::Session s(&out, &info, f); std::vector<std::string_view> v(args.begin(), args.end()); Ran r; r.status = bant::RunCliCommand(s, v); r.out = out.str(); r.info = info.str(); return r;
}
static const char *const kCommands[] = {"parse", "print", "list-packages", "list-targets", "workspace", "lib-headers", "aliased-by", "depends-on", "has-dependents", "genrule-outputs", "dwyu", "compilation-db", "compile-flags", "canonicalize"};
