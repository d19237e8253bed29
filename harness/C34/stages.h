// Every stage that works on the tree of a build file, in the order of the
// commands, on the tree as parsed and as elaborated.
#pragma once
#include "../symfs.h"
#include "../project.h"
#include "bant/explore/aliased-by.h"
#include "bant/explore/dependency-graph.h"
#include "bant/explore/header-providers.h"
#include "bant/tool/canon-targets.h"
#include "bant/tool/compilation-db.h"
#include "bant/tool/dwyu.h"
#include "bant/tool/edit-callback.h"
#include "bant/tool/workspace.h"
#include "bant/workspace.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
inline void Stages(Proj &p, const bant::BazelPattern &all, const bant::BazelPattern &one) {
  auto edits = bant::CreateBuildozerDepsEditCallback(p.out);
  bant::PrintProject(p.session, all, p.project); bant::PrintProject(p.session, one, p.project);
  bant::PrintProvidedSources(p.session, "header", all, bant::ExtractHeaderToLibMapping(p.project, p.info)); bant::ExtractHeaderToLibMapping(p.project, p.info, true);
  bant::PrintProvidedSources(p.session, "generated", all, bant::ExtractGeneratedFromGenrule(p.project, p.info)); bant::ExtractGeneratedFromGenrule(p.project, p.info, true);
  bant::ExtractAliasedBy(p.project);
  for (const auto &[pkg, file] : p.project.ParsedFiles()) bant::query::FindTargets(file->ast, {}, [&](const bant::query::Result &r) { p.out << p.project.Loc(r.name) << r.rule << "\n"; });
  bant::CreateCanonicalizeEdits(p.session, p.project, all, edits); bant::CreateDependencyEdits(p.session, p.project, all, edits);
  bant::WriteCompilationFlags(p.session, p.project, all, true); bant::WriteCompilationFlags(p.session, p.project, all, false);
  bant::CreateFilteredWorkspace(p.session, p.project, all); bant::PrintMatchingWorkspaceExternalRepos(p.session, p.project, all);
}
inline void RunAll(const std::string &build, bool verbose, const std::string &other = "") {
  auto &f = symfs::fs(); f.put("p/BUILD", build); f.put("p/a.cc", "#include \"p/a.h\"\n#include \"q/b.h\"\n#include \"zz.h\"\n"); f.put("p/a.h", ""); f.put("q/BUILD", "cc_library(name = \"b\", hdrs = [\"b.h\"])\n" + other); f.put("q/b.h", "");
  bant::CommandlineFlags flags; flags.verbose = verbose ? 3 : 0; bant::BazelWorkspace w; w.project_location[{"x", "1"}] = bant::FilesystemPath("x"); f.mkdirs("x/e");
  Proj p(w, flags); const auto pattern = *bant::BazelPattern::ParseFrom("//p/..."), one = *bant::BazelPattern::ParseFrom("//p:a"); p.project.FillFromPattern(p.session, pattern); sym_assert(p.project.ParsedFiles().size() == 1, "a project of one package");
  bant::BuildDependencyGraph(p.session, p.project.workspace(), pattern, 2, &p.project); Stages(p, pattern, one);
  bant::Elaborate(p.session, &p.project); bant::BuildDependencyGraph(p.session, p.project.workspace(), pattern, 2, &p.project); Stages(p, pattern, one);
  sym_assert(f.leaked() == 0, "files are closed"); sym::trace(p.out.str());
}
