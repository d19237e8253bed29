// @TITLE: splitting directory names, and looking projects up by name
// @SRCS: bant/workspace.cc bant/util/file-utils.cc
// @WRAP: open close read fstat stat lstat access opendir readdir closedir glob globfree
// @BOUND: directory names of 0 to 5 arbitrary bytes; index of 0 to 2 projects with names of 1 to 3 and versions of 0 to 1 arbitrary characters of a three letter alphabet; queries of 0 to 3 arbitrary bytes with or without leading @
// @BOUND-THOROUGH: directory names of 0 to 8 bytes; 3 projects, queries of 0 to 4
// @COVER: split unsplit refused found absent at neighbour versions
// @TIME: 300 780
#include "symfs.h"
#include "bant/workspace.h"
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  if (sym::flip("split")) {
    std::string d = sym::bytes(sym::choose(sym_tier() ? 9 : 6, "dir.len"), "dir"); const auto r = bant::VersionedProject::ParseFromDir(d);
    size_t t = 0; while (t < d.size() && d[t] != '~') ++t;
    if (d.empty() || t == 0) { sym_cover("refused"); sym_assert(!r, "no project without name"); return; }
    sym_assert(r.has_value(), "directory name is understood"); sym_cover(t < d.size() ? "split" : "unsplit");
    sym_assert(r->project == d.substr(0, t), "project is what is before the separator"); sym_assert(r->version == (t < d.size() ? d.substr(t + 1) : ""), "version is what is after it");
    sym::trace(r->project); sym::trace(r->version); return;
  }
  bant::BazelWorkspace ws; const int n = sym::choose(sym_tier() ? 4 : 3, "projects"); std::vector<bant::VersionedProject> v;
  for (int i = 0; i < n; ++i) {
    bant::VersionedProject p; p.project = sym::upto(3, "ab-", "project", 1); p.version = sym::upto(1, "12", "version"); for (auto &o : v) { sym_assume(!(o == p)); if (o.project == p.project) sym_cover("versions"); }
    v.push_back(p); ws.project_location.insert({p, bant::FilesystemPath("loc/" + std::string(1, '0' + i))});
  }
  std::string q = sym::bytes(sym::choose(sym_tier() ? 5 : 4, "query.len"), "query"); std::string name = q; if (!q.empty() && q[0] == '@') { name = q.substr(1); sym_cover("at"); }
  const auto r = ws.FindPathByProject(q); const auto e = ws.FindEntryByProject(q);
  int have = 0; bool near = false; for (auto &p : v) { have += p.project == name; near |= p.project != name && (p.project.starts_with(name) || name.starts_with(p.project)); }
  sym_assert(r.has_value() == (have > 0), "found exactly if a project of that name is known"); sym_assert((e != ws.project_location.end()) == (have > 0), "entry too");
  if (have) {
    sym_cover("found"); bool ok = false; for (int i = 0; i < n; ++i) ok |= v[i].project == name && r->path() == "loc/" + std::string(1, '0' + i); sym_assert(ok, "location registered for a project of that name");
    sym_assert(e->first.project == name && e->second.path() == r->path(), "entry of that project"); sym::trace(r->path());
    for (auto &p : v) if (p.project == name) sym_assert(!(p < e->first), "the first version of it");
  } else { sym_cover("absent"); if (near) sym_cover("neighbour"); }
}
