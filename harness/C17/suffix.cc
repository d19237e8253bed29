// @TITLE: suffix lookup returns the exact entry or one sharing the most trailing path components
// @SRCS: bant/explore/header-providers.cc bant/types-bazel.cc
// @BOUND: index of 0 to 2 distinct paths of 1 to 4 (3 of 1 to 2) arbitrary characters over two letters and slash, any query of up to 4 (3), any required number of components 0 to 3
// @BOUND-THOROUGH: 3 paths, 1 to 4 characters, query up to 5
// @COVER: exact fuzzy nothing empty tie
#include <string>
#include <vector>
#include "bant/explore/header-providers.h"
#include "sym.h"
static std::string Key(const std::string &p) { std::string r(p.rbegin(), p.rend()); return r + "/"; }
// Number of whole trailing components both have in common.
static int Shared(const std::string &a, const std::string &b) {
  int n = 0;
  for (size_t i = 0;; ++i) {
    const bool ea = i == a.size(), eb = i == b.size(); const char ca = ea ? '/' : a[a.size() - 1 - i], cb = eb ? '/' : b[b.size() - 1 - i];
    if (ca != cb) return n; if (ca == '/') ++n; if (ea || eb) return n;
  }
}
extern "C" void harness_main() {
  const int n = sym::choose(4, "entries"); const bool small = n == 3 && !sym_tier(); bant::ProvidedFromTargetSet index; std::vector<std::string> path;
  for (int i = 0; i < n; ++i) {
    std::string p = sym::upto(small ? 2 : 4, "ab/", "path", 1); if (small && i) sym_assume(path.back() < p); else for (auto &o : path) sym_assume(o != p);
    auto t = bant::BazelTarget::ParseFrom(std::string("//p:") + char('x' + i), *bant::BazelPackage::ParseFrom("//p")); index[Key(p)].insert(*t); path.push_back(p);
  }
  const std::string q = sym::upto(sym_tier() ? 5 : small ? 3 : 4, "ab/", "query"); const int min = small ? sym::range(1, 2, "min") : sym::choose(4, "min");
  int best = 0, exact = -1, ties = 0;
  for (int i = 0; i < n; ++i) { if (path[i] == q) exact = i; const int s = Shared(path[i], q); ties = s == best && s > 0 ? 1 : s > best ? 0 : ties; if (s > best) best = s; }
  const auto r = bant::FindBySuffix(index, q, min);
  if (r) { sym::trace(r->match); sym_trace(r->fuzzy_score); }
  if (n == 0) { sym_cover("empty"); sym_assert(!r, "nothing in an empty index"); return; }
  if (exact >= 0) {
    sym_cover("exact"); sym_assert(r.has_value(), "the exact entry is found"); sym_assert(r->fuzzy_score == 0 && r->match == q, "reported as exact match");
    sym_assert(r->target_set == &index.find(Key(q))->second, "with its targets"); return;
  }
  if (best < min) { sym_cover("nothing"); sym_assert(!r, "nothing, if too few components are shared"); return; }
  sym_assert(r.has_value(), "an entry sharing enough components is found");
  sym_assert(r->fuzzy_score == best, "no entry shares more than reported");
  sym_cover("fuzzy"); if (ties) sym_cover("tie");
  sym_assert(Shared(r->match, q) == best, "the entry shares as much as reported");
  auto it = index.find(Key(r->match)); sym_assert(it != index.end() && r->target_set == &it->second, "the match is an entry, with its targets");
}
