// Runs the real script against an in-memory project with a stand-in analyser.
#pragma once
#include <csignal>
#include <map>
#include <set>
#include <functional>
#include <thread>
#include "symstdio.h"
int tidy_main(int argc, char **argv);
namespace tidy {
struct Env { std::string version = "LLVM version 18.1.3\n", tool = "clang-tidy"; std::vector<std::string> args; };
inline Env &env() { static Env *e = new Env; return *e; }
inline std::map<std::string, int> &calls() { static auto *m = new std::map<std::string, int>; return *m; }
// If set: the analyser's raw output for a file, instead of the one below.
inline std::function<std::string(const std::string &)> &says() { static auto *f = new std::function<std::string(const std::string &)>; return *f; }
inline int &interrupts() { static int n = 0; return n; }
inline bool IsHeader(const std::string &f) { for (const char *e : {".h", ".hpp", ".hxx", ".inl"}) if (f.ends_with(e)) return true; return false; }
inline bool IsSource(const std::string &f) { for (const char *e : {".cc", ".cpp", ".cxx"}) if (f.ends_with(e)) return true; return IsHeader(f); }
inline std::string Base(const std::string &f) { size_t p = f.rfind('/'); return p == std::string::npos ? f : f.substr(p + 1); }
inline std::string Get(const std::string &f) { std::string r; sym_fs_read(f.data(), f.size(), &r); return r; }
inline void Put(const std::string &f, const std::string &d) { symfs::fs().put(f, d); }
// All files below dir, as path from the working directory.
inline void Files(const std::string &dir, std::vector<std::string> *out) { std::string n; for (size_t i = 0; sym_fs_entry(dir.data(), dir.size(), i, &n); ++i) { std::string p = dir + "/" + n; if (sym_fs_kind(p.data(), p.size(), 1) == 'd') Files(p, out); else out->push_back(p); } }
// Names in #include "..." lines of a text.
inline std::vector<std::string> Includes(const std::string &t) {
  std::vector<std::string> r; size_t i = 0; auto sp = [&](char c) { return c == ' ' || c == '\t'; };
  while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); size_t p = i; while (p < e && sp(t[p])) ++p; if (p < e && t[p] == '#') { ++p; while (p < e && sp(t[p])) ++p; if (t.compare(p, 7, "include") == 0) { p += 7; while (p < e && sp(t[p])) ++p; if (p < e && t[p] == '"') { size_t q = t.find('"', p + 1); if (q != std::string::npos && q < e) r.push_back(t.substr(p + 1, q - p - 1)); } } } i = e + 1; }
  return r;
}
// What the analyser says about a file now: everything it may depend on.
inline std::string Findings(const std::string &file, const std::string &args, bool raw) {
  std::string seen = Get(file); std::vector<std::string> all; Files("bant", &all); std::sort(all.begin(), all.end());
  std::string sig = env().version.substr(0, env().version.size() - 1) + "|" + Get(".clang-tidy") + "|" + args + "|" + seen; std::set<std::string> done; std::string more;
  for (auto &inc : Includes(Get(file))) if (done.insert(Base(inc)).second) for (auto &f : all) if (IsHeader(f) && Base(f) == Base(inc)) { std::string c = Get(f); more += (raw ? "/b/root/" : "") + f + ":1: note: in " + c + "\n"; seen += c; }
  if (seen.find('!') == std::string::npos) return "";
  for (char &c : sig) if (c == '\n') c = ';';
  return (raw ? "/w/./" : "") + ("bant/.../" + Base(file)) + ":1: warning: " + sig + " [chk-a]\n" + more;
}
inline int Run(const std::string &cmd) {
  symsched::point();
  std::string tool = env().tool + " '"; sym_assert(cmd.starts_with(tool), "the configured tool is started"); size_t q = cmd.find('\'', tool.size()); std::string file = cmd.substr(tool.size(), q - tool.size());
  size_t o = cmd.rfind("> '"); sym_assert(q != std::string::npos && o != std::string::npos && o > q, "a command has file and output"); std::string args = cmd.substr(q + 1, o - q - 1), out = cmd.substr(o + 3); out = out.substr(0, out.find('\''));
  for (auto &a : env().args) sym_assert(args.find(" '" + a + "'") != std::string::npos, "arguments are passed to the tool"); sym_assert(args.find(".clang-tidy") != std::string::npos, "the configuration is passed to the tool");
  ++calls()[file]; std::string r = says() ? says()(file) : Findings(file, args, true);
  sym_fs_write(out.data(), out.size(), "", 0, 1); symsched::point();  // the shell opens the file first
  if (interrupts() > 0 && sym::flip("interrupt")) { --interrupts(); sym_cover("interrupted"); sym_fs_write(out.data(), out.size(), r.data(), r.size() / 2, 0); return SIGINT; }
  sym_fs_write(out.data(), out.size(), r.data(), r.size(), 0); return r.empty() ? 0 : 1 << 8;
}
inline void Setup() {
  auto &f = symfs::fs(); f.cwdnode = f.mkdirs("/w"); f.cwd = "/w"; f.mkdirs("/h/.cache"); auto &w = symstdio::w(); w.active = true; w.env = {{"HOME", "/h"}};
  w.run = Run; w.output = [](const std::string &c) { if (c.starts_with("bazel")) return std::string("/b/root\n"); sym_assert(c == env().tool + " --version", "the version of the configured tool is asked"); return env().version; };
  Put(".clang-tidy", "cfg"); Put("MODULE.bazel", "m"); Put("compile_commands.json", "[]"); f.clock = 2000;
}
inline std::string ArgText() { std::string r = " --quiet '--config-file=.clang-tidy' --extra-arg='-Wno-unknown-pragmas' --extra-arg='-Wno-unknown-warning-option'"; for (auto &a : env().args) r += " '" + a + "'"; return r; }
inline int Main() {
  calls().clear(); std::vector<std::string> a{"tidy"}; for (auto &x : env().args) a.push_back(x); std::vector<char *> v; for (auto &x : a) v.push_back(x.data()); v.push_back(nullptr);
  int r = tidy_main((int)a.size(), v.data()); symfs::fs().clock += 10; return r;
}
// Report and status say what the analyser says now.
inline void CheckReport(int status) {
  std::vector<std::string> all; Files("bant", &all); std::string rep = Get("bant_clang-tidy.out"); size_t total = 0; int n = 0;
  for (auto &f : all) if (IsSource(f)) {
    std::string want = Findings(f, ArgText(), false); if (want.empty()) { sym_assert(rep.find(f + ":\n") == std::string::npos, "a file without findings is not in the report"); continue; }
    ++n; std::string block = f + ":\n" + want; sym_assert(rep.find(block) != std::string::npos, "the report has what the tool says about the present content"); total += block.size(); sym_cover("finding");
  }
  sym_assert(rep.size() == total, "the report has nothing else"); sym_assert((status == 0) == (n == 0), "the status tells whether there are findings");
  std::string s = Get("bant_clang-tidy.summary"), want = n ? std::string(n < 10 ? "    " : "   ") + std::to_string(n) + " [chk-a]\n" : ""; sym_assert(s == want, "the summary counts the findings");
  for (auto &x : symfs::fs().h) sym_assert(!x->open, "no file stays open"); sym_assert(symstdio::w().open <= 2, "streams are closed");
  sym::trace(rep);
}
}  // namespace tidy
