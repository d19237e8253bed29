// @TITLE: every documented option has its documented effect
// @SRCS:
// @COVER: run quiet output output-dash bad-output format bad-format depth endless grep grep-nocase errors elaborate keep verbose clarification help version unknown missing directory bad-directory after-command attached two-options
// @BOUND: up to two options (thorough: three) of 23, in front of or after the command, with the argument attached or separate; any two bytes as format, any digit as depth, any byte as part of the grep expression; every result of the command
// @ASSUME: getopt() behaves as documented (options after other arguments are recognised, too)
// @TIME: 200 780
// @STEPS: 40000000
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <system_error>
#include <vector>
#include "sym.h"

#include "bant/cli-commands.h"
#include "bant/output-format.h"
#include "bant/session.h"
#include "bant/util/filesystem-prewarm-cache.h"
#include "re2/re2.h"
// The world around main().
struct World { std::string cout, cerr, cwd = "/w"; std::map<std::string, std::string> files; bool tty = false, usage = false; };
static World &W() { static World w; return w; }
static std::string Abs(std::string_view p) { return p.starts_with('/') ? std::string(p) : W().cwd + "/" + std::string(p); }
namespace std {
struct h_stream : ostream { std::string World::*to; explicit h_stream(std::string World::*t) : to(t) {} void __append(const char *s, streamsize n) override { (W().*to).append(s, n); } };
inline h_stream h_cout(&World::cout), h_cerr(&World::cerr);
struct h_fstream : ostream {
  std::string buf; std::string path; bool open = false; ~h_fstream() override { if (open) W().files[path] += buf; }
  h_fstream() {} explicit h_fstream(std::string_view p, ios_base::openmode m = ios_base::out) { Open(p, m); } void close() { if (open) W().files[path] += buf; open = false; } bool is_open() const { return open; }
  void Open(std::string_view p, ios_base::openmode m) { path = Abs(p); const std::string dir = path.substr(0, path.rfind('/')); if (p.empty() || (dir != "/w" && dir != "/w/d")) { setstate(failbit); return; } open = true; if (!(m & ios_base::app)) W().files[path] = ""; }
  void __append(const char *s, streamsize n) override { if (open) buf.append(s, n); }
};
namespace filesystem { inline void h_current_path(const path &p, error_code &e) { const std::string s = Abs(p.string()); if (s == "/w" || s == "/w/d") { W().cwd = s; e.clear(); } else e = std::make_error_code(std::errc::no_such_file_or_directory); } }
}  // namespace std
extern "C" { char *h_optarg; int h_optind; int h_getopt(int argc, char *const *argv, const char *spec); }
static std::vector<char *> g_rest; static size_t g_in;
// Options come first in argv once all are seen, like with the GNU C library.
int h_getopt(int argc, char *const *cargv, const char *spec) {
  char **argv = const_cast<char **>(cargv); h_optarg = nullptr; if (h_optind < 1) { h_optind = 1; g_in = 0; g_rest.clear(); }
  if (g_in == 0) { while (h_optind < argc && (argv[h_optind][0] != '-' || argv[h_optind][1] == 0)) g_rest.push_back(argv[h_optind++]); }
  auto finish = [&](int from) { for (int i = from; i < argc; ++i) g_rest.push_back(argv[i]); int k = argc - (int)g_rest.size(); h_optind = k; for (char *r : g_rest) argv[k++] = r; return -1; };
  if (h_optind >= argc) { std::vector<char *> o; for (int i = 1; i < argc; ++i) { bool is = false; for (char *r : g_rest) is |= r == argv[i]; if (!is) o.push_back(argv[i]); } int k = 1; for (char *x : o) argv[k++] = x; return finish(argc); }
  if (g_in == 0) { if (!strcmp(argv[h_optind], "--")) { const int at = h_optind; return finish(at + 1); } g_in = 1; }
  char *a = argv[h_optind]; const char c = a[g_in++]; const char *s = c == ':' ? nullptr : strchr(spec, c); if (!s || !c) { if (!a[g_in]) { ++h_optind; g_in = 0; } return '?'; }
  if (s[1] != ':') { if (!a[g_in]) { ++h_optind; g_in = 0; } return c; }
  if (a[g_in]) { h_optarg = a + g_in; ++h_optind; g_in = 0; return c; }
  ++h_optind; g_in = 0; if (s[2] == ':') return c; if (h_optind >= argc) return '?'; h_optarg = argv[h_optind++]; return c;
}
static int h_isatty(int fd) { return W().tty && fd == 1; }
template <typename... A> static int h_fprintf(FILE *, const char *f, A...) { if (std::string_view(f).find("Usage") != std::string_view::npos) W().usage = true; return 1; }
static int h_atoi(const char *s) { int r = 0; bool neg = *s == '-'; if (neg) ++s; while (*s >= '0' && *s <= '9') r = r * 10 + (*s++ - '0'); return neg ? -r : r; }
#define getopt h_getopt
#define optarg h_optarg
#define optind h_optind
#define isatty h_isatty
#define fprintf h_fprintf
#define atoi h_atoi
#define cout h_cout
#define cerr h_cerr
#define fstream h_fstream
#define ofstream h_fstream
#define current_path h_current_path
#define main bant_main
#include "bant/bant.cc"
#undef cout
#undef cerr
#undef main
// What the command gets to see.
struct Seen { int runs = 0, inits = 0; std::string initcwd, cwd; bant::CommandlineFlags fl; std::vector<std::string> args; bant::CliStatus result = bant::CliStatus::kExitSuccess; };
static Seen &S() { static Seen s; return s; }
namespace bant {
CliStatus RunCliCommand(Session &session, std::span<std::string_view> args) {
  Seen &s = S(); ++s.runs; s.fl = session.flags(); s.cwd = W().cwd; for (auto a : args) s.args.emplace_back(a); session.out() << "<out>"; session.info() << "<info>"; session.error() << "<error>"; session.GetStatsFor("<stats>", "x").count = 1; return s.result;
}
void FilesystemPrewarmCacheInit(int, char *[]) { Seen &s = S(); ++s.inits; s.initcwd = W().cwd; if (s.runs) sym_fail("cache initialised before the command runs"); }
std::string Stat::ToString() const { return "<stat>"; }
}  // namespace bant
namespace {
using bant::OutputFormat;
struct Want { int verbose = 0; bool ast = false, errors = false, elaborate = false, keep = false, icase = false, grep = false, quiet = false; int depth = 0; OutputFormat f = OutputFormat::kNative; char gc = 0; std::string out = "", cwd = "/w"; std::set<std::string> truncated; int stop = -1; bool usage = false; };
}
extern "C" void harness_main() {
  World &w = W(); Seen &s = S(); Want x; w.tty = sym::flip("terminal"); w.files = {{"/w/old", "before"}}; std::vector<std::string> opts, args{"bant"}, pos{"print", "//p:a"}; const int n = sym::choose(sym_tier() ? 4 : 3, "options"); int at = 0; if (n) at = sym::choose(3, "position");  // before, between, after
  if (n == 2) sym_cover("two-options");
  auto arg = [&](std::string o, const std::string &v, bool mustseparate = false) { if (mustseparate || v.empty() || sym::flip("separate")) { opts.push_back(o); opts.push_back(v); } else { opts.push_back(o + v); sym_cover("attached"); } };
  for (int i = 0; i < n && x.stop < 0; ++i) switch (sym::choose(23, "option")) {
    case 0: opts.push_back("-q"); x.quiet = true; break;
    case 1: arg("-o", "new"); x.out = x.cwd + "/new"; x.truncated.insert(x.out); break;
    case 2: arg("-o", "old"); x.out = x.cwd + "/old"; x.truncated.insert(x.out); break;
    case 3: arg("-o", "-", true); x.out = ""; sym_cover("output-dash"); break;
    case 4: arg("-o", "no/where"); x.stop = 1; sym_cover("bad-output"); break;
    case 5: { const std::string f = sym::upto(2, "cgjnps-laetxC", "format"); arg("-f", f); static const std::pair<const char *, OutputFormat> kF[] = {{"native", OutputFormat::kNative}, {"s-expr", OutputFormat::kSExpr}, {"plist", OutputFormat::kPList}, {"json", OutputFormat::kJSON}, {"csv", OutputFormat::kCSV}, {"graphviz", OutputFormat::kGraphviz}}; bool ok = false; for (auto &[name, v] : kF) if (!f.empty() && std::string_view(name).starts_with(f)) { ok = true; x.f = v; } if (!ok) { x.stop = 1; x.usage = true; sym_cover("bad-format"); } else sym_cover("format"); break; }
    case 6: { static const std::pair<const char *, OutputFormat> kF[] = {{"native", OutputFormat::kNative}, {"s-expr", OutputFormat::kSExpr}, {"plist", OutputFormat::kPList}, {"json", OutputFormat::kJSON}, {"csv", OutputFormat::kCSV}}; const int k = sym::choose(5, "full_format"); arg("-f", kF[k].first); x.f = kF[k].second; break; }
    case 7: { static const char *const kBad[] = {"jsonx", "nativ3", "text", "cs v"}; arg("-f", kBad[sym::choose(4, "bad_format")]); x.stop = 1; x.usage = true; break; }
    case 8: opts.push_back("-r"); x.depth = -1; sym_cover("endless"); break;
    case 9: { const std::string d = sym::over(1, "0123456789", "depth"); opts.push_back("-r" + d); x.depth = d[0] - '0'; sym_cover("depth"); break; }
    case 10: opts.push_back("-r12"); x.depth = 12; break;
    case 11: opts.push_back("-v"); ++x.verbose; break;
    case 12: opts.push_back("-h"); x.stop = 0; x.usage = true; sym_cover("help"); break;
    case 13: opts.push_back("-V"); x.stop = 0; sym_cover("version"); break;
    case 14: opts.push_back("-k"); x.keep = true; sym_cover("keep"); break;
    case 15: { const std::string g = sym::over(1, "abcxyzABC019_", "grep"); arg("-g", "m" + g); x.grep = true; x.gc = g[0]; break; }
    case 16: opts.push_back("-i"); x.icase = true; break;
    case 17: opts.push_back("-e"); x.elaborate = true; sym_cover("elaborate"); break;
    case 18: opts.push_back("-E"); x.errors = true; sym_cover("errors"); break;
    case 19: opts.push_back(sym::flip("p") ? "-p" : "-pv"); x.ast = true; if (opts.back() == "-pv") ++x.verbose; break;
    case 20: arg("-C", "d"); if (x.cwd == "/w") { x.cwd = "/w/d"; sym_cover("directory"); } else { x.stop = 1; } break;
    case 21: arg("-C", "nowhere"); x.stop = 1; sym_cover("bad-directory"); break;
    case 22: opts.push_back(std::string("-") + sym::over(1, "ABDFGHIJKLMNOPQRSTUWXYZacdjlmnstuwxyz0123456789?:,;", "unknown")); x.stop = 0; x.usage = true; x.depth = -2; sym_cover("unknown"); break;
  }
  if (at == 2 && n && x.stop < 0 && sym::flip("missing_argument")) { static const char *const kO[] = {"-o", "-f", "-g", "-C"}; opts.push_back(kO[sym::choose(4, "which")]); x.stop = 0; x.usage = true; x.depth = -2; sym_cover("missing"); }
  if (at == 0) args.insert(args.end(), opts.begin(), opts.end()); args.push_back(pos[0]); if (at == 1) args.insert(args.end(), opts.begin(), opts.end()); args.push_back(pos[1]); if (at == 2) args.insert(args.end(), opts.begin(), opts.end()); if (at == 2) sym_cover("after-command");
  static const bant::CliStatus kR[] = {bant::CliStatus::kExitSuccess, bant::CliStatus::kExitFailure, bant::CliStatus::kExitCommandlineClarification, bant::CliStatus::kExitCleanupFindings}; if (x.stop < 0) s.result = kR[sym::choose(4, "result")];
  std::vector<char *> argv; for (auto &a : args) argv.push_back(a.data()); argv.push_back(nullptr); h_optind = 0;
  const int r = bant_main((int)args.size(), argv.data());
  if (x.stop >= 0) { sym_assert(s.runs == 0, "no command is run"); if (x.depth != -2) sym_assert(r == x.stop, "exit status without a command"); if (x.usage) sym_assert(w.usage, "usage is shown"); if (x.stop == 1 && !x.usage) sym_assert(!w.cerr.empty(), "problem is reported"); sym_assert(w.cout.empty(), "no output"); return; }
  sym_assert(s.runs == 1 && s.args == pos, "the command is run, once, with its arguments"); sym_cover("run"); sym_assert(s.inits == 1, "cache is initialised once");
  sym_assert(r == (int)s.result, "exit status is that of the command"); if (s.result == bant::CliStatus::kExitCommandlineClarification) { sym_assert(w.usage, "usage is shown"); sym_cover("clarification"); } else sym_assert(!w.usage, "no usage shown");
  sym_assert(s.cwd == x.cwd && s.initcwd == x.cwd, "project directory");
  sym_assert(s.fl.verbose == x.verbose && s.fl.print_ast == x.ast && s.fl.print_only_errors == x.errors && s.fl.elaborate == x.elaborate && s.fl.ignore_keep_comment == x.keep, "flags"); if (x.depth < 0) sym_assert(s.fl.recurse_dependency_depth >= 1000000, "follows to the end"); else sym_assert(s.fl.recurse_dependency_depth == x.depth, "depth"); sym_assert(s.fl.output_format == x.f, "output format"); sym_assert(s.fl.do_color == w.tty, "colours on a terminal");
  if (!x.grep) sym_assert(s.fl.grep_regex.empty(), "no grep"); else { const RE2 re(s.fl.grep_regex); sym_assert(re.ok() && re.NumberOfCapturingGroups() == 1, "expression with one group"); const char c = x.gc, t = sym::over(1, "abcxyzABCXYZ019_", "text")[0]; std::string_view m; auto low = [](char q) { return (char)(q >= 'A' && q <= 'Z' ? q + 32 : q); }; const std::string text = std::string("<m") + t + ">", text2 = std::string("<M") + t + ">"; const bool is = x.icase ? low(c) == low(t) : c == t; sym_assert(RE2::PartialMatch(text, re, &m) == is, "expression as given"); if (is) sym_assert(m == std::string_view(text).substr(1, 2), "group is the match"); sym_assert(RE2::PartialMatch(text2, re) == (x.icase && is), "case"); sym_cover(x.icase ? "grep-nocase" : "grep"); }
  if (x.out.empty()) sym_assert(w.cout == "<out>", "output to the terminal"); else { sym_assert(w.cout.empty(), "nothing on the terminal"); sym_assert(w.files[x.out] == "<out>", "output in the file"); sym_cover("output"); }
  for (auto &[f, c] : w.files) if (f != x.out) sym_assert(c == (x.truncated.count(f) ? "" : "before"), "other files are left alone"); auto has = [&](const char *t) { return w.cerr.find(t) != std::string::npos; };
  sym_assert(has("<info>") == !x.quiet && has("<error>") == !x.quiet, "info messages"); if (x.quiet) sym_cover("quiet"); if (s.result != bant::CliStatus::kExitCommandlineClarification) sym_assert(has("<stats>") == (x.verbose > 0), "statistics"); if (x.verbose) sym_cover("verbose");
}
