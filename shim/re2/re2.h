// Stand-in for RE2: same syntax subset and leftmost-first semantics, bytes only
// (harness inputs are ASCII where a regular expression is involved).
#pragma once
#include <cstdint>
#include <cstddef>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
namespace re2 {
using StringPiece = std::string_view;
struct RxInst { enum { Set, Split, Jmp, Save, BOL, EOL, BOT, EOT, WB, NWB, Match } op; int x = 0, y = 0; std::vector<std::pair<uint8_t, uint8_t>> set; bool neg = false; };
class RxProg {
 public:
  std::vector<RxInst> p; int ncap = 1; bool ok = true; bool icase = false, multi = false, dotnl = false; std::string_view re; size_t i = 0;
  struct Frag { std::vector<RxInst> c; };  // relative jumps: x,y relative to own index
  bool compile(std::string_view r, bool ic, bool ml, bool literal, bool dnl = false) {
    re = r; icase = ic; multi = ml; dotnl = dnl; Frag f;
    if (literal) { for (char c : r) lit(f, c); } else { f = alt(); if (i != re.size()) ok = false; }
    p = f.c; RxInst m; m.op = RxInst::Match; p.push_back(m); re = {}; return ok;
  }
  static void app(Frag &a, const Frag &b) { a.c.insert(a.c.end(), b.c.begin(), b.c.end()); }
  static RxInst mk(int op, int x = 0, int y = 0) { RxInst r; r.op = (decltype(r.op))op; r.x = x; r.y = y; return r; }
  void addR(RxInst &s, uint8_t a, uint8_t b) {
    s.set.push_back({a, b});
    if (icase) for (int c = a; c <= b; ++c) { if (c >= 'a' && c <= 'z') s.set.push_back({c - 32, c - 32}); if (c >= 'A' && c <= 'Z') s.set.push_back({c + 32, c + 32}); }
  }
  void lit(Frag &f, char c) { RxInst s; s.op = RxInst::Set; addR(s, (uint8_t)c, (uint8_t)c); f.c.push_back(s); }
  bool more() const { return i < re.size(); }
  Frag alt() {
    Frag a = cat();
    while (more() && re[i] == '|') { ++i; Frag b = cat(); Frag r; r.c.push_back(mk(RxInst::Split, 1, (int)a.c.size() + 2)); app(r, a); r.c.push_back(mk(RxInst::Jmp, (int)b.c.size() + 1)); app(r, b); a = r; }
    return a;
  }
  Frag cat() { Frag a; while (more() && re[i] != '|' && re[i] != ')') { Frag b = rep(); app(a, b); if (!ok) return a; } return a; }
  Frag star(const Frag &b, int mn, int mx, bool greedy) {
    Frag r; for (int k = 0; k < mn; ++k) app(r, b);
    if (mx < 0) { Frag t; int n = b.c.size(); t.c.push_back(greedy ? mk(RxInst::Split, 1, n + 2) : mk(RxInst::Split, n + 2, 1)); app(t, b); t.c.push_back(mk(RxInst::Jmp, -(n + 1))); app(r, t); }
    else for (int k = mn; k < mx; ++k) { int n = b.c.size(); r.c.push_back(greedy ? mk(RxInst::Split, 1, n + 1) : mk(RxInst::Split, n + 1, 1)); app(r, b); }
    return r;
  }
  Frag rep() {
    Frag a = atom();
    while (ok && more()) {
      char c = re[i]; int mn, mx;
      if (c == '*') { mn = 0; mx = -1; ++i; } else if (c == '+') { mn = 1; mx = -1; ++i; } else if (c == '?') { mn = 0; mx = 1; ++i; }
      else if (c == '{' && i + 1 < re.size() && re[i + 1] >= '0' && re[i + 1] <= '9') {
        size_t j = i + 1; mn = 0; while (j < re.size() && re[j] >= '0' && re[j] <= '9') mn = mn * 10 + (re[j++] - '0'); mx = mn;
        if (j < re.size() && re[j] == ',') { ++j; mx = -1; if (j < re.size() && re[j] >= '0' && re[j] <= '9') { mx = 0; while (j < re.size() && re[j] >= '0' && re[j] <= '9') mx = mx * 10 + (re[j++] - '0'); } }
        if (j >= re.size() || re[j] != '}') return a; i = j + 1; if (mn > 1000 || mx > 1000 || (mx >= 0 && mx < mn)) { ok = false; return a; }
      } else break;
      bool greedy = true; if (more() && re[i] == '?') { greedy = false; ++i; }
      if (more() && (re[i] == '*' || re[i] == '+' || re[i] == '?')) { if (c == '*' || c == '+' || c == '?') { ok = false; return a; } }
      a = star(a, mn, mx, greedy);
    }
    return a;
  }
  void cls(RxInst &s, char c, bool *was) {
    *was = true;
    switch (c) {
    case 'd': s.set.push_back({'0', '9'}); break;
    case 'w': s.set.push_back({'0', '9'}); s.set.push_back({'a', 'z'}); s.set.push_back({'A', 'Z'}); s.set.push_back({'_', '_'}); break;
    case 's': s.set.push_back({9, 10}); s.set.push_back({12, 13}); s.set.push_back({' ', ' '}); break;
    case 'D': s.set.push_back({0, '0' - 1}); s.set.push_back({'9' + 1, 255}); break;
    case 'W': s.set.push_back({0, '0' - 1}); s.set.push_back({'9' + 1, 'A' - 1}); s.set.push_back({'Z' + 1, '_' - 1}); s.set.push_back({'_' + 1, 'a' - 1}); s.set.push_back({'z' + 1, 255}); break;
    case 'S': s.set.push_back({0, 8}); s.set.push_back({11, 11}); s.set.push_back({14, 31}); s.set.push_back({33, 255}); break;
    default: *was = false;
    }
  }
  int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : -1; }
  bool escChar(char *out) {  // after backslash at re[i]
    if (!more()) { ok = false; return false; }
    char c = re[i++];
    switch (c) {
    case 'n': *out = '\n'; return true; case 't': *out = '\t'; return true; case 'r': *out = '\r'; return true; case 'f': *out = '\f'; return true; case 'v': *out = '\v'; return true; case 'a': *out = 7; return true;
    case 'x': { if (i + 1 < re.size() && hexv(re[i]) >= 0 && hexv(re[i + 1]) >= 0) { *out = (char)(hexv(re[i]) * 16 + hexv(re[i + 1])); i += 2; return true; } ok = false; return false; }
    default:
      if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) { if (c == '0') { *out = 0; return true; } ok = false; return false; }
      *out = c; return true;
    }
  }
  Frag atom() {
    Frag f; char c = re[i];
    if (c == '(') {
      ++i; int cap = -1; bool si = icase, sm = multi, sd = dotnl;
      if (more() && re[i] == '?') {
        ++i; bool on = true;
        if (more() && re[i] == 'P') { ++i; while (more() && re[i] != '>') ++i; if (more()) ++i; cap = ncap++; goto body; }
        while (more() && re[i] != ':' && re[i] != ')') { if (re[i] == '-') on = false; else if (re[i] == 'i') icase = on; else if (re[i] == 'm') multi = on; else if (re[i] == 's') dotnl = on; else if (re[i] != 'U') { ok = false; return f; } ++i; }
        if (!more()) { ok = false; return f; }
        if (re[i] == ')') { ++i; return f; }
        ++i;
      } else cap = ncap++;
    body:
      Frag b = alt(); if (!more() || re[i] != ')') { ok = false; return f; } ++i; icase = si; multi = sm; dotnl = sd;
      if (cap >= 0) { f.c.push_back(mk(RxInst::Save, 2 * cap)); app(f, b); f.c.push_back(mk(RxInst::Save, 2 * cap + 1)); } else f = b;
      return f;
    }
    if (c == '*' || c == '+' || c == '?') { ok = false; return f; }
    if (c == '^') { ++i; f.c.push_back(mk(multi ? RxInst::BOL : RxInst::BOT)); return f; }
    if (c == '$') { ++i; f.c.push_back(mk(multi ? RxInst::EOL : RxInst::EOT)); return f; }
    if (c == '.') { ++i; RxInst s; s.op = RxInst::Set; if (dotnl) s.set.push_back({0, 255}); else { s.set.push_back({0, 9}); s.set.push_back({11, 255}); } f.c.push_back(s); return f; }
    if (c == '[') {
      ++i; RxInst s; s.op = RxInst::Set; if (more() && re[i] == '^') { s.neg = true; ++i; } bool first = true;
      for (;; first = false) {
        if (!more()) { ok = false; return f; }
        if (re[i] == ']' && !first) { ++i; break; }
        char lo; 
        if (re[i] == '[' && i + 1 < re.size() && re[i + 1] == ':') {
          size_t e = re.find(":]", i + 2); if (e == std::string_view::npos) { ok = false; return f; } std::string_view n = re.substr(i + 2, e - i - 2); i = e + 2; bool w;
          if (n == "alpha") { addR(s, 'a', 'z'); addR(s, 'A', 'Z'); } else if (n == "digit") addR(s, '0', '9'); else if (n == "alnum") { addR(s, 'a', 'z'); addR(s, 'A', 'Z'); addR(s, '0', '9'); } else if (n == "space") { addR(s, 9, 13); addR(s, ' ', ' '); } else if (n == "upper") addR(s, 'A', 'Z'); else if (n == "lower") addR(s, 'a', 'z'); else if (n == "word") cls(s, 'w', &w); else if (n == "xdigit") { addR(s, '0', '9'); addR(s, 'a', 'f'); addR(s, 'A', 'F'); } else { ok = false; return f; }
          continue;
        }
        if (re[i] == '\\') { ++i; if (!more()) { ok = false; return f; } bool was; cls(s, re[i], &was); if (was) { ++i; continue; } if (!escChar(&lo)) return f; } else lo = re[i++];
        char hi = lo;
        if (i + 1 < re.size() && re[i] == '-' && re[i + 1] != ']') { ++i; if (re[i] == '\\') { ++i; if (!escChar(&hi)) return f; } else hi = re[i++]; if ((uint8_t)hi < (uint8_t)lo) { ok = false; return f; } }
        addR(s, lo, hi);
      }
      f.c.push_back(s); return f;
    }
    if (c == '\\') {
      ++i; if (!more()) { ok = false; return f; } char k = re[i];
      if (k == 'b') { ++i; f.c.push_back(mk(RxInst::WB)); return f; } if (k == 'B') { ++i; f.c.push_back(mk(RxInst::NWB)); return f; }
      if (k == 'A') { ++i; f.c.push_back(mk(RxInst::BOT)); return f; } if (k == 'z') { ++i; f.c.push_back(mk(RxInst::EOT)); return f; }
      if (k == 'Q') { ++i; while (more()) { if (re[i] == '\\' && i + 1 < re.size() && re[i + 1] == 'E') { i += 2; break; } lit(f, re[i++]); } return f; }
      RxInst s; s.op = RxInst::Set; bool was; cls(s, k, &was); if (was) { ++i; f.c.push_back(s); return f; }
      char ch; if (!escChar(&ch)) return f; lit(f, ch); return f;
    }
    ++i; lit(f, c); return f;
  }
  static bool in(const RxInst &s, uint8_t c) { bool r = false; for (auto &q : s.set) r |= (c >= q.first) & (c <= q.second); return r ^ s.neg; }
  static bool word(uint8_t c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
  // Leftmost-first match starting at start; caps has 2*ncap entries.
  bool runAt(std::string_view t, size_t start, bool anchor_end, std::vector<long> &caps, bool nonempty = false) const {
    std::vector<uint8_t> seen(p.size() * (t.size() + 1), 0); struct J { int pc; long pos; long old; }; std::vector<J> st; caps.assign(2 * ncap, -1); st.push_back({0, (long)start, 0});
    while (!st.empty()) {
      J j = st.back(); st.pop_back(); if (j.pc < 0) { caps[-j.pc - 1] = j.old; continue; }
      int pc = j.pc; size_t pos = j.pos;
      for (;;) {
        uint8_t &sn = seen[pc * (t.size() + 1) + pos]; if (sn) break; sn = 1; const RxInst &q = p[pc];
        if (q.op == RxInst::Match) { if ((anchor_end && pos != t.size()) || (nonempty && pos == start)) break; caps[0] = start; caps[1] = pos; return true; }
        if (q.op == RxInst::Set) { if (pos >= t.size() || !in(q, t[pos])) break; ++pc; ++pos; continue; }
        if (q.op == RxInst::Jmp) { pc += q.x; continue; }
        if (q.op == RxInst::Split) { st.push_back({pc + q.y, (long)pos, 0}); pc += q.x; continue; }
        if (q.op == RxInst::Save) { st.push_back({-q.x - 1, 0, caps[q.x]}); caps[q.x] = pos; ++pc; continue; }
        bool ok2 = true;
        switch (q.op) {
        case RxInst::BOT: ok2 = pos == 0; break; case RxInst::EOT: ok2 = pos == t.size(); break;
        case RxInst::BOL: ok2 = pos == 0 || t[pos - 1] == '\n'; break; case RxInst::EOL: ok2 = pos == t.size() || t[pos] == '\n'; break;
        default: { bool a = pos > 0 && word(t[pos - 1]), b = pos < t.size() && word(t[pos]); ok2 = (q.op == RxInst::WB) == (a != b); }
        }
        if (!ok2) break; ++pc;
      }
    }
    return false;
  }
};
class RE2 {
 public:
  class Options { public: bool lit = false, cs = true, nl = false, log = true, longest = false, never = false, posix = false, oneline = false, dotnl = false;
    void set_literal(bool b) { lit = b; } void set_case_sensitive(bool b) { cs = b; } void set_log_errors(bool b) { log = b; } void set_dot_nl(bool b) { dotnl = b; } void set_never_nl(bool b) { never = b; } void set_longest_match(bool b) { longest = b; } void set_posix_syntax(bool b) { posix = b; } void set_one_line(bool b) { oneline = b; }
    enum Encoding { EncodingUTF8 = 1, EncodingLatin1 }; void set_encoding(Encoding) {} void set_max_mem(int64_t) {} };
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  RE2(const char *s) { init(s, Options()); }
  RE2(const std::string &s) { init(s, Options()); }
  RE2(std::string_view s) { init(s, Options()); }
  RE2(std::string_view s, const Options &o) { init(s, o); }
  RE2(std::string_view s, CannedOptions) { init(s, Options()); }
  RE2(const RE2 &) = delete;
  bool ok() const { return p_.ok; }
  const std::string &pattern() const { return src_; }
  const std::string &error() const { return err_; }
  int NumberOfCapturingGroups() const { return p_.ncap - 1; }
  static bool FullMatch(std::string_view t, const RE2 &re) { std::vector<long> c; return re.p_.ok && re.p_.runAt(t, 0, true, c); }
  template <typename... A> static bool FullMatch(std::string_view t, const RE2 &re, A... a) { std::vector<long> c; if (!re.p_.ok || !re.p_.runAt(t, 0, true, c)) return false; return put(t, c, a...); }
  template <typename... A> static bool PartialMatch(std::string_view t, const RE2 &re, A... a) { std::vector<long> c; if (!re.search(t, 0, c)) return false; return put(t, c, a...); }
  template <typename... A> static bool FindAndConsume(std::string_view *t, const RE2 &re, A... a) { std::vector<long> c; if (!re.search(*t, 0, c)) return false; if (!put(*t, c, a...)) return false; t->remove_prefix(c[1]); return true; }
  template <typename... A> static bool Consume(std::string_view *t, const RE2 &re, A... a) { std::vector<long> c; if (!re.p_.ok || !re.p_.runAt(*t, 0, false, c)) return false; if (!put(*t, c, a...)) return false; t->remove_prefix(c[1]); return true; }
  static std::string QuoteMeta(std::string_view s) {
    std::string r; for (char ch : s) { unsigned char c = ch; if (c == 0) { r += "\\x00"; continue; } bool plain = ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | (c >= 0x80); if (!plain) r += '\\'; r += ch; } return r; }
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  bool Match(std::string_view t, size_t from, size_t to, Anchor an, std::string_view *sub, int nsub) const {
    if (!p_.ok || from > to || to > t.size()) return false; std::vector<long> c; t = t.substr(0, to); bool hit = an == UNANCHORED ? search(t, from, c) : p_.runAt(t, from, an == ANCHOR_BOTH, c); if (!hit) return false;
    for (int i = 0; i < nsub; ++i) sub[i] = (size_t)(2 * i + 1) < c.size() && c[2 * i] >= 0 && c[2 * i + 1] >= 0 ? t.substr(c[2 * i], c[2 * i + 1] - c[2 * i]) : std::string_view(); return true;
  }
  bool search(std::string_view t, size_t from, std::vector<long> &c) const { if (!p_.ok) return false; for (size_t s = from; s <= t.size(); ++s) if (p_.runAt(t, s, false, c)) return true; return false; }
 private:
  void init(std::string_view s, const Options &o) { src_ = std::string(s); p_.compile(src_, !o.cs, o.posix && !o.oneline, o.lit, o.dotnl); if (!p_.ok) err_ = "bad regular expression"; }
  static bool one(std::string_view s, std::string_view *o) { if (o) *o = s; return true; }
  static bool one(std::string_view s, std::string *o) { if (o) *o = std::string(s); return true; }
  static bool one(std::string_view, std::nullptr_t) { return true; }
  static bool one(std::string_view s, int *o) { if (s.empty()) return false; int v = 0; for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); } if (o) *o = v; return true; }
  template <typename... A> static bool put(std::string_view t, const std::vector<long> &c, A... a) { int k = 1; bool ok = true; ((ok = ok && ((size_t)(2 * k + 1) < c.size()) && one(c[2 * k] < 0 || c[2 * k + 1] < 0 ? std::string_view() : t.substr(c[2 * k], c[2 * k + 1] - c[2 * k]), a), ++k), ...); return ok; }
  std::string src_, err_; RxProg p_;
};
struct LazyRE2 {
  const char *pattern_; mutable RE2 *ptr_ = nullptr;
  const RE2 &operator*() const { if (!ptr_) ptr_ = new RE2(pattern_); return *ptr_; }
  const RE2 *operator->() const { return &**this; }
};
}  // namespace re2
using re2::RE2; using re2::LazyRE2;
