// Reference tokenizer of the BUILD language, written independently of the code
// under test: given a text and a position, what is the next token?
#pragma once
#include <string_view>
#include "bant/frontend/scanner.h"
#include "sym.h"
struct RefTok { bant::TokenType type; int begin, end; };
inline bool RefSpace(char c) { return (c >= '\t') & (c <= '\r') | (c == ' '); }
inline bool RefDigit(char c) { return (c >= '0') & (c <= '9'); }
inline bool RefHex(char c) { return RefDigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
inline bool RefIdent(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | RefDigit(c); }
inline RefTok RefNext(std::string_view t, int p) {
  using namespace bant;
  const int n = t.size();
  // White space, comments to the end of the line, continuation backslashes.
  for (bool comment = false; p < n; ++p) {
    if (comment) { if (t[p] == '\n') comment = false; continue; }
    if (t[p] == '#') { comment = true; continue; }
    if (!RefSpace(t[p]) && t[p] != '\\') break;
  }
  if (p == n) return {kEof, n, n};
  const char c = t[p]; const int b = p;
  auto at = [&](int i) { return i < n ? t[i] : '\0'; };
  if (sym::in(c, "(){}[],:+-*/.%|")) return {(TokenType)c, b, b + 1};
  if (c == '=' || c == '!' || c == '<' || c == '>') {
    if (at(b + 1) == '=') return {c == '=' ? kEqualityComparison : c == '!' ? kNotEqual : c == '<' ? kLessEqual : kGreaterEqual, b, b + 2};
    return {c == '=' ? kAssign : c == '!' ? kNot : c == '<' ? kLessThan : kGreaterThan, b, b + 1};
  }
  if (RefDigit(c)) {
    const bool hex = c == '0' && at(b + 1) == 'x', oct = c == '0' && at(b + 1) == 'o'; p = b + 1 + (hex || oct); int dots = 0;
    for (; p < n; ++p) { if (t[p] == '.') { if (dots) return {kError, b, p}; ++dots; } else if (!(hex ? RefHex(t[p]) : RefDigit(t[p]))) break; }
    return {kNumberLiteral, b, p};
  }
  int q = b; if ((c == 'r' || c == 'R') && b + 2 < n && (at(b + 1) == '"' || at(b + 1) == '\'')) q = b + 1;
  if (t[q] == '"' || t[q] == '\'') {
    const char quote = t[q]; const bool triple = q + 2 < n && t[q + 1] == quote && t[q + 2] == quote;
    for (p = q + (triple ? 3 : 1); p < n; ++p) {
      if (t[p] == '\\') { ++p; continue; }
      if (t[p] != quote) continue;
      if (!triple) return {kStringLiteral, b, p + 1};
      if (at(p + 1) == quote && at(p + 2) == quote && p + 2 < n) return {kStringLiteral, b, p + 3};
    }
    return {kError, b, n};
  }
  if (!RefIdent(c)) return {kError, b, b + 1};
  while (p < n && RefIdent(t[p])) ++p;
  const std::string_view w = t.substr(b, p - b);
  if (w == "not") { int i = p; while (i < n && RefSpace(t[i])) ++i;
    if (i > p && at(i) == 'i' && at(i + 1) == 'n' && i + 1 < n && (i + 2 >= n || !RefIdent(t[i + 2]))) return {kNotIn, b, i + 2};
    return {kNot, b, p}; }
  static const struct { const char *w; TokenType t; } kw[] = {{"in", kIn}, {"for", kFor}, {"and", kAnd}, {"or", kOr}, {"if", kIf}, {"else", kElse}};
  for (const auto &k : kw) if (w == k.w) return {k.t, b, p};
  return {kIdentifier, b, p};
}
// Scans the whole text and compares with the reference, token by token; then
// checks that the line index knows every line start.
inline void CheckScan(std::string_view text, int peeking) {
  const int n = text.size(); const char *const base = text.data();
  bant::NamedLineIndexedContent src("BUILD", text); bant::Scanner scan(src);
  int pos = 0, prev_type = 0;
  for (int count = 0;; ++count) {
    sym_assert(count <= n, "scan ends after at most as many tokens as there are bytes");
    RefTok want = RefNext(text, pos);
    if (peeking == 1 || (peeking == 2 && (count & 1))) { for (int k = 0; k <= (count & 1); ++k) { bant::Token u = scan.Peek(); sym_assert(u.type == want.type && u.text.data() == base + want.begin && u.text.size() == (size_t)(want.end - want.begin), "peeked token is the next token"); } }
    bant::Token u = scan.Next();
    sym_assert(u.type == want.type, "type of token");
    sym_assert(u.text.data() == base + want.begin, "token starts after the skipped space"); sym_assert(u.text.size() == (size_t)(want.end - want.begin), "extent of token");
    sym_trace(u.type); sym_trace(want.begin); sym_trace(want.end);
    if (u.type == bant::kEof) break;
    sym_assert(u.text.size() > 0, "progress");
    bool gap = false, inside = false; for (int i = pos; i < want.end; ++i) if (text[i] == '\n') (i < want.begin ? gap : inside) = true;
    if (gap) sym_assert(u.newline_since_last_token, "newline before token is remembered"); else if (!inside) sym_assert(!u.newline_since_last_token, "no newline before token");
    pos = want.end; prev_type = u.type; (void)prev_type;
  }
  bant::Token again = scan.Next(); sym_assert(again.type == bant::kEof && again.text.data() == base + n && again.text.empty(), "end of file again"); sym_assert(scan.Peek().type == bant::kEof, "end of file again");
  int lines = 1; for (char c : text) lines += c == '\n'; sym_assert((int)src.mutable_line_index()->lines() == lines, "every line start is known to the index");
  for (int i = 0, l = 0, col = 0; i <= n; ++i) { bant::FileLocation f = src.GetLocation(text.substr(i, 0)); sym_assert(f.line_column_range.start.line == l && f.line_column_range.start.col == col, "position after scan"); if (i < n) { if (text[i] == '\n') ++l, col = 0; else ++col; } }
}
