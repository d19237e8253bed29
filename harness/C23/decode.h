#pragma once
#include <map>
#include <sstream>
#include <vector>
#include "bant/util/table-printer.h"
#include "sym.h"
// A decoder for each of the formats; refuses whatever is not well formed.
struct Dec {
  std::string s; size_t p = 0; bool ok = true;
  bool lit(std::string_view l) { for (char c : l) { if (p >= s.size() || s[p] != c) { ok = false; return false; } ++p; } return true; }
  bool at(char c) { return p < s.size() && s[p] == c; }
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n')) ++p; }
  int hex(char c) { if (c >= '0' && c <= '9') return c - '0'; c |= 32; if (c >= 'a' && c <= 'f') return c - 'a' + 10; ok = false; return 0; }
  std::string json() {
    std::string r; if (!lit("\"")) return r;
    while (ok) {
      if (p >= s.size()) { ok = false; break; } unsigned char c = s[p++];
      if (c == '"') return r; if (c < 32) { ok = false; break; }
      if (c != '\\') { r += c; continue; }
      if (p >= s.size()) { ok = false; break; } c = s[p++];
      if (c == '"' || c == '\\' || c == '/') r += c; else if (c == 'n') r += '\n'; else if (c == 't') r += '\t'; else if (c == 'r') r += '\r'; else if (c == 'b') r += '\b'; else if (c == 'f') r += '\f';
      else if (c == 'u') { if (p + 4 > s.size()) { ok = false; break; } int v = 0; for (int i = 0; i < 4; ++i) v = v * 16 + hex(s[p++]); if (v > 127) ok = false; r += (char)v; } else ok = false;
    }
    return r;
  }
  std::string csv() { std::string r; if (!lit("\"")) return r; for (;;) { if (p >= s.size()) { ok = false; return r; } char c = s[p++]; if (c != '"') { r += c; continue; } if (at('"')) { r += '"'; ++p; } else return r; } }
  std::string lisp() {
    std::string r; if (!lit("\"")) return r;
    for (;;) {
      if (p >= s.size()) { ok = false; return r; } unsigned char c = s[p++]; if (c == '"') return r; if (c != '\\') { r += c; continue; }
      if (p >= s.size()) { ok = false; return r; } c = s[p++];
      if (c >= '0' && c <= '7') { int v = c - '0'; for (int i = 0; i < 2 && p < s.size() && s[p] >= '0' && s[p] <= '7'; ++i) v = v * 8 + (s[p++] - '0'); r += (char)v; if (v > 255) ok = false; }
      else if (c == 'n') r += '\n'; else if (c == 't') r += '\t'; else if (c == 'r') r += '\r'; else if (c == '"' || c == '\\' || c == '\'') r += c; else ok = false;
    }
  }
};
struct Row { std::vector<std::string> cell, rep; bool repeated; };
// Prints the rows in format f (0: JSON, 1: CSV, 2: s-expression, 3: property list) and decodes that.
inline void Check(int f, const std::vector<std::string> &head, std::vector<Row> &t) {
  using bant::OutputFormat; static const OutputFormat kF[] = {OutputFormat::kJSON, OutputFormat::kCSV, OutputFormat::kSExpr, OutputFormat::kPList}; const int cols = (int)head.size();
  std::stringstream out; auto p = bant::TablePrinter::Create(out, kF[f], head);
  for (auto &r : t) if (r.repeated) p->AddRowWithRepeatedLastColumn(r.cell, r.rep); else p->AddRow(r.cell);
  p->Finish(); Dec d{out.str()}; sym::trace(d.s);
  if (f == 1) {
    for (int c = 0; c < cols; ++c) { if (c) d.lit(","); sym_assert(d.csv() == head[c] && d.ok, "header cell"); } d.lit("\n");
    for (auto &r : t) {
      const int n = r.repeated ? (int)r.rep.size() : 1;
      for (int k = 0; k < n; ++k) { for (int c = 0; c < cols; ++c) { if (c) d.lit(","); const std::string v = d.csv(); sym_assert(d.ok, "well-formed CSV"); sym_assert(v == (c < (int)r.cell.size() ? r.cell[c] : r.rep[k]), "decodes to the cell"); } d.lit("\n"); }
    }
    sym_assert(d.ok && d.p == d.s.size(), "well-formed CSV"); return;
  }
  if (f >= 2) d.lit("(");
  for (size_t i = 0; i < t.size(); ++i) {
    auto &r = t[i]; if (f == 0) d.lit("{"); else { d.ws(); d.lit("("); }
    for (int c = 0; c < cols; ++c) {
      if (c) { if (f == 0) { d.lit(","); } d.ws(); }
      if (f == 0) { sym_assert(d.json() == head[c] && d.ok, "key is the header"); d.lit(":"); d.ws(); } if (f == 3) { d.lit(":" + head[c]); d.lit(" "); d.ws(); }
      auto value = [&](const std::string &want) { const std::string v = f == 0 ? d.json() : d.lisp(); sym_assert(d.ok, "well-formed string"); sym_assert(v == want, "decodes to the cell"); };
      if (c < (int)r.cell.size()) value(r.cell[c]);
      else { d.lit(f == 0 ? "[" : "("); for (size_t k = 0; k < r.rep.size(); ++k) { if (k) { if (f == 0) d.lit(","); d.ws(); } value(r.rep[k]); } d.lit(f == 0 ? "]" : ")"); }
    }
    d.lit(f == 0 ? "}\n" : ")"); sym_assert(d.ok, "well-formed row");
  }
  if (f >= 2) { d.lit(")"); d.ws(); } sym_assert(d.ok && d.p == d.s.size(), "well-formed");
}
