// Reference parser of the BUILD language as bant documents it, written
// independently of the code under test. It turns a text into a linear form of
// the tree (a string), or reports that the text is not in the language.
// Tree of the code under test is brought into the same form by ShowTree.
//
// Grammar (see DESIGN.md): operators group to the right (the parser's stated
// simplification), suffixes [..] bind tighter, unary operators take
// everything to their right, a trailing `if` takes the operand before it.
#pragma once
#include <string>
#include "bant/frontend/ast.h"
#include "bant/frontend/parser.h"
#include "bant/frontend/scanner.h"
#include "bant/util/arena.h"
#include "reflex.h"
struct RefParser {
  std::string_view t; bool offsets; int p = 0; bool bad = false; RefTok cur; bool newline = false; std::string out;
  RefParser(std::string_view text, bool with_offsets) : t(text), offsets(with_offsets) { advance(); }
  void advance() { cur = RefNext(t, p); newline = false; for (int i = p; i < cur.begin; ++i) newline |= t[i] == '\n'; p = cur.end; }
  bool is(int type) const { return cur.type == type; }
  bool take(int type) { if (!is(type)) return false; advance(); return true; }
  void need(int type) { if (!take(type)) bad = true; }
  static void num(std::string &o, int v) { if (v >= 10) o += (char)('0' + v / 10 % 10); o += (char)('0' + v % 10); }
  std::string leaf(char kind, int b, int e) { std::string r(1, kind); if (offsets) { num(r, b); r += '-'; num(r, e); } else r.append(t.substr(b, e - b)); r += ';'; return r; }
  static const char *op(int type) {
    switch (type) { case '+': return "+"; case '-': return "-"; case '*': return "*"; case '/': return "/"; case '<': return "<"; case '>': return ">"; case '|': return "|"; case '.': return "."; case '%': return "%"; case '[': return "["; case ':': return ":"; case '=': return "=";
      case bant::kLessEqual: return "<="; case bant::kGreaterEqual: return ">="; case bant::kEqualityComparison: return "=="; case bant::kNotEqual: return "!="; case bant::kIn: return "in"; case bant::kNotIn: return "not in"; case bant::kAnd: return "and"; case bant::kOr: return "or"; case bant::kFor: return "for"; case '!': return "not"; }
    return "?";
  }
  static bool binary(int type) { switch (type) { case '+': case '-': case '*': case '/': case '<': case '>': case '|': case '.': case '%': case bant::kLessEqual: case bant::kGreaterEqual: case bant::kEqualityComparison: case bant::kNotEqual: case bant::kIn: case bant::kNotIn: case bant::kAnd: case bant::kOr: return true; } return false; }
  static std::string bin(const char *o, const std::string &l, const std::string &r) { std::string s = "("; s += o; s += ' '; s += l; s += r; s += ')'; return s; }
  std::string ident() { if (!is(bant::kIdentifier)) { bad = true; return ""; } std::string r = leaf('i', cur.begin, cur.end); advance(); return r; }
  std::string idlist(int close) { std::string r = "t("; while (!bad && !take(close)) { r += ident(); if (!take(',') && !is(close)) bad = true; } return r + ")"; }
  static bool validInt(std::string_view s) {  // decimal, 0x hex, 0o octal; fraction digits tolerated for decimals; must fit 64 bit (texts are short)
    size_t i = 0; int base = 10; if (s.size() >= 2 && s[1] == 'x') base = 16, i = 2; else if (s.size() >= 2 && s[1] == 'o') base = 8, i = 2;
    size_t digits = 0; for (; i < s.size(); ++i, ++digits) { char c = s[i]; bool ok = base == 16 ? RefHex(c) : base == 8 ? (c >= '0') & (c <= '7') : RefDigit(c); if (!ok) break; }
    if (!digits) return false; if (i == s.size()) return true; return base == 10 && s[i] == '.';
  }
  std::string str() { int b = cur.begin, e = cur.end; bool raw = t[b] != '"' && t[b] != '\''; if (raw) ++b; bool tri = e - b >= 6 && t[b] == t[b + 1] && t[b] == t[b + 2]; int d = tri ? 3 : 1; std::string r = raw ? "R" : ""; if (tri) r += 'T'; r += leaf('s', b + d, e - d); advance(); return r; }
  std::string value() {
    switch (cur.type) {
    case bant::kStringLiteral: return str();
    case bant::kNumberLiteral: { if (!validInt(t.substr(cur.begin, cur.end - cur.begin))) { bad = true; return ""; } std::string r = leaf('n', cur.begin, cur.end); advance(); return r; }
    case bant::kIdentifier: { std::string id = ident(); if (is('(')) { advance(); return call(id); } return id; }
    case bant::kOpenSquare: advance(); return list('[', ']');
    case bant::kOpenBrace: advance(); return list('{', '}');
    default: bad = true; return "";
    }
  }
  std::string call(const std::string &id) { std::string r = "c(" + id + "t("; while (!bad && !take(')')) { std::string e = expr(); if (bad) break; if (is('=') && e[0] == 'i') { advance(); std::string v = expr(); e = bin("=", e, v); } r += e; if (!take(',') && !is(')')) bad = true; } return r + "))"; }
  std::string element(char open) { std::string k = expr(); if (bad || open == '[') return k; need(':'); if (bad) return ""; std::string v = expr(); return bin(":", k, v); }
  std::string list(char open, char close) {
    std::string r; r += open == '[' ? 'l' : 'm'; r += '(';
    if (take(close)) return r + ")";
    std::string first = element(open); if (bad) return "";
    if (is(bant::kFor)) {
      while (!bad && take(bant::kFor)) { std::string vars; if (take('(')) { vars = idlist(')'); need(bant::kIn); } else vars = idlist(bant::kIn); if (bad) break; std::string v = expr(); first = bin("for", first, bin("in", vars, v)); }
      need(close); return std::string(open == '[' ? "L" : "M") + first;
    }
    r += first; if (!take(',') && !is(close)) bad = true;
    while (!bad && !take(close)) { r += element(open); if (bad) break; if (!take(',') && !is(close)) bad = true; }
    return r + ")";
  }
  std::string paren() {
    if (take(')')) return "t()";
    std::string e = expr(); if (bad) return "";
    if (take(')')) return e;
    std::string r = "t(" + e;
    for (;;) { if (take(')')) break; if (!take(',')) { bad = true; break; } if (take(')')) break; r += expr(); if (bad) break; }
    return r + ")";
  }
  std::string expr() {
    if (bad) return "";
    if (is('-') || is('!')) { std::string o = op(cur.type); advance(); std::string e = expr(); return "(u" + o + " " + e + ")"; }
    std::string n; if (is('(')) { advance(); n = paren(); } else n = value();
    while (!bad && is('[') && !newline) {
      advance(); std::string a, b; if (!is(':')) a = expr(); if (bad) break;
      if (take(':')) { if (!is(']')) b = expr(); if (bad) break; if (a.empty() && b.empty()) { bad = true; break; } need(']'); n = bin("[", n, bin(":", a.empty() ? "~" : a, b.empty() ? "~" : b)); }
      else { need(']'); n = bin("[", n, a); }
    }
    if (bad) return "";
    if (take(bant::kIf)) { std::string c = expr(), e; if (bad) return ""; if (take(bant::kElse)) e = expr(); if (bad) return ""; return "(? " + c + n + (e.empty() ? "~" : e) + ")"; }
    if (binary(cur.type)) { const char *o = op(cur.type); advance(); std::string r = expr(); return bin(o, n, r); }
    return n;
  }
  // One line per statement.
  bool file() {
    while (!bad && !is(bant::kEof)) {
      if (take(bant::kStringLiteral)) continue;
      std::string s;
      if (is('[')) { advance(); s = list('[', ']'); }
      else if (is('(')) { advance(); std::string l = idlist(')'); need('='); if (bad) break; s = bin("=", l, expr()); }
      else if (is(bant::kIdentifier)) { std::string id = ident(); if (take('=')) s = bin("=", id, expr()); else if (take('(')) s = call(id); else if (take('.')) s = bin(".", id, expr()); else bad = true; }
      else bad = true;
      if (bad) break;
      out += s; out += '\n';
    }
    return !bad;
  }
};
// Linear form of the tree built by the code under test. Also checks that every
// text in the tree lies inside the source.
struct ShowTree : public bant::VoidVisitor {
  std::string_view src; bool offsets; bool in_source; std::string o; bool absent = false;
  ShowTree(std::string_view s, bool with_offsets, bool must_be_in_source = true) : src(s), offsets(with_offsets), in_source(must_be_in_source) {}
  void inside(std::string_view s) { if (in_source) sym_assert(s.data() >= src.data() && s.data() + s.size() <= src.data() + src.size(), "text of the tree lies in the source"); }
  void leaf(char k, std::string_view s) { inside(s); o += k; if (offsets) { RefParser::num(o, s.data() - src.data()); o += '-'; RefParser::num(o, s.data() + s.size() - src.data()); } else o.append(s); o += ';'; }
  void sub(bant::Node *n, bool optional = false) { if (!n) { if (!optional) absent = true; o += '~'; } else n->Accept(this); }
  bool flat = false, chained = false;  // flat: show chains of arithmetic operators without their grouping
  static bool arith(bant::Node *n) { bant::BinOpNode *b = n ? n->CastAsBinOp() : nullptr; if (!b) return false; const int o = b->op(); return o == '+' || o == '-' || o == '*' || o == '/'; }
  void chain(bant::Node *n) { if (!arith(n)) { sub(n); return; } bant::BinOpNode *b = n->CastAsBinOp(); chain(b->left()); o += RefParser::op(b->op()); chain(b->right()); }
  void bin(const char *op, bant::Node *l, bant::Node *r, bool optional = false) { o += '('; o += op; o += ' '; sub(l, optional); sub(r, optional); o += ')'; }
  void VisitAssignment(bant::Assignment *a) override { inside(a->source_range()); bin("=", a->left(), a->right()); }
  void VisitFunCall(bant::FunCall *f) override { o += "c("; sub(f->identifier()); sub(f->argument()); o += ')'; }
  void VisitList(bant::List *l) override { o += l->type() == bant::List::Type::kList ? "l(" : l->type() == bant::List::Type::kMap ? "m(" : "t("; for (bant::Node *n : *l) sub(n); o += ')'; }
  void VisitBinOpNode(bant::BinOpNode *b) override { if (arith(b)) { chained |= arith(b->left()); if (flat) { o += '('; chain(b); o += ')'; return; } } inside(b->source_range()); bin(RefParser::op(b->op()), b->left(), b->right(), b->op() == ':'); }
  void VisitUnaryExpr(bant::UnaryExpr *e) override { o += "(u"; o += RefParser::op(e->op()); o += ' '; sub(e->node()); o += ')'; }
  void VisitListComprehension(bant::ListComprehension *c) override { o += c->type() == bant::List::Type::kList ? "L" : "M"; sub(c->for_node()); }
  void VisitTernary(bant::Ternary *t) override { o += "(? "; sub(t->condition()); sub(t->positive()); sub(t->negative(), true); o += ')'; }
  void VisitScalar(bant::Scalar *s) override { if (s->type() == bant::Scalar::ScalarType::kInt) leaf('n', s->AsString()); else { auto *str = static_cast<bant::StringScalar *>(s); if (str->is_raw()) o += 'R'; if (str->is_triple_quoted()) o += 'T'; leaf('s', s->AsString()); } }
  void VisitIdentifier(bant::Identifier *i) override { leaf('i', i->id()); }
  static std::string File(bant::List *l, std::string_view src, bool offsets, bool *absent = nullptr) { ShowTree s(src, offsets); for (bant::Node *n : *l) { s.sub(n); s.o += '\n'; } if (absent) *absent = s.absent; return s.o; }
};
