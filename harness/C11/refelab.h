// Reference evaluator for what elaboration is to do: works on a second,
// untouched parse of the same text and says what the elaborated tree has to
// look like, including where each string comes from.
#pragma once
#include "../parsecommon.h"
#include "../project.h"
#include "bant/frontend/elaboration.h"
inline bool &SortNew() { static bool b = false; return b; }  // new strings next to each other in a list: in any order
inline std::string JoinList(std::vector<std::string> e) {
  auto fresh = [](const std::string &s) { return s[0] == 's' && s.find("@new@") != std::string::npos; };
  if (SortNew()) for (size_t i = 1; i < e.size(); ++i) for (size_t j = i; j > 0 && fresh(e[j]) && fresh(e[j - 1]) && e[j] < e[j - 1]; --j) std::swap(e[j], e[j - 1]);
  std::string r; for (auto &s : e) r += s; return r;
}
struct Val {
  char kind = 'o';  // s(tring) i(dentifier) L(ist) o(ther)
  std::string lin; std::string text; bool raw = false; bant::List::Type type{}; std::vector<Val> elems;
  static std::string Open(bant::List::Type t) { return t == bant::List::Type::kList ? "l(" : t == bant::List::Type::kMap ? "m(" : "t("; }
  std::string show() const { if (kind != 'L') return lin; std::vector<std::string> e; for (const Val &v : elems) e.push_back(v.show()); return Open(type) + JoinList(e) + ")"; }
};
inline bool HasBackslash(std::string_view s) { bool r = false; for (char c : s) r |= c == '\\'; return r; }
inline void StringLeaf(std::string &o, std::string_view s, bool raw) { if (raw && HasBackslash(s)) o += 'R'; o += 's'; o += s; o += '@'; }
inline std::string LineCol(std::string_view text, size_t at) { int line = 0, col = 0; for (size_t i = 0; i < at; ++i) { if (text[i] == '\n') { ++line; col = 0; } else ++col; } std::string r; RefParser::num(r, line); r += ':'; RefParser::num(r, col); return r; }
struct RefElab : public bant::VoidVisitor {
  std::string_view src; std::map<std::string, Val> env; std::set<std::string> hidden; bant::Node *member = nullptr; int nest = 0; Val out; bool folded = false, replaced = false, selected = false, shadowed = false, partial = false, membered = false, mixed = false, globbed = false;
  std::vector<std::string> (*glob)(const std::vector<std::string> &include, const std::vector<std::string> &exclude) = nullptr;
  explicit RefElab(std::string_view s) : src(s) {}
  size_t pos(std::string_view s) { sym_assert(s.data() >= src.data() && s.data() <= src.data() + src.size(), "in the text"); return s.data() - src.data(); }
  Val eval(bant::Node *n) { if (!n) { Val v; v.lin = "~"; return v; } n->Accept(this); Val r = out; return r; }
  static Val other(std::string s) { Val v; v.lin = std::move(s); return v; }
  struct Callee : public bant::BaseVoidVisitor { bant::Node *id = nullptr; void VisitFunCall(bant::FunCall *f) override { id = f->identifier(); } };
  static bant::Node *Leftmost(bant::Node *n) { while (bant::BinOpNode *b = n->CastAsBinOp()) n = b->left(); if (n->CastAsIdentifier() || n->CastAsList() || n->CastAsScalar()) return n; Callee c; n->Accept(&c); return c.id; }
  void VisitAssignment(bant::Assignment *a) override {
    Val v = eval(a->value()); std::string l = "(= "; { ShowTree s(src, false, false); s.sub(a->left()); l += s.o; }
    if (nest == 0) { if (bant::Identifier *i = a->left()->CastAsIdentifier()) env[std::string(i->id())] = v; else for (bant::Node *n : *a->left()->CastAsList()) env.erase(std::string(n->CastAsIdentifier()->id())); }
    out = other(l + v.show() + ")"); out.elems = {v};
  }
  void VisitFunCall(bant::FunCall *f) override {
    ++nest; std::string id(f->identifier()->id()); const bool is_member = f->identifier() == member;
    if (!is_member) { auto it = env.find(id); if (it != env.end() && !hidden.count(id) && it->second.kind == 'i') { id = it->second.text; } }
    std::vector<Val> args; for (bant::Node *n : *f->argument()) args.push_back(eval(n));
    --nest;
    // The value of the first default entry of the first map that has one.
    if (id == "select") for (const Val &a : args) if (a.kind == 'L' && a.type == bant::List::Type::kMap) for (const Val &e : a.elems) if (e.kind == 'e' && e.elems[0].kind == 's' && e.elems[0].text == "//conditions:default") { selected = true; out = e.elems[1]; return; }
    if (id == "glob" && glob) {
      const Val *inc = nullptr, *exc = nullptr; int at = 0; for (bant::Node *n : *f->argument()) { if (bant::Assignment *kw = n->CastAsAssignment()) { const std::string_view k = kw->left()->CastAsIdentifier()->id(); if (k == "include") inc = &args[at].elems[0]; if (k == "exclude") exc = &args[at].elems[0]; } else if (args[at].kind == 'L') { if (at == 0) inc = &args[at]; else if (at == 1) exc = &args[at]; } ++at; }
      if (inc && inc->kind == 'L') {
        auto texts = [](const Val *v) { std::vector<std::string> r; if (v && v->kind == 'L') for (const Val &e : v->elems) if (e.kind == 's') r.push_back(e.text); return r; };
        Val l; l.kind = 'L'; l.type = bant::List::Type::kList; for (const std::string &s : glob(texts(inc), texts(exc))) { Val v; v.kind = 's'; v.text = s; StringLeaf(v.lin, s, false); v.lin += "new@" + LineCol(src, pos(f->identifier()->id())) + ";"; l.elems.push_back(v); }
        globbed = true; out = l; return;
      }
    }
    std::string r = "c(i" + id + ";t("; for (const Val &a : args) r += a.show(); out = other(r + "))");
  }
  void VisitList(bant::List *l) override { Val v; v.kind = 'L'; v.type = l->type(); for (bant::Node *n : *l) v.elems.push_back(eval(n)); out = v; }
  void VisitBinOpNode(bant::BinOpNode *b) override {
    if (b->op() == '.') {
      Val l = eval(b->left()); bant::Node *was = member; member = Leftmost(b->right()); membered = true; Val r = eval(b->right()); member = was; out = other("(. " + l.show() + r.show() + ")"); return;
    }
    Val l = eval(b->left()), r = eval(b->right());
    if (b->op() == '+') {
      if (l.kind == 'L' && r.kind != 'L') { partial = true; out = l; return; }
      if (l.kind != 'L' && r.kind == 'L') { partial = true; out = r; return; }
      if (l.kind == 'L' && l.type == r.type) { folded = true; for (const Val &v : r.elems) l.elems.push_back(v); out = l; return; }
      if (l.kind == 's' && r.kind == 's') {
        if (l.raw != r.raw) { mixed = true; }
        if (l.raw == r.raw || (!HasBackslash(l.text) && !HasBackslash(r.text))) {
          folded = true; Val v; v.kind = 's'; v.raw = l.raw && r.raw; v.text = l.text + r.text; const size_t at = pos(b->source_range()); sym_assert(src[at] == '+', "location of a concatenation is the operator");
          StringLeaf(v.lin, v.text, v.raw); v.lin += "new@" + LineCol(src, at) + ";"; out = v; return;
        }
      }
    }
    Val v = other(std::string("(") + RefParser::op(b->op()) + " " + l.show() + r.show() + ")"); if (b->op() == ':') { v.kind = 'e'; v.elems = {l, r}; } out = v;
  }
  void VisitUnaryExpr(bant::UnaryExpr *e) override { Val v = eval(e->node()); out = other(std::string("(u") + RefParser::op(e->op()) + " " + v.show() + ")"); }
  void VisitListComprehension(bant::ListComprehension *c) override {
    const std::set<std::string> was = hidden;
    for (bant::BinOpNode *f = c->for_node(); f && f->op() == bant::kFor; f = f->left()->CastAsBinOp()) for (bant::Node *n : *f->right()->CastAsBinOp()->left()->CastAsList()) { const std::string id(n->CastAsIdentifier()->id()); hidden.insert(id); shadowed |= env.count(id) > 0; }
    Val v = eval(c->for_node()); hidden = was; out = other((c->type() == bant::List::Type::kList ? "L" : "M") + v.show());
  }
  void VisitTernary(bant::Ternary *t) override { Val c = eval(t->condition()), p = eval(t->positive()), n = eval(t->negative()); out = other("(? " + c.show() + p.show() + n.show() + ")"); }
  void VisitScalar(bant::Scalar *s) override {
    Val v; if (s->type() == bant::Scalar::ScalarType::kInt) { v.lin = "n" + std::string(s->AsString()) + ";"; out = v; return; }
    v.kind = 's'; v.text = s->AsString(); v.raw = static_cast<bant::StringScalar *>(s)->is_raw(); StringLeaf(v.lin, v.text, v.raw); RefParser::num(v.lin, pos(s->AsString())); v.lin += ';'; out = v;
  }
  void VisitIdentifier(bant::Identifier *i) override {
    const std::string id(i->id()); auto it = env.find(id); if (i != member && it != env.end() && !hidden.count(id)) { replaced = true; out = it->second; return; }
    Val v; v.kind = 'i'; v.text = id; v.lin = "i" + id + ";"; out = v;
  }
};
// The elaborated tree in the same form: texts with their offset in the source,
// or for strings that are new with the location reported for them.
struct ShowElab : public ShowTree {
  const bant::ParsedProject &project; std::string file;
  ShowElab(std::string_view s, const bant::ParsedProject &p, std::string f) : ShowTree(s, false, false), project(p), file(std::move(f)) {}
  void VisitList(bant::List *l) override { const std::string before = o; std::vector<std::string> e; for (bant::Node *n : *l) { o.clear(); sub(n); e.push_back(o); } o = before + Val::Open(l->type()) + JoinList(e) + ")"; }
  void VisitScalar(bant::Scalar *s) override {
    if (s->type() == bant::Scalar::ScalarType::kInt) { leaf('n', s->AsString()); return; }
    const std::string_view t = s->AsString(); StringLeaf(o, t, static_cast<bant::StringScalar *>(s)->is_raw());
    if (t.data() >= src.data() && t.data() + t.size() <= src.data() + src.size()) { RefParser::num(o, t.data() - src.data()); }
    else { const auto loc = project.GetLocation(t); sym_assert(loc.filename == file, "new strings are located in the file they come from"); o += "new@"; RefParser::num(o, loc.line_column_range.start.line); o += ':'; RefParser::num(o, loc.line_column_range.start.col); }
    o += ';';
  }
};
inline std::string_view Content(const bant::ParsedBuildFile *f, size_t size) { return {(*f->ast->begin())->CastAsBinOp()->left()->CastAsIdentifier()->id().data(), size}; }
inline void CheckElab(const std::string &text, const std::string &pkg, RefElab *ref, bant::BazelWorkspace ws = {}) {
  Proj p(std::move(ws)); const bant::ParsedBuildFile *f = p.add(pkg, text); if (p.project.error_count() > 0) { sym_cover("rejected"); return; }
  bant::NamedLineIndexedContent src("x", text); bant::Scanner scan(src); bant::Arena arena(4096); std::stringstream err; bant::Parser parser(&scan, &arena, err); bant::List *ast = parser.parse();
  ref->src = text; std::string want; for (bant::Node *n : *ast) { want += ref->eval(n).show(); want += '\n'; }
  const std::string_view content = Content(f, text.size());  // texts begin with an assigned identifier
  bant::Elaborate(p.session, &p.project, const_cast<bant::ParsedBuildFile *>(f));
  ShowElab show(content, p.project, std::string(f->name())); for (bant::Node *n : *f->ast) { show.sub(n); show.o += '\n'; }
  sym::trace(show.o); sym_assert(!show.absent, "nothing gets lost"); sym_assert(show.o == want, "elaborated tree is the one prescribed");
}
