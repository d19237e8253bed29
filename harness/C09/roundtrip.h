#pragma once
#include "../parsecommon.h"
#include "bant/frontend/print-visitor.h"
struct Shown { std::string tree, flat, printed; bool chained = false; };
inline bool ParsePrint(std::string_view text, Shown *r) {
  bant::NamedLineIndexedContent src("pkg/BUILD", text); bant::Scanner scan(src); bant::Arena arena(4096); std::stringstream err; bant::Parser parser(&scan, &arena, err);
  bant::List *ast = parser.parse(); if (parser.parse_error()) return false;
  ShowTree show(text, false), flat(text, false); flat.flat = true;
  for (bant::Node *n : *ast) { show.sub(n); show.o += '\n'; std::stringstream o; o << n; r->printed += o.str(); r->printed += '\n'; }
  r->chained = show.chained; r->tree = show.o;
  if (r->chained) { for (bant::Node *n : *ast) { flat.sub(n); flat.o += '\n'; } r->flat = flat.o; } else r->flat = r->tree;
  return true;
}
inline void ShowTreeFlat(const Shown &a, const Shown &b);
inline void CheckRoundTrip(std::string_view text) {
  Shown a, b;
  if (!ParsePrint(text, &a)) { sym_cover("rejected"); return; }
  sym_cover("accepted"); sym::trace(a.printed);
  sym_assert(ParsePrint(a.printed, &b), "printed text is accepted");
#ifdef KNOWN_arith_left
  // Recorded finding: the grouping of an arithmetic expression that is the
  // left operand of an arithmetic operator is lost; everything else is not.
  if (a.chained && a.tree != b.tree) { sym_cover("known:arith_left"); ShowTreeFlat(a, b); return; }
#endif
  sym_assert(b.tree == a.tree, "printed text has the same tree"); sym_assert(b.printed == a.printed, "printing again gives the same text");
}
inline std::string Flat(std::string_view text) { bant::NamedLineIndexedContent src("pkg/BUILD", text); bant::Scanner scan(src); bant::Arena arena(4096); std::stringstream err; bant::Parser parser(&scan, &arena, err); bant::List *ast = parser.parse(); ShowTree f(text, false); f.flat = true; for (bant::Node *n : *ast) { f.sub(n); f.o += '\n'; } return f.o; }
inline void ShowTreeFlat(const Shown &a, const Shown &b) { sym_assert(Flat(b.printed) == a.flat, "printed text has the same tree up to the grouping of arithmetic chains"); sym_assert(b.printed == a.printed, "printing again gives the same text"); }
