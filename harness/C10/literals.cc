// @TITLE: values of number and string literals
// @SRCS: bant/frontend/parser.cc bant/frontend/ast.cc bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc
// @BOUND: integers: 0x, 0o or no prefix and 0..4 arbitrary characters out of digits, a f g . 8; strings: optional r or R, quote out of 4 kinds, 0..4 bytes out of quotes, backslash, newline, n; 19-digit boundaries
// @BOUND-THOROUGH: numbers 0..5 characters, strings 0..6
// @COVER: int string raw triple bignum badnum
#include "../parsecommon.h"
static void Number(std::string_view prefix, std::string digits) {
  std::string t = "x="; t += prefix; t += digits; t += '\n';
  bant::NamedLineIndexedContent src("B", t); bant::Scanner scan(src); bant::Arena arena(4096); std::stringstream err; bant::Parser p(&scan, &arena, err); bant::List *l = p.parse();
  const int base = prefix == "0x" ? 16 : prefix == "0o" ? 8 : 10; bool ok = !digits.empty(); bool fraction = false; unsigned __int128 v = 0; int nd = 0;
  for (char c : digits) { int d = 99; if (RefDigit(c)) d = c - '0'; else if (RefHex(c)) d = (c | 32) - 'a' + 10; if (c == '.' && base == 10 && nd && !fraction) { fraction = true; continue; } if (d >= base) { ok = false; break; } if (!fraction) v = v * base + d; ++nd; }
  if (v > INT64_MAX) ok = false;
  sym_assert(p.parse_error() == !ok, "number literal accepted exactly if well formed"); sym_trace(ok);
  if (!ok) { sym_cover("badnum"); return; } if (fraction) return;
  bant::Scalar *s = (*l->begin())->CastAsAssignment()->value()->CastAsScalar(); sym_assert(s && s->type() == bant::Scalar::ScalarType::kInt, "integer");
  sym_assert(s->AsInt() == (int64_t)v, "value of the number"); sym_assert(s->AsString().data() == t.data() + 2 && s->AsString().size() == t.size() - 3, "spelling of the number"); sym_trace(s->AsInt()); sym_cover("int"); if (v > 0xffffffffu) sym_cover("bignum");
}
extern "C" void harness_main() {
  switch (sym::choose(3, "what")) {
  case 0: { static const std::string_view pre[] = {"", "0x", "0o"}; int k = sym::choose(3, "prefix"); std::string d = sym::upto(sym_tier() ? 5 : 4, "01789afgF.", "digits"); if (k == 0) { if (d.empty() || !RefDigit(d[0])) sym_done(); if (d.size() > 1 && (RefHex(d[1]) != RefDigit(d[1]) || d[1] == 'g')) sym_done(); } for (size_t i = 0; i < d.size(); ++i) if (d[i] == 'g' || (k != 1 && !RefDigit(d[i]) && d[i] != '.')) sym_done(); int dots = 0; for (char c : d) dots += c == '.'; if (dots > 1) sym_done(); Number(pre[k], d); break; }
  case 1: { static const std::string_view big[] = {"922337203685477", "7ffffffffffff", "77777777777777777"}; static const std::string_view pre[] = {"", "0x", "0o"}; int k = sym::choose(3, "base"); Number(pre[k], std::string(big[k]) + sym::over(k == 0 ? 4 : k == 1 ? 3 : 4, k == 1 ? "0789f" : "0578", "low")); break; }
  case 2: {
    static const std::string_view quote[] = {"\"", "'", "\"\"\"", "'''"}; std::string_view q = quote[sym::choose(4, "quote")]; int raw = sym::choose(3, "raw"); std::string body = sym::upto(sym_tier() ? 6 : 4, "\"'\\\nn", "body");
    // Body must not end the literal early, nor escape the end.
    int run = 0; bool esc = false; for (char c : body) { if (esc) { esc = false; run = 0; continue; } if (c == '\\') { esc = true; run = 0; continue; } if (c == q[0]) { if (++run == (int)q.size()) sym_done(); } else run = 0; } if (esc || (run && q.size() == 3)) sym_done();
    if (q.size() == 1 && body.empty() == false && body[0] == q[0]) sym_done();
    std::string t = "x="; t += raw == 0 ? "" : raw == 1 ? "r" : "R"; t += q; size_t at = t.size(); t += body; t += q; t += '\n';
    bant::NamedLineIndexedContent src("B", t); bant::Scanner scan(src); bant::Arena arena(4096); std::stringstream err; bant::Parser p(&scan, &arena, err); bant::List *l = p.parse();
    sym_assert(!p.parse_error(), "string literal accepted"); bant::Scalar *s = (*l->begin())->CastAsAssignment()->value()->CastAsScalar(); sym_assert(s && s->type() == bant::Scalar::ScalarType::kString, "string");
    auto *str = static_cast<bant::StringScalar *>(s); sym_assert(str->AsString().data() == t.data() + at && str->AsString().size() == body.size(), "value is the text between the delimiters"); sym_assert(str->is_raw() == (raw != 0), "raw"); sym_assert(str->is_triple_quoted() == (q.size() == 3), "triple quoted");
    sym_cover("string"); if (raw) sym_cover("raw"); if (q.size() == 3) sym_cover("triple"); sym::trace(str->AsString());
  } }
}
