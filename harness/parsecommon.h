#pragma once
#include <sstream>
#include "bant/frontend/named-content.h"
#include "refparse.h"
// Parses text and compares with the reference: accepted or not, message and
// flag, and if accepted the whole tree with all positions.
inline void CheckParse(std::string_view text) {
  bant::NamedLineIndexedContent src("pkg/BUILD", text); bant::Scanner scan(src); bant::Arena arena(4096); std::stringstream err; bant::Parser parser(&scan, &arena, err);
  bant::List *ast = parser.parse(); sym_assert(ast != nullptr, "there is always a tree");
  RefParser ref(text, true); const bool ok = ref.file(); const std::string msg = err.str();
  sym_assert(parser.parse_error() == !msg.empty(), "error flag is set exactly if there is a message");
  if (!msg.empty()) sym_assert(msg.starts_with("pkg/BUILD:"), "message starts with the location in the file");
  sym_assert(parser.parse_error() == !ok, ok ? "text of the language is accepted" : "text outside of the language is reported");
  const std::string tree = ShowTree::File(ast, text, true);
  if (ok) { sym_cover("accepted"); sym_assert(tree == ref.out, "tree has the structure the language prescribes"); }
  else sym_cover("rejected");
  sym_trace(ok); sym::trace(tree);
}
// Text built from arbitrary tokens out of a table, each padded with spaces to
// the same width; which token is a symbolic choice that does not fork here.
template <int W> inline std::string TokenText(const char (*tokens)[W], int ntok, int count, const char *name) {
  std::string t;
  for (int i = 0; i < count; ++i) { uint8_t k = sym::byte(name); sym_assume(k < ntok); for (int j = 0; j < W - 1; ++j) t += tokens[k][j]; }
  return t;
}
