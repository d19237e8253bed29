// @TITLE: extracted includes are the quoted include directives of the source
// @SRCS: bant/tool/dwyu.cc bant/frontend/named-content.cc bant/frontend/linecolumn-map.cc bant/frontend/source-locator.cc
// @BOUND: texts made of 0 to 4 arbitrary bytes of quote, newline, space, tab, / * \ ' # x < followed by a directive with 0 to 1 arbitrary bytes at 2 places around #, include and the quote, with a name of 1 to 3 arbitrary bytes, then 0 to 2 arbitrary bytes and a second directive
// @BOUND-THOROUGH: 0 to 6 bytes in front
// @ASSUME: the text is lexically valid C++ (strings and character literals end on their line, comments are closed), no raw strings or line continuations
// @COVER: include no-space line-comment string angle multi-line mid-line two known-class char-literal
// @TIME: 300 780
#include <sstream>
#include "sym.h"
#include "bant/frontend/named-content.h"
#include "bant/tool/dwyu.h"
struct Inc { size_t pos, len; };
namespace bant { void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view) {} void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view) {} }
extern "C" void harness_main() {
  const int part = sym::choose(2, "part"); std::string pre, s1, s2, s3, name, post;
  if (part == 0) { pre = sym::upto(sym_tier() ? 6 : 4, "\"\n /*\\'x", "before"); name = sym::over(1, "a", "name"); s2 = " "; post = sym::upto(1, "\" /x", "after"); }
  else { pre = sym::upto(1, "\n x#", "before"); s1 = sym::upto(sym_tier() ? 2 : 1, " \t\nx", "space1"); s2 = sym::upto(sym_tier() ? 2 : 1, " \t\n<x", "space2"); name = sym::bytes(sym::range(1, sym_tier() ? 3 : 2, "name.len"), "name"); post = sym::upto(sym_tier() ? 2 : 1, "\"\n /", "after"); }
  const std::string t = pre + "#" + s1 + "include" + s2 + "\"" + name + "\"" + post + "\n\t# include\"y.h\"\n";
  // Reference: C++ lexing.
  std::vector<Inc> want; enum { kCode, kLine, kBlock, kStr, kChar } st = kCode; bool bol_in_comment = false, bad = false, known = false, sticky = false, bol = true; size_t i = 0; const size_t n = t.size();
  while (i < n && !bad) {
    if (st == kCode && known) { sticky = true; known = false; }
    const char c = t[i];
    if (st == kCode) {
      if (bol && c == '#') {
        size_t k = i + 1; while (k < n && (t[k] == ' ' || t[k] == '\t')) ++k;
        if (t.compare(k, 7, "include") == 0) {
          k += 7; while (k < n && (t[k] == ' ' || t[k] == '\t')) ++k;
          if (k < n && t[k] == '"') {
            size_t e = k + 1; while (e < n && t[e] != '"' && t[e] != '\n') ++e;
            if (e < n && t[e] == '"') { if (e == k + 1) { bad = true; break; } want.push_back({k + 1, e - k - 1}); sym_cover("include"); if (t[k - 1] == 'e') sym_cover("no-space"); i = e + 1; bol = false; continue; }
            bad = true; break;
          }
          if (k < n && t[k] == '<') sym_cover("angle");
        }
      }
      if (c == '\n') bol = true; else if (c != ' ' && c != '\t') { if (c == '#' && !bol && i + 1 < n && t[i + 1] != '\n') sym_cover("mid-line"); bol = false; }
      if (c == '"') { st = kStr; sym_cover("string"); } else if (c == '\'') st = kChar;
      else if (c == '\\') bad = true;
      else if (c == '/' && i + 1 < n && t[i + 1] == '/') { st = kLine; ++i; } else if (c == '/' && i + 1 < n && t[i + 1] == '*') { st = kBlock; bol = false; ++i; }
      ++i; continue;
    }
    if (st == kLine) { if (c == '\\') bad = true; if (c == '"') known = !known; if (c == '\n') { st = kCode; bol = true; sym_cover("line-comment"); } ++i; continue; }
    if (st == kBlock) { if (c == '"') { known = !known; if (bol_in_comment) sticky = true; } if (c == '*' && i + 1 < n && t[i + 1] == '/') { st = kCode; ++i; } else if (c == '\n') bol = bol_in_comment = true; ++i; continue; }
    if (c == '\n') { bad = true; break; }
    if (c == '\\') { if (i + 1 >= n || t[i + 1] == '\n') { bad = true; break; } if (t[i + 1] == '"') known = !known; i += 2; continue; }
    if (st == kChar && c == '"') known = !known;
    if (c == (st == kStr ? '"' : '\'')) { if (st == kChar) sym_cover("char-literal"); st = kCode; }
    ++i;
  }
  sym_assume(!bad && st == kCode); known |= sticky; if (known) sym_cover("known-class");
  bant::NamedLineIndexedContent src("f", t); const auto got = bant::ExtractCCIncludes(&src);
  const std::string_view content = src.content();
  bool same = got.size() == want.size(); for (size_t k = 0; same && k < got.size(); ++k) same = (size_t)(got[k].data() - content.data()) == want[k].pos && got[k].size() == want[k].len;
#ifdef KNOWN_quote_parity
  if (known) { if (!same) sym_cover("known:quote_parity"); return; }
#endif
  sym_assert(got.size() == want.size(), "as many includes as the source has"); 
  for (size_t k = 0; k < got.size(); ++k) {
    sym_assert((size_t)(got[k].data() - content.data()) == want[k].pos && got[k].size() == want[k].len, "the quoted name, as range of the text");
    const auto loc = src.GetLocation(got[k]); int line = 0, col = 0; for (size_t j = 0; j < want[k].pos; ++j) { ++col; if (t[j] == '\n') { ++line; col = 0; } }
    sym_assert(loc.line_column_range.start.line == line && loc.line_column_range.start.col == col, "located where it is"); if (line && k) sym_cover("multi-line");
  }
  if (got.size() == 2) sym_cover("two");
}
