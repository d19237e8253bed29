#pragma once
#include <string>
#include <string_view>
namespace absl {
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
inline bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
inline bool ascii_isalpha(unsigned char c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z'); }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) | ascii_isdigit(c); }
inline bool ascii_isxdigit(unsigned char c) { return ascii_isdigit(c) || ((c | 32) >= 'a' && (c | 32) <= 'f'); }
inline bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
inline bool ascii_ispunct(unsigned char c) { return ascii_isprint(c) && c != ' ' && !ascii_isalnum(c); }
inline bool ascii_iscntrl(unsigned char c) { return c < 32 || c == 127; }
inline bool ascii_isblank(unsigned char c) { return c == ' ' || c == '\t'; }
inline char ascii_tolower(unsigned char c) { return ascii_isupper(c) ? c + 32 : c; }
inline char ascii_toupper(unsigned char c) { return ascii_islower(c) ? c - 32 : c; }
inline std::string_view StripLeadingAsciiWhitespace(std::string_view s) { while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1); return s; }
inline std::string_view StripTrailingAsciiWhitespace(std::string_view s) { while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1); return s; }
inline std::string_view StripAsciiWhitespace(std::string_view s) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s)); }
inline std::string AsciiStrToLower(std::string_view s) { std::string r; for (char c : s) r += ascii_tolower(c); return r; }
inline std::string AsciiStrToUpper(std::string_view s) { std::string r; for (char c : s) r += ascii_toupper(c); return r; }
}
