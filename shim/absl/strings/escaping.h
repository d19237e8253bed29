#pragma once
#include <string>
#include <string_view>
namespace absl {
inline std::string CEscapeImpl_(std::string_view s, bool hex) {
  std::string o;
  bool lasthex = false;
  for (char ch : s) {
    unsigned char c = ch; bool ishex = false;
    switch (c) {
    case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break;
    case '"': o += "\\\""; break; case '\'': o += "\\'"; break; case '\\': o += "\\\\"; break;
    default:
      if (c < 32 || c >= 127) { o += '\\'; if (hex) { o += 'x'; o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; ishex = true; } else { o += '0' + (c >> 6); o += '0' + ((c >> 3) & 7); o += '0' + (c & 7); } }
      else if (lasthex && ((c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f'))) { o += "\\x"; o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; ishex = true; }
      else o += ch;
    }
    lasthex = ishex;
  }
  return o;
}
inline std::string CEscape(std::string_view s) { return CEscapeImpl_(s, false); }
inline std::string CHexEscape(std::string_view s) { return CEscapeImpl_(s, true); }
inline std::string Utf8SafeCEscape(std::string_view s) {
  std::string o; for (char c : s) { if ((unsigned char)c >= 0x80) o += c; else o += CEscapeImpl_(std::string_view(&c, 1), false); } return o;
}
inline std::string BytesToHexString(std::string_view s) { std::string o; for (char ch : s) { unsigned char c = ch; o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; } return o; }
}
