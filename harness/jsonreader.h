#pragma once
#include <string>
#include <string_view>
#include <vector>
#include "sym.h"
// Just enough of a strict JSON reader.
struct Json {
  char kind = 0; std::string s; std::vector<Json> a; std::vector<std::string> keys;  // of an object: keys, and values in a
  const Json *get(std::string_view k) const { for (size_t i = 0; i < keys.size(); ++i) if (keys[i] == k) return &a[i]; return nullptr; }
};
struct JsonReader {
  std::string_view t; size_t i = 0; bool ok = true;
  void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) ++i; }
  bool eat(char c) { ws(); if (i < t.size() && t[i] == c) { ++i; return true; } return false; }
  void need(char c) { if (!eat(c)) ok = false; }
  std::string str() {
    std::string r; need('"');
    while (ok && i < t.size() && t[i] != '"') {
      char c = t[i++]; if ((unsigned char)c < 0x20) ok = false; if (c != '\\') { r += c; continue; }
      if (i >= t.size()) { ok = false; break; } c = t[i++];
      switch (c) { case '"': case '\\': case '/': r += c; break; case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break;
        case 'u': { int v = 0; for (int k = 0; k < 4; ++k) { char h = i < t.size() ? t[i++] : '?'; int d = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; if (d < 0) ok = false; v = v * 16 + d; } if (v > 127) ok = false; r += (char)v; break; }
        default: ok = false; }
    }
    if (i >= t.size()) ok = false; else ++i; return r;
  }
  Json value() {
    Json r; ws(); if (!ok || i >= t.size()) { ok = false; return r; }
    if (t[i] == '"') { r.kind = 's'; r.s = str(); }
    else if (eat('[')) { r.kind = 'a'; if (!eat(']')) { do r.a.push_back(value()); while (ok && eat(',')); need(']'); } }
    else if (eat('{')) { r.kind = 'o'; if (!eat('}')) { do { ws(); std::string k = str(); need(':'); r.keys.push_back(k); r.a.push_back(value()); } while (ok && eat(',')); need('}'); } }
    else ok = false;
    return r;
  }
  static Json Parse(std::string_view t, const char *what) { JsonReader r{t}; Json v = r.value(); r.ws(); sym_assert(r.ok && r.i == t.size(), what); return v; }
};
