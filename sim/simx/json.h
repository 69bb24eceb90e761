// Minimal JSON value, parser and escaping writer. Strings are byte strings: \u00XX <-> byte XX.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
struct J {
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
  bool b = false; double n = 0; int64_t i = 0;
  std::string s; std::vector<J> a; std::map<std::string, J> o;
  static const J &null() { static J j; return j; }
  const J &operator[](const char *k) const { auto it = o.find(k); return it == o.end() ? null() : it->second; }
  const J &operator[](size_t k) const { return k < a.size() ? a[k] : null(); }
  bool has(const char *k) const { return o.count(k) > 0; }
  int64_t num(int64_t d = 0) const { return t == NUM ? i : t == BOOL ? b : d; }
  double dbl(double d = 0) const { return t == NUM ? n : d; }
  std::string str(const char *d = "") const { return t == STR ? s : std::string(d); }
  bool truthy() const { return t == BOOL ? b : t == NUM ? n != 0 : t == STR ? !s.empty() : t == ARR ? !a.empty() : t == OBJ; }
};
struct JParse {
  std::string own; const char *p, *e; bool ok = true;
  JParse(const std::string &x) : own(x), p(own.data()), e(own.data() + own.size()) {}
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
  static void putu(std::string &o, unsigned c) {
    if (c < 256) o.push_back((char)c); else o.push_back('?');
  }
  std::string str() {
    std::string r; p++;
    while (p < e && *p != '"') {
      if (*p == '\\' && p + 1 < e) {
        p++;
        switch (*p) {
          case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
          case 'b': r += '\b'; break; case 'f': r += '\f'; break;
          case 'u': { char h[5] = {0}; for (int k = 0; k < 4 && p + 1 + k < e; k++) h[k] = p[1 + k]; putu(r, (unsigned)strtoul(h, 0, 16)); p += 4; break; }
          default: r += *p;
        }
        p++;
      } else r += *p++;
    }
    if (p < e) p++; else ok = false;
    return r;
  }
  J val() {
    J j; ws();
    if (p >= e) { ok = false; return j; }
    if (*p == '{') {
      j.t = J::OBJ; p++; ws();
      while (p < e && *p != '}') { ws(); if (*p != '"') { ok = false; return j; } std::string k = str(); ws(); if (p < e && *p == ':') p++; else { ok = false; return j; } j.o[k] = val(); if (!ok) return j; ws(); if (p < e && *p == ',') p++; ws(); }
      if (p < e) p++; else ok = false;
    } else if (*p == '[') {
      j.t = J::ARR; p++; ws();
      while (p < e && *p != ']') { j.a.push_back(val()); if (!ok) return j; ws(); if (p < e && *p == ',') p++; ws(); }
      if (p < e) p++; else ok = false;
    } else if (*p == '"') { j.t = J::STR; j.s = str(); }
    else if (!strncmp(p, "true", 4)) { j.t = J::BOOL; j.b = true; p += 4; }
    else if (!strncmp(p, "false", 5)) { j.t = J::BOOL; p += 5; }
    else if (!strncmp(p, "null", 4)) p += 4;
    else { char *q; j.t = J::NUM; j.n = strtod(p, &q); j.i = strtoll(p, 0, 10); if (memchr(p, '.', q - p) || memchr(p, 'e', q - p)) j.i = (int64_t)j.n; if (q == p) { ok = false; return j; } p = q; }
    return j;
  }
};
inline void jesc(std::string &o, const char *d, size_t n) {
  o += '"';
  for (size_t i = 0; i < n; i++) {
    unsigned char c = d[i];
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  o += '"';
}
