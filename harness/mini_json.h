// A small strict JSON reader (RFC 8259), independent of the libraries under test.
#pragma once
#include <math.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace mj {

struct V {
  enum K { Null, Bool, Int, Num, Str, Arr, Obj } k = Null;
  bool b = false;
  bool big = false;           // integer literal outside int64
  int64_t i = 0;
  double d = 0;
  std::string s;              // string value, or the text of a number
  std::vector<V> a;
  std::vector<std::pair<std::string, V>> o;
  const V* get(const std::string& n) const {
    for (auto& p : o) if (p.first == n) return &p.second;
    return nullptr;
  }
  int count(const std::string& n) const {
    int c = 0;
    for (auto& p : o) c += p.first == n;
    return c;
  }
};

inline void utf8(std::string& s, uint32_t c) {
  if (c < 0x80) s += char(c);
  else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
  else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
}

struct P {
  const std::string& t;
  size_t p = 0;
  int depth = 0;
  explicit P(const std::string& x) : t(x) {}
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
  bool lit(const char* w) { size_t n = strlen(w); if (t.compare(p, n, w) == 0) { p += n; return true; } return false; }
  bool hex4(uint32_t& c) {
    c = 0;
    for (int i = 0; i < 4; i++, p++) {
      if (p >= t.size()) return false;
      char h = t[p];
      c = c * 16 + (h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : 99999);
      if (c >= 65536) return false;
    }
    return true;
  }
  bool str(std::string& out) {
    if (p >= t.size() || t[p] != '"') return false;
    p++;
    while (p < t.size()) {
      unsigned char c = (unsigned char)t[p];
      if (c == '"') { p++; return true; }
      if (c < 0x20) return false;
      if (c == '\\') {
        p++;
        if (p >= t.size()) return false;
        char e = t[p++];
        switch (e) {
          case '"': out += '"'; break; case '\\': out += '\\'; break; case '/': out += '/'; break;
          case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break;
          case 'r': out += '\r'; break; case 't': out += '\t'; break;
          case 'u': {
            uint32_t u;
            if (!hex4(u)) return false;
            if (u >= 0xD800 && u < 0xDC00) {
              uint32_t l;
              if (p + 1 >= t.size() || t[p] != '\\' || t[p + 1] != 'u') return false;
              p += 2;
              if (!hex4(l) || l < 0xDC00 || l >= 0xE000) return false;
              u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
            } else if (u >= 0xDC00 && u < 0xE000) return false;
            utf8(out, u);
            break;
          }
          default: return false;
        }
        continue;
      }
      if (c < 0x80) { out += char(c); p++; continue; }
      int n = c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
      if (n < 0 || p + n >= t.size()) return false;
      unsigned char c1 = (unsigned char)t[p + 1];
      if (c == 0xE0 && c1 < 0xA0) return false;
      if (c == 0xED && c1 > 0x9F) return false;
      if (c == 0xF0 && c1 < 0x90) return false;
      if (c == 0xF4 && c1 > 0x8F) return false;
      for (int i = 1; i <= n; i++) if (((unsigned char)t[p + i] & 0xC0) != 0x80) return false;
      out.append(t, p, n + 1);
      p += n + 1;
    }
    return false;
  }
  bool num(V& v) {
    size_t b = p;
    bool fl = false;
    if (p < t.size() && t[p] == '-') p++;
    if (p >= t.size()) return false;
    if (t[p] == '0') p++;
    else if (t[p] >= '1' && t[p] <= '9') while (p < t.size() && isdigit((unsigned char)t[p])) p++;
    else return false;
    if (p < t.size() && t[p] == '.') {
      fl = true; p++;
      size_t q = p;
      while (p < t.size() && isdigit((unsigned char)t[p])) p++;
      if (p == q) return false;
    }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
      fl = true; p++;
      if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++;
      size_t q = p;
      while (p < t.size() && isdigit((unsigned char)t[p])) p++;
      if (p == q) return false;
    }
    v.s = t.substr(b, p - b);
    v.d = strtod(v.s.c_str(), nullptr);
    v.k = fl ? V::Num : V::Int;
    if (!fl) {
      errno = 0;
      v.i = strtoll(v.s.c_str(), nullptr, 10);
      v.big = errno != 0;
    }
    return true;
  }
  bool val(V& v) {
    if (++depth > 3000) return false;
    ws();
    if (p >= t.size()) return false;
    bool ok = val1(v);
    depth--;
    return ok;
  }
  bool val1(V& v) {
    char c = t[p];
    if (c == '{') {
      v.k = V::Obj; p++; ws();
      if (p < t.size() && t[p] == '}') { p++; return true; }
      while (true) {
        ws();
        std::string n;
        if (!str(n)) return false;
        ws();
        if (p >= t.size() || t[p++] != ':') return false;
        v.o.emplace_back(n, V());
        if (!val(v.o.back().second)) return false;
        ws();
        if (p >= t.size()) return false;
        if (t[p] == ',') { p++; continue; }
        if (t[p] == '}') { p++; return true; }
        return false;
      }
    }
    if (c == '[') {
      v.k = V::Arr; p++; ws();
      if (p < t.size() && t[p] == ']') { p++; return true; }
      while (true) {
        v.a.emplace_back();
        if (!val(v.a.back())) return false;
        ws();
        if (p >= t.size()) return false;
        if (t[p] == ',') { p++; continue; }
        if (t[p] == ']') { p++; return true; }
        return false;
      }
    }
    if (c == '"') { v.k = V::Str; return str(v.s); }
    if (lit("true")) { v.k = V::Bool; v.b = true; return true; }
    if (lit("false")) { v.k = V::Bool; return true; }
    if (lit("null")) return true;
    return num(v);
  }
};

inline bool parse(const std::string& t, V& v) {
  P p(t);
  if (!p.val(v)) return false;
  p.ws();
  return p.p == t.size();
}

// Quotes a byte string as a JSON string literal (bytes >= 0x80 are kept).
inline std::string quote(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

}  // namespace mj
