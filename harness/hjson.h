// JSON values and typed library values as trees (see spec/DataModel.tla), random
// values of every type, and texts for JSON values, all independent of the
// serializers under test.
#pragma once
#include "hseq.h"
#include "mini_json.h"

#include "dap/serialization.h"
#include "dap/typeof.h"
#include "dap/types.h"

#include <algorithm>
#include <limits>
#include <string>
#include <vector>

namespace hj {
using hseq::fmt;
using hseq::Rng;

inline std::string pct(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c >= 0x20 && c < 0x7f && c != '%' && c != '"' && c != '\\') o += char(c);
    else o += fmt("%%%02x", c);
  }
  return o;
}
inline std::string dbl(double d) { return d == 0 ? "0" : fmt("%.17g", d); }
inline std::string hex(const std::string& s) {
  std::string o;
  for (unsigned char c : s) o += fmt("%02x", c);
  return o;
}

// ---- JSON trees
inline std::string tree(const mj::V& v) {
  switch (v.k) {
    case mj::V::Null: return "{\"k\":\"n\"}";
    case mj::V::Bool: return v.b ? "{\"k\":\"b\",\"b\":\"true\"}" : "{\"k\":\"b\",\"b\":\"false\"}";
    case mj::V::Int:
      if (!v.big) return fmt("{\"k\":\"i\",\"i\":\"%lld\",\"d\":\"", (long long)v.i) + dbl(v.d) + "\"}";
      return "{\"k\":\"d\",\"d\":\"" + dbl(v.d) + "\"}";
    case mj::V::Num: return "{\"k\":\"d\",\"d\":\"" + dbl(v.d) + "\"}";
    case mj::V::Str: return "{\"k\":\"s\",\"s\":\"" + pct(v.s) + "\"}";
    case mj::V::Arr: {
      std::string o = "{\"k\":\"a\",\"a\":[";
      for (size_t i = 0; i < v.a.size(); i++) o += (i ? "," : "") + tree(v.a[i]);
      return o + "]}";
    }
    case mj::V::Obj: {
      std::vector<const std::pair<std::string, mj::V>*> m;
      for (auto& p : v.o) m.push_back(&p);
      std::stable_sort(m.begin(), m.end(), [](auto* a, auto* b) { return a->first < b->first; });
      std::string o = "{\"k\":\"o\",\"o\":[";
      for (size_t i = 0; i < m.size(); i++) o += (i ? "," : "") + ("{\"n\":\"" + pct(m[i]->first) + "\",\"v\":" + tree(m[i]->second) + "}");
      return o + "]}";
    }
  }
  return "";
}

// ---- structures: visit(s, f) calls f(wire name, member) for every field, base first
template <class S> struct Struct { static constexpr bool is = false; };

// ---- typed values as trees
inline std::string val(const dap::boolean& v) { return v ? "{\"k\":\"b\",\"b\":\"true\"}" : "{\"k\":\"b\",\"b\":\"false\"}"; }
inline std::string val(const dap::integer& v) { return fmt("{\"k\":\"i\",\"i\":\"%lld\"}", (long long)(int64_t)v); }
inline std::string val(const dap::number& v) { return "{\"k\":\"d\",\"d\":\"" + dbl((double)v) + "\"}"; }
inline std::string val(const dap::string& v) { return "{\"k\":\"s\",\"s\":\"" + pct(v) + "\"}"; }
inline std::string val(const std::nullptr_t&) { return "{\"k\":\"n\"}"; }
inline std::string val(const dap::any& v);
inline std::string val(const dap::object& v) {
  std::vector<const std::pair<const std::string, dap::any>*> m;
  for (auto& p : v) m.push_back(&p);
  std::sort(m.begin(), m.end(), [](auto* a, auto* b) { return a->first < b->first; });
  std::string o = "{\"k\":\"o\",\"o\":[";
  for (size_t i = 0; i < m.size(); i++) o += (i ? "," : "") + ("{\"n\":\"" + pct(m[i]->first) + "\",\"v\":" + val(m[i]->second) + "}");
  return o + "]}";
}
template <class T> std::string val(const dap::array<T>& v);
template <class T> std::string val(const dap::optional<T>& v);
template <class T0, class... T> std::string val(const dap::variant<T0, T...>& v);
template <class S> typename std::enable_if<Struct<S>::is, std::string>::type val(const S& s);

template <class T> std::string val(const dap::array<T>& v) {
  std::string o = "{\"k\":\"a\",\"a\":[";
  for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + val(T(v[i]));
  return o + "]}";
}
template <class T> std::string val(const dap::optional<T>& v) { return v.has_value() ? val(v.value()) : "{\"k\":\"u\"}"; }
template <class Var, class... T> struct Alts;
template <class Var> struct Alts<Var> { static std::string get(const Var&, int) { return "{\"k\":\"none\"}"; } };
template <class Var, class T0, class... T> struct Alts<Var, T0, T...> {
  static std::string one(const Var& v, int n, std::false_type) { return fmt("{\"k\":\"v\",\"x\":%d,\"y\":", n) + val(v.template get<T0>()) + "}"; }
  static std::string one(const Var&, int n, std::true_type) { return fmt("{\"k\":\"v\",\"x\":%d,\"y\":", n) + val(nullptr) + "}"; }
  static std::string get(const Var& v, int n) {
    if (v.template is<T0>()) return one(v, n, std::is_same<T0, std::nullptr_t>());
    return Alts<Var, T...>::get(v, n + 1);
  }
};
template <class T0, class... T> std::string val(const dap::variant<T0, T...>& v) { return Alts<dap::variant<T0, T...>, T0, T...>::get(v, 1); }
inline std::string val(const dap::any& v) {
  if (v.is<std::nullptr_t>()) return val(nullptr);
  if (v.is<dap::boolean>()) return val(v.get<dap::boolean>());
  if (v.is<dap::integer>()) return val(v.get<dap::integer>());
  if (v.is<dap::number>()) return val(v.get<dap::number>());
  if (v.is<dap::string>()) return val(v.get<dap::string>());
  if (v.is<dap::object>()) return val(v.get<dap::object>());
  if (v.is<dap::array<dap::any>>()) return val(v.get<dap::array<dap::any>>());
  return "{\"k\":\"other\"}";
}
template <class S> typename std::enable_if<Struct<S>::is, std::string>::type val(const S& s) {
  std::string o = "{\"k\":\"t\",\"t\":[";
  bool first = true;
  visit(const_cast<S&>(s), [&](const char* n, auto& m) {
    o += (first ? "" : ",") + ("{\"n\":\"" + pct(n) + "\",\"v\":" + val(m) + "}");
    first = false;
  });
  return o + "]}";
}

// ---- random values
inline std::string genString(Rng& r) {
  static const char* pieces[] = {"a", "Z", "0", " ", "\"", "\\", "/", "\n", "\r\n", "\t", "\b", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac",
                                 "\xe2\x80\xa8", "\xf0\x9f\x98\x80", "\xef\xbf\xbf", "\xf4\x8f\xbf\xbf", "<", "&", "'", "hello", "Content-Length: 5\r\n\r\n", "%s%n", "{}", "[", "null", "\\u0041"};
  std::string s;
  int n = r(5) == 0 ? 0 : r(12) == 0 ? 20 + int(r(300)) : 1 + int(r(6));
  for (int i = 0; i < n; i++) {
    if (r(14) == 0) s += std::string(1, char(0));
    else s += pieces[r(sizeof pieces / sizeof *pieces)];
  }
  return s;
}
inline int64_t genInt(Rng& r) {
  static const int64_t sp[] = {0, 1, -1, 127, 128, 255, 256, 32767, 65535, 2147483647, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL,
                               9007199254740992LL, 9007199254740993LL, -9007199254740993LL, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 1000000000000LL};
  if (r(2)) return sp[r(sizeof sp / sizeof *sp)];
  return int64_t(r.next()) >> r(64);
}
inline double genDouble(Rng& r) {
  static const double sp[] = {0, 1, -1, 0.5, 0.1, -0.1, 1.0 / 3, 1e15, 1e16, 1e17, 123456789.123, 1e20, 1e21, 1e22, 1e23, 9007199254740993.0, 2147483648.0, 9223372036854775808.0,
                              18446744073709551616.0, -9223372036854775808.0, 1e100, 1e-7, 1e-5, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 3.141592653589793};
  if (r(2)) return sp[r(sizeof sp / sizeof *sp)];
  while (true) {
    uint64_t b = r.next();
    double d;
    memcpy(&d, &b, 8);
    if (d == d && d - d == 0) return d;
  }
}
inline void gen(dap::boolean& v, Rng& r, int) { v = dap::boolean(r(2) == 1); }
inline void gen(dap::integer& v, Rng& r, int) { v = dap::integer(genInt(r)); }
inline void gen(dap::number& v, Rng& r, int) { v = dap::number(genDouble(r)); }
inline void gen(dap::string& v, Rng& r, int) { v = genString(r); }
inline void gen(std::nullptr_t&, Rng&, int) {}
inline void gen(dap::any& v, Rng& r, int depth);
inline void gen(dap::object& v, Rng& r, int depth) {
  v.clear();
  for (int n = int(r(4)); n > 0; n--) {
    dap::any a;
    gen(a, r, depth - 1);
    v[r(2) ? std::string(1, char('a' + r(5))) : genString(r)] = a;
  }
}
template <class T> void gen(dap::array<T>& v, Rng& r, int depth);
template <class T> void gen(dap::optional<T>& v, Rng& r, int depth);
template <class T0, class... T> void gen(dap::variant<T0, T...>& v, Rng& r, int depth);
template <class S> typename std::enable_if<Struct<S>::is>::type gen(S& s, Rng& r, int depth);
template <class T> void gen(dap::array<T>& v, Rng& r, int depth) {
  v.clear();
  for (int n = depth > 0 ? int(r(12) == 0 ? 20 : r(4)) : 0; n > 0; n--) {
    T e{};
    gen(e, r, depth - 1);
    v.push_back(e);
  }
}
template <class T> void gen(dap::optional<T>& v, Rng& r, int depth) {
  v = dap::optional<T>();
  if (r(2)) {
    T t{};
    gen(t, r, depth - 1);
    v = t;
  }
}
template <class Var, class... T> struct GenAlt;
template <class Var> struct GenAlt<Var> { static void set(Var&, Rng&, int, int) {} };
template <class Var, class T0, class... T> struct GenAlt<Var, T0, T...> {
  static void set(Var& v, Rng& r, int depth, int k) {
    if (k > 0) return GenAlt<Var, T...>::set(v, r, depth, k - 1);
    T0 t{};
    gen(t, r, depth - 1);
    v = t;
  }
};
template <class T0, class... T> void gen(dap::variant<T0, T...>& v, Rng& r, int depth) {
  GenAlt<dap::variant<T0, T...>, T0, T...>::set(v, r, depth, int(r(1 + sizeof...(T))));
}
inline void gen(dap::any& v, Rng& r, int depth) {
  switch (r(depth > 0 ? 7 : 5)) {
    case 0: v = nullptr; break;
    case 1: { dap::boolean b; gen(b, r, 0); v = b; break; }
    case 2: { dap::integer b; gen(b, r, 0); v = b; break; }
    case 3: { dap::number b; gen(b, r, 0); v = b; break; }
    case 4: { dap::string b; gen(b, r, 0); v = b; break; }
    case 5: { dap::object b; gen(b, r, depth - 1); v = b; break; }
    default: { dap::array<dap::any> b; gen(b, r, depth - 1); v = b; }
  }
}
template <class S> typename std::enable_if<Struct<S>::is>::type gen(S& s, Rng& r, int depth) {
  visit(s, [&](const char*, auto& m) { gen(m, r, depth - 1); });
}

// ---- typed values as JSON values (as the spec says they are to be encoded)
inline mj::V mk(mj::V::K k) { mj::V v; v.k = k; return v; }
inline mj::V js(const dap::boolean& x) { auto v = mk(mj::V::Bool); v.b = x; return v; }
inline mj::V js(const dap::integer& x) { auto v = mk(mj::V::Int); v.i = x; v.d = double(v.i); v.s = std::to_string(v.i); return v; }
inline mj::V js(const dap::number& x) {
  auto v = mk(mj::V::Num);
  v.d = x;
  v.s = fmt("%.17g", v.d);
  if (v.s.find_first_of(".e") == std::string::npos) v.s += ".0";
  return v;
}
inline mj::V js(const dap::string& x) { auto v = mk(mj::V::Str); v.s = x; return v; }
inline mj::V js(const std::nullptr_t&) { return mj::V(); }
inline mj::V js(const dap::any& v);
inline mj::V js(const dap::object& x) {
  auto v = mk(mj::V::Obj);
  for (auto& p : x) v.o.emplace_back(p.first, js(p.second));
  return v;
}
template <class T> mj::V js(const dap::array<T>& x);
template <class T> mj::V js(const dap::optional<T>& x);
template <class T0, class... T> mj::V js(const dap::variant<T0, T...>& x);
template <class S> typename std::enable_if<Struct<S>::is, mj::V>::type js(const S& s);
template <class T> mj::V js(const dap::array<T>& x) {
  auto v = mk(mj::V::Arr);
  for (size_t i = 0; i < x.size(); i++) v.a.push_back(js(T(x[i])));
  return v;
}
template <class T> mj::V js(const dap::optional<T>& x) { return x.has_value() ? js(x.value()) : mj::V(); }
template <class Var, class... T> struct JsAlt;
template <class Var> struct JsAlt<Var> { static mj::V get(const Var&) { return mj::V(); } };
template <class Var, class T0, class... T> struct JsAlt<Var, T0, T...> {
  static mj::V one(const Var& v, std::false_type) { return js(v.template get<T0>()); }
  static mj::V one(const Var&, std::true_type) { return mj::V(); }
  static mj::V get(const Var& v) { return v.template is<T0>() ? one(v, std::is_same<T0, std::nullptr_t>()) : JsAlt<Var, T...>::get(v); }
};
template <class T0, class... T> mj::V js(const dap::variant<T0, T...>& x) { return JsAlt<dap::variant<T0, T...>, T0, T...>::get(x); }
inline mj::V js(const dap::any& v) {
  if (v.is<std::nullptr_t>()) return mj::V();
  if (v.is<dap::boolean>()) return js(v.get<dap::boolean>());
  if (v.is<dap::integer>()) return js(v.get<dap::integer>());
  if (v.is<dap::number>()) return js(v.get<dap::number>());
  if (v.is<dap::string>()) return js(v.get<dap::string>());
  if (v.is<dap::object>()) return js(v.get<dap::object>());
  return js(v.get<dap::array<dap::any>>());
}
template <class T> bool unset(const T&) { return false; }
template <class T> bool unset(const dap::optional<T>& o) { return !o.has_value(); }
template <class S> typename std::enable_if<Struct<S>::is, mj::V>::type js(const S& s) {
  auto v = mk(mj::V::Obj);
  visit(const_cast<S&>(s), [&](const char* n, auto& m) {
    if (!unset(m)) v.o.emplace_back(n, js(m));
  });
  return v;
}

// ---- texts
inline std::string textString(const std::string& s, Rng& r) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = (unsigned char)s[i];
    if (c < 0x20) {
      const char* e = c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : nullptr;
      o += e && r(2) ? e : fmt("\\u%04x", c);
    } else if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '/' && r(2)) o += "\\/";
    else if (c < 0x80 && r(20) == 0) o += fmt(r(2) ? "\\u%04X" : "\\u%04x", c);
    else if (c >= 0xf0 && r(3) == 0) {
      uint32_t u = (c & 7u) << 18 | (s[i + 1] & 63u) << 12 | (s[i + 2] & 63u) << 6 | (s[i + 3] & 63u);
      u -= 0x10000;
      o += fmt("\\u%04x\\u%04X", 0xd800 + (u >> 10), 0xdc00 + (u & 1023));
      i += 3;
    } else o += char(c);
  }
  return o + "\"";
}
inline std::string sp(Rng& r) { static const char* w[] = {"", "", "", "", " ", "\n", "\t", "\r\n  "}; return w[r(8)]; }
inline std::string text(const mj::V& v, Rng& r) {
  switch (v.k) {
    case mj::V::Null: return "null";
    case mj::V::Bool: return v.b ? "true" : "false";
    case mj::V::Int: case mj::V::Num: return v.s;
    case mj::V::Str: return textString(v.s, r);
    case mj::V::Arr: {
      std::string o = "[" + sp(r);
      for (size_t i = 0; i < v.a.size(); i++) o += (i ? "," + sp(r) : "") + text(v.a[i], r) + sp(r);
      return o + "]";
    }
    case mj::V::Obj: {
      std::string o = "{" + sp(r);
      for (size_t i = 0; i < v.o.size(); i++) o += (i ? "," + sp(r) : "") + textString(v.o[i].first, r) + sp(r) + ":" + sp(r) + text(v.o[i].second, r) + sp(r);
      return o + "}";
    }
  }
  return "";
}

static const char* const kPool[] = {
    "null", "true", "false", "0", "1", "-1", "7", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
    "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616",
    "-9223372036854775809", "123456789012345678901234567890", "1e2", "1E+2", "1.0", "1.5", "-0.5", "100.0", "1e308", "1e-320", "0.1", "5e-324", "123.456e-2", "2147483648.0", "9223372036854775808.0",
    "\"\"", "\"a\"", "\"1\"", "\"true\"", "\"null\"", "\"\\u0000\"", "\"a\\u0000b\"", "\"\xc3\xa9\"", "\"\\ud83d\\ude00\"", "[]", "[1]", "[1,2,3]", "[\"a\"]", "[\"a\",\"b\"]",
    "[null]", "[true]", "[1.5]", "[1,null,2]", "[[]]", "[[1]]", "[[1],[]]", "[{}]", "[1,\"a\"]", "[\"a\",1]", "[{\"i\":1}]", "{}", "{\"i\":1}", "{\"a\":{\"b\":null}}", "{\"\":1}", "{\"a\\u0000b\":1}",
    "{\"i\":1,\"s\":\"x\",\"b\":true,\"n\":1.5}", "{\"n\":2,\"b\":false,\"s\":\"\",\"i\":-3,\"extra\":\"e\"}", "{\"i\":1,\"s\":\"x\",\"b\":true}", "{\"i\":1.5,\"s\":\"x\",\"b\":true,\"n\":1}",
    "{\"i\":\"1\",\"s\":2,\"b\":0,\"n\":\"n\",\"a\":null,\"o\":[],\"l\":{}}", "{\"l\":[\"a\",1]}", "{\"o\":{\"x\":[1,{\"y\":2}]},\"a\":[]}", "[[[[[[[[1]]]]]]]]"};
static const int kPoolN = sizeof kPool / sizeof *kPool;

inline mj::V poolValue(Rng& r) {
  mj::V v;
  std::string t = kPool[r(kPoolN)];
  mj::parse(t, v);
  return v;
}
// changes one node of v
inline void mutate(mj::V& v, Rng& r) {
  if ((v.k == mj::V::Arr && !v.a.empty() && r(4)) ) { mutate(v.a[r(v.a.size())], r); return; }
  if (v.k == mj::V::Arr && r(2)) { v.a.push_back(poolValue(r)); return; }
  if (v.k == mj::V::Obj && !v.o.empty() && r(6)) {
    size_t i = r(v.o.size());
    switch (r(4)) {
      case 0: v.o.erase(v.o.begin() + long(i)); return;
      case 1: v.o[i].second = poolValue(r); return;
      default: mutate(v.o[i].second, r); return;
    }
  }
  if (v.k == mj::V::Obj && r(2)) {
    std::string n = r(2) ? std::string(1, char('a' + r(20))) : genString(r);
    if (!v.get(n)) v.o.emplace_back(n, poolValue(r));
    return;
  }
  v = poolValue(r);
}

}  // namespace hj
