// Message contents of every kind sent to a real session (one JSON library,
// chosen at compile time). After each content a marker event is sent; what the
// session did in between is the reaction to the content.
//   env   : single-threaded use of JSON envelopes, valid, mutated and broken
//   bytes : arbitrary byte-level damage and extreme texts
#include "hjson.h"
#include "dap/session.h"
#include "dap/protocol.h"

#include <condition_variable>
#include <map>
#include <mutex>
#include <regex>

namespace dap {
struct EPlain { integer i; string s; boolean b; number n; };
struct EOptsS { optional<integer> i; optional<string> s; optional<any> a; optional<object> o; optional<array<string>> l; optional<EPlain> p; };
DAP_STRUCT_TYPEINFO(EPlain, "", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(b, "b"), DAP_FIELD(n, "n"));
DAP_STRUCT_TYPEINFO(EOptsS, "", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(a, "a"), DAP_FIELD(o, "o"), DAP_FIELD(l, "l"), DAP_FIELD(p, "p"));
struct ERes : Response { integer i; optional<string> s; optional<EPlain> p; };
DAP_STRUCT_TYPEINFO(ERes, "", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(p, "p"));
struct Ask : Request { using Response = ERes; integer i; };
DAP_STRUCT_TYPEINFO(Ask, "ask", DAP_FIELD(i, "i"));
struct Mark : Event { integer n; };
DAP_STRUCT_TYPEINFO(Mark, "mark", DAP_FIELD(n, "n"));
#define PLAIN integer i; string s; boolean b; number n;
#define OPTS optional<integer> i; optional<string> s; optional<any> a; optional<object> o; optional<array<string>> l; optional<EPlain> p;
#define DEEP array<EPlain> ps; optional<EOptsS> q; variant<integer, string> v; object o; any a;
#define PLAIN_F DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(b, "b"), DAP_FIELD(n, "n")
#define OPTS_F DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(a, "a"), DAP_FIELD(o, "o"), DAP_FIELD(l, "l"), DAP_FIELD(p, "p")
#define DEEP_F DAP_FIELD(ps, "ps"), DAP_FIELD(q, "q"), DAP_FIELD(v, "v"), DAP_FIELD(o, "o"), DAP_FIELD(a, "a")
struct RPlain : Request { using Response = ERes; PLAIN };
struct ROpts : Request { using Response = ERes; OPTS };
struct REmpty : Request { using Response = ERes; };
struct RDeep : Request { using Response = ERes; DEEP };
struct ROdd : Request { using Response = ERes; OPTS };
struct VPlain : Event { PLAIN };
struct VOpts : Event { OPTS };
struct VEmpty : Event {};
struct VDeep : Event { DEEP };
DAP_STRUCT_TYPEINFO(RPlain, "plain", PLAIN_F);
DAP_STRUCT_TYPEINFO(ROpts, "opts", OPTS_F);
DAP_STRUCT_TYPEINFO(REmpty, "empty");
DAP_STRUCT_TYPEINFO(RDeep, "deep", DEEP_F);
DAP_STRUCT_TYPEINFO(ROdd, "od\"d \\\xc3\xa9", OPTS_F);
DAP_STRUCT_TYPEINFO(VPlain, "evplain", PLAIN_F);
DAP_STRUCT_TYPEINFO(VOpts, "evopts", OPTS_F);
DAP_STRUCT_TYPEINFO(VEmpty, "evempty");
DAP_STRUCT_TYPEINFO(VDeep, "evdeep", DEEP_F);
}  // namespace dap

namespace hj {
#define HJ(T) template <> struct Struct<dap::T> { static constexpr bool is = true; };
#define V_PLAIN(T) HJ(T) template <class F> void visit(dap::T& s, F f) { f("i", s.i); f("s", s.s); f("b", s.b); f("n", s.n); }
#define V_OPTS(T) HJ(T) template <class F> void visit(dap::T& s, F f) { f("i", s.i); f("s", s.s); f("a", s.a); f("o", s.o); f("l", s.l); f("p", s.p); }
#define V_DEEP(T) HJ(T) template <class F> void visit(dap::T& s, F f) { f("ps", s.ps); f("q", s.q); f("v", s.v); f("o", s.o); f("a", s.a); }
#define V_EMPTY(T) HJ(T) template <class F> void visit(dap::T& s, F f) {}
V_PLAIN(EPlain) V_PLAIN(RPlain) V_PLAIN(VPlain) V_OPTS(EOptsS) V_OPTS(ROpts) V_OPTS(ROdd) V_OPTS(VOpts) V_DEEP(RDeep) V_DEEP(VDeep) V_EMPTY(REmpty) V_EMPTY(VEmpty)
HJ(ERes) template <class F> void visit(dap::ERes& s, F f) { f("i", s.i); f("s", s.s); f("p", s.p); }
}  // namespace hj
using namespace hj;

struct World {
  std::mutex m;
  std::condition_variable cv;
  std::string in;
  size_t pos = 0;
  bool inOpen = true, outOpen = true;
  std::string out;
  size_t outPos = 0;
  int errs = 0;
  long marked = -1;
  std::vector<std::string> calls;
};
struct In : dap::Reader {
  World* w;
  size_t chunk;
  bool isOpen() override { std::unique_lock<std::mutex> l(w->m); return w->inOpen; }
  void close() override { std::unique_lock<std::mutex> l(w->m); w->inOpen = false; w->cv.notify_all(); }
  size_t read(void* b, size_t n) override {
    std::unique_lock<std::mutex> l(w->m);
    w->cv.wait(l, [&] { return !w->inOpen || w->pos < w->in.size(); });
    if (!w->inOpen) return 0;
    n = std::min(std::min(n, chunk), w->in.size() - w->pos);
    memcpy(b, w->in.data() + w->pos, n);
    w->pos += n;
    return n;
  }
};
struct Out : dap::Writer {
  World* w;
  bool isOpen() override { std::unique_lock<std::mutex> l(w->m); return w->outOpen; }
  void close() override { std::unique_lock<std::mutex> l(w->m); w->outOpen = false; }
  bool write(const void* b, size_t n) override { std::unique_lock<std::mutex> l(w->m); w->out.append(static_cast<const char*>(b), n); return w->outOpen; }
};

static mj::V str(const std::string& s) { auto v = mk(mj::V::Str); v.s = s; return v; }
static mj::V num(int64_t i) { return js(dap::integer(i)); }
static const char* kReq[] = {"plain", "opts", "empty", "deep", "od\"d \\\xc3\xa9"};
static const char* kEv[] = {"evplain", "evopts", "evempty", "evdeep"};

static mj::V payload(int kind, Rng& r) {
  switch (kind) {
    case 0: { dap::EPlain p{}; gen(p, r, 3); return js(p); }
    case 1: case 4: { dap::EOptsS p{}; gen(p, r, 3); return js(p); }
    case 3: { dap::RDeep p{}; gen(p, r, 4); return js(p); }
    default: return mk(mj::V::Obj);
  }
}
// A well-formed message; nreq: this side's requests have sequence numbers 1..nreq
static mj::V envelope(Rng& r, int nreq) {
  mj::V j = mk(mj::V::Obj);
  auto put = [&](const std::string& n, const mj::V& v) { j.o.insert(j.o.begin() + long(r(j.o.size() + 1)), {n, v}); };
  put("seq", num(r(4) ? int64_t(r(100)) : genInt(r)));
  switch (r(5)) {
    case 0: case 1: {
      int k = int(r(5));
      put("type", str("request"));
      put("command", str(kReq[k]));
      put("arguments", payload(k, r));
      if ((k == 1 || k == 4 || k == 2) && r(4) == 0) for (size_t i = 0; i < j.o.size(); i++) if (j.o[i].first == "arguments") { j.o.erase(j.o.begin() + long(i)); break; }
      break;
    }
    case 2: case 3: {
      int k = int(r(4));
      put("type", str("event"));
      put("event", str(kEv[k]));
      put("body", payload(k, r));
      if ((k == 1 || k == 2) && r(4) == 0) for (size_t i = 0; i < j.o.size(); i++) if (j.o[i].first == "body") { j.o.erase(j.o.begin() + long(i)); break; }
      break;
    }
    default: {
      put("type", str("response"));
      put("request_seq", num(int64_t(r(uint64_t(nreq) + 2))));
      bool ok = r(3) != 0;
      put("success", js(dap::boolean(ok)));
      if (r(6)) put("command", str("ask"));
      if (ok) { if (r(5)) { dap::ERes e{}; gen(e, r, 3); put("body", js(e)); } }
      else if (r(4)) put("message", str(genString(r)));
      // members that belong to the other outcome
      if (ok && r(6) == 0) put("message", str(genString(r)));
      if (!ok && r(6) == 0) { dap::ERes e{}; gen(e, r, 3); put("body", js(e)); }
    }
  }
  if (r(4) == 0) put("extra", poolValue(r));
  // members that belong to other kinds of message
  if (r(6) == 0) {
    static const char* others[] = {"command", "event", "arguments", "body", "request_seq", "success", "message"};
    std::string n = others[r(7)];
    auto t = j.get("type");
    bool own = t && (t->s == "request" ? n == "command" || n == "arguments" : t->s == "event" ? n == "event" || n == "body" : n != "event" && n != "arguments");
    if (!own) put(n, n == "command" ? str(kReq[r(5)]) : n == "event" ? str(kEv[r(4)]) : n == "success" ? js(dap::boolean(r(2))) : n == "message" ? str(genString(r)) : poolValue(r));
  }
  return j;
}
// changes that concern the envelope
static void spoil(mj::V& j, Rng& r) {
  static const char* names[] = {"seq", "type", "command", "event", "arguments", "body", "request_seq", "success", "message"};
  if (r(12) == 0) { j = poolValue(r); return; }
  if (j.k != mj::V::Obj || j.o.empty()) { mutate(j, r); return; }
  size_t i = r(j.o.size());
  switch (r(7)) {
    case 0: j.o.erase(j.o.begin() + long(i)); break;
    case 1: j.o[i].second = poolValue(r); break;
    case 2: { std::string n = names[r(9)]; if (!j.get(n)) j.o[i].first = n; break; }
    case 3: {
      static const char* types[] = {"request", "event", "response", "Request", "", "reque", "requests", "event\n", "plain", "evplain", "ask",
                                    "%s%s%s%s%s%s", "%n%n%n%n", "%d 100%", "%1000000d", "Plain", "plai", "plain ", "deep/opts", "od\"d \\"};
      for (auto& p : j.o) if ((r(2) && p.first == "type") || p.first == "command" || p.first == "event")
        p.second = str(r(6) == 0 ? genString(r) : r(12) == 0 ? std::string(1 + r(5000), 'x') : types[r(20)]);
      break;
    }
    case 4: { std::string n = names[r(9)]; if (!j.get(n)) j.o.emplace_back(n, poolValue(r)); break; }
    case 5: for (auto& p : j.o) if (p.first == "arguments" || p.first == "body") mutate(p.second, r); break;
    default: mutate(j, r);
  }
}
static bool dupKeys(const mj::V& v) {
  if (v.k == mj::V::Arr) { for (auto& e : v.a) if (dupKeys(e)) return true; }
  if (v.k == mj::V::Obj) for (auto& p : v.o) if (v.count(p.first) > 1 || dupKeys(p.second)) return true;
  return false;
}
static bool infinite(const mj::V& v) {
  if (v.k == mj::V::Num || v.k == mj::V::Int) return !(v.d - v.d == 0);
  for (auto& e : v.a) if (infinite(e)) return true;
  for (auto& p : v.o) if (infinite(p.second)) return true;
  return false;
}
static bool isMark(const std::string& t) { return t.find("mark") != std::string::npos; }

// A text that is certainly not JSON, from the text of an object
static std::string broken(std::string t, Rng& r) {
  while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
  // positions of structural characters outside strings
  std::vector<size_t> colon, comma, close;
  bool in = false;
  for (size_t i = 0; i < t.size(); i++) {
    if (in) { if (t[i] == '\\') i++; else if (t[i] == '"') in = false; continue; }
    if (t[i] == '"') in = true;
    else if (t[i] == ':') colon.push_back(i);
    else if (t[i] == ',') comma.push_back(i);
    else if (t[i] == '}' || t[i] == ']') close.push_back(i);
  }
  switch (r(14)) {
    case 0: return t.substr(0, r(t.size()) + (t.size() > 1 ? 0 : 0));
    case 1: { static const char* x[] = {"x", "{}", "]", "}", ",", "null", "\"\"", "1", "\x01", "//", "/* c */", "\\"}; return t + (r(2) ? " " : "") + x[r(12)]; }
    case 2: if (!colon.empty()) { size_t p = colon[r(colon.size())]; return t.substr(0, p) + " " + t.substr(p + 1); } return t + "]";
    case 3: if (!colon.empty()) { t.insert(colon[r(colon.size())], ":"); return t; } return t + "]";
    case 4: if (!comma.empty()) { t.insert(comma[r(comma.size())], ","); return t; } return t + "]";
    case 5: if (!comma.empty()) { size_t p = comma[r(comma.size())]; return t.substr(0, p) + " " + t.substr(p + 1); } return "," + t;
    case 6: t.insert(close[r(close.size())], ","); return t;
    case 7: { size_t p = close[r(close.size())]; t.erase(p, 1); return t; }
    case 8: { size_t p = close[r(close.size())]; t[p] = t[p] == '}' ? ']' : '}'; return t; }
    case 9: if (!comma.empty()) { t.insert(comma[r(comma.size())], r(2) ? "/* c */" : "// c\n"); return t; } return "/**/" + t;
    case 10: { static const char* x[] = {"x", "[", "{", "1 ", "]", "\"", "'", "--", "<?xml?>", "HTTP/1.1 200 OK\r\n", "%s"}; return x[r(11)] + t; }
    case 11: { static const char* x[] = {" ", "\n", "\t ", "{", "[", "\"", "}", "tru", "nul", "-", "{\"a\"", "{\"a\":", "[1,", "\"abc", "\"a\\\"", "undefined", "NaN", "hello world", "{a:1}", "{'a':1}", "{\"a\":tru}", "{\"a\":nulll}", "{\"a\":\"\\q\"}", "{\"a\":\"\\u12\"}"}; return x[r(24)]; }
    case 12: { // a literal in place of the opening
      size_t p = colon.empty() ? 0 : colon[r(colon.size())] + 1;
      static const char* x[] = {" truefalse ", " @ ", " 1 2 ", " \"a\" \"b\" ", " {]} ", " [}] ", " nil "};
      return t.substr(0, p) + x[r(7)] + t.substr(p); }
    default: return t.substr(0, t.size() - 1);
  }
}

static void scenario(uint64_t seed, bool bytes) {
  Rng r(seed);
  World w;
  auto session = dap::Session::create();
  auto call = [&](const char* kind, const std::string& n, const std::string& v) {
    std::unique_lock<std::mutex> l(w.m);
    w.calls.push_back(std::string("{\"kind\":\"") + kind + "\",\"n\":\"" + pct(n) + "\",\"v\":" + v + "}");
  };
  session->onError([&](const char* m) { std::unique_lock<std::mutex> l(w.m); w.errs++; (void)strlen(m); });
#define REQ(T, N) session->registerHandler([&](const dap::T& q) { call("request", N, val(q)); return dap::ERes(); })
#define EVT(T, N) session->registerHandler([&](const dap::T& q) { call("event", N, val(q)); })
  REQ(RPlain, "plain"); REQ(ROpts, "opts"); REQ(REmpty, "empty"); REQ(RDeep, "deep"); REQ(ROdd, kReq[4]);
  EVT(VPlain, "evplain"); EVT(VOpts, "evopts"); EVT(VEmpty, "evempty"); EVT(VDeep, "evdeep");
  session->registerHandler([&](const dap::Mark& e) { std::unique_lock<std::mutex> l(w.m); w.marked = long(int64_t(e.n)); w.cv.notify_all(); });
  auto in = std::make_shared<In>();
  in->w = &w;
  in->chunk = r(3) == 0 ? 1 + r(40) : 1 << 20;
  auto out = std::make_shared<Out>();
  out->w = &w;
  session->bind(in, out);
  int nreq = int(r(4));
  std::map<int, dap::future<dap::ResponseOrError<dap::ERes>>> pending;
  for (int i = 1; i <= nreq; i++) {
    dap::Ask a;
    a.i = i;
    pending.emplace(i, session->send(a));
    hseq::ev(fmt("{\"e\":\"sent\",\"q\":\"%d\"}", i));
  }
  // seq of the own requests, and replies, from what is written
  auto frames = [&] {
    std::unique_lock<std::mutex> l(w.m);
    std::vector<mj::V> f;
    while (true) {
      size_t h = w.out.find("\r\n\r\n", w.outPos);
      if (h == std::string::npos) return f;
      size_t n = size_t(atol(w.out.c_str() + w.outPos + strlen("Content-Length: ")));
      if (w.out.size() < h + 4 + n) return f;
      mj::V j;
      mj::parse(w.out.substr(h + 4, n), j);
      f.push_back(j);
      w.outPos = h + 4 + n;
    }
  };
  frames();
  long n = 1 + long(r(5));
  for (long k = 0; k < n; k++) {
    mj::V j = envelope(r, nreq);
    std::string t, cls = "tree";
    if (!bytes) {
      for (int c = int(r(3)); c > 0; c--) spoil(j, r);
      t = sp(r) + text(j, r) + sp(r);
      if (r(3) == 0) {
        Rng r2(r.next());
        if (j.k != mj::V::Obj) j = envelope(r, nreq);
        t = broken(text(j, r2), r);
        cls = "broken";
        mj::V x;
        if (mj::parse(t, x)) { j = x; cls = "tree"; }
        // JsonCpp accepts comments in some places even when told not to
        // and a comma after a member whose name is empty
        else if (std::regex_search(t, std::regex("\"\"[ \t\r\n]*:"))) cls = "odd";
        else if (t.find("/*") != std::string::npos || t.find("//") != std::string::npos) cls = "odd";
      }
    } else {
      t = text(j, r);
      switch (r(5)) {
        case 0: for (int c = 1 + int(r(4)); c > 0; c--) t[r(t.size())] = char(r(256)); break;
        case 1: for (int c = 1 + int(r(4)); c > 0; c--) t.insert(r(t.size() + 1), 1, char(r(3) ? "{}[]\",:\\0-eE.+ tfn/*'\x80\xff\x00"[r(25)] : int(r(256)))); break;
        case 2: { // deep nesting somewhere
          static const long depths[] = {20, 60, 400, 999, 1000, 1001, 1500, 20000, 200000};
          long d = depths[r(9)];
          bool obj = r(3) == 0;
          std::string deep;
          for (long i = 0; i < d; i++) deep += obj ? "{\"a\":" : "[";
          if (r(3)) { deep += "1"; for (long i = 0; i < d; i++) deep += obj ? "}" : "]"; }
          switch (r(3)) {
            case 0: t = deep; break;
            case 1: t = "{\"seq\":1,\"type\":\"event\",\"event\":\"evopts\",\"body\":{\"a\":" + deep + "}}"; break;
            default: t = "{\"type\":\"request\",\"seq\":7,\"command\":\"opts\",\"arguments\":{\"a\":" + deep + "}}";
          }
          break; }
        case 3: { // odd numbers, strings and markers in a value
          static const char* odd[] = {"1e400", "-1e400", "01", "1.", ".5", "+1", "0x10", "1e", "--1", "Infinity", "-Infinity", "\"\\ud800\"", "\"\\udc00x\"", "\"\x80\"", "\"\xff\xfe\"", "\"\xed\xa0\x80\"",
                                      "\"a\nb\"", "\"\t\"", "\"\\x41\"", "{\"a\":1,\"a\":2}", "\"\\u0000\"", "99999999999999999999999999999999999999999999", "-0", "-0.0", "1E+30", "0e0", "\"\xf4\x90\x80\x80\""};
          std::string v = odd[r(27)];
          if (r(5) == 0) v = std::string(1 + r(3000), "9-e[\"{1"[r(7)]);
          t = r(2) ? "{\"seq\":1,\"type\":\"event\",\"event\":\"evopts\",\"body\":{\"a\":" + v + ",\"i\":" + v + "}}" : "{\"seq\":" + v + ",\"type\":\"event\",\"event\":\"evempty\"}";
          if (r(6) == 0) t = "\xef\xbb\xbf" + t;
          break; }
        default: { t.clear(); for (int c = 1 + int(r(40)); c > 0; c--) t += char(r(4) ? "{}[]\",:\\0-eE.+ tfn/*'ruasl"[r(26)] : int(r(256))); }
      }
      mj::V x;
      cls = "odd";
      size_t depth = 0, most = 0;
      for (char c : t) { depth += c == '[' || c == '{'; depth -= (c == ']' || c == '}') && depth; most = std::max(most, depth); }
      if (most <= 60 && mj::parse(t, x) && !dupKeys(x) && !infinite(x)) { j = x; cls = "tree"; }
    }
    if (isMark(t)) continue;
    std::string content = t.empty() ? " " : t;
    {
      std::unique_lock<std::mutex> l(w.m);
      w.errs = 0;
      w.calls.clear();
      std::string mark = fmt("{\"seq\":1,\"type\":\"event\",\"event\":\"mark\",\"body\":{\"n\":%ld}}", k);
      w.in += fmt("Content-Length: %zu\r\n\r\n", content.size()) + content + fmt("Content-Length: %zu\r\n\r\n", mark.size()) + mark;
      w.cv.notify_all();
      if (!w.cv.wait_for(l, std::chrono::seconds(8), [&] { return w.marked == k; })) {
        hseq::ev("{\"e\":\"Stuck\",\"x\":\"" + hex(content.substr(0, 400)) + "\"}");
        break;
      }
    }
    std::string e = "{\"e\":\"in\",\"cls\":\"" + cls + "\"" + (cls == "tree" ? "" : ",\"x\":\"" + hex(content.substr(0, 400)) + "\"") + ",\"j\":" + (cls == "tree" ? tree(j) : "{\"k\":\"none\"}") + fmt(",\"errs\":%d,\"calls\":[", w.errs);
    for (size_t i = 0; i < w.calls.size(); i++) e += (i ? "," : "") + (cls == "odd" ? std::string("1") : w.calls[i]);
    e += "],\"res\":[";
    bool first = true;
    for (auto it = pending.begin(); it != pending.end();) {
      if (it->second.wait_for(std::chrono::seconds(0)) != dap::future_status::ready) { ++it; continue; }
      auto v = it->second.get();
      e += (first ? "" : ",") + fmt("{\"q\":\"%d\",\"ok\":%s,\"v\":", it->first, v.error ? "false" : "true") + (v.error ? "{\"k\":\"none\"}" : val(v.response)) + ",\"m\":\"" + pct(v.error.message) + "\"}";
      first = false;
      it = pending.erase(it);
    }
    e += "],\"replies\":[";
    first = true;
    for (auto& f : frames()) {
      auto* q = f.get("request_seq");
      e += (first ? "" : ",") + fmt("\"%s\"", q && q->k == mj::V::Int ? q->s.c_str() : "?");
      first = false;
    }
    hseq::ev(e + "]}");
  }
  session.reset();
  hseq::ev("{\"e\":\"end\"}");
}

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "";
  return hseq::run(argc, argv, [&](long, uint64_t seed) { scenario(seed, what == "bytes"); });
}
