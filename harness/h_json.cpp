// Decoding and encoding with one JSON library (chosen at compile time).
//   dec   : texts decoded as every type of the family      -> {"e":"dec"}
//   enc   : values encoded, parsed independently, decoded   -> {"e":"enc"}, {"e":"back"}
//   reuse : several values encoded one after another with one serializer
//   cross : texts read from --in (hex, from another library) decoded as type
#include "hjson.h"
#include "json_serializer.h"

#include <fstream>
#include <map>
#include <sstream>

namespace dap {
struct P { integer i; string s; boolean b; number n; };
struct Q { optional<integer> i; optional<string> s; optional<boolean> b; optional<number> n; optional<any> a; optional<object> o; optional<array<string>> l; };
struct R { P p; optional<Q> q; array<P> ps; optional<array<Q>> qs; variant<integer, string> v; object o; any a; };
struct D : P { string extra; optional<number> on; };
struct D2 : D { optional<array<integer>> more; boolean last; };
// the base is not at the start of the structure
struct Other { uint64_t noise[3] = {7, 7, 7}; virtual ~Other() = default; };
struct M : Other, P { optional<string> x; };
struct M2 : D { virtual ~M2() = default; integer y; };
using AnyVar = variant<array<any>, boolean, integer, null, number, object, string>;
struct W { optional<P> p; array<D> ds; optional<D2> d; array<array<number>> m; optional<AnyVar> v; optional<integer> odd; };
DAP_STRUCT_TYPEINFO(P, "p", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(b, "b"), DAP_FIELD(n, "n"));
DAP_STRUCT_TYPEINFO(Q, "q", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(b, "b"), DAP_FIELD(n, "n"), DAP_FIELD(a, "a"), DAP_FIELD(o, "o"), DAP_FIELD(l, "l"));
DAP_STRUCT_TYPEINFO(R, "r", DAP_FIELD(p, "p"), DAP_FIELD(q, "q"), DAP_FIELD(ps, "ps"), DAP_FIELD(qs, "qs"), DAP_FIELD(v, "v"), DAP_FIELD(o, "o"), DAP_FIELD(a, "a"));
DAP_STRUCT_TYPEINFO_EXT(D, P, "d", DAP_FIELD(extra, "extra"), DAP_FIELD(on, "on"));
DAP_STRUCT_TYPEINFO_EXT(D2, D, "d2", DAP_FIELD(more, "more"), DAP_FIELD(last, "last"));
DAP_STRUCT_TYPEINFO_EXT(M, P, "m", DAP_FIELD(x, "x"));
DAP_STRUCT_TYPEINFO_EXT(M2, D, "m2", DAP_FIELD(y, "y"));
DAP_STRUCT_TYPEINFO(W, "w", DAP_FIELD(p, "p"), DAP_FIELD(ds, "ds"), DAP_FIELD(d, "d"), DAP_FIELD(m, "m"), DAP_FIELD(v, "v"), DAP_FIELD(odd, "a \"\\ b"));
}  // namespace dap

namespace hj {
template <class F> void visit(dap::P& s, F f) { f("i", s.i); f("s", s.s); f("b", s.b); f("n", s.n); }
template <class F> void visit(dap::Q& s, F f) { f("i", s.i); f("s", s.s); f("b", s.b); f("n", s.n); f("a", s.a); f("o", s.o); f("l", s.l); }
template <class F> void visit(dap::R& s, F f) { f("p", s.p); f("q", s.q); f("ps", s.ps); f("qs", s.qs); f("v", s.v); f("o", s.o); f("a", s.a); }
template <class F> void visit(dap::D& s, F f) { visit(static_cast<dap::P&>(s), f); f("extra", s.extra); f("on", s.on); }
template <class F> void visit(dap::D2& s, F f) { visit(static_cast<dap::D&>(s), f); f("more", s.more); f("last", s.last); }
template <class F> void visit(dap::M& s, F f) { visit(static_cast<dap::P&>(s), f); f("x", s.x); }
template <class F> void visit(dap::M2& s, F f) { visit(static_cast<dap::D&>(s), f); f("y", s.y); }
template <class F> void visit(dap::W& s, F f) { f("p", s.p); f("ds", s.ds); f("d", s.d); f("m", s.m); f("v", s.v); f("a \"\\ b", s.odd); }
#define HJ_STRUCT(T) template <> struct Struct<dap::T> { static constexpr bool is = true; };
HJ_STRUCT(P) HJ_STRUCT(Q) HJ_STRUCT(R) HJ_STRUCT(D) HJ_STRUCT(D2) HJ_STRUCT(W) HJ_STRUCT(M) HJ_STRUCT(M2)
}  // namespace hj

using namespace hj;

struct Ops {
  std::string name;
  std::function<void(const std::string& text, const char* event)> dec;
  std::function<void(Rng&, dap::json::Serializer&, bool last)> enc;
  std::function<std::string(Rng&)> genText;
};
static std::vector<Ops> ops;

template <class T> void decode(const std::string& name, const std::string& text, const char* event, const std::string* expect) {
  T v{};
  bool ok;
  {
    dap::json::Deserializer d(text);
    ok = d.deserialize(&v);
  }
  std::string vt = ok ? val(v) : "{\"k\":\"none\"}";
  if (expect) {
    hseq::ev("{\"e\":\"back\",\"t\":\"" + name + "\",\"ok\":" + (ok ? "true" : "false") + ",\"v\":" + *expect + ",\"back\":" + vt + "}");
    return;
  }
  mj::V j;
  bool valid = mj::parse(text, j);
  if (!valid) { hseq::ev("{\"e\":\"badtext\",\"x\":\"" + hex(text) + "\"}"); return; }
  hseq::ev(fmt("{\"e\":\"%s\",\"t\":\"%s\",\"j\":", event, name.c_str()) + tree(j) + ",\"ok\":" + (ok ? "true" : "false") + ",\"v\":" + vt + "}");
}
template <class T> void add(const char* name, bool encodable = true) {
  Ops o;
  std::string n = name;
  o.name = n;
  o.dec = [n](const std::string& t, const char* e) { decode<T>(n, t, e, nullptr); };
  o.genText = [](Rng& r) {
    T v{};
    gen(v, r, 4);
    mj::V j = js(v);
    for (int k = int(r(3)); k > 0; k--) mutate(j, r);
    return sp(r) + text(j, r) + sp(r);
  };
  if (encodable) o.enc = [n](Rng& r, dap::json::Serializer& s, bool last) {
    T v{};
    gen(v, r, 4);
    bool ok = s.serialize(v);
    if (!last) return;
    std::string text = s.dump(), vt = val(v);
    mj::V j;
    bool valid = mj::parse(text, j);
    hseq::ev("{\"e\":\"enc\",\"t\":\"" + n + "\",\"ok\":" + (ok ? "true" : "false") + ",\"valid\":" + (valid ? "true" : "false") + ",\"x\":\"" + hex(text) +
             "\",\"j\":" + (valid ? tree(j) : "{\"k\":\"none\"}") + ",\"v\":" + vt + "}");
    decode<T>(n, text, "dec", &vt);
  };
  ops.push_back(o);
}

static std::string unhex(const std::string& h) {
  std::string o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += char(strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return o;
}

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "";
  using namespace dap;
  add<boolean>("B"); add<integer>("I"); add<number>("N"); add<string>("S"); add<object>("O"); add<any>("A");
  add<array<boolean>>("AB"); add<array<integer>>("AI"); add<array<number>>("AN"); add<array<string>>("AS"); add<array<any>>("AA");
  add<array<object>>("AO"); add<array<array<integer>>>("AAI"); add<array<optional<integer>>>("AOI"); add<array<P>>("AP"); add<array<variant<integer, string>>>("AV");
  add<optional<integer>>("OI", false); add<optional<string>>("OS", false); add<optional<boolean>>("OB", false); add<optional<number>>("ON", false); add<optional<any>>("OA", false);
  add<optional<object>>("OO", false); add<optional<array<integer>>>("OAI", false); add<optional<P>>("OP", false);
  add<variant<integer, string>>("V"); add<variant<boolean, array<string>, number>>("V2"); add<variant<string, null>>("V3"); add<variant<P, array<any>, string>>("V4");
  add<P>("P"); add<Q>("Q"); add<R>("R"); add<D>("D"); add<D2>("D2"); add<W>("W"); add<M>("M"); add<M2>("M2"); add<array<M2>>("AM");
  std::vector<std::pair<std::string, std::string>> in;
  if (what == "cross") {
    std::ifstream f(hseq::opt(argc, argv, "in", ""));
    std::string line;
    while (std::getline(f, line)) {
      size_t c = line.find(' ');
      in.push_back({line.substr(0, c), unhex(line.substr(c + 1))});
    }
  }
  long nt = long(ops.size());
  return hseq::run(argc, argv, [&](long idx, uint64_t seed) {
    Rng r(seed);
    if (what == "dec") {
      if (idx < kPoolN * nt) ops[size_t(idx % nt)].dec(kPool[idx / nt], "dec");
      else {
        auto& o = ops[r(nt)];
        std::string t = o.genText(r);
        o.dec(t, "dec");
        ops[r(nt)].dec(t, "dec");
      }
    } else if (what == "enc") {
      size_t k = size_t(idx % nt);
      while (!ops[k].enc) k = (k + 1) % size_t(nt);
      dap::json::Serializer s;
      ops[k].enc(r, s, true);
    } else if (what == "reuse") {
      dap::json::Serializer s;
      for (int n = 1 + int(r(3)); n >= 0; n--) {
        size_t k = n == 0 ? size_t(idx % nt) : r(2) ? size_t(idx % nt) : size_t(r(nt));
        while (!ops[k].enc) k = (k + 1) % size_t(nt);
        ops[k].enc(r, s, n == 0);
      }
    } else if (what == "cross") {
      if (size_t(idx) >= in.size()) return;
      for (auto& o : ops) if (o.name == in[size_t(idx)].first) o.dec(in[size_t(idx)].second, "dec");
    } else if (what == "badutf8") {
      // strings that are not UTF-8: whatever the text, no crash
      std::string s = genString(r);
      static const char* bad[] = {"\xff", "\xc3", "\xed\xa0\x80", "\xf8\x88\x80\x80\x80", "\x80", "\xe2\x82", "\xc0\x80"};
      s.insert(r(s.size() + 1), bad[r(7)]);
      dap::json::Serializer ser;
      if (r(2)) ser.serialize(dap::string(s));
      else { dap::object o; o[s] = dap::any(dap::string(s)); ser.serialize(o); }
      std::string t = ser.dump();
      { dap::json::Deserializer d(t); dap::any a; d.deserialize(&a); }
      hseq::ev("{\"e\":\"alive\"}");
    }
  });
}
