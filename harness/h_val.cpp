// Sequences of operations on any, optional and variant, each followed by an
// observation of all registers.
//   any : all sequences of two operations, then random ones
//   opt, var
#include "hseq.h"
#include "dap/any.h"
#include "dap/optional.h"
#include "dap/serialization.h"
#include "dap/typeof.h"
#include "dap/types.h"
#include "dap/variant.h"

#include <algorithm>
#include <memory>
#include <new>
#include <set>
#include <vector>

using hseq::fmt;
using hseq::Rng;

// ---- bookkeeping
static long gLive, gBad, gBlocks;
static bool gCount;
void* operator new[](size_t n) {
  if (gCount) gBlocks++;
  void* p = malloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete[](void* p) noexcept { if (p && gCount) gBlocks--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p && gCount) gBlocks--; free(p); }

// An object that knows whether it is alive.
template <int PAD, int ALIGN> struct alignas(ALIGN) Tracked {
  const void* self;
  dap::integer id;
  char pad[PAD];
  Tracked() : id(0) { born(); }
  explicit Tracked(int64_t i) : id(i) { born(); }
  Tracked(const Tracked& o) : id(o.id) { o.check(); born(); }
  Tracked& operator=(const Tracked& o) { o.check(); check(); id = o.id; return *this; }
  ~Tracked() { check(); self = nullptr; gLive--; }
  void born() {
    self = this;
    gLive++;
    memset(pad, int(id) & 127, PAD);
    if (reinterpret_cast<uintptr_t>(this) % ALIGN) gBad++;
  }
  void check() const { if (self != this) gBad++; }
};
struct Small : Tracked<1, 8> { using Tracked::Tracked; };
struct Big : Tracked<100, 8> { using Tracked::Tracked; };
struct Wide : Tracked<1, 32> { using Tracked::Tracked; };
struct Named : Tracked<1, 8> {
  using Tracked::Tracked;
  dap::string name;
  dap::string name2;
};
namespace dap {
#define HV_TI(T_, N_) DAP_STRUCT_TYPEINFO(T_, N_, DAP_FIELD(id, "id"))
struct XSmall : Small { using Small::Small; };
struct XBig : Big { using Big::Big; };
struct XWide : Wide { using Wide::Wide; };
struct XNamed : Named { using Named::Named; };
// every size around that of an any's own storage, without alignment
template <int N> struct Blob {
  dap::boolean b;
  unsigned char d[N - 1];
  Blob() : Blob(0) {}
  explicit Blob(int id) : b(id % 2 == 1) { for (auto& x : d) x = static_cast<unsigned char>(id); }
  bool whole() const { for (auto x : d) if (x != d[0]) return false; return bool(b) == (d[0] % 2 == 1); }
};
#define HV_BLOBS(F_) F_(2) F_(30) F_(31) F_(32) F_(33) F_(34) F_(36) F_(38) F_(39) F_(40) F_(41) F_(48) F_(64) F_(65)
#define HV_BLOB(N_) using Blob##N_ = Blob<N_>; DAP_STRUCT_TYPEINFO(Blob##N_, "blob" #N_, DAP_FIELD(b, "b"));
HV_BLOBS(HV_BLOB)
HV_TI(XSmall, "small");
HV_TI(XBig, "big");
HV_TI(XWide, "wide");
DAP_STRUCT_TYPEINFO(XNamed, "named", DAP_FIELD(id, "id"), DAP_FIELD(name, "name"));
}  // namespace dap

using HvVar = dap::variant<dap::integer, dap::string, dap::Blob<40>>;
static std::string q(const std::string& t, const std::string& s) { return "{\"t\":\"" + t + "\",\"s\":\"" + s + "\"}"; }
static std::string obs(const dap::any& a) {
  int kinds = 0;
  std::string o;
  if (a.is<std::nullptr_t>()) { kinds++; o = "{\"t\":\"null\"}"; }
  if (a.is<dap::boolean>()) { kinds++; o = q("bool", a.get<dap::boolean>() ? "1" : "0"); }
  if (a.is<dap::integer>()) { kinds++; o = q("int", fmt("%lld", (long long)int64_t(a.get<dap::integer>()))); }
  if (a.is<dap::number>()) { kinds++; o = q("num", fmt("%g", double(a.get<dap::number>()))); }
  if (a.is<dap::string>()) { kinds++; o = q("str", a.get<dap::string>()); }
#define HV_T(X_, N_) if (a.is<dap::X_>()) { kinds++; a.get<dap::X_>().check(); o = q(N_, fmt("%lld", (long long)int64_t(a.get<dap::X_>().id))); }
  HV_T(XSmall, "small") HV_T(XBig, "big") HV_T(XWide, "wide")
  if (a.is<dap::XNamed>()) { kinds++; a.get<dap::XNamed>().check(); o = q("named", a.get<dap::XNamed>().name); }
#define HV_B(N_) if (a.is<dap::Blob<N_>>()) { kinds++; auto& v = a.get<dap::Blob<N_>>(); if (!v.whole()) gBad++; o = q("blob" #N_, fmt("%d", int(v.d[0]))); }
  HV_BLOBS(HV_B)
  if (a.is<dap::array<dap::integer>>()) { kinds++; o = ""; for (auto x : a.get<dap::array<dap::integer>>()) o += fmt("%d.", int(int64_t(x))); o = q("ints", o); }
  if (a.is<dap::array<dap::string>>()) { kinds++; o = ""; for (auto& x : a.get<dap::array<dap::string>>()) o += x + "."; o = q("strs", o); }
  if (a.is<dap::optional<dap::string>>()) { kinds++; auto& v = a.get<dap::optional<dap::string>>(); o = q("opt", v ? *v : dap::string("-")); }
  if (a.is<HvVar>()) {
    kinds++;
    auto& v = a.get<HvVar>();
    o = q("var", v.is<dap::string>() ? "s" + v.get<dap::string>() : v.is<dap::integer>() ? fmt("i%d", int(int64_t(v.get<dap::integer>()))) : fmt("b%d", int(v.get<dap::Blob<40>>().d[0])));
    if (v.is<dap::Blob<40>>() && !v.get<dap::Blob<40>>().whole()) gBad++;
  }
  if (a.is<dap::object>()) {
    kinds++;
    auto& ob = a.get<dap::object>();
    std::set<std::string> keys;
    for (auto& p : ob) keys.insert(p.first);
    o = "{\"t\":\"obj\",\"o\":[";
    bool first = true;
    for (auto& k : keys) { o += (first ? "" : ",") + ("{\"n\":\"" + k + "\",\"v\":") + obs(ob[k]) + "}"; first = false; }
    o += "]}";
  }
  if (a.is<dap::array<dap::any>>()) {
    kinds++;
    auto& ar = a.get<dap::array<dap::any>>();
    o = "{\"t\":\"arr\",\"a\":[";
    for (size_t i = 0; i < ar.size(); i++) o += (i ? "," : "") + obs(ar[i]);
    o += "]}";
  }
  return kinds == 1 ? o : fmt("{\"t\":\"ambiguous%d\"}", kinds);
}
static const int kVals = 17;
// stores value number k into the any through f
template <class F> void withVal(int k, int id, F f) {
  switch (k) {
    case 0: f(dap::integer(id)); break;
    case 1: f(dap::string("s" + std::to_string(id) + std::string(k == 1 && id % 2 ? 40 : 0, 'x'))); break;
    case 2: f(dap::XSmall(id)); break;
    case 3: f(dap::XBig(id)); break;
    case 4: f(dap::object()); break;
    case 5: f(dap::array<dap::any>()); break;
    case 6: f(dap::XWide(id)); break;
    case 7: { dap::XNamed n(id); n.name = "name" + std::to_string(id) + "_long_enough_for_the_heap"; f(n); break; }
    case 8: f(dap::boolean(id % 2 == 0)); break;
    case 9: f(dap::number(id + 0.5)); break;
    case 10: { dap::object o; o["k1"] = dap::any(dap::XSmall(id)); o["k2"] = dap::any(dap::XBig(id)); f(o); break; }
    case 11: { dap::array<dap::any> a; a.push_back(dap::any(dap::XBig(id))); f(a); break; }
    case 12: {
      switch (id) {
        case 1: f(dap::Blob<31>(id)); break;
        case 2: f(dap::Blob<32>(id)); break;
        case 3: f(dap::Blob<33>(id)); break;
        case 4: f(dap::Blob<40>(id)); break;
        case 5: f(dap::Blob<36>(id)); break;
        case 6: f(dap::Blob<64>(id)); break;
        case 7: f(dap::Blob<2>(id)); break;
        case 8: f(dap::Blob<39>(id)); break;
        default: f(dap::Blob<65>(id)); break;
      }
      break;
    }
    case 13: { dap::array<dap::integer> a; for (int i = 0; i < id; i++) a.push_back(i * id); f(a); break; }
    case 14: { dap::array<dap::string> a; for (int i = 0; i < id % 4; i++) a.push_back(std::string(size_t(id * 4), char('a' + i))); f(a); break; }
    case 15: { dap::optional<dap::string> o; if (id % 3) o = dap::string(size_t(id * 5), 'o'); f(o); break; }
    default: {
      HvVar v;
      if (id % 3 == 0) v = dap::integer(id);
      if (id % 3 == 1) v = dap::string(size_t(id * 5), 'v');
      if (id % 3 == 2) v = dap::Blob<40>(id);
      f(v);
      break;
    }
  }
}
static std::string valObs(int k, int id) { std::string s; withVal(k, id, [&](const auto& v) { dap::any a(v); s = obs(a); }); return s; }

struct AnyRegs {
  int n;
  std::vector<std::unique_ptr<char[]>> mem;
  std::vector<dap::any*> r;
  explicit AnyRegs(int n) : n(n) {
    for (int i = 0; i < n; i++) r.push_back(new dap::any());
  }
  ~AnyRegs() { for (auto* p : r) delete p; }
};
static std::string all(AnyRegs& R) {
  std::string o = ",\"obs\":[";
  for (int i = 0; i < R.n; i++) o += (i ? "," : "") + obs(*R.r[size_t(i)]);
  return o + fmt("],\"live\":%ld}", gLive);
}
// op: the kind of operation; a, b registers; k, id the value. Returns false if it does not apply.
static const int kAnyOps = 17;
static bool anyOp(AnyRegs& R, int op, int a, int b, int k, int id) {
  dap::any*& A = R.r[size_t(a)];
  dap::any& B = *R.r[size_t(b)];
  std::string name, extra;
  const char* key = id % 2 ? "k1" : "k2";
  switch (op) {
    case 0: delete A; A = new dap::any(); name = "new"; break;
    case 1: delete A; A = nullptr; withVal(k, id, [&](const auto& v) { A = new dap::any(v); }); name = "newval"; extra = ",\"v\":" + valObs(k, id); break;
    case 2: if (a == b) return false; delete A; A = new dap::any(B); name = "newcopy"; break;
    case 3: if (a == b) return false; delete A; A = new dap::any(std::move(B)); name = "newmove"; break;
    case 4: case 5: withVal(k, id, [&](const auto& v) { *A = v; }); name = "set"; extra = ",\"v\":" + valObs(k, id); break;
    case 6: *A = nullptr; name = "null"; break;
    case 7: A->reset(); name = "reset"; break;
    case 8: case 9: *A = B; name = "copy"; break;
    case 10: case 11: *A = std::move(B); name = "move"; break;
    case 12: if (!A->is<dap::object>()) return false; if (a == b && !A->get<dap::object>().count(key)) return false; A->get<dap::object>()[key] = B; name = "put"; extra = fmt(",\"n\":\"%s\"", key); break;
    case 13: if (!B.is<dap::object>() || !B.get<dap::object>().count(key)) return false; *A = B.get<dap::object>()[key]; name = "take"; extra = fmt(",\"n\":\"%s\"", key); break;
    case 14: if (!B.is<dap::object>() || !B.get<dap::object>().count(key)) return false; *A = std::move(B.get<dap::object>()[key]); name = "takemove"; extra = fmt(",\"n\":\"%s\"", key); break;
    case 15:
      if (B.is<dap::XNamed>()) { *A = B.get<dap::XNamed>().name; name = "name"; break; }
      if (!B.is<dap::array<dap::any>>() || B.get<dap::array<dap::any>>().empty()) return false;
      {
        auto& e = B.get<dap::array<dap::any>>()[0];
        // the element as an any, or as the value it holds
        if (id % 2 && e.is<dap::XBig>()) *A = e.get<dap::XBig>();
        else if (id % 2 && e.is<dap::array<dap::any>>()) *A = e.get<dap::array<dap::any>>();
        else if (id % 2 && e.is<dap::string>()) *A = e.get<dap::string>();
        else *A = e;
      }
      name = "elem";
      break;
    default: if (!A->is<dap::array<dap::any>>()) return false; if (A->get<dap::array<dap::any>>().size() > 3) return false;
      { dap::any copy(B); A->get<dap::array<dap::any>>().push_back(copy); } name = "append"; break;
  }
  hseq::ev("{\"e\":\"op\",\"op\":\"" + name + fmt("\",\"a\":%d,\"b\":%d", a, b) + extra + all(R));
  return true;
}
static void endEv() { hseq::ev(fmt("{\"e\":\"end\",\"live\":%ld,\"blocks\":%ld,\"bad\":%ld}", gLive, gBlocks, gBad)); }
static void anyBegin(AnyRegs& R) { hseq::ev(fmt("{\"e\":\"begin\",\"kind\":\"any\",\"n\":%d,\"v\":{\"t\":\"null\"}", R.n) + all(R)); }
static void start() { gLive = gBad = gBlocks = 0; gCount = true; }

struct AnyStep { int op, a, b, k; };
static std::vector<AnyStep> alphabet() {
  std::vector<AnyStep> v;
  for (int op = 0; op < kAnyOps; op++) {
    if (op == 5 || op == 9 || op == 11) continue;
    for (int a = 0; a < 2; a++)
      for (int b = 0; b < 2; b++)
        for (int k = 0; k < kVals; k++) {
          bool usesVal = op == 1 || op == 4, usesB = !usesVal && op != 0 && op != 6 && op != 7;
          if ((!usesVal && k) || (!usesB && b)) continue;
          if (usesVal && (k == 6 || k == 8 || k == 9 || k > 12)) continue;
          v.push_back({op, a, b, k});
        }
  }
  return v;
}
static void runAny(long idx, Rng& r, long exhaustive) {
  static std::vector<AnyStep> al = alphabet();
  long n = long(al.size());
  if (idx < exhaustive) {
    // first step: sets register 0 to a value; all pairs of following steps, 1/4 of the second ones per case
    int part = int(idx % 4);
    long i1 = (idx / 4) % n;
    int k0 = int((idx / 4 / n) % kVals);
    start();
    for (long i2 = part; i2 < n; i2 += 4) {
      {
        AnyRegs R(2);
        anyBegin(R);
        anyOp(R, 4, 0, 0, k0, 3);
        anyOp(R, al[size_t(i1)].op, al[size_t(i1)].a, al[size_t(i1)].b, al[size_t(i1)].k, 5);
        anyOp(R, al[size_t(i2)].op, al[size_t(i2)].a, al[size_t(i2)].b, al[size_t(i2)].k, 8);
      }
      endEv();
    }
    return;
  }
  start();
  {
    AnyRegs R(1 + int(r(4)));
    anyBegin(R);
    for (int s = 3 + int(r(25)); s > 0; s--) anyOp(R, int(r(kAnyOps)), int(r(uint64_t(R.n))), int(r(uint64_t(R.n))), int(r(kVals)), 1 + int(r(9)));
  }
  endEv();
}

// ---- optionals
template <class T> struct OptT;
template <> struct OptT<int> {
  static int val(int k) { return k; }
  static std::string o(const int& v) { return fmt("{\"t\":\"val\",\"n\":%d}", v); }
};
template <> struct OptT<dap::string> {
  static dap::string val(int k) { static const char* s[] = {"", "a", "ab", "b", "ba_________________________________", "c"}; return s[k]; }
  static std::string o(const dap::string& v) { for (int k = 0; k < 6; k++) if (v == val(k)) return fmt("{\"t\":\"val\",\"n\":%d}", k); return "{\"t\":\"val\",\"n\":99}"; }
};
template <> struct OptT<dap::array<dap::integer>> {
  static dap::array<dap::integer> val(int k) { dap::array<dap::integer> a; for (int i = 0; i < k; i++) a.push_back(dap::integer(7)); return a; }
  static std::string o(const dap::array<dap::integer>& v) { return fmt("{\"t\":\"val\",\"n\":%d}", int(v.size())); }
};
template <class T> std::string ob(const dap::optional<T>& o) {
  if (o.has_value() != bool(o)) return "{\"t\":\"inconsistent\"}";
  if (!o.has_value()) return "{\"t\":\"unset\"}";
  std::string a = OptT<T>::o(o.value()), b = OptT<T>::o(*o), c = OptT<T>::o(*(o.operator->()));
  dap::optional<T>& m = const_cast<dap::optional<T>&>(o);
  return a == b && b == c && OptT<T>::o(m.value()) == a && OptT<T>::o(*m) == a && OptT<T>::o(*m.operator->()) == a ? a : "{\"t\":\"inconsistent\"}";
}
template <class T> void cmpEv(const dap::optional<T>& a, const dap::optional<T>& b, int i, int j) {
  auto s = [](bool x) { return x ? "true" : "false"; };
  hseq::ev(fmt("{\"e\":\"cmp\",\"a\":%d,\"b\":%d,\"eq\":%s,\"ne\":%s,\"lt\":%s,\"le\":%s,\"gt\":%s,\"ge\":%s}", i, j, s(a == b), s(a != b), s(a < b), s(a <= b), s(a > b), s(a >= b)));
}
template <class T> void runOpt(Rng& r) {
  start();
  {
    int n = 2 + int(r(3));
    std::vector<std::unique_ptr<dap::optional<T>>> R;
    for (int i = 0; i < n; i++) R.emplace_back(new dap::optional<T>());
    auto see = [&] {
      std::string o = ",\"obs\":[";
      for (int i = 0; i < n; i++) o += (i ? "," : "") + ob(*R[size_t(i)]);
      return o + "],\"live\":-1}";
    };
    hseq::ev(fmt("{\"e\":\"begin\",\"kind\":\"opt\",\"n\":%d,\"v\":{\"t\":\"unset\"}", n) + see());
    std::vector<bool> known(size_t(n), true);
    for (int s = 4 + int(r(20)); s > 0; s--) {
      size_t a = r(uint64_t(n)), b = r(uint64_t(n));
      int k = int(r(6));
      auto& A = R[a];
      auto& B = *R[b];
      T v = OptT<T>::val(k);
      std::string name, extra = ",\"v\":" + OptT<T>::o(v);
      switch (r(13)) {
        case 0: A.reset(new dap::optional<T>()); name = "new"; break;
        case 1: A.reset(r(2) ? new dap::optional<T>(v) : new dap::optional<T>(T(v))); name = "newval"; break;
        case 2: if (a == b) continue; A.reset(new dap::optional<T>(B)); name = "newcopy"; break;
        case 3: if (a == b) continue; A.reset(new dap::optional<T>(std::move(B))); name = "newmove"; break;
        case 4: case 5: if (r(2)) *A = v; else *A = T(v); name = "set"; break;
        case 6: case 7: *A = B; name = "copy"; break;
        case 8: if (a == b) continue; *A = std::move(B); name = "move"; break;
        case 9: *A = dap::optional<T>(); name = "unset"; break;
        case 10: *A = dap::optional<T>(v); name = "set"; break;
        case 11: if (!known[a] || !A->has_value()) continue; if (r(2)) A->value() = v; else **A = v; name = "setval"; break;
        default: {
          // conversion from an optional of another type
          if constexpr (std::is_same<T, int>::value) {
            dap::optional<short> o2;
            if (k) { o2 = short(k); A.reset(r(2) ? new dap::optional<T>(o2) : new dap::optional<T>(dap::optional<short>(o2))); }
            else { A.reset(new dap::optional<T>(o2)); extra = ",\"v\":{\"t\":\"unset\"}"; }
          } else if constexpr (std::is_same<T, dap::string>::value) {
            dap::optional<const char*> o2;
            if (k) { o2 = v.c_str(); A.reset(r(2) ? new dap::optional<T>(o2) : new dap::optional<T>(dap::optional<const char*>(o2))); }
            else { A.reset(new dap::optional<T>(o2)); extra = ",\"v\":{\"t\":\"unset\"}"; }
          } else continue;
          name = "convert";
        }
      }
      bool mv = name == "newmove" || name == "move";
      if (mv || name == "copy" || name == "newcopy") known[a] = known[b];
      else known[a] = true;
      if (mv) known[b] = false;
      hseq::ev("{\"e\":\"op\",\"op\":\"" + name + fmt("\",\"a\":%d,\"b\":%d", int(a), int(b)) + extra + see());
      size_t i = r(uint64_t(n)), j = r(uint64_t(n));
      if (known[i] && known[j]) cmpEv(*R[i], *R[j], int(i), int(j));
      if (known[i]) {
        T d = OptT<T>::val(int(r(6)));
        hseq::ev(fmt("{\"e\":\"default\",\"a\":%d,\"def\":", int(i)) + OptT<T>::o(d) + ",\"got\":" + OptT<T>::o(R[i]->value(d)) + "}");
      }
    }
  }
  endEv();
}

// ---- variants
using Var = dap::variant<dap::integer, dap::string, dap::boolean, dap::XBig, dap::array<dap::any>>;
static std::string vob(const Var& v) {
  std::string o;
  int kinds = 0;
  if (v.is<dap::integer>()) { kinds++; o = q("int", fmt("%lld", (long long)int64_t(v.get<dap::integer>()))); }
  if (v.is<dap::string>()) { kinds++; o = q("str", v.get<dap::string>()); }
  if (v.is<dap::boolean>()) { kinds++; o = q("bool", v.get<dap::boolean>() ? "1" : "0"); }
  if (v.is<dap::XBig>()) { kinds++; v.get<dap::XBig>().check(); o = q("big", fmt("%lld", (long long)int64_t(v.get<dap::XBig>().id))); }
  if (v.is<dap::array<dap::any>>()) { kinds++; dap::any a(v.get<dap::array<dap::any>>()); o = obs(a); }
  return kinds == 1 ? o : fmt("{\"t\":\"ambiguous%d\"}", kinds);
}
template <class F> std::string withVar(int k, int id, F f) {
  switch (k) {
    case 0: f(dap::integer(id)); return q("int", std::to_string(id));
    case 1: { dap::string s = "s" + std::to_string(id) + std::string(id % 2 ? 40 : 0, 'x'); f(s); return q("str", s); }
    case 2: f(dap::boolean(id % 2 == 0)); return q("bool", id % 2 == 0 ? "1" : "0");
    case 3: f(dap::XBig(id)); return q("big", std::to_string(id));
    default: { dap::array<dap::any> a; a.push_back(dap::any(dap::XBig(id))); f(a); return "{\"t\":\"arr\",\"a\":[" + q("big", std::to_string(id)) + "]}"; }
  }
}
static void runVar(Rng& r) {
  start();
  {
    int n = 1 + int(r(3));
    std::vector<std::unique_ptr<Var>> R;
    for (int i = 0; i < n; i++) R.emplace_back(new Var());
    std::vector<bool> known(size_t(n), true);
    auto see = [&] {
      std::string o = ",\"obs\":[";
      bool allKnown = true;
      for (int i = 0; i < n; i++) { o += (i ? "," : "") + vob(*R[size_t(i)]); allKnown = allKnown && known[size_t(i)]; }
      return o + fmt("],\"live\":%ld}", allKnown ? gLive : -1);
    };
    hseq::ev(fmt("{\"e\":\"begin\",\"kind\":\"var\",\"n\":%d,\"v\":%s", n, q("int", "0").c_str()) + see());
    for (int s = 4 + int(r(20)); s > 0; s--) {
      size_t a = r(uint64_t(n)), b = r(uint64_t(n));
      int k = int(r(5)), id = 1 + int(r(9));
      auto& A = R[a];
      auto& B = *R[b];
      std::string name, extra;
      switch (r(9)) {
        case 0: A.reset(new Var()); name = "new"; extra = q("int", "0"); break;
        case 1: extra = withVar(k, id, [&](const auto& v) { A.reset(new Var(v)); }); name = "newval"; break;
        case 2: if (a == b) continue; A.reset(new Var(B)); name = "newcopy"; break;
        case 3: if (a == b) continue; A.reset(new Var(std::move(B))); name = "newmove"; break;
        case 4: case 5: extra = withVar(k, id, [&](const auto& v) { *A = v; }); name = "set"; break;
        case 6: case 7: *A = B; name = "copy"; break;
        default: if (a == b) continue; *A = std::move(B); name = "move"; break;
      }
      bool mv = name == "newmove" || name == "move";
      if (mv || name == "copy" || name == "newcopy") known[a] = known[b];
      else known[a] = true;
      if (mv) known[b] = false;
      hseq::ev("{\"e\":\"op\",\"op\":\"" + name + fmt("\",\"a\":%d,\"b\":%d", int(a), int(b)) + (extra.empty() ? "" : ",\"v\":" + extra) + see());
    }
  }
  endEv();
}

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "";
  long ex = atol(hseq::opt(argc, argv, "exhaustive", "0").c_str());
  bool warm = false;
  return hseq::run(argc, argv, [&](long idx, uint64_t seed) {
    // type information is created once
    if (!warm) { for (int k = 0; k < kVals; k++) valObs(k, 1); }
    warm = true;
    Rng r(seed);
    if (what == "any") runAny(idx, r, ex);
    else if (what == "opt") { switch (idx % 3) { case 0: runOpt<int>(r); break; case 1: runOpt<dap::string>(r); break; default: runOpt<dap::array<dap::integer>>(r); } }
    else runVar(r);
  });
}
