// Programs over the library's type information: look-ups from several threads
// (each run in a fresh process, so that first uses happen in it), creation of
// type informations, initialize() and terminate(), and the end of the process:
// the destructors of static objects that were registered during the run are
// run by the harness. Recorded for spec/TypeRegTrace.tla.
//   h_types types --out F --seed N --runs N ...
#include "hargs.h"
#include "vsched.h"

#include "dap/any.h"
#include "dap/dap.h"
#include "dap/protocol.h"
#include "dap/session.h"
#include "dap/typeof.h"
#include "json_serializer.h"

#include <dlfcn.h>
#include <string.h>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

using vs::ev;
using vs::rnd;

// ------------------------------------------------- destructors of statics
struct AtExit { void (*f)(void*); void* a; };
static AtExit atExits[4096];
static int nAtExits = 0;
extern "C" int __cxa_atexit(void (*f)(void*), void* a, void* d) {
  if (vs::active() && nAtExits < 4096) { atExits[nAtExits++] = {f, a}; return 0; }
  static auto real = reinterpret_cast<int (*)(void (*)(void*), void*, void*)>(dlsym(RTLD_NEXT, "__cxa_atexit"));
  return real(f, a, d);
}

// ------------------------------------- memory taken inside library calls
static thread_local int inLib = 0;
static void* blocks[1 << 16];
static int live = 0;
__attribute__((no_sanitize("thread"))) static void note(void* p) {
  if (!p || !inLib || !vs::active()) return;
  size_t h = (reinterpret_cast<uintptr_t>(p) >> 4) * 2654435761u;
  for (size_t i = 0;; i++) { void*& b = blocks[(h + i) & 0xffff]; if (!b || b == reinterpret_cast<void*>(1)) { b = p; live++; return; } }
}
__attribute__((no_sanitize("thread"))) static void forget(void* p) {
  if (!p || !live) return;
  size_t h = (reinterpret_cast<uintptr_t>(p) >> 4) * 2654435761u;
  for (size_t i = 0; i < 0x10000; i++) { void*& b = blocks[(h + i) & 0xffff]; if (!b) return; if (b == p) { b = reinterpret_cast<void*>(1); live--; return; } }
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); note(p); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); note(p); return p; }
void operator delete(void* p) noexcept { forget(p); free(p); }
void operator delete[](void* p) noexcept { forget(p); free(p); }
void operator delete(void* p, size_t) noexcept { forget(p); free(p); }
void operator delete[](void* p, size_t) noexcept { forget(p); free(p); }
struct In { In() { inLib++; } ~In() { inLib--; } };

namespace dap {
struct TyA { integer i; optional<string> s; array<integer> l; };
struct TyB : TyA { boolean b; };
struct TyC { array<TyA> as; variant<integer, string> v; };
DAP_STRUCT_TYPEINFO(TyA, "ty-a", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(l, "l"));
DAP_STRUCT_TYPEINFO_EXT(TyB, TyA, "ty-b", DAP_FIELD(b, "b"));
DAP_STRUCT_TYPEINFO(TyC, "ty-c", DAP_FIELD(as, "as"), DAP_FIELD(v, "v"));
}  // namespace dap

namespace {
struct Kind {
  const char* name;
  std::function<const dap::TypeInfo*()> type;
  size_t size, align;
  std::function<bool(const dap::TypeInfo*)> use;
};

template <class T> T sample();
template <> dap::boolean sample() { return true; }
template <> dap::string sample() { return "a string that is too long to be stored in place"; }
template <> dap::integer sample() { return 12345678901234; }
template <> dap::number sample() { return 2.5; }
template <> dap::object sample() { return dap::object{{"k", dap::any(dap::integer(1))}}; }
template <> dap::any sample() { return dap::any(dap::string("any")); }
template <> dap::null sample() { return {}; }
template <> dap::array<dap::integer> sample() { return {1, 2, 3}; }
template <> dap::array<dap::array<dap::string>> sample() { return {{"x"}, {}, {"y", "z"}}; }
template <> dap::optional<dap::integer> sample() { return dap::integer(7); }
template <> dap::optional<dap::array<dap::number>> sample() { return dap::array<dap::number>{1.5}; }
template <> dap::variant<dap::integer, dap::string> sample() { return dap::string("v"); }
template <> dap::TyA sample() { dap::TyA a; a.i = 4; a.s = dap::string("s"); a.l = {9}; return a; }
template <> dap::TyB sample() { dap::TyB b; static_cast<dap::TyA&>(b) = sample<dap::TyA>(); b.b = true; return b; }
template <> dap::TyC sample() { dap::TyC c; c.as = {sample<dap::TyA>()}; c.v = dap::integer(3); return c; }
template <> dap::Source sample() { dap::Source s; s.name = dap::string("n"); s.sourceReference = dap::integer(3); return s; }
template <> dap::ThreadEvent sample() { dap::ThreadEvent e; e.reason = "r"; e.threadId = 2; return e; }
template <> dap::ContinueRequest sample() { dap::ContinueRequest e; e.threadId = 2; return e; }

// a value created, copied, encoded, decoded and destroyed by its type information
template <class T> bool use(const dap::TypeInfo* t) {
  if (t->size() != sizeof(T) || t->alignment() != alignof(T)) return false;
  std::unique_ptr<unsigned char[]> a(new unsigned char[sizeof(T) + 64]), b(new unsigned char[sizeof(T) + 64]);
  T v = sample<T>();
  t->copyConstruct(a.get(), &v);
  t->construct(b.get());
  dap::json::Serializer s1, s2;
  bool ok = t->serialize(&s1, a.get());
  std::string x = s1.dump();
  dap::json::Deserializer d(x);
  ok = ok && t->deserialize(&d, b.get()) && t->serialize(&s2, b.get()) && s2.dump() == x && x.size() >= 1;
  t->destruct(a.get());
  t->destruct(b.get());
  return ok;
}
template <class T> Kind kind(const char* name) {
  return {name, [] { return dap::TypeOf<T>::type(); }, sizeof(T), alignof(T), use<T>};
}
struct Holder { virtual ~Holder() {} };
template <class T> struct Held : Holder { dap::any a; Held() { a = sample<T>(); } };

struct Probe : dap::BasicTypeInfo<dap::integer> {
  int i;
  explicit Probe(int i) : dap::BasicTypeInfo<dap::integer>("probe"), i(i) {}
  ~Probe() override { ev("{\"e\":\"Destroy\",\"i\":%d}", i); }
};

std::mutex mx;
std::vector<const void*>* ptrs;
int number(const void* p) {
  std::lock_guard<std::mutex> l(mx);
  for (size_t i = 0; i < ptrs->size(); i++) if ((*ptrs)[i] == p) return int(i) + 1;
  ptrs->push_back(p);
  return int(ptrs->size());
}

void body(long, uint64_t) {
  memset(blocks, 0, sizeof blocks);
  live = 0;
  std::vector<const void*> pv;
  pv.reserve(100);
  ptrs = &pv;
  std::vector<Kind> kinds = {
      kind<dap::boolean>("boolean"), kind<dap::string>("string"), kind<dap::integer>("integer"), kind<dap::number>("number"),
      kind<dap::object>("object"), kind<dap::any>("any"), kind<dap::null>("null"), kind<dap::array<dap::integer>>("array<integer>"),
      kind<dap::array<dap::array<dap::string>>>("array<array<string>>"), kind<dap::optional<dap::integer>>("optional<integer>"),
      kind<dap::optional<dap::array<dap::number>>>("optional<array<number>>"), kind<dap::variant<dap::integer, dap::string>>("variant"),
      kind<dap::TyA>("ty-a"), kind<dap::TyB>("ty-b"), kind<dap::TyC>("ty-c"), kind<dap::Source>("*"), kind<dap::ThreadEvent>("thread"),
      kind<dap::ContinueRequest>("continue")};
  const int nk = int(kinds.size());
  int probes = 0;
  // programs: 0..: look up, 100..: use, 200: create
  int nt = 1 + int(rnd(3));
  std::vector<std::vector<int>> progs(nt);
  std::vector<int> few;
  for (int i = 0; i < 4; i++) few.push_back(rnd(3) ? 7 + int(rnd(nk - 7)) : int(rnd(nk)));
  for (auto& p : progs)
    for (int n = 1 + int(rnd(5)); n > 0; n--) {
      int k = rnd(2) ? few[rnd(few.size())] : int(rnd(nk));
      switch (rnd(5)) { case 0: case 1: p.push_back(k); break; case 2: p.push_back(100 + k); break; default: p.push_back(200 + probes++); }
    }
  bool late = rnd(3) == 0;          // the main thread does not wait for the workers before the statics end
  std::vector<int> own(nt);         // references the workers hold: 0 none, 1 taken by themselves, 2 taken for them
  for (auto& o : own) o = late ? 2 : int(rnd(3));
  int mine = int(rnd(3));
  {
    std::string d;
    for (int i = 0; i < nt; i++) { d += "|" + std::to_string(own[i]) + ":"; for (int o : progs[i]) d += std::to_string(o) + ","; }
    vs::prog("\"%s m%d%s\"", d.c_str(), mine, late ? " late" : "");
  }
  auto doOp = [&](int o) {
    if (o >= 200) {
      { In in; dap::TypeInfo::create<Probe>(o - 200); }
      ev("{\"e\":\"Make\",\"i\":%d}", o - 200);
    } else if (o >= 100) {
      bool ok;
      { In in; ok = kinds[o - 100].use(kinds[o - 100].type()); }
      ev("{\"e\":\"Use\",\"k\":%d,\"good\":%d}", o - 100, int(ok));
    } else {
      const dap::TypeInfo* t;
      bool ok;
      {
        In in;
        t = kinds[o].type();
        ok = t && t->size() == kinds[o].size && t->alignment() == kinds[o].align && (*kinds[o].name == '*' || t->name() == kinds[o].name);
      }
      ev("{\"e\":\"Type\",\"k\":%d,\"p\":%d,\"good\":%d}", o, number(t), int(ok));
    }
  };
  auto init = [&] { { In in; dap::initialize(); } ev("{\"e\":\"InitRet\"}"); };
  auto term = [&] { ev("{\"e\":\"Term\"}"); { In in; dap::terminate(); } ev("{\"e\":\"TermRet\"}"); };
  if (rnd(3) == 0) doOp(few[0]);
  for (int i = 0; i < mine; i++) init();
  for (int o : own) if (o == 2) init();
  // initialize() is not called after a terminate()
  std::mutex gm;
  std::condition_variable gcv;
  int ready = 0, need = 0;
  for (int o : own) need += o == 1;
  std::vector<std::thread> ts;
  for (int i = 0; i < nt; i++)
    ts.emplace_back([&, i] {
      if (own[i] == 1) { init(); std::lock_guard<std::mutex> l(gm); ready++; gcv.notify_all(); }
      for (int o : progs[i]) doOp(o);
      if (own[i]) {
        { std::unique_lock<std::mutex> l(gm); gcv.wait(l, [&] { return ready == need; }); }
        term();
      }
    });
  if (!late) for (auto& t : ts) t.join();
  // values that live longer than the statics
  std::vector<Holder*> held;
  held.reserve(8);
  if (mine) {
    In in;
    for (int n = int(rnd(4)); n > 0; n--)
      switch (rnd(6)) {
        case 0: held.push_back(new Held<dap::string>()); break;
        case 1: held.push_back(new Held<dap::TyB>()); break;
        case 2: held.push_back(new Held<dap::array<dap::integer>>()); break;
        case 3: held.push_back(new Held<dap::Source>()); break;
        case 4: held.push_back(new Held<dap::object>()); break;
        default: held.push_back(new Held<dap::TyC>());
      }
  }
  ev("{\"e\":\"Exit\"}");
  { In in; for (int i = nAtExits; i-- > 0;) atExits[i].f(atExits[i].a); }
  ev("{\"e\":\"ExitRet\"}");
  if (mine) {
    for (int n = 1 + int(rnd(3)); n > 0; n--) doOp(rnd(2) ? few[rnd(few.size())] : 100 + few[rnd(few.size())]);
    bool one = rnd(2) && mine > 1;
    if (one) term();
    { In in; for (auto* h : held) delete h; }
    ev("{\"e\":\"Use\",\"k\":99,\"good\":1}");
    for (int i = one ? 1 : 0; i < mine; i++) term();
  }
  if (late) for (auto& t : ts) t.join();
  ev("{\"e\":\"End\",\"leak\":%d}", live);
}
}  // namespace

int main(int argc, char** argv) { return hargs::runBatch(argc, argv, [](long a, uint64_t b) { body(a, b); }, true); }
