// Registry of the protocol types and the operations on them.
#pragma once
#include "hjson.h"
#include "dap/protocol.h"
#include "dap/session.h"
#include "dap/io.h"
#include "json_serializer.h"

#include <functional>
#include <future>

namespace hj {
#define HJ_STRUCT(T) template <> struct Struct<dap::T> { static constexpr bool is = true; };
#include "dap_visit.inc"

// How the optional fields at the top of a structure are chosen: at random, all
// set, none set, only the k-th set, all but the k-th set.
struct Opt { int mode = 0; int k = 0; };
template <class T> bool isOpt(const T&) { return false; }
template <class T> bool isOpt(const dap::optional<T>&) { return true; }
template <class T> void force(T&, Rng&, bool) {}
template <class T> void force(dap::optional<T>& v, Rng& r, bool set) {
  if (!set) { v = dap::optional<T>(); return; }
  T t{};
  gen(t, r, 3);
  v = t;
}
template <class S> int genStruct(S& s, Rng& r, Opt o) {
  int i = 0;
  gen(s, r, 4);
  visit(s, [&](const char*, auto& m) {
    if (!isOpt(m)) return;
    if (o.mode == 1) force(m, r, true);
    if (o.mode == 2) force(m, r, false);
    if (o.mode == 3) force(m, r, i == o.k);
    if (o.mode == 4) force(m, r, i != o.k);
    i++;
  });
  return i;
}
}  // namespace hj

struct DapOps {
  std::string name;
  int nopt;
  std::function<void(hj::Rng&, hj::Opt)> enc, dec, session;
};
inline std::vector<DapOps>& dapOps() { static std::vector<DapOps> v; return v; }

namespace hdap {
using namespace hj;
template <class T> void decode(const char* name, const std::string& text, const std::string* expect) {
  T v{};
  dap::json::Deserializer d(text);
  bool ok = d.deserialize(&v);
  std::string vt = ok ? val(v) : "{\"k\":\"none\"}";
  if (expect) {
    hseq::ev(std::string("{\"e\":\"back\",\"t\":\"") + name + "\",\"ok\":" + (ok ? "true" : "false") + ",\"v\":" + *expect + ",\"back\":" + vt + "}");
    return;
  }
  mj::V j;
  if (!mj::parse(text, j)) { hseq::ev("{\"e\":\"badtext\"}"); return; }
  hseq::ev(fmt("{\"e\":\"dec\",\"t\":\"%s\",\"j\":", name) + tree(j) + ",\"ok\":" + (ok ? "true" : "false") + ",\"v\":" + vt + "}");
}
template <class T> DapOps make(const char* name) {
  DapOps o;
  o.name = name;
  { T t{}; Rng r(1); o.nopt = genStruct(t, r, Opt()); }
  o.enc = [name](Rng& r, Opt opt) {
    T v{};
    genStruct(v, r, opt);
    hseq::ev(fmt("{\"e\":\"name\",\"t\":\"%s\",\"n\":\"%s\"}", name, dap::TypeOf<T>::type()->name().c_str()));
    dap::json::Serializer s;
    bool ok = s.serialize(v);
    std::string text = s.dump(), vt = val(v);
    mj::V j;
    bool valid = mj::parse(text, j);
    hseq::ev(std::string("{\"e\":\"enc\",\"t\":\"") + name + "\",\"ok\":" + (ok ? "true" : "false") + ",\"valid\":" + (valid ? "true" : "false") +
             ",\"j\":" + (valid ? tree(j) : "{\"k\":\"none\"}") + ",\"v\":" + vt + "}");
    decode<T>(name, text, &vt);
  };
  o.dec = [name](Rng& r, Opt opt) {
    T v{};
    genStruct(v, r, opt);
    mj::V j = js(v);
    for (int k = int(r(3)); k > 0; k--) mutate(j, r);
    decode<T>(name, sp(r) + text(j, r) + sp(r), nullptr);
  };
  return o;
}
// A reader that supplies one byte string and then waits to be closed, and a
// writer that keeps what it is given.
struct Src : dap::Reader {
  std::mutex m;
  std::condition_variable cv;
  std::string data;
  size_t pos = 0;
  bool open = true;
  bool isOpen() override { std::unique_lock<std::mutex> l(m); return open; }
  void close() override { std::unique_lock<std::mutex> l(m); open = false; cv.notify_all(); }
  size_t read(void* b, size_t n) override {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return !open || pos < data.size(); });
    if (!open) return 0;
    n = std::min(n, data.size() - pos);
    memcpy(b, data.data() + pos, n);
    pos += n;
    return n;
  }
  void feed(const std::string& s) { std::unique_lock<std::mutex> l(m); data += s; cv.notify_all(); }
};
struct Sink : dap::Writer {
  std::mutex m;
  std::condition_variable cv;
  std::string data;
  bool open = true;
  bool isOpen() override { std::unique_lock<std::mutex> l(m); return open; }
  void close() override { std::unique_lock<std::mutex> l(m); open = false; cv.notify_all(); }
  bool write(const void* b, size_t n) override {
    std::unique_lock<std::mutex> l(m);
    data.append(static_cast<const char*>(b), n);
    cv.notify_all();
    return open;
  }
  // the content of the first whole frame, "" after two seconds
  std::string frame(std::string* whole = nullptr) {
    std::unique_lock<std::mutex> l(m);
    std::string c;
    cv.wait_for(l, std::chrono::seconds(2), [&] {
      size_t h = data.find("\r\n\r\n");
      if (h == std::string::npos) return false;
      size_t n = size_t(atol(data.c_str() + strlen("Content-Length: ")));
      if (data.size() < h + 4 + n) return false;
      c = data.substr(h + 4, n);
      if (whole) *whole = data.substr(0, h + 4 + n);
      return true;
    });
    return c;
  }
};
// {"e":"msg"}: the frame that a session wrote for value v of type t
inline void message(const char* kind, const char* t, const std::string& content, const char* nameField, const char* bodyField, const std::string& vt) {
  mj::V j;
  bool valid = mj::parse(content, j) && j.k == mj::V::Obj;
  const mj::V *ty = valid ? j.get("type") : nullptr, *nm = valid ? j.get(nameField) : nullptr, *b = valid ? j.get(bodyField) : nullptr;
  hseq::ev(fmt("{\"e\":\"msg\",\"kind\":\"%s\",\"t\":\"%s\",\"type\":\"%s\",\"n\":\"%s\",\"v\":", kind, t, ty && ty->k == mj::V::Str ? pct(ty->s).c_str() : "?",
               nm && nm->k == mj::V::Str ? pct(nm->s).c_str() : "?") + vt + ",\"j\":" + (b ? tree(*b) : "{\"k\":\"missing\"}") + "}");
}
struct Pair {
  std::unique_ptr<dap::Session> a = dap::Session::create(), b = dap::Session::create();
  std::shared_ptr<Src> ain = std::make_shared<Src>(), bin = std::make_shared<Src>();
  std::shared_ptr<Sink> aout = std::make_shared<Sink>(), bout = std::make_shared<Sink>();
  void go() {
    a->bind(ain, aout);
    b->bind(bin, bout);
  }
};
template <class T, class RESP> void request(const char* name, const char* rname, Rng& r, Opt opt) {
  T v{};
  genStruct(v, r, opt);
  RESP rv{};
  genStruct(rv, r, opt);
  std::string vt = val(v), rt = val(rv), got;
  Pair p;
  std::promise<void> called;
  bool once = false;
  p.b->registerHandler([&](const T& x) -> RESP {
    got = val(x);
    if (!once) { once = true; called.set_value(); }
    return rv;
  });
  p.go();
  auto f = p.a->send(v);
  std::string whole;
  message("request", name, p.aout->frame(&whole), "command", "arguments", vt);
  p.bin->feed(whole);
  bool ok = called.get_future().wait_for(std::chrono::seconds(2)) == std::future_status::ready;
  hseq::ev(std::string("{\"e\":\"back\",\"t\":\"") + name + "\",\"ok\":" + (ok ? "true" : "false") + ",\"v\":" + vt + ",\"back\":" + (ok ? got : "{\"k\":\"none\"}") + "}");
  if (!ok) return;
  std::string w2;
  message("response", rname, p.bout->frame(&w2), "command", "body", rt);
  p.ain->feed(w2);
  if (f.wait_for(std::chrono::seconds(2)) == dap::future_status::ready) {
    auto re = f.get();
    hseq::ev(std::string("{\"e\":\"back\",\"t\":\"") + rname + "\",\"ok\":" + (re.error ? "false" : "true") + ",\"v\":" + rt + ",\"back\":" + val(re.response) + "}");
  } else hseq::ev(std::string("{\"e\":\"back\",\"t\":\"") + rname + "\",\"ok\":false,\"v\":" + rt + ",\"back\":{\"k\":\"none\"}}");
}
template <class T> void event(const char* name, Rng& r, Opt opt) {
  T v{};
  genStruct(v, r, opt);
  std::string vt = val(v), got;
  Pair p;
  std::promise<void> called;
  bool once = false;
  p.b->registerHandler([&](const T& x) {
    got = val(x);
    if (!once) { once = true; called.set_value(); }
  });
  p.go();
  p.a->send(v);
  std::string whole;
  message("event", name, p.aout->frame(&whole), "event", "body", vt);
  p.bin->feed(whole);
  bool ok = called.get_future().wait_for(std::chrono::seconds(2)) == std::future_status::ready;
  hseq::ev(std::string("{\"e\":\"back\",\"t\":\"") + name + "\",\"ok\":" + (ok ? "true" : "false") + ",\"v\":" + vt + ",\"back\":" + (ok ? got : "{\"k\":\"none\"}") + "}");
}
}  // namespace hdap
