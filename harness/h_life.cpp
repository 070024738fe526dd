// A real session over objects that tell of their beginning and end, under
// the controlled scheduler, with the blocks of memory counted.
// spec/LifeTrace.tla judges that nothing ends twice, is used after its end
// or is left behind.
//   h_life life --out F --seed N --runs N ...
#include "hargs.h"
#include "vsched.h"

#include "dap/io.h"
#include "dap/protocol.h"
#include "dap/session.h"

#include <cstdio>
#include <cstdlib>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

using vs::ev;
using vs::rnd;
#define QUIET __attribute__((no_sanitize("thread")))

// ------------------------------------------------------- blocks of memory
// Each block starts with the number of the run it was taken in.
static uint64_t epoch = 0;
static long blocks = 0;
QUIET static void* take(size_t n) {
  uint64_t* p = static_cast<uint64_t*>(malloc(n + 16));
  if (!p) abort();
  p[0] = vs::active() ? epoch : 0;
  if (p[0]) blocks++;
  return p + 2;
}
QUIET static void give(void* q) {
  if (!q) return;
  uint64_t* p = static_cast<uint64_t*>(q) - 2;
  if (p[0] && p[0] == epoch) blocks--;
  p[0] = 0;
  free(p);
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

// -------------------------------------------------------- tracked objects
static int made = 0;
struct Track {
  int o;
  QUIET Track() { make(); }
  QUIET Track(const Track&) { make(); }
  QUIET Track& operator=(const Track&) { use(); return *this; }
  QUIET ~Track() { if (vs::active()) ev("{\"e\":\"Kill\",\"o\":%d}", o); }
  QUIET void make() { o = ++made; if (vs::active()) ev("{\"e\":\"Make\",\"o\":%d}", o); }
  QUIET void use() const { if (vs::active()) ev("{\"e\":\"Use\",\"o\":%d}", o); }
};

namespace dap {
struct LifeResponse : public Response { integer id; optional<string> pad; array<any> list; Track t; };
struct LifeRequest : public Request { using Response = LifeResponse; integer id; optional<string> pad; array<any> list; Track t; };
struct LifeEvent : public Event { integer id; optional<string> pad; object obj; Track t; };
DAP_STRUCT_TYPEINFO(LifeResponse, "", DAP_FIELD(id, "id"), DAP_FIELD(pad, "pad"), DAP_FIELD(list, "list"));
DAP_STRUCT_TYPEINFO(LifeRequest, "life", DAP_FIELD(id, "id"), DAP_FIELD(pad, "pad"), DAP_FIELD(list, "list"));
DAP_STRUCT_TYPEINFO(LifeEvent, "lived", DAP_FIELD(id, "id"), DAP_FIELD(pad, "pad"), DAP_FIELD(obj, "obj"));
}  // namespace dap

namespace {
using R = dap::ResponseOrError<dap::LifeResponse>;
using Callback = std::function<void(R)>;
using Future = dap::future<R>;

std::string frame(const std::string& s) { return "Content-Length: " + std::to_string(s.size()) + "\r\n\r\n" + s; }
const char* pad() { return "a text that is too long to be kept inside of a string object"; }

// kinds of messages the peer sends
enum { kReq, kReqDefer, kReqDrop, kReqFail, kReqBad, kReqUnknown, kEvt, kEvtBad, kEvtUnknown, kOk, kFail, kOkBad, kJunk, kNoType, kKinds };
std::string message(int kind, int seq, int rseq) {
  std::string p = ",\"pad\":\"" + std::string(pad()) + "\"", l = ",\"list\":[1,\"" + std::string(pad()) + "\",[{\"a\":null}]]";
  std::string head = "{\"seq\":" + std::to_string(seq) + ",\"type\":";
  auto req = [&](const char* c, const std::string& id) { return head + "\"request\",\"command\":\"" + c + "\",\"arguments\":{\"id\":" + id + p + l + "}}"; };
  auto evt = [&](const char* c, const std::string& id) { return head + "\"event\",\"event\":\"" + c + "\",\"body\":{\"id\":" + id + p + ",\"obj\":{\"k\":[1,\"" + pad() + "\"]}}}"; };
  auto rsp = [&](bool ok, const std::string& rest) { return head + "\"response\",\"request_seq\":" + std::to_string(rseq) + ",\"success\":" + (ok ? "true" : "false") + ",\"command\":\"life\"" + rest + "}"; };
  switch (kind) {
    case kReq: case kReqDefer: case kReqDrop: case kReqFail: return req("life", std::to_string(seq * 10 + kind));
    case kReqBad: return req("life", "\"x\"");
    case kReqUnknown: return req("none", "1");
    case kEvt: return evt("lived", "5");
    case kEvtBad: return evt("lived", "\"x\"");
    case kEvtUnknown: return evt("none", "1");
    case kOk: return rsp(true, ",\"body\":{\"id\":7" + p + l + "}");
    case kFail: return rsp(false, ",\"message\":\"" + std::string(pad()) + "\"");
    case kOkBad: return rsp(true, ",\"body\":{\"id\":\"x\"" + p + l + "}");
    case kJunk: return "{\"seq\": [1, \"" + std::string(pad()) + "\", {";
    default: return "{\"seq\":1,\"arguments\":{\"id\":1" + p + "}}";
  }
}

struct In : public dap::Reader {
  std::shared_ptr<dap::ReaderWriter> rw;
  Track t;
  bool isOpen() override { t.use(); return rw->isOpen(); }
  void close() override { t.use(); rw->close(); }
  size_t read(void* b, size_t n) override { t.use(); return rw->read(b, n); }
};
struct Out : public dap::Writer {
  std::shared_ptr<dap::ReaderWriter> rw;
  Track t;
  bool isOpen() override { t.use(); return rw->isOpen(); }
  void close() override { t.use(); rw->close(); }
  bool write(const void* b, size_t n) override { t.use(); return rw->write(b, n); }
};

struct World {
  std::shared_ptr<dap::ReaderWriter> in = dap::pipe(), out = dap::pipe();
  std::shared_ptr<In> r = std::make_shared<In>();
  std::shared_ptr<Out> w = std::make_shared<Out>();
  std::unique_ptr<dap::Session> session = dap::Session::create();
  std::mutex m;
  std::vector<Callback> deferred;
  std::vector<std::function<void()>> payloads;
  std::vector<Future> futures;
  bool sentHandler = false, plain = false;

  World() { r->rw = in; w->rw = out; }
  static R respond(bool fail) {
    if (fail) return dap::Error(std::string(pad()));
    dap::LifeResponse p;
    p.id = 3; p.pad = dap::string(pad()); p.list.push_back(dap::string(pad()));
    return p;
  }
  void handlers() {
    Track a, b, c, d;
    auto request = [this, a](const dap::LifeRequest& q, Callback cb) {
      a.use(); q.t.use();
      if (vs::active() && rnd(3) == 0) vs::point();
      int kind = int(int64_t(q.id) % 10);
      if (kind == kReqDefer) { std::lock_guard<std::mutex> l(m); deferred.push_back(cb); }
      else if (kind != kReqDrop) cb(respond(kind == kReqFail));
      q.t.use(); a.use();
    };
    if (plain) session->registerHandler([a](const dap::LifeRequest& q) { a.use(); q.t.use(); R x = respond(int64_t(q.id) % 10 == kReqFail); q.t.use(); a.use(); return x; });
    else session->registerHandler(std::move(request));
    session->registerHandler([b](const dap::LifeEvent& e) { b.use(); e.t.use(); if (vs::active() && rnd(3) == 0) vs::point(); e.t.use(); b.use(); });
    if (sentHandler) session->registerSentHandler([c](const R& x) { c.use(); if (!x.error) x.response.t.use(); c.use(); });
    session->onError([d](const char*) { d.use(); });
  }
  void send(int what) {
    if (what) {
      dap::LifeRequest q;
      q.id = 1; q.pad = dap::string(pad()); q.list.push_back(dap::string(pad()));
      Future f = session->send(q);
      if (what == 1) { std::lock_guard<std::mutex> l(m); futures.push_back(std::move(f)); }
    } else {
      dap::LifeEvent e;
      e.id = 1; e.pad = dap::string(pad()); e.obj["k"] = dap::string(pad());
      session->send(e);
    }
  }
  void feed(const std::string& s) { in->write(s.data(), s.size()); }
  void payload(int what) {
    auto p = session->getPayload();
    if (!p) return;
    if (what == 0) p();
    else if (what == 1) { std::lock_guard<std::mutex> l(m); payloads.push_back(std::move(p)); }
  }
};

// Once before the runs, so that what is made once for all is there.
void warm() {
  World w;
  w.sentHandler = true;
  w.handlers();
  w.session->connect(w.r, w.w);
  w.send(0); w.send(1); w.send(1);
  for (int k = 0; k < kKinds; k++) { w.feed(frame(message(k, k + 1, k == kFail ? 2 : 3))); w.payload(0); }
  w.feed("Junk: 1\r\n\r\n" + frame(message(kReq, 50, 1)));
  w.payload(0); w.in->close(); w.payload(0);
}

QUIET void body() {
  epoch++;
  blocks = 0;
  made = 0;
  {
    auto w = std::make_unique<World>();
    w->plain = rnd(5) == 0;
    w->sentHandler = rnd(2);
    w->handlers();
    if (rnd(4) == 0) w->handlers();                       // registered twice: refused
    if (rnd(3) == 0) w->session->setOnInvalidData(dap::kClose);
    bool manual = rnd(4) == 0, early = rnd(2), pressed = rnd(3) == 0;
    int nSend = int(rnd(3)), nFeed = pressed ? 0 : int(rnd(6));
    Track closed;
    auto onClose = [closed] { closed.use(); };
    std::thread pump, feeder, sender, answerer;
    if (rnd(4) == 0) w->feed(frame(message(kReq, 90, 1)));  // there before the session is
    if (manual) w->session->connect(w->r, w->w);
    else if (rnd(2)) { if (rnd(2)) w->session->bind(w->r, w->w, onClose); else w->session->bind(w->r, w->w); }
    else {
      w->session->connect(w->r, w->w);
      if (rnd(6) == 0) w->session->connect(w->r, w->w);
      w->session->startProcessingMessages(onClose);
      if (rnd(6) == 0) w->session->startProcessingMessages(onClose);
    }
    World* x = w.get();
    if (manual) {
      std::vector<int> whats;
      for (int i = 0; i < 60; i++) whats.push_back(int(rnd(3)));
      pump = std::thread([x, whats] { for (size_t i = 0; x->r->isOpen(); i++) x->payload(whats[i % whats.size()]); });
    }
    std::vector<int> sends, kinds, rseqs;
    for (int i = 0; i < nSend; i++) sends.push_back(int(rnd(3)));
    for (int i = 0; i < nFeed; i++) { kinds.push_back(int(rnd(kKinds))); rseqs.push_back(1 + int(rnd(3))); }
    bool ends = rnd(3) == 0, junk = rnd(5) == 0, closeOut = rnd(6) == 0, split = rnd(3) == 0;
    sender = std::thread([x, sends, closeOut] {
      for (size_t i = 0; i < sends.size(); i++) { if (closeOut && i == 1) x->out->close(); x->send(sends[i]); }
    });
    auto in = w->in;
    feeder = std::thread([in, kinds, rseqs, junk, ends, split] {
      auto feed = [&](const std::string& s) {
        size_t h = split ? s.size() / 2 : s.size();
        in->write(s.data(), h);
        if (h < s.size()) in->write(s.data() + h, s.size() - h);
      };
      for (size_t i = 0; i < kinds.size(); i++) {
        if (junk && i == 1) feed("Junk: 1\r\n\r\n");
        feed(frame(message(kinds[i], int(i) + 1, rseqs[i])));
      }
      if (ends) in->close();
    });
    sender.join();
    if (pressed) {
      // the same exchange again and again: nothing may pile up
      int kind = int(rnd(kKinds)), own = (kind == kOk || kind == kFail || kind == kOkBad) ? 1 : 0;
      int seq = 1;
      for (int i : sends) seq += 1 + 0 * i;
      for (int round = 0; round < 3; round++) {
        int k = 3 + int(rnd(4));
        for (int i = 0; i < k; i++) {
          if (own) x->send(1);
          // the number the session gave to its request is not known when it
          // has answered others: try the likely ones
          x->feed(frame(message(kind, 100 + i, seq++)));
          vs::waitQuiescent();
          std::lock_guard<std::mutex> l(x->m);
          x->deferred.clear(); x->payloads.clear();
        }
        char buf[4096];
        (void)buf;
        std::vector<Future> fs;
        { std::lock_guard<std::mutex> l(x->m); fs.swap(x->futures); }
        bool all = true;
        for (auto& f : fs) { if (f.wait_for(std::chrono::seconds(0)) == dap::future_status::ready) f.get(); else all = false; }
        fs.clear();
        if (!all) break;
        // what the session has written is taken off its hands
        if (x->out->isOpen()) { char mark = 0; x->out->write(&mark, 1); for (;;) { char c; if (!x->out->read(&c, 1) || !c) break; } }
        vs::waitQuiescent();
        ev("{\"e\":\"Mem\",\"n\":%ld,\"k\":%d}", blocks, k);
      }
    }
    if (rnd(2)) vs::waitQuiescent();
    answerer = std::thread([x] {
      std::vector<Callback> cbs;
      { std::lock_guard<std::mutex> l(x->m); cbs.swap(x->deferred); }
      for (size_t i = 0; i < cbs.size(); i++) cbs[i](World::respond(i % 2));
    });
    answerer.join();
    if (manual) { x->in->close(); pump.join(); }
    else if (!early) vs::waitQuiescent();
    if (early) w->session.reset();
    feeder.join();
    w->session.reset();
    int order = int(rnd(3));
    if (order == 1) { w->futures.clear(); w->payloads.clear(); w->deferred.clear(); }
    if (order == 2) { w->deferred.clear(); w->r.reset(); w->w.reset(); }
    w.reset();
  }
  ev("{\"e\":\"End\",\"n\":%ld}", blocks);
}

}  // namespace

int main(int argc, char** argv) {
  warm();
  return hargs::runBatch(argc, argv, [&](long, uint64_t) { body(); });
}
