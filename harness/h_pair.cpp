// Two real sessions joined by in-memory pipes, by a socket connection, or by
// a TCP server and a client (on simulated sockets), under the controlled
// scheduler. spec/PairTrace.tla judges what both applications see.
//   h_pair pair --out F --seed N --runs N ...
#include "hargs.h"
#include "simnet.h"
#include "vsched.h"

#include "dap/io.h"
#include "dap/network.h"
#include "dap/protocol.h"
#include "dap/session.h"
#include "socket.h"

#include <condition_variable>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

using vs::ev;
using vs::rnd;

namespace dap {
struct PairResponse : public Response { integer token; string pad; };
struct PairRequest : public Request { using Response = PairResponse; integer id; string pad; };
struct PairEvent : public Event { integer id; string pad; };
DAP_STRUCT_TYPEINFO(PairResponse, "", DAP_FIELD(token, "token"), DAP_FIELD(pad, "pad"));
DAP_STRUCT_TYPEINFO(PairRequest, "pair", DAP_FIELD(id, "id"), DAP_FIELD(pad, "pad"));
DAP_STRUCT_TYPEINFO(PairEvent, "paired", DAP_FIELD(id, "id"), DAP_FIELD(pad, "pad"));
}  // namespace dap

namespace {

std::string padOf(int id) {
  static const char* pads[] = {"", "x", "\"q\\\n", "\xC3\xA9", "Content-Length: 5\r\n\r\nhello"};
  return id % 7 == 6 ? std::string(300, char('a' + id % 26)) : pads[id % 7 % 5];
}
using R = dap::ResponseOrError<dap::PairResponse>;
struct Fut { int s, id; std::shared_ptr<dap::future<R>> f; };

void value(const R& r, int& ok, int& v) {
  ok = !r.error;
  if (ok) { v = int(int64_t(r.response.token)); if (std::string(r.response.pad) != padOf(v)) v = 9999; }
  else v = r.error.message.compare(0, 2, "E:") == 0 ? atoi(r.error.message.c_str() + 2) : 9998;
}

struct Side {
  int s = 0;
  std::unique_ptr<dap::Session> session;
  std::vector<int> failIds, deferIds, nestIds;
  std::vector<std::thread> late;
};
struct World {
  Side side[2];
  std::mutex m;
  std::vector<Fut> futs;

  static bool has(const std::vector<int>& v, int id) { for (int x : v) if (x == id) return true; return false; }
  void send(int s, bool req, int id, bool wait) {
    ev("{\"e\":\"Send\",\"s\":%d,\"k\":\"%s\",\"id\":%d}", s, req ? "req" : "evt", id);
    if (!req) {
      dap::PairEvent e;
      e.id = id; e.pad = padOf(id);
      int r = 2;
      if (rnd(2)) r = side[s].session->send(dap::TypeOf<dap::PairEvent>::type(), &e); else side[s].session->send(e);
      ev("{\"e\":\"SendRet\",\"s\":%d,\"id\":%d,\"r\":%d}", s, id, r);
      return;
    }
    dap::PairRequest q;
    q.id = id; q.pad = padOf(id);
    auto fp = std::make_shared<dap::future<R>>(side[s].session->send(q));
    auto& f = *fp;
    int r = 2, ok, v;
    if (f.wait_for(std::chrono::seconds(0)) == dap::future_status::ready) { value(f.get(), ok, v); if (!ok && v == 9998) r = 0; }
    ev("{\"e\":\"SendRet\",\"s\":%d,\"id\":%d,\"r\":%d}", s, id, r);
    { std::lock_guard<std::mutex> l(m); futs.push_back({s, id, fp}); }
    if (wait) {
      value(f.get(), ok, v);
      ev("{\"e\":\"Fut\",\"s\":%d,\"id\":%d,\"ready\":1,\"ok\":%d,\"v\":%d}", s, id, ok, v);
    }
  }
  void looks() {
    std::vector<Fut> fs;
    { std::lock_guard<std::mutex> l(m); fs = futs; }
    for (auto& f : fs) {
      bool r = f.f->wait_for(std::chrono::seconds(0)) == dap::future_status::ready;
      int ok = 0, v = 0;
      if (r) value(f.f->get(), ok, v);
      ev("{\"e\":\"Fut\",\"s\":%d,\"id\":%d,\"ready\":%d,\"ok\":%d,\"v\":%d}", f.s, f.id, int(r), ok, v);
    }
  }
  void quiesce() {
    vs::waitQuiescent();
    looks();
    ev("{\"e\":\"Quiesce\"}");
  }
  void setup(int s) {
    Side& d = side[s];
    d.s = s;
    d.session = dap::Session::create();
    if (rnd(2)) d.session->onError([](const char*) {});
    if (rnd(4) == 0) d.session->setOnInvalidData(dap::kClose);
    d.session->registerHandler([this, s](const dap::PairEvent& e) {
      int id = int(int64_t(e.id));
      ev("{\"e\":\"HBegin\",\"s\":%d,\"k\":\"evt\",\"id\":%d,\"good\":%d}", s, id, int(std::string(e.pad) == padOf(id)));
      if (rnd(3) == 0) vs::point();
      ev("{\"e\":\"HEnd\",\"s\":%d,\"id\":%d}", s, id);
    });
    d.session->registerHandler([this, s](const dap::PairRequest& q, std::function<void(R)> cb) {
      int id = int(int64_t(q.id));
      ev("{\"e\":\"HBegin\",\"s\":%d,\"k\":\"req\",\"id\":%d,\"good\":%d}", s, id, int(std::string(q.pad) == padOf(id)));
      Side& d = side[s];
      if (has(d.nestIds, id)) send(s, true, id + 50, true);
      auto answer = [this, s, id, cb, fail = has(d.failIds, id)] {
        ev("{\"e\":\"Resp\",\"s\":%d,\"id\":%d,\"ok\":%d,\"v\":%d}", s, id, int(!fail), fail ? id : 100 + id);
        if (fail) { cb(dap::Error("E:%d", id)); return; }
        dap::PairResponse r;
        r.token = 100 + id; r.pad = padOf(100 + id);
        cb(r);
      };
      if (has(d.deferIds, id)) { std::lock_guard<std::mutex> l(m); d.late.emplace_back(answer); }
      else answer();
      ev("{\"e\":\"HEnd\",\"s\":%d,\"id\":%d}", s, id);
    });
  }
  std::function<void()> onClose(int s) { return [s] { ev("{\"e\":\"OnClose\",\"s\":%d}", s); }; }
  void joinLate(int s) {
    std::vector<std::thread> v;
    { std::lock_guard<std::mutex> l(m); v.swap(side[s].late); }
    for (auto& t : v) t.join();
  }
};

void body() {
  sim::begin();
  sim::capacity = rnd(2) ? 4096 : 64;
  sim::faults = sim::Faults();
  auto disturb = [] { if (rnd(2)) { sim::faults.budget = 6; sim::faults.eintr = 10; sim::faults.shortSend = 20; sim::faults.shortRecv = 20; } };
  auto w = std::make_unique<World>();
  const int link = int(rnd(4));     // 0, 1: pipes 2: sockets 3: server and client
  const int end = int(rnd(4));      // 0, 1: in the end 2: side 0 destroyed early 3: stream closed early
  const bool early = end >= 2;
  std::string d = "link" + std::to_string(link) + " end" + std::to_string(end);
  struct Msg { bool req; int id; bool wait; };
  std::vector<std::vector<Msg>> senders[2];
  int id = 0;
  const int nester = int(rnd(3));   // the side whose handlers send requests themselves (2: none)
  for (int s = 0; s < 2; s++) {
    d += s ? " B" : " A";
    for (int k = int(rnd(3)); k > 0; k--) {
      std::vector<Msg> v;
      d += "|";
      for (int n = 1 + int(rnd(3)); n > 0; n--) {
        Msg x{rnd(3) != 0, ++id, false};
        x.wait = x.req && !early && rnd(3) == 0;
        auto& o = w->side[1 - s];
        if (x.req && rnd(4) == 0) o.failIds.push_back(x.id);
        if (x.req && !early && rnd(4) == 0) o.deferIds.push_back(x.id);
        if (x.req && !early && nester == 1 - s && rnd(2)) o.nestIds.push_back(x.id);
        d += x.req ? (World::has(o.nestIds, x.id) ? "n" : World::has(o.deferIds, x.id) ? "d" : "q") : "e";
        v.push_back(x);
      }
      senders[s].push_back(v);
    }
  }
  vs::prog("\"%s\"", d.c_str());
  for (int s = 0; s < 2; s++) w->setup(s);
  std::shared_ptr<dap::ReaderWriter> p, q;
  std::unique_ptr<dap::net::Server> server;
  if (link < 2) {
    p = dap::pipe();
    q = dap::pipe();
    w->side[0].session->bind(q, p, w->onClose(0));
    w->side[1].session->bind(p, q, w->onClose(1));
  } else if (link == 2) {
    dap::Socket l("localhost", "5000");
    p = dap::Socket::connect("localhost", "5000", 0);
    q = l.accept();
    w->side[0].session->bind(p, w->onClose(0));
    w->side[1].session->bind(q, w->onClose(1));
  } else {
    server = dap::net::Server::create();
    std::mutex m;
    std::condition_variable cv;
    bool up = false;
    server->start(5000, [&](const std::shared_ptr<dap::ReaderWriter>& rw) {
      w->side[1].session->bind(rw, w->onClose(1));
      std::lock_guard<std::mutex> l(m);
      q = rw;
      up = true;
      cv.notify_all();
    });
    p = dap::net::connect("localhost", 5000, rnd(2) ? 0 : 1000);
    if (!p) { ev("{\"e\":\"NoConnection\"}"); return; }
    w->side[0].session->bind(p, w->onClose(0));
    std::unique_lock<std::mutex> l(m);
    while (!up) cv.wait(l);
  }
  disturb();
  std::vector<std::thread> th[2];
  for (int s = 0; s < 2; s++)
    for (auto& v : senders[s]) th[s].emplace_back([&w, &v, s] { for (auto& x : v) w->send(s, x.req, x.id, x.wait); });
  std::thread closer;
  if (end == 3) closer = std::thread([&] {
    for (int i = int(rnd(8)); i > 0; i--) vs::point();
    ev("{\"e\":\"Closing\"}");
    p->close();
    q->close();
  });
  if (end == 2) {
    for (auto& t : th[0]) t.join();
    ev("{\"e\":\"Closing\"}");
    w->side[0].session.reset();
    ev("{\"e\":\"DtorRet\",\"s\":0}");
  }
  w->quiesce();
  for (int s = 0; s < 2; s++) { for (auto& t : th[s]) if (t.joinable()) t.join(); }
  if (closer.joinable()) closer.join();
  if (server) { if (rnd(2)) server->stop(); server.reset(); }
  if (!early) w->quiesce();
  for (int s = 0; s < 2; s++) w->joinLate(s);
  int first = int(rnd(2));
  ev("{\"e\":\"Closing\"}");
  for (int k = 0; k < 2; k++) {
    int s = k ? 1 - first : first;
    if (!w->side[s].session) continue;
    w->side[s].session.reset();
    ev("{\"e\":\"DtorRet\",\"s\":%d}", s);
  }
  p.reset();
  q.reset();
  if (link >= 2 && sim::openFds() != 0) ev("{\"e\":\"Leak\",\"n\":%d}", sim::openFds());
}

}  // namespace

int main(int argc, char** argv) {
  dap::TypeOf<dap::PairResponse>::type(); dap::TypeOf<dap::PairRequest>::type(); dap::TypeOf<dap::PairEvent>::type();
  return hargs::runBatch(argc, argv, [&](long, uint64_t) { body(); });
}
