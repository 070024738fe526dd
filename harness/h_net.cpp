// The TCP socket and server classes on simulated sockets, under the
// controlled scheduler.
//   conn   : one connection; readers, writers, closers on both ends
//   server : servers started, stopped, restarted; clients connecting
#include "vsched.h"
#include "hargs.h"
#include "simnet.h"

#include "socket.h"
#include "dap/io.h"
#include "dap/network.h"

#include <condition_variable>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

using vs::ev;
using vs::rnd;

namespace {

using RWp = std::shared_ptr<dap::ReaderWriter>;

void setFaults(bool transferOnly) {
  auto& f = sim::faults;
  f = sim::Faults();
  switch (rnd(transferOnly ? 6 : 9)) {
    case 0: case 1: break;
    case 2: f.budget = 3; f.eintr = 30; break;
    case 3: f.budget = 4; f.shortSend = 60; f.shortRecv = 30; break;
    case 4: f.budget = 6; f.eintr = 20; f.shortSend = 30; f.shortRecv = 30; break;
    case 5: f.budget = 1; f.reset = 20; break;
    case 6: f.budget = 2; f.acceptAborted = 50; break;
    case 7: f.budget = 1; f.acceptHard = 30; break;
    default: f.budget = 1; f.setup = 40; f.connectErr = 50; break;
  }
  sim::capacity = rnd(3) == 0 ? 4 : rnd(2) ? 16 : 100;
  sim::reuseFds = rnd(2);
  sim::delayedAck = rnd(4) != 0;
}

// ---- the operations of one end of a connection, recorded
struct End {
  int side;
  RWp rw;
  size_t wpos = 0;  // of the next byte to write
  void write(int t, size_t n) {
    std::string b(n, 0);
    for (size_t i = 0; i < n; i++) b[i] = char((wpos + i) % 251);
    wpos += n;
    ev("{\"e\":\"call\",\"op\":\"write\",\"t\":%d,\"s\":%d,\"n\":%d}", t, side, int(n));
    bool ok = rw->write(b.data(), n);
    ev("{\"e\":\"ret\",\"op\":\"write\",\"t\":%d,\"s\":%d,\"ok\":%d}", t, side, int(ok));
  }
  size_t read(int t, size_t n) {
    std::string b(n + 8, '\x7e');
    ev("{\"e\":\"call\",\"op\":\"read\",\"t\":%d,\"s\":%d,\"n\":%d}", t, side, int(n));
    size_t k = rw->read(&b[0], n);
    bool seq = k <= n;
    for (size_t i = 1; seq && i < k; i++) seq = uint8_t(b[i]) == (uint8_t(b[i - 1]) + 1) % 251;
    for (size_t i = std::min(k, n); i < n + 8; i++) seq = seq && b[i] == '\x7e';
    ev("{\"e\":\"ret\",\"op\":\"read\",\"t\":%d,\"s\":%d,\"n\":%d,\"from\":%d,\"seq\":%d}", t, side, int(k), int(uint8_t(b[0])), int(seq));
    return k;
  }
  void close(int t) {
    ev("{\"e\":\"call\",\"op\":\"close\",\"t\":%d,\"s\":%d}", t, side);
    rw->close();
    ev("{\"e\":\"ret\",\"op\":\"close\",\"t\":%d,\"s\":%d}", t, side);
  }
  void isOpen(int t) {
    ev("{\"e\":\"call\",\"op\":\"isopen\",\"t\":%d,\"s\":%d}", t, side);
    bool o = rw->isOpen();
    ev("{\"e\":\"ret\",\"op\":\"isopen\",\"t\":%d,\"s\":%d,\"ok\":%d}", t, side, int(o));
  }
};

void connBody(long, uint64_t) {
  sim::begin();
  std::vector<std::thread> th;
  {
    End e[2] = {{0, nullptr}, {1, nullptr}};
    {
      dap::Socket server("localhost", "5000");
      sim::setNextConn(1);
      e[0].rw = dap::Socket::connect("localhost", "5000", rnd(2) ? 0 : 1000);
      if (e[0].rw) e[1].rw = server.accept();
      if (!e[0].rw || !e[1].rw) {
        ev("{\"e\":\"noconn\"}");
        return;
      }
      if (rnd(2)) server.close();
    }
    setFaults(true);
    ev("{\"e\":\"conn\"}");
    std::string d;
    int t = 0;
    const bool shortLife = rnd(3) == 0;
    for (int s = 0; s < 2; s++) {
      End& E = e[s];
      if (rnd(5)) {
        std::vector<size_t> w;
        for (int k = 1 + int(rnd(3)); k > 0; k--) w.push_back(rnd(8) == 0 ? 0 : rnd(4) == 0 ? 20 + rnd(280) : 1 + rnd(9));
        for (auto n : w) d += "w" + std::to_string(n);
        bool closeAfter = rnd(4) == 0;
        d += closeAfter ? "c " : " ";
        th.emplace_back([&E, w, closeAfter, t = ++t] { for (auto n : w) E.write(t, n); if (closeAfter) E.close(t); });
      }
      if (rnd(5)) {
        size_t n = rnd(3) == 0 ? 1 : rnd(2) ? 7 : 64;
        int times = shortLife ? int(rnd(3)) : 1000;
        d += "r" + std::to_string(n) + (times < 1000 ? "x" + std::to_string(times) : "") + " ";
        th.emplace_back([&E, n, times, t = ++t] { for (int i = 0; i < times; i++) if (!E.read(t, n)) break; });
      }
      if (rnd(3) == 0) {
        int k = 1 + int(rnd(2));
        d += k > 1 ? "cc " : "c ";
        for (; k > 0; k--) th.emplace_back([&E, t = ++t] { E.close(t); });
      }
      if (rnd(3) == 0) {
        d += "o ";
        th.emplace_back([&E, t = ++t] { E.isOpen(t); E.isOpen(t); });
      }
      d += "| ";
    }
    vs::prog("\"%s\"", d.c_str());
    int first = int(rnd(2));
    for (int round = 0; round < 3; round++) {
      vs::waitQuiescent();
      ev("{\"e\":\"quiet\"}");
      if (!vs::unfinished() && round == 0) break;
      if (round == 2) { if (vs::unfinished()) vs::abandon(); break; }
      e[round == 0 ? first : 1 - first].close(0);
    }
    for (auto& x : th) x.join();
    th.clear();
    // what is left in the stream, then both ends closed
    sim::faults.budget = 0;
    for (int s = 0; s < 2; s++) {
      e[s].close(0);
      if (rnd(2)) {
        e[1 - s].close(0);
      } else {
        for (int i = 0; i < 400; i++) if (!e[1 - s].read(0, 50)) break;
        e[1 - s].close(0);
      }
      e[s].isOpen(0);
      e[s].write(0, 3);
      e[s].read(0, 3);
      e[s].isOpen(0);
    }
  }
  ev("{\"e\":\"end\",\"fds\":%d}", sim::openFds());
}

// ---- servers
struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;
  void wait() { std::unique_lock<std::mutex> l(m); while (!open) cv.wait(l); }
  void release() { std::unique_lock<std::mutex> l(m); open = true; cv.notify_all(); }
};
struct Srv {
  int id;
  std::unique_ptr<dap::net::Server> s;
  int mode = 0;  // of the callback
  Gate gate;
  std::mutex m;
  std::vector<RWp> kept;
  void start(int t, int port) {
    ev("{\"e\":\"call\",\"op\":\"start\",\"t\":%d,\"v\":%d,\"port\":%d}", t, id, port);
    auto cb = [this](const RWp& rw) {
      sim::clearLastConn();
      bool open = rw->isOpen();
      int c = sim::lastConn();
      ev("{\"e\":\"cb\",\"v\":%d,\"c\":%d}", id, c);
      if (mode == 1) gate.wait();
      if (mode == 2) { char b; if (rw->read(&b, 1) == 1) rw->write(&b, 1); }
      if (mode == 3) { std::unique_lock<std::mutex> l(m); kept.push_back(rw); }
      if (mode == 4) rw->close();
      ev("{\"e\":\"cbret\",\"v\":%d,\"c\":%d}", id, c);
      (void)open;
    };
    auto err = [this](const char*) { ev("{\"e\":\"err\",\"v\":%d,\"t\":%d}", id, vs::tid()); };
    int real = vs::tid();
    ev("{\"e\":\"as\",\"t\":%d,\"tid\":%d}", t, real);
    bool ok = rnd(2) ? s->start(port, cb, err) : s->start("127.0.0.1", port, cb, err);
    ev("{\"e\":\"ret\",\"op\":\"start\",\"t\":%d,\"v\":%d,\"ok\":%d}", t, id, int(ok));
  }
  void stop(int t) {
    ev("{\"e\":\"call\",\"op\":\"stop\",\"t\":%d,\"v\":%d}", t, id);
    s->stop();
    ev("{\"e\":\"ret\",\"op\":\"stop\",\"t\":%d,\"v\":%d}", t, id);
  }
  void destroy(int t) {
    ev("{\"e\":\"call\",\"op\":\"stop\",\"t\":%d,\"v\":%d}", t, id);
    s.reset();
    ev("{\"e\":\"ret\",\"op\":\"stop\",\"t\":%d,\"v\":%d}", t, id);
  }
};

void serverBody(long, uint64_t) {
  sim::begin();
  setFaults(false);
  const sim::Faults fl = sim::faults;
  {
    int ns = 1 + int(rnd(4) == 0);
    std::vector<std::unique_ptr<Srv>> srv;
    for (int i = 0; i < ns; i++) {
      srv.emplace_back(new Srv{i + 1, dap::net::Server::create()});
      srv.back()->mode = int(rnd(5));
    }
    std::mutex km;
    std::vector<RWp> clients;
    std::vector<std::thread> th;
    int t = 0, nextId = 0;
    const bool samePort = rnd(2);
    auto portOf = [&](int i) { return samePort ? 5000 : 5000 + i; };
    std::string d;
    if (rnd(5) == 0) { sim::rawListen(5000); d += "busy "; }
    ev("{\"e\":\"server\"}");
    auto script = [&](int i) {
      std::string s;
      for (int k = 1 + int(rnd(4)); k > 0; k--) s += "SSSTTX"[rnd(6)];
      if (rnd(3)) s = "S" + s;
      (void)i;
      return s;
    };
    for (int i = 0; i < ns; i++) {
      int ctl = 1 + int(rnd(3) == 0);
      for (int c = 0; c < ctl; c++) {
        std::string s = script(i);
        if (ctl == 1)
          for (auto& o : s) if (o == 'T' && rnd(2)) o = 'R';
        d += s + " ";
        Srv* v = srv[size_t(i)].get();
        int port = portOf(i);
        th.emplace_back([=, t = ++t] {
          for (char o : s) {
            if (o == 'S') v->start(t, port);
            if (o == 'T') v->stop(t);
            if (o == 'R') { v->destroy(t); v->s = dap::net::Server::create(); }
            if (o == 'X') std::this_thread::sleep_for(std::chrono::milliseconds(10));
          }
        });
      }
    }
    int nc = int(rnd(4));
    for (int i = 0; i < nc; i++) {
      int times = 1 + int(rnd(2));
      static const uint32_t tos[] = {0, 0, 5, 1000, 4294968, 5000000};
      uint32_t timeout = tos[rnd(6)];
      int port = portOf(int(rnd(uint64_t(ns))));
      bool quick = rnd(2);
      int base = nextId;
      nextId += times;
      d += "c" + std::to_string(times) + " ";
      th.emplace_back([=, &km, &clients, t = ++t] {
        for (int k = 0; k < times; k++) {
          int id = base + k + 1;
          sim::setNextConn(id);
          ev("{\"e\":\"call\",\"op\":\"connect\",\"t\":%d,\"c\":%d,\"port\":%d,\"ms\":%d}", t, id, port, int(timeout));
          ev("{\"e\":\"as\",\"t\":%d,\"tid\":%d}", t, vs::tid());
          int64_t t0 = vs::nowNs(), w0 = vs::waitedNs();
          auto rw = dap::net::connect("localhost", port, timeout);
          int64_t ms = (vs::nowNs() - t0) / 1000000, w = (vs::waitedNs() - w0) / 1000000;
          ev("{\"e\":\"ret\",\"op\":\"connect\",\"t\":%d,\"c\":%d,\"ok\":%d,\"ms\":%d,\"w\":%d}", t, id, rw ? 1 : 0, int(std::min<int64_t>(ms, 2000000000)), int(std::min<int64_t>(w, 2000000000)));
          if (!rw) continue;
          char b = char(id);
          if (!quick) {
            rw->write(&b, 1);
            std::unique_lock<std::mutex> l(km);
            clients.push_back(rw);
          } else {
            rw->write(&b, 1);
            rw->close();
          }
        }
      });
    }
    vs::prog("\"%s\"", d.c_str());
    vs::waitQuiescent();
    ev("{\"e\":\"quiet\"}");
    // let blocked callbacks go, and stop everything
    for (auto& v : srv) v->gate.release();
    vs::waitQuiescent();
    ev("{\"e\":\"quiet\"}");
    { std::unique_lock<std::mutex> l(km); for (auto& c : clients) c->close(); }
    sim::rawClose(5000);
    vs::waitQuiescent();
    ev("{\"e\":\"quiet\"}");
    for (auto& v : srv) {
      if (rnd(2)) v->stop(0);
      v->destroy(0);
    }
    vs::waitQuiescent();
    ev("{\"e\":\"quiet\"}");
    if (vs::unfinished()) vs::abandon();
    for (auto& x : th) x.join();
    clients.clear();
  }
  (void)fl;
  ev("{\"e\":\"end\",\"fds\":%d}", sim::openFds());
}

}  // namespace

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "conn";
  return hargs::runBatch(argc, argv, what == "server" ? vs::Body(serverBody) : vs::Body(connBody));
}
