// Random small concurrent programs over the library's synchronisation objects,
// run under the controlled scheduler; records call/return traces.
//   h_sync <chan|pipe|promise|rwmutex|scoped> --out F --seed N --runs N [...]
#include "vsched.h"
#include "hargs.h"

#include "chan.h"
#include "rwmutex.h"
#include "dap/future.h"
#include "dap/io.h"

#include <condition_variable>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

using vs::ev;
using vs::rnd;

namespace {

struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;
  void wait() {
    std::unique_lock<std::mutex> l(m);
    while (!open) cv.wait(l);
  }
  void release() {
    std::unique_lock<std::mutex> l(m);
    open = true;
    cv.notify_all();
  }
};

std::string pad(int v) { return "item-" + std::to_string(v) + "-0123456789abcdef0123456789"; }
int unpad(const std::string& s) {
  if (s.compare(0, 5, "item-") != 0) return -1;
  int v = atoi(s.c_str() + 5);
  return pad(v) == s ? v : -1;
}

// ---------------------------------------------------------------- channel
void chanBody(long, uint64_t) {
  auto ch = std::make_shared<dap::Chan<std::string>>();
  struct Op { int kind; int v; };  // 0 put(const&) 1 put(&&) 2 take 3 close
  int nt = 2 + int(rnd(3));
  std::vector<std::vector<Op>> prog(nt);
  int val = 0, closes = 0;
  int bias = int(rnd(3));
  const bool bulk = rnd(60) == 0;  // long queues now and then
  for (auto& p : prog) {
    int n = 1 + int(rnd(bulk ? 40 : 3));
    for (int i = 0; i < n; i++) {
      int k = int(rnd(9));
      int kind = k < 2 ? 0 : k < 4 ? 1 : k < 8 ? 2 : 3;
      if (bias == 1 && kind == 2 && rnd(2)) kind = int(rnd(2));
      if (bias == 2 && kind < 2 && rnd(2)) kind = 2;
      if (bulk) kind = &p == &prog[0] ? (kind == 3 && i < n - 1 ? 0 : rnd(2)) : 2;
      if (kind == 3 && closes++ > 0) kind = 2;
      p.push_back({kind, kind < 2 ? ++val : 0});
    }
  }
  std::string d;
  for (auto& p : prog) {
    d += d.empty() ? "\"" : "|";
    for (auto& o : p) d += "pPtc"[o.kind];
  }
  vs::prog("%s\"", d.c_str());
  auto doOp = [&](int t, Op o) {
    if (o.kind <= 1) {
      ev("{\"e\":\"call\",\"t\":%d,\"op\":\"put\",\"v\":%d}", t, o.v);
      std::string s = pad(o.v);
      if (o.kind == 0) ch->put(static_cast<const std::string&>(s)); else ch->put(std::move(s));
      bool ok = o.kind == 1 || unpad(s) == o.v;
      ev("{\"e\":\"ret\",\"t\":%d,\"op\":\"put\",\"v\":%d}", t, ok ? 0 : -1);
    } else if (o.kind == 2) {
      ev("{\"e\":\"call\",\"t\":%d,\"op\":\"take\",\"v\":0}", t);
      auto r = ch->take();
      ev("{\"e\":\"ret\",\"t\":%d,\"op\":\"take\",\"v\":%d}", t, r.has_value() ? unpad(r.value()) : 0);
    } else {
      ev("{\"e\":\"call\",\"t\":%d,\"op\":\"close\",\"v\":0}", t);
      ch->close();
      ev("{\"e\":\"ret\",\"t\":%d,\"op\":\"close\",\"v\":0}", t);
    }
  };
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++)
    th.emplace_back([&, t] { for (auto& o : prog[t]) doOp(t + 1, o); });
  vs::waitQuiescent();
  ev("{\"e\":\"quiesce\",\"t\":0,\"op\":\"\",\"v\":0}");
  if (vs::unfinished()) {
    doOp(0, {3, 0});
    vs::waitQuiescent();
    ev("{\"e\":\"quiesce\",\"t\":0,\"op\":\"\",\"v\":0}");
    if (vs::unfinished()) vs::abandon();
  }
  for (auto& x : th) x.join();
  doOp(0, {3, 0});
  for (int i = 0; i < val + 1; i++) {
    // a take on a closed channel never blocks; run it on a helper so that a
    // stuck take shows up as a quiescence violation rather than a deadlock
    std::thread h([&] { doOp(nt + 1, {2, 0}); });
    vs::waitQuiescent();
    ev("{\"e\":\"quiesce\",\"t\":0,\"op\":\"\",\"v\":0}");
    if (vs::unfinished()) vs::abandon();
    h.join();
  }
}

// ------------------------------------------------------------------- pipe
void pipeBody(long, uint64_t) {
  auto p = dap::pipe();
  struct Op { int kind; int n; };  // 0 write(n) 1 read(n) 2 close 3 isOpen
  int nt = 2 + int(rnd(3));
  int readers = int(rnd(3));  // 0: anyone reads; 1: one reader thread; 2: readers and writers apart
  bool big = rnd(6) == 0;
  std::vector<std::vector<Op>> prog(nt);
  int closes = 0, wrote = 0;
  for (int t = 0; t < nt; t++) {
    int n = 1 + int(rnd(3));
    for (int i = 0; i < n; i++) {
      int k = int(rnd(12)), kind;
      if (readers == 0) kind = k < 5 ? 0 : k < 10 ? 1 : k < 11 ? 2 : 3;
      else if (readers == 1) kind = t == 0 ? (k < 11 ? 1 : 3) : (k < 10 ? 0 : k < 11 ? 2 : 3);
      else kind = t % 2 == 0 ? (k < 11 ? 1 : 2) : (k < 11 ? 0 : 2);
      if (kind == 2 && closes++ > 0) kind = 0;
      int len = kind == 0 ? int(rnd(big ? 40 : 5)) : kind == 1 ? 1 + int(rnd(big ? 30 : 5)) : 0;
      if (kind == 0) { if (wrote + len > 200) len = 0; wrote += len; }
      prog[t].push_back({kind, len});
    }
  }
  std::string d;
  for (auto& q : prog) {
    d += d.empty() ? "\"" : "|";
    for (auto& o : q) { d += "wrco"[o.kind]; if (o.kind < 2) d += std::to_string(o.n); }
  }
  // every abstract byte stands for B real ones
  static const int scales[] = {1, 1, 1, 1, 1, 300, 5000};
  const int B = scales[rnd(7)];
  vs::prog("%s x%d\"", d.c_str(), B);
  int nextByte = 0;
  auto js = [](const std::vector<unsigned char>& b) {
    std::string s = "[";
    for (size_t i = 0; i < b.size(); i++) { if (i) s += ","; s += std::to_string(int(b[i])); }
    return s + "]";
  };
  auto blow = [B](const std::vector<unsigned char>& a) {
    std::vector<unsigned char> r;
    for (auto c : a) for (int i = 0; i < B; i++) r.push_back((unsigned char)(c + i * 7));
    return r;
  };
  // reads are whole blocks unless the pipe returned short: -1 if not explained
  auto shrink = [B](const unsigned char* b, size_t n, std::vector<unsigned char>& out) {
    if (n % B) return false;
    for (size_t k = 0; k < n / B; k++) {
      unsigned char c = b[k * B];
      for (int i = 0; i < B; i++) if (b[k * B + i] != (unsigned char)(c + i * 7)) return false;
      out.push_back(c);
    }
    return true;
  };
  auto doOp = [&](int t, Op o) {
    if (o.kind == 0) {
      std::vector<unsigned char> b;
      for (int i = 0; i < o.n; i++) b.push_back((unsigned char)(++nextByte));
      ev("{\"e\":\"call\",\"t\":%d,\"op\":\"write\",\"n\":%d,\"d\":%s}", t, o.n, js(b).c_str());
      auto big = blow(b);
      bool r = p->write(big.data(), big.size());
      ev("{\"e\":\"ret\",\"t\":%d,\"op\":\"write\",\"n\":%d,\"d\":[]}", t, r ? 1 : 0);
    } else if (o.kind == 1) {
      const size_t want = size_t(o.n) * B;
      std::vector<unsigned char> b(want + 4, 0xEE), got;
      ev("{\"e\":\"call\",\"t\":%d,\"op\":\"read\",\"n\":%d,\"d\":[]}", t, o.n);
      size_t r = p->read(b.data(), want);
      bool guard = r <= want;
      for (size_t i = want; i < b.size(); i++) guard = guard && b[i] == 0xEE;
      guard = guard && shrink(b.data(), r, got);
      ev("{\"e\":\"ret\",\"t\":%d,\"op\":\"read\",\"n\":%d,\"d\":%s}", t, guard ? int(r / B) : -1, js(got).c_str());
    } else if (o.kind == 2) {
      ev("{\"e\":\"call\",\"t\":%d,\"op\":\"close\",\"n\":0,\"d\":[]}", t);
      p->close();
      ev("{\"e\":\"ret\",\"t\":%d,\"op\":\"close\",\"n\":0,\"d\":[]}", t);
    } else {
      ev("{\"e\":\"call\",\"t\":%d,\"op\":\"isopen\",\"n\":0,\"d\":[]}", t);
      bool r = p->isOpen();
      ev("{\"e\":\"ret\",\"t\":%d,\"op\":\"isopen\",\"n\":%d,\"d\":[]}", t, r ? 1 : 0);
    }
  };
  auto quiesce = [&] {
    vs::waitQuiescent();
    ev("{\"e\":\"quiesce\",\"t\":0,\"op\":\"\",\"n\":0,\"d\":[]}");
  };
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++)
    th.emplace_back([&, t] { for (auto& o : prog[t]) doOp(t + 1, o); });
  quiesce();
  int mode = int(rnd(3));
  if (vs::unfinished()) {
    if (mode == 0) { doOp(0, {0, 3}); quiesce(); }      // more data wakes readers
    if (vs::unfinished()) { doOp(0, {2, 0}); quiesce(); }
    if (vs::unfinished()) vs::abandon();
  }
  for (auto& x : th) x.join();
  auto helper = [&](Op o) {
    std::thread h([&] { doOp(nt + 1, o); });
    quiesce();
    if (vs::unfinished()) { doOp(0, {2, 0}); quiesce(); if (vs::unfinished()) vs::abandon(); }
    h.join();
  };
  // drain byte by byte what is left (a blocked read is unblocked by close)
  if (mode == 1) for (int i = 0; i < 3; i++) helper({1, 1 + int(rnd(3))});
  if (mode == 2) helper({1, 64});
  doOp(0, {2, 0});
  helper({1, 2});
  doOp(0, {0, 2});
  doOp(0, {3, 0});
}

// ---------------------------------------------------------------- promise
void promiseBody(long, uint64_t) {
  using P = dap::promise<std::string>;
  auto pr = std::make_shared<P>();
  // ops: 0 set(const&) 1 set(&&) 2 get 3 wait 4 wait_for 5 wait_until 6 get_future+get 7 valid
  int nt = 2 + int(rnd(3));
  struct Op { int kind; long ms; int own; };
  std::vector<std::vector<Op>> prog(nt);
  int setter = int(rnd(nt + 1));  // nt: nobody before the first quiescence
  static const long durs[] = {0, 1, 10, 3600000, -5};
  for (int t = 0; t < nt; t++) {
    int n = 1 + int(rnd(3));
    int at = int(rnd(n + 1));
    for (int i = 0; i <= n; i++) {
      if (t == setter && i == at) prog[t].push_back({int(rnd(2)), 0, int(rnd(2))});
      if (i == n) break;
      prog[t].push_back({2 + int(rnd(6)), durs[rnd(5)], int(rnd(2))});
    }
  }
  std::string d;
  for (auto& q : prog) {
    d += d.empty() ? "\"" : "|";
    for (auto& o : q) { d += "sSgwfuGv"[o.kind]; if (o.kind == 4 || o.kind == 5) d += std::to_string(o.ms); d += o.own ? "" : "'"; }
  }
  int moved = int(rnd(3));
  vs::prog("%s m%d\"", d.c_str(), moved);
  // moved: 0 plain, 1 the setter uses a copy of the promise, 2 a moved promise
  std::vector<P> copies;
  copies.reserve(8);
  copies.push_back(*pr);
  if (moved == 2) { P tmp(*pr); copies.push_back(std::move(tmp)); }
  auto shared = pr->get_future();
  bool setDone = false;
  auto doOp = [&](int t, Op o) {
    auto call = [&](const char* op, int v) { ev("{\"e\":\"call\",\"t\":%d,\"op\":\"%s\",\"v\":%d,\"early\":0}", t, op, v); };
    auto ret = [&](const char* op, int v, int early = 0) { ev("{\"e\":\"ret\",\"t\":%d,\"op\":\"%s\",\"v\":%d,\"early\":%d}", t, op, v, early); };
    if (o.kind <= 1) {
      if (setDone) return;
      setDone = true;
      call("set", 7);
      std::string s = pad(7);
      const P& p = moved == 0 ? *pr : copies.back();
      if (o.kind == 0) p.set_value(static_cast<const std::string&>(s)); else p.set_value(std::move(s));
      ret("set", o.kind == 1 || unpad(s) == 7 ? 0 : -1);
      return;
    }
    if (o.kind == 7) { call("valid", 0); ret("valid", shared.valid() ? 1 : 0); return; }
    dap::future<std::string> own = o.own ? copies[0].get_future() : pr->get_future();
    if (o.own && rnd(2)) { dap::future<std::string> m2(std::move(own)); own.~future(); new (&own) dap::future<std::string>(std::move(m2)); }
    dap::future<std::string>& f = o.own ? own : shared;
    if (o.kind == 2 || o.kind == 6) {
      call("get", 0);
      std::string v = o.kind == 6 ? pr->get_future().get() : f.get();
      ret("get", unpad(v));
    } else if (o.kind == 3) {
      call("wait", 0);
      f.wait();
      ret("wait", 0);
    } else {
      call("twait", int(o.ms));
      auto start = std::chrono::steady_clock::now();
      dap::future_status s;
      auto du = std::chrono::milliseconds(o.ms);
      if (o.kind == 4) s = f.wait_for(du);
      else s = f.wait_until(start + du);
      bool early = std::chrono::steady_clock::now() < start + du;
      ret("twait", s == dap::future_status::ready ? 1 : 0, s != dap::future_status::ready && early ? 1 : 0);
    }
  };
  auto quiesce = [&] {
    vs::waitQuiescent();
    ev("{\"e\":\"quiesce\",\"t\":0,\"op\":\"\",\"v\":0,\"early\":0}");
  };
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++)
    th.emplace_back([&, t] { for (auto& o : prog[t]) doOp(t + 1, o); });
  quiesce();
  if (!setDone) {
    doOp(0, {int(rnd(2)), 0, 0});
    quiesce();
  }
  if (vs::unfinished()) vs::abandon();
  for (auto& x : th) x.join();
  std::thread h([&] {
    doOp(nt + 1, {2, 0, 1});
    doOp(nt + 1, {3, 0, 0});
    doOp(nt + 1, {4, 0, 0});
    doOp(nt + 1, {5, 1, 1});
    doOp(nt + 1, {6, 1, 1});
  });
  quiesce();
  if (vs::unfinished()) vs::abandon();
  h.join();
}

// ---------------------------------------------------------------- rwmutex
void rwBody(long, uint64_t) {
  auto m = std::make_shared<dap::RWMutex>();
  Gate gate;
  int nt = 2 + int(rnd(4));
  // each thread: sessions of R or W, each possibly holding at the gate
  struct Op { bool w; bool hold; bool nest; };
  std::vector<std::vector<Op>> prog(nt);
  int wbias = int(rnd(3));
  for (auto& p : prog) {
    int n = 1 + int(rnd(2));
    for (int i = 0; i < n; i++) {
      bool w = wbias == 0 ? rnd(2) : wbias == 1 ? rnd(4) == 0 : rnd(4) != 0;
      p.push_back({w, rnd(4) == 0, !w && rnd(5) == 0});
    }
  }
  std::string d;
  for (auto& q : prog) {
    d += d.empty() ? "\"" : "|";
    for (auto& o : q) { d += o.w ? "W" : o.nest ? "N" : "R"; if (o.hold) d += "h"; }
  }
  vs::prog("%s\"", d.c_str());
  auto E = [&](const char* e, int t, const char* op) { ev("{\"e\":\"%s\",\"t\":%d,\"op\":\"%s\",\"a\":0,\"b\":0}", e, t, op); };
  auto body = [&](int t) {
    for (auto& o : prog[t - 1]) {
      if (o.w) { E("call", t, "wlock"); m->lockWriter(); E("ret", t, "wlock"); }
      else { E("call", t, "rlock"); m->lockReader(); E("ret", t, "rlock"); }
      if (o.nest) { E("call", t, "rlock"); m->lockReader(); E("ret", t, "rlock"); }
      if (o.hold) gate.wait();
      else if (rnd(2)) vs::point();
      if (o.nest) { E("call", t, "runlock"); m->unlockReader(); E("ret", t, "runlock"); }
      if (o.w) { E("call", t, "wunlock"); m->unlockWriter(); E("ret", t, "wunlock"); }
      else { E("call", t, "runlock"); m->unlockReader(); E("ret", t, "runlock"); }
    }
  };
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++) th.emplace_back([&, t] { body(t + 1); });
  vs::waitQuiescent();
  E("quiesce", 0, "");
  gate.release();
  vs::waitQuiescent();
  E("quiesce", 0, "");
  if (vs::unfinished()) vs::abandon();
  for (auto& x : th) x.join();
}

// -------------------------------------------------- scoped RLock / WLock
void scopedBody(long, uint64_t) {
  std::shared_ptr<dap::RWMutex[]> mu(new dap::RWMutex[2]);
  Gate gate1, gate2;
  // slots hold locks of one kind; ops by thread 1:
  //   C s m: construct slot s locking mutex m     M s d: move-construct d from s
  //   A s d: move-assign slot d from s (both live) D s: destroy slot
  bool w = rnd(2);
  struct Op { char k; int a, b; };
  std::vector<Op> ops;
  {
    // generate a well-formed sequence against a tiny model (live slot -> mutex or -1)
    int live[3] = {-2, -2, -2};  // -2: no object
    int held[2] = {0, 0};
    int n = 3 + int(rnd(7));
    for (int i = 0; i < n; i++) {
      int k = int(rnd(4)), s = int(rnd(3)), dd = int(rnd(3)), m = int(rnd(2));
      if (k == 0) {
        if (live[s] != -2 || (w && held[m])) continue;
        live[s] = m; held[m]++; ops.push_back({'C', s, m});
      } else if (k == 1) {
        if (live[s] == -2 || live[dd] != -2) continue;
        live[dd] = live[s]; live[s] = -1; ops.push_back({'M', s, dd});
      } else if (k == 2) {
        if (live[s] == -2 || live[dd] == -2 || s == dd) continue;
        if (live[dd] >= 0) held[live[dd]]--;
        live[dd] = live[s]; live[s] = -1; ops.push_back({'A', s, dd});
      } else {
        if (live[s] == -2) continue;
        if (live[s] >= 0) held[live[s]]--;
        live[s] = -2; ops.push_back({'D', s, 0});
      }
    }
  }
  std::string d = w ? "\"W:" : "\"R:";
  for (auto& o : ops) { d += o.k; d += char('0' + o.a); d += char('0' + o.b); }
  vs::prog("%s\"", d.c_str());
  auto E = [&](const char* e, int t, const char* op, int a, int b) {
    ev("{\"e\":\"%s\",\"t\":%d,\"op\":\"%s\",\"a\":%d,\"b\":%d}", e, t, op, a, b);
  };
  auto owner = [&] {
    alignas(8) unsigned char mem[3][sizeof(dap::RLock) > sizeof(dap::WLock) ? sizeof(dap::RLock) : sizeof(dap::WLock)];
    auto R = [&](int i) { return reinterpret_cast<dap::RLock*>(mem[i]); };
    auto W = [&](int i) { return reinterpret_cast<dap::WLock*>(mem[i]); };
    bool lv[3] = {false, false, false};
    auto run = [&](Op o) {
      const char* nm = o.k == 'C' ? (w ? "ctorW" : "ctorR") : o.k == 'M' ? "move" : o.k == 'A' ? "assign" : "dtor";
      E("call", 1, nm, o.a, o.b);
      switch (o.k) {
        case 'C': if (w) new (mem[o.a]) dap::WLock(mu[o.b]); else new (mem[o.a]) dap::RLock(mu[o.b]); lv[o.a] = true; break;
        case 'M': if (w) new (mem[o.b]) dap::WLock(std::move(*W(o.a))); else new (mem[o.b]) dap::RLock(std::move(*R(o.a))); lv[o.b] = true; break;
        case 'A': if (w) *W(o.b) = std::move(*W(o.a)); else *R(o.b) = std::move(*R(o.a)); break;
        case 'D': if (w) W(o.a)->~WLock(); else R(o.a)->~RLock(); lv[o.a] = false; break;
      }
      E("ret", 1, nm, o.a, o.b);
    };
    for (auto& o : ops) run(o);
    gate1.wait();
    for (int i = 0; i < 3; i++) if (lv[i]) run({'D', i, 0});
  };
  std::thread t1(owner);
  vs::waitQuiescent();
  E("quiesce", 0, "", 0, 0);
  // probes: on each mutex a reader (which then holds until gate2) and a writer
  std::vector<std::thread> th;
  bool readerFirst = rnd(2);
  auto probeR = [&](int t, int m) {
    E("call", t, "rlock", m, 0); mu[m].lockReader(); E("ret", t, "rlock", m, 0);
    gate2.wait();
    E("call", t, "runlock", m, 0); mu[m].unlockReader(); E("ret", t, "runlock", m, 0);
  };
  auto probeW = [&](int t, int m) {
    E("call", t, "wlock", m, 0); mu[m].lockWriter(); E("ret", t, "wlock", m, 0);
    gate2.wait();
    E("call", t, "wunlock", m, 0); mu[m].unlockWriter(); E("ret", t, "wunlock", m, 0);
  };
  for (int m = 0; m < 2; m++) {
    if (readerFirst) { th.emplace_back(probeR, 2 + m, m); vs::waitQuiescent(); E("quiesce", 0, "", 0, 0); }
    th.emplace_back(probeW, 4 + m, m);
    vs::waitQuiescent();
    E("quiesce", 0, "", 0, 0);
  }
  gate1.release();
  vs::waitQuiescent();
  E("quiesce", 0, "", 0, 0);
  gate2.release();
  vs::waitQuiescent();
  E("quiesce", 0, "", 0, 0);
  if (vs::unfinished()) vs::abandon();
  t1.join();
  for (auto& x : th) x.join();
}

}  // namespace

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "";
  vs::Body b;
  if (what == "chan") b = chanBody;
  else if (what == "pipe") b = pipeBody;
  else if (what == "promise") b = promiseBody;
  else if (what == "rwmutex") b = rwBody;
  else if (what == "scoped") b = scopedBody;
  else { fprintf(stderr, "usage\n"); return 2; }
  return hargs::runBatch(argc, argv, b);
}
