// Long histories: thousands of messages, items, bytes, requests, waiters.
// What happened is recorded as runs of consecutive numbers (spec/Long.tla).
//   h_long <in|out|fail|chan|pipe|rw|promise|value|adapt|pair> --out F ...
#include "hseq.h"
#include "mini_json.h"

#include "chan.h"
#include "json_serializer.h"
#include "rwmutex.h"

#include "dap/future.h"
#include "dap/io.h"
#include "dap/protocol.h"
#include "dap/session.h"

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <map>
#include <mutex>
#include <thread>
#include <vector>

using hseq::fmt;
using hseq::Rng;

namespace dap {
struct LResp : public Response { integer id = 0; };
struct LReq : public Request { using Response = LResp; integer id = 0; };
struct LEvt : public Event { integer id = 0; };
DAP_STRUCT_TYPEINFO(LResp, "", DAP_FIELD(id, "id"));
DAP_STRUCT_TYPEINFO(LReq, "lreq", DAP_FIELD(id, "id"));
DAP_STRUCT_TYPEINFO(LEvt, "levt", DAP_FIELD(id, "id"));
}  // namespace dap

namespace {

using Lock = std::unique_lock<std::mutex>;
std::mutex gm;
long gEvents = 0;
void ev(const std::string& e) {
  Lock l(gm);
  if (++gEvents < 3000) hseq::ev(e);
  else if (gEvents == 3000) hseq::ev("{\"e\":\"TooMany\"}");
}

// joins consecutive numbers
struct Runs {
  std::string e, ch;
  long a = 0, b = -1;
  std::mutex m;
  std::atomic<long> n{0};
  Runs(const char* e, const char* ch = "") : e(e), ch(ch) {}
  ~Runs() { flush(); }
  void put() {
    if (b < a) return;
    if (ch.empty()) ev(fmt("{\"e\":\"%s\",\"a\":%ld,\"b\":%ld}", e.c_str(), a, b));
    else ev(fmt("{\"e\":\"%s\",\"ch\":\"%s\",\"a\":%ld,\"b\":%ld}", e.c_str(), ch.c_str(), a, b));
    b = a - 1;
  }
  void add(long x) {
    Lock l(m);
    n++;
    if (b >= a && x == b + 1) { b = x; return; }
    put();
    a = b = x;
  }
  void flush() { Lock l(m); put(); a = 0; b = -1; }
};
void run(const char* e, const char* ch, long a, long b) {
  if (a <= b) ev(fmt("{\"e\":\"%s\",\"ch\":\"%s\",\"a\":%ld,\"b\":%ld}", e, ch, a, b));
}

// Waits until f() or, in a history that went wrong, until nothing has moved
// for a while.
template <class F, class P> void await(F f, P progress) {
  long last = -1;
  int idle = 0;
  while (!f()) {
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
    long p = progress();
    if (p != last) { last = p; idle = 0; }
    else if (++idle > 6000) return;
    hseq::shared()->cur = hseq::shared()->cur;
  }
}

struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;
  void wait() { Lock l(m); while (!open) cv.wait(l); }
  void release() { Lock l(m); open = true; cv.notify_all(); }
};

// the peer's messages, read at once or in pieces
struct Feed : dap::Reader {
  std::mutex m;
  std::condition_variable cv;
  std::string data;
  size_t pos = 0, chunk = 0;
  bool closed = false;
  bool isOpen() override { Lock l(m); return !closed; }
  void close() override { Lock l(m); closed = true; cv.notify_all(); }
  size_t read(void* b, size_t n) override {
    Lock l(m);
    while (!closed && pos == data.size()) cv.wait(l);
    if (closed) return 0;
    size_t k = std::min(n, data.size() - pos);
    if (chunk) k = std::min(k, chunk);
    memcpy(b, data.data() + pos, k);
    pos += k;
    return k;
  }
  void frame(const std::string& body) {
    Lock l(m);
    data += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    cv.notify_all();
  }
  size_t left() { Lock l(m); return data.size() - pos; }
};

// what the session writes: whole frames, parsed
struct Sink : dap::Writer {
  std::mutex m;
  std::string buf;
  bool closed = false;
  std::function<void(const mj::V&)> on;
  bool isOpen() override { Lock l(m); return !closed; }
  void close() override { Lock l(m); closed = true; }
  bool write(const void* d, size_t n) override {
    Lock l(m);
    if (closed) return false;
    buf.append(static_cast<const char*>(d), n);
    while (true) {
      size_t h = buf.find("\r\n\r\n");
      if (h == std::string::npos) return true;
      size_t len = size_t(atol(buf.c_str() + 15));
      if (buf.size() < h + 4 + len) return true;
      mj::V v;
      if (!mj::parse(buf.substr(h + 4, len), v)) { ev("{\"e\":\"NotJson\"}"); }
      else on(v);
      buf.erase(0, h + 4 + len);
    }
  }
};
long num(const mj::V& v, const char* n) {
  auto p = v.get(n);
  return p && p->k == mj::V::Int ? long(p->i) : -1;
}
std::string str(const mj::V& v, const char* n) {
  auto p = v.get(n);
  return p && p->k == mj::V::Str ? p->s : "?";
}

// sizes on both sides of round ones
long size(Rng& r, long max) {
  std::vector<long> c;
  for (long k = 16; k <= max; k *= 2) c.push_back(k + 1);
  for (long k = 100; k <= max; k *= 10) c.push_back(k + 1);
  c.push_back(max);
  return c[r(c.size())];
}

// ---------------------------------------------- messages into a busy session
void in(Rng& r, bool largest) {
  long n = largest ? 5000 : size(r, 2100), bad = r(2) ? long(1 + r(400)) : 0;
  auto s = dap::Session::create();
  auto rd = std::make_shared<Feed>();
  auto wr = std::make_shared<Sink>();
  Gate gate;
  std::atomic<long> errs{0};
  Runs handled("Take", "handled"), answered("Take", "answered"), seqs("Seq");
  std::atomic<bool> first{true};
  auto hold = [&] { if (first.exchange(false)) gate.wait(); };
  wr->on = [&](const mj::V& v) {
    seqs.add(num(v, "seq"));
    auto b = v.get("body");
    answered.add(b && num(*b, "id") == num(v, "request_seq") ? num(v, "request_seq") : -1);
  };
  s->onError([&](const char*) { errs++; });
  s->registerHandler([&](const dap::LReq& q) { hold(); handled.add(long(q.id)); dap::LResp p; p.id = q.id; return p; });
  s->registerHandler([&](const dap::LEvt& q) { hold(); handled.add(long(q.id)); });
  // requests, then events, then requests ...
  long at = 1, reqs = 0;
  bool isReq = r(2);
  std::vector<std::pair<long, long>> asked;
  rd->chunk = r(3) ? 0 : 1000;
  long badAt = bad ? 1 + long(r(uint64_t(n))) : 0;
  while (at <= n) {
    long to = std::min(n, at + long(r(uint64_t(n))));
    if (isReq) asked.push_back({at, to});
    for (; at <= to; at++) {
      if (isReq) { rd->frame(fmt("{\"seq\":%ld,\"type\":\"request\",\"command\":\"lreq\",\"arguments\":{\"id\":%ld}}", at, at)); reqs++; }
      else rd->frame(fmt("{\"seq\":%ld,\"type\":\"event\",\"event\":\"levt\",\"body\":{\"id\":%ld}}", at, at));
      if (at == badAt)
        for (long i = 0; i < bad; i++) rd->frame(i % 3 ? "{\"seq\":1,\"type\":\"request\",\"command\":\"unknown\"}" : "{\"seq\":1,\"type\":");
    }
    isReq = !isReq;
  }
  run("Put", "handled", 1, n);
  for (auto& a : asked) run("Put", "answered", a.first, a.second);
  ev(fmt("{\"e\":\"Due\",\"n\":%ld}", bad));
  s->bind(rd, wr);
  await([&] { return rd->left() == 0; }, [&] { return long(rd->left()); });
  std::this_thread::sleep_for(std::chrono::milliseconds(3));
  gate.release();
  await([&] { return handled.n >= n && answered.n >= reqs && errs >= bad; }, [&] { return handled.n + answered.n + errs; });
  s.reset();
  handled.flush();
  answered.flush();
  seqs.flush();
  ev(fmt("{\"e\":\"Errs\",\"n\":%ld}", errs.load()));
  ev("{\"e\":\"End\"}");
}

// ------------------------------------------------- many requests outstanding
void out(Rng& r, bool largest) {
  long n = largest ? 3000 : size(r, 1100), before = largest ? 66000 : long(r(300));
  auto s = dap::Session::create();
  auto rd = std::make_shared<Feed>();
  auto wr = std::make_shared<Sink>();
  Runs wired("Take", "sent"), seqs("Seq");
  std::vector<long> seqOf(size_t(before + n) + 2, 0);
  wr->on = [&](const mj::V& v) {
    seqs.add(num(v, "seq"));
    auto b = v.get(str(v, "type") == "event" ? "body" : "arguments");
    long id = b ? num(*b, "id") : -1;
    if (id > 0 && id <= before + n) seqOf[size_t(id)] = num(v, "seq");
    wired.add(id);
  };
  std::atomic<long> errs{0};
  s->onError([&](const char*) { errs++; });
  s->bind(rd, wr);
  using F = dap::future<dap::ResponseOrError<dap::LResp>>;
  run("Put", "sent", 1, before + n);
  for (long i = 1; i <= before; i++) { dap::LEvt e; e.id = i; s->send(e); }
  std::vector<F> fs;
  for (long i = before + 1; i <= before + n; i++) { dap::LReq q; q.id = i; fs.push_back(s->send(q)); }
  wired.flush();
  run("Add", "answers", before + 1, before + n);
  // the answers: in order, backwards, or in shuffled blocks
  std::vector<long> order;
  for (long i = before + 1; i <= before + n; i++) order.push_back(i);
  int how = int(r(3));
  if (how == 1) std::reverse(order.begin(), order.end());
  if (how == 2) {
    std::vector<long> o;
    size_t k = order.size() / 7 + 1;
    for (size_t p : {3, 0, 6, 2, 5, 1, 4}) for (size_t i = p * k; i < std::min(order.size(), (p + 1) * k); i++) o.push_back(order[i]);
    order = o;
  }
  for (long id : order)
    rd->frame(fmt("{\"seq\":7,\"type\":\"response\",\"request_seq\":%ld,\"success\":true,\"command\":\"lreq\",\"body\":{\"id\":%ld}}", seqOf[size_t(id)], id));
  auto ready = [](F& f) { return f.wait_for(std::chrono::seconds(0)) == dap::future_status::ready; };
  size_t have = 0;
  await([&] { while (have < fs.size() && ready(fs[have])) have++; return have == fs.size(); }, [&] { return long(have + rd->left()); });
  {
    Runs done("Done", "answers");
    for (size_t i = 0; i < fs.size(); i++)
      if (ready(fs[i])) {
        auto a = fs[i].get();
        done.add(!a.error && a.response.id == before + 1 + long(i) ? before + 1 + long(i) : -1);
      }
  }
  s.reset();
  seqs.flush();
  ev("{\"e\":\"Due\",\"n\":0}");
  ev(fmt("{\"e\":\"Errs\",\"n\":%ld}", errs.load()));
  ev("{\"e\":\"End\"}");
}

// ------------------------------------------------------------- failed sends
void fail(Rng& r, bool largest) {
  long n = largest ? 5000 : size(r, 1100);
  auto s = dap::Session::create();
  auto rd = std::make_shared<Feed>();
  auto wr = std::make_shared<Sink>();
  wr->on = [](const mj::V&) { ev("{\"e\":\"Written\"}"); };
  std::atomic<long> errs{0};
  s->onError([&](const char*) { errs++; });
  if (r(2)) { s->bind(rd, wr); wr->close(); }
  run("Add", "failed", 1, n);
  ev(fmt("{\"e\":\"Due\",\"n\":%ld}", n));
  {
    Runs done("Done", "failed");
    for (long i = 1; i <= n; i++) {
      dap::LReq q;
      q.id = i;
      auto f = s->send(q);
      bool ok = f.wait_for(std::chrono::seconds(0)) == dap::future_status::ready && f.get().error;
      done.add(ok ? i : -1);
    }
  }
  s.reset();
  ev(fmt("{\"e\":\"Errs\",\"n\":%ld}", errs.load()));
  ev("{\"e\":\"End\"}");
}

// ------------------------------------------------------------------- queues
void chan(Rng& r, bool largest) {
  long max = largest ? 300000 : 20000, put = 0, took = 0;
  dap::Chan<long> c;
  for (int k = 1 + int(r(4)); k > 0; k--) {
    long n = size(r, max);
    run("Put", "chan", put + 1, put + n);
    for (long i = 0; i < n; i++) { put++; if (i % 3) c.put(put); else c.put(long(put)); }
    if (k == 1 && r(2)) c.close();
    long m = k == 1 ? put - took : long(r(uint64_t(put - took)));
    Runs take("Take", "chan");
    for (long i = 0; i < m; i++) {
      took++;
      auto x = c.take();
      take.add(x ? x.value() : -1);
    }
  }
  ev("{\"e\":\"End\"}");
}
// the byte at position i of any stream
char byteAt(long i) { return char((i * 7 + i / 251 + i / 65521) & 0xff); }
void pipe(Rng& r, bool largest) {
  long max = largest ? 5000000 : 300000, put = 0, took = 0;
  auto p = dap::pipe();
  std::string b;
  for (int k = 1 + int(r(4)); k > 0; k--) {
    long n = size(r, max);
    run("Put", "pipe", put + 1, put + n);
    while (n > 0) {
      long c = std::min(n, r(3) ? 1 + long(r(70000)) : n);
      b.resize(size_t(c));
      for (long i = 0; i < c; i++) b[size_t(i)] = byteAt(++put);
      if (!p->write(b.data(), size_t(c))) ev("{\"e\":\"WriteFailed\"}");
      n -= c;
    }
    long m = k == 1 ? put - took : long(r(uint64_t(put - took)));
    Runs take("Take", "pipe");
    while (m > 0) {
      long c = std::min(m, r(3) ? 1 + long(r(70000)) : m);
      b.assign(size_t(c), 0);
      long got = long(p->read(&b[0], size_t(c)));
      for (long i = 0; i < got; i++) { took++; take.add(b[size_t(i)] == byteAt(took) ? took : -1); }
      if (got != c) { ev("{\"e\":\"ShortRead\"}"); return; }
      m -= c;
    }
  }
  ev("{\"e\":\"End\"}");
}

// --------------------------------------------------------------------- locks
void rw(Rng& r, bool largest) {
  long n = largest ? 66000 : size(r, 5000);
  dap::RWMutex m;
  for (long i = 0; i < n; i++) m.lockReader();
  ev(fmt("{\"e\":\"RLock\",\"n\":%ld}", n));
  std::atomic<bool> started{false}, in{false};
  std::thread w([&] {
    started = true;
    m.lockWriter();
    in = true;
    ev("{\"e\":\"WIn\"}");
    ev("{\"e\":\"WOut\"}");
    m.unlockWriter();
  });
  while (!started) std::this_thread::yield();
  std::this_thread::sleep_for(std::chrono::milliseconds(20));
  for (long i = 1; i < n && !in; i++) m.unlockReader();
  std::this_thread::sleep_for(std::chrono::milliseconds(5));
  // released one after the other: announced before the last one
  ev(fmt("{\"e\":\"RUnlock\",\"n\":%ld}", n));
  if (!in) m.unlockReader();
  await([&] { return in.load(); }, [] { return 0; });
  if (!in) { ev("{\"e\":\"Stranded\"}"); w.detach(); return; }
  w.join();
  ev("{\"e\":\"End\"}");
}
void promise(Rng& r, bool largest) {
  long n = largest ? 600 : 1 + long(r(150));
  dap::promise<long> p;
  std::vector<std::thread> th;
  std::vector<std::atomic<long>> got(size_t(n) + 1);
  std::atomic<long> cnt{0};
  run("Add", "waiters", 1, n);
  for (long i = 1; i <= n; i++)
    th.emplace_back([&, i, f = std::make_shared<dap::future<long>>(p.get_future())] { if (i % 2) f->wait(); got[size_t(i)] = f->get() == 4711 ? i : -1; cnt++; });
  if (r(2)) std::this_thread::sleep_for(std::chrono::milliseconds(30));
  p.set_value(4711);
  await([&] { return cnt == n; }, [&] { return cnt.load(); });
  {
    Runs done("Done", "waiters");
    for (long i = 1; i <= n; i++) if (got[size_t(i)]) done.add(got[size_t(i)]);
  }
  if (cnt != n) { for (auto& t : th) t.detach(); ev("{\"e\":\"End\"}"); hseq::ev("{\"e\":\"Stranded\"}"); std::this_thread::sleep_for(std::chrono::milliseconds(1)); return; }
  for (auto& t : th) t.join();
  ev("{\"e\":\"End\"}");
}

// -------------------------------------------------------------------- values
template <class T> bool through(const T& v, T* back) {
  dap::json::Serializer s;
  if (!s.serialize(v)) return false;
  std::string t = s.dump();
  mj::V p;
  if (!mj::parse(t, p)) return false;
  dap::json::Deserializer d(t);
  return d.deserialize(back);
}
void value(Rng& r, bool largest) {
  using namespace dap;
  long n = largest ? 200000 : size(r, 20000);
  switch (r(7)) {
    case 0: case 1: {   // characters of a string
      n = largest ? 3000000 : size(r, 300000);
      dap::string v, back;
      int kind = int(r(3));
      auto ch = [&](long i) { return kind == 0 ? char('a' + i % 26) : kind == 1 ? char(i % 128) : char(32 + i * 7 % 95); };
      for (long i = 1; i <= n; i++) v += ch(i);
      run("Put", "string", 1, n);
      bool asAny = r(3) == 0;
      if (asAny) {
        any a = v, b;
        if (!through(a, &b) || !b.is<dap::string>()) { ev("{\"e\":\"Failed\"}"); return; }
        back = b.get<dap::string>();
      } else if (!through(v, &back)) { ev("{\"e\":\"Failed\"}"); return; }
      Runs take("Take", "string");
      for (size_t i = 0; i < back.size(); i++) take.add(back[i] == ch(long(i) + 1) ? long(i) + 1 : -1);
      break;
    }
    case 2: {   // integers of an array
      array<integer> v, back;
      for (long i = 1; i <= n; i++) v.push_back(integer(i));
      run("Put", "array", 1, n);
      if (!through(v, &back)) { ev("{\"e\":\"Failed\"}"); return; }
      Runs take("Take", "array");
      for (auto& x : back) take.add(long(x));
      break;
    }
    case 3: {   // elements of an any
      array<any> v;
      for (long i = 1; i <= n; i++) { if (i % 2) v.push_back(integer(i)); else v.push_back(std::to_string(i)); }
      any a = v, back;
      run("Put", "array", 1, n);
      if (!through(a, &back) || !back.is<array<any>>()) { ev("{\"e\":\"Failed\"}"); return; }
      Runs take("Take", "array");
      for (auto& x : back.get<array<any>>()) take.add(x.is<integer>() ? long(x.get<integer>()) : x.is<dap::string>() ? atol(x.get<dap::string>().c_str()) : -1);
      break;
    }
    case 4: {   // members of an object
      object v, back;
      n = std::min(n, 60000l);
      for (long i = 1; i <= n; i++) v["k" + std::to_string(i)] = integer(i);
      run("Add", "object", 1, n);
      if (!through(v, &back)) { ev("{\"e\":\"Failed\"}"); return; }
      Runs done("Done", "object");
      for (long i = 1; i <= n; i++) { auto it = back.find("k" + std::to_string(i)); if (it != back.end()) done.add(it->second.is<integer>() && it->second.get<integer>() == i ? i : -1); }
      if (long(back.size()) != n) { done.flush(); ev("{\"e\":\"Invented\"}"); return; }
      break;
    }
    case 5: {   // structures in an array
      n = std::min(n, 20000l);
      array<LEvt> v(static_cast<size_t>(n)), back;
      for (long i = 1; i <= n; i++) v[size_t(i) - 1].id = i;
      run("Put", "array", 1, n);
      if (!through(v, &back)) { ev("{\"e\":\"Failed\"}"); return; }
      Runs take("Take", "array");
      for (auto& x : back) take.add(long(x.id));
      break;
    }
    default: {   // levels of nesting
      n = std::min(n, 300l);
      any v = integer(n);
      for (long i = n; i > 0; i--) {
        if (i % 2) { array<any> x; x.push_back(integer(i)); x.push_back(v); v = x; }
        else { object o; o["i"] = integer(i); o["v"] = v; v = o; }
      }
      any back;
      run("Put", "levels", 1, n);
      if (!through(v, &back)) { ev("{\"e\":\"Failed\"}"); return; }
      Runs take("Take", "levels");
      while (true) {
        any next;
        if (back.is<array<any>>()) {
          auto& x = back.get<array<any>>();
          if (x.size() != 2 || !x[0].is<integer>()) { take.add(-1); break; }
          take.add(long(x[0].get<integer>()));
          next = x[1];
        } else if (back.is<object>()) {
          auto& o = back.get<object>();
          if (o.size() != 2 || !o["i"].is<integer>()) { take.add(-1); break; }
          take.add(long(o["i"].get<integer>()));
          next = o["v"];
        } else break;
        back = next;
      }
    }
  }
  ev("{\"e\":\"End\"}");
}

// ------------------------------------------------------------------ adapters
void adapt(Rng& r, bool largest) {
  long n = largest ? 3000000 : size(r, 300000);
  std::string data(size_t(n), 0);
  for (long i = 1; i <= n; i++) data[size_t(i) - 1] = byteAt(i);
  auto give = [&](dap::Writer& w) {
    for (size_t p = 0; p < data.size();) {
      size_t c = std::min(data.size() - p, r(2) ? 1 + size_t(r(90000)) : data.size());
      if (!w.write(data.data() + p, c)) ev("{\"e\":\"WriteFailed\"}");
      p += c;
    }
  };
  auto compare = [&](const char* ch, const std::string& s) {
    Runs take("Take", ch);
    for (size_t i = 0; i < s.size(); i++) take.add(s[i] == byteAt(long(i) + 1) ? long(i) + 1 : -1);
  };
  auto fetch = [&](dap::Reader& rd, size_t total) {
    std::string all, b;
    while (all.size() < total) {
      b.assign(std::min(total - all.size(), r(2) ? 1 + size_t(r(90000)) : total), 0);
      size_t k = rd.read(&b[0], b.size());
      if (k == 0) break;
      all.append(b, 0, k);
    }
    return all;
  };
  struct Mem : dap::Writer {
    std::string s;
    bool isOpen() override { return true; }
    void close() override {}
    bool write(const void* d, size_t k) override { s.append(static_cast<const char*>(d), k); return true; }
  };
  switch (r(4)) {
    case 0: {   // a file
      char name[] = "/tmp/vlongXXXXXX";
      int fd = mkstemp(name);
      ::close(fd);
      run("Put", "file", 1, n);
      run("Put", "filebytes", 1, n);
      {
        auto f = dap::file(fopen(name, "w+b"));
        give(*f);
        FILE* raw = fopen(name, "rb");
        std::string s(size_t(n) + 10, 0);
        s.resize(fread(&s[0], 1, s.size(), raw));
        fclose(raw);
        compare("filebytes", s);
      }
      {
        auto f = dap::file(fopen(name, "rb"));
        compare("file", fetch(*f, data.size()));
      }
      unlink(name);
      break;
    }
    case 1: {   // a spied writer
      auto m = std::make_shared<Mem>(), log = std::make_shared<Mem>();
      auto w = dap::spy(std::static_pointer_cast<dap::Writer>(m), std::static_pointer_cast<dap::Writer>(log), "");
      run("Put", "through", 1, n);
      run("Put", "log", 1, n);
      give(*w);
      compare("through", m->s);
      compare("log", log->s);
      break;
    }
    case 2: {   // a spied reader, behind a combined stream
      auto f = std::make_shared<Feed>();
      f->data = data;
      auto log = std::make_shared<Mem>();
      auto sp = dap::spy(std::static_pointer_cast<dap::Reader>(f), std::static_pointer_cast<dap::Writer>(log), "");
      auto c = dap::ReaderWriter::create(sp, std::make_shared<Mem>());
      run("Put", "through", 1, n);
      run("Put", "log", 1, n);
      compare("through", fetch(*c, data.size()));
      compare("log", log->s);
      break;
    }
    default: {   // formatted text
      auto m = std::make_shared<Mem>();
      std::string t;
      for (long i = 1; i <= n; i++) { char x = byteAt(i); t += x ? x : '0'; }
      run("Put", "text", 1, n);
      if (!dap::writef(std::static_pointer_cast<dap::Writer>(m), "%s", t.c_str())) ev("{\"e\":\"WriteFailed\"}");
      Runs take("Take", "text");
      for (size_t i = 0; i < m->s.size(); i++) { char x = byteAt(long(i) + 1); take.add(m->s[i] == (x ? x : '0') ? long(i) + 1 : -1); }
    }
  }
  ev("{\"e\":\"End\"}");
}

// ----------------------------------------------------- two sessions, flooded
void pair(Rng& r, bool largest) {
  long n = largest ? 4000 : size(r, 1100);
  auto ab = dap::pipe(), ba = dap::pipe();
  auto A = dap::Session::create(), B = dap::Session::create();
  Gate gate;
  std::atomic<bool> first{true};
  Runs handled("Take", "handled");
  B->registerHandler([&](const dap::LReq& q) { if (first.exchange(false)) gate.wait(); handled.add(long(q.id)); dap::LResp p; p.id = q.id; return p; });
  B->registerHandler([&](const dap::LEvt& q) { if (first.exchange(false)) gate.wait(); handled.add(long(q.id)); });
  A->onError([](const char*) { ev("{\"e\":\"Error\"}"); });
  B->onError([](const char*) { ev("{\"e\":\"Error\"}"); });
  A->bind(ba, ab);
  B->bind(ab, ba);
  run("Put", "handled", 1, n);
  std::map<long, dap::future<dap::ResponseOrError<dap::LResp>>> fs;
  long at = 1;
  bool isReq = true;
  while (at <= n) {
    long to = std::min(n, at + long(r(uint64_t(n))));
    if (isReq) run("Add", "answers", at, to);
    for (; at <= to; at++) {
      if (isReq) { dap::LReq q; q.id = at; fs.emplace(at, A->send(q)); }
      else { dap::LEvt e; e.id = at; A->send(e); }
    }
    isReq = !isReq;
  }
  std::this_thread::sleep_for(std::chrono::milliseconds(r(2) ? 20 : 0));
  gate.release();
  auto it = fs.begin();
  await([&] {
    while (it != fs.end() && it->second.wait_for(std::chrono::seconds(0)) == dap::future_status::ready) ++it;
    return it == fs.end() && handled.n >= n;
  }, [&] { return handled.n + (it == fs.end() ? 0 : it->first); });
  handled.flush();
  {
    Runs done("Done", "answers");
    for (auto& f : fs)
      if (f.second.wait_for(std::chrono::seconds(0)) == dap::future_status::ready) { auto a = f.second.get(); done.add(!a.error && a.response.id == f.first ? f.first : -1); }
  }
  if (r(2)) { A.reset(); B.reset(); } else { B.reset(); A.reset(); }
  ev("{\"e\":\"End\"}");
}

}  // namespace

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "";
  std::map<std::string, void (*)(Rng&, bool)> all = {{"in", in}, {"out", out}, {"fail", fail}, {"chan", chan}, {"pipe", pipe},
      {"rw", rw}, {"promise", promise}, {"value", value}, {"adapt", adapt}, {"pair", pair}};
  auto f = all[what];
  if (!f) return 2;
  // a few of the cases are of the largest size
  return hseq::run(argc, argv, [&](long idx, uint64_t seed) {
    Rng r(seed);
    gEvents = 0;
    f(r, idx % 16 == 0);
  }, 60);
}
