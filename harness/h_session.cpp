// A real dap::Session driven under the controlled scheduler: application
// threads send, a peer delivers requests, events and responses in any order
// and chunking, handlers respond in every style, endpoints close or fail.
// Everything observable is recorded; spec/SessionTrace.tla judges it.
//   h_session <profile> --out F --seed N --runs N ...
#include "hargs.h"
#include "mini_json.h"
#include "vsched.h"

#include "dap/protocol.h"
#include "dap/session.h"

#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

using vs::ev;
using vs::rnd;

namespace dap {
#define TREQ(N)                                                                                   \
  struct TResp##N : public Response { integer token = 0; string pad; };                           \
  struct TReq##N : public Request { using Response = TResp##N; integer id = 0; string pad; };     \
  DAP_STRUCT_TYPEINFO(TResp##N, "", DAP_FIELD(token, "token"), DAP_FIELD(pad, "pad"));            \
  DAP_STRUCT_TYPEINFO(TReq##N, "treq" #N, DAP_FIELD(id, "id"), DAP_FIELD(pad, "pad"));
TREQ(1) TREQ(2) TREQ(3) TREQ(4) TREQ(5) TREQ(6)
struct TEvt1 : public Event { integer id = 0; string pad; };
struct TEvt2 : public Event { integer id = 0; string pad; };
DAP_STRUCT_TYPEINFO(TEvt1, "tevt1", DAP_FIELD(id, "id"), DAP_FIELD(pad, "pad"));
DAP_STRUCT_TYPEINFO(TEvt2, "tevt2", DAP_FIELD(id, "id"), DAP_FIELD(pad, "pad"));
// messages that never arrive: an application has handlers for many
#define FILL(N)                                                          \
  struct FResp##N : public Response {};                                  \
  struct FReq##N : public Request { using Response = FResp##N; };        \
  struct FEvt##N : public Event {};                                      \
  DAP_STRUCT_TYPEINFO(FResp##N, "");                                     \
  DAP_STRUCT_TYPEINFO(FReq##N, "freq" #N);                               \
  DAP_STRUCT_TYPEINFO(FEvt##N, "fevt" #N);
#define FILLS(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14)
FILLS(FILL)
}  // namespace dap

namespace {

using Lock = std::unique_lock<std::mutex>;

int gSalt = 0;
bool gHuge = false;
std::string padOf(int token) {
  static const char* shortPads[] = {"", "x", "q\"b\\n\n\t\x01\x7f", "\xC3\xA9\xE6\xBC\xA2\xF0\x9F\x98\x80",
                                    "Content-Length: 5\r\n\r\nhello", "{\"seq\":1}"};
  int c = (token * 5 + gSalt) % 16;
  if (c < 11) return shortPads[c % 6];
  if (c < 13) return std::string(200 + token % 90, char('a' + token % 26));
  if (c < 15) return std::string(600 + token, 'y') + "\xC3\xBC";
  if (gHuge) return std::string(66000 + token, 'z');
  return std::string(3000 + token, 'w');
}
const std::string kMsgs[] = {"simple", "100% %s %n %d percent %%", std::string(3000, 'x') + "-tail", std::string("nul\0inside", 10),
                             "\xC3\xA9\xE6\xBC\xA2", "quote\"back\\new\n", std::string(2047, 'm') + "!", " "};
const int kNMsgs = 8;
enum { kEmptyMsg = 90, kNoMsg = 91 };
int msgIndex(const std::string& s) {
  for (int i = 0; i < kNMsgs; i++) if (kMsgs[i] == s) return i;
  return s.empty() ? kEmptyMsg : 99;
}

struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;
  void wait() { Lock l(m); while (!open) cv.wait(l); }
  void release() { Lock l(m); open = true; cv.notify_all(); }
};

struct Frame { std::string bytes; std::string meta; };  // meta: event recorded when the last byte is handed out

// ------------------------------------------------------------- endpoint: in
struct PeerReader : dap::Reader {
  std::mutex m;
  std::condition_variable cv;
  std::deque<Frame> q;
  size_t pos = 0;
  bool closed = false, eof = false;
  int chunk = 0;        // 0: as much as asked for
  bool stray = false;   // an endpoint that must never be used
  bool isOpen() override {
    Lock l(m);
    if (stray) ev("{\"e\":\"Stray\"}");
    return !closed;
  }
  void close() override {
    Lock l(m);
    if (stray) { ev("{\"e\":\"Stray\"}"); return; }
    if (!closed) { ev("{\"e\":\"RClosed\"}"); closed = true; }
    cv.notify_all();
  }
  size_t read(void* buf, size_t n) override {
    Lock l(m);
    if (stray) { ev("{\"e\":\"Stray\"}"); return 0; }
    while (q.empty() && !closed && !eof) cv.wait(l);
    if (closed || q.empty()) return 0;
    Frame& f = q.front();
    size_t k = std::min(n, f.bytes.size() - pos);
    if (chunk > 0) k = std::min(k, size_t(1 + rnd(chunk)));
    memcpy(buf, f.bytes.data() + pos, k);
    pos += k;
    if (pos == f.bytes.size()) {
      if (!f.meta.empty()) ev("%s", f.meta.c_str());
      q.pop_front();
      pos = 0;
    }
    return k;
  }
  void feed(const std::string& body, const std::string& meta) {
    Lock l(m);
    q.push_back({"Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body, meta});
    cv.notify_all();
  }
  void end() { Lock l(m); if (!eof && !closed) { ev("{\"e\":\"Eof\"}"); eof = true; } cv.notify_all(); }
};

// ------------------------------------------------------------ endpoint: out
struct OutReq { int seq; int id; std::string cmd; bool respond; int answered; };

struct World;
struct PeerWriter : dap::Writer {
  World* w = nullptr;
  std::mutex m;
  std::string buf;
  bool closed = false, broken = false, stray = false;
  long writes = 0, refuseAt = -1;   // refuse this write call (and all later ones if in mid-frame)
  bool isOpen() override {
    Lock l(m);
    if (stray) ev("{\"e\":\"Stray\"}");
    return !closed;
  }
  void close() override {
    Lock l(m);
    if (stray) { ev("{\"e\":\"Stray\"}"); return; }
    if (!closed) { ev("{\"e\":\"WClosed\"}"); closed = true; }
  }
  bool write(const void* data, size_t n) override;
  void frame(const std::string& body);
  int seqOf(const std::string& body);
};

// -------------------------------------------------------------------- world
struct World {
  std::unique_ptr<dap::Session> s;
  dap::Session* sp = nullptr;   // stays valid while the destructor runs
  std::shared_ptr<PeerReader> rd = std::make_shared<PeerReader>();
  std::shared_ptr<PeerWriter> wr = std::make_shared<PeerWriter>();
  Gate gate, gate2;
  std::mutex mx;
  std::condition_variable cv;
  std::vector<OutReq> out;
  std::vector<std::pair<int, int>> failing;   // (thread, seq): refused, send() still running
  std::vector<int> failedSeqs;                // requests whose send() has failed
  bool stop = false;
  struct In { char k; int cmd; int id; };
  std::deque<In> inbound;
  int dupLeft = 0, unkLeft = 0, badLeft = 0, lateLeft = 0;
  int peerSeq = 1;
  int64_t peerBase = 0;       // the peer's numbers on the wire are peerBase + seq
  int token = 500;
  // handler behaviour by request id
  std::vector<int> hold;      // 1: handler waits at the gate
  std::vector<int> outcome;   // -1: success, else message index
  std::vector<int> twice;     // the handler completes the request a second time
  std::vector<int> nested;    // handler sends a request of this id and waits for the answer
  std::vector<int> noAnswer;  // own requests the peer leaves unanswered, by id
  bool deferAll = false, noDefer = false;
  struct Deferred { std::function<void()> f; bool late; };
  std::deque<Deferred> deferred;
  bool phase2 = false;
  struct F { int id; std::function<bool()> ready; std::function<void(int&, int&)> get; };
  std::vector<F> futs;

  int newToken() { return ++token; }
  int at(const std::vector<int>& v, int i, int d) { return i >= 0 && i < int(v.size()) ? v[i] : d; }
  template <typename R> static void value(const dap::ResponseOrError<R>& r, int& ok, int& v) {
    if (r.error) { ok = 0; v = msgIndex(r.error.message); }
    else {
      ok = 1;
      v = int(int64_t(r.response.token));
      if (v == 0 ? !r.response.pad.empty() : std::string(r.response.pad) != padOf(v)) v = 98;
    }
  }

  template <typename T> void sendReq(int id, const char* cmd, bool wait) {
    T q;
    q.id = id;
    q.pad = padOf(id);
    ev("{\"e\":\"SendCall\",\"t\":%d,\"k\":\"req\",\"cmd\":\"%s\",\"id\":%d}", vs::tid(), cmd, id);
    using R = dap::ResponseOrError<typename T::Response>;
    auto f = std::make_shared<dap::future<R>>(s->send(q));
    bool ready = f->wait_for(std::chrono::seconds(0)) == dap::future_status::ready;
    int ok = 0, v = 0;
    if (ready) value(f->get(), ok, v);
    ev("{\"e\":\"SendRet\",\"t\":%d,\"k\":\"req\",\"id\":%d,\"r\":2,\"ready\":%d,\"ok\":%d,\"v\":%d}", vs::tid(), id, ready, ok, v);
    F fut{id, [f] { return f->wait_for(std::chrono::seconds(0)) == dap::future_status::ready; },
          [f](int& ok, int& v) { value(f->get(), ok, v); }};
    {
      Lock l(mx);
      futs.push_back(fut);
      for (auto& p : failing) if (p.first == vs::tid()) failedSeqs.push_back(p.second);
      if (!failedSeqs.empty()) cv.notify_all();
    }
    if (wait) {
      f->wait();
      int o, x;
      fut.get(o, x);
      ev("{\"e\":\"Fut\",\"id\":%d,\"ready\":1,\"ok\":%d,\"v\":%d}", id, o, x);
    }
  }
  void sendReqN(int type, int id, bool wait) {
    switch (type) {
      case 1: sendReq<dap::TReq1>(id, "treq1", wait); break;
      case 2: sendReq<dap::TReq2>(id, "treq2", wait); break;
      default: sendReq<dap::TReq3>(id, "treq3", wait); break;
    }
  }
  void sendEvt(int type, int id, bool generic) {
    ev("{\"e\":\"SendCall\",\"t\":%d,\"k\":\"evt\",\"cmd\":\"tevt%d\",\"id\":%d}", vs::tid(), type, id);
    int r = 2;
    dap::TEvt1 e1; e1.id = id; e1.pad = padOf(id);
    dap::TEvt2 e2; e2.id = id; e2.pad = padOf(id);
    if (type == 1) { if (generic) r = s->send(dap::TypeOf<dap::TEvt1>::type(), &e1); else s->send(e1); }
    else { if (generic) r = s->send(dap::TypeOf<dap::TEvt2>::type(), &e2); else s->send(e2); }
    ev("{\"e\":\"SendRet\",\"t\":%d,\"k\":\"evt\",\"id\":%d,\"r\":%d,\"ready\":0,\"ok\":0,\"v\":0}", vs::tid(), id, r);
  }

  // ---- handlers (reg: which registration this is; only the first may run)
  template <typename Q> void hbegin(const Q& q, const char* k, const char* cmd, int reg) {
    int id = int(int64_t(q.id));
    bool good = std::string(q.pad) == padOf(id);
    ev("{\"e\":\"HBegin\",\"k\":\"%s\",\"cmd\":\"%s\",\"id\":%d,\"good\":%d,\"reg\":%d}", k, cmd, id, good, reg);
    if (at(hold, id, 0)) gate.wait();
    else if (rnd(3) == 0) vs::point();
    if (auto f = std::move(onFirstHandler)) { onFirstHandler = nullptr; f(); }
    int n = at(nested, id, 0);
    if (n) sendReqN(1 + n % 3, n, true);
  }
  void hend(int id) { ev("{\"e\":\"HEnd\",\"id\":%d}", id); }
  void resp(int id, int ok, int v) { ev("{\"e\":\"Resp\",\"t\":%d,\"id\":%d,\"ok\":%d,\"v\":%d}", vs::tid(), id, ok, v); }
  void respRet(int id) { ev("{\"e\":\"RespRet\",\"t\":%d,\"id\":%d}", vs::tid(), id); }
  template <typename R> R mk(int v) { R r; r.token = v; if (v) r.pad = padOf(v); return r; }

  void registerOne(int which, int reg);   // 1..6: requests, 7 8: events
  std::function<void()> onFirstHandler;   // run by the first handler that runs
  void registerSent(int which, int reg);
  void peer();
  void worker();
  std::string reqBody(const In& i, int seq);
  std::string respBody(int rs, const std::string& cmd, std::string& meta);
};

int PeerWriter::seqOf(const std::string& body) {
  mj::V v;
  if (!mj::parse(body, v)) return 0;
  auto s = v.get("seq");
  return s && s->k == mj::V::Int ? int(s->i) : 0;
}

bool PeerWriter::write(const void* data, size_t n) {
  Lock l(m);
  if (stray) { ev("{\"e\":\"Stray\"}"); return false; }
  if (closed) return false;
  long k = writes++;
  if (broken || k == refuseAt) {
    if (!buf.empty()) broken = true;
    std::string b(static_cast<const char*>(data), n);
    int seq = seqOf(b);
    ev("{\"e\":\"WRefuse\",\"t\":%d,\"seq\":%d}", vs::tid(), seq);
    if (seq && b.find("\"type\":\"request\"") != std::string::npos) { Lock g(w->mx); w->failing.push_back({vs::tid(), seq}); }
    return false;
  }
  buf.append(static_cast<const char*>(data), n);
  // whole frames leave the buffer
  while (true) {
    static const std::string head = "Content-Length:";
    if (buf.compare(0, std::min(buf.size(), head.size()), head, 0, std::min(buf.size(), head.size())) != 0) {
      ev("{\"e\":\"WireBad\",\"why\":\"no header\"}");
      buf.clear();
      break;
    }
    if (buf.size() <= head.size()) break;
    size_t p = head.size();
    while (p < buf.size() && (buf[p] == ' ' || buf[p] == '\t')) p++;
    size_t len = 0, d = p;
    while (p < buf.size() && isdigit((unsigned char)buf[p]) && p - d < 9) len = len * 10 + size_t(buf[p++] - '0');
    if (p == buf.size()) break;
    if (p == d) { ev("{\"e\":\"WireBad\",\"why\":\"no length\"}"); buf.clear(); break; }
    if (buf.size() < p + 4) {
      if (std::string("\r\n\r\n").compare(0, buf.size() - p, buf, p, buf.size() - p) != 0) { ev("{\"e\":\"WireBad\",\"why\":\"header end\"}"); buf.clear(); }
      break;
    }
    if (buf.compare(p, 4, "\r\n\r\n") != 0) { ev("{\"e\":\"WireBad\",\"why\":\"header end\"}"); buf.clear(); break; }
    if (buf.size() < p + 4 + len) break;
    frame(buf.substr(p + 4, len));
    buf.erase(0, p + 4 + len);
    if (buf.empty()) break;
  }
  return true;
}

void PeerWriter::frame(const std::string& body) {
  mj::V v;
  if (!mj::parse(body, v) || v.k != mj::V::Obj) { ev("{\"e\":\"WireBad\",\"why\":\"not a JSON object\"}"); return; }
  auto str = [&](const mj::V& o, const char* n) -> std::string {
    auto p = o.get(n);
    return p && p->k == mj::V::Str && o.count(n) == 1 ? p->s : "?";
  };
  auto num = [&](const mj::V& o, const char* n) -> int {
    auto p = o.get(n);
    return p && p->k == mj::V::Int && o.count(n) == 1 ? int(p->i) : -1;
  };
  auto content = [&](const char* member, const char* idn, size_t fields) -> int {
    auto b = v.get(member);
    if (!b || b->k != mj::V::Obj || b->o.size() != 2 || v.o.size() != fields) return 97;
    int id = num(*b, idn);
    std::string p = str(*b, "pad");
    return (id == 0 ? p == "" : p == padOf(id)) ? id : 97;
  };
  std::string type = str(v, "type");
  int seq = num(v, "seq");
  if (type == "request") {
    std::string cmd = str(v, "command");
    int id = content("arguments", "id", 4);
    ev("{\"e\":\"Wire\",\"seq\":%d,\"k\":\"req\",\"cmd\":%s,\"id\":%d,\"rs\":0,\"ok\":0,\"v\":0}", seq, mj::quote(cmd).c_str(), id);
    Lock l(w->mx);
    w->out.push_back({seq, id, cmd, !w->at(w->noAnswer, id, 0), 0});
    w->cv.notify_all();
  } else if (type == "event") {
    std::string cmd = str(v, "event");
    int id = content("body", "id", 4);
    ev("{\"e\":\"Wire\",\"seq\":%d,\"k\":\"evt\",\"cmd\":%s,\"id\":%d,\"rs\":0,\"ok\":0,\"v\":0}", seq, mj::quote(cmd).c_str(), id);
  } else if (type == "response") {
    std::string cmd = str(v, "command");
    auto s = v.get("success");
    int ok = s && s->k == mj::V::Bool && v.count("success") == 1 ? s->b : 2;
    int val = 97, rs = -1;
    auto q = v.get("request_seq");
    if (q && q->k == mj::V::Int && v.count("request_seq") == 1 && q->i - w->peerBase > 0 && q->i - w->peerBase < 100000) rs = int(q->i - w->peerBase);
    if (ok == 1) val = content("body", "token", 6);
    else if (ok == 0 && v.o.size() == 6) val = msgIndex(str(v, "message"));
    ev("{\"e\":\"Wire\",\"seq\":%d,\"k\":\"resp\",\"cmd\":%s,\"id\":0,\"rs\":%d,\"ok\":%d,\"v\":%d}", seq, mj::quote(cmd).c_str(),
       rs, ok, val);
  } else {
    ev("{\"e\":\"WireBad\",\"why\":\"unknown type\"}");
  }
}

// ------------------------------------------------------------------ handlers
void World::registerOne(int which, int reg) {
  using namespace dap;
  // 1: ResponseOrError  2: Response  3: Error  4: callback  5: callback or error  6: deferred callback
  if (which == 1) sp->registerHandler([this, reg](const TReq1& q) -> ResponseOrError<TResp1> {
    hbegin(q, "req", "treq1", reg);
    int id = int(int64_t(q.id)), o = at(outcome, id, -1), v = newToken();
    hend(id);
    if (o >= 0) { resp(id, 0, o); return Error(kMsgs[o]); }
    resp(id, 1, v);
    return mk<TResp1>(v);
  });
  if (which == 2) sp->registerHandler([this, reg](const TReq2& q) -> TResp2 {
    hbegin(q, "req", "treq2", reg);
    int id = int(int64_t(q.id)), v = newToken();
    hend(id);
    resp(id, 1, v);
    return mk<TResp2>(v);
  });
  if (which == 3) sp->registerHandler([this, reg](const TReq3& q) -> Error {
    hbegin(q, "req", "treq3", reg);
    int id = int(int64_t(q.id)), o = at(outcome, id, -1);
    hend(id);
    if (o >= 0) { resp(id, 0, o); return Error(kMsgs[o]); }
    resp(id, 1, 0);
    return Error();
  });
  if (which == 4) sp->registerHandler([this, reg](const TReq4& q, std::function<void(TResp4)> cb) {
    hbegin(q, "req", "treq4", reg);
    int id = int(int64_t(q.id)), v = newToken();
    for (int k = 0; k <= at(twice, id, 0); k++, v = newToken()) {
      resp(id + 1000 * k, 1, v);
      cb(mk<TResp4>(v));
      respRet(id + 1000 * k);
    }
    hend(id);
  });
  if (which == 5) sp->registerHandler([this, reg](const TReq5& q, std::function<void(ResponseOrError<TResp5>)> cb) {
    hbegin(q, "req", "treq5", reg);
    int id = int(int64_t(q.id)), o = at(outcome, id, -1), v = newToken();
    for (int k = 0; k <= at(twice, id, 0); k++, o = -1 - o % kNMsgs, v = newToken()) {
      if (o >= 0) { resp(id + 1000 * k, 0, o); cb(Error(kMsgs[o])); }
      else { resp(id + 1000 * k, 1, v); cb(mk<TResp5>(v)); }
      respRet(id + 1000 * k);
    }
    hend(id);
  });
  if (which == 6) sp->registerHandler([this, reg](const TReq6& q, std::function<void(ResponseOrError<TResp6>)> cb) {
    hbegin(q, "req", "treq6", reg);
    int id = int(int64_t(q.id)), o = at(outcome, id, -1), v = newToken();
    for (int k = 0; k <= at(twice, id, 0); k++, o = -1 - o % kNMsgs, v = newToken()) {
      int key = id + 1000 * k;
      auto f = [this, key, o, v, cb] {
        if (o >= 0) { resp(key, 0, o); cb(Error(kMsgs[o])); }
        else { resp(key, 1, v); cb(mk<TResp6>(v)); }
        respRet(key);
      };
      if (noDefer) f();
      else { Lock l(mx); deferred.push_back({f, rnd(3) == 0}); cv.notify_all(); }
    }
    hend(id);
  });
  if (which == 7) sp->registerHandler([this, reg](const TEvt1& q) { hbegin(q, "evt", "tevt1", reg); hend(int(int64_t(q.id))); });
  if (which == 8) sp->registerHandler([this, reg](const TEvt2& q) { hbegin(q, "evt", "tevt2", reg); hend(int(int64_t(q.id))); });
}

static void registerFill(dap::Session* s, int kind, int n) {
  using namespace dap;
#define FREG(N)                                                                                          \
  if (n == N && kind == 0) s->registerHandler([](const FReq##N&) -> FResp##N { return {}; });            \
  if (n == N && kind == 1) s->registerHandler([](const FEvt##N&) {});                                    \
  if (n == N && kind == 2) s->registerSentHandler([](const ResponseOrError<FResp##N>&) {});
  FILLS(FREG)
}
void World::registerSent(int which, int reg) {
  using namespace dap;
  auto log = [reg](const char* cmd, int ok, int v) { ev("{\"e\":\"Sent\",\"cmd\":\"%s\",\"ok\":%d,\"v\":%d,\"reg\":%d}", cmd, ok, v, reg); };
#define SENT(N) if (which == N) sp->registerSentHandler([log](const ResponseOrError<TResp##N>& r) { int ok, v; value(r, ok, v); log("treq" #N, ok, v); });
  SENT(1) SENT(2) SENT(3) SENT(4) SENT(5) SENT(6)
}

// ---------------------------------------------------------------------- peer
std::string World::reqBody(const In& i, int seq) {
  std::string c = std::to_string(i.cmd), args = "{\"id\":" + std::to_string(i.id) + ",\"pad\":" + mj::quote(padOf(i.id)) + "}";
  if (i.k == 'r') {
    if (rnd(2)) return "{\"seq\":" + std::to_string(peerBase + seq) + ",\"type\":\"request\",\"command\":\"treq" + c + "\",\"arguments\":" + args + "}";
    return "{\"arguments\":" + args + ",\"command\":\"treq" + c + "\",\"x\":[1,{}],\"type\":\"request\",\"seq\":" + std::to_string(peerBase + seq) + "}";
  }
  return "{\"seq\":" + std::to_string(peerBase + seq) + ",\"type\":\"event\",\"event\":\"tevt" + c + "\",\"body\":" + args + "}";
}
std::string World::respBody(int rs, const std::string& cmd, std::string& meta) {
  int ok = rnd(3) != 0, v = 0;
  std::vector<std::string> f = {"\"seq\":" + std::to_string(peerBase + peerSeq++), "\"type\":\"response\"", "\"request_seq\":" + std::to_string(rs),
                                std::string("\"success\":") + (ok ? "true" : "false")};
  // the command is not what identifies a response
  if (rnd(6)) f.push_back("\"command\":\"" + (rnd(8) ? cmd : std::string("other")) + "\"");
  if (ok) {
    if (rnd(8)) { v = newToken(); f.push_back("\"body\":{\"token\":" + std::to_string(v) + ",\"pad\":" + mj::quote(padOf(v)) + "}"); }
    if (rnd(6) == 0) f.push_back(std::string("\"message\":") + (rnd(3) ? "\"done\"" : "\"\""));
  } else {
    v = int(rnd(kNMsgs + 3));
    if (v == kNMsgs) { v = kEmptyMsg; f.push_back("\"message\":\"\""); }
    else if (v > kNMsgs) v = kNoMsg;
    else f.push_back("\"message\":" + mj::quote(kMsgs[v]));
    static const char* bodies[] = {"{\"error\":{\"id\":1,\"format\":\"x\"}}", "{\"token\":77,\"pad\":\"\"}", "{\"error\":{\"id\":2},\"token\":1,\"message\":\"y\"}", "null", "{}"};
    if (rnd(3) == 0) f.push_back(std::string("\"body\":") + bodies[rnd(5)]);
  }
  if (rnd(6) == 0) f.push_back("\"event\":\"tevt1\"");
  if (rnd(3) == 0) for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[rnd(i)]);
  std::string b = "{";
  for (auto& x : f) b += (b.size() > 1 ? "," : "") + x;
  meta = "{\"e\":\"Deliver\",\"k\":\"resp\",\"seq\":0,\"cmd\":\"\",\"id\":0,\"rs\":" + std::to_string(rs) + ",\"ok\":" + std::to_string(ok) +
         ",\"v\":" + std::to_string(v) + "}";
  return b + "}";
}

void World::peer() {
  while (true) {
    Lock l(mx);
    std::vector<int> ch;
    if (!inbound.empty()) { ch.push_back(0); ch.push_back(0); }
    std::vector<int> un, ans;
    for (size_t i = 0; i < out.size(); i++) {
      if (out[i].answered) ans.push_back(int(i)); else if (out[i].respond) un.push_back(int(i));
    }
    if (!un.empty()) { ch.push_back(1); ch.push_back(1); }
    if (dupLeft && !ans.empty()) ch.push_back(2);
    if (unkLeft) ch.push_back(3);
    if (lateLeft && !failedSeqs.empty()) ch.push_back(4);
    if (badLeft) ch.push_back(5);
    if (ch.empty()) {
      if (stop) return;
      cv.wait(l);
      continue;
    }
    std::string meta, body;
    int c = ch[rnd(ch.size())];
    if (c == 0) {
      In i = inbound.front();
      inbound.pop_front();
      int seq = peerSeq++;
      body = reqBody(i, seq);
      meta = std::string("{\"e\":\"Deliver\",\"k\":\"") + (i.k == 'r' ? "req" : "evt") + "\",\"seq\":" + std::to_string(seq) + ",\"cmd\":\"" +
             (i.k == 'r' ? "treq" : "tevt") + std::to_string(i.cmd) + "\",\"id\":" + std::to_string(i.id) + ",\"rs\":0,\"ok\":0,\"v\":0}";
    } else if (c == 1 || c == 2) {
      OutReq& o = c == 1 ? out[un[rnd(un.size())]] : out[ans[rnd(ans.size())]];
      o.answered++;
      if (c == 2) dupLeft--;
      body = respBody(o.seq, o.cmd, meta);
    } else if (c == 3) {
      unkLeft--;
      static const int64_t odd[] = {100000, 0, -1, -7, 2147483648LL, 4294967297LL, 9223372036854775807LL};
      int64_t rs = odd[rnd(7)];
      body = respBody(0, "treq1", meta);
      size_t p = body.find("\"request_seq\":0");
      body.replace(p, 15, "\"request_seq\":" + std::to_string(rs));
      meta = "{\"e\":\"Deliver\",\"k\":\"unk\",\"seq\":0,\"cmd\":\"\",\"id\":0,\"rs\":0,\"ok\":0,\"v\":0}";
    } else if (c == 4) {
      lateLeft--;
      body = respBody(failedSeqs[rnd(failedSeqs.size())], "treq1", meta);
      meta = "{\"e\":\"Deliver\",\"k\":\"unk\",\"seq\":0,\"cmd\":\"\",\"id\":0,\"rs\":0,\"ok\":0,\"v\":0}";
    } else {
      badLeft--;
      static const char* bad[] = {"{\"seq\":1,\"type\":\"request\",\"command\":\"nosuch\",\"arguments\":{}}",
                                  "{\"seq\":1,\"type\":\"request\",\"command\":\"treq1\",\"arguments\":{\"id\":\"x\",\"pad\":\"\"}}",
                                  "{\"seq\":1,\"type\":\"event\",\"event\":\"nosuch\"}", "{\"seq\":1,\"type\":\"event\",\"event\":\"tevt1\",\"body\":{\"id\":1}}",
                                  "{\"seq\":1,\"type\":\"bogus\"}", "{\"seq\":1}", "[]", "{\"seq\":1,\"type\":", "{\"type\":\"event\",\"event\":\"tevt1\"}",
                                  "{\"seq\":1,\"type\":\"response\",\"success\":true}"};
      body = bad[rnd(10)];
      meta = "{\"e\":\"Deliver\",\"k\":\"bad\",\"seq\":0,\"cmd\":\"\",\"id\":0,\"rs\":0,\"ok\":0,\"v\":0}";
    }
    // fed under mx: the order of feeding is the order of the script
    rd->feed(body, meta);
  }
}

void World::worker() {
  while (true) {
    std::function<void()> f;
    {
      Lock l(mx);
      while (true) {
        std::vector<size_t> ok;
        for (size_t i = 0; i < deferred.size(); i++) if (phase2 || !deferred[i].late) ok.push_back(i);
        if (!ok.empty()) {
          size_t i = ok[rnd(ok.size())];
          f = deferred[i].f;
          deferred.erase(deferred.begin() + long(i));
          break;
        }
        if (stop) return;
        cv.wait(l);
      }
    }
    f();
  }
}

// ------------------------------------------------------------------ programs
struct Profile {
  int maxSenders, maxReq, maxEvt, maxIn;
  bool extras, bads, writeFail, gates, closing, api, pump;
};
Profile profileOf(const std::string& p) {
  //                                s  q  e  i  extra  bad    wfail  gates  close  api    pump
  if (p == "resp")   return Profile{3, 3, 0, 1, true,  false, true,  false, false, false, true};
  if (p == "handle") return Profile{1, 1, 1, 4, false, false, false, true,  false, false, true};
  if (p == "order")  return Profile{1, 1, 0, 5, false, true,  false, true,  false, false, false};
  if (p == "send")   return Profile{4, 2, 2, 2, false, false, false, false, false, false, false};
  if (p == "close")  return Profile{1, 2, 1, 3, false, false, false, true,  true,  false, false};
  if (p == "api")    return Profile{2, 2, 2, 2, false, false, true,  false, true,  true,  false};
  return Profile{2, 2, 1, 3, true, true, true, true, true, true, true};  // mix
}

void sessionBody(const Profile& pf) {
  gSalt = int(rnd(16));
  gHuge = rnd(150) == 0;
  auto w = std::make_unique<World>();
  w->wr->w = w.get();
  static const int chunks[] = {0, 0, 1, 3, 40, 300};
  w->rd->chunk = chunks[rnd(6)];
  const bool pump = pf.pump && rnd(4) == 0;
  const bool api = pf.api && rnd(3) != 0;
  bool closing = pf.closing && rnd(4) != 0;
  const int closeKind = int(rnd(4));     // 0 reader closed 1 end of stream 2 writer closed 3 both closed
  const bool abrupt = pf.closing && !pump && rnd(2);   // destroy without waiting for quiet
  const bool withClose = rnd(4) != 0;    // a closed callback is given
  w->noDefer = abrupt;
  if (pf.writeFail && rnd(3) == 0) w->wr->refuseAt = long(rnd(8));
  const bool mayFail = w->wr->refuseAt >= 0;
  if (pf.extras) { w->dupLeft = int(rnd(3)); w->unkLeft = int(rnd(2)); w->lateLeft = mayFail ? 1 : 0; }
  if (pf.bads) w->badLeft = int(rnd(3));
  int ns = pf.maxSenders ? int(rnd(pf.maxSenders + 1)) : 0;
  if (pf.maxReq > 1 && ns == 0) ns = 1;
  struct Snd { int kind, type, id; bool wait; };
  std::vector<std::vector<Snd>> snd(ns);
  int id = 0;
  w->hold.assign(40, 0); w->outcome.assign(40, -1); w->nested.assign(40, 0); w->twice.assign(40, 0); w->noAnswer.assign(40, 0);
  for (auto& v : snd) {
    int nq = int(rnd(pf.maxReq + 1)), ne = int(rnd(pf.maxEvt + 1));
    while (nq + ne > 0) {
      bool q = rnd(nq + ne) < uint64_t(nq);
      if (q) nq--; else ne--;
      id++;
      if (id > 11) break;
      bool un = q && rnd(6) == 0;
      w->noAnswer[id] = un;
      v.push_back({q ? 0 : 1, 1 + int(rnd(q ? 3 : 2)), id, q && !un && !closing && rnd(3) == 0});
    }
  }
  static const int64_t bases[] = {0, 0, 0, -1, 2147483647LL, 4294967290LL, 9007199254740000LL, -3};
  w->peerBase = bases[rnd(8)];
  int nin = int(rnd(pf.maxIn + 1));
  if (pf.maxIn > 2 && nin == 0) nin = 2;
  for (int i = 0; i < nin; i++) {
    int x = 20 + i;
    World::In in{rnd(3) ? 'r' : 'e', 1, x};
    in.cmd = 1 + int(rnd(in.k == 'r' ? 6 : 2));
    w->inbound.push_back(in);
    if (rnd(3) == 0) w->outcome[x] = int(rnd(kNMsgs));
    if (in.k == 'r' && in.cmd >= 4 && rnd(6) == 0) w->twice[x] = 1;
    if (pf.gates && !pump && rnd(4) == 0) w->hold[x] = 1;
    if (pf.gates && !pump && !closing && !mayFail && !abrupt && rnd(6) == 0) w->nested[x] = 12 + i;
  }
  int sentMask = 0, lateMask = 0, lateSent = 0;   // late: registered while messages are processed
  for (int n = 1; n <= 6; n++) if (rnd(2)) sentMask |= 1 << n;
  const int regKind = rnd(3) == 0 ? 1 + int(rnd(3)) : 0;   // by one thread, by two, by a handler
  if (regKind) for (int n = 1; n <= 8; n++) {
    if (rnd(2) && !(api && (n == 2 || n == 7))) lateMask |= 1 << n;
    if (!api && rnd(4) == 0) lateSent |= sentMask & 1 << n;
  }
  {
    std::string d;
    for (auto& v : snd) { d += "|"; for (auto& o : v) { d += o.kind ? "e" : "q"; d += std::to_string(o.type); if (o.wait) d += "w"; if (w->noAnswer[o.id]) d += "-"; } }
    d += " in:";
    for (auto& i : w->inbound) { d += i.k; d += std::to_string(i.cmd); if (w->hold[i.id]) d += "h"; if (w->nested[i.id]) d += "n"; if (w->twice[i.id]) d += "2"; if (w->outcome[i.id] >= 0) d += "x"; }
    vs::prog("\"s%s dup%d unk%d bad%d rf%ld ch%d%s%s%s%s\"", d.c_str(), w->dupLeft, w->unkLeft, w->badLeft, w->wr->refuseAt, w->rd->chunk,
             pump ? " pump" : "", closing ? (" close" + std::to_string(closeKind)).c_str() : "", abrupt ? " abrupt" : "", api ? " api" : "");
  }
  std::string sl;
  for (int n = 1; n <= 6; n++) if ((sentMask & ~lateSent) >> n & 1) sl += (sl.empty() ? "\"treq" : ",\"treq") + std::to_string(n) + "\"";
  auto msgName = [](int n) { return n <= 6 ? "treq" + std::to_string(n) : "tevt" + std::to_string(n - 6); };
  std::string ll;
  for (int n = 1; n <= 8; n++) if (lateMask >> n & 1) ll += (ll.empty() ? "\"" : ",\"") + msgName(n) + "\"";
  ev("{\"e\":\"Init\",\"late\":[%s],\"sent\":[%s],\"onclose\":%d,\"pump\":%d}", ll.c_str(), sl.c_str(), withClose && !pump, pump);

  auto& s = w->s;
  s = dap::Session::create();
  w->sp = s.get();
  // A handler takes a while, as one that writes a log would, and must not be
  // destroyed meanwhile.
  struct Alive {
    static std::map<const Alive*, int>& all() { static auto* a = new std::map<const Alive*, int>; return *a; }
    static std::mutex& mx() { static auto* m = new std::mutex; return *m; }
    static int& serial() { static int n; return n; }
    Alive() { Lock l(mx()); all()[this] = ++serial(); }
    Alive(const Alive&) : Alive() {}
    ~Alive() { Lock l(mx()); all().erase(this); }
    int which() const { Lock l(mx()); auto it = all().find(this); return it == all().end() ? 0 : it->second; }
  };
  auto onErr = [](int h) {
    return [h, a = Alive()](const char* m) {
      ev("{\"e\":\"Err\",\"h\":%d,\"text\":%d}", h, m && *m ? 1 : 0);
      const Alive* self = &a;
      const int was = self->which();
      vs::point();
      if (was == 0 || self->which() != was) ev("{\"e\":\"HandlerGone\"}");
    };
  };
  bool calm = true;   // no other thread is running
  auto setErr = [&](int h) {
    const int c = calm;
    ev("{\"e\":\"SetErrCall\",\"h\":%d}", h);
    s->onError(onErr(h));
    ev("{\"e\":\"SetErr\",\"h\":%d,\"calm\":%d}", h, c);
  };
  int errs = 1;
  bool replacing = false;   // another thread replaces the error handler
  const bool noErr = rnd(12) == 0;   // the application gives no error handler
  if (!noErr) setErr(1);
  else if (rnd(2)) s->onError(nullptr);
  for (int n = 1; n <= 8; n++) if (!(lateMask >> n & 1)) w->registerOne(n, 1);
  for (int n = 1; n <= 6; n++) if ((sentMask & ~lateSent) >> n & 1) w->registerSent(n, 1);
  // a few handlers more, so that the number of handlers passes 13
  const int fill = regKind ? int(rnd(3)) : -1;
  int fillAt = 14;
  if (fill >= 0) {
    int have = 0;
    for (int n = 1; n <= 6; n++) {
      if (fill == 0) have += !(lateMask >> n & 1);
      if (fill == 2) have += (sentMask & ~lateSent) >> n & 1;
      if (fill == 1 && n < 3) have += !(lateMask >> (n + 6) & 1);
    }
    fillAt = std::min(14, 13 - have - int(rnd(2)));
    for (int n = 1; n <= fillAt; n++) registerFill(w->sp, fill, n);
  }
  auto registerLate = [&](int mask) {
    if (mask == ~0 && fill >= 0 && fillAt < 14) registerFill(w->sp, fill, fillAt + 1);
    for (int n = 1; n <= 8; n++) if ((lateMask & mask) >> n & 1) {
      w->registerOne(n, 1);
      ev("{\"e\":\"RegRet\",\"k\":\"msg\",\"cmd\":\"%s\"}", msgName(n).c_str());
    }
    for (int n = 1; n <= 6; n++) if ((lateSent & mask) >> n & 1) {
      w->registerSent(n, 1);
      ev("{\"e\":\"RegRet\",\"k\":\"sent\",\"cmd\":\"%s\"}", msgName(n).c_str());
    }
  };
  if (regKind == 3) w->onFirstHandler = [&] { registerLate(~0); };

  auto onClose = [](int n) { return [n] { ev("{\"e\":\"OnClose\",\"n\":%d}", n); }; };
  auto rd2 = std::make_shared<PeerReader>();
  auto wr2 = std::make_shared<PeerWriter>();
  rd2->stray = wr2->stray = true;
  int apiId = 30;
  bool connected = false, started = false;
  auto apiStep = [&] {
    switch (rnd(7)) {
      case 0: if (!noErr && !replacing) setErr(++errs); break;
      case 1: {   // second registration of one kind
        int k = int(rnd(3));
        if (k == 0) {
          ev("{\"e\":\"Misuse\",\"what\":\"request handler\"}");
          s->registerHandler([&](const dap::TReq2& q) -> dap::TResp2 { w->hbegin(q, "req", "treq2", 2); w->hend(int(int64_t(q.id))); return {}; });
        } else if (k == 1) {
          ev("{\"e\":\"Misuse\",\"what\":\"event handler\"}");
          s->registerHandler([&](const dap::TEvt1& q) { w->hbegin(q, "evt", "tevt1", 2); w->hend(int(int64_t(q.id))); });
        } else {
          int n = 1 + int(rnd(6));
          if (!(sentMask >> n & 1)) break;
          ev("{\"e\":\"Misuse\",\"what\":\"sent handler\"}");
          w->registerSent(n, 2);
        }
        break;
      }
      case 2: if (apiId < 39) w->sendReqN(1 + int(rnd(3)), ++apiId, false); break;
      case 3: if (apiId < 39) { ++apiId; w->sendEvt(1 + int(rnd(2)), apiId, rnd(2)); } break;
      case 4: if (connected) { ev("{\"e\":\"Misuse\",\"what\":\"connect\"}"); s->connect(rd2, wr2); } break;
      case 5: if (started) { ev("{\"e\":\"Misuse\",\"what\":\"start\"}"); s->startProcessingMessages(onClose(2)); } break;
      default: break;
    }
  };
  ev("{\"e\":\"Unconnected\"}");
  if (api) for (int i = int(rnd(4)); i > 0; i--) apiStep();
  ev("{\"e\":\"Connect\"}");
  const bool useBind = !pump && !api && rnd(2);
  // two threads at once: one of the calls is the second
  auto both = [&](const char* what, std::function<void()> f) {
    ev("{\"e\":\"Misuse\",\"what\":\"%s\"}", what);
    std::thread a(f), b(f);
    a.join();
    b.join();
  };
  if (!useBind) {
    if (api && rnd(3) == 0) both("connect", [&] { s->connect(w->rd, w->wr); });
    else s->connect(w->rd, w->wr);
    connected = true;
  }
  if (api) for (int i = int(rnd(3)); i > 0; i--) apiStep();
  std::vector<std::thread> th, peers;
  std::thread pumpTh;
  calm = false;
  if (pump) {
    pumpTh = std::thread([&] {
      while (w->rd->isOpen()) {
        bool eof; { Lock l(w->rd->m); eof = w->rd->eof && w->rd->q.empty(); }
        if (eof) break;
        if (auto p = w->s->getPayload()) p();
      }
    });
  } else if (useBind) {
    if (withClose) s->bind(w->rd, w->wr, onClose(1)); else s->bind(w->rd, w->wr);
  } else if (api && rnd(3) == 0) {
    both("start", [&] { if (withClose) s->startProcessingMessages(onClose(1)); else s->startProcessingMessages(); });
  } else {
    if (withClose) s->startProcessingMessages(onClose(1)); else s->startProcessingMessages();
  }
  started = !pump;
  connected = true;
  std::vector<std::thread> registrars;
  const int split = int(rnd(512));
  if (regKind == 1) registrars.emplace_back([&] { registerLate(~0); });
  if (regKind == 2) { registrars.emplace_back([&] { registerLate(split); }); registrars.emplace_back([&] { registerLate(~split); }); }
  int np = 1 + int(rnd(2));
  for (int i = 0; i < np; i++) peers.emplace_back([&] { w->peer(); });
  for (auto& v : snd)
    th.emplace_back([&v, &w] {
      for (auto& o : v) {
        if (o.kind == 0) w->sendReqN(o.type, o.id, o.wait);
        else w->sendEvt(o.type, o.id, rnd(2));
      }
    });
  std::vector<std::thread> workers;
  for (int i = 0; i < 2; i++) workers.emplace_back([&] { w->worker(); });
  auto closeIt = [&] {
    if (closeKind == 0 || closeKind == 3) w->rd->close();
    if (closeKind == 1) w->rd->end();
    if (closeKind >= 2) w->wr->close();
  };
  std::thread closer;
  const bool early = closing && rnd(3) != 0;
  if (early) closer = std::thread([&] { for (int i = int(rnd(6)); i > 0; i--) vs::point(); closeIt(); });
  std::thread replacer;
  if (!noErr && rnd(api ? 3 : 10) == 0) {
    replacing = true;
    replacer = std::thread([&] { for (int i = 1 + int(rnd(3)); i > 0; i--) setErr(++errs); });
  }
  if (api) for (int i = int(rnd(4)); i > 0; i--) apiStep();
  if (replacer.joinable()) { replacer.join(); replacing = false; }
  for (auto& t : registrars) t.join();

  auto quiesce = [&] {
    vs::waitQuiescent();
    std::vector<World::F> fs;
    { Lock l(w->mx); fs = w->futs; }
    for (auto& f : fs) {
      bool r = f.ready();
      int ok = 0, v = 0;
      if (r) f.get(ok, v);
      ev("{\"e\":\"Fut\",\"id\":%d,\"ready\":%d,\"ok\":%d,\"v\":%d}", f.id, r, ok, v);
    }
    ev("{\"e\":\"Quiesce\"}");
  };
  auto stopAll = [&] {
    Lock l(w->mx);
    w->stop = true;
    w->phase2 = true;
    w->cv.notify_all();
  };
  std::thread releaser;
  if (abrupt) {
    for (auto& t : th) t.join();
    stopAll();
    for (auto& t : workers) t.join();
    if (closer.joinable() && rnd(2)) closer.join();
    releaser = std::thread([&] { for (int i = int(rnd(4)); i > 0; i--) vs::point(); w->gate.release(); });
  } else {
    quiesce();
    calm = true;
    if (api) for (int i = int(rnd(3)); i > 0; i--) apiStep();
    calm = false;
    { Lock l(w->mx); w->phase2 = true; w->cv.notify_all(); }
    w->gate.release();
    quiesce();
    if (closing && !early) { closeIt(); quiesce(); }
    if (api && closing) { for (int i = int(rnd(4)); i > 0; i--) apiStep(); quiesce(); }
    stopAll();
    vs::waitQuiescent();
    if (pump) { w->rd->close(); vs::waitQuiescent(); }
    if (closer.joinable()) closer.join();
  }
  if (!abrupt) {
    // everything but the session's own threads has to be able to finish
    for (auto& t : th) t.join();
    for (auto& t : workers) t.join();
    if (pumpTh.joinable()) pumpTh.join();
  }
  ev("{\"e\":\"DtorCall\"}");
  s.reset();
  ev("{\"e\":\"DtorRet\"}");
  if (releaser.joinable()) releaser.join();
  vs::waitQuiescent();
  ev("{\"e\":\"End\"}");
  if (closer.joinable()) closer.join();
  for (auto& t : peers) t.join();
}

template <typename... T> void warm() { int x[] = {(dap::TypeOf<T>::type(), 0)...}; (void)x; }

}  // namespace

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "mix";
  warm<dap::TReq1, dap::TReq2, dap::TReq3, dap::TReq4, dap::TReq5, dap::TReq6, dap::TResp1, dap::TResp2, dap::TResp3, dap::TResp4,
       dap::TResp5, dap::TResp6, dap::TEvt1, dap::TEvt2>();
  Profile pf = profileOf(what);
  return hargs::runBatch(argc, argv, [&](long, uint64_t) { sessionBody(pf); });
}
