#include "simnet.h"
#include "vsched.h"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <chrono>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <vector>

namespace sim {

Faults faults;
size_t capacity = 64;
bool reuseFds = true;
bool delayedAck = true;

namespace {
constexpr int kBase = 700, kLimit = 1000;

struct Conn {
  int id = 0;
  int port = 0;
  std::deque<uint8_t> buf[2];  // buf[i]: sent by side i, not yet received
  bool fin[2] = {false, false};
  bool closed[2] = {false, false};  // descriptor closed
  bool rst = false;
};
struct Sock;
using SockP = std::shared_ptr<Sock>;
struct Sock {
  enum St { Fresh, Bound, Listening, Connecting, Connected, Dead } st = Fresh;
  int port = 0;
  int backlogMax = 0;
  bool reuse = false, nonblock = false, lingerRst = false;
  bool lshut = false;
  bool shutR = false, shutW = false;
  bool rstSeen = false;  // the error was delivered
  int err = 0;
  int side = 0;
  int nextId = 0;
  int inCalls = 0;
  bool fdClosed = false;
  std::shared_ptr<Conn> c;
  std::deque<std::shared_ptr<Conn>> backlog;
  std::deque<SockP> waiting;  // connecting, no room yet
};
std::mutex K;
std::condition_variable kcv;
std::map<int, SockP> fds;
std::map<int, SockP> listeners;  // port -> listener
std::set<int> lingering;         // ports with connections not fully gone
std::map<int, SockP> raw;
int nextFd = kBase;
thread_local int tlConn, tlNext;

// holds the kernel's lock; leaves errno alone when it is released
struct Lock {
  std::unique_lock<std::mutex> l;
  explicit Lock(std::mutex& m) : l(m) {}
  ~Lock() { int e = errno; l.unlock(); errno = e; }
};

bool isSim(int fd) { return vs::active() && fd >= kBase && fd < kLimit; }
bool fault(int percent) {
  if (faults.budget <= 0 || percent <= 0) return false;
  if (int(vs::rnd(100)) >= percent) return false;
  faults.budget--;
  return true;
}
SockP get(int fd) {
  auto it = fds.find(fd);
  if (it == fds.end()) {
    vs::ev("{\"e\":\"BadFd\",\"t\":%d}", vs::tid());
    errno = EBADF;
    return nullptr;
  }
  if (it->second->c) tlConn = it->second->c->id;
  return it->second;
}
int newFd(const SockP& s) {
  int fd;
  if (reuseFds) {
    fd = kBase;
    while (fds.count(fd)) fd++;
  } else {
    fd = nextFd++;
  }
  if (fd >= kLimit) abort();
  fds[fd] = s;
  return fd;
}
int fail(int e) { errno = e; return -1; }

void resetConn(const std::shared_ptr<Conn>& c, int lossy /* side whose sent data may get lost, or -1 */,
               bool own = false /* the code asked for it (linger of 0): loses data without the excuse of a reset */) {
  if (!c->rst) {
    c->rst = true;
    if (!own) vs::ev("{\"e\":\"rst\",\"c\":%d}", c->id);
  }
  for (int i = 0; i < 2; i++)
    if ((lossy == i || lossy == 2) && !c->buf[i].empty()) c->buf[i].resize(size_t(vs::rnd(c->buf[i].size() + 1)));
  kcv.notify_all();
}

void establish(const SockP& client, const SockP& listener) {
  auto c = std::make_shared<Conn>();
  c->id = client->nextId;
  c->port = listener->port;
  client->c = c;
  client->side = 0;
  client->st = Sock::Connected;
  listener->backlog.push_back(c);
  vs::ev("{\"e\":\"est\",\"c\":%d,\"port\":%d}", c->id, c->port);
  kcv.notify_all();
}
void refuse(const SockP& client, int e) {
  client->err = e;
  client->st = Sock::Dead;
  vs::ev("{\"e\":\"refused\",\"c\":%d}", client->nextId);
  kcv.notify_all();
}
bool room(const SockP& l) { return int(l->backlog.size()) <= l->backlogMax; }
void stopListening(const SockP& l) {
  if (l->lshut) return;
  l->lshut = true;
  if (listeners.count(l->port) && listeners[l->port] == l) {
    listeners.erase(l->port);
    vs::ev("{\"e\":\"unlisten\",\"port\":%d}", l->port);
  }
  for (auto& c : l->backlog) { c->closed[1] = true; resetConn(c, -1); }
  l->backlog.clear();
  for (auto& w : l->waiting) refuse(w, ECONNREFUSED);
  l->waiting.clear();
  kcv.notify_all();
}
void closeSock(const SockP& s) {
  if (s->st == Sock::Listening) stopListening(s);
  if (s->st == Sock::Connecting) {
    for (auto& l : listeners) {
      auto& w = l.second->waiting;
      for (size_t i = 0; i < w.size(); i++)
        if (w[i] == s) { w.erase(w.begin() + long(i)); break; }
    }
  }
  if (s->c) {
    auto& c = s->c;
    c->closed[s->side] = true;
    c->fin[s->side] = true;
    if (!c->rst && (s->lingerRst || !c->buf[1 - s->side].empty())) resetConn(c, s->side, c->buf[1 - s->side].empty());
    if (s->side == 1 && !c->rst && !c->closed[0]) lingering.insert(c->port);
    c->buf[1 - s->side].clear();
  }
  s->st = Sock::Dead;
  kcv.notify_all();
}

// A descriptor closed during a call is released when the call returns.
struct InCall {
  SockP s;
  explicit InCall(const SockP& s) : s(s) { s->inCalls++; }
  ~InCall() { int e = errno; if (--s->inCalls == 0 && s->fdClosed) closeSock(s); errno = e; }
};
ssize_t doRecv(int fd, void* buf, size_t n, int flags) {
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  InCall in(s);
  if (s->st != Sock::Connected) return fail(ENOTCONN);
  auto c = s->c;
  auto& q = c->buf[1 - s->side];
  if (fault(faults.eintr)) return fail(EINTR);
  if (fault(faults.reset)) resetConn(c, 2);
  while (true) {
    if (!q.empty() && !s->shutR) break;
    if (s->shutR) return 0;
    if (c->rst) {
      if (!s->rstSeen) { s->rstSeen = true; s->err = 0; return fail(ECONNRESET); }
      return 0;
    }
    if (c->fin[1 - s->side]) return 0;
    if (s->nonblock || (flags & MSG_DONTWAIT)) return fail(EAGAIN);
    if (n == 0) return 0;
    kcv.wait(l.l);
    if (fault(faults.eintr)) return fail(EINTR);
  }
  size_t k = std::min(n, q.size());
  if (k > 1 && fault(faults.shortRecv)) k = 1 + vs::rnd(k - 1);
  for (size_t i = 0; i < k; i++) static_cast<uint8_t*>(buf)[i] = q[i];
  if (!(flags & MSG_PEEK)) q.erase(q.begin(), q.begin() + long(k));
  kcv.notify_all();
  return ssize_t(k);
}
ssize_t pipeError(int flags, int e) {
  if (e == EPIPE && !(flags & MSG_NOSIGNAL)) vs::ev("{\"e\":\"Sigpipe\",\"t\":%d}", vs::tid());
  return fail(e);
}
ssize_t doSend(int fd, const void* buf, size_t n, int flags) {
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  InCall in(s);
  if (s->st != Sock::Connected) return pipeError(flags, EPIPE);
  auto c = s->c;
  auto& q = c->buf[s->side];
  size_t limit = n;
  if (fault(faults.eintr)) return fail(EINTR);
  if (fault(faults.reset)) resetConn(c, 2);
  if (n > 1 && fault(faults.shortSend)) limit = 1 + vs::rnd(n - 1);
  size_t done = 0;
  while (done < limit) {
    if (s->shutW) return done ? ssize_t(done) : pipeError(flags, EPIPE);
    if (c->rst) {
      if (done) return ssize_t(done);
      bool first = !s->rstSeen && !c->closed[1 - s->side];
      s->rstSeen = true;
      s->err = 0;
      return pipeError(flags, first ? ECONNRESET : EPIPE);
    }
    if (c->closed[1 - s->side]) {
      // taken by the network; the answer is a reset
      resetConn(c, -1);
      s->rstSeen = true;  // the next call gets EPIPE
      return ssize_t(limit);
    }
    size_t k = std::min(limit - done, q.size() < capacity ? capacity - q.size() : 0);
    for (size_t i = 0; i < k; i++) q.push_back(static_cast<const uint8_t*>(buf)[done + i]);
    done += k;
    if (k) kcv.notify_all();
    if (done == limit) break;
    if (s->nonblock || (flags & MSG_DONTWAIT)) return done ? ssize_t(done) : fail(EAGAIN);
    kcv.wait(l.l);
    if (fault(faults.eintr)) return done ? ssize_t(done) : fail(EINTR);
  }
  return ssize_t(limit);
}
bool readable(const SockP& s) {
  if (s->st == Sock::Listening) return !s->backlog.empty() || s->lshut;
  if (s->st == Sock::Connected) return s->shutR || s->c->rst || s->c->fin[1 - s->side] || !s->c->buf[1 - s->side].empty();
  return s->st != Sock::Connecting;
}
bool writable(const SockP& s) {
  if (s->st == Sock::Connecting) return false;
  if (s->st == Sock::Connected) return s->shutW || s->c->rst || s->c->closed[1 - s->side] || s->c->buf[s->side].size() < capacity;
  return true;
}
bool waitUntil(Lock& l, int64_t deadline) {
  // false: the deadline has passed
  if (deadline < 0) { kcv.wait(l.l); return true; }
  int64_t now = vs::nowNs();
  if (now >= deadline) return false;
  kcv.wait_for(l.l, std::chrono::nanoseconds(deadline - now));
  return true;
}
}  // namespace

void begin() {
  fds.clear();
  listeners.clear();
  lingering.clear();
  raw.clear();
  nextFd = kBase;
  faults = Faults();
  capacity = 64;
  reuseFds = true;
  delayedAck = true;
  tlConn = tlNext = 0;
}
int openFds() { Lock l(K); return int(fds.size()); }
bool listening(int port) { Lock l(K); return listeners.count(port) != 0; }
bool rawListen(int port) {
  Lock l(K);
  if (listeners.count(port)) return false;
  auto s = std::make_shared<Sock>();
  s->st = Sock::Listening;
  s->port = port;
  s->backlogMax = 1000;
  listeners[port] = s;
  raw[port] = s;
  vs::ev("{\"e\":\"rawlisten\",\"port\":%d}", port);
  return true;
}
void rawClose(int port) {
  Lock l(K);
  if (raw.count(port)) { stopListening(raw[port]); raw.erase(port); }
}
int lastConn() { return tlConn; }
void clearLastConn() { tlConn = 0; }
void setNextConn(int id) { tlNext = id; }

}  // namespace sim

using namespace sim;
#define REAL(nr, ...) syscall(nr, __VA_ARGS__)

extern "C" {

int socket(int domain, int type, int proto) {
  if (!vs::active()) return int(REAL(SYS_socket, domain, type, proto));
  Lock l(K);
  if (fault(faults.setup)) { vs::ev("{\"e\":\"fault\",\"op\":\"socket\",\"t\":%d}", vs::tid()); return fail(EMFILE); }
  auto s = std::make_shared<Sock>();
  s->nonblock = (type & SOCK_NONBLOCK) != 0;
  return newFd(s);
}
int setsockopt(int fd, int level, int name, const void* val, socklen_t len) {
  if (!isSim(fd)) return int(REAL(SYS_setsockopt, fd, level, name, val, len));
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  if (level == SOL_SOCKET && name == SO_REUSEADDR) s->reuse = *static_cast<const int*>(val) != 0;
  if (level == SOL_SOCKET && name == SO_LINGER) {
    auto* lg = static_cast<const struct linger*>(val);
    s->lingerRst = lg->l_onoff && lg->l_linger == 0;
  }
  return 0;
}
int getsockopt(int fd, int level, int name, void* val, socklen_t* len) {
  if (!isSim(fd)) return int(REAL(SYS_getsockopt, fd, level, name, val, len));
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  int v = 0;
  if (level == SOL_SOCKET && name == SO_ERROR) {
    if (s->c && s->c->rst && !s->rstSeen) { s->rstSeen = true; s->err = ECONNRESET; }
    v = s->err;
    s->err = 0;
  }
  memcpy(val, &v, std::min(size_t(*len), sizeof v));
  return 0;
}
static int portOf(const struct sockaddr* a) { return ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port); }
int bind(int fd, const struct sockaddr* a, socklen_t len) {
  if (!isSim(fd)) return int(REAL(SYS_bind, fd, a, len));
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  if (fault(faults.setup)) { vs::ev("{\"e\":\"fault\",\"op\":\"bind\",\"t\":%d}", vs::tid()); return fail(EACCES); }
  int port = portOf(a);
  if (listeners.count(port)) return fail(EADDRINUSE);
  if (!s->reuse && lingering.count(port)) return fail(EADDRINUSE);
  s->port = port;
  s->st = Sock::Bound;
  return 0;
}
int listen(int fd, int backlog) {
  if (!isSim(fd)) return int(REAL(SYS_listen, fd, backlog));
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  if (fault(faults.setup)) { vs::ev("{\"e\":\"fault\",\"op\":\"listen\",\"t\":%d}", vs::tid()); return fail(EADDRINUSE); }
  if (s->st == Sock::Listening) return 0;
  if (s->st != Sock::Bound) return fail(EINVAL);
  if (listeners.count(s->port)) return fail(EADDRINUSE);
  s->st = Sock::Listening;
  s->backlogMax = backlog < 0 ? 0 : backlog;
  listeners[s->port] = s;
  vs::ev("{\"e\":\"listen\",\"port\":%d}", s->port);
  kcv.notify_all();
  return 0;
}
int accept4(int fd, struct sockaddr* a, socklen_t* len, int flags) {
  if (!isSim(fd)) return int(REAL(SYS_accept4, fd, a, len, flags));
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  InCall in(s);
  if (s->st != Sock::Listening) return fail(EINVAL);
  while (true) {
    if (s->lshut) return fail(EINVAL);
    if (fault(faults.eintr)) return fail(EINTR);
    if (fault(faults.acceptAborted)) return fail(ECONNABORTED);
    if (fault(faults.acceptHard)) { vs::ev("{\"e\":\"fault\",\"op\":\"accept\",\"t\":%d}", vs::tid()); return fail(EMFILE); }
    if (!s->backlog.empty()) break;
    if (s->nonblock) return fail(EAGAIN);
    kcv.wait(l.l);
  }
  auto c = s->backlog.front();
  s->backlog.pop_front();
  auto n = std::make_shared<Sock>();
  n->st = Sock::Connected;
  n->c = c;
  n->side = 1;
  n->port = s->port;
  n->nonblock = (flags & SOCK_NONBLOCK) != 0;
  tlConn = c->id;
  vs::ev("{\"e\":\"accept\",\"c\":%d,\"port\":%d}", c->id, s->port);
  if (!s->waiting.empty() && room(s)) {
    auto w = s->waiting.front();
    s->waiting.pop_front();
    establish(w, s);
  }
  kcv.notify_all();
  if (a && len) memset(a, 0, *len);
  return newFd(n);
}
int accept(int fd, struct sockaddr* a, socklen_t* len) { return accept4(fd, a, len, 0); }
int connect(int fd, const struct sockaddr* a, socklen_t len) {
  if (!isSim(fd)) return int(REAL(SYS_connect, fd, a, len));
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  InCall in(s);
  if (s->st == Sock::Connecting) return fail(EALREADY);
  if (s->st == Sock::Connected) return fail(EISCONN);
  if (s->st == Sock::Dead) { int e = s->err ? s->err : ECONNABORTED; s->err = 0; return fail(e); }
  s->nextId = tlNext;
  if (fault(faults.connectErr)) { vs::ev("{\"e\":\"fault\",\"op\":\"connect\",\"t\":%d}", vs::tid()); return fail(ENETUNREACH); }
  int port = portOf(a);
  auto it = listeners.find(port);
  if (s->nonblock) {
    if (it == listeners.end()) { refuse(s, ECONNREFUSED); return fail(EINPROGRESS); }
    if (room(it->second)) {
      establish(s, it->second);
      return delayedAck ? fail(EINPROGRESS) : 0;
    }
    s->st = Sock::Connecting;
    it->second->waiting.push_back(s);
    return fail(EINPROGRESS);
  }
  if (it == listeners.end()) { refuse(s, ECONNREFUSED); s->err = 0; return fail(ECONNREFUSED); }
  if (room(it->second)) { establish(s, it->second); return 0; }
  s->st = Sock::Connecting;
  it->second->waiting.push_back(s);
  while (s->st == Sock::Connecting) {
    kcv.wait(l.l);
    if (s->st == Sock::Connecting && fault(faults.eintr)) { vs::ev("{\"e\":\"fault\",\"op\":\"connect\",\"t\":%d}", vs::tid()); return fail(EINTR); }
  }
  if (s->st == Sock::Connected) return 0;
  s->err = 0;
  return fail(ECONNREFUSED);
}
int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
  std::vector<int> mine;
  if (vs::active())
    for (int i = kBase; i < n; i++)
      if ((r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w)) || (x && FD_ISSET(i, x))) mine.push_back(i);
  if (mine.empty()) {
    struct timespec ts, *tp = nullptr;
    if (tv) { ts.tv_sec = tv->tv_sec; ts.tv_nsec = tv->tv_usec * 1000; tp = &ts; }
    return int(REAL(SYS_pselect6, n, r, w, x, tp, nullptr));
  }
  Lock l(K);
  int64_t deadline = tv ? vs::nowNs() + int64_t(tv->tv_sec) * 1000000000 + int64_t(tv->tv_usec) * 1000 : -1;
  if (fault(faults.eintr)) { vs::ev("{\"e\":\"fault\",\"op\":\"select\",\"t\":%d}", vs::tid()); return fail(EINTR); }
  while (true) {
    fd_set ro, wo;
    FD_ZERO(&ro);
    FD_ZERO(&wo);
    int k = 0;
    for (int i : mine) {
      auto s = get(i);
      if (!s) return -1;
      if (r && FD_ISSET(i, r) && readable(s)) { FD_SET(i, &ro); k++; }
      if (w && FD_ISSET(i, w) && writable(s)) { FD_SET(i, &wo); k++; }
    }
    if (k || !waitUntil(l, deadline)) {
      if (r) *r = ro;
      if (w) *w = wo;
      if (x) FD_ZERO(x);
      return k;
    }
  }
}
int poll(struct pollfd* p, nfds_t n, int timeout) {
  bool any = false;
  for (nfds_t i = 0; i < n; i++) any = any || isSim(p[i].fd);
  if (!any) return int(REAL(SYS_poll, p, n, timeout));
  Lock l(K);
  int64_t deadline = timeout >= 0 ? vs::nowNs() + int64_t(timeout) * 1000000 : -1;
  if (fault(faults.eintr)) { vs::ev("{\"e\":\"fault\",\"op\":\"select\",\"t\":%d}", vs::tid()); return fail(EINTR); }
  while (true) {
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (!isSim(p[i].fd)) continue;
      auto it = fds.find(p[i].fd);
      if (it == fds.end()) { p[i].revents = POLLNVAL; k++; continue; }
      auto s = it->second;
      if ((p[i].events & POLLIN) && readable(s)) p[i].revents |= POLLIN;
      if ((p[i].events & POLLOUT) && writable(s)) p[i].revents |= POLLOUT;
      if (s->err || (s->c && s->c->rst && !s->rstSeen)) p[i].revents |= POLLERR;
      if (s->st == Sock::Dead || s->st == Sock::Fresh || (s->c && s->c->rst)) p[i].revents |= POLLHUP;
      if (p[i].revents) k++;
    }
    if (k || !waitUntil(l, deadline)) return k;
  }
}
int __poll_chk(struct pollfd* p, nfds_t n, int timeout, size_t) { return poll(p, n, timeout); }

ssize_t recv(int fd, void* b, size_t n, int flags) {
  if (!isSim(fd)) return REAL(SYS_recvfrom, fd, b, n, flags, nullptr, nullptr);
  if (!(flags & MSG_WAITALL)) return doRecv(fd, b, n, flags);
  size_t done = 0;
  while (done < n) {
    ssize_t k = doRecv(fd, static_cast<char*>(b) + done, n - done, flags);
    if (k <= 0) return done ? ssize_t(done) : k;
    done += size_t(k);
  }
  return ssize_t(done);
}
ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int flags) { return recv(fd, b, n, flags); }
ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* l) {
  if (!isSim(fd)) return REAL(SYS_recvfrom, fd, b, n, flags, a, l);
  return recv(fd, b, n, flags);
}
ssize_t __recvfrom_chk(int fd, void* b, size_t n, size_t, int flags, struct sockaddr* a, socklen_t* l) { return recvfrom(fd, b, n, flags, a, l); }
ssize_t read(int fd, void* b, size_t n) { return isSim(fd) ? recv(fd, b, n, 0) : REAL(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t send(int fd, const void* b, size_t n, int flags) {
  return isSim(fd) ? doSend(fd, b, n, flags) : REAL(SYS_sendto, fd, b, n, flags, nullptr, 0);
}
ssize_t sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* a, socklen_t l) {
  return isSim(fd) ? doSend(fd, b, n, flags) : REAL(SYS_sendto, fd, b, n, flags, a, l);
}
ssize_t write(int fd, const void* b, size_t n) { return isSim(fd) ? doSend(fd, b, n, 0) : REAL(SYS_write, fd, b, n); }
ssize_t sendmsg(int fd, const struct msghdr* m, int flags) {
  if (!isSim(fd)) return REAL(SYS_sendmsg, fd, m, flags);
  std::vector<char> all;
  for (size_t i = 0; i < m->msg_iovlen; i++) all.insert(all.end(), static_cast<char*>(m->msg_iov[i].iov_base), static_cast<char*>(m->msg_iov[i].iov_base) + m->msg_iov[i].iov_len);
  return doSend(fd, all.data(), all.size(), flags);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (!isSim(fd)) return REAL(SYS_writev, fd, v, n);
  struct msghdr m = {};
  m.msg_iov = const_cast<struct iovec*>(v);
  m.msg_iovlen = size_t(n);
  return sendmsg(fd, &m, 0);
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags) {
  if (!isSim(fd)) return REAL(SYS_recvmsg, fd, m, flags);
  return recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags);
}
int shutdown(int fd, int how) {
  if (!isSim(fd)) return int(REAL(SYS_shutdown, fd, how));
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  if (s->st == Sock::Listening) { if (how != SHUT_WR) stopListening(s); return 0; }
  if (s->st != Sock::Connected) return fail(ENOTCONN);
  if (how != SHUT_WR) s->shutR = true;
  if (how != SHUT_RD) { s->shutW = true; s->c->fin[s->side] = true; }
  kcv.notify_all();
  return s->c->rst ? fail(ENOTCONN) : 0;
}
int close(int fd) {
  if (!isSim(fd)) return int(REAL(SYS_close, fd));
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  fds.erase(fd);
  s->fdClosed = true;
  if (s->inCalls == 0) closeSock(s);
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  va_list va;
  va_start(va, cmd);
  long arg = va_arg(va, long);
  va_end(va);
  if (!isSim(fd)) return int(REAL(SYS_fcntl, fd, cmd, arg));
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) s->nonblock = (arg & O_NONBLOCK) != 0;
  return 0;
}
int fcntl64(int fd, int cmd, ...) {
  va_list va;
  va_start(va, cmd);
  long arg = va_arg(va, long);
  va_end(va);
  return fcntl(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list va;
  va_start(va, req);
  void* arg = va_arg(va, void*);
  va_end(va);
  if (!isSim(fd)) return int(REAL(SYS_ioctl, fd, req, arg));
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  if (req == FIONBIO) s->nonblock = *static_cast<int*>(arg) != 0;
  return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* len) {
  if (!isSim(fd)) return int(REAL(SYS_getsockname, fd, a, len));
  Lock l(K);
  auto s = get(fd);
  if (!s) return -1;
  sockaddr_in in = {};
  in.sin_family = AF_INET;
  in.sin_port = htons(uint16_t(s->port));
  in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  memcpy(a, &in, std::min(size_t(*len), sizeof in));
  *len = sizeof in;
  return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* len) {
  if (!isSim(fd)) return int(REAL(SYS_getpeername, fd, a, len));
  {
    Lock l(K);
    auto s = get(fd);
    if (!s) return -1;
    if (s->st != Sock::Connected || s->c->rst) return fail(ENOTCONN);
  }
  return getsockname(fd, a, len);
}
static std::set<void*>& infos() { static std::set<void*> s; return s; }
int getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** res) {
  struct Both { addrinfo ai; sockaddr_in sa; };
  auto* b = static_cast<Both*>(calloc(1, sizeof(Both)));
  b->sa.sin_family = AF_INET;
  b->sa.sin_port = htons(uint16_t(service ? atoi(service) : 0));
  if (!node) b->sa.sin_addr.s_addr = htonl(hints && (hints->ai_flags & AI_PASSIVE) ? INADDR_ANY : INADDR_LOOPBACK);
  else if (!strcmp(node, "localhost")) b->sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  else if (inet_pton(AF_INET, node, &b->sa.sin_addr) != 1) { free(b); return EAI_NONAME; }
  b->ai.ai_family = AF_INET;
  b->ai.ai_socktype = SOCK_STREAM;
  b->ai.ai_protocol = IPPROTO_TCP;
  b->ai.ai_addrlen = sizeof(sockaddr_in);
  b->ai.ai_addr = reinterpret_cast<sockaddr*>(&b->sa);
  *res = &b->ai;
  return 0;
}
void freeaddrinfo(struct addrinfo* a) { free(a); }

}  // extern "C"
