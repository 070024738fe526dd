// The TCP classes on the real loopback network: a few plain scenarios, to tie
// the simulated network of h_net to a real one.
#include "hseq.h"
#include "dap/io.h"
#include "dap/network.h"

#include <arpa/inet.h>
#include <netinet/in.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

using hseq::fmt;
using hseq::Rng;
using RWp = std::shared_ptr<dap::ReaderWriter>;

static std::mutex gM;
static void ev(const std::string& s) { std::unique_lock<std::mutex> l(gM); hseq::ev(s); }

static int freePort() {
  int s = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a = {};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t n = sizeof a;
  int port = 0;
  if (bind(s, reinterpret_cast<sockaddr*>(&a), n) == 0 && getsockname(s, reinterpret_cast<sockaddr*>(&a), &n) == 0) port = ntohs(a.sin_port);
  close(s);
  return port;
}

struct End {
  int side;
  RWp rw;
  size_t wpos = 0;
  bool write(int t, size_t n) {
    std::string b(n, 0);
    for (size_t i = 0; i < n; i++) b[i] = char((wpos + i) % 251);
    wpos += n;
    ev(fmt("{\"e\":\"call\",\"op\":\"write\",\"t\":%d,\"s\":%d,\"n\":%d}", t, side, int(n)));
    bool ok = rw->write(b.data(), n);
    ev(fmt("{\"e\":\"ret\",\"op\":\"write\",\"t\":%d,\"s\":%d,\"ok\":%d}", t, side, int(ok)));
    return ok;
  }
  size_t read(int t, size_t n) {
    std::string b(n, 0);
    ev(fmt("{\"e\":\"call\",\"op\":\"read\",\"t\":%d,\"s\":%d,\"n\":%d}", t, side, int(n)));
    size_t k = rw->read(&b[0], n);
    bool seq = k <= n;
    for (size_t i = 1; seq && i < k; i++) seq = uint8_t(b[i]) == (uint8_t(b[i - 1]) + 1) % 251;
    ev(fmt("{\"e\":\"ret\",\"op\":\"read\",\"t\":%d,\"s\":%d,\"n\":%d,\"from\":%d,\"seq\":%d}", t, side, int(k), int(uint8_t(b[0])), int(seq)));
    return k;
  }
  void close(int t) {
    ev(fmt("{\"e\":\"call\",\"op\":\"close\",\"t\":%d,\"s\":%d}", t, side));
    rw->close();
    ev(fmt("{\"e\":\"ret\",\"op\":\"close\",\"t\":%d,\"s\":%d}", t, side));
  }
};

// The process already has many files open: sockets get high numbers.
struct Crowd {
  std::vector<int> fds;
  explicit Crowd(int n) {
    rlimit l;
    if (!n || getrlimit(RLIMIT_NOFILE, &l)) return;
    rlim_t want = rlim_t(n) + 200;
    if (l.rlim_cur < want) { l.rlim_cur = std::min(want, l.rlim_max); setrlimit(RLIMIT_NOFILE, &l); }
    if (l.rlim_cur < want) return;
    while (n-- > 0) { int f = open("/dev/null", O_RDONLY | O_CLOEXEC); if (f < 0) return; fds.push_back(f); }
  }
  ~Crowd() { for (int f : fds) ::close(f); }
};

static void runCase(Rng& r) {
  Crowd crowd(r(3) ? 0 : 900 + int(r(300)));
  std::mutex m;
  std::condition_variable cv;
  std::deque<RWp> got;
  auto onConnect = [&](const RWp& rw) { std::unique_lock<std::mutex> l(m); got.push_back(rw); cv.notify_all(); };
  auto server = dap::net::Server::create();
  int port = 0;
  bool ok = false;
  for (int i = 0; i < 8 && !ok; i++) {
    port = freePort();
    ok = server->start(port, onConnect, [](const char*) {});
  }
  if (!ok) { ev("{\"e\":\"noconn\",\"why\":\"start\"}"); return; }
  {
    // the port is taken
    int errors = 0;
    auto other = dap::net::Server::create();
    if (other->start(port, onConnect, [&](const char*) { errors++; }) || errors != 1) { ev("{\"e\":\"noconn\",\"why\":\"conflict\"}"); return; }
  }
  for (int round = 0; round < 2; round++) {
    End e[2] = {{0, dap::net::connect("localhost", port, r(2) ? 0 : 2000)}, {1, nullptr}};
    if (e[0].rw) {
      std::unique_lock<std::mutex> l(m);
      if (cv.wait_for(l, std::chrono::seconds(5), [&] { return !got.empty(); })) { e[1].rw = got.front(); got.pop_front(); }
    }
    if (!e[0].rw || !e[1].rw) { ev("{\"e\":\"noconn\",\"why\":\"connect\"}"); return; }
    ev(round ? "{\"e\":\"conn2\"}" : "{\"e\":\"conn\"}");
    std::vector<std::thread> th;
    for (int s = 0; s < 2; s++) {
      size_t chunk = r(3) == 0 ? 700000 : 1 + r(60000);
      int times = chunk > 100000 ? 3 : 10;
      size_t total = chunk * size_t(times);
      End &W = e[s], &R = e[1 - s];
      th.emplace_back([&W, chunk, times, s] { for (int i = 0; i < times; i++) if (!W.write(1 + s, chunk)) break; });
      th.emplace_back([&R, total, s] { for (size_t n = 0; n < total;) { size_t k = R.read(3 + s, 65536); if (!k) break; n += k; } });
    }
    for (auto& t : th) t.join();
    th.clear();
    int a = round == 0 ? 1 : int(r(2));  // the server's end first: its port lingers
    std::thread reader([&] { e[1 - a].read(5, 100); });
    std::thread own([&] { if (round) e[a].read(6, 100); });
    std::this_thread::sleep_for(std::chrono::milliseconds(r(4)));
    e[a].close(7);
    reader.join();
    own.join();
    for (int i = 0; i < 2000; i++) {
      if (!e[1 - a].write(7, 1000)) break;
      ev("{\"e\":\"rst\",\"c\":1}");
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    e[a].write(7, 1);
    e[a].read(7, 1);
    e[1 - a].close(7);
    if (round == 0) {
      server->stop();
      if (dap::net::connect("localhost", port, 200)) { ev("{\"e\":\"noconn\",\"why\":\"still listening\"}"); return; }
      if (!server->start(port, onConnect, [](const char*) {})) { ev("{\"e\":\"noconn\",\"why\":\"restart\"}"); return; }
    }
  }
  ev("{\"e\":\"end\",\"fds\":0}");
}
int main(int argc, char** argv) {
  return hseq::run(argc, argv, [&](long, uint64_t seed) { Rng r(seed); runCase(r); });
}
