// Framing: feeds byte streams, split into reads in many ways, to the content
// reader (and, "session", through a bound session) and records what came out.
//   tokens / long : one event {"e":"case",mode,s,out,asks,closed} per stream
//   huge          : contents of up to tens of MB, told apart by their hashes
//   session       : the same, as observed by the handlers of a session
#include "hseq.h"
#include "content_stream.h"
#include "dap/io.h"
#include "dap/protocol.h"
#include "dap/session.h"

#include <atomic>
#include <chrono>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <vector>

using hseq::fmt;
using hseq::Rng;

static std::string bytes(const std::string& s) {
  std::string o = "[";
  for (size_t i = 0; i < s.size(); i++) o += (i ? "," : "") + std::to_string(int(uint8_t(s[i])));
  return o + "]";
}

static std::string content(Rng& r, size_t n) {
  std::string c;
  for (size_t i = 0; i < n; i++) {
    switch (r(4)) {
      case 0: c += char(r(256)); break;
      case 1: c += "\r\n0: C"[r(6)]; break;
      default: c += char('a' + r(26));
    }
  }
  // sometimes something that looks like a header inside the content
  if (n >= 24 && r(3) == 0) c.replace(r(n - 23), 23, "Content-Length: 2\r\n\r\nzz");
  return c;
}
static std::string frame(const std::string& c, Rng& r) {
  static const char* ws[] = {" ", " ", " ", "", "\t", "  ", " \t "};
  static const char* zeros[] = {"", "", "", "0", "000"};
  return std::string("Content-Length:") + ws[r(7)] + zeros[r(5)] + std::to_string(c.size()) + "\r\n\r\n" + c;
}

static const int NTOK = 24;
static std::string token(int k, Rng& r) {
  switch (k) {
    case 0: return "Content-Length:";
    case 1: return frame(content(r, 1 + r(6)), r);
    case 2: return "Content-Length: 3\r\n\r\n";
    case 3: return "3";
    case 4: return "\r\n\r\n";
    case 5: return "abc";
    case 6: return " ";
    case 7: return "Content-Len";
    case 8: return "\t";
    case 9: return "0";
    case 10: return "\r\n";
    case 11: return "\r";
    case 12: return std::string(1, char(0));
    case 13: return "C";
    case 14: return frame(content(r, 10 + r(10)), r);
    case 15: return "-";
    case 16: return "18446744073709551619";   // 2^64 + 3
    case 17: return "99999999999999999999999";
    case 19: return "4294967299";              // 2^32 + 3
    case 20: return r(2) ? "2147483651" : "65539";
    case 21: {  // a frame whose header is nearly right
      static const char* end[] = {"\n\n", "\r\n", "\r\n\n", "\n\r\n", "\r\r", "\n", "\r\n\r\r", " \r\n\r\n", "\r\n \r\n", "\r\n\r\n\r\n", "\n\r\n\r", ""};
      static const char* name[] = {"content-length: ", "Content-Length : ", "Content-Length= ", "Content-Length:\r\n", "CONTENT-LENGTH: ", "Content_Length: ", "Content-Length: +",
                                   "Content-Length: -", "Content-Length: 0x", "Content-Length: \v", "Content-Type: x\r\nContent-Length: ", "Content-Length:: "};
      std::string c = content(r, 1 + r(6));
      bool e = r(2);
      return (e ? std::string("Content-Length: ") : std::string(name[r(12)])) + std::to_string(c.size()) + (e ? end[r(12)] : "\r\n\r\n") + c;
    }
    case 22: {  // one byte of the header changed, added or removed
      std::string c = content(r, 1 + r(6)), f = "Content-Length: " + std::to_string(c.size()) + "\r\n\r\n";
      size_t at = r(f.size());
      char ch = r(2) ? "\r\n \t:0C9-"[r(9)] : char(r(256));
      switch (r(4)) { case 0: f.erase(at, 1); break; case 1: f.insert(at, 1, ch); break; case 2: f.insert(at, 1, f[at]); break; default: f[at] = ch; }
      return f + c;
    }
    case 18: return std::string(1, char(128 + r(128)));
    default: return "Content-Length: 12";
  }
}

struct Src : dap::Reader {
  std::string s;
  size_t pos = 0;
  int mode = 0;
  Rng r{0};
  bool open = true, closedByReader = false;
  std::vector<std::pair<size_t, size_t>> asks;
  size_t* delivered = nullptr;
  std::mutex m;
  bool isOpen() override { std::lock_guard<std::mutex> l(m); return open; }
  void close() override { std::lock_guard<std::mutex> l(m); open = false; closedByReader = true; }
  size_t read(void* b, size_t n) override {
    std::lock_guard<std::mutex> l(m);
    if (!open) return 0;
    if (delivered && (asks.empty() || asks.back() != std::make_pair(pos, *delivered))) asks.push_back({pos, *delivered});
    size_t left = s.size() - pos;
    if (left == 0) { open = false; return 0; }
    size_t k = n < left ? n : left;
    if (k > 1) {
      if (mode == 1) k = 1;
      else if (mode == 2) k = 1 + r(k);
      else if (mode == 3) k = 1 + r(k < 3 ? k : 3);
    }
    memcpy(b, s.data() + pos, k);
    pos += k;
    return k;
  }
};

static std::string stream(const std::string& what, long idx, Rng& r) {
  std::string s;
  if (what == "tokens") {
    // all token strings of length 1, 2, 3, then random ones of length 2..8
    long n = idx;
    int len = 1;
    long span = NTOK;
    while (len <= 3 && n >= span) { n -= span; span *= NTOK; len++; }
    if (len <= 3) {
      for (int i = 0; i < len; i++, n /= NTOK) s += token(int(n % NTOK), r);
      if (r(2)) s += frame(content(r, 1 + r(3)), r);
    } else {
      for (int i = 2 + int(r(7)); i > 0; i--) s += token(r(3) == 0 ? int(1 + r(2)) : int(r(NTOK)), r);
    }
  } else {
    static const size_t sizes[] = {1, 2, 15, 16, 100, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1024, 3000};
    for (int i = 1 + int(r(4)); i > 0; i--) {
      if (r(4) == 0) s += content(r, 1 + r(30));
      else if (r(6) == 0) s += token(int(r(NTOK)), r);
      s += frame(content(r, sizes[r(16)]), r);
    }
    if (r(3) == 0) s.resize(s.size() - r(s.size() < 40 ? s.size() : 40));
  }
  return s;
}

static void reader(const std::string& what, long idx, uint64_t seed, bool close) {
  Rng r(seed);
  auto src = std::make_shared<Src>();
  src->s = stream(what, idx / 2, r);
  src->mode = int(r(4));
  src->r = Rng(seed + 5);
  size_t delivered = 0;
  src->delivered = &delivered;
  std::vector<std::string> outs;
  dap::ContentReader cr;
  cr = close ? dap::ContentReader(src, dap::kClose) : r(2) ? dap::ContentReader(src, dap::kIgnore) : dap::ContentReader(src);
  long guard = 0;
  while (cr.isOpen()) {
    auto m = cr.read();
    if (!m.empty()) { outs.push_back(m); delivered++; }
    if (++guard > 100000) { hseq::ev("{\"e\":\"Hang\"}"); return; }
  }
  bool closed = !src->isOpen();
  std::string o, a;
  for (auto& x : outs) o += (o.empty() ? "" : ",") + bytes(x);
  for (auto& x : src->asks) a += (a.empty() ? "" : ",") + fmt("[%zu,%zu]", x.first, x.second);
  hseq::ev(fmt("{\"e\":\"case\",\"mode\":\"%s\",\"s\":", close ? "close" : "ignore") + bytes(src->s) + ",\"out\":[" + o + "],\"asks\":[" +
           a + "],\"only\":[],\"closed\":" + (closed ? "true}" : "false}"));
}

// Contents too long to be listed byte by byte: {"e":"huge"} has the lengths and
// hashes of the frames written, whether the last one was cut short, and the
// lengths and hashes of the messages read.
static std::string digest(const std::string& c) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : c) h = (h ^ ch) * 1099511628211ull;
  return fmt("[%zu,\"%016llx\"]", c.size(), (unsigned long long)h);
}
static void huge(long idx, uint64_t seed, bool close, size_t max) {
  Rng r(seed);
  static const size_t base[] = {1u << 12, 1u << 13, 1u << 14, 1u << 15, 1u << 16, 100000, 1u << 17, 1u << 18, 1u << 19, 1000000, 1u << 20, 1u << 21, 1u << 22, 1u << 23,
                                10000000, 1u << 24, 1u << 25, 1u << 26, 100000000};
  size_t nb = 0;
  while (nb < sizeof base / sizeof *base && base[nb] <= max) nb++;
  auto src = std::make_shared<Src>();
  struct Buf : dap::Writer {
    std::string* s;
    bool isOpen() override { return true; }
    void close() override {}
    bool write(const void* b, size_t n) override { s->append((const char*)b, n); return true; }
  };
  auto buf = std::make_shared<Buf>();
  buf->s = &src->s;
  dap::ContentWriter cw(buf);
  std::string in, out;
  int n = 1 + int(r(2));
  bool cut = false;
  for (int i = 0; i < n; i++) {
    size_t len = base[i ? r(nb / 2) : size_t(idx) % nb];
    len += r(3) ? r(3) - 1 : r(len / 4);
    std::string c(len, ' ');
    uint64_t x = r.s | 1;
    for (auto& ch : c) { x = x * 6364136223846793005ull + 1442695040888963407ull; ch = char(x >> 56); }
    bool wr = r(2);
    if (wr) { if (!cw.write(c)) hseq::ev("{\"e\":\"WriteFailed\"}"); }
    else src->s += frame(c, r);
    cut = i == n - 1 && r(4) == 0;
    if (cut) src->s.resize(src->s.size() - 1 - r(len - 1));
    in += (in.empty() ? "" : ",") + digest(c);
  }
  src->mode = r(8) == 0 && src->s.size() < 2000000 ? 1 : r(2) ? 2 : 0;
  src->r = Rng(seed + 5);
  dap::ContentReader cr = close ? dap::ContentReader(src, dap::kClose) : dap::ContentReader(src);
  long guard = 0;
  while (cr.isOpen()) {
    auto m = cr.read();
    if (!m.empty()) out += (out.empty() ? "" : ",") + digest(m);
    if (++guard > 1000) { hseq::ev("{\"e\":\"Hang\"}"); return; }
  }
  hseq::ev("{\"e\":\"huge\",\"frames\":[" + in + "],\"cut\":" + (cut ? "true" : "false") + ",\"out\":[" + out + "]}");
}

// The same with two sessions joined by pipes: what one sends as text reaches
// the other's handler.
static void hugeSessions(long idx, uint64_t seed, bool close, size_t max) {
  Rng r(seed);
  std::mutex m;
  std::vector<std::string> got;
  std::string in, out;
  int n = 1 + int(r(3));
  {
    auto a = dap::Session::create(), b = dap::Session::create();
    a->onError([](const char*) {});
    b->onError([](const char*) {});
    if (close) b->setOnInvalidData(dap::kClose);
    b->registerHandler([&](const dap::OutputEvent& e) {
      std::lock_guard<std::mutex> l(m);
      got.push_back(digest(e.output));
    });
    auto p = dap::pipe(), q = dap::pipe();
    a->bind(q, p);
    b->bind(p, q);
    for (int i = 0; i < n; i++) {
      dap::OutputEvent e;
      size_t len = size_t(1) << (12 + (size_t(idx) + size_t(i) * 5) % 13);
      if (len > max / 4) len = 5000;
      e.output = std::string(len - 30 + r(60), char('a' + r(26)));
      e.output[r(e.output.size())] = char('a' + r(26));
      in += (in.empty() ? "" : ",") + digest(e.output);
      a->send(e);
    }
    auto t0 = std::chrono::steady_clock::now();
    while (std::chrono::steady_clock::now() - t0 < std::chrono::seconds(20)) {
      { std::lock_guard<std::mutex> l(m); if (got.size() >= size_t(n)) break; }
      std::this_thread::sleep_for(std::chrono::microseconds(500));
    }
    p->close();
    q->close();
  }
  for (auto& g : got) out += (out.empty() ? "" : ",") + g;
  hseq::ev("{\"e\":\"huge\",\"frames\":[" + in + "],\"cut\":false,\"out\":[" + out + "]}");
}

static void session(long idx, uint64_t seed, bool close) {
  Rng r(seed);
  auto src = std::make_shared<Src>();
  std::map<long, std::string> sent;
  int n = 1 + int(r(6));
  for (int i = 0; i < n; i++) {
    long id = i + 1;
    std::string c = fmt("{\"seq\":%ld,\"type\":\"event\",\"event\":\"thread\",\"body\":{\"reason\":\"%s\",\"threadId\":%ld}}", id,
                        std::string(size_t(r(3) ? 1 + r(20) : 200 + r(200)), 'x').c_str(), id);
    sent[id] = c;
    int g = int(r(close ? 9 : 4));
    if (g == 1) src->s += token(int(r(NTOK)), r);
    if (g == 2) src->s += "some garbage\r\n\r\n";
    src->s += frame(c, r);
  }
  src->mode = int(r(4));
  src->r = Rng(seed + 5);
  std::mutex m;
  std::vector<long> got;
  std::atomic<int> closed{0};
  auto session = dap::Session::create();
  session->onError([](const char*) {});
  session->registerHandler([&](const dap::ThreadEvent& e) {
    std::lock_guard<std::mutex> l(m);
    got.push_back(long(e.threadId));
  });
  if (close) session->setOnInvalidData(dap::kClose);
  else if (r(2)) session->setOnInvalidData(dap::kIgnore);
  struct Sink : dap::Writer {
    std::atomic<bool> open{true};
    bool isOpen() override { return open; }
    void close() override { open = false; }
    bool write(const void*, size_t) override { return open; }
  };
  session->bind(src, std::make_shared<Sink>(), [&] { closed++; });
  auto t0 = std::chrono::steady_clock::now();
  auto ms = [&] { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count(); };
  while (!closed && ms() < 15000) std::this_thread::sleep_for(std::chrono::microseconds(200));
  if (!closed) { hseq::ev("{\"e\":\"Hang\"}"); _exit(3); }
  size_t last = 0;
  t0 = std::chrono::steady_clock::now();
  while (ms() < 150) {
    std::lock_guard<std::mutex> l(m);
    if (got.size() == size_t(n)) break;
    if (got.size() != last) { last = got.size(); t0 = std::chrono::steady_clock::now(); }
  }
  session.reset();
  std::string o, k;
  for (auto& c : sent) k += (k.empty() ? "" : ",") + bytes(c.second);
  for (long id : got) o += (o.empty() ? "" : ",") + bytes(sent.count(id) ? sent[id] : "?");
  hseq::ev(fmt("{\"e\":\"case\",\"mode\":\"%s\",\"s\":", close ? "close" : "ignore") + bytes(src->s) + ",\"out\":[" + o +
           "],\"asks\":[],\"only\":[" + k + "],\"closed\":true}");
}

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "";
  std::string mode = hseq::opt(argc, argv, "close", "0");
  bool close = mode == "1";
  return hseq::run(argc, argv, [&](long idx, uint64_t seed) {
    if (what == "session") session(idx, seed, close);
    else if (what == "huge" && idx % 4 == 3) hugeSessions(idx / 4, seed, close, size_t(atol(hseq::opt(argc, argv, "max", "17000000").c_str())));
    else if (what == "huge") huge(idx - idx / 4, seed, close, size_t(atol(hseq::opt(argc, argv, "max", "17000000").c_str())));
    else reader(what, idx * 2, seed, close);
  });
}
