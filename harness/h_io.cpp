// The stream adapters (ReaderWriter::create, spy, file, writef) over scripted
// streams and simulated stdio files, under the controlled scheduler.
//   tree : random compositions, used by one or more threads
//   real : file(path), /dev/full, real FILEs
#include "vsched.h"
#include "hargs.h"

#include "dap/io.h"

#include <dlfcn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

using vs::ev;
using vs::rnd;

namespace {

std::string arr(const std::string& s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); i++) {
    if (i) r += ",";
    r += std::to_string(int(uint8_t(s[i])));
  }
  return r + "]";
}
void evs(const std::string& s) { ev("%s", s.c_str()); }
std::string num(long long v) { return std::to_string(v); }

// ---- a scripted stream
struct Base : dap::ReaderWriter {
  int id;
  bool open = true;
  std::mutex m;
  std::condition_variable cv;
  int behave;          // 0 full reads, 1 short reads, 2 blocks until fed
  int failWrites;      // one in that many writes fails (0: none)
  int next = 0;        // the next byte delivered
  int avail = 1 << 20; // bytes until the end of the stream
  bool isOpen() override {
    std::unique_lock<std::mutex> l(m);
    return open;
  }
  void close() override {
    std::unique_lock<std::mutex> l(m);
    open = false;
    evs("{\"e\":\"bclose\",\"t\":" + num(vs::tid()) + ",\"b\":" + num(id) + "}");
    cv.notify_all();
  }
  size_t read(void* buffer, size_t n) override {
    std::unique_lock<std::mutex> l(m);
    size_t k = 0;
    if (open && behave == 2) cv.wait(l, [&] { return !open || avail > 0; });
    if (open && n > 0) {
      k = behave == 1 ? 1 + rnd(n) : n;
      if (k > size_t(avail)) k = size_t(avail);
      avail -= int(k);
    }
    std::string d(k, 0);
    for (size_t i = 0; i < k; i++) d[i] = char(id * 64 + (next++ % 60));
    memcpy(buffer, d.data(), k);
    evs("{\"e\":\"bread\",\"t\":" + num(vs::tid()) + ",\"b\":" + num(id) + ",\"n\":" + num((long long)n) + ",\"d\":" + arr(d) + "}");
    return k;
  }
  bool write(const void* buffer, size_t n) override {
    std::unique_lock<std::mutex> l(m);
    bool ok = open && !(failWrites && rnd(uint64_t(failWrites)) == 0);
    evs("{\"e\":\"bwrite\",\"t\":" + num(vs::tid()) + ",\"b\":" + num(id) + ",\"d\":" + arr(std::string((const char*)buffer, n)) +
        ",\"ok\":" + num(ok) + "}");
    return ok;
  }
};

// ---- a simulated stdio file: what follows intercepts the C library
struct SimFile {
  int id;
  bool closed = false, eof = false, failFlush = false;
  int failAfter = -1;  // writes fail after that many bytes
  bool blocks = false; // reads wait for data
  int avail = 0, next = 0;
  std::string buf;     // written, not flushed
  std::mutex lock;     // the FILE's own lock
  std::mutex m;
  std::condition_variable cv;
};
std::map<FILE*, SimFile*>& files() { static std::map<FILE*, SimFile*> f; return f; }
SimFile* sim(FILE* f) {
  if (!vs::active()) return nullptr;
  auto it = files().find(f);
  return it == files().end() ? nullptr : it->second;
}
bool usable(SimFile* s, const char* what) {
  if (!s->closed) return true;
  evs("{\"e\":\"UseAfterClose\",\"t\":" + num(vs::tid()) + ",\"b\":" + num(s->id) + ",\"what\":\"" + what + "\"}");
  return false;
}
int simGet(SimFile* s) {
  std::unique_lock<std::mutex> g(s->lock);
  if (!usable(s, "read")) return EOF;
  std::unique_lock<std::mutex> l(s->m);
  if (s->blocks) s->cv.wait(l, [&] { return s->avail > 0 || s->eof; });
  if (s->avail == 0) {
    s->eof = true;
    evs("{\"e\":\"feof\",\"t\":" + num(vs::tid()) + ",\"b\":" + num(s->id) + "}");
    return EOF;
  }
  s->avail--;
  int c = s->next++ % 256;
  evs("{\"e\":\"fget\",\"t\":" + num(vs::tid()) + ",\"b\":" + num(s->id) + ",\"c\":" + num(c) + "}");
  return c;
}
size_t simPut(SimFile* s, const char* p, size_t n) {
  std::unique_lock<std::mutex> g(s->lock);
  if (!usable(s, "write")) return 0;
  size_t k = n;
  if (s->failAfter >= 0) {
    if (size_t(s->failAfter) < k) k = size_t(s->failAfter);
    s->failAfter -= int(k);
  }
  s->buf.append(p, k);
  evs("{\"e\":\"fput\",\"t\":" + num(vs::tid()) + ",\"b\":" + num(s->id) + ",\"d\":" + arr(std::string(p, k)) + ",\"ok\":" + num(k == n) + "}");
  return k;
}
int simFlush(SimFile* s) {
  std::unique_lock<std::mutex> g(s->lock);
  if (!usable(s, "flush")) return EOF;
  bool ok = !s->failFlush;
  evs("{\"e\":\"fflush\",\"t\":" + num(vs::tid()) + ",\"b\":" + num(s->id) + ",\"ok\":" + num(ok) + "}");
  s->buf.clear();
  return ok ? 0 : EOF;
}
int simClose(SimFile* s) {
  std::unique_lock<std::mutex> g(s->lock);
  if (!usable(s, "close")) return EOF;
  s->closed = true;
  evs("{\"e\":\"fclose\",\"t\":" + num(vs::tid()) + ",\"b\":" + num(s->id) + "}");
  return 0;
}

template <typename F>
F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

}  // namespace

#define GET1(name)                                     \
  extern "C" int name(FILE* f) {                       \
    if (auto s = sim(f)) return simGet(s);             \
    static auto r = real<int (*)(FILE*)>(#name);       \
    return r(f);                                       \
  }
GET1(fgetc)
#undef getc
GET1(getc)
#undef fgetc_unlocked
#undef getc_unlocked
GET1(fgetc_unlocked)
GET1(getc_unlocked)
GET1(_IO_getc)
extern "C" size_t fread(void* p, size_t sz, size_t n, FILE* f) {
  auto s = sim(f);
  if (!s) { static auto r = real<size_t (*)(void*, size_t, size_t, FILE*)>("fread"); return r(p, sz, n, f); }
  size_t i = 0;
  for (; i < sz * n; i++) {
    int c = simGet(s);
    if (c == EOF) break;
    ((char*)p)[i] = char(c);
  }
  return sz ? i / sz : 0;
}
extern "C" size_t fread_unlocked(void* p, size_t sz, size_t n, FILE* f) { return fread(p, sz, n, f); }
extern "C" size_t __fread_chk(void* p, size_t, size_t sz, size_t n, FILE* f) { return fread(p, sz, n, f); }
extern "C" size_t fwrite(const void* p, size_t sz, size_t n, FILE* f) {
  auto s = sim(f);
  if (!s) { static auto r = real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite"); return r(p, sz, n, f); }
  size_t k = simPut(s, (const char*)p, sz * n);
  return sz ? k / sz : 0;
}
extern "C" size_t fwrite_unlocked(const void* p, size_t sz, size_t n, FILE* f) { return fwrite(p, sz, n, f); }
#define PUT1(name)                                          \
  extern "C" int name(int c, FILE* f) {                     \
    char ch = char(c);                                      \
    if (auto s = sim(f)) return simPut(s, &ch, 1) ? (unsigned char)ch : EOF; \
    static auto r = real<int (*)(int, FILE*)>(#name);       \
    return r(c, f);                                         \
  }
PUT1(fputc)
#undef putc
PUT1(putc)
extern "C" int fflush(FILE* f) {
  if (auto s = sim(f)) return simFlush(s);
  static auto r = real<int (*)(FILE*)>("fflush");
  return r(f);
}
extern "C" int fclose(FILE* f) {
  if (auto s = sim(f)) return simClose(s);
  static auto r = real<int (*)(FILE*)>("fclose");
  return r(f);
}
extern "C" int feof(FILE* f) noexcept {
  if (auto s = sim(f)) { usable(s, "feof"); return s->eof; }
  static auto r = real<int (*)(FILE*)>("feof");
  return r(f);
}
extern "C" int ferror(FILE* f) noexcept {
  if (auto s = sim(f)) { usable(s, "ferror"); return s->failAfter == 0; }
  static auto r = real<int (*)(FILE*)>("ferror");
  return r(f);
}
extern "C" void clearerr(FILE* f) noexcept {
  if (sim(f)) return;
  static auto r = real<void (*)(FILE*)>("clearerr");
  r(f);
}

namespace {

// ---- compositions
struct Node {
  int id;
  std::shared_ptr<dap::Reader> r;  // if it reads
  std::shared_ptr<dap::Writer> w;  // if it writes
  std::shared_ptr<Base> base;
  bool isFile = false;
};
// makes non-owning handles, so that only the adapter's own ownership counts
template <typename T>
std::shared_ptr<T> weakly(T* t) { return std::shared_ptr<T>(t, [](T*) {}); }

struct World {
  std::vector<Node> nodes;
  std::vector<std::unique_ptr<SimFile>> sims;
  std::vector<std::shared_ptr<void>> keep;
  std::string d;

  int add(Node n, const std::string& desc) {
    n.id = int(nodes.size()) + 1;
    nodes.push_back(n);
    evs("{\"e\":\"node\",\"id\":" + num(n.id) + "," + desc + "}");
    return n.id;
  }
  int addBase() {
    auto b = std::make_shared<Base>();
    b->id = int(nodes.size()) + 1;
    b->behave = int(rnd(3));
    b->failWrites = rnd(3) == 0 ? 3 : 0;
    if (b->behave == 2) b->avail = int(rnd(6));
    else if (rnd(3) == 0) b->avail = int(rnd(10));
    Node n;
    n.base = b;
    n.r = weakly<dap::Reader>(b.get());
    n.w = weakly<dap::Writer>(b.get());
    return add(n, "\"k\":\"base\"");
  }
  int addFile() {
    std::unique_ptr<SimFile> s(new SimFile());
    s->id = int(nodes.size()) + 1;
    s->avail = int(rnd(8));
    s->blocks = rnd(3) == 0;
    if (rnd(3) == 0) s->failAfter = int(rnd(6));
    s->failFlush = rnd(6) == 0;
    FILE* f = (FILE*)s.get();
    files()[f] = s.get();
    sims.push_back(std::move(s));
    bool closable = rnd(3) != 0;
    auto rw = closable && rnd(2) ? dap::file(f) : dap::file(f, closable);
    Node n;
    n.isFile = true;
    n.r = rw;
    n.w = rw;
    return add(n, "\"k\":\"file\",\"closable\":" + num(closable));
  }
  int pick() { return int(rnd(nodes.size())); }
  static std::string prefix() {
    std::string p;
    for (size_t k = rnd(4); k > 0; k--) p += char('a' + rnd(4));
    return p;
  }
  int addAdapter() {
    Node n;
    for (int tries = 0; tries < 20; tries++) {
      Node& a = nodes[size_t(pick())];
      Node& b = nodes[size_t(pick())];
      switch (rnd(3)) {
        case 0:
          if (!a.r || !b.w) continue;
          { auto rw = dap::ReaderWriter::create(a.r, b.w); n.r = rw; n.w = rw; }
          return add(n, "\"k\":\"rw\",\"r\":" + num(a.id) + ",\"w\":" + num(b.id));
        case 1: {
          if (!a.r || !b.w) continue;
          bool def = rnd(4) == 0;
          std::string p = def ? "\n->" : prefix();
          n.r = def ? dap::spy(a.r, b.w) : dap::spy(a.r, b.w, p.c_str());
          return add(n, "\"k\":\"spyr\",\"r\":" + num(a.id) + ",\"log\":" + num(b.id) + ",\"pre\":" + arr(p));
        }
        default: {
          if (!a.w || !b.w) continue;
          bool def = rnd(4) == 0;
          std::string p = def ? "\n<-" : prefix();
          n.w = def ? dap::spy(a.w, b.w) : dap::spy(a.w, b.w, p.c_str());
          return add(n, "\"k\":\"spyw\",\"w\":" + num(a.id) + ",\"log\":" + num(b.id) + ",\"pre\":" + arr(p));
        }
      }
    }
    return 0;
  }
};

void call(const char* op, int h, const std::string& more = "") {
  evs("{\"e\":\"call\",\"op\":\"" + std::string(op) + "\",\"t\":" + num(vs::tid()) + ",\"h\":" + num(h) + more + "}");
}
void ret(const char* op, int h, const std::string& more = "") {
  evs("{\"e\":\"ret\",\"op\":\"" + std::string(op) + "\",\"t\":" + num(vs::tid()) + ",\"h\":" + num(h) + more + "}");
}

struct Op { int node; char op; size_t n; std::string d; };

void perform(World& w, const Op& o) {
  Node& n = w.nodes[size_t(o.node)];
  switch (o.op) {
    case 'R': {
      std::string b(o.n + 8, '\x7e');
      call("read", n.id, ",\"n\":" + num((long long)o.n));
      size_t k = n.r->read(&b[0], o.n);
      bool over = b.substr(std::min(std::max(k, size_t(0)), o.n)).find_first_not_of('\x7e') != std::string::npos;
      // bytes past the result may have been used as scratch; past the buffer never
      over = b.substr(o.n) != std::string(8, '\x7e');
      ret("read", n.id, ",\"d\":" + arr(b.substr(0, std::min(k, o.n))) + ",\"k\":" + num((long long)k) + ",\"over\":" + num(over));
      break;
    }
    case 'W': {
      call("write", n.id, ",\"d\":" + arr(o.d));
      bool ok = n.w->write(o.d.data(), o.d.size());
      ret("write", n.id, ",\"ok\":" + num(ok));
      break;
    }
    case 'F': {
      const std::string tail = o.d + (o.n % 2 ? "!" : "");
      std::string full = o.d + "=7%" + tail;
      call("write", n.id, ",\"d\":" + arr(full));
      bool ok = rnd(2) ? dap::writef(n.w, "%s=%d%%%s", o.d.c_str(), 7, tail.c_str())
                       : dap::writef(n.w, "%.*s%c%d%%%s", int(o.d.size()), o.d.c_str(), '=', 7, tail.c_str());
      ret("write", n.id, ",\"ok\":" + num(ok));
      break;
    }
    case 'O': {
      call("open", n.id);
      bool ok = n.r ? n.r->isOpen() : n.w->isOpen();
      ret("open", n.id, ",\"ok\":" + num(ok));
      break;
    }
    case 'C': {
      call("close", n.id);
      if (n.r) n.r->close(); else n.w->close();
      ret("close", n.id);
      break;
    }
  }
}

void treeBody(long, uint64_t) {
  files().clear();
  World w;
  int nb = 1 + int(rnd(3)), nf = int(rnd(3));
  if (rnd(4) == 0) { nf = 1; nb = int(rnd(2)); }
  for (int i = 0; i < nb; i++) w.addBase();
  for (int i = 0; i < nf; i++) w.addFile();
  int na = int(rnd(4));
  if (nf == 0) na++;
  for (int i = 0; i < na; i++) w.addAdapter();
  bool seq = rnd(3) != 0;
  int nt = seq ? 1 : 2 + int(rnd(2));
  std::vector<std::vector<Op>> prog;
  bool longDone = false;
  for (int t = 0; t < nt; t++) {
    std::vector<Op> ops;
    int cnt = seq ? 3 + int(rnd(8)) : 1 + int(rnd(3));
    for (int k = 0; k < cnt; k++) {
      Op o;
      // the outermost adapters most of the time
      size_t m = w.nodes.size();
      o.node = int(rnd(3) ? m - 1 - rnd(std::min<size_t>(m, size_t(na ? na : 1))) : rnd(m));
      Node& n = w.nodes[size_t(o.node)];
      o.op = "RRRWWWWFOOC"[rnd(11)];
      if (o.op == 'R' && !n.r) o.op = 'W';
      if ((o.op == 'W' || o.op == 'F') && !n.w) o.op = 'R';
      o.n = rnd(8) == 0 ? 0 : 1 + rnd(6);
      size_t len = rnd(8) == 0 ? 0 : 1 + rnd(5);
      if (o.op == 'F' && !longDone && rnd(12) == 0) { len = (rnd(6) ? 1018 : 2042) + rnd(12); longDone = true; }
      for (size_t i = 0; i < len; i++) o.d += o.op == 'F' ? char('A' + (i + len) % 26) : char(rnd(256));
      ops.push_back(o);
      w.d += std::string(1, o.op) + std::to_string(o.node + 1);
    }
    w.d += "|";
    prog.push_back(ops);
  }
  vs::prog("\"%s\"", w.d.c_str());
  {
    std::vector<std::thread> th;
    if (seq) {
      // one thread, but another one feeds what blocks
      th.emplace_back([&] { for (auto& o : prog[0]) perform(w, o); });
    } else {
      for (auto& p : prog) th.emplace_back([&w, &p] { for (auto& o : p) perform(w, o); });
    }
    vs::waitQuiescent();
    evs("{\"e\":\"quiet\"}");
    // feed and end everything
    for (int round = 0; round < 2; round++) {
      for (auto& n : w.nodes)
        if (n.base) {
          std::unique_lock<std::mutex> l(n.base->m);
          n.base->avail += 100;
          n.base->cv.notify_all();
        }
      for (auto& s : w.sims) {
        std::unique_lock<std::mutex> l(s->m);
        if (round == 0) s->avail += int(rnd(4)); else s->eof = true;
        s->cv.notify_all();
      }
      vs::waitQuiescent();
      evs("{\"e\":\"quiet\"}");
    }
    if (vs::unfinished()) { evs("{\"e\":\"Stuck\"}"); vs::abandon(); }
    for (auto& x : th) x.join();
  }
  // destruction, the outermost first
  for (size_t i = w.nodes.size(); i-- > 0;) {
    Node& n = w.nodes[i];
    if (n.base) continue;
    call("drop", n.id);
    n.r.reset();
    n.w.reset();
    ret("drop", n.id);
  }
  evs("{\"e\":\"end\"}");
  files().clear();
}

// ---- real files, sequentially
std::string dir;
std::string slurp(const std::string& p) {
  std::string s;
  if (FILE* f = fopen(p.c_str(), "rb")) {
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
  }
  return s;
}
void realBody(long run, uint64_t) {
  // only inside a scratch directory of our own
  char tmpl[] = "/tmp/vio.XXXXXX";
  if (!mkdtemp(tmpl)) return;
  std::string p = std::string(tmpl) + "/f";
  if (rnd(2)) { if (FILE* f = fopen(p.c_str(), "wb")) { fputs("something that was there before", f); fclose(f); } }
  switch (rnd(3)) {
    case 0: {
      evs("{\"e\":\"realfile\"}");
      auto rw = dap::file(p.c_str());
      evs("{\"e\":\"opened\",\"ok\":" + num(bool(rw)) + ",\"want\":1}");
      if (rw) {
        for (size_t k = 1 + rnd(5); k > 0; k--) {
          std::string d;
          for (size_t n = rnd(20); n > 0; n--) d += char(rnd(256));
          bool ok = rw->write(d.data(), d.size());
          evs("{\"e\":\"rwrite\",\"d\":" + arr(d) + ",\"ok\":" + num(ok) + ",\"full\":0}");
          if (rnd(2)) evs("{\"e\":\"content\",\"d\":" + arr(slurp(p)) + "}");
        }
        if (rnd(2)) {
          rw->close();
          bool ok = rw->write("x", 1);
          evs("{\"e\":\"afterclose\",\"ok\":" + num(ok) + ",\"open\":" + num(rw->isOpen()) + "}");
        }
        rw.reset();
        evs("{\"e\":\"content\",\"d\":" + arr(slurp(p)) + "}");
      }
      std::string q = std::string(tmpl) + "/no/such/dir";
      auto none = dap::file(q.c_str());
      evs("{\"e\":\"opened\",\"ok\":" + num(bool(none)) + ",\"want\":0}");
      break;
    }
    case 1: {
      evs("{\"e\":\"realfile\"}");
      auto rw = dap::file(fopen("/dev/full", "wb"));
      std::string d(1 + rnd(rnd(2) ? 10 : 9000), 'x');
      bool ok = rw->write(d.data(), d.size());
      evs("{\"e\":\"rwrite\",\"d\":[1],\"ok\":" + num(ok) + ",\"full\":1}");
      break;
    }
    default: {
      // a pipe read through one stream while written through another
      evs("{\"e\":\"realfile\"}");
      int fd[2];
      if (pipe(fd)) break;
      auto in = dap::file(fdopen(fd[0], "rb"));
      auto out = dap::file(fdopen(fd[1], "wb"));
      for (size_t k = 1 + rnd(4); k > 0; k--) {
        std::string d;
        for (size_t n = 1 + rnd(20); n > 0; n--) d += char(rnd(256));
        bool ok = out->write(d.data(), d.size());
        evs("{\"e\":\"rwrite\",\"d\":" + arr(d) + ",\"ok\":" + num(ok) + ",\"full\":0}");
        std::string b(d.size(), 0);
        size_t got = 0;
        while (got < d.size()) {
          size_t n = in->read(&b[got], d.size() - got);
          if (n == 0) break;
          got += n;
        }
        evs("{\"e\":\"rread\",\"d\":" + arr(b.substr(0, got)) + "}");
      }
      out->close();
      char c;
      evs("{\"e\":\"rend\",\"k\":" + num((long long)in->read(&c, 1)) + "}");
    }
  }
  unlink(p.c_str());
  rmdir(tmpl);
  vs::prog("\"real %ld\"", run);
}

}  // namespace

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "tree";
  return hargs::runBatch(argc, argv, what == "real" ? vs::Body(realBody) : vs::Body(treeBody));
}
