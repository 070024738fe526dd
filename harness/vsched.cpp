#include "vsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <vector>
#include <unordered_set>

namespace vs {
namespace {

// ---------------------------------------------------------------- real calls
template <typename F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(fn) (([]() { static auto f = real<decltype(&fn)>(#fn); return f; })())

// ------------------------------------------------------------------- threads
enum St { kRun, kMutex, kCond, kJoin, kSleep, kQuiesce, kSem, kRwR, kRwW, kGuard, kDone };

struct Thr {
  int id = 0;
  St st = kRun;
  void* obj = nullptr;       // what it is blocked on
  void* mtx = nullptr;       // mutex to re-acquire after a condition wait
  int64_t deadline = -1;     // timed wait
  int64_t since = 0;         // when that wait began
  int64_t waited = 0;        // sum of the waits that timed out
  bool timedOut = false;
  int joinOn = -1;
  int prio = 0;
  int futex = 0;
  pthread_t real{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  long waitSeq = 0;          // order of arrival on a condition variable
};

constexpr int kMaxThr = 64;
Thr thr[kMaxThr];
int nthr = 0;
int cur = -1;
volatile bool on = false;
thread_local int self = -1;

RunCfg cfg;
uint64_t srng = 1, prng = 1;
long steps = 0;
int64_t vclock = 0;
long condSeq = 0;
int idleTimeouts = 0;
std::vector<long>* pctPoints = nullptr;
size_t pctIdx = 0;
int pctLow = 0;
double switchP = 1;
int preemptions = 0;

// --------------------------------------------------- shared with supervisor
struct Shared {
  volatile long run;
  volatile long runsDone;
  volatile long distinct;
  volatile long steps;
  volatile int inRun;
  volatile long dfsDone;
  // DFS decision stack
  volatile long dn;          // decisions recorded in the current/last run
  volatile long dpos;
  struct { unsigned char choice, n; } dec[1 << 16];
  // trace buffer
  volatile long progLen, evLen, evCount;
  char prog[1 << 14];
  char ev[1 << 21];
};
Shared* sh = nullptr;

uint64_t next(uint64_t& s) {
  s += 0x9E3779B97F4A7C15ull;
  uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

int leaving = 0;
void fwait(int* w) {
  const int err = errno;
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) {
    syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
  // a thread that has finished is gone before another goes on: what it frees
  // on its way out then always comes before what the other allocates
  if (leaving) {
    for (long k = 0; k < 200000 && syscall(SYS_tgkill, getpid(), leaving, 0) == 0; k++) syscall(SYS_sched_yield);
    leaving = 0;
  }
  errno = err;
}
void fwake(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

[[noreturn]] void finishChild(int code) { _exit(code); }

// Mutex state lives in the pthread_mutex_t itself, so that memory re-use is
// harmless: __lock is 0/1, __owner the managed thread + 1, __count recursion.
bool mtxFree(void* m, int t) {
  auto* p = static_cast<pthread_mutex_t*>(m);
  if (p->__data.__lock == 0) return true;
  return p->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP && p->__data.__owner == t + 1;
}
void mtxTake(void* m, int t) {
  auto* p = static_cast<pthread_mutex_t*>(m);
  if (p->__data.__lock) { p->__data.__count++; return; }
  p->__data.__lock = 1;
  p->__data.__owner = t + 1;
  p->__data.__count = 0;
}
void mtxRelease(void* m) {
  auto* p = static_cast<pthread_mutex_t*>(m);
  if (p->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP && p->__data.__count > 0) {
    p->__data.__count--;
    return;
  }
  p->__data.__lock = 0;
  p->__data.__owner = 0;
}
// rwlock: readers in __readers, writer flag in __writers
bool rwFree(void* m, bool w) {
  auto* p = static_cast<pthread_rwlock_t*>(m);
  if (w) return p->__data.__readers == 0 && p->__data.__writers == 0;
  return p->__data.__writers == 0;
}

bool enabled(const Thr& t) {
  switch (t.st) {
    case kRun: return true;
    case kMutex: return mtxFree(t.obj, t.id);
    case kCond: return false;
    case kJoin: return thr[t.joinOn].st == kDone;
    case kSleep: return false;
    case kQuiesce: return false;
    case kSem: return *static_cast<int*>(t.obj) > 0;
    case kRwR: return rwFree(t.obj, false);
    case kRwW: return rwFree(t.obj, true);
    case kGuard: return (*static_cast<uint64_t*>(t.obj) & 0x100) == 0;
    case kDone: return false;
  }
  return false;
}
bool timed(const Thr& t) {
  return (t.st == kCond || t.st == kSleep || t.st == kSem) && t.deadline >= 0;
}

void describeBlocked(char* out, size_t n) {
  size_t k = 0;
  out[0] = 0;
  for (int i = 0; i < nthr; i++) {
    if (thr[i].st == kDone) continue;
    static const char* names[] = {"run", "mutex", "cond", "join", "sleep", "quiesce",
                                  "sem", "rwr", "rww", "guard", "done"};
    k += snprintf(out + k, n - k, "%s\"%d:%s\"", k ? "," : "", i, names[thr[i].st]);
    if (k >= n) break;
  }
}

int dfsChoose(int n) {
  if (n <= 1) return 0;
  long p = sh->dpos;
  int c;
  if (p < sh->dn) {
    c = sh->dec[p].choice;
    if (sh->dec[p].n != n) {  // divergence: treat the remaining prefix as void
      sh->dn = p;
      if (c >= n) c = n - 1;
      sh->dec[p].n = n;
      sh->dec[p].choice = c;
      sh->dn = p + 1;
    }
  } else {
    if (p >= (1 << 16)) return 0;
    c = 0;
    sh->dec[p].choice = 0;
    sh->dec[p].n = n;
    sh->dn = p + 1;
  }
  sh->dpos = p + 1;
  return c;
}

// Picks the thread to run next. Returns its id. `me` is the caller (or -1).
int pick(int me, bool voluntary) {
  int cand[kMaxThr], n = 0;
  bool meOk = false;
  for (int i = 0; i < nthr; i++) {
    if (enabled(thr[i])) {
      if (i == me) meOk = true; else cand[n++] = i;
    }
  }
  int tcand[kMaxThr], tn = 0;
  for (int i = 0; i < nthr; i++)
    if (thr[i].st != kDone && timed(thr[i]) && !enabled(thr[i])) tcand[tn++] = i;
  int scand[kMaxThr], sn = 0;
  if (cfg.spurious)
    for (int i = 0; i < nthr; i++)
      if (thr[i].st == kCond) scand[sn++] = i;

  auto fireTimeout = [&](int i) {
    Thr& t = thr[i];
    if (t.deadline > t.since) t.waited += t.deadline - t.since;
    if (t.deadline > vclock) vclock = t.deadline;
    t.timedOut = true;
    t.deadline = -1;
    if (t.st == kCond) { t.st = kMutex; t.obj = t.mtx; }
    else t.st = kRun;
    return i;
  };

  if (!meOk && n == 0) {
    // Nothing can run except by a timeout.
    int q = -1;
    for (int i = 0; i < nthr; i++) if (thr[i].st == kQuiesce) q = i;
    if (tn > 0 && (q < 0 || idleTimeouts < 64)) {
      idleTimeouts++;
      int best = tcand[0];
      for (int i = 1; i < tn; i++)
        if (thr[tcand[i]].deadline < thr[best].deadline) best = tcand[i];
      if (q >= 0 || idleTimeouts < 100000) {
        int i = fireTimeout(best);
        if (enabled(thr[i])) return i;
        return pick(me, voluntary);
      }
    }
    if (q >= 0) {
      thr[q].st = kRun;
      return q;
    }
    char b[512];
    describeBlocked(b, sizeof b);
    ev("{\"e\":\"Deadlock\",\"blocked\":[%s]}", b);
    finishChild(43);
  }

  bool fair = steps > cfg.maxSteps / 2;
  if (steps > cfg.maxSteps) {
    ev("{\"e\":\"Livelock\"}");
    finishChild(44);
  }

  if (cfg.strategy == kDfs && !fair) {
    // choice 0 = default (stay if possible, otherwise lowest), others cost a
    // preemption when the caller could have continued.
    if (meOk) {
      if (preemptions >= cfg.preemptionBound || (n == 0 && tn == 0)) return me;
      int c = dfsChoose(1 + n + tn);
      if (c == 0) return me;
      preemptions++;
      if (c <= n) return cand[c - 1];
      int i = fireTimeout(tcand[c - 1 - n]);
      return enabled(thr[i]) ? i : me;
    }
    int extra = preemptions < cfg.preemptionBound ? tn : 0;
    int c = dfsChoose(n + extra);
    if (c < n) return cand[c];
    preemptions++;
    int i = fireTimeout(tcand[c - n]);
    return enabled(thr[i]) ? i : cand[0];
  }

  // rare: timeouts and spurious wake-ups
  if (tn > 0 && next(srng) % 16 == 0) {
    int i = fireTimeout(tcand[next(srng) % tn]);
    if (enabled(thr[i])) return i;
  }
  if (sn > 0 && next(srng) % 24 == 0) {
    Thr& t = thr[scand[next(srng) % sn]];
    t.st = kMutex;
    t.obj = t.mtx;
    t.deadline = -1;
  }

  if (cfg.strategy == kPct && !fair) {
    if (pctIdx < pctPoints->size() && steps >= (*pctPoints)[pctIdx]) {
      pctIdx++;
      if (me >= 0) thr[me].prio = --pctLow;
    }
    if (voluntary && me >= 0) thr[me].prio = --pctLow;
    int best = meOk ? me : cand[0];
    for (int i = 0; i < n; i++)
      if (thr[cand[i]].prio > thr[best].prio) best = cand[i];
    return best;
  }

  if (meOk && n == 0) return me;
  if (meOk && !voluntary && !fair) {
    double r = double(next(srng) >> 11) / double(1ull << 53);
    if (r >= switchP) return me;
  }
  if (meOk && !voluntary) cand[n++] = me;
  return cand[next(srng) % n];
}

void acquireFor(Thr& t) {
  // Called by the scheduled thread itself, after it has been picked.
  switch (t.st) {
    case kMutex: mtxTake(t.obj, t.id); break;
    case kSem: --*static_cast<int*>(t.obj); break;
    case kRwR: static_cast<pthread_rwlock_t*>(t.obj)->__data.__readers++; break;
    case kRwW: static_cast<pthread_rwlock_t*>(t.obj)->__data.__writers = 1; break;
    default: break;
  }
  t.st = kRun;
  t.obj = nullptr;
}

void switchTo(int nxt) {
  int me = self;
  if (nxt == me) return;
  cur = nxt;
  int* w = &thr[me].futex;
  fwake(&thr[nxt].futex);
  fwait(w);
}

// A scheduling point; the caller's Thr state says what it waits for.
void schedule(bool voluntary = false) {
  Thr& t = thr[self];
  steps++;
  if (t.st == kRun) {}
  int nxt = pick(self, voluntary);
  if (thr[nxt].st != kRun || nxt != self) idleTimeouts = idleTimeouts;
  switchTo(nxt);
  if (t.st != kSleep) acquireFor(t); else t.st = kRun;
}

void progress() { idleTimeouts = 0; }

bool managed() { return on && self >= 0; }

void* trampoline(void* p) {
  Thr* t = static_cast<Thr*>(p);
  self = t->id;
  fwait(&t->futex);
  acquireFor(*t);
  t->ret = t->fn(t->arg);
  t->st = kDone;
  steps++;
  int nxt = pick(-1, false);
  cur = nxt;
  self = -1;
  leaving = int(syscall(SYS_gettid));
  fwake(&thr[nxt].futex);
  return t->ret;
}

}  // namespace

bool active() { return on; }
int64_t nowNs() { return vclock; }
int64_t waitedNs() { return self >= 0 ? thr[self].waited : 0; }
int tid() { return self; }
uint64_t rnd(uint64_t n) { return n ? next(prng) % n : 0; }
void point() { if (managed()) schedule(); }

void ev(const char* fmt, ...) {
  if (!sh) return;
  progress();
  long k = sh->evLen;
  if (k > long(sizeof(sh->ev)) - 70000) return;
  if (k) sh->ev[k++] = ',';
  va_list a;
  va_start(a, fmt);
  k += vsnprintf(sh->ev + k, 65536, fmt, a);
  va_end(a);
  sh->ev[k] = 0;
  sh->evLen = k;
  sh->evCount = sh->evCount + 1;
}
void prog(const char* fmt, ...) {
  va_list a;
  va_start(a, fmt);
  sh->progLen = vsnprintf(sh->prog, sizeof(sh->prog), fmt, a);
  va_end(a);
}

void waitQuiescent() {
  if (!managed()) return;
  thr[self].st = kQuiesce;
  idleTimeouts = 0;
  schedule();
}
int unfinished() {
  int n = 0;
  for (int i = 0; i < nthr; i++)
    if (i != self && thr[i].st != kDone) n++;
  return n;
}

namespace {
uint64_t fnv(const char* p, long n, uint64_t h = 1469598103934665603ull) {
  for (long i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
  return h;
}
uint64_t* seen = nullptr;  // shared open-addressing hash set
constexpr long kSeen = 1 << 20;
bool insertSeen(uint64_t h) {
  if (h == 0) h = 1;
  for (long i = h % kSeen, k = 0; k < kSeen; k++, i = (i + 1) % kSeen) {
    if (seen[i] == h) return false;
    if (seen[i] == 0) { seen[i] = h; return true; }
  }
  return false;
}
int outFd = -1;

void emitTrace() {
  uint64_t h = fnv(sh->ev, sh->evLen, fnv(sh->prog, sh->progLen));
  if (!insertSeen(h)) return;
  sh->distinct = sh->distinct + 1;
  char head[64];
  std::string line;
  snprintf(head, sizeof head, "{\"run\":%ld,\"prog\":", sh->run);
  line += head;
  line += sh->progLen ? std::string(sh->prog, sh->progLen) : "0";
  line += ",\"ev\":[";
  line.append(sh->ev, sh->evLen);
  line += "]}\n";
  size_t off = 0;
  while (off < line.size()) {
    ssize_t w = ::write(outFd, line.data() + off, line.size() - off);
    if (w <= 0) break;
    off += w;
  }
}
}  // namespace

void abandon() {
  emitTrace();
  sh->runsDone = sh->runsDone + 1;
  finishChild(42);
}

static void runOne(long run, const BatchCfg& b, const Body& body) {
  uint64_t base = b.seed * 1000003ull + uint64_t(run) * 7919ull;
  RunCfg c;
  uint64_t s = base ^ 0xabcdef;
  for (int i = 0; i < 3; i++) next(s);
  c.seed = next(s);
  c.maxSteps = b.maxSteps;
  c.preemptionBound = b.preemptionBound;
  if (b.mode >= 0) c.strategy = b.mode; else c.strategy = next(s) % 3 == 0 ? kPct : kRandom;
  c.pctDepth = 1 + next(s) % 5;
  c.spurious = c.strategy != kDfs && next(s) % 4 == 0;
  c.plainPoints = c.strategy != kDfs && !getenv("VS_NOPLAIN");
  static const double ps[] = {1.0, 0.5, 0.25, 0.1, 0.03};
  double p = ps[next(s) % 5];
  long est = 50 << (next(s) % 6);

  cfg = c;
  srng = c.seed;
  prng = b.mode == kDfs ? b.seed * 77777 : base * 31 + 17;
  steps = 0;
  vclock = 1000000000000ll;
  condSeq = 0;
  idleTimeouts = 0;
  pctIdx = 0;
  pctLow = 0;
  switchP = p;
  preemptions = 0;
  static std::vector<long> pts;
  pts.clear();
  for (int i = 0; i < c.pctDepth; i++) pts.push_back(next(s) % est);
  for (size_t i = 0; i < pts.size(); i++)
    for (size_t j = i + 1; j < pts.size(); j++)
      if (pts[j] < pts[i]) std::swap(pts[i], pts[j]);
  pctPoints = &pts;
  for (int i = 0; i < kMaxThr; i++) thr[i] = Thr();
  nthr = 1;
  thr[0].id = 0;
  thr[0].prio = int(next(srng) % 1000) + 1;
  cur = 0;
  self = 0;
  sh->run = run;
  sh->evLen = sh->evCount = sh->progLen = 0;
  sh->dpos = 0;
  sh->inRun = 1;
  on = true;
  body(run, base);
  // all managed threads must be finished
  if (unfinished()) {
    ev("{\"e\":\"Leftover\",\"n\":%d}", unfinished());
    on = false;
    emitTrace();
    sh->runsDone = sh->runsDone + 1;
    finishChild(42);
  }
  on = false;
  self = -1;
  sh->inRun = 0;
  sh->steps = sh->steps + steps;
  emitTrace();
  sh->runsDone = sh->runsDone + 1;
}

static bool dfsAdvance() {
  long n = sh->dpos < sh->dn ? sh->dpos : sh->dn;
  while (n > 0 && sh->dec[n - 1].choice + 1 >= sh->dec[n - 1].n) n--;
  if (n == 0) return false;
  sh->dec[n - 1].choice = sh->dec[n - 1].choice + 1;
  sh->dn = n;
  return true;
}

BatchStats batch(const BatchCfg& b, const Body& body) {
  BatchStats st;
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  seen = static_cast<uint64_t*>(mmap(nullptr, kSeen * 8, PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  outFd = open(b.out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0644);
  if (outFd < 0) { perror("out"); exit(2); }
  timespec t0;
  REAL(clock_gettime)(CLOCK_MONOTONIC, &t0);
  auto elapsed = [&]() {
    timespec t;
    REAL(clock_gettime)(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec - t0.tv_sec) + 1e-9 * double(t.tv_nsec - t0.tv_nsec);
  };
  long idx = 0;
  bool dfs = b.mode == kDfs;
  long end = b.runs;
  if (b.only >= 0) end = 1;
  auto runIndex = [&](long i) { return b.only >= 0 ? b.only : b.first + i * b.stride; };
  while (idx < end) {
    if (b.seconds > 0 && elapsed() > b.seconds) break;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      for (long i = idx; i < end; i++) {
        if (b.seconds > 0 && (i & 7) == 0 && elapsed() > b.seconds) finishChild(10);
        if ((i - idx) >= (b.fresh ? 1 : 4000)) finishChild(11);  // bound leaks
        alarm(20);
        runOne(runIndex(i), b, body);
        if (dfs && !dfsAdvance()) { sh->dfsDone = 1; finishChild(0); }
      }
      finishChild(0);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    long done = sh->runsDone;
    int code = WIFEXITED(ws) ? WEXITSTATUS(ws) : -1;
    if (code == 0 || code == 10) {
      st.runs = done;
      if (sh->dfsDone) st.exhausted = true;
      break;
    }
    if (code == 11) { idx = done; continue; }
    if (code == 42) st.abandoned++;
    else {
      if (code == 43) st.deadlocks++;
      else if (code == 44) st.livelocks++;
      else {
        st.crashes++;
        ev("{\"e\":\"Crash\",\"sig\":%d,\"code\":%d}", WIFSIGNALED(ws) ? WTERMSIG(ws) : 0, code);
      }
      emitTrace();
      sh->runsDone = sh->runsDone + 1;
    }
    done = sh->runsDone;
    idx = done;
    st.runs = done;
    if (dfs && !dfsAdvance()) { st.exhausted = true; break; }
    if (st.crashes + st.deadlocks + st.livelocks > 200) break;
  }
  st.runs = sh->runsDone;
  st.distinct = sh->distinct;
  st.steps = sh->steps;
  close(outFd);
  return st;
}

// ============================================================ interposition
extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!managed()) return REAL(pthread_create)(th, attr, fn, arg);
  if (nthr >= kMaxThr) return EAGAIN;
  Thr& t = thr[nthr];
  t = Thr();
  t.id = nthr++;
  t.fn = fn;
  t.arg = arg;
  t.prio = int(next(srng) % 1000) + 1;
  int rc = REAL(pthread_create)(&t.real, attr, trampoline, &t);
  if (rc) { nthr--; return rc; }
  *th = t.real;
  progress();
  schedule();
  return 0;
}

static int findThr(pthread_t th) {
  for (int i = nthr - 1; i > 0; i--)
    if (pthread_equal(thr[i].real, th)) return i;
  return -1;
}

int pthread_join(pthread_t th, void** ret) {
  if (managed()) {
    int i = findThr(th);
    if (i >= 0) {
      thr[self].st = kJoin;
      thr[self].joinOn = i;
      schedule();
      progress();
    }
  }
  return REAL(pthread_join)(th, ret);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_mutex_lock)(m);
  Thr& t = thr[self];
  t.st = kMutex;
  t.obj = m;
  schedule();
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_mutex_trylock)(m);
  schedule();
  if (!mtxFree(m, self)) return EBUSY;
  mtxTake(m, self);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) {
  return pthread_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_mutex_unlock)(m);
  mtxRelease(m);
  schedule();
  return 0;
}

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  Thr& t = thr[self];
  schedule();
  mtxRelease(m);
  t.st = kCond;
  t.obj = c;
  t.mtx = m;
  t.deadline = deadline;
  t.since = vclock;
  t.timedOut = false;
  t.waitSeq = ++condSeq;
  schedule();
  t.deadline = -1;
  bool to = t.timedOut;
  t.timedOut = false;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!managed()) return REAL(pthread_cond_wait)(c, m);
  return condWait(c, m, -1);
}
static int64_t ns(const timespec* t) { return int64_t(t->tv_sec) * 1000000000ll + t->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  if (!managed()) return REAL(pthread_cond_timedwait)(c, m, t);
  int64_t d = ns(t);
  if (d < 0) d = 0;
  return condWait(c, m, d);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* t) {
  if (!managed()) return REAL(pthread_cond_clockwait)(c, m, id, t);
  int64_t d = ns(t);
  if (d < 0) d = 0;
  return condWait(c, m, d);
}
static void wake(Thr& t) {
  t.st = kMutex;
  t.obj = t.mtx;
  t.deadline = -1;
  progress();
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!managed()) return REAL(pthread_cond_signal)(c);
  schedule();
  int w[kMaxThr], n = 0;
  for (int i = 0; i < nthr; i++)
    if (thr[i].st == kCond && thr[i].obj == c) w[n++] = i;
  if (n == 0) return 0;
  int k = cfg.strategy == kDfs ? dfsChoose(n) : int(next(srng) % n);
  wake(thr[w[k]]);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!managed()) return REAL(pthread_cond_broadcast)(c);
  schedule();
  for (int i = 0; i < nthr; i++)
    if (thr[i].st == kCond && thr[i].obj == c) wake(thr[i]);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!managed()) return REAL(pthread_cond_destroy)(c);
  return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!managed()) return REAL(pthread_rwlock_rdlock)(l);
  thr[self].st = kRwR; thr[self].obj = l; schedule(); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!managed()) return REAL(pthread_rwlock_wrlock)(l);
  thr[self].st = kRwW; thr[self].obj = l; schedule(); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!managed()) return REAL(pthread_rwlock_tryrdlock)(l);
  schedule();
  if (!rwFree(l, false)) return EBUSY;
  l->__data.__readers++;
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!managed()) return REAL(pthread_rwlock_trywrlock)(l);
  schedule();
  if (!rwFree(l, true)) return EBUSY;
  l->__data.__writers = 1;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!managed()) return REAL(pthread_rwlock_unlock)(l);
  if (l->__data.__writers) l->__data.__writers = 0;
  else if (l->__data.__readers) l->__data.__readers--;
  schedule();
  return 0;
}

// semaphores: the count is kept in the first int of sem_t while managed
int sem_init(sem_t* s, int sharedp, unsigned v) {
  if (!managed()) return REAL(sem_init)(s, sharedp, v);
  memset(s, 0, sizeof *s);
  *reinterpret_cast<int*>(s) = int(v);
  return 0;
}
int sem_post(sem_t* s) {
  if (!managed()) return REAL(sem_post)(s);
  schedule();
  ++*reinterpret_cast<int*>(s);
  return 0;
}
int sem_wait(sem_t* s) {
  if (!managed()) return REAL(sem_wait)(s);
  thr[self].st = kSem; thr[self].obj = s; schedule(); return 0;
}
int sem_trywait(sem_t* s) {
  if (!managed()) return REAL(sem_trywait)(s);
  schedule();
  if (*reinterpret_cast<int*>(s) <= 0) { errno = EAGAIN; return -1; }
  --*reinterpret_cast<int*>(s);
  return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!managed()) return REAL(pthread_once)(o, fn);
  schedule();
  while (*o == 1) schedule(true);
  if (*o == 2) return 0;
  *o = 1;
  fn();
  *o = 2;
  return 0;
}

int sched_yield() {
  if (!managed()) return REAL(sched_yield)();
  schedule(true);
  return 0;
}
static int sleepFor(int64_t d) {
  Thr& t = thr[self];
  t.st = kSleep;
  t.deadline = vclock + d;
  t.since = vclock;
  t.timedOut = false;
  schedule();
  t.deadline = -1;
  return 0;
}
int nanosleep(const timespec* t, timespec* rem) {
  if (!managed()) return REAL(nanosleep)(t, rem);
  return sleepFor(ns(t));
}
int clock_nanosleep(clockid_t id, int flags, const timespec* t, timespec* rem) {
  if (!managed()) return REAL(clock_nanosleep)(id, flags, t, rem);
  sleepFor(flags & TIMER_ABSTIME ? ns(t) - vclock : ns(t));
  return 0;
}
int usleep(useconds_t us) {
  if (!managed()) return REAL(usleep)(us);
  return sleepFor(int64_t(us) * 1000);
}
int clock_gettime(clockid_t id, timespec* t) noexcept {
  if (!managed()) return REAL(clock_gettime)(id, t);
  vclock += 1;
  t->tv_sec = vclock / 1000000000ll;
  t->tv_nsec = vclock % 1000000000ll;
  return 0;
}

// static-local guards (Itanium ABI): byte 0 = initialised, byte 1 = in progress
int __cxa_guard_acquire(uint64_t* g) {
  if (*reinterpret_cast<volatile char*>(g)) return 0;
  if (managed()) {
    while (*g & 0x100) { thr[self].st = kGuard; thr[self].obj = g; schedule(); }
    if (*reinterpret_cast<volatile char*>(g)) return 0;
  }
  *g |= 0x100;
  return 1;
}
void __cxa_guard_release(uint64_t* g) { *g = (*g & ~0xffffull) | 1; }
void __cxa_guard_abort(uint64_t* g) { *g &= ~0xffffull; }

// ------------------------------------------------- compiler instrumentation
namespace {
struct Shadow { uintptr_t a; long run; short t; bool w; };
constexpr size_t kShadow = 1 << 15;
Shadow shadow[kShadow];
thread_local int inStub = 0;
}
static inline void access(void* p, bool w) {
  if (!on || self < 0 || !cfg.plainPoints) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p) >> 3;
  Shadow& s = shadow[(a * 0x9E3779B97F4A7C15ull) >> 49];
  bool conflict = s.a == a && s.run == sh->run && s.t != self && (s.w || w);
  if (s.a != a || s.run != sh->run || s.t != self) {
    s.a = a; s.run = sh->run; s.t = short(self); s.w = w;
  } else if (w) s.w = true;
  if (conflict && (next(srng) & 3) == 0) schedule();
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                   \
  void __tsan_read##n(void* p) { access(p, false); }            \
  void __tsan_write##n(void* p) { access(p, true); }            \
  void __tsan_unaligned_read##n(void* p) { access(p, false); }  \
  void __tsan_unaligned_write##n(void* p) { access(p, true); }  \
  void __tsan_volatile_read##n(void* p) { access(p, false); }   \
  void __tsan_volatile_write##n(void* p) { access(p, true); }   \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, false); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, true); } \
  void __tsan_read_write##n(void* p) { access(p, true); }       \
  void __tsan_unaligned_read_write##n(void* p) { access(p, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, true); }
void __tsan_vptr_read(void** p) { access(p, false); }
void __tsan_read_range(void* p, unsigned long) { access(p, false); }
void __tsan_write_range(void* p, unsigned long) { access(p, true); }

static inline void atomicPoint() { if (on && self >= 0) schedule(); }
#define ATOMIC(bits, T)                                                                      \
  T __tsan_atomic##bits##_load(const volatile T* a, int) {                                   \
    atomicPoint(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }                            \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) {                                \
    atomicPoint(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }                               \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) {                                \
    atomicPoint(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }                     \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) {                               \
    atomicPoint(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }                      \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) {                               \
    atomicPoint(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }                      \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) {                               \
    atomicPoint(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }                      \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) {                                \
    atomicPoint(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }                       \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) {                               \
    atomicPoint(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }                      \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) {                              \
    atomicPoint(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }                     \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) {    \
    atomicPoint();                                                                           \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }\
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) {      \
    atomicPoint();                                                                           \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }\
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) {          \
    atomicPoint();                                                                           \
    __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
    return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"
}  // namespace vs
