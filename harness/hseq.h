// Running many independent cases in a supervised child process: a crash or a
// hang in one case is recorded for that case and the rest go on.
//   <exe> <what> --out F --seed N --first I --stride S --runs N [--only I]
// Every case yields one line: a JSON object with "ev": [events].
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <functional>
#include <string>

extern "C" const char* __attribute__((weak)) __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0";
}

namespace hseq {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }
};

inline std::string opt(int argc, char** argv, const char* name, const char* def) {
  for (int i = 2; i + 1 < argc; i++)
    if (std::string(argv[i]) == std::string("--") + name) return argv[i + 1];
  return def;
}

inline std::string fmt(const char* f, ...) {
  char b[4096];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (n < int(sizeof b)) return b;
  std::string s(size_t(n) + 1, 0);
  va_start(a, f);
  vsnprintf(&s[0], s.size(), f, a);
  va_end(a);
  s.resize(size_t(n));
  return s;
}

struct Shared {
  volatile long cur;       // index of the case being run
  volatile long done;      // cases finished
  volatile unsigned len;   // events recorded so far in the current case
  char buf[1 << 20];
};
inline Shared*& shared() { static Shared* s; return s; }
inline bool& first() { static bool f = true; return f; }

// Records one event (a JSON object) of the current case.
inline void ev(const std::string& e) {
  Shared* s = shared();
  if (s->len + e.size() + 2 > sizeof s->buf) return;
  if (s->len) s->buf[s->len++] = ',';
  memcpy(s->buf + s->len, e.data(), e.size());
  s->len += unsigned(e.size());
}
inline std::string& prog() { static std::string p; return p; }

using Case = std::function<void(long index, uint64_t seed)>;

inline int run(int argc, char** argv, const Case& fn, double hangSeconds = 20) {
  std::string out = opt(argc, argv, "out", "/dev/null");
  uint64_t seed = strtoull(opt(argc, argv, "seed", "1").c_str(), nullptr, 10);
  long runs = atol(opt(argc, argv, "runs", "100").c_str());
  long start = atol(opt(argc, argv, "first", "0").c_str());
  long stride = atol(opt(argc, argv, "stride", "1").c_str());
  long only = atol(opt(argc, argv, "only", "-1").c_str());
  Shared* s = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  shared() = s;
  FILE* f = fopen(out.c_str(), "w");
  if (!f) { perror(out.c_str()); return 2; }
  fclose(f);
  long k = 0, crashes = 0, hangs = 0;
  // a batch ends early when its time is over (cases that hang or wait in vain)
  double seconds = atof(opt(argc, argv, "seconds", "0").c_str());
  timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  auto late = [&] {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return seconds > 0 && double(t.tv_sec - t0.tv_sec) > seconds;
  };
  if (only >= 0) { start = only; runs = 1; stride = 1; }
  auto flush = [&](FILE* fh, long idx, const char* extra) {
    fprintf(fh, "{\"run\":%ld,\"prog\":0,\"ev\":[%.*s%s%s]}\n", idx, int(s->len), s->buf, s->len && *extra ? "," : "", extra);
  };
  while (k < runs) {
    fflush(stdout);
    s->done = k;
    pid_t pid = fork();
    if (pid == 0) {
      FILE* fh = fopen(out.c_str(), "a");
      if (!getenv("HSEQ_VERBOSE")) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2);
      }
      for (long j = k; j < runs && !late(); j++) {
        long idx = start + j * stride;
        s->cur = idx;
        s->len = 0;
        fn(idx, seed * 1000003ull + uint64_t(idx) * 7919ull + 17);
        flush(fh, idx, "");
        fflush(fh);
        s->done = j + 1;
      }
      fclose(fh);
      _exit(0);
    }
    long last = -1;
    double waited = 0;
    int st = 0;
    bool hung = false;
    while (true) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      timespec ts = {0, 5000000};
      nanosleep(&ts, nullptr);
      if (s->done != last) { last = s->done; waited = 0; } else waited += 0.005;
      if (waited > hangSeconds) { hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    }
    if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { k = s->done; break; }
    FILE* fh = fopen(out.c_str(), "a");
    if (hung) { hangs++; flush(fh, s->cur, "{\"e\":\"Hang\"}"); }
    else { crashes++; flush(fh, s->cur, fmt("{\"e\":\"Crash\",\"sig\":%d,\"code\":%d}", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0).c_str()); }
    fclose(fh);
    k = s->done + 1;
    if (crashes + hangs * 50 > 200 || late()) break;
  }
  printf("{\"runs\":%ld,\"crashes\":%ld,\"hangs\":%ld}\n", k, crashes, hangs);
  return 0;
}

}  // namespace hseq
