// vsched: a controlled scheduler for multi-threaded C++ programs.
//
// While vs::run() is active, every thread created through pthread_create is
// "managed": exactly one managed thread runs at any time, and at every
// synchronisation operation (mutex, condition variable, rwlock, semaphore,
// once, thread create/join, sleep, yield), every atomic access and (sampled)
// every conflicting plain access of instrumented code, the scheduler decides
// which thread runs next. Time is virtual. Spurious wake-ups and timeouts are
// scheduling choices.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace vs {

enum Strategy { kRandom = 0, kPct = 1, kDfs = 2 };

struct RunCfg {
  uint64_t seed = 1;
  int strategy = kRandom;
  int pctDepth = 3;
  int preemptionBound = 2;
  long maxSteps = 200000;
  bool spurious = false;      // inject spurious condition variable wake-ups
  bool plainPoints = true;    // conflicting plain accesses are points
};

struct BatchCfg {
  std::string out;            // file receiving distinct traces (ndjson)
  uint64_t seed = 1;
  long runs = 100;            // number of runs
  long first = 0;             // first run index
  long stride = 1;
  int mode = -1;              // -1: mix of strategies; else Strategy
  double seconds = 0;         // stop after that many seconds (0: no limit)
  int preemptionBound = 2;
  long maxSteps = 200000;
  long only = -1;             // run just this index
  bool fresh = false;         // every run in a process of its own
};

// Result of a batch, counted by the supervisor.
struct BatchStats {
  long runs = 0, distinct = 0, crashes = 0, deadlocks = 0, livelocks = 0,
       abandoned = 0, steps = 0;
  bool exhausted = false;     // DFS finished
};

// body(run index, rng seed) is executed under the scheduler for each run.
// It logs events with vs::ev() and returns the "program" description JSON.
using Body = std::function<void(long run, uint64_t seed)>;
BatchStats batch(const BatchCfg& cfg, const Body& body);

// --- inside a run ---
void ev(const char* fmt, ...);       // append one event (a JSON object) to the trace
void prog(const char* fmt, ...);     // set the program description (a JSON value)
int tid();                           // logical thread id (main = 0)
void point();                        // explicit scheduling point
void waitQuiescent();                // wait until no other thread can run
int unfinished();                    // number of other managed threads not finished
[[noreturn]] void abandon();         // end the run with threads still blocked
uint64_t rnd(uint64_t n);            // scheduler-independent program randomness
bool active();
int64_t nowNs();                     // virtual clock
int64_t waitedNs();                  // time this thread spent in waits that timed out

}  // namespace vs
