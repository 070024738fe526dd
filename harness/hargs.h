#pragma once
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <sys/personality.h>
#include <unistd.h>

namespace hargs {
inline std::string opt(int argc, char** argv, const char* name, const char* def) {
  for (int i = 2; i + 1 < argc; i++)
    if (std::string(argv[i]) == std::string("--") + name) return argv[i + 1];
  return def;
}
// Address-space randomisation is switched off so that a batch is repeatable.
inline void noAslr(char** argv) {
  int p = personality(0xffffffff);
  if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && !getenv("VS_NOASLR")) {
    if (personality(p | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("VS_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
}
inline int runBatch(int argc, char** argv, const vs::Body& body, bool fresh = false) {
  noAslr(argv);
  vs::BatchCfg c;
  c.fresh = fresh;
  c.out = opt(argc, argv, "out", "/dev/null");
  c.seed = strtoull(opt(argc, argv, "seed", "1").c_str(), nullptr, 10);
  c.runs = atol(opt(argc, argv, "runs", "100").c_str());
  c.first = atol(opt(argc, argv, "first", "0").c_str());
  c.stride = atol(opt(argc, argv, "stride", "1").c_str());
  c.mode = atoi(opt(argc, argv, "mode", "-1").c_str());
  c.seconds = atof(opt(argc, argv, "seconds", "0").c_str());
  c.preemptionBound = atoi(opt(argc, argv, "bound", "2").c_str());
  c.maxSteps = atol(opt(argc, argv, "maxsteps", "200000").c_str());
  c.only = atol(opt(argc, argv, "only", "-1").c_str());
  auto s = vs::batch(c, body);
  printf("{\"runs\":%ld,\"distinct\":%ld,\"crashes\":%ld,\"deadlocks\":%ld,\"livelocks\":%ld,"
         "\"abandoned\":%ld,\"steps\":%ld,\"exhausted\":%s}\n",
         s.runs, s.distinct, s.crashes, s.deadlocks, s.livelocks, s.abandoned, s.steps,
         s.exhausted ? "true" : "false");
  return 0;
}
}  // namespace hargs
