// scenario.h: how a scenario presents itself to the explorer.
#ifndef SCENARIO_H_
#define SCENARIO_H_
#include "simrt.h"

enum { kOpArgs = 24, kMaxOps = 256 };
struct Op { i64 a[kOpArgs]; };
struct Workload {
  int prop;            // property number (1..99) the run is for
  int thorough;
  int nops;
  Op op[kMaxOps];
  Op& add() {
    Op& o = op[nops < kMaxOps ? nops++ : kMaxOps - 1];
    for (int i = 0; i < kOpArgs; i++) o.a[i] = 0;
    return o;
  }
};

struct Scenario {
  const char* name;
  // Draws a workload and adjusts the (already drawn) simulator configuration.
  void (*gen)(Rng& r, Workload* w, SimCfg* cfg);
  // Runs the workload as simulated thread 0.  Must tolerate any argument values
  // (the minimiser drops operations and shrinks arguments).
  void (*exec)(const Workload* w);
  const char* const* probes;  // names of the probe counters, null-terminated
  // Optional: which argument indices the minimiser may shrink (0 = all).
};
extern const Scenario* const g_scenarios[];  // null-terminated, per binary
#endif
