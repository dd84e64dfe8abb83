// Controlled scheduler for the real code: one thread runs at a time, every synchronisation operation is a choice point,
// all schedules up to a preemption bound are executed (each in a forked child), data races are detected by vector clocks.
#ifndef MC_H
#define MC_H
#include "vkit.h"
namespace mc {
struct Options {
  int      preemptions = 2;      // bound on deviations (preemptions, out-of-order wake-ups, early time-outs)
  bool     reuse       = false;  // memory is handed out again immediately (address reuse) instead of never (use after free)
  uint64_t max_steps   = 20000;  // scheduling steps of one execution before it counts as a livelock
  uint64_t max_time_s  = 30;     // virtual time (sleeps, time-outs) of one execution before it counts as a livelock
  uint64_t max_exec    = 0;      // cap on executions below one first-level branch (0: none)
  bool     races       = true;
  bool     leftover_ok = false;  // threads may still run when the body ends
};
// Explores all the schedules of body; every first-level branch is one case of the suite.
void explore(vk::Run& r, const std::string& key, const std::string& desc, const Options& o, const std::function<void()>& body);

// Usable inside a body.
void fail(const std::string& what, const std::string& msg);  // what: short, stable
inline void require(bool ok, const char* what, const std::string& msg) { if (!ok) fail(what, msg); }
void observe(uint64_t v);
int  choose(int n, int cost = 0);   // environment choice: 0 first; the others cost that many deviations
void point();                       // explicit scheduling point
bool active();
void untracked_begin();             // harness bookkeeping that the race detector must not look at
void untracked_end();
struct Untracked { Untracked() { untracked_begin(); } ~Untracked() { untracked_end(); } };
}
#endif
