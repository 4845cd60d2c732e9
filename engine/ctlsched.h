// Controlled scheduler: the harness owns the thread schedule.
//
// Inside sched::run() every pthread primitive (create, join, mutex, condition
// variable, once-guards, sleeps) of the process is replaced by a model in which
// exactly one thread runs at a time and the next one is chosen by draws from
// the case's tape. Code compiled with -fsanitize=thread but linked against the
// __tsan_* stubs in sched.cc additionally yields at every memory access and
// atomic operation. A schedule is therefore an ordinary generated, replayable
// and shrinkable input; a state in which no thread can run is a deadlock or a
// lost wakeup.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_

#include <functional>
#include <string>

#include "pbt.h"

namespace sched {

struct Config {
  bool spurious = true;      // allow spurious condition variable wakeups
  int max_gap = 400;         // longest forced-preemption gap, in yield points
  uint64_t max_steps = 3000000;
};

// Runs body as thread 0 under the controlled scheduler. Returns when the body
// returned and every thread it started has finished. Aborts the process with a
// message starting "DEADLOCK:" / "LIVELOCK:" if that is impossible.
void run(pbt::Source& s, const std::function<void()>& body, Config c = Config());

bool active();
// Explicit yield point for harness code.
void yield();
// Number of yield points passed in this run (a logical clock).
uint64_t steps();
uint64_t switches();
// True if every other live thread is blocked (used to decide quiescence).
bool othersBlocked();
// Runs other threads until they are all blocked or finished.
void settle();
// Names the current thread in deadlock reports.
void nameThread(const std::string& n);
// What the current thread is about to do, for deadlock reports.
void note(const std::string& n);
// Unique, increasing stamp (atomic with respect to the schedule).
uint64_t stamp();
// No yields while alive: for the harness's own bookkeeping.
struct NoYield {
  NoYield();
  ~NoYield();
};
// Virtual clock (nanoseconds), advanced by sleeps and timeouts.
int64_t now();

}  // namespace sched

#endif
