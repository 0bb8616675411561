// Runs threads one at a time and decides who runs next; see sched_rt.cc.
#ifndef VERIF_DRIVER_SCHED_RT_H_
#define VERIF_DRIVER_SCHED_RT_H_

#include <stdint.h>

#include <functional>
#include <string>
#include <vector>

namespace sched {

// Where another thread is to be given its turn. S counts synchronizing steps
// (locks, unlocks, atomics, observed events), F all steps (memory accesses and
// function calls, too).
struct Schedule {
  uint64_t seed = 0;
  long first = 0;  // the thread that starts; 0: chosen by the seed
  std::vector<long> s, f;
  long ws = 0, wf = 0;  // additionally at one in so many steps (0: never)
  std::string Text() const;
  static Schedule Parse(const std::string& text);
};

// Runs the bodies to their end. When none can go on, stalled() may do something
// about it and returns whether it did; otherwise it is a deadlock.
void Run(const std::vector<std::function<void()>>& bodies, const Schedule& schedule,
         std::function<bool()> stalled);

// The current step comes before those after a later Acquire().
void Release();
void Acquire();
int Self();  // the thread: 1, 2, ... or 0
void Point();
void Atomic(bool on);  // nested; no other thread gets its turn while on
// While on, what is deleted is not used again; touching it is an error.
void Quarantine(bool on);
long CountS();
long CountF();
extern std::function<void(const std::string&)> on_deadlock;

}  // namespace sched

#endif
