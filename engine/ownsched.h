// A scheduler that runs the threads of a case one at a time, in virtual time.
//
// Mutexes, reader-writer locks, condition variables, sleeps, clocks and thread creation are redirected to
// it when linking (--wrap), and the code under test is compiled to call it at every edge and memory
// access.  Who runs next, whether to preempt, which waiter is notified and spurious wakeups are choices of
// the case, so interleavings are generated, recorded, shrunk and replayed like any other input.  A state
// in which nobody can run any more is reported as a deadlock.
#ifndef LPBT_SCHED_H
#define LPBT_SCHED_H

#include <lpbt.h>

#include <functional>

namespace sched
{
  struct Options
  {
    bool slow = false;           // threads may be arbitrarily slow: time passes although someone could run
    bool spurious = true;
    uint64_t limitSeconds = 3600;  // virtual time after which the case is taken not to end
    uint64_t limitSteps = 20000000;
  };

  // Runs body as the first thread of a schedule; returns when all threads have ended.
  void run(pbt::Case& c, const Options& o, const std::function<void()>& body);
  bool active();
  // Virtual time in milliseconds.
  double now();
  // Lets others run.
  void yield();
  void sleep(double ms);
  // Blocks until the condition holds (evaluated by whoever runs), for harness code only.
  void until(const std::function<bool()>& condition);
  // While one is in scope, its thread is not preempted between memory accesses.
  struct Calm
  {
    Calm();
    ~Calm();
  };
  uint64_t steps();
  uint64_t switches();
} // namespace sched

#endif
