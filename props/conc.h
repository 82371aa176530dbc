// What harnesses with threads use: either the owned scheduler (ownsched.h) or real threads (LPBT_REAL, under
// the thread sanitizer).  Nothing here orders threads among each other, so that no race is masked.
#ifndef LPBT_CONC_H
#define LPBT_CONC_H

#include <lpbt.h>

#include <atomic>
#include <chrono>
#include <thread>

#ifndef LPBT_REAL
#include "ownsched.h"
#endif

namespace conc
{
  using Stamp = uint64_t;
  const Stamp cNever = ~0ull;

  inline std::atomic<uint64_t>& counter()
  {
    static std::atomic<uint64_t> c{1};
    return c;
  }
  // Increases along every thread and along every synchronisation.
  inline Stamp stamp() { return counter().fetch_add(1, std::memory_order_relaxed); }

#ifdef LPBT_REAL
  const bool cVirtual = false;
  inline double now() { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  inline void sleep(double ms) { std::this_thread::sleep_for(std::chrono::duration<double, std::milli>(ms)); }
  struct Calm
  {
    Calm() {}
    ~Calm() {}
  };
  inline void run(pbt::Case&, bool slow, const std::function<void()>& body, uint64_t = 0)
  {
    (void)slow;
    body();
  }
#else
  const bool cVirtual = true;
  using Calm = sched::Calm;
  inline double now() { return sched::now(); }
  inline void sleep(double ms) { sched::sleep(ms); }
  inline void run(pbt::Case& c, bool slow, const std::function<void()>& body, uint64_t limitSteps = 20000000)
  {
    sched::Options o;
    o.slow = slow;
    o.limitSteps = limitSteps;
    pbt::failAtOnce = sched::active;
    sched::run(c, o, body);
  }
#endif
} // namespace conc

#endif
