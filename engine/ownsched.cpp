#include "ownsched.h"

#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <ctime>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <vector>

namespace
{
  using Ns = uint64_t;
  const Ns cNever = ~0ull;
  const Ns cBase = 1000000000000ull;   // the virtual clocks' origin

  struct Thread
  {
    enum State { Runnable, Mutex, ReadLock, Cond, Join, Sleep, Until, Done };
    State state = Runnable;
    const void* on = nullptr;   // mutex, condition variable or thread
    Ns deadline = cNever;
    bool notified = false;
    std::atomic<int> go{0};
    const std::function<bool()>* condition = nullptr;
    int joining = -1;
  };

  struct MutexState
  {
    int owner = -1;
    int depth = 0;
    int readers = 0;
  };

  struct State
  {
    pbt::Case* c = nullptr;
    sched::Options o;
    std::vector<std::unique_ptr<Thread>> threads;
    std::map<const void*, MutexState> mutexes;
    std::map<unsigned long, int> handles;   // pthread_t to thread
    Ns now = cBase;
    uint64_t steps = 0, switches = 0;
    uint64_t untilSync = ~0ull, untilMemory = ~0ull;
    uint64_t syncGap = 0, memoryGap = 0;
    int current = 0;
    int live = 0;
    uint64_t random = 1;
  };

  State* sState = nullptr;
  std::atomic<uint64_t> sProgress{0};
  thread_local int tSelf = -1;
  thread_local int tInside = 0;

  struct Inside
  {
    Inside() { ++tInside; }
    ~Inside() { --tInside; }
  };

  bool on() { return tSelf >= 0 && tInside == 0; }

  void futexWait(std::atomic<int>& word)
  {
    while(word.load(std::memory_order_acquire) == 0)
    {
      syscall(SYS_futex, (int*)&word, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    word.store(0, std::memory_order_release);
  }

  void futexPost(std::atomic<int>& word)
  {
    word.store(1, std::memory_order_release);
    syscall(SYS_futex, (int*)&word, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
  }

  void describe(std::string& s)
  {
    static const char* names[] = {"runnable", "waits for a mutex", "waits for a reader lock", "waits for a condition", "waits for a thread to end", "sleeps", "waits for the harness's condition", "has ended"};
    for(size_t i = 0; i < sState->threads.size(); ++i)
    {
      Thread& t = *sState->threads[i];
      s += "\n  thread " + std::to_string(i) + " " + names[t.state];
      if(t.state == Thread::Mutex)
      {
        s += " held by thread " + std::to_string(sState->mutexes[t.on].owner);
      }
      if(t.state == Thread::Join)
      {
        s += " (thread " + std::to_string(t.joining) + ")";
      }
    }
  }

  [[noreturn]] void stuck(const char* what)
  {
    std::string s = what;
    describe(s);
    pbt::failNow(s);
  }

  // Makes everyone whose wait is over runnable.
  void settle()
  {
    for(auto& p : sState->threads)
    {
      Thread& t = *p;
      if((t.state == Thread::Sleep || t.state == Thread::Cond) && t.deadline <= sState->now)
      {
        t.state = Thread::Runnable;
      }
      else if(t.state == Thread::Until && (*t.condition)())
      {
        t.state = Thread::Runnable;
      }
    }
  }

  bool advance()
  {
    Ns next = cNever;
    for(auto& p : sState->threads)
    {
      if((p->state == Thread::Sleep || p->state == Thread::Cond) && p->deadline < next)
      {
        next = p->deadline;
      }
    }
    if(next == cNever)
    {
      return false;
    }
    if(next > sState->now)
    {
      sState->now = next;
    }
    if(sState->now > cBase + sState->o.limitSeconds * 1000000000ull)
    {
      stuck("the threads do not come to an end");
    }
    settle();
    return true;
  }

  // Picks who runs next; the caller's state has been set already.
  void reschedule(bool preempting)
  {
    State& s = *sState;
    ++s.switches;
    sProgress.fetch_add(1, std::memory_order_relaxed);
    settle();
    if(s.o.slow && s.c->s.draw(24) == 23)
    {
      advance();
    }
    if(s.o.spurious && s.c->s.draw(64) == 63)
    {
      std::vector<Thread*> w;
      for(auto& p : s.threads)
      {
        if(p->state == Thread::Cond)
        {
          w.push_back(p.get());
        }
      }
      if(!w.empty())
      {
        w[s.c->s.draw(w.size())]->state = Thread::Runnable;
      }
    }
    std::vector<int> r;
    for(;;)
    {
      r.clear();
      // The current thread first, then round-robin: the simplest choice is to go on.
      for(size_t i = 0; i < s.threads.size(); ++i)
      {
        int t = (int)((tSelf + i) % s.threads.size());
        if(s.threads[t]->state == Thread::Runnable)
        {
          r.push_back(t);
        }
      }
      if(!r.empty())
      {
        break;
      }
      if(!advance())
      {
        stuck("deadlock: no thread can go on");
      }
    }
    (void)preempting;
    int next = r.size() == 1 ? r[0] : r[s.c->s.draw(r.size())];
    s.current = next;
    if(next != tSelf)
    {
      Thread& me = *s.threads[tSelf];
      bool ended = me.state == Thread::Done;
      futexPost(s.threads[next]->go);
      if(!ended)
      {
        futexWait(me.go);
      }
    }
  }

  // Long cases are preempted less as they go on.
  uint64_t gap(uint64_t g)
  {
    uint64_t n = sState->steps;
    return g ? 1 + sState->c->s.draw(n > 1000000 ? g * 256 : n > 200000 ? g * 32 : g) : ~0ull;
  }

  void step(uint64_t& countdown, uint64_t g)
  {
    State& s = *sState;
    if(++s.steps > s.o.limitSteps)
    {
      stuck("the threads do not come to an end");
    }
    if(countdown != ~0ull && --countdown == 0)
    {
      reschedule(true);
      // Others may have drawn a new gap meanwhile; that is as good.
      countdown = gap(g);
    }
  }

  void syncPoint()
  {
    Inside i;
    sState->now += 100;
    step(sState->untilSync, sState->syncGap);
  }

  void memoryPoint()
  {
    if(tSelf < 0 || tInside || sState == nullptr)
    {
      return;
    }
    Inside i;
    step(sState->untilMemory, sState->memoryGap);
  }

  void wakeMutex(const void* m)
  {
    for(auto& p : sState->threads)
    {
      if((p->state == Thread::Mutex || p->state == Thread::ReadLock) && p->on == m)
      {
        p->state = Thread::Runnable;
      }
    }
  }

  void block(Thread::State state, const void* on, Ns deadline = cNever)
  {
    Thread& me = *sState->threads[tSelf];
    me.state = state;
    me.on = on;
    me.deadline = deadline;
    reschedule(false);
    me.deadline = cNever;
    me.on = nullptr;
  }

  bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP; }

  int lockMutex(const void* m, bool rec, bool tryOnly, Ns deadline = cNever)
  {
    State& s = *sState;
    for(;;)
    {
      MutexState& k = s.mutexes[m];
      if(k.owner == tSelf)
      {
        if(rec)
        {
          ++k.depth;
          return 0;
        }
        if(tryOnly)
        {
          return EBUSY;
        }
        if(deadline == cNever)
        {
          stuck("deadlock: a thread locks a mutex it already holds");
        }
      }
      if(k.owner < 0 && k.readers == 0)
      {
        k.owner = tSelf;
        k.depth = 1;
        return 0;
      }
      if(tryOnly)
      {
        return EBUSY;
      }
      if(deadline != cNever)
      {
        if(s.now >= deadline)
        {
          return ETIMEDOUT;
        }
        block(Thread::Sleep, nullptr, std::min(deadline, s.now + 1000000));
        continue;
      }
      block(Thread::Mutex, m);
    }
  }

  int lockRead(const void* m, bool tryOnly)
  {
    State& s = *sState;
    for(;;)
    {
      MutexState& k = s.mutexes[m];
      if(k.owner < 0)
      {
        ++k.readers;
        return 0;
      }
      if(tryOnly)
      {
        return EBUSY;
      }
      if(k.owner == tSelf)
      {
        return EDEADLK;
      }
      block(Thread::ReadLock, m);
    }
  }

  int unlockMutex(const void* m)
  {
    MutexState& k = sState->mutexes[m];
    if(k.owner == tSelf)
    {
      if(--k.depth == 0)
      {
        sState->mutexes.erase(m);
        wakeMutex(m);
      }
    }
    else if(k.readers > 0)
    {
      if(--k.readers == 0)
      {
        sState->mutexes.erase(m);
        wakeMutex(m);
      }
    }
    else
    {
      pbt::failNow("a thread unlocks a mutex it does not hold");
    }
    return 0;
  }

  int condWait(pthread_cond_t* cv, pthread_mutex_t* m, Ns deadline)
  {
    Thread& me = *sState->threads[tSelf];
    MutexState& k = sState->mutexes[m];
    int depth = k.depth;
    if(k.owner != tSelf)
    {
      pbt::failNow("a thread waits on a condition without holding its mutex");
    }
    sState->mutexes.erase(m);
    wakeMutex(m);
    me.notified = false;
    block(Thread::Cond, cv, deadline);
    bool timedOut = !me.notified && deadline != cNever && sState->now >= deadline;
    lockMutex(m, false, false);
    sState->mutexes[m].depth = depth;
    return timedOut ? ETIMEDOUT : 0;
  }

  void notify(const void* cv, bool all)
  {
    std::vector<Thread*> w;
    for(auto& p : sState->threads)
    {
      if(p->state == Thread::Cond && p->on == cv)
      {
        w.push_back(p.get());
      }
    }
    if(w.empty())
    {
      return;
    }
    if(!all)
    {
      Thread* t = w[sState->c->s.draw(w.size())];
      w.assign(1, t);
    }
    for(Thread* t : w)
    {
      t->notified = true;
      t->state = Thread::Runnable;
    }
  }

  Ns toNs(const timespec* t) { return (Ns)t->tv_sec * 1000000000ull + (Ns)t->tv_nsec; }

  struct Started : std::thread::_State
  {
    std::unique_ptr<std::thread::_State> inner;
    int id;
    Thread* self;   // the list of threads may be changing until it is this one's turn
    void _M_run() override
    {
      tSelf = id;
      ++tInside;
      futexWait(self->go);
      --tInside;
      try
      {
        inner->_M_run();
        inner.reset();
      }
      catch(const pbt::Fail& f)
      {
        pbt::failNow(f.message);
      }
      catch(const std::exception& e)
      {
        pbt::failNow(std::string("an exception ends a thread: ") + e.what());
      }
      ++tInside;
      Thread& me = *sState->threads[id];
      me.state = Thread::Done;
      --sState->live;
      for(auto& p : sState->threads)
      {
        if(p->state == Thread::Join && p->joining == id)
        {
          p->state = Thread::Runnable;
        }
      }
      reschedule(false);
      tSelf = -1;
    }
  };
} // namespace

extern "C"
{
  int __real_pthread_mutex_lock(pthread_mutex_t*);
  int __real_pthread_mutex_trylock(pthread_mutex_t*);
  int __real_pthread_mutex_unlock(pthread_mutex_t*);
  int __real_pthread_mutex_timedlock(pthread_mutex_t*, const timespec*);
  int __real_pthread_mutex_clocklock(pthread_mutex_t*, clockid_t, const timespec*);
  int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
  int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
  int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
  int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
  int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
  int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
  int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
  int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
  int __real_nanosleep(const timespec*, timespec*);
  int __real_usleep(useconds_t);
  int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
  int __real_sched_yield();
  std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
  std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
  void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*, std::unique_lock<std::mutex>&);
  void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*);
  void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*);
  void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread*, std::unique_ptr<std::thread::_State>, void (*)());
  void __real__ZNSt6thread4joinEv(std::thread*);

  int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
  {
    if(!on())
    {
      return __real_pthread_mutex_lock(m);
    }
    syncPoint();
    Inside i;
    return lockMutex(m, recursive(m), false);
  }
  int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
  {
    if(!on())
    {
      return __real_pthread_mutex_trylock(m);
    }
    syncPoint();
    Inside i;
    return lockMutex(m, recursive(m), true);
  }
  int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t)
  {
    if(!on())
    {
      return __real_pthread_mutex_timedlock(m, t);
    }
    syncPoint();
    Inside i;
    return lockMutex(m, recursive(m), false, toNs(t));
  }
  int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const timespec* t)
  {
    if(!on())
    {
      return __real_pthread_mutex_clocklock(m, k, t);
    }
    syncPoint();
    Inside i;
    return lockMutex(m, recursive(m), false, toNs(t));
  }
  int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
  {
    if(!on())
    {
      return __real_pthread_mutex_unlock(m);
    }
    {
      Inside i;
      unlockMutex(m);
    }
    syncPoint();
    return 0;
  }
  int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
  {
    if(!on())
    {
      return __real_pthread_rwlock_rdlock(m);
    }
    syncPoint();
    Inside i;
    return lockRead(m, false);
  }
  int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
  {
    if(!on())
    {
      return __real_pthread_rwlock_tryrdlock(m);
    }
    syncPoint();
    Inside i;
    return lockRead(m, true);
  }
  int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
  {
    if(!on())
    {
      return __real_pthread_rwlock_wrlock(m);
    }
    syncPoint();
    Inside i;
    return lockMutex(m, false, false);
  }
  int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m)
  {
    if(!on())
    {
      return __real_pthread_rwlock_trywrlock(m);
    }
    syncPoint();
    Inside i;
    return lockMutex(m, false, true);
  }
  int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
  {
    if(!on())
    {
      return __real_pthread_rwlock_unlock(m);
    }
    {
      Inside i;
      unlockMutex(m);
    }
    syncPoint();
    return 0;
  }
  int __wrap_pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m)
  {
    if(!on())
    {
      return __real_pthread_cond_wait(cv, m);
    }
    syncPoint();
    Inside i;
    return condWait(cv, m, cNever);
  }
  int __wrap_pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const timespec* t)
  {
    if(!on())
    {
      return __real_pthread_cond_timedwait(cv, m, t);
    }
    syncPoint();
    Inside i;
    return condWait(cv, m, toNs(t));
  }
  int __wrap_pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t k, const timespec* t)
  {
    if(!on())
    {
      return __real_pthread_cond_clockwait(cv, m, k, t);
    }
    syncPoint();
    Inside i;
    return condWait(cv, m, toNs(t));
  }
  static int virtualSleep(Ns ns)
  {
    Inside i;
    ++sState->steps;
    block(Thread::Sleep, nullptr, sState->now + ns);
    return 0;
  }
  int __wrap_nanosleep(const timespec* t, timespec* r)
  {
    return on() ? virtualSleep(toNs(t)) : __real_nanosleep(t, r);
  }
  int __wrap_usleep(useconds_t t) { return on() ? virtualSleep((Ns)t * 1000) : __real_usleep(t); }
  int __wrap_clock_nanosleep(clockid_t k, int flags, const timespec* t, timespec* r)
  {
    if(!on())
    {
      return __real_clock_nanosleep(k, flags, t, r);
    }
    Ns ns = toNs(t);
    if(flags & TIMER_ABSTIME)
    {
      ns = ns > sState->now ? ns - sState->now : 0;
    }
    return virtualSleep(ns);
  }
  int __wrap_sched_yield()
  {
    if(!on())
    {
      return __real_sched_yield();
    }
    Inside i;
    sState->now += 100000;
    ++sState->steps;
    reschedule(true);
    return 0;
  }
  std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
  {
    if(tSelf < 0)
    {
      return __real__ZNSt6chrono3_V212steady_clock3nowEv();
    }
    sState->now += 1000;
    return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(sState->now));
  }
  std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv()
  {
    if(tSelf < 0)
    {
      return __real__ZNSt6chrono3_V212system_clock3nowEv();
    }
    sState->now += 1000;
    return std::chrono::system_clock::time_point(std::chrono::nanoseconds(sState->now));
  }
  void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* cv, std::unique_lock<std::mutex>& l)
  {
    if(!on())
    {
      __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, l);
      return;
    }
    syncPoint();
    Inside i;
    condWait(cv->native_handle(), l.mutex()->native_handle(), cNever);
  }
  void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* cv)
  {
    if(!on())
    {
      __real__ZNSt18condition_variable10notify_oneEv(cv);
      return;
    }
    syncPoint();
    {
      Inside i;
      notify(cv->native_handle(), false);
    }
    syncPoint();
  }
  void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* cv)
  {
    if(!on())
    {
      __real__ZNSt18condition_variable10notify_allEv(cv);
      return;
    }
    syncPoint();
    {
      Inside i;
      notify(cv->native_handle(), true);
    }
    syncPoint();
  }
  void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* self, std::unique_ptr<std::thread::_State> state, void (*depend)())
  {
    if(!on())
    {
      __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(self, std::move(state), depend);
      return;
    }
    syncPoint();
    {
      Inside i;
      std::unique_ptr<Started> s(new Started);
      s->inner = std::move(state);
      s->id = (int)sState->threads.size();
      int id = s->id;
      sState->threads.emplace_back(new Thread);
      s->self = sState->threads.back().get();
      ++sState->live;
      __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(self, std::move(s), depend);
      sState->handles[(unsigned long)self->native_handle()] = id;
    }
    syncPoint();
  }
  void __wrap__ZNSt6thread4joinEv(std::thread* self)
  {
    if(on() && self->joinable())
    {
      syncPoint();
      Inside i;
      auto h = sState->handles.find((unsigned long)self->native_handle());
      if(h != sState->handles.end())
      {
        int id = h->second;
        if(id == tSelf)
        {
          stuck("deadlock: a thread joins itself");
        }
        Thread& me = *sState->threads[tSelf];
        while(sState->threads[id]->state != Thread::Done)
        {
          me.joining = id;
          block(Thread::Join, nullptr);
        }
        me.joining = -1;
        sState->handles.erase(h);
      }
    }
    ++tInside;
    __real__ZNSt6thread4joinEv(self);
    --tInside;
  }

  // Random numbers are the same when a case is replayed.
  unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
  unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* self)
  {
    if(!on())
    {
      return __real__ZNSt13random_device9_M_getvalEv(self);
    }
    uint64_t z = (sState->random += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return (unsigned)(z ^ (z >> 31));
  }

  // Instrumentation of the code under test.
  void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
  void __sanitizer_cov_trace_pc_guard(uint32_t*) { memoryPoint(); }
  void __sanitizer_cov_load1(uint8_t*) { memoryPoint(); }
  void __sanitizer_cov_load2(uint16_t*) { memoryPoint(); }
  void __sanitizer_cov_load4(uint32_t*) { memoryPoint(); }
  void __sanitizer_cov_load8(uint64_t*) { memoryPoint(); }
  void __sanitizer_cov_load16(__int128*) { memoryPoint(); }
  void __sanitizer_cov_store1(uint8_t*) { memoryPoint(); }
  void __sanitizer_cov_store2(uint16_t*) { memoryPoint(); }
  void __sanitizer_cov_store4(uint32_t*) { memoryPoint(); }
  void __sanitizer_cov_store8(uint64_t*) { memoryPoint(); }
  void __sanitizer_cov_store16(__int128*) { memoryPoint(); }
}

namespace sched
{
  bool active() { return tSelf >= 0; }
  Calm::Calm() { ++tInside; }
  Calm::~Calm() { --tInside; }
  double now() { return sState ? (double)(sState->now - cBase) / 1e6 : 0; }
  uint64_t steps() { return sState ? sState->steps : 0; }
  uint64_t switches() { return sState ? sState->switches : 0; }

  void yield()
  {
    if(on())
    {
      Inside i;
      ++sState->steps;
      reschedule(true);
    }
  }

  void sleep(double ms)
  {
    if(on())
    {
      virtualSleep((Ns)(ms * 1e6));
    }
  }

  void until(const std::function<bool()>& condition)
  {
    if(!on())
    {
      return;
    }
    Inside i;
    if(!condition())
    {
      sState->threads[tSelf]->condition = &condition;
      block(Thread::Until, nullptr);
      sState->threads[tSelf]->condition = nullptr;
    }
  }

  void run(pbt::Case& c, const Options& o, const std::function<void()>& body)
  {
    // Blocking in something that is not known here would stall everything: give such a case up.
    static pid_t guarded = 0;
    if(guarded != getpid())
    {
      guarded = getpid();
      // Starting a thread under the address sanitizer costs in proportion to its stack.
      pthread_attr_t attributes;
      pthread_attr_init(&attributes);
      pthread_attr_setstacksize(&attributes, 512 * 1024);
      pthread_setattr_default_np(&attributes);
      pthread_attr_destroy(&attributes);
      pthread_t t;
      pthread_create(&t, nullptr, [](void*) -> void* {
        uint64_t last = 0;
        int same = 0;
        for(;;)
        {
          timespec ts = {1, 0};
          __real_nanosleep(&ts, nullptr);
          uint64_t p = sProgress.load();
          same = sState && p == last ? same + 1 : 0;
          last = p;
          if(same >= 15)
          {
            _exit(3);
          }
        }
      }, nullptr);
      pthread_detach(t);
    }
    State* s = new State;
    s->c = &c;
    s->o = o;
    static const uint64_t gaps[] = {2, 1, 4, 8, 20, 60, 200};
    s->syncGap = gaps[c.s.draw(7)];
    static const uint64_t mem[] = {0, 0, 0, 20, 100, 1000, 5000, 30000};
    // Now and then in any case, in case someone waits for another without saying so.
    s->memoryGap = mem[c.s.draw(8)];
    s->memoryGap = s->memoryGap ? s->memoryGap : 1000000;
    s->threads.emplace_back(new Thread);
    s->live = 1;
    sState = s;
    s->untilSync = gap(s->syncGap);
    s->untilMemory = gap(s->memoryGap);
    tSelf = 0;
    tInside = 0;
    try
    {
      body();
    }
    catch(const pbt::Fail& f)
    {
      pbt::failNow(f.message);
    }
    catch(const pbt::Discard&)
    {
      pbt::failNow("discarded inside a schedule");
    }
    catch(const std::exception& e)
    {
      pbt::failNow(std::string("unexpected exception: ") + e.what());
    }
    if(s->live > 1)
    {
      ++tInside;
      std::function<bool()> alone = [s] { return s->live == 1; };
      s->threads[0]->condition = &alone;
      while(s->live > 1)
      {
        block(Thread::Until, nullptr);
      }
      --tInside;
    }
    tSelf = -1;
    sState = nullptr;
    delete s;
  }
} // namespace sched
