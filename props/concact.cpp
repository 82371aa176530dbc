// A02 (and A01 under threads): several threads request at the same time, answers come at all times.
#include "conc.h"

#include <gen.h>

#include <algorithm>
#include <map>
#include <memory>
#include <mutex>

#include <lamppost/bus/Bus.h>

using conc::Stamp;
using conc::cNever;
using conc::stamp;
using lp::bus::ActionConsumer;
using lp::bus::ActionProvider;
using lp::bus::Bus;
using lp::bus::Publisher;
using lp::bus::Subscriber;
using lp::messages::Datagram;
using lp::messages::RawDatagramType;
using pbt::Case;

namespace
{
  struct Answer
  {
    double delay;       // below 0: from inside the provider's callback
    bool null;
    bool foreign;       // to an invocation that does not exist
    std::string content;
    bool given = false;
    Stamp call = cNever, ret = cNever;
    double callTime = 0, retTime = 0;
  };

  struct Request
  {
    size_t thread, n;
    size_t consumer;
    int timeout;
    bool async;
    double pause;
    double nested = 0;                               // the first provider to see it blocks the bus by a request of its own
    std::vector<std::vector<Answer>> answers;        // by provider
    // What happened.
    std::vector<int> seen;
    Stamp call = 0, ret = 0;
    double callTime = 0, retTime = 0;
    std::string result;
    std::vector<std::string> calls;                  // of an asynchronous request's callback
    std::vector<Stamp> callsAt;
    bool nestedEmpty = true;
    double nestedTook = 0;
  };

  std::string show(Datagram& d) { return d.GetType() == RawDatagramType::Empty ? "(empty)" : d.Get<std::string>("", "(other)"); }

  class World
  {
  public:
    World(Case& c, unsigned asyncOf5) : c(c), s(c.s), asyncOf5(asyncOf5) {}

    void run()
    {
      slow = conc::cVirtual && s.chance(1, 4);
      size_t nThreads = 1 + s.draw(4);
      nConsumers = 1 + s.draw(3);
      nProviders = s.draw(8) == 7 ? 0 : 1 + s.draw(2);
      place = s.draw(1000);
      static const std::vector<int> virtualTimeouts = {1000, 0, 1, 5, 50, 100, 101, 300, 2500, -5};
      static const std::vector<int> realTimeouts = {20, 0, 1, 5, 10, 30};
      for(size_t t = 0; t < nThreads; ++t)
      {
        threads.emplace_back();
        for(pbt::List l(s, 5, 1); l.more();)
        {
          std::unique_ptr<Request> r(new Request);
          r->thread = t;
          r->n = threads.back().size();
          r->consumer = s.draw(nConsumers);
          r->timeout = s.pick(conc::cVirtual ? virtualTimeouts : realTimeouts);
          r->async = s.chance(asyncOf5, 5);
          r->pause = s.chance(1, 3) ? (double)s.draw(conc::cVirtual ? 200 : 4) : 0;
          if(s.chance(1, 16))
          {
            r->nested = conc::cVirtual ? 1 + s.draw(20) : 1;
          }
          for(size_t p = 0; p < nProviders; ++p)
          {
            r->answers.emplace_back();
            for(size_t k = s.weighted({6, 3, 2, 1}) == 0 ? 1 : s.draw(4); k > 0; --k)
            {
              Answer a;
              double t = std::max(0, r->timeout);
              switch(s.weighted({5, 2, 3, 2, 2, 2}))
              {
                case 0: a.delay = -1; break;
                case 1: a.delay = 0; break;
                case 2: a.delay = (double)s.draw(conc::cVirtual ? 400 : 25); break;
                case 3: a.delay = std::max(0.0, t - (double)s.draw(3)); break;
                case 4: a.delay = t + (double)s.draw(3); break;
                default: a.delay = t / 2; break;
              }
              a.delay = std::min(a.delay, conc::cVirtual ? 2600.0 : 40.0);
              a.null = s.chance(1, 10);
              a.foreign = s.chance(1, 12);
              a.content = a.null ? "(empty)" : "answer " + std::to_string(p) + "." + std::to_string(k) + " to " + key(*r);
              r->answers.back().push_back(a);
              c << "request " << key(*r) << " consumer " << r->consumer << (r->async ? " asynchronous" : "") << " timeout " << r->timeout << ": answer by provider " << p
                << " after " << a.delay << (a.null ? " null" : "") << (a.foreign ? " to a foreign id" : "") << "\n";
            }
          }
          r->seen.resize(nProviders);
          threads.back().push_back(std::move(r));
        }
      }
      conc::run(c, slow, [this] { body(); });
      judge();
    }

  private:
    Case& c;
    pbt::Src& s;
    unsigned asyncOf5;
    bool slow = false;
    size_t nConsumers = 1, nProviders = 1, place = 0;
    std::vector<std::vector<std::unique_ptr<Request>>> threads;
    std::vector<std::shared_ptr<ActionConsumer>> consumers;
    std::shared_ptr<ActionConsumer> nestedConsumer;
    std::vector<std::shared_ptr<ActionProvider>> providers;
    std::vector<std::thread> answerers;
    std::atomic<bool> sentinel{false};
    std::atomic<int> running{0};
    double nestedTotal = 0;
    bool lastGood = true;
    std::string lastResult;

    static std::string key(const Request& r) { return std::to_string(r.thread) + "/" + std::to_string(r.n); }

    void give(ActionProvider& p, const std::string& id, Answer& a)
    {
      Datagram d;
      if(!a.null)
      {
        d = a.content;
      }
      a.callTime = conc::now();
      a.call = stamp();
      a.given = !a.foreign;
      p.Respond(a.foreign ? id + "x" : id, d);
      a.ret = stamp();
      a.retTime = conc::now();
    }

    void provide(size_t which, std::shared_ptr<ActionProvider> p, std::string id, Datagram request)
    {
      std::string content = request.Get<std::string>("request", "");
      unsigned long t = 0, n = 0;
      if(content == "last")
      {
        Datagram d;
        d = std::string("last answer");
        p->Respond(id, d);
        return;
      }
      if(sscanf(content.c_str(), "%lu/%lu", &t, &n) != 2 || t >= threads.size() || n >= threads[t].size())
      {
        return;
      }
      Request& r = *threads[t][n];
      ++r.seen[which];
      if(r.nested > 0 && which == 0)
      {
        double t0 = conc::now();
        Datagram answer = nestedConsumer->Request(Datagram(), (int)r.nested);
        r.nestedTook = conc::now() - t0;
        r.nestedEmpty = answer == Datagram();
      }
      for(Answer& a : r.answers[which])
      {
        if(a.delay < 0)
        {
          give(*p, id, a);
        }
        else
        {
          Answer* later = &a;
          running.fetch_add(1, std::memory_order_relaxed);
          answerers.emplace_back([this, p, id, later] {
            if(later->delay > 0)
            {
              conc::sleep(later->delay);
            }
            give(*p, id, *later);
            running.fetch_sub(1, std::memory_order_relaxed);
          });
        }
      }
    }

    void work(std::vector<std::unique_ptr<Request>>& mine)
    {
      for(std::unique_ptr<Request>& u : mine)
      {
        Request* r = u.get();
        if(r->pause > 0)
        {
          conc::sleep(r->pause);
        }
        Datagram d;
        d = key(*r);
        r->callTime = conc::now();
        r->call = stamp();
        if(r->async)
        {
          consumers[r->consumer]->RequestAsync(d, [r](Datagram a) {
            r->calls.push_back(show(a));
            r->callsAt.push_back(stamp());
          });
        }
        else
        {
          Datagram a = consumers[r->consumer]->Request(d, r->timeout);
          r->result = show(a);
        }
        r->ret = stamp();
        r->retTime = conc::now();
      }
    }

    void body()
    {
      std::unique_ptr<Bus> root(new Bus("root"));
      std::shared_ptr<Bus> a = root->CreateChildBus("a"), b = a->CreateChildBus("b");
      Bus* busses[] = {root.get(), a.get(), b.get()};
      for(size_t i = 0; i < nConsumers; ++i)
      {
        consumers.push_back(busses[(place + i) % 3]->CreateActionConsumer("/action"));
      }
      nestedConsumer = root->CreateActionConsumer("/unanswered");
      for(size_t i = 0; i < nProviders; ++i)
      {
        providers.push_back(busses[(place / 3 + i) % 3]->CreateActionProvider(
          "/action", std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>(
                       [this, i](std::shared_ptr<ActionProvider> p, std::string id, Datagram d) { provide(i, p, id, d); })));
      }
      std::shared_ptr<Subscriber> sentinelSub =
        root->CreateSubscriber("\x01s", lp::bus::DatagramCallbackType([this](Datagram) { sentinel.store(true, std::memory_order_relaxed); }));
      std::shared_ptr<Publisher> sentinelPub = root->CreatePublisher("\x01s");
      std::thread runner([&] { root->Start(); });
      std::vector<std::thread> workers;
      for(auto& t : threads)
      {
        auto* mine = &t;
        workers.emplace_back([this, mine] { work(*mine); });
      }
      for(std::thread& t : workers)
      {
        t.join();
      }
      flush(*sentinelPub);
      // Until the late ones have come, too.
      while(running.load(std::memory_order_relaxed) > 0)
      {
        conc::sleep(conc::cVirtual ? 100 : 1);
      }
      flush(*sentinelPub);
      if(nProviders > 0)
      {
        // Whatever happened, the next request is answered as ever.
        Datagram d;
        d = std::string("last");
        Datagram r = consumers[0]->Request(d, 60000);
        lastResult = show(r);
        lastGood = lastResult == "last answer" || (slow && lastResult == "(empty)");
      }
      root->Stop();
      runner.join();
      for(std::thread& t : answerers)
      {
        t.join();
      }
      consumers.clear();
      providers.clear();
      nestedConsumer.reset();
      sentinelSub.reset();
      sentinelPub.reset();
      root.reset();
    }

    void flush(Publisher& p)
    {
      for(int i = 0; i < 2; ++i)
      {
        sentinel.store(false, std::memory_order_relaxed);
        p.Publish(Datagram());
        double t0 = conc::now();
        while(!sentinel.load(std::memory_order_relaxed))
        {
          conc::sleep(1);
          if(conc::now() - t0 > (conc::cVirtual ? slow ? 1e6 : 2000 : 30000))
          {
            pbt::failNow("the bus does not deliver any more");
          }
        }
      }
    }

    [[noreturn]] void bad(const Request& r, const std::string& what)
    {
      std::ostringstream o;
      o << "request " << key(r) << " (timeout " << r.timeout << ", called at " << r.callTime << ", returned after " << r.retTime - r.callTime << " ms): " << what;
      for(auto& p : r.answers)
      {
        for(const Answer& a : p)
        {
          if(a.given)
          {
            o << "; answered at " << a.callTime << "-" << a.retTime << " with " << a.content;
          }
        }
      }
      c.fail(o.str());
    }

    void judge()
    {
      if(!lastGood)
      {
        c.fail("the last request was answered with " + lastResult);
      }
      double lag = 250;
      for(auto& t : threads)
      {
        for(auto& r : t)
        {
          lag += r->nested > 0 ? r->nested + 5 : 0;
        }
      }
      size_t answered = 0, empty = 0, late = 0;
      for(auto& t : threads)
      {
        for(auto& u : t)
        {
          Request& r = *u;
          for(size_t p = 0; p < r.seen.size(); ++p)
          {
            if(r.seen[p] != 1)
            {
              bad(r, "provider " + std::to_string(p) + " sees it " + std::to_string(r.seen[p]) + " times");
            }
          }
          if(r.nested > 0 && nProviders > 0 && (!r.nestedEmpty || r.nestedTook < (int)r.nested))
          {
            bad(r, "a request from inside the provider's callback returns after " + std::to_string(r.nestedTook) + " ms");
          }
          std::vector<const Answer*> given, first;
          for(auto& p : r.answers)
          {
            for(const Answer& a : p)
            {
              if(a.given)
              {
                given.push_back(&a);
              }
            }
          }
          double earliest = 1e300;
          for(const Answer* a : given)
          {
            bool preceded = false;
            for(const Answer* o : given)
            {
              preceded |= o->ret < a->call;
            }
            if(!preceded)
            {
              first.push_back(a);
            }
            earliest = std::min(earliest, a->retTime);
          }
          if(r.async)
          {
            if(r.calls.size() != (given.empty() ? 0 : 1))
            {
              bad(r, "the callback is called " + std::to_string(r.calls.size()) + " times");
            }
            if(!given.empty())
            {
              bool match = false;
              for(const Answer* a : first)
              {
                match |= a->content == r.calls[0] && a->call < r.callsAt[0];
              }
              if(!match)
              {
                bad(r, "the callback is given " + r.calls[0]);
              }
              ++answered;
            }
            continue;
          }
          bool match = false, nullMatch = false;
          for(const Answer* a : first)
          {
            if(a->content == r.result && a->call < r.ret)
            {
              match = true;
              nullMatch |= a->null;
            }
          }
          double took = r.retTime - r.callTime;
          if(r.result != "(empty)")
          {
            if(!match)
            {
              bad(r, "returns " + r.result);
            }
            ++answered;
            if(conc::cVirtual && !slow && r.retTime > earliest + lag)
            {
              bad(r, "returns long after it was answered");
            }
          }
          else
          {
            ++empty;
            if(took < r.timeout && !nullMatch)
            {
              bad(r, "returns nothing before its timeout");
            }
            if(!nullMatch && conc::cVirtual && !slow && earliest + lag < r.callTime + r.timeout)
            {
              bad(r, "returns nothing although it was answered in time");
            }
            if(!conc::cVirtual && !nullMatch && earliest + 20000 < r.callTime + r.timeout)
            {
              bad(r, "returns nothing although it was answered in time");
            }
            late += given.size() > 0;
          }
          if(conc::cVirtual && !slow && took > std::max(0, r.timeout) + lag)
          {
            bad(r, "returns long after its timeout");
          }
        }
      }
      if(answered + empty > 1 && nProviders > 0)
      {
        c.nontrivial();
      }
      if(late > 0)
      {
        c.label("answered after the timeout");
      }
      if(empty > late)
      {
        c.label("never answered");
      }
    }
  };

  const char* cRule = "1 to 4 threads make blocking and asynchronous requests through shared and own consumers on a bus tree; up to two providers answer each, never, at once, later, "
                      "around and after the timeout, repeatedly, with null, to foreign ids; "
#ifdef LPBT_REAL
                      "on real threads under the thread sanitizer; "
#else
                      "run by a scheduler that draws every switch, in virtual time; deadlocks are found, memory is checked; "
#endif
                      "oracle: returned content and time against the stamped answers; non-trivial: at least two requests and a provider";

  void a02(Case& c) { World(c, 1).run(); }
  void a01(Case& c) { World(c, 4).run(); }

#ifdef LPBT_REAL
  PBT_PROP({"A02.races", cRule, a02, 1000, 40000, 60, pbt::RealThreads, nullptr});
#else
  PBT_PROP({"A02", cRule, a02, 8000, 500000, 60, 0, nullptr});
  PBT_PROP({"A01.threads", cRule, a01, 4000, 300000, 60, 0, nullptr});
#endif
} // namespace
