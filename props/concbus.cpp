// B06 (and B03, B04 under threads): programs of several threads on one running bus tree.
//
// Every thread records what it did in its own log, stamped by a counter that grows along each thread and
// along each synchronisation; the logs are compared when all threads have ended.
#include "conc.h"

#include <gen.h>

#include <algorithm>
#include <map>
#include <memory>
#include <set>

#include <lamppost/bus/Bus.h>
#include <lamppost/exceptions/ArgumentNullException.h>

using conc::Stamp;
using conc::cNever;
using conc::stamp;
using lp::bus::Bus;
using lp::bus::Publisher;
using lp::bus::Subscriber;
using lp::messages::Datagram;
using lp::messages::Message;
using pbt::Case;

namespace
{
  struct Mix
  {
    unsigned publish, message, createSub, deleteSub, createPub, deletePub, createChild, getChild, setCallback, sleep, stopChild, detach, contains, stopRoot;
  };

  struct Interval
  {
    Stamp call, ret;                              // something ends: stop, mute, detach
    Stamp endCall = cNever, endRet = cNever;      // it begins again
  };

  struct BusInfo
  {
    std::string name;
    BusInfo* parent = nullptr;
    Bus* real = nullptr;
    std::shared_ptr<Bus> ref;
    size_t owner = 0;
    std::vector<Interval> stops;
    Stamp detachCall = cNever, detachRet = cNever;
  };

  struct Recv
  {
    uint64_t from, n;
    std::string topic, sender;
    bool whole;
    Stamp at;
    double time;
    int version;
  };

  struct SubInfo
  {
    BusInfo* bus;
    std::string topic;
    std::shared_ptr<Subscriber> real;
    size_t owner;
    Stamp createCall = 0, createRet = 0;
    std::vector<Interval> mutes;
    std::vector<std::pair<Stamp, Stamp>> sets;    // version i is set by sets[i - 1]
    std::atomic<int> inside{0};
    // Written by the thread that delivers.
    std::vector<Recv> received;
    std::shared_ptr<Publisher> react;
    size_t reactTo = 0, reacted = 0;
    size_t id;
    // Found out afterwards.
    Stamp deleteCall = cNever, deleteRet = cNever;
    bool own = false;
  };

  struct PubInfo
  {
    BusInfo* bus;
    std::string topic;
    std::shared_ptr<Publisher> real;
    Stamp deleteCall = cNever, deleteRet = cNever;
  };

  struct Sent
  {
    uint64_t from, n;
    BusInfo* bus;
    PubInfo* pub;
    std::string topic, sender;
    Stamp call, ret;
    double callTime, retTime;
  };

  struct Deleted
  {
    SubInfo* sub;
    PubInfo* pub;
    Stamp call, ret;
  };

  struct Child
  {
    BusInfo* parent;
    std::string name;
    bool create;
    int result;        // 0 done, 1 refused because of the key, 2 refused otherwise
    Bus* bus;
    Stamp call, ret;
  };

  struct Op
  {
    unsigned kind;
    uint64_t a, b, c;
  };

  struct Thread
  {
    size_t id;
    std::vector<Op> program;
    std::vector<Sent> sent;
    std::vector<Deleted> deleted;
    std::vector<Child> children;
    std::vector<std::unique_ptr<SubInfo>> subs;
    std::vector<std::unique_ptr<PubInfo>> pubs;
    std::vector<std::unique_ptr<BusInfo>> busses;
    uint64_t next = 0;
    Stamp stopCall = cNever, stopRet = cNever;
    double stopTime = 0;
    uint64_t ownSubs = 0;
  };

  enum Kind { Publish, SendMessage, CreateSub, DeleteSub, CreatePub, DeletePub, CreateChild, GetChild, SetCallback, Sleep, StopChild, Detach, Contains, StopRoot };

  // Mostly as simple as possible: datagrams are copied many times on their way.
  std::string text(uint64_t from, uint64_t n) { return std::to_string(from) + " " + std::to_string(n) + " " + std::string(n % 30, (char)('a' + from % 26)); }

  Datagram payload(uint64_t from, uint64_t n)
  {
    if(n % 4 != 3)
    {
      return Datagram(text(from, n));
    }
    Datagram d;
    d["text"] = text(from, n);
    return d;
  }

  bool intact(Datagram& d, uint64_t& from, uint64_t& n)
  {
    std::string t = d.Get<std::string>("text", "");
    if(t.empty())
    {
      t = d.Get<std::string>("", "");
    }
    unsigned long long f = 0, k = 0;
    if(sscanf(t.c_str(), "%llu %llu", &f, &k) != 2)
    {
      return false;
    }
    from = f;
    n = k;
    return t == text(from, n) && d == payload(from, n);
  }

  class World
  {
  public:
    World(Case& c, const Mix& mix) : c(c), s(c.s), mix(mix) {}

    void run()
    {
      slow = conc::cVirtual && s.chance(1, 4);
      size_t nThreads = 2 + s.draw(3);
      size_t nBusses = s.draw(4);
      size_t nSubs = 1 + s.draw(4);
      size_t nPubs = 1 + s.draw(3);
      // Programs first: their parts are meaningful whatever the objects at hand.
      for(size_t t = 0; t < nThreads; ++t)
      {
        threads.emplace_back(new Thread);
        threads.back()->id = t;
        for(pbt::List l(s, 14, 1); l.more();)
        {
          Op op;
          op.kind = (unsigned)s.weighted({mix.publish, mix.message, mix.createSub, mix.deleteSub, mix.createPub, mix.deletePub, mix.createChild, mix.getChild,
                                          mix.setCallback, mix.sleep, mix.stopChild, mix.detach, mix.contains, mix.stopRoot});
          op.a = s.draw(1000);
          op.b = s.draw(1000);
          op.c = s.draw(1000);
          threads.back()->program.push_back(op);
          static const char* names[] = {"publish", "message", "createSub", "deleteSub", "createPub", "deletePub", "createChild", "getChild",
                                        "setCallback", "sleep", "stopChild", "detach", "contains", "stopRoot"};
          c << "thread " << t << ": " << names[op.kind] << " " << op.a << " " << op.b << " " << op.c << "\n";
        }
      }
      std::vector<uint64_t> d;
      for(size_t i = 0; i < 60; ++i)
      {
        d.push_back(s.draw(1000));
      }
      conc::run(c, slow, [&] { body(nBusses, nSubs, nPubs, d); });
      judge();
      for(auto& t : threads)
      {
        t->subs.clear();
      }
    }

  private:
    Case& c;
    pbt::Src& s;
    Mix mix;
    bool slow = false;
    std::vector<std::unique_ptr<Thread>> threads;
    std::vector<std::unique_ptr<BusInfo>> busses;
    std::vector<std::unique_ptr<SubInfo>> subs;
    std::vector<std::unique_ptr<PubInfo>> pubs;
    std::vector<Sent> reactions;              // by the thread that delivers
    std::unique_ptr<Bus> root;
    Stamp runCall = 0, runReturn = cNever, run2Call = cNever, run2Return = cNever;
    double runReturnTime = 0;
    std::atomic<bool> sentinel{false};
    std::shared_ptr<Publisher> sentinelPub;
    std::shared_ptr<Subscriber> sentinelSub;

    static std::string topic(uint64_t x)
    {
      static const char* t[] = {"/a", "/b", "/c", "/a/x"};
      return t[x % 4];
    }
    static std::string pattern(uint64_t x) { return x % 3 == 2 ? "/**/*" : topic(x / 3); }

    static bool matches(const std::string& p, const std::string& t) { return p == t || p == "/**/*"; }

    void setCallback(SubInfo* u, int version, bool create, Bus* on)
    {
      // Message and datagram callbacks in turns.
      if(version % 2 == 0)
      {
        lp::bus::MessageCallbackType f = [this, u, version](Message m) { receive(u, version, m.GetTopic(), m.GetSender(), m.GetDatagram()); };
        if(create)
        {
          u->real = on->CreateSubscriber(u->topic);
        }
        u->real->SetMessageCallback(f);
      }
      else
      {
        u->real->SetDatagramCallback([this, u, version](Datagram d) { receive(u, version, "", "", d); });
      }
    }

    void receive(SubInfo* u, int version, const std::string& topic, const std::string& sender, Datagram d)
    {
      Recv r;
      r.from = r.n = 0;
      r.whole = intact(d, r.from, r.n);
      if(!r.whole && d == Datagram())
      {
        return; // the sentinel
      }
      u->inside.fetch_add(1, std::memory_order_relaxed);
      r.topic = topic;
      r.sender = sender;
      r.at = stamp();
      r.time = conc::now();
      r.version = version;
      u->received.push_back(r);
      if(u->react != nullptr && r.from < 1000 && u->reactTo > u->reacted)
      {
        Sent m;
        m.from = 1000 + u->id;
        m.n = u->reacted++;
        m.bus = u->bus;
        m.pub = nullptr;
        m.topic = "/a";
        m.sender = u->bus->name;
        Datagram p = payload(m.from, m.n);
        m.callTime = conc::now();
        m.call = stamp();
        u->react->Publish(p);
        m.ret = stamp();
        m.retTime = conc::now();
        reactions.push_back(m);
      }
      u->inside.fetch_sub(1, std::memory_order_relaxed);
    }

    SubInfo* createSub(std::vector<std::unique_ptr<SubInfo>>& where, BusInfo* b, const std::string& pattern, size_t owner, size_t id)
    {
      SubInfo* u = new SubInfo;
      where.emplace_back(u);
      u->bus = b;
      u->topic = pattern;
      u->owner = owner;
      u->id = id;
      u->createCall = stamp();
      setCallback(u, 0, true, b->real);
      u->createRet = stamp();
      return u;
    }

    PubInfo* createPub(std::vector<std::unique_ptr<PubInfo>>& where, BusInfo* b, const std::string& topic)
    {
      PubInfo* p = new PubInfo;
      where.emplace_back(p);
      p->bus = b;
      p->topic = topic;
      p->real = b->real->CreatePublisher(topic);
      return p;
    }

    void body(size_t nBusses, size_t nSubs, size_t nPubs, const std::vector<uint64_t>& d)
    {
      size_t at = 0;
      auto draw = [&] { return d[at++ % d.size()]; };
      root.reset(new Bus("root"));
      busses.emplace_back(new BusInfo);
      busses[0]->name = "root";
      busses[0]->real = root.get();
      for(size_t i = 0; i < nBusses; ++i)
      {
        BusInfo* p = busses[draw() % busses.size()].get();
        BusInfo* b = new BusInfo;
        busses.emplace_back(b);
        b->name = "bus" + std::to_string(i);
        b->parent = p;
        b->ref = p->real->CreateChildBus(b->name);
        b->real = b->ref.get();
        b->owner = draw() % threads.size();
      }
      for(size_t i = 0; i < nSubs; ++i)
      {
        SubInfo* u = createSub(subs, busses[draw() % busses.size()].get(), pattern(draw()), draw() % threads.size(), i);
        if(draw() % 4 == 3)
        {
          u->react = u->bus->real->CreatePublisher("/a");
          u->reactTo = draw() % 6;
        }
      }
      for(size_t i = 0; i < nPubs; ++i)
      {
        createPub(pubs, busses[draw() % busses.size()].get(), topic(draw()));
      }
      sentinelSub = root->CreateSubscriber("\x01s", lp::bus::DatagramCallbackType([this](Datagram) { sentinel.store(true, std::memory_order_relaxed); }));
      sentinelPub = root->CreatePublisher("\x01s");

      runCall = stamp();
      std::thread runner([this] {
        root->Start();
        runReturn = stamp();
        runReturnTime = conc::now();
      });
      if(mix.stopRoot > 0)
      {
        // A stop before the run has begun does not concern it.
        flush();
      }
      std::vector<std::thread> workers;
      for(auto& t : threads)
      {
        Thread* self = t.get();
        workers.emplace_back([this, self] { work(*self); });
      }
      for(std::thread& t : workers)
      {
        t.join();
      }
      bool stopped = false;
      Stamp firstStop = cNever;
      double stopTime = 0;
      for(auto& t : threads)
      {
        if(t->stopCall != cNever)
        {
          stopped = true;
          if(t->stopRet < firstStop)
          {
            firstStop = t->stopRet;
            stopTime = t->stopTime;
          }
        }
      }
      if(!stopped)
      {
        flush();
        root->Stop();
        stopTime = conc::now();
      }
      runner.join();
      if(conc::cVirtual && !slow && runReturnTime - stopTime > 500)
      {
        pbt::failNow("the run of the root bus ends " + std::to_string(runReturnTime - stopTime) + " ms after it was stopped");
      }
      // What was left over, and what is published now, is delivered when the bus runs again.
      {
        Thread* last = new Thread;
        last->id = threads.size();
        threads.emplace_back(last);
        for(size_t i = 0; i < pubs.size(); ++i)
        {
          publish(*last, pubs[i].get());
        }
        conc::sleep(conc::cVirtual ? 300 : 1);
      }
      run2Call = stamp();
      std::thread again([this] {
        root->Start();
        run2Return = stamp();
      });
      flush();
      root->Stop();
      again.join();
      // Everything goes while it is still known to be quiet.
      for(auto& t : threads)
      {
        for(auto& u : t->subs)
        {
          u->real.reset();
        }
        for(auto& b : t->busses)
        {
          b->ref.reset();
        }
      }
      for(auto& u : subs)
      {
        u->real.reset();
        u->react.reset();
      }
      for(auto& p : pubs)
      {
        p->real.reset();
      }
      sentinelSub.reset();
      sentinelPub.reset();
      for(auto& t : threads)
      {
        for(auto& p : t->pubs)
        {
          p->real.reset();
        }
      }
      root.reset();
      for(auto& b : busses)
      {
        b->ref.reset();
      }
    }

    // Twice: what was pending, and what callbacks published meanwhile.
    void flush()
    {
      for(int i = 0; i < 2; ++i)
      {
        sentinel.store(false, std::memory_order_relaxed);
        sentinelPub->Publish(Datagram());
        waitForSentinel();
      }
    }

    void waitForSentinel()
    {
      double t0 = conc::now();
      while(!sentinel.load(std::memory_order_relaxed))
      {
        conc::sleep(1);
        if(conc::now() - t0 > (conc::cVirtual ? slow ? 1e6 : 500 : 20000))
        {
          pbt::failNow("a message published on the idle running bus is not delivered within " + std::to_string((int)(conc::now() - t0)) + " ms");
        }
      }
    }

    void publish(Thread& t, PubInfo* p)
    {
      Sent m;
      m.from = t.id;
      m.n = t.next++;
      m.bus = p->bus;
      m.pub = p;
      m.topic = p->topic;
      m.sender = p->bus->name;
      Datagram d = payload(m.from, m.n);
      m.callTime = conc::now();
      m.call = stamp();
      p->real->Publish(d);
      m.ret = stamp();
      m.retTime = conc::now();
      t.sent.push_back(m);
      d = std::string("changed by the publisher");
    }

    BusInfo* bus(Thread& t, uint64_t x)
    {
      size_t n = busses.size() + t.busses.size();
      x %= n;
      return x < busses.size() ? busses[x].get() : t.busses[x - busses.size()].get();
    }
    // Names wanted by several threads go to few places.
    BusInfo* childParent(Thread& t, const Op& op) { return op.c % 2 ? busses[op.a % std::min<size_t>(busses.size(), 2)].get() : bus(t, op.a); }
    PubInfo* pub(Thread& t, uint64_t x)
    {
      size_t n = pubs.size() + t.pubs.size();
      x %= n;
      return x < pubs.size() ? pubs[x].get() : t.pubs[x - pubs.size()].get();
    }
    SubInfo* sub(Thread& t, uint64_t x)
    {
      size_t n = subs.size() + t.subs.size();
      x %= n;
      return x < subs.size() ? subs[x].get() : t.subs[x - subs.size()].get();
    }

    void work(Thread& t)
    {
      for(const Op& op : t.program)
      {
        switch(op.kind)
        {
          case Publish:
          {
            PubInfo* p = pub(t, op.a);
            for(uint64_t k = op.b % 3; k < 3 && (p->real != nullptr); ++k)
            {
              publish(t, p);
            }
            break;
          }
          case SendMessage:
          {
            Sent m;
            m.from = t.id;
            m.n = t.next++;
            m.bus = bus(t, op.a);
            m.pub = nullptr;
            m.topic = topic(op.b);
            m.sender = "me" + std::to_string(op.c);
            Message message(m.sender, m.topic, payload(m.from, m.n));
            m.callTime = conc::now();
            m.call = stamp();
            m.bus->real->Publish(message);
            m.ret = stamp();
            m.retTime = conc::now();
            t.sent.push_back(m);
            break;
          }
          case CreateSub:
          {
            SubInfo* u = createSub(t.subs, bus(t, op.a), pattern(op.b), t.id, 100 * (t.id + 1) + t.ownSubs++);
            u->own = true;
            break;
          }
          case DeleteSub:
          {
            SubInfo* u = sub(t, op.a);
            if(u->real == nullptr)
            {
              break;
            }
            Deleted d = {u, nullptr, stamp(), 0};
            u->bus->real->DeleteSubscriber(u->real);
            d.ret = stamp();
            if(u->inside.load(std::memory_order_relaxed) != 0)
            {
              pbt::failNow("the callback of a subscriber runs although it was deleted");
            }
            t.deleted.push_back(d);
            if(u->own && op.b % 2 == 0)
            {
              // Nobody else has it, so whoever still used it would use freed memory.
              u->real.reset();
            }
            break;
          }
          case CreatePub: createPub(t.pubs, bus(t, op.a), topic(op.b)); break;
          case DeletePub:
          {
            PubInfo* p = pub(t, op.a);
            Deleted d = {nullptr, p, stamp(), 0};
            p->bus->real->DeletePublisher(p->real);
            d.ret = stamp();
            t.deleted.push_back(d);
            break;
          }
          case CreateChild:
          {
            Child k = {childParent(t, op), op.c % 2 ? "shared" + std::to_string(op.b % 2) : "own" + std::to_string(t.id) + "-" + std::to_string(op.b % 3), true, 0, nullptr, stamp(), 0};
            std::shared_ptr<Bus> made;
            try
            {
              made = k.parent->real->CreateChildBus(k.name);
              k.bus = made.get();
            }
            catch(const lp::exceptions::DuplicateKeyException&)
            {
              k.result = 1;
            }
            catch(const lp::exceptions::Exception&)
            {
              k.result = 2;
            }
            k.ret = stamp();
            t.children.push_back(k);
            if(made != nullptr)
            {
              BusInfo* b = new BusInfo;
              t.busses.emplace_back(b);
              b->name = k.name;
              b->parent = k.parent;
              b->ref = made;
              b->real = made.get();
              b->owner = t.id;
            }
            break;
          }
          case GetChild:
          {
            Child k = {childParent(t, op), op.c % 2 ? "shared" + std::to_string(op.b % 2) : "own" + std::to_string(t.id) + "-" + std::to_string(op.b % 3), false, 0, nullptr, stamp(), 0};
            try
            {
              k.bus = k.parent->real->GetChildBus(k.name).get();
            }
            catch(const lp::exceptions::KeyNotFoundException&)
            {
              k.result = 1;
            }
            k.ret = stamp();
            t.children.push_back(k);
            break;
          }
          case SetCallback:
          {
            SubInfo* u = sub(t, op.a);
            if(u->owner != t.id || u->real == nullptr)
            {
              break;
            }
            if(!u->mutes.empty() && u->mutes.back().endCall == cNever)
            {
              u->mutes.back().endCall = stamp();
            }
            bool mute = op.b % 4 == 3;
            Stamp call = stamp();
            if(mute)
            {
              u->real->SetMessageCallback(nullptr);
            }
            else
            {
              setCallback(u, (int)u->sets.size() + 1, false, nullptr);
            }
            Stamp ret = stamp();
            if(!u->mutes.empty() && u->mutes.back().endRet == cNever)
            {
              u->mutes.back().endRet = ret;
            }
            if(mute)
            {
              u->mutes.push_back({call, ret});
            }
            else
            {
              u->sets.push_back({call, ret});
            }
            break;
          }
          case Sleep:
          {
            static const double virtualMs[] = {0.01, 1, 20, 99, 101, 150, 1000};
            conc::sleep(conc::cVirtual ? virtualMs[op.a % 7] : (double)(op.a % 3));
            break;
          }
          case StopChild:
          {
            BusInfo* b = bus(t, op.a);
            if(b->parent == nullptr || b->owner != t.id)
            {
              break;
            }
            bool down = !b->stops.empty() && b->stops.back().endCall == cNever;
            Stamp call = stamp();
            if(down)
            {
              b->stops.back().endCall = call;
              b->real->Start();
              b->stops.back().endRet = stamp();
            }
            else
            {
              b->real->Stop();
              b->stops.push_back({call, stamp()});
            }
            break;
          }
          case Detach:
          {
            BusInfo* b = bus(t, op.a);
            if(b->parent == nullptr || b->owner != t.id || b->detachCall != cNever)
            {
              break;
            }
            b->detachCall = stamp();
            b->real->Detach();
            b->detachRet = stamp();
            break;
          }
          case Contains:
          {
            if(t.subs.empty())
            {
              break;
            }
            SubInfo* u = t.subs[op.a % t.subs.size()].get();
            bool deleted = false;
            for(Deleted& d : t.deleted)
            {
              deleted |= d.sub == u;
            }
            if(u->real != nullptr && u->bus->real->ContainsSubscriber(u->real) == deleted)
            {
              pbt::failNow(deleted ? "a deleted subscriber is reported as contained" : "a subscriber is reported as not contained");
            }
            break;
          }
          default:
            t.stopCall = std::min(t.stopCall, stamp());
            root->Stop();
            if(t.stopRet == cNever)
            {
              t.stopRet = stamp();
              t.stopTime = conc::now();
            }
            break;
        }
      }
    }

    // -------------------------------------------------------------------------- the verdict

    [[noreturn]] void bad(const std::string& what, const SubInfo* u, const Sent* m, const Recv* r = nullptr)
    {
      std::ostringstream o;
      o << what;
      if(u)
      {
        o << "; subscriber " << u->id << " on " << u->bus->name << " for " << u->topic << ", created " << u->createCall << "-" << u->createRet << ", deleted " << u->deleteCall << "-" << u->deleteRet;
      }
      if(m)
      {
        o << "; message " << m->from << "/" << m->n << " on " << m->bus->name << " " << m->topic << " published " << m->call << "-" << m->ret << " at " << m->retTime << " ms";
      }
      if(r)
      {
        o << "; received at " << r->at << ", " << r->time << " ms";
      }
      c.fail(o.str());
    }

    void judge()
    {
      std::vector<SubInfo*> all;
      std::vector<const Sent*> sent;
      std::map<std::pair<uint64_t, uint64_t>, const Sent*> byId;
      std::vector<Child> kids;
      Stamp firstStop = cNever;
      for(auto& u : subs)
      {
        all.push_back(u.get());
      }
      for(auto& t : threads)
      {
        for(auto& u : t->subs)
        {
          all.push_back(u.get());
        }
      }
      for(auto& t : threads)
      {
        for(Sent& m : t->sent)
        {
          sent.push_back(&m);
        }
        for(Deleted& d : t->deleted)
        {
          Stamp& call = d.sub ? d.sub->deleteCall : d.pub->deleteCall;
          Stamp& ret = d.sub ? d.sub->deleteRet : d.pub->deleteRet;
          call = std::min(call, d.call);
          ret = std::min(ret, d.ret);
        }
        kids.insert(kids.end(), t->children.begin(), t->children.end());
        firstStop = std::min(firstStop, t->stopCall);
      }
      for(Sent& m : reactions)
      {
        sent.push_back(&m);
      }
      for(const Sent* m : sent)
      {
        byId[{m->from, m->n}] = m;
      }
      size_t deliveries = 0, concurrent = 0;
      for(SubInfo* u : all)
      {
        std::map<const Sent*, const Recv*> got;
        std::vector<std::pair<const Sent*, const Recv*>> order;
        for(const Recv& r : u->received)
        {
          auto f = byId.find({r.from, r.n});
          if(f == byId.end())
          {
            bad("a message was received that was never published", u, nullptr, &r);
          }
          const Sent* m = f->second;
          if(!got.insert({m, &r}).second)
          {
            bad("a message was received twice", u, m, &r);
          }
          order.push_back({m, &r});
          if(!r.whole)
          {
            bad("a message arrived damaged", u, m, &r);
          }
          if(!matches(u->topic, m->topic))
          {
            bad("a message was received that does not match", u, m, &r);
          }
          if(r.version % 2 == 0 && (r.topic != m->topic || r.sender != m->sender))
          {
            bad("a message arrived with topic " + pbt::quote(r.topic) + " and sender " + pbt::quote(r.sender) + " instead of " + pbt::quote(m->sender), u, m, &r);
          }
          if(r.at > u->deleteRet)
          {
            bad("a deleted subscriber received a message", u, m, &r);
          }
          if((r.at > runReturn && r.at < run2Call) || r.at > run2Return)
          {
            bad("a message was received while the bus did not run", u, m, &r);
          }
          if(m->pub && m->call > m->pub->deleteRet)
          {
            bad("a message published through a deleted publisher was received", u, m, &r);
          }
          for(BusInfo* b = m->bus; b; b = b->parent)
          {
            if(m->call > b->detachRet)
            {
              bad("a message published on a detached bus was received", u, m, &r);
            }
          }
          bool revived = false;     // started again by hand
          for(BusInfo* b = u->bus; b; b = b->parent)
          {
            if(b != u->bus && !revived && m->call > b->detachRet)
            {
              bad("a message was received below a detached bus", u, m, &r);
            }
            for(const Interval& i : b->stops)
            {
              for(BusInfo* a = b->parent; a; a = a->parent)
              {
                revived |= i.endCall != cNever && i.endRet > a->detachCall;
              }
              if(m->call > i.ret && r.at < i.endCall)
              {
                bad("a message was received on a stopped bus or below it", u, m, &r);
              }
            }
          }
          for(const Interval& i : u->mutes)
          {
            if(m->call > i.ret && r.at < i.endCall)
            {
              bad("a message was received although the callback was taken away", u, m, &r);
            }
          }
          int least = 0, most = 0;
          for(size_t i = 0; i < u->sets.size(); ++i)
          {
            least = u->sets[i].second < m->call ? (int)i + 1 : least;
            most = u->sets[i].first < r.at ? (int)i + 1 : most;
          }
          if(r.version < least || r.version > most)
          {
            bad("a message was given to a callback that is not the one set last (" + std::to_string(r.version) + " instead of " + std::to_string(least) + ")", u, m, &r);
          }
          if(conc::cVirtual && !slow && firstStop == cNever && m->ret < runReturn && r.time - m->retTime > 500)
          {
            bad("a message arrived " + std::to_string(r.time - m->retTime) + " ms after it was published", u, m, &r);
          }
          ++deliveries;
        }
        // Order.
        for(size_t i = 0; i < order.size(); ++i)
        {
          for(size_t j = i + 1; j < order.size(); ++j)
          {
            if(order[j].first->ret < order[i].first->call)
            {
              bad("messages arrive in another order than they were published: first " + std::to_string(order[i].first->from) + "/" + std::to_string(order[i].first->n), u, order[j].first, order[j].second);
            }
          }
        }
        // What is missing.
        for(const Sent* m : sent)
        {
          if(got.count(m) || !matches(u->topic, m->topic) || !(u->createRet < m->call))
          {
            continue;
          }
          if(m->pub && m->pub->deleteCall < m->ret)
          {
            continue;
          }
          bool excused = false;
          for(BusInfo* b = m->bus; b; b = b->parent)
          {
            excused |= b->detachCall < m->ret;
          }
          Stamp end = cNever;
          for(const auto& o : order)
          {
            if(o.first->call > m->ret)
            {
              end = std::min(end, o.second->at);
            }
          }
          excused |= u->deleteCall < end;
          excused |= firstStop != cNever && m->call < runReturn && firstStop < end;
          for(BusInfo* b = u->bus; b; b = b->parent)
          {
            excused |= b->detachCall < end;
            for(const Interval& i : b->stops)
            {
              excused |= i.call < end && i.endRet > m->call;
            }
          }
          for(const Interval& i : u->mutes)
          {
            excused |= i.call < end && i.endRet > m->call;
          }
          if(!excused)
          {
            bad("a message was not delivered", u, m);
          }
        }
        for(const auto& o : order)
        {
          for(const Sent* m : sent)
          {
            concurrent += m != o.first && m->from != o.first->from && m->call < o.first->ret && o.first->call < m->ret;
          }
        }
      }
      // All subscribers agree on the order.
      for(size_t i = 0; i < all.size(); ++i)
      {
        std::map<std::pair<uint64_t, uint64_t>, size_t> position;
        for(size_t k = 0; k < all[i]->received.size(); ++k)
        {
          position[{all[i]->received[k].from, all[i]->received[k].n}] = k;
        }
        for(size_t j = i + 1; j < all.size(); ++j)
        {
          long last = -1;
          for(const Recv& r : all[j]->received)
          {
            auto f = position.find({r.from, r.n});
            if(f == position.end())
            {
              continue;
            }
            if((long)f->second < last)
            {
              bad("two subscribers see messages in different orders", all[j], byId[{r.from, r.n}], &r);
            }
            last = (long)f->second;
          }
        }
      }
      judgeChildren(kids);
      bool interesting = false;
      for(auto& t : threads)
      {
        interesting |= !t->deleted.empty() || !t->children.empty() || !t->subs.empty() || !t->pubs.empty();
      }
      if(deliveries > 1 && (concurrent > 0 || interesting))
      {
        c.nontrivial();
      }
      if(concurrent > 0)
      {
        c.label("publications overlapped");
      }
      if(firstStop != cNever)
      {
        c.label("stopped while in use");
      }
    }

    void judgeChildren(const std::vector<Child>& kids)
    {
      for(const Child& k : kids)
      {
        bool cut = false;
        for(BusInfo* b = k.parent; b; b = b->parent)
        {
          cut |= b->detachCall < k.ret;
        }
        if(k.result == 2 && !cut)
        {
          c.fail("creating the child bus " + k.name + " on " + k.parent->name + " is refused with an unexpected error");
        }
        const Child* maker = nullptr;
        bool before = false, possible = false;
        for(const Child& o : kids)
        {
          if(&o == &k || o.parent != k.parent || o.name != k.name || !o.create || o.result != 0)
          {
            continue;
          }
          if(maker && !(k.create && k.result == 0))
          {
            c.fail("a child bus was created twice: " + k.name);
          }
          maker = &o;
          before |= o.ret < k.call;
          possible |= o.call < k.ret;
        }
        if(k.create)
        {
          if(k.result == 0 && maker)
          {
            c.fail("a child bus was created twice: " + k.name + " on " + k.parent->name);
          }
          if(k.result == 1 && !possible)
          {
            c.fail("creating the child bus " + k.name + " on " + k.parent->name + " is refused although the name is free");
          }
        }
        else
        {
          if(k.result == 0 && (!possible || !maker || maker->bus != k.bus))
          {
            c.fail("looking up " + k.name + " on " + k.parent->name + " yields another bus than was created");
          }
          if(k.result == 1 && before)
          {
            c.fail("the child bus " + k.name + " on " + k.parent->name + " is not found");
          }
        }
      }
    }
  };

  const char* cRule = "programs of 2 to 4 threads on a running bus tree (publish, send messages, create and delete participants, create and look up children, set callbacks, "
                      "stop, start, detach, stop the root), "
#ifdef LPBT_REAL
                      "on real threads under the thread sanitizer; "
#else
                      "run by a scheduler that draws every switch, in virtual time; deadlocks are found, memory is checked; "
#endif
                      "oracle: stamped histories (who must, may, must not receive, order, callback in use, delay, registry); "
                      "non-trivial: more than one delivery, with overlapping publications or changes of participants";

  //            pub msg  cS dS cP dP cC gC set sl stC det con stR
  Mix mB06() { return {10, 5, 4, 4, 4, 2, 4, 3, 2, 3, 1, 1, 1, 0}; }
  Mix mB03() { return {12, 2, 6, 10, 4, 6, 0, 0, 6, 2, 0, 0, 3, 0}; }
  Mix mB04() { return {12, 3, 3, 1, 2, 1, 3, 1, 1, 3, 8, 4, 0, 2}; }

  Mix mB05() { return {4, 1, 2, 1, 1, 1, 14, 8, 0, 2, 1, 0, 0, 0}; }
  Mix mB01() { return {16, 8, 2, 1, 2, 1, 3, 0, 0, 3, 0, 0, 0, 0}; }
  Mix mB02() { return {20, 8, 1, 0, 1, 0, 1, 0, 0, 4, 0, 0, 0, 0}; }

  void b05(Case& c) { World(c, mB05()).run(); }
  void b01(Case& c) { World(c, mB01()).run(); }
  void b02(Case& c) { World(c, mB02()).run(); }
  void b06(Case& c) { World(c, mB06()).run(); }
  void b03(Case& c) { World(c, mB03()).run(); }
  void b04(Case& c) { World(c, mB04()).run(); }

#ifdef LPBT_REAL
  PBT_PROP({"B06.races", cRule, b06, 1000, 40000, 60, pbt::RealThreads, nullptr});
#else
  PBT_PROP({"B06", cRule, b06, 24000, 1500000, 60, 0, nullptr});
  PBT_PROP({"B01.threads", cRule, b01, 12000, 1000000, 60, 0, nullptr});
  PBT_PROP({"B02.threads", cRule, b02, 12000, 1000000, 60, 0, nullptr});
  PBT_PROP({"B05.threads", cRule, b05, 14000, 1000000, 60, 0, nullptr});
  PBT_PROP({"B03.threads", cRule, b03, 16000, 1000000, 60, 0, nullptr});
  PBT_PROP({"B04.threads", cRule, b04, 16000, 1000000, 60, 0, nullptr});
#endif
} // namespace
