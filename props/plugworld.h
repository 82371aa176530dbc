// Plugin instances that do what a case decides, and a journal of what is done to them.
#ifndef LPBT_PLUGWORLD_H
#define LPBT_PLUGWORLD_H

#include "conc.h"

#include <gen.h>
#include <model.h>

#include <algorithm>
#include <exception>
#include <map>
#include <memory>

#include <lamppost/plugin/PluginInstance.h>
#include <lamppost/plugin/PluginTemplateInfo.h>

namespace plug
{
  struct Behaviour
  {
    bool failCreate = false, nullCreate = false;
    bool initThrows = false;
    double initMs = 0, runMs = -1, lingerMs = 0, deinitMs = 0, createMs = 0;
    double period = 20;
    bool publishes = false;
    bool freshNames = true;
    std::string text() const
    {
      std::ostringstream o;
      o << (failCreate ? " factory throws" : "") << (nullCreate ? " factory yields null" : "") << (initThrows ? " initialising throws" : "") << " create " << createMs << " init " << initMs
        << " run " << runMs << " linger " << lingerMs << " deinit " << deinitMs << " period " << period << (publishes ? " publishes" : "");
      return o.str();
    }
  };

  struct Record
  {
    int serial = 0, slot = -1;
    std::string identifier;
    Behaviour b;
    lp::messages::Datagram configuration;
    std::shared_ptr<lp::bus::Bus> bus;
    std::thread::id worker;
    // Counted by the instance.
    int inits = 0, initsDone = 0, runs = 0, runsDone = 0, deinits = 0, deinitsDone = 0, destroyed = 0;
    int published = 0;
    // Counted by whoever controls it.
    int starts = 0;
    bool told = false;          // told to stop
    bool mayDeinit = false;
  };

  struct World
  {
    std::vector<std::unique_ptr<Record>> records;
    std::vector<std::pair<char, int>> events;
    std::function<Behaviour(int, const std::string&, lp::messages::Datagram&)> choose;
    std::function<void(char, Record&)> onEvent;
    std::map<int, std::string> identifiers;     // by slot
    std::map<int, bool> nullInfo;
    int infos = 0;

    void event(char k, Record& r)
    {
      events.push_back({k, r.serial});
      if(onEvent)
      {
        onEvent(k, r);
      }
    }
  };

  inline World*& world()
  {
    static World* w = nullptr;
    return w;
  }

  inline void bad(const Record& r, const std::string& what)
  {
    if(std::uncaught_exception())
    {
      // A failure is being reported already, and all is taken down.
      return;
    }
    pbt::failNow("instance " + std::to_string(r.serial) + " (" + r.identifier + ", " + r.b.text() + "): " + what);
  }

  class Instance : public lp::PluginInstance
  {
  public:
    Instance(lp::PluginConfiguration configuration, Record& r) : PluginInstance(configuration), r(r)
    {
      r.identifier = GetIdentifier();
      r.bus = GetBus();
      r.configuration = GetCustomConfiguration();
    }

    ~Instance() override
    {
      ++r.destroyed;
      if(r.runs != r.runsDone)
      {
        bad(r, "is destroyed while its worker runs");
      }
      world()->event('X', r);
    }

    void Initialize() override
    {
      alive("initialised");
      ++r.inits;
      world()->event('I', r);
      pause(r.b.initMs);
      if(r.b.initThrows)
      {
        throw std::runtime_error("this instance cannot be initialised");
      }
      if(r.b.publishes)
      {
        publisher = GetPublisher("/from/" + GetIdentifier());
      }
      ++r.initsDone;
      world()->event('i', r);
    }

    void Run() override
    {
      alive("run");
      if(r.runs != r.runsDone)
      {
        bad(r, "runs twice at the same time");
      }
      ++r.runs;
      if(r.runs > r.starts)
      {
        bad(r, "runs " + std::to_string(r.runs) + " times after being started " + std::to_string(r.starts) + " times");
      }
      r.worker = std::this_thread::get_id();
      world()->event('R', r);
      double t0 = conc::now();
      int rounds = 0;
      while(mShouldRun && (r.b.runMs < 0 || conc::now() - t0 < r.b.runMs))
      {
        if(publisher != nullptr)
        {
          publisher->Publish(lp::messages::Datagram(std::string(std::to_string(r.published++))));
        }
        // Workers calm down after a while.
        double period = ++rounds > 40 ? 500 : r.b.period;
        Sleep(std::chrono::microseconds((long)(1000 * (r.b.runMs < 0 ? period : std::min(period, r.b.runMs)))));
      }
      if(!mShouldRun && !r.told)
      {
        bad(r, "its worker is told to stop although nobody stopped it");
      }
      if(!mShouldRun)
      {
        pause(r.b.lingerMs);
      }
      alive("still running");
      ++r.runsDone;
      world()->event('r', r);
    }

    void Deinitialize() override
    {
      if(r.runs != r.runsDone)
      {
        bad(r, "is deinitialised while its worker runs");
      }
      if(!r.mayDeinit)
      {
        bad(r, "is deinitialised although it is not being unloaded");
      }
      if(++r.deinits > 1)
      {
        bad(r, "is deinitialised again");
      }
      if(r.runs != r.starts)
      {
        bad(r, "is deinitialised before its worker ran");
      }
      world()->event('D', r);
      pause(r.b.deinitMs);
      if(publisher != nullptr)
      {
        DeletePublisher(publisher);
        publisher = nullptr;
      }
      ++r.deinitsDone;
      world()->event('d', r);
    }

  private:
    void alive(const char* what)
    {
      if(r.deinits > 0)
      {
        bad(r, std::string("is ") + what + " after having been deinitialised");
      }
    }
    void pause(double ms)
    {
      if(ms > 0)
      {
        conc::sleep(ms);
      }
    }

    Record& r;
    std::shared_ptr<lp::bus::Publisher> publisher;
  };

  inline lp::PluginInstance* create(int slot, lp::PluginConfiguration configuration)
  {
    World& w = *world();
    Behaviour b = w.choose(slot, configuration.mIdentifier, configuration.mCustomConfiguration);
    if(b.createMs > 0)
    {
      conc::sleep(b.createMs);
    }
    if(b.nullCreate)
    {
      return nullptr;
    }
    if(b.failCreate)
    {
      throw std::runtime_error("this instance cannot be created");
    }
    std::unique_ptr<Record> r(new Record);
    r->serial = (int)w.records.size();
    r->slot = slot;
    r->b = b;
    Record& ref = *r;
    w.records.push_back(std::move(r));
    Instance* i = new Instance(configuration, ref);
    w.event('C', ref);
    return i;
  }

  inline Behaviour behaviour(pbt::Src& s)
  {
    static const std::vector<double> times = {0, 1, 30, 150, 700, 3000};
    Behaviour b;
    b.createMs = s.chance(1, 6) ? s.pick(times) : 0;
    b.initMs = s.chance(1, 3) ? s.pick(times) : 0;
    b.deinitMs = s.chance(1, 4) ? s.pick(times) : 0;
    b.lingerMs = s.chance(1, 3) ? s.pick(times) : 0;
    b.runMs = s.chance(1, 3) ? s.pick(times) : -1;
    b.period = s.pick(std::vector<double>{20, 1, 5, 100, 500});
    b.publishes = s.chance(1, 3);
    return b;
  }
} // namespace plug

#endif
