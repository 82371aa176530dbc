// S01: the system information plugin, in virtual time.
#include "conc.h"

#include <gen.h>
#include <model.h>

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>

#include <lamppost/plugin/PluginTemplate.h>

#include <lamppost/plugin/PluginTemplateInfo.h>

extern "C"
{
  lp::PluginInstance* CreateInstance(lp::PluginConfiguration configuration);
  lp::PluginTemplateInfo* CreateInfo();
}

using lp::bus::Bus;
using lp::messages::Datagram;
using lp::messages::RawDatagramType;
using model::Val;
using pbt::Case;
using pbt::Src;

namespace
{
  const char* cResponse = "This is the response message.";
  const char* cAnnouncement = "Hello Bus!";

  // Collects what is logged.
  struct Log : std::streambuf
  {
    std::string text;
    std::streambuf* old;
    Log() : old(std::cout.rdbuf(this)) {}
    ~Log() { std::cout.rdbuf(old); }
    int overflow(int c) override
    {
      if(c != EOF)
      {
        text += (char)c;
      }
      return 0;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
      text.append(s, (size_t)n);
      return n;
    }
  };

  struct Step
  {
    enum Kind { Wait, Request, Async, Raw, Datagram_, Response } kind;
    double ms = 0;
    int timeout = 1000;
    lp::messages::Datagram content;
    std::string id;         // raw requests only
  };

  class World
  {
  public:
    explicit World(Case& c) : c(c), s(c.s) {}

    void run()
    {
      slow = s.chance(1, 5);
      switch(s.draw(6))
      {
        case 0: break;
        case 1: configuration["send-datagram"] = true; announces = true; break;
        case 2: configuration["send-datagram"] = false; break;
        case 3:
        {
          // Something else.
          Val v = value();
          if(v.kind != Val::Bool)
          {
            configuration["send-datagram"] = model::build(s, v);
          }
          break;
        }
        case 4: configuration["send-datagram"] = true; configuration["other"] = 1; announces = true; break;
        default:
        {
          Val v = value();
          if(v.kind == Val::Dict)
          {
            v.dict.erase("send-datagram");
          }
          configuration = model::build(s, v);
          break;
        }
      }
      {
        std::ostringstream o;
        o << configuration;
        c << "configuration " << pbt::quote(o.str(), 300) << "\n";
      }
      nested = s.flip();
      size_t nThreads = 1 + s.draw(3);
      for(size_t t = 0; t < nThreads; ++t)
      {
        steps.emplace_back();
        for(pbt::List l(s, 10, 1); l.more();)
        {
          steps.back().push_back(step(t));
        }
      }
      for(size_t i = 0; i < 4; ++i)
      {
        late.push_back(step(100));
      }
      lingers = s.pick(std::vector<double>{0, 1, 300, 2000, 4500, 7000});
      conc::run(c, slow, [this] { body(); });
      c.nontrivial();
    }

  private:
    Case& c;
    Src& s;
    bool slow = false, announces = false, nested = false;
    lp::messages::Datagram configuration;
    std::vector<std::vector<Step>> steps;
    std::vector<Step> late;
    double lingers = 0;
    std::map<std::string, int> requested, responded;
    size_t issued = 0;
    std::deque<int> asyncCalls;
    int announced = 0;
    bool deinitialised = false;
    int serial = 0;

    Val value()
    {
      size_t budget = 8;
      model::Options o;
      o.maxText = 300;
      return model::tree(s, o, 3, budget);
    }

    Step step(size_t thread)
    {
      Step x;
      x.kind = (Step::Kind)s.weighted({4, 5, 2, 4, 4, 1});
      x.ms = s.pick(std::vector<double>{1, 0, 20, 150, 1000, 2500});
      x.timeout = s.chance(1, 6) ? (int)s.draw(60) : 1500;
      Val v = value();
      if(x.kind == Step::Raw)
      {
        if(v.kind != Val::Dict || s.chance(1, 3))
        {
          v = Val::D();
        }
        if(s.chance(1, 5))
        {
          // No request at all.
          v = value();
          if(v.kind == Val::Dict)
          {
            v.dict["invocationId"] = s.flip() ? Val::T("") : Val::I(3);
          }
        }
        else
        {
          x.id = "raw-" + std::to_string(thread) + "-" + std::to_string(s.draw(4)) + (s.chance(1, 10) ? std::string(500, 'x') : "");
          v.dict["invocationId"] = Val::T(x.id);
          if(s.flip())
          {
            v.dict["request"] = value();
          }
        }
      }
      if(x.kind == Step::Response && v.kind == Val::Dict)
      {
        v.dict["invocationId"] = Val::T(s.flip() ? "" : "foreign");
      }
      x.content = model::build(s, v);
      static const char* kinds[] = {"wait", "request", "asynchronous request", "raw request", "datagram on its topic", "datagram on its response topic"};
      c << (thread == 100 ? std::string("late") : "thread " + std::to_string(thread)) << ": " << kinds[x.kind];
      if(x.kind == Step::Wait)
      {
        c << " " << x.ms;
      }
      else
      {
        c << " " << pbt::quote(model::str(v), 200) << (x.kind == Step::Request ? " within " + std::to_string(x.timeout) : "");
      }
      c << "\n";
      return x;
    }

    void perform(Bus& bus, lp::bus::ActionConsumer& consumer, lp::bus::Publisher& raw, lp::bus::Publisher& topic, lp::bus::Publisher& response, Step& x, bool served)
    {
      switch(x.kind)
      {
        case Step::Wait: conc::sleep(x.ms); break;
        case Step::Request:
        {
          ++issued;
          double t0 = conc::now();
          Datagram d = consumer.Request(x.content, x.timeout);
          double took = conc::now() - t0;
          bool good = d.GetType() == RawDatagramType::Value && d.Get<std::string>("", "") == cResponse;
          if(!good && !d.IsEmpty())
          {
            pbt::failNow("a request is answered by something else");
          }
          if(!slow && served && x.timeout > 1000 && !good)
          {
            pbt::failNow("a request is not answered within " + std::to_string(took) + " ms");
          }
          break;
        }
        case Step::Async:
        {
          ++issued;
          asyncCalls.push_back(0);
          int* n = &asyncCalls.back();
          consumer.RequestAsync(x.content, [this, n](Datagram d) {
            ++*n;
            if(d.Get<std::string>("", "") != cResponse)
            {
              pbt::failNow("an asynchronous request is answered by something else");
            }
          });
          break;
        }
        case Step::Raw:
          if(served && !x.id.empty())
          {
            ++requested[x.id];
          }
          raw.Publish(x.content);
          break;
        case Step::Datagram_: topic.Publish(x.content); break;
        case Step::Response: response.Publish(x.content); break;
      }
    }

    std::shared_ptr<lp::bus::Publisher> flusher;
    std::set<int> flushed;
    int flushes = 0;

    // Waits until all messages, those published on receiving them, and those published on receiving these have been delivered.
    void flush()
    {
      for(int i = 0; i < 3; ++i)
      {
        int n = ++flushes;
        flusher->Publish(Datagram(n));
        while(!flushed.count(n))
        {
          conc::sleep(150);
        }
      }
    }

    void body()
    {
      Log log;
      std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
      flusher = root->CreatePublisher("/flush");
      auto flushing = root->CreateSubscriber("/flush", [this](Datagram d) { flushed.insert(d.Get<int>("", 0)); });
      std::shared_ptr<Bus> parent = nested ? root->CreateChildBus("inner") : root;
      bool done = false;
      std::thread runner([&] {
        root->Start();
        done = true;
      });
      std::shared_ptr<lp::bus::Subscriber> announcements = root->CreateSubscriber("/sysinfo"), responses = root->CreateSubscriber("/sysinfoaction/response");
      announcements->SetMessageCallback([this](lp::messages::Message m) {
        if(m.GetSender().size() >= 8 && m.GetSender().substr(m.GetSender().size() - 8) == "SysInfo0")
        {
          ++announced;
          Datagram d = m.GetDatagram();
          if(d.Get<std::string>("", "") != cAnnouncement)
          {
            pbt::failNow("it announces something else");
          }
          if(!announces)
          {
            pbt::failNow("it announces itself without being configured to");
          }
          if(deinitialised)
          {
            pbt::failNow("it announces itself after having been deinitialised");
          }
        }
      });
      size_t others = 0;
      responses->SetMessageCallback([this, &others](lp::messages::Message m) {
        if(m.GetSender().size() < 8 || m.GetSender().substr(m.GetSender().size() - 8) != "SysInfo0")
        {
          return;
        }
        Datagram d = m.GetDatagram();
        std::string id = d.Get<std::string>("invocationId", "");
        if(id.empty())
        {
          pbt::failNow("it responds to nobody");
        }
        if(d.Get<std::string>("response", "") != cResponse)
        {
          pbt::failNow("it responds something else");
        }
        if(id.compare(0, 4, "raw-") == 0)
        {
          ++responded[id];
        }
        else
        {
          ++others;
        }
      });
      lp::PluginTemplateConfiguration tc("SysInfo", lp::Version(0, 1, 0, 0), [](lp::PluginConfiguration p) { return std::shared_ptr<lp::PluginInstance>(CreateInstance(p)); });
      std::unique_ptr<lp::PluginTemplate> plugin(new lp::PluginTemplate(tc));
      lp::PluginConfiguration pc;
      pc.mCustomConfiguration = configuration;
      std::shared_ptr<lp::PluginInstance> i = plugin->Instantiate(pc, parent);
      std::vector<std::shared_ptr<Bus>> places = {root, root->CreateChildBus("user")};
      i->Initialize();
      i->Start();
      double t0 = conc::now();
      std::vector<std::thread> threads;
      for(size_t t = 0; t < steps.size(); ++t)
      {
        threads.emplace_back([&, t] {
          std::shared_ptr<Bus> bus = places[t % 2];
          auto consumer = bus->CreateActionConsumer("/sysinfoaction");
          auto raw = bus->CreatePublisher("/sysinfoaction/request"), topic = bus->CreatePublisher("/sysinfo"), response = bus->CreatePublisher("/sysinfoaction/response");
          for(Step& x : steps[t])
          {
            perform(*bus, *consumer, *raw, *topic, *response, x, true);
          }
          // Responses may still come.
          flush();
        });
      }
      for(std::thread& t : threads)
      {
        t.join();
      }
      conc::sleep(lingers);
      for(int n : asyncCalls)
      {
        if(n != 1)
        {
          c.fail("an asynchronous request was answered " + std::to_string(n) + " times");
        }
      }
      for(auto& r : requested)
      {
        if(responded[r.first] != r.second)
        {
          c.fail("request " + r.first.substr(0, 20) + ", made " + std::to_string(r.second) + " times, was answered " + std::to_string(responded[r.first]) + " times");
        }
      }
      if(others != issued)
      {
        c.fail(std::to_string(issued) + " requests were answered " + std::to_string(others) + " times");
      }
      if(!slow)
      {
        int rounds = (int)((conc::now() - t0) / 2000);
        if(announces && (announced < rounds - 1 || announced > rounds + 2))
        {
          c.fail("it announced itself " + std::to_string(announced) + " times in " + std::to_string(conc::now() - t0) + " ms");
        }
      }
      for(auto& r : responded)
      {
        if(r.second > requested[r.first])
        {
          c.fail("request " + r.first.substr(0, 20) + ", made " + std::to_string(requested[r.first]) + " times, was answered " + std::to_string(r.second) + " times");
        }
      }
      // The end of it.
      bool early = s.flip();
      if(s.flip())
      {
        // Something may be under way.
        auto topic = places[1]->CreatePublisher("/sysinfo");
        topic->Publish(Datagram(std::string("last words")));
      }
      if(early)
      {
        i->Stop();
      }
      i.reset();
      plugin->Unload();
      // What it has published until here.
      flush();
      deinitialised = true;
      log.text.clear();
      {
        auto consumer = places[0]->CreateActionConsumer("/sysinfoaction");
        auto raw = places[0]->CreatePublisher("/sysinfoaction/request"), topic = places[0]->CreatePublisher("/sysinfo"), response = places[0]->CreatePublisher("/sysinfoaction/response");
        topic->Publish(Datagram(std::string("nobody there?")));
        for(Step& x : late)
        {
          perform(*places[0], *consumer, *raw, *topic, *response, x, false);
        }
        flush();
      }
      if(log.text.find("Got it") != std::string::npos)
      {
        c.fail("it reacts to its topic after having been deinitialised");
      }
      while(!done)
      {
        root->Stop();
        conc::sleep(200);
      }
      runner.join();
      flusher.reset();
    }
  };

  void s01(Case& c) { World(c).run(); }

  void once()
  {
    std::unique_ptr<lp::PluginTemplateInfo> info(CreateInfo());
    if(info->mIdentifier != "SysInfo")
    {
      pbt::failNow("the plugin is called " + info->mIdentifier);
    }
  }

  PBT_PROP({"S01",
            "the plugin with any configuration on a running bus; up to three threads make up to ten requests each of any content (waiting, asynchronous, raw, malformed) and publish any datagrams on its topics, "
            "with pauses, then some more after its end; run by a scheduler that draws every switch, in virtual time; oracle: one fixed response per request, announcements every two seconds exactly if "
            "configured, no reaction after the end; non-trivial: all",
            s01, 7000, 600000, 60, 0, once});
} // namespace
