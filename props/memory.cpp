// R02: whatever is made, used and discarded leaves no memory behind.
//
// A script is generated once and then performed several times; the bytes in use after each round are
// compared.  What is made once per process on first use is made before, or shows up in one round only.
#include "conc.h"

#include <gen.h>
#include <model.h>

#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>

#include <deque>
#include <fstream>
#include <iostream>
#include <set>

#include <lamppost/Filesystem.h>
#include <lamppost/LampPost.h>
#include <lamppost/bus/Bus.h>
#include <lamppost/data/RawBytes.h>
#include <lamppost/log/Log.h>
#include <lamppost/plugin/PluginManager.h>
#include <lamppost/plugin/PluginTemplate.h>
#include <lamppost/settings/SettingsManager.h>
#include <lamppost/utilities/Uuid.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace
{
  using lp::bus::ActionConsumer;
  using lp::bus::ActionProvider;
  using lp::bus::Bus;
  using lp::bus::Publisher;
  using lp::bus::Subscriber;
  using lp::data::RawBytes;
  using lp::messages::Datagram;
  using lp::messages::Message;
  using lp::messages::RawDatagramType;
  using model::Val;
  using pbt::Case;
  using pbt::quote;
  using pbt::Src;

  const size_t cRounds = 7;

  // Growth in several rounds, and never less again.
  struct Meter
  {
    std::vector<size_t> bytes;
    Meter() { bytes.reserve(32); }
    void take() { bytes.push_back(__sanitizer_get_current_allocated_bytes()); }
    void judge(Case& c, size_t least)
    {
      size_t grew = 0, shrank = 0;
      for(size_t i = 2; i < bytes.size(); ++i)
      {
        grew += bytes[i] > bytes[i - 1];
        shrank += bytes[i] < bytes[i - 1];
      }
      if(grew >= least && shrank == 0)
      {
        std::ostringstream o;
        o << "memory in use grows:";
        for(size_t b : bytes)
        {
          o << " " << b - bytes[0];
        }
        c.fail(o.str() + " bytes since the end of the first of equal rounds");
      }
    }
  };

  struct Null : std::streambuf
  {
    int overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
  };

  std::string smallText(Src& s) { return gen::bytes(s, s.chance(1, 5) ? gen::length(s, 5000) : s.draw(40)); }

  Val value(Src& s, size_t budget = 300)
  {
    model::Options o;
    o.opaque = true;
    o.maxText = 3000;
    o.budget = 30;
    return model::any(s, o, budget, budget / 5);
  }

  std::string json(Src& s, const Val& v)
  {
    switch(v.kind)
    {
      case Val::Int: return std::to_string(v.integer);
      case Val::Real: return s.flip() ? "1.5e3" : "99999999999";
      case Val::Bool: return v.boolean ? "true" : "false";
      case Val::Text: return s.flip() ? "\"some text\"" : "\"a rather longer text with \\u00e4 and \\n\"";
      case Val::List:
      {
        std::string r = "[";
        for(const Val& e : v.list)
        {
          r += (r.size() > 1 ? "," : "") + json(s, e);
        }
        return r + "]";
      }
      case Val::Dict:
      {
        std::string r = "{";
        size_t k = 0;
        for(auto& e : v.dict)
        {
          r += (r.size() > 1 ? ",\"" : "\"") + std::string(k % 3 ? "key" : "a key that needs memory") + std::to_string(k / 2) + "\": " + json(s, e.second);
          ++k;
        }
        return r + "}";
      }
      default: return "null";
    }
  }

  // ---------------------------------------------------------------------------------------------

  struct Step
  {
    unsigned kind;
    size_t a, b, n;
    std::string text;
    Val v;
  };

  class Values
  {
  public:
    explicit Values(Case& c) : c(c), s(c.s) {}

    void run()
    {
      for(pbt::List l(s, 30, 1); l.more();)
      {
        Step x;
        x.kind = (unsigned)s.draw(22);
        x.a = s.draw(3);
        x.b = s.draw(3);
        x.n = s.draw(5);
        if(x.kind == 0 || x.kind == 8)
        {
          x.v = value(s);
        }
        if(x.kind == 8)
        {
          x.text = json(s, x.v);
          switch(s.draw(4))
          {
            case 0: break;
            case 1: x.text = x.text.substr(0, s.draw(x.text.size() + 1)); break;
            case 2: x.text[s.draw(x.text.size())] = (char)s.draw(256); break;
            default: x.text += gen::bytes(s, s.draw(4)); break;
          }
        }
        else
        {
          x.text = s.flip() ? s.pick(std::vector<std::string>{"a", "b", "a/b", "", "some longer key of a dictionary"}) : smallText(s);
        }
        c << "step " << x.kind << " " << x.a << " " << x.b << " " << x.n << " " << quote(x.text) << " " << (x.kind == 0 || x.kind == 8 ? model::str(x.v) : "") << "\n";
        steps.push_back(std::move(x));
      }
      Meter meter;
      size_t refusedBefore = 0;
      for(size_t round = 0; round < cRounds; ++round)
      {
        refusedBefore = refused;
        perform();
        meter.take();
      }
      meter.judge(c, 3);
      if(steps.size() > 1)
      {
        c.nontrivial();
      }
      if(refused > refusedBefore)
      {
        c.label("with refused operations");
      }
    }

  private:
    Case& c;
    Src& s;
    std::vector<Step> steps;
    size_t refused = 0;

    void perform()
    {
      Datagram r[3];
      std::deque<Message> messages;
      RawBytes bytes;
      for(const Step& x : steps)
      {
        Datagram &a = r[x.a], &b = r[x.b];
        try
        {
          switch(x.kind)
          {
            case 0: a = Datagram(model::raw(x.v)); break;
            case 1: a = b; break;
            case 2: a[x.text] = b; break;
            case 3: a.Add(std::make_shared<lp::messages::RawDatagram>(x.text)); break;
            case 4: x.n % 2 ? a.Remove(x.text) : a.Remove((unsigned)x.n); break;
            case 5: a.Clear(); break;
            case 6:
            {
              Message m(x.text, x.text, b);
              m.PrependSender("relay");
              Message n = Message::Deserialize(m.SerializeToBytes());
              n.RemoveSender("relay");
              messages.push_back(n);
              a = n.GetDatagram();
              break;
            }
            case 7:
            {
              auto p = Message(x.text, x.text, b).SerializeToBytes();
              std::string raw((const char*)p->GetContent(), p->GetSize());
              size_t h = std::hash<std::string>()(x.text);
              for(size_t i = 0; i <= x.n; ++i)
              {
                raw[(h + i * 7919) % raw.size()] = (char)(h >> (8 * i % 56));
              }
              if(x.n == 4)
              {
                raw.resize(h % raw.size());
              }
              auto q = std::make_shared<RawBytes>();
              q->Append(raw.data(), raw.size());
              a = Message::Deserialize(q).GetDatagram();
              break;
            }
            case 8: a = Datagram::DeserializeFromJson(x.text); break;
            case 9:
            {
              std::ostringstream o;
              o << a;
              break;
            }
            case 10: a.Get<std::string>(x.text, ""); a.Get<int>(x.text, 3); a.Get<Datagram>(x.text, b); break;
            case 11: a = x.text; break;
            case 12: (void)(std::string)a; break;
            case 13: a.Get<int>("", 1); break;
            case 14: a[x.text].Get<double>("", 1.0); break;
            case 15: a[(unsigned)x.n] = b; break;
            case 16: a[x.text][x.text] = 1; break;
            case 17:
            {
              RawBytes copy(bytes);
              copy.Append(x.text.data(), x.text.size());
              bytes = copy;
              break;
            }
            case 18:
            {
              std::string id = (std::string)lp::utilities::Uuid::CreateUuid();
              a = id;
              break;
            }
            case 19:
            {
              lp::Filesystem::GetDirectoryContents(x.n % 2 ? "/proc/self" : x.text, (lp::FilesystemObjectType)(1 + x.n % 3));
              lp::Filesystem::GetFileExtension(x.text);
              break;
            }
            case 20:
            {
              lp::settings::SettingsManager m;
              m.AddPluginTemplateSearchPath(x.text);
              m.GetPluginTemplateSearchPaths();
              break;
            }
            default: (void)(a == b); break;
          }
        }
        catch(std::exception&)
        {
          ++refused;
        }
      }
    }
  };

  // ---------------------------------------------------------------------------------------------

  struct Act
  {
    unsigned kind;
    size_t a, b;
    int ms;
    Datagram d;
    std::string topic;
  };

  class Busses
  {
  public:
    Busses(Case& c, bool live) : c(c), s(c.s), live(live) {}

    void run()
    {
      static const std::vector<std::string> topics = {"/a", "/b", "/**/*", "/act", "/act/request", "/act/response", "/a topic with a longer name than others have"};
      background = s.flip();
      nKids = s.draw(4);
      answers = (unsigned)s.draw(5);
      for(pbt::List l(s, 30, 1); l.more();)
      {
        Act x;
        x.kind = (unsigned)s.draw(live ? 9 : 17);
        x.a = s.draw(6);
        x.b = s.draw(6);
        x.ms = (int)s.pick(std::vector<int>{0, 1, 50, 300, 1000});
        x.topic = s.pick(topics);
        Val v = value(s, 20);
        x.d = Datagram(model::raw(v));
        c << "act " << x.kind << " " << x.a << " " << x.b << " " << x.ms << " " << x.topic << "\n";
        acts.push_back(std::move(x));
      }
      Meter meter;
      if(live)
      {
        conc::run(c, false, [&] {
          World w;
          set(w);
          size_t rounds = cRounds + 3;
          for(size_t round = 0; round < rounds; ++round)
          {
            perform(w);
            settle(w);
            meter.take();
          }
          end(w);
        }, 400000000);
        // The queue of a bus keeps some room for the next messages, in blocks.
        meter.judge(c, 6);
      }
      else
      {
        for(size_t round = 0; round < cRounds; ++round)
        {
          conc::run(c, false, [&] {
            World w;
            set(w);
            perform(w);
            end(w);
          }, 100000000);
          meter.take();
        }
        meter.judge(c, 3);
      }
      if(acts.size() > 1)
      {
        c.nontrivial();
      }
    }

  private:
    Case& c;
    Src& s;
    bool live, background = false;
    size_t nKids = 0;
    unsigned answers = 0;
    std::vector<Act> acts;

    struct World
    {
      std::shared_ptr<Bus> root;
      std::vector<std::shared_ptr<Bus>> busses;
      std::deque<std::shared_ptr<Subscriber>> subs;
      std::deque<std::shared_ptr<Publisher>> pubs;
      std::vector<std::shared_ptr<ActionConsumer>> consumers;
      std::vector<std::shared_ptr<ActionProvider>> providers;
      std::shared_ptr<Publisher> flush;
      std::shared_ptr<Subscriber> flushed;
      std::vector<std::pair<std::shared_ptr<ActionProvider>, std::string>> late;
      size_t seen = 0, flushes = 0, flushesSeen = 0;
      bool done = false;
      std::thread runner;
    };

    void addProvider(World& w, size_t bus)
    {
      World* p = &w;
      unsigned how = answers;
      w.providers.push_back(w.busses[bus % w.busses.size()]->CreateActionProvider(
        "/act", std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([p, how](std::shared_ptr<ActionProvider> provider, std::string id, Datagram request) {
          switch(how)
          {
            case 0: provider->Respond(id, request); break;
            case 1: break;
            case 2: provider->Respond(id, request); provider->Respond(id, Datagram(1)); break;
            case 3: p->late.push_back({provider, id}); break;
            default: provider->Respond("someone else", request); break;
          }
        })));
    }

    void set(World& w)
    {
      w.root = std::make_shared<Bus>("root");
      w.busses = {w.root};
      for(size_t k = 0; k < nKids; ++k)
      {
        w.busses.push_back(w.busses[k / 2]->CreateChildBus("child " + std::to_string(k)));
      }
      World* p = &w;
      w.flushed = w.root->CreateSubscriber("\x01", lp::bus::DatagramCallbackType([p](Datagram) { ++p->flushesSeen; }));
      w.flush = w.root->CreatePublisher("\x01");
      if(live)
      {
        for(size_t i = 0; i < 2; ++i)
        {
          w.consumers.push_back(w.busses[i % w.busses.size()]->CreateActionConsumer("/act"));
        }
        addProvider(w, 1);
      }
      if(background || live)
      {
        w.runner = std::thread([p] {
          p->root->Start();
          p->done = true;
        });
      }
    }

    void settle(World& w)
    {
      // What is answered late is answered now.
      for(int k = 0; k < 3; ++k)
      {
        w.flush->Publish(Datagram(1));
        ++w.flushes;
        for(int i = 0; i < 100 && w.flushesSeen < w.flushes; ++i)
        {
          conc::sleep(50);
        }
        auto late = std::move(w.late);
        w.late.clear();
        for(auto& l : late)
        {
          l.first->Respond(l.second, Datagram(std::string("late")));
        }
      }
      while(!w.subs.empty())
      {
        w.busses[0]->DeleteSubscriber(w.subs.front());
        w.subs.pop_front();
      }
      while(!w.pubs.empty())
      {
        w.busses[0]->DeletePublisher(w.pubs.front());
        w.pubs.pop_front();
      }
    }

    void end(World& w)
    {
      while(w.runner.joinable() && !w.done)
      {
        w.root->Stop();
        conc::sleep(200);
      }
      if(w.runner.joinable())
      {
        w.runner.join();
      }
    }

    void perform(World& w)
    {
      World* p = &w;
      for(Act& x : acts)
      {
        Bus& bus = *w.busses[live ? 0 : x.a % w.busses.size()];
        try
        {
          switch(x.kind)
          {
            case 0:
              w.pubs.push_back(bus.CreatePublisher(x.topic));
              break;
            case 1:
              w.subs.push_back(bus.CreateSubscriber(x.topic));
              x.b % 2 ? w.subs.back()->SetMessageCallback([p](Message) { ++p->seen; }) : w.subs.back()->SetDatagramCallback([p](Datagram) { ++p->seen; });
              break;
            case 2:
              if(!w.pubs.empty())
              {
                w.pubs[x.b % w.pubs.size()]->Publish(x.d);
              }
              break;
            case 3: bus.Publish(Message("me", x.topic, x.d)); break;
            case 4:
              if(!w.subs.empty())
              {
                w.busses[0]->DeleteSubscriber(w.subs.back());
                w.subs.pop_back();
              }
              break;
            case 5:
              if(!w.pubs.empty())
              {
                w.busses[0]->DeletePublisher(w.pubs.back());
                w.pubs.pop_back();
              }
              break;
            case 6:
              if(!w.consumers.empty() && w.runner.joinable())
              {
                w.consumers[x.b % w.consumers.size()]->Request(x.d, x.ms);
              }
              break;
            case 7:
              if(!w.consumers.empty() && (!live || answers % 2 == 0) && answers != 4)
              {
                w.consumers[x.b % w.consumers.size()]->RequestAsync(x.d, [p](Datagram) { ++p->seen; });
              }
              break;
            case 8: conc::sleep(x.ms); break;
            case 9: w.consumers.push_back(bus.CreateActionConsumer(x.b % 2 ? "/act" : x.topic)); break;
            case 10: addProvider(w, x.a); break;
            case 11: w.busses.push_back(bus.CreateChildBus(x.topic)); break;
            case 12: bus.GetChildBus(x.topic); break;
            case 13: bus.Detach(); break;
            case 14: bus.Stop(); break;
            case 15:
              if(w.busses.size() > 1)
              {
                // May be kept by its parent.
                w.busses.pop_back();
              }
              break;
            default:
              if(!w.late.empty())
              {
                w.late.back().first->Respond(w.late.back().second, x.d);
              }
              break;
          }
        }
        catch(std::exception&)
        {
        }
      }
    }
  };

  // ---------------------------------------------------------------------------------------------

  struct Behaviour
  {
    bool failCreate = false, nullCreate = false, initThrows = false, publishes = false, started = false, ends = false;
    unsigned size = 0;
  };

  struct Plugged
  {
    std::vector<Behaviour> behaviours;
    size_t made = 0;
    std::string identifiers[2];
  };

  Plugged* sPlugged = nullptr;

  class Instance : public lp::PluginInstance
  {
  public:
    Instance(lp::PluginConfiguration configuration, const Behaviour& b) : PluginInstance(configuration), b(b), own(b.size, 'x') {}
    void Initialize() override
    {
      if(b.publishes)
      {
        publisher = GetPublisher("/from/" + GetIdentifier());
        subscriber = GetSubscriber("/**/*", [this](Datagram d) { last = d; });
      }
      if(b.initThrows)
      {
        throw std::runtime_error("this instance cannot be initialised");
      }
    }
    void Run() override
    {
      while(mShouldRun && !b.ends)
      {
        if(publisher != nullptr)
        {
          publisher->Publish(Datagram(GetCustomConfiguration()));
        }
        Sleep(std::chrono::milliseconds(700));
      }
    }
    void Deinitialize() override
    {
      if(publisher != nullptr)
      {
        DeletePublisher(publisher);
        DeleteSubscriber(subscriber);
        publisher = nullptr;
        subscriber = nullptr;
      }
    }

  private:
    Behaviour b;
    std::string own;
    Datagram last;
    std::shared_ptr<Publisher> publisher;
    std::shared_ptr<Subscriber> subscriber;
  };
} // namespace

extern "C"
{
  lp::PluginTemplateInfo* lpbt_info(int slot)
  {
    if(slot > 1)
    {
      return nullptr;
    }
    lp::PluginTemplateInfo* i = new lp::PluginTemplateInfo;
    i->mIdentifier = sPlugged->identifiers[slot];
    return i;
  }
  lp::PluginInstance* lpbt_instance(int, lp::PluginConfiguration* configuration)
  {
    const Behaviour& b = sPlugged->behaviours[sPlugged->made++ % sPlugged->behaviours.size()];
    if(b.failCreate)
    {
      throw std::runtime_error("this instance cannot be created");
    }
    return b.nullCreate ? nullptr : new Instance(*configuration, b);
  }
}

namespace
{
  std::string readFile(const std::string& path)
  {
    std::ifstream f(path, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  }

  std::string sDirectory;
  std::vector<std::string> sLibraries;

  class Plugins
  {
  public:
    explicit Plugins(Case& c) : c(c), s(c.s) {}

    void run()
    {
      std::ostringstream file;
      file << "{\"plugins\": [";
      size_t nEntries = s.draw(5);
      for(size_t i = 0; i < nEntries; ++i)
      {
        static const std::vector<std::string> entries = {
          "{\"type\": \"Good\", \"configuration\": {\"some key\": [1, 2, \"three\"]}}", "{\"type\": \"Good\"}", "{\"type\": \"Unknown\"}", "17", "{\"type\": 3}", "{\"type\": \"Good\", \"configuration\": null}", "{\"type\": \"Other\"}"};
        file << (i ? ", " : "") << s.pick(entries);
      }
      file << (s.chance(1, 6) ? "" : "]}");
      application = s.flip();
      nInstances = s.draw(5);
      other = (unsigned)s.draw(3);
      c << (application ? "application, " : "plugin manager, ") << "file " << file.str() << " instances " << nInstances << " other plugin " << other << "\n";
      for(int i = 0; i < 5; ++i)
      {
        Behaviour b;
        b.failCreate = s.chance(1, 8);
        b.nullCreate = s.chance(1, 8);
        b.initThrows = s.chance(1, 8);
        b.publishes = s.flip();
        b.started = s.flip();
        b.ends = s.chance(1, 4);
        b.size = (unsigned)s.draw(3) * 100;
        c << "instance " << i << ":" << (b.failCreate ? " throws" : "") << (b.nullCreate ? " null" : "") << (b.initThrows ? " cannot be initialised" : "") << (b.publishes ? " publishes" : "")
          << (b.started ? " started" : "") << (b.ends ? " ends" : "") << "\n";
        behaviours.push_back(b);
      }
      after = s.pick(std::vector<double>{0, 100, 3000});
      std::ofstream(sDirectory + "/c.json") << file.str();
      Meter meter;
      for(size_t round = 0; round < cRounds; ++round)
      {
        {
          Null null;
          std::streambuf* previous = std::cout.rdbuf(&null);
          Plugged p;
          p.behaviours = behaviours;
          p.identifiers[0] = "Good";
          p.identifiers[1] = other == 0 ? "Other" : other == 1 ? "" : "Good";
          sPlugged = &p;
          conc::run(c, false, [&] { application ? app() : manager(); });
          sPlugged = nullptr;
          std::cout.rdbuf(previous);
        }
        meter.take();
        for(std::string& n : sLibraries)
        {
          if(void* h = dlopen((sDirectory + "/" + n).c_str(), RTLD_NOLOAD | RTLD_LAZY))
          {
            dlclose(h);
            c.fail("the library " + n + " is still loaded after everything has been discarded");
          }
        }
      }
      meter.judge(c, 3);
      if(application ? nEntries > 0 : nInstances > 0)
      {
        c.nontrivial();
      }
    }

  private:
    Case& c;
    Src& s;
    bool application = false;
    size_t nInstances = 0;
    unsigned other = 0;
    double after = 0;
    std::vector<Behaviour> behaviours;

    lp::PluginManagerConfiguration configuration(std::shared_ptr<Bus> bus) { return lp::PluginManagerConfiguration({sDirectory, sDirectory + "/missing"}, bus); }

    void app()
    {
      bool done = false;
      lp::LampPostConfiguration lc(configuration(nullptr), {sDirectory + "/c.json", sDirectory + "/missing.json"});
      auto lamp = std::make_shared<lp::LampPost>(lc);
      std::thread stopper([&] {
        conc::sleep(after);
        while(!done)
        {
          lamp->Stop();
          conc::sleep(200);
        }
      });
      lamp->Start();
      done = true;
      stopper.join();
    }

    void manager()
    {
      auto bus = std::make_shared<Bus>("root");
      bool done = false;
      std::thread runner([&] {
        bus->Start();
        done = true;
      });
      {
        lp::PluginManager m(configuration(bus));
        m.LoadTemplates();
        for(size_t i = 0; i < nInstances; ++i)
        {
          try
          {
            lp::PluginConfiguration pc;
            pc.mCustomConfiguration["number"] = (int)i;
            auto instance = m.InstantiateTemplate(i % 3 == 2 ? "Other" : "Good", pc);
            if(instance != nullptr)
            {
              instance->Initialize();
              if(behaviours[i % behaviours.size()].started)
              {
                instance->Start();
              }
            }
          }
          catch(std::exception&)
          {
          }
        }
        conc::sleep(after);
        if(nInstances % 2)
        {
          m.UnloadTemplates();
        }
      }
      while(!done)
      {
        bus->Stop();
        conc::sleep(200);
      }
      runner.join();
    }
  };

  void once()
  {
    sDirectory = Case::scratch() + "/memory";
    mkdir(sDirectory.c_str(), 0755);
    for(std::string n : {"t0", "t1", "t2", "noinfo", "noinstance"})
    {
      std::string up = n;
      for(char& ch : up)
      {
        ch = (char)toupper(ch);
      }
      const char* from = getenv(("LPBT_PLUGIN_" + up).c_str());
      if(from == nullptr)
      {
        pbt::failNow("no test plugins");
      }
      sLibraries.push_back("libplugin_" + n + ".so");
      std::ofstream(sDirectory + "/libplugin_" + n + ".so", std::ios::binary) << readFile(from);
    }
    std::ofstream(sDirectory + "/libplugin_garbage.so") << "garbage";
    model::keyPool();
    Src warm;
    warm.InitRandom(1);
    for(int i = 0; i < 300; ++i)
    {
      value(warm);
      smallText(warm);
    }
  }

  void values(Case& c) { Values(c).run(); }
  void busses(Case& c) { Busses(c, false).run(); }
  void live(Case& c) { Busses(c, true).run(); }
  void plugins(Case& c) { Plugins(c).run(); }

  const std::string cOracle = "; performed 7 times or more (threads by a scheduler that draws every switch); oracle: the allocated bytes do not keep growing from round to round";
  const std::string cValues = "scripts of up to 30 operations on datagrams, messages, buffers, documents (whole, cut off, broken), identifiers, settings, including refused ones" + cOracle + "; non-trivial: more than one operation";
  const std::string cBusses = "scripts of up to 30 operations on a new bus tree, running or not: participants, messages, requests answered in several ways or not, children, detaching; everything is discarded with messages, requests and answers "
                              "still pending" + cOracle + "; non-trivial: more than one operation";
  const std::string cLive = "the same on a bus tree that goes on running, with participants deleted and requests answered or timed out" + cOracle + "; non-trivial: more than one operation";
  const std::string cPlugins = "plugin libraries, usable or not, loaded, instantiated (also in vain), started and unloaded by a plugin manager or a whole application with a configuration file" + cOracle + "; non-trivial: any instances asked for";

  PBT_PROP({"R02", cValues.c_str(), values, 12000, 1000000, 60, 0, once});
  PBT_PROP({"R02.busses", cBusses.c_str(), busses, 6000, 500000, 60, 0, once});
  PBT_PROP({"R02.live", cLive.c_str(), live, 2000, 300000, 60, 0, once});
  PBT_PROP({"R02.plugins", cPlugins.c_str(), plugins, 1500, 100000, 60, 0, once});
} // namespace
