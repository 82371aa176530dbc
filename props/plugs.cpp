// P01, P02, L01, L02: plugins and the application around them, in virtual time.
#include "plugworld.h"

#include <cmath>
#include <cstdlib>
#include <deque>
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

#include <lamppost/LampPost.h>
#include <lamppost/plugin/PluginManager.h>
#include <lamppost/plugin/PluginTemplate.h>

using lp::bus::Bus;
using lp::messages::Datagram;
using model::Val;
using pbt::Case;
using pbt::Src;
using plug::Behaviour;
using plug::Record;

extern "C"
{
  lp::PluginTemplateInfo* lpbt_info(int slot)
  {
    plug::World& w = *plug::world();
    ++w.infos;
    if(w.nullInfo[slot])
    {
      return nullptr;
    }
    lp::PluginTemplateInfo* i = new lp::PluginTemplateInfo;
    i->mIdentifier = w.identifiers[slot];
    return i;
  }
  lp::PluginInstance* lpbt_instance(int slot, lp::PluginConfiguration* configuration) { return plug::create(slot, *configuration); }
}

namespace
{
  // Log lines are not of interest here.
  struct Quiet
  {
    struct Null : std::streambuf
    {
      int overflow(int c) override { return c == EOF ? 0 : c; }
      std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
    } null;
    std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(&null)) {}
    ~Quiet() { std::cout.rdbuf(old); }
  };

  struct InWorld
  {
    plug::World w;
    Quiet q;
    InWorld() { plug::world() = &w; }
    ~InWorld() { plug::world() = nullptr; }
  };

  const std::vector<std::string>& names()
  {
    static const std::vector<std::string> n = {"Alpha", "Beta", "Gamma delta", "x", "Pl/ug", "\xc3\xa4\xc3\xb6"};
    return n;
  }

  void once();

  // ---------------------------------------------------------------------------------------------
  // P01

  class Life
  {
  public:
    explicit Life(Case& c) : c(c), s(c.s) {}

    void run()
    {
      InWorld in;
      w = &in.w;
      slow = s.chance(1, 4);
      conc::run(c, slow, [this] { body(); });
      if(w->records.size() > 0 && started > 0)
      {
        c.nontrivial();
      }
    }

  private:
    struct Template
    {
      std::string name;
      std::shared_ptr<lp::PluginTemplate> t;
      std::vector<std::pair<int, std::shared_ptr<lp::PluginInstance>>> instances;   // index, instance
      std::vector<bool> spoilt;
    };

    Case& c;
    Src& s;
    plug::World* w = nullptr;
    bool slow = false;
    std::vector<Template> templates;
    std::vector<std::shared_ptr<Bus>> busses;
    std::vector<std::thread> runners;
    std::deque<bool> done;
    std::map<std::string, int> heard;
    Behaviour next;
    std::vector<std::pair<lp::PluginInstance*, Record*>> all;
    size_t started = 0, restarted = 0;

    Record* record(lp::PluginInstance* p)
    {
      for(auto& x : all)
      {
        if(x.first == p)
        {
          return x.second;
        }
      }
      return nullptr;
    }

    void body()
    {
      w->choose = [this](int, const std::string&, Datagram&) { return next; };
      size_t nBusses = 1 + s.draw(2);
      std::vector<std::shared_ptr<lp::bus::Subscriber>> subs;
      for(size_t i = 0; i < nBusses; ++i)
      {
        busses.push_back(std::make_shared<Bus>("root" + std::to_string(i)));
        subs.push_back(busses.back()->CreateSubscriber("/from/**"));
        subs.back()->SetMessageCallback([this, i](lp::messages::Message m) {
          ++heard[m.GetSender()];
          if("/from/" + m.GetSender() != m.GetTopic())
          {
            pbt::failNow("a message of an instance to " + m.GetTopic() + " was sent by " + m.GetSender());
          }
          bool here = false;
          for(auto& r : w->records)
          {
            here |= r->identifier == m.GetSender() && r->slot == (int)i;
          }
          if(!here)
          {
            pbt::failNow("bus " + std::to_string(i) + " hears of " + m.GetSender() + ", which was not placed on it");
          }
        });
        std::shared_ptr<Bus> b = busses.back();
        done.push_back(false);
        runners.emplace_back([this, b, i] {
          b->Start();
          done[i] = true;
        });
      }
      size_t nTemplates = 1 + s.draw(3);
      for(size_t i = 0; i < nTemplates; ++i)
      {
        Template t;
        t.name = names()[i];
        t.spoilt.resize(nBusses);
        templates.push_back(t);
        load(templates.back());
      }
      for(pbt::List l(s, 24, 1); l.more();)
      {
        Template& t = templates[s.draw(templates.size())];
        switch(s.weighted({6, 5, 4, 4, 2, 1}))
        {
          case 0: instantiate(t); break;
          case 1: start(t); break;
          case 2: stop(t); break;
          case 3:
          {
            double ms = s.pick(std::vector<double>{1, 20, 200, 1000, 5000});
            c << "wait " << ms << "\n";
            conc::sleep(ms);
            break;
          }
          case 4: unload(t, false); break;
          default: unload(t, true); break;
        }
        consistent();
      }
      for(Template& t : templates)
      {
        unload(t, s.flip());
      }
      consistent();
      size_t events = w->events.size();
      conc::sleep(10000);
      if(w->events.size() != events)
      {
        c.fail("something happens to the instances after all has been unloaded");
      }
      for(size_t i = 0; i < busses.size(); ++i)
      {
        // A request to stop does not concern a run that has not begun.
        while(!done[i])
        {
          busses[i]->Stop();
          conc::sleep(200);
        }
        runners[i].join();
      }
      subs.clear();
      for(auto& r : w->records)
      {
        r->bus.reset();
      }
      busses.clear();
    }

    void load(Template& t)
    {
      lp::PluginTemplateConfiguration configuration(t.name, lp::Version(1, 2, 3, 4), [this](lp::PluginConfiguration p) {
        return std::shared_ptr<lp::PluginInstance>(plug::create(slotOf, p));
      });
      t.t = std::make_shared<lp::PluginTemplate>(configuration);
      if(t.t->GetIdentifier() != t.name)
      {
        c.fail("the plugin " + t.name + " is called " + t.t->GetIdentifier());
      }
    }

    int slotOf = 0;

    void instantiate(Template& t)
    {
      size_t b = s.draw(busses.size());
      if(t.spoilt[b] || t.instances.size() >= 4)
      {
        return;
      }
      int index = 0;
      while(std::any_of(t.instances.begin(), t.instances.end(), [&](const std::pair<int, std::shared_ptr<lp::PluginInstance>>& p) { return p.first == index; }))
      {
        ++index;
      }
      std::string id = t.name + std::to_string(index);
      slotOf = (int)b;
      Val v;
      lp::PluginConfiguration p;
      {
        conc::Calm calm;
        next = plug::behaviour(s);
        next.failCreate = s.chance(1, 16);
        next.nullCreate = s.chance(1, 16);
        size_t budget = 4;
        model::Options o;
        v = model::tree(s, o, 2, budget);
        p.mIdentifier = s.flip() ? "" : "ignored";
        p.mCustomConfiguration = model::build(s, v);
      }
      c << "instantiate " << id << " on bus " << b << ":" << next.text() << "\n";
      std::shared_ptr<lp::PluginInstance> i;
      try
      {
        i = t.t->Instantiate(p, busses[b]);
      }
      catch(const std::runtime_error& e)
      {
        if(!next.failCreate)
        {
          c.fail("instantiating " + id + " fails: " + e.what());
        }
      }
      if(next.failCreate || next.nullCreate)
      {
        if(i != nullptr)
        {
          c.fail("a failed instantiation yields an instance");
        }
        // The name of its bus is taken.
        t.spoilt[b] = true;
        return;
      }
      if(i == nullptr)
      {
        c.fail("instantiating " + id + " yields nothing");
      }
      Record& r = *w->records.back();
      all.push_back({i.get(), &r});
      if(i->GetIdentifier() != id || r.identifier != id)
      {
        c.fail("an instance is called " + i->GetIdentifier() + " instead of " + id);
      }
      if(i->GetBus() != busses[b]->GetChildBus(id) || i->GetBus()->GetIdentifier() != id || r.bus != i->GetBus())
      {
        c.fail("the instance " + id + " is not on a bus of that name below the bus it was placed on");
      }
      std::string x;
      {
        conc::Calm calm;
        x = model::differsAt(r.configuration, v, "");
      }
      if(!x.empty())
      {
        c.fail("the configuration of " + id + " is not the one it was given: " + x);
      }
      t.instances.push_back({index, i});
      if(s.chance(5, 6))
      {
        i->Initialize();
        if(s.chance(3, 4))
        {
          startOne(*i);
        }
      }
    }

    void startOne(lp::PluginInstance& i)
    {
      Record& r = *record(&i);
      if(r.initsDone == 0 || (r.starts > 0 && !r.told && r.runsDone != r.starts))
      {
        return;
      }
      restarted += r.starts > 0;
      c << "start " << r.identifier << "\n";
      ++started;
      ++r.starts;
      r.told = false;
      i.Start();
      if(!slow && s.chance(1, 4))
      {
        conc::sleep(1000);
        if(r.runs != r.starts)
        {
          bad(r, "its worker does not run although it was started");
        }
        if(r.b.runMs < 0 && r.runsDone == r.runs)
        {
          bad(r, "its worker has ended on its own");
        }
      }
    }

    void start(Template& t)
    {
      if(!t.instances.empty())
      {
        startOne(*t.instances[s.draw(t.instances.size())].second);
      }
    }

    void stop(Template& t)
    {
      if(t.instances.empty())
      {
        return;
      }
      lp::PluginInstance& i = *t.instances[s.draw(t.instances.size())].second;
      Record& r = *record(&i);
      c << "stop " << r.identifier << "\n";
      r.told = true;
      i.Stop();
      if(r.runs != r.starts || r.runsDone != r.runs)
      {
        bad(r, "stopping returns although its worker has " + std::string(r.runs != r.starts ? "not begun" : "not returned"));
      }
    }

    void unload(Template& t, bool destroy)
    {
      if(t.t == nullptr)
      {
        return;
      }
      c << (destroy ? "destroy " : "unload ") << t.name << "\n";
      std::vector<Record*> mine;
      for(auto& p : t.instances)
      {
        Record* r = record(p.second.get());
        r->told = true;
        r->mayDeinit = true;
        mine.push_back(r);
        for(auto& a : all)
        {
          if(a.second == r)
          {
            a.first = nullptr;
          }
        }
      }
      t.instances.clear();
      if(!destroy)
      {
        t.t->Unload();
        unloaded(mine);
        if(s.chance(1, 4))
        {
          c << "and again\n";
          t.t->Unload();
        }
      }
      t.t.reset();
      unloaded(mine);
      // The names below the old busses are taken.
      std::fill(t.spoilt.begin(), t.spoilt.end(), true);
    }

    void unloaded(const std::vector<Record*>& mine)
    {
      for(Record* r : mine)
      {
        if(r->deinits != 1 || r->deinitsDone != 1)
        {
          bad(*r, "was deinitialised " + std::to_string(r->deinits) + " times when unloaded");
        }
        if(r->runs != r->starts || r->runsDone != r->runs)
        {
          bad(*r, "was unloaded with its worker running or not begun");
        }
        if(r->destroyed != 1)
        {
          bad(*r, "is kept after it was unloaded");
        }
      }
    }

    void consistent()
    {
      for(auto& r : w->records)
      {
        if(r->runs > r->starts || r->inits > 1 || r->deinits > 1 || (r->deinits > 0 && !r->mayDeinit))
        {
          bad(*r, "was initialised " + std::to_string(r->inits) + ", run " + std::to_string(r->runs) + ", deinitialised " + std::to_string(r->deinits) + " times");
        }
      }
    }
  };

  void p01(Case& c) { Life(c).run(); }
  PBT_PROP({"P01",
            "up to 24 operations on up to three plugins with instances on two running busses: instantiate (also with failing factories), initialise, start, stop, start again, wait, unload, destroy; "
            "instances that take their time, end on their own, linger, publish; run by a scheduler that draws every switch, in virtual time; "
            "oracle: a journal of all calls made on each instance; non-trivial: some instance was started",
            p01, 20000, 1000000, 60, 0, once});

  // ---------------------------------------------------------------------------------------------
  // Libraries on disk

  const int cGood = 6;
  std::string sPool;

  void write(const std::string& path, const std::string& content) { std::ofstream(path, std::ios::binary) << content; }
  std::string readFile(const std::string& path)
  {
    std::ifstream f(path, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  }
  std::string slotFile(const std::string& n) { return sPool + "/" + n; }

  void once()
  {
    // What is made on first use is made here: the scheduler would see it otherwise.
    names();
    Src warm;
    warm.InitRandom(1);
    for(int i = 0; i < 100; ++i)
    {
      plug::behaviour(warm);
    }
    sPool = Case::scratch() + "/pool";
    mkdir(sPool.c_str(), 0755);
    for(std::string n : {"t0", "t1", "t2", "t3", "t4", "t5", "noinfo", "noinstance", "nothing"})
    {
      std::string up = n;
      for(char& ch : up)
      {
        ch = (char)toupper(ch);
      }
      const char* from = getenv(("LPBT_PLUGIN_" + up).c_str());
      if(from == nullptr)
      {
        pbt::failNow("no test plugins");
      }
      write(slotFile(n), readFile(from));
    }
  }

  void removeTree(const std::string& path)
  {
    if(path.compare(0, Case::scratch().size(), Case::scratch()) != 0)
    {
      abort();
    }
    if(DIR* d = opendir(path.c_str()))
    {
      while(dirent* e = readdir(d))
      {
        std::string n = e->d_name;
        if(n == "." || n == "..")
        {
          continue;
        }
        struct stat st;
        std::string p = path + "/" + n;
        if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        {
          removeTree(p);
        }
        else
        {
          unlink(p.c_str());
        }
      }
      closedir(d);
    }
    rmdir(path.c_str());
  }

  struct Directory
  {
    std::string path;
    Directory()
    {
      path = Case::scratch() + "/case";
      removeTree(path);
      mkdir(path.c_str(), 0755);
      mkdir((path + "/cwd").c_str(), 0755);
      if(chdir((path + "/cwd").c_str()) != 0)
      {
        abort();
      }
    }
    ~Directory()
    {
      if(chdir(Case::scratch().c_str()) != 0)
      {
        abort();
      }
      removeTree(path);
    }
  };

  // ---------------------------------------------------------------------------------------------
  // P02

  class Libraries
  {
  public:
    explicit Libraries(Case& c) : c(c), s(c.s) {}

    void run()
    {
      InWorld in;
      w = &in.w;
      w->choose = [](int, const std::string&, Datagram&) { return Behaviour(); };
      Directory dir;
      // Where to look.
      std::vector<std::string> paths;
      std::vector<std::string> searched = {dir.path + "/cwd", dir.path + "/cwd/lib"};
      for(size_t n = s.draw(4), i = 0; i < n; ++i)
      {
        std::string p = dir.path + s.pick(std::vector<std::string>{"/p0", "/p1", "/p 2", "/p0/sub", "/missing", "/cwd", "/p1/", "/libplugin_dir.so", "/file"});
        paths.push_back(p);
        searched.push_back(p);
      }
      for(std::string d : {"/p0", "/p1", "/p 2", "/p0/sub", "/cwd/lib", "/libplugin_dir.so", "/elsewhere"})
      {
        mkdir((dir.path + d).c_str(), 0755);
      }
      write(dir.path + "/file", "not a directory");
      std::vector<std::string> dirs;
      for(std::string d : {"/p0", "/p1", "/p 2", "/p0/sub", "/cwd/lib", "/libplugin_dir.so", "/elsewhere", "/cwd"})
      {
        dirs.push_back(dir.path + d);
      }

      lp::PluginManagerConfiguration configuration;
      bool late = s.flip();
      if(!late)
      {
        configuration.mTemplateSearchPaths.assign(paths.begin(), paths.end());
      }
      lp::PluginManager manager(configuration);
      if(late)
      {
        for(const std::string& p : paths)
        {
          manager.AddTemplateSearchPath(p);
        }
      }
      size_t rounds = 1 + s.draw(3);
      for(size_t round = 0; round < rounds; ++round)
      {
        c << "round " << round << "\n";
        std::shared_ptr<Bus> bus = std::make_shared<Bus>("root");
        manager.SetBus(bus);
        identify();
        populate(dirs);
        std::map<std::string, std::vector<int>> usable = expected(searched);
        if(s.chance(1, 4))
        {
          probe(manager, {}, "before loading");
        }
        size_t before = w->records.size();
        manager.LoadTemplates();
        if(w->records.size() != before)
        {
          c.fail("loading creates instances");
        }
        probe(manager, usable, "after loading");
        if(usable.size() > 0)
        {
          c.nontrivial();
        }
        for(auto& r : w->records)
        {
          r->mayDeinit = true;
          r->told = true;
        }
        manager.UnloadTemplates();
        for(auto& r : w->records)
        {
          if(r->deinitsDone != 1 || r->destroyed != 1)
          {
            bad(*r, "was deinitialised " + std::to_string(r->deinits) + " times and destroyed " + std::to_string(r->destroyed) + " times when all was unloaded");
          }
          r->bus.reset();
        }
        probe(manager, {}, "after unloading");
        if(s.chance(1, 3))
        {
          manager.UnloadTemplates();
        }
      }
    }

  private:
    Case& c;
    Src& s;
    plug::World* w = nullptr;
    std::map<std::string, std::pair<std::string, int>> files;   // path: kind, slot

    void identify()
    {
      static const std::vector<std::string> ids = {"Alpha", "Beta", "x", "", "Alpha0", "SysInfo", "na me", "\xc3\xa4", "Alpha"};
      for(int i = 0; i < cGood; ++i)
      {
        w->identifiers[i] = s.chance(1, 2) ? ids[i % ids.size()] : s.pick(ids);
        w->nullInfo[i] = s.chance(1, 10);
        c << "library t" << i << (w->nullInfo[i] ? " yields no info" : " identifies itself as " + pbt::quote(w->identifiers[i])) << "\n";
      }
    }

    void populate(const std::vector<std::string>& dirs)
    {
      // Some of the old files go, new ones come.
      for(auto it = files.begin(); it != files.end();)
      {
        if(s.chance(1, 3))
        {
          unlink(it->first.c_str());
          rmdir(it->first.c_str());
          it = files.erase(it);
        }
        else
        {
          ++it;
        }
      }
      static const std::vector<std::string> good = {"libplugin_a.so", "libplugin_b.so", "libplugin_.so", "libplugin_a.b.so", "libplugin_libplugin_c.so", "libplugin_d e.so", "libplugin_e.so.so"};
      static const std::vector<std::string> foreign = {"plugin_a.so", "libplugin_a.dll", "libplugin_a.SO", "libplugin_a.so.1", "Libplugin_a.so", "libplugina.so", "xlibplugin_a.so", "libplugin_so", "lib.so", ".so",
                                                       "libplugin_aso", "libplugin_a.so~", "libplugin_a.", "libplugin_a.s", "libplugin_a.soo", "liblamppost.so", "libplugin.so"};
      for(pbt::List l(s, 10); l.more();)
      {
        std::string name = s.weighted({3, 1}) == 0 ? s.pick(good) : s.pick(foreign);
        std::string path = s.pick(dirs) + "/" + name;
        if(files.count(path))
        {
          continue;
        }
        std::string kind;
        int slot = -1;
        switch(s.weighted({10, 1, 1, 1, 2, 1, 1, 1, 1, 2}))
        {
          case 0:
          {
            slot = (int)s.draw(cGood);
            kind = "good";
            std::string from = slotFile("t" + std::to_string(slot));
            switch(s.draw(3))
            {
              case 0: if(link(from.c_str(), path.c_str()) != 0) abort(); break;
              case 1: if(symlink(from.c_str(), path.c_str()) != 0) abort(); break;
              default: write(path, readFile(from)); break;
            }
            break;
          }
          case 1: kind = "noinfo"; link(slotFile(kind).c_str(), path.c_str()); break;
          case 2: kind = "noinstance"; link(slotFile(kind).c_str(), path.c_str()); break;
          case 3: kind = "nothing"; link(slotFile(kind).c_str(), path.c_str()); break;
          case 4: kind = "garbage"; write(path, gen::bytes(s, gen::length(s, 3000))); break;
          case 5: kind = "empty"; write(path, ""); break;
          case 6: kind = "directory"; mkdir(path.c_str(), 0755); break;
          case 7: kind = "dangling"; if(symlink("nowhere", path.c_str()) != 0) abort(); break;
          case 8: kind = "loop"; if(symlink(name.c_str(), path.c_str()) != 0) abort(); break;
          default:
            // The beginning of a library.
            kind = "truncated";
            write(path, readFile(slotFile("t0")).substr(0, s.draw(65)));
            break;
        }
        files[path] = {kind, slot};
        c << "file " << path.substr(Case::scratch().size() + 5) << ": " << kind << (slot >= 0 ? " t" + std::to_string(slot) : "") << "\n";
      }
    }

    std::map<std::string, std::vector<int>> expected(const std::vector<std::string>& searched)
    {
      std::map<std::string, std::vector<int>> r;
      for(auto& f : files)
      {
        size_t slash = f.first.rfind('/');
        std::string dir = f.first.substr(0, slash), name = f.first.substr(slash + 1);
        bool there = false;
        for(std::string p : searched)
        {
          while(p.size() > 1 && p.back() == '/')
          {
            p.pop_back();
          }
          there |= p == dir;
        }
        bool named = name.compare(0, 10, "libplugin_") == 0 && name.size() >= 13 && name.substr(name.size() - 3) == ".so";
        if(there && named && f.second.first == "good" && !w->nullInfo[f.second.second] && !w->identifiers[f.second.second].empty())
        {
          r[w->identifiers[f.second.second]].push_back(f.second.second);
        }
      }
      return r;
    }

    void probe(lp::PluginManager& manager, std::map<std::string, std::vector<int>> usable, const std::string& when)
    {
      std::vector<std::string> ask = {"Alpha", "Beta", "x", "", "Alpha0", "SysInfo", "na me", "\xc3\xa4", "alpha", "libplugin_a.so", "t0", "Unknown"};
      std::map<std::string, int> count;
      for(size_t n = 0; n < ask.size() + s.draw(4); ++n)
      {
        std::string id = n < ask.size() ? ask[n] : s.pick(ask);
        if(id == "Alpha0" && usable.count("Alpha"))
        {
          // Its first instance's bus would have the same name as another's.
          continue;
        }
        size_t before = w->records.size();
        std::shared_ptr<Bus> own = s.chance(1, 4) ? std::make_shared<Bus>("own") : nullptr;
        lp::PluginConfiguration configuration;
        configuration.mBus = own;
        std::shared_ptr<lp::PluginInstance> i = manager.InstantiateTemplate(id, configuration);
        if(usable.count(id) == 0)
        {
          if(i != nullptr || w->records.size() != before)
          {
            c.fail(when + ", " + pbt::quote(id) + " can be instantiated");
          }
          continue;
        }
        if(i == nullptr || w->records.size() != before + 1)
        {
          c.fail(when + ", " + pbt::quote(id) + " cannot be instantiated");
        }
        Record& r = *w->records.back();
        if(std::find(usable[id].begin(), usable[id].end(), r.slot) == usable[id].end())
        {
          c.fail(when + ", an instance of " + pbt::quote(id) + " comes from library t" + std::to_string(r.slot));
        }
        if(i->GetIdentifier() != id + std::to_string(count[id]))
        {
          c.fail(when + ", an instance is called " + i->GetIdentifier() + " instead of " + id + std::to_string(count[id]));
        }
        if(own != nullptr && own->GetChildBus(i->GetIdentifier()) != i->GetBus())
        {
          c.fail("an instance is not on the bus asked for");
        }
        ++count[id];
      }
    }
  };

  void p02(Case& c) { Libraries(c).run(); }
  PBT_PROP({"P02",
            "directories, explicit and implied search paths with libraries under fitting and nearly fitting names (linked, copied, symbolic), libraries lacking factories, infos or identifiers, garbage, "
            "truncated headers, directories, dangling and looping links; one to three rounds of loading, asking for known and unknown plugins, unloading, changing files; "
            "oracle: the set of identifiers computed from the files; non-trivial: at least one usable plugin",
            p02, 12000, 600000, 60, 0, once});

  // ---------------------------------------------------------------------------------------------
  // L01, L02

  void json(std::ostream& o, const Val& v)
  {
    switch(v.kind)
    {
      case Val::Text:
      {
        o << '"';
        for(char ch : v.text)
        {
          if(ch == '"' || ch == '\\')
          {
            o << '\\' << ch;
          }
          else
          {
            o << ch;
          }
        }
        o << '"';
        break;
      }
      case Val::Int: o << v.integer; break;
      case Val::Real:
      {
        char b[64];
        snprintf(b, sizeof b, "%.17g", v.real);
        o << b;
        if(!strpbrk(b, ".eE"))
        {
          o << ".0";
        }
        break;
      }
      case Val::Bool: o << (v.boolean ? "true" : "false"); break;
      case Val::List:
      {
        o << '[';
        bool first = true;
        for(const Val& x : v.list)
        {
          o << (first ? "" : ", ");
          first = false;
          json(o, x);
        }
        o << ']';
        break;
      }
      case Val::Dict:
      {
        o << '{';
        bool first = true;
        for(const auto& x : v.dict)
        {
          o << (first ? "" : ", ");
          first = false;
          json(o, Val::T(x.first));
          o << ": ";
          json(o, x.second);
        }
        o << '}';
        break;
      }
      default: o << "null"; break;
    }
  }

  // Values that any JSON decoder agrees on.
  Val plain(Src& s, size_t depth)
  {
    static const std::vector<std::string> texts = {"", "a", "some text", "Alpha", "plugins", "a\"b\\c", "/x/y", "true", "0"};
    switch(s.weighted({2, 2, 1, 2, 1, depth ? 2u : 0u, depth ? 3u : 0u}))
    {
      case 0: return Val::T(s.pick(texts));
      case 1: return Val::I((int)s.range(-5, 70000));
      case 2: return Val::R((double)s.range(-1000, 1000) / 8 + 0.0625);
      case 3: return Val::B(s.flip());
      case 4: return Val();
      case 5:
      {
        Val v = Val::L();
        for(pbt::List l(s, 4); l.more();)
        {
          v.list.push_back(plain(s, depth - 1));
        }
        return v;
      }
      default:
      {
        static const std::vector<std::string> keys = {"a", "b", "type", "plugins", "configuration", "x y", "enabled"};
        Val v = Val::D();
        for(pbt::List l(s, 4); l.more();)
        {
          v.dict[s.pick(keys)] = plain(s, depth - 1);
        }
        return v;
      }
    }
  }

  class Application
  {
  public:
    Application(Case& c, bool stops) : c(c), s(c.s), stops(stops) {}

    void run()
    {
      InWorld in;
      w = &in.w;
      Directory dir;
      std::vector<std::string> known;
      std::string lib = dir.path + "/plugins";
      mkdir(lib.c_str(), 0755);
      for(int i = 0; i < cGood; ++i)
      {
        w->identifiers[i] = names()[i];
        if(i < 2 || s.chance(2, 3))
        {
          link(slotFile("t" + std::to_string(i)).c_str(), (lib + "/libplugin_" + std::to_string(i) + ".so").c_str());
          known.push_back(names()[i]);
        }
      }
      if(!stops && s.chance(1, 4))
      {
        write(lib + "/libplugin_garbage.so", "garbage");
      }
      lp::PluginManagerConfiguration managerConfiguration({lib}, nullptr);
      std::list<std::string> configFiles;
      for(pbt::List l(s, 4, stops ? 1 : 0); l.more();)
      {
        if(!configFiles.empty() && s.chance(1, 12))
        {
          // The same one again.
          size_t n = fileEntries[configFiles.front()].first, m = fileEntries[configFiles.front()].second;
          if(std::any_of(entries.begin() + n, entries.begin() + m, [this](const Entry& e) { return spoilt.count(e.type) > 0; }))
          {
            continue;
          }
          configFiles.push_back(configFiles.front());
          for(size_t i = n; i < m; ++i)
          {
            entries.push_back(entries[i]);
          }
          c << "and " << configFiles.front().substr(dir.path.size()) << " again\n";
          continue;
        }
        std::string path = dir.path + "/" + std::to_string(l.index()) + ".cfg";
        size_t before = entries.size();
        file(path, known);
        fileEntries[path] = {before, entries.size()};
        configFiles.push_back(path);
      }
      configuration = lp::LampPostConfiguration(managerConfiguration, configFiles);
      bool slow = stops && s.chance(1, 4);
      for(Entry& e : entries)
      {
        total += e.b.createMs + e.b.initMs + e.b.lingerMs + e.b.deinitMs + 500 + std::max(0.0, e.b.runMs);
      }
      w->choose = [this](int, const std::string&, Datagram&) {
        if(next >= entries.size())
        {
          c.fail("more instances are created than there are entries");
        }
        return entries[next++].b;
      };
      w->onEvent = [this](char k, Record& r) { event(k, r); };
      if(stops)
      {
        drawStops();
      }
      this->slow = slow;
      conc::run(c, slow, [this] { body(); });
    }

  private:
    struct Entry
    {
      std::string type;
      Val configuration;
      Behaviour b;
    };
    struct Request
    {
      // By the clock, or when something happens to an instance.
      double at = 0;
      char event = 0;
      int serial = 0;
      double time = -1;       // when it was made
    };

    Case& c;
    Src& s;
    bool stops, slow = false;
    plug::World* w = nullptr;
    std::vector<Entry> entries;
    std::map<std::string, std::pair<size_t, size_t>> fileEntries;
    std::set<std::string> spoilt;
    lp::LampPostConfiguration configuration;
    size_t next = 0;
    double total = 0;
    std::vector<Request> requests;
    size_t early = 0;
    lp::LampPost* lamp = nullptr;
    double firstStop = -1, returned = -1, begun = -1;

    void file(const std::string& path, const std::vector<std::string>& known)
    {
      std::string name = path.substr(path.rfind('/') + 1);
      switch(s.weighted({stops ? 40u : 12u, 1, 1, 1, 2, 1, 1}))
      {
        case 0:
        {
          Val v = Val::D();
          v.dict["plugins"] = Val::L();
          if(s.chance(1, 5))
          {
            v.dict["other"] = plain(s, 2);
          }
          for(pbt::List l(s, 6); l.more();)
          {
            v.dict["plugins"].list.push_back(entry(known));
          }
          std::ostringstream o;
          json(o, v);
          write(path, o.str());
          c << "file " << name << ": " << pbt::quote(o.str(), 600) << "\n";
          break;
        }
        case 1: c << "file " << name << " is missing\n"; break;
        case 2: write(path, ""); c << "file " << name << " is empty\n"; break;
        case 3: write(path, s.pick(std::vector<std::string>{"garbage", "{", "{\"plugins\": [{\"type\": \"Alpha\"}", "<plugins/>", std::string("\0\1\2", 3), "[[[[", "{\"plugins\" [] }"})); c << "file " << name << " is not JSON\n"; break;
        case 4:
        {
          Val v = plain(s, 2);
          if(v.kind == Val::Dict && s.flip())
          {
            v.dict["plugins"] = plain(s, 2);
          }
          else if(s.flip())
          {
            Val d = Val::D();
            d.dict["plugins"] = v;
            v = d;
          }
          if(v.kind == Val::Dict && v.dict.count("plugins") && v.dict["plugins"].kind == Val::List)
          {
            for(Val& e : v.dict["plugins"].list)
            {
              if(e.kind == Val::Dict)
              {
                e.dict.erase("type");
              }
            }
          }
          std::ostringstream o;
          json(o, v);
          write(path, o.str());
          c << "file " << name << ": " << pbt::quote(o.str(), 600) << "\n";
          break;
        }
        case 5: mkdir(path.c_str(), 0755); c << "file " << name << " is a directory\n"; break;
        default: if(symlink("nowhere", path.c_str()) != 0) abort(); c << "file " << name << " is a dangling link\n"; break;
      }
    }

    Val entry(const std::vector<std::string>& known)
    {
      Val v = Val::D();
      switch(s.weighted({stops ? 40u : 14u, 2, 1, 1, 1, 2}))
      {
        case 0:
        {
          Entry e;
          e.type = s.pick(known);
          if(spoilt.count(e.type))
          {
            return Val::T("nothing");
          }
          e.b = plug::behaviour(s);
          if(s.chance(1, 14))
          {
            // Whatever comes of the same type after this is not specified.
            (s.flip() ? e.b.failCreate : e.b.nullCreate) = true;
            spoilt.insert(e.type);
          }
          v.dict["type"] = Val::T(e.type);
          if(s.chance(3, 4))
          {
            e.configuration = plain(s, 3);
            v.dict["configuration"] = e.configuration;
          }
          if(s.chance(1, 6))
          {
            v.dict["comment"] = plain(s, 1);
          }
          c << "entry " << entries.size() << ":" << e.b.text() << "\n";
          entries.push_back(e);
          return v;
        }
        case 1: v.dict["type"] = Val::T(s.pick(std::vector<std::string>{"Unknown", "", "alpha", "Alpha0", "Alpha ", "libplugin_0.so"})); return v;
        case 2: v.dict["configuration"] = plain(s, 1); return v;
        case 3:
          v.dict["type"] = plain(s, 2);
          if(v.dict["type"].kind == Val::Text)
          {
            v.dict["type"] = Val::I(3);
          }
          return v;
        case 4: return Val();
        default:
        {
          Val x = plain(s, 2);
          if(x.kind == Val::Dict)
          {
            x.dict.erase("type");
          }
          return x;
        }
      }
    }

    void drawStops()
    {
      if(s.chance(1, 6))
      {
        early = 1 + s.draw(2);
        c << early << " requests to stop before the start\n";
      }
      double horizon = 100;
      for(Entry& e : entries)
      {
        horizon += e.b.createMs + e.b.initMs;
      }
      for(pbt::List l(s, 4, early ? 0 : 1); l.more();)
      {
        Request r;
        if(s.chance(1, 2))
        {
          static const std::vector<double> fixed = {0, 0.01, 0.1, 1, 50, 101, 1000};
          switch(s.weighted({3, 3, 1}))
          {
            case 0: r.at = s.pick(fixed); break;
            case 1: r.at = (double)s.draw((uint64_t)horizon); break;
            default: r.at = 30000; break;
          }
          c << "stop requested after " << r.at << " ms\n";
        }
        else
        {
          r.event = "CIiRrDdX"[s.draw(8)];
          r.serial = (int)s.draw(5);
          c << "stop requested at event " << std::string(1, r.event) << " of instance " << r.serial << "\n";
        }
        requests.push_back(r);
      }
    }

    void request()
    {
      // From here on the workers may be told to stop.
      if(firstStop < 0)
      {
        firstStop = conc::now();
        for(auto& r : w->records)
        {
          r->told = r->mayDeinit = true;
        }
      }
      lamp->Stop();
    }

    void event(char k, Record& r)
    {
      if(k == 'C' && firstStop >= 0)
      {
        r.told = r.mayDeinit = true;
      }
      if(k == 'i')
      {
        // It is started next.
        r.starts = 1;
      }
      if(lamp != nullptr && k != 'X' && lamp->IsStopped())
      {
        bad(r, std::string("something (") + k + ") happens to it while the application says it has stopped");
      }
      if(k == 'X' || lamp == nullptr)
      {
        return;
      }
      for(Request& q : requests)
      {
        if(q.event == k && q.serial == r.serial && q.time < 0)
        {
          q.time = conc::now();
          request();
        }
      }
    }

    void body()
    {
      std::unique_ptr<lp::LampPost> owned(new lp::LampPost(configuration));
      lamp = owned.get();
      if(lamp->IsStopped())
      {
        c.fail("says it has stopped before it was started");
      }
      for(size_t i = 0; i < early; ++i)
      {
        request();
      }
      bool done = false;
      begun = conc::now();
      std::thread main([&] {
        lamp->Start();
        done = true;
        returned = conc::now();
        if(firstStop < 0)
        {
          pbt::failNow("the start call returns although nobody requested to stop");
        }
        if(!lamp->IsStopped())
        {
          pbt::failNow("does not say it has stopped after the start call returned");
        }
      });
      if(stops)
      {
        std::vector<std::thread> threads;
        for(Request& q : requests)
        {
          if(q.event == 0)
          {
            Request* p = &q;
            threads.emplace_back([this, p] {
              conc::sleep(p->at);
              p->time = conc::now();
              request();
            });
          }
        }
        for(std::thread& t : threads)
        {
          t.join();
        }
        if(firstStop < 0)
        {
          // None of the events has come about yet.
          conc::sleep(total + 5000);
        }
        if(firstStop < 0)
        {
          if(done)
          {
            c.fail("has ended on its own");
          }
          request();
          c.label("stopped at last");
        }
      }
      else
      {
        conc::sleep(2 * total + 1000);
        started();
        if(done)
        {
          c.fail("has ended on its own");
        }
        request();
      }
      main.join();
      if(!slow && returned > std::max(firstStop, begun) + 2 * total + 500)
      {
        c.fail("the start call returns " + std::to_string(returned - firstStop) + " ms after the first request to stop");
      }
      ended();
      size_t events = w->events.size();
      if(s.chance(1, 3))
      {
        lamp->Stop();
        if(!lamp->IsStopped())
        {
          c.fail("does not say any more that it has stopped");
        }
      }
      conc::sleep(5000);
      if(w->events.size() != events)
      {
        c.fail("something happens to the instances after the start call returned");
      }
      lamp = nullptr;
      owned.reset();
      for(auto& r : w->records)
      {
        r->bus.reset();
        if(r->destroyed != 1)
        {
          bad(*r, "was not destroyed");
        }
      }
      if(!w->records.empty())
      {
        c.nontrivial();
      }
    }

    std::vector<Entry> expected()
    {
      std::vector<Entry> r;
      for(Entry& e : entries)
      {
        if(!e.b.failCreate && !e.b.nullCreate)
        {
          r.push_back(e);
        }
      }
      return r;
    }

    void compare(size_t n)
    {
      std::vector<Entry> e = expected();
      std::map<std::string, int> count;
      int last = -1;
      for(size_t i = 0; i < n; ++i)
      {
        Record& r = *w->records[i];
        std::string id = e[i].type + std::to_string(count[e[i].type]++);
        if(r.identifier != id || names()[r.slot] != e[i].type)
        {
          bad(r, "was created for an entry of " + e[i].type + ", expecting " + id);
        }
        std::string x = model::differsAt(r.configuration, e[i].configuration, "");
        if(!x.empty())
        {
          bad(r, "was not given the configuration of its entry: " + x);
        }
      }
      for(auto& ev : w->events)
      {
        if(ev.first == 'I')
        {
          if(ev.second < last)
          {
            c.fail("instances are not initialised in order");
          }
          last = ev.second;
        }
      }
    }

    void started()
    {
      size_t n = expected().size();
      if(w->records.size() != n)
      {
        c.fail(std::to_string(w->records.size()) + " instances were created for " + std::to_string(n) + " entries");
      }
      compare(n);
      for(auto& r : w->records)
      {
        if(r->initsDone != 1 || r->runs != 1 || r->deinits != 0 || (r->b.runMs < 0 && r->runsDone != 0))
        {
          bad(*r, "was initialised " + std::to_string(r->initsDone) + " times, run " + std::to_string(r->runs) + ", returned " + std::to_string(r->runsDone) + ", deinitialised " + std::to_string(r->deinits) + " times");
        }
      }
    }

    void ended()
    {
      size_t n = expected().size();
      if(w->records.size() > n)
      {
        c.fail(std::to_string(w->records.size()) + " instances were created for " + std::to_string(n) + " entries");
      }
      compare(w->records.size());
      for(auto& r : w->records)
      {
        if(r->deinitsDone != 1 || r->runs != r->runsDone || r->inits > 1 || r->runs > 1)
        {
          bad(*r, "was initialised " + std::to_string(r->inits) + ", run " + std::to_string(r->runs) + ", deinitialised " + std::to_string(r->deinits) + " times in the end");
        }
      }
      if(returned >= 0 && firstStop >= 0 && w->records.size() < n)
      {
        c.label("stopped before all were created");
      }
    }
  };

  void l01(Case& c) { Application(c, false).run(); }
  void l02(Case& c) { Application(c, true).run(); }
  PBT_PROP({"L01",
            "up to four configuration files: lists of plugins with any configuration, mixed with entries that are malformed, of unknown type or whose plugin cannot be created, files missing, empty, not JSON, "
            "of the wrong shape, directories, given twice; real plugin libraries loaded by the real application, in virtual time; "
            "oracle: the instances expected from the files, their order, names, configurations and calls; non-trivial: some instance was created",
            l01, 8000, 400000, 60, 0, once});
  PBT_PROP({"L02",
            "an application with plugins that take their time to be created, initialised, stopped and deinitialised; up to six requests to stop: before the start, by the clock at any time, or from inside "
            "any call to any instance; run by a scheduler that draws every switch, in virtual time; oracle: the start call returns after a request only and soon, every instance is deinitialised once, "
            "the reported state fits throughout; non-trivial: some instance was created",
            l02, 9000, 500000, 60, 0, once});
} // namespace
