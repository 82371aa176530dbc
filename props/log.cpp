// G01: log lines of any callers, in one module or in several that have a copy of the logger each.
#include "conc.h"

#include <gen.h>

#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdlib>
#include <iostream>
#include <memory>
#include <set>

#include <lamppost/log/Log.h>

namespace
{
  using pbt::Case;
  using pbt::Src;

  void* (*moduleLogger)(const std::string*);
  void (*moduleDiscard)(void*);
  void (*moduleLog)(void*, int, const std::string*, int, int);

  void once()
  {
    const char* path = getenv("LPBT_PLUGIN_LOGMODULE");
    void* handle = path ? dlopen(path, RTLD_NOW | RTLD_LOCAL) : nullptr;
    if(handle == nullptr)
    {
      pbt::failNow("the module cannot be loaded: " + std::string(path ? dlerror() : "no path"));
    }
    moduleLogger = (void* (*)(const std::string*))dlsym(handle, "lpbt_logger");
    moduleDiscard = (void (*)(void*))dlsym(handle, "lpbt_discard");
    moduleLog = (void (*)(void*, int, const std::string*, int, int))dlsym(handle, "lpbt_log");
  }

#ifndef LPBT_REAL
  // Takes each piece of output in one go, but others may run between them.
  class Sink : public std::streambuf
  {
  public:
    Sink() : previous(std::cout.rdbuf(this)) {}
    ~Sink() override { std::cout.rdbuf(previous); }
    std::string take() { return text; }

  private:
    std::string text;
    std::streambuf* previous;

    void yield()
    {
      if(sched::active())
      {
        sched::yield();
      }
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
      yield();
      {
        conc::Calm calm;
        text.append(s, (size_t)n);
      }
      yield();
      return n;
    }
    int overflow(int c) override
    {
      char x = (char)c;
      xsputn(&x, 1);
      return (unsigned char)x;
    }
    int sync() override
    {
      yield();
      return 0;
    }
  };
#else
  // The real thing, into memory.
  class Sink
  {
  public:
    Sink()
    {
      fflush(stdout);
      saved = dup(1);
      memory = memfd_create("log", 0);
      dup2(memory, 1);
    }
    ~Sink()
    {
      fflush(stdout);
      dup2(saved, 1);
      close(saved);
      close(memory);
    }
    std::string take()
    {
      fflush(stdout);
      std::string r;
      char block[4096];
      lseek(memory, 0, SEEK_SET);
      for(ssize_t n; (n = read(memory, block, sizeof(block))) > 0;)
      {
        r.append(block, (size_t)n);
      }
      return r;
    }

  private:
    int saved, memory;
  };
#endif

  struct Call
  {
    size_t logger;
    int severity, level;
    bool withLevel;
    std::string message, expected;
    double pause;
  };

  struct Logger
  {
    std::string prefix;
    bool module;
    std::unique_ptr<lp::log::Log> own;
    void* other = nullptr;
  };

  std::string text(Src& s)
  {
    switch(s.draw(6))
    {
      case 0: return "";
      case 1: return "a";
      case 2: return gen::bytes(s, s.draw(12));
      case 3: return s.pick(std::vector<std::string>{"[x] y", "] ", "  ", "\n", "a\nb", "%s%n", "\t", std::string("\0", 1), "[a] \n[b] "});
      case 4: return gen::bytes(s, gen::length(s, 70000));
      default: return "message " + std::to_string(s.draw(3));
    }
  }

  class World
  {
  public:
    explicit World(Case& c) : c(c), s(c.s) {}

    void run()
    {
      size_t nLoggers = 1 + s.draw(3), nThreads = 1 + s.draw(4);
      for(size_t i = 0; i < nLoggers; ++i)
      {
        loggers.emplace_back();
        loggers.back().prefix = text(s);
        loggers.back().module = s.flip();
        c << "logger " << i << ": " << pbt::quote(loggers.back().prefix) << (loggers.back().module ? " in the other module" : "") << "\n";
      }
      bool shared = s.flip();
      for(size_t t = 0; t < nThreads; ++t)
      {
        calls.emplace_back();
        for(pbt::List l(s, 8, 1); l.more();)
        {
          Call x;
          x.logger = shared ? s.draw(nLoggers) : t % nLoggers;
          x.severity = (int)s.draw(3);
          x.withLevel = !s.chance(1, 4);
          x.level = !x.withLevel ? 0 : s.chance(1, 8) ? (int)s.draw(200) : (int)s.draw(5);
          x.message = text(s);
          x.pause = s.chance(1, 4) ? (double)s.draw(3) : -1;
          x.expected = "[" + loggers[x.logger].prefix + "] " + std::string(2 * (size_t)x.level, ' ') + x.message + "\n";
          c << "thread " << t << ": logger " << x.logger << " severity " << x.severity << " level " << (x.withLevel ? std::to_string(x.level) : "not given") << ": " << pbt::quote(x.message) << "\n";
          calls.back().push_back(x);
        }
      }
      std::string output;
      conc::run(c, s.chance(1, 4), [&] {
        Sink sink;
        for(Logger& l : loggers)
        {
          l.module ? (void)(l.other = moduleLogger(&l.prefix)) : l.own.reset(new lp::log::Log(l.prefix));
        }
        if(nThreads == 1)
        {
          perform(0);
        }
        else
        {
          std::vector<std::thread> threads;
          for(size_t t = 0; t < nThreads; ++t)
          {
            threads.emplace_back([this, t] { perform(t); });
          }
          for(std::thread& t : threads)
          {
            t.join();
          }
        }
        for(Logger& l : loggers)
        {
          if(l.module)
          {
            moduleDiscard(l.other);
          }
          l.own.reset();
        }
        output = sink.take();
      });
      judge(output);
      c.nontrivial();
    }

  private:
    Case& c;
    Src& s;
    std::vector<Logger> loggers;
    std::vector<std::vector<Call>> calls;

    void perform(size_t t)
    {
      for(Call& x : calls[t])
      {
        if(x.pause >= 0)
        {
          conc::sleep(x.pause);
        }
        Logger& l = loggers[x.logger];
        if(l.module)
        {
          moduleLog(l.other, x.severity, &x.message, x.level, x.withLevel);
          continue;
        }
        switch(x.severity)
        {
          case 0: x.withLevel ? l.own->Info(x.message, x.level) : l.own->Info(x.message); break;
          case 1: x.withLevel ? l.own->Warning(x.message, x.level) : l.own->Warning(x.message); break;
          default: x.withLevel ? l.own->Error(x.message, x.level) : l.own->Error(x.message); break;
        }
      }
    }

    // Whether the output is a sequence of all the lines with those of each thread in order.
    void judge(const std::string& output)
    {
      std::set<std::pair<size_t, std::vector<size_t>>> states = {{0, std::vector<size_t>(calls.size(), 0)}};
      size_t furthest = 0;
      while(!states.empty())
      {
        auto state = *states.begin();
        states.erase(states.begin());
        furthest = std::max(furthest, state.first);
        bool all = true;
        for(size_t t = 0; t < calls.size(); ++t)
        {
          if(state.second[t] == calls[t].size())
          {
            continue;
          }
          all = false;
          const std::string& line = calls[t][state.second[t]].expected;
          if(output.compare(state.first, line.size(), line) == 0)
          {
            auto next = state;
            next.first += line.size();
            ++next.second[t];
            states.insert(next);
          }
        }
        if(all && state.first == output.size())
        {
          return;
        }
      }
      c.fail("the output is no sequence of the lines, from byte " + std::to_string(furthest) + " on: " + pbt::quote(output.substr(furthest), 400));
    }
  };

  void g01(Case& c) { World(c).run(); }

  const char* cRule = "up to 4 threads make up to 8 log calls each, through up to 3 loggers shared or not, of the program or of a module with a copy of the logger of its own; any prefixes, messages, severities, levels; "
#ifdef LPBT_REAL
                      "on real threads under the thread sanitizer, through the real standard output; "
#else
                      "run by a scheduler that draws every switch; each piece of output arrives whole, and others may run between pieces; "
#endif
                      "oracle: the output is an interleaving of the expected lines as a whole, each thread's in order; non-trivial: all";

#ifdef LPBT_REAL
  PBT_PROP({"G01.races", cRule, g01, 4000, 200000, 60, pbt::RealThreads, once});
#else
  PBT_PROP({"G01", cRule, g01, 60000, 4000000, 60, 0, once});
#endif
} // namespace
