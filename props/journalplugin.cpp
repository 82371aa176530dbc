// A plugin for the real program: does what a script says and writes down what happens to it.
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <sstream>

#include <unistd.h>

#include <lamppost/plugin/PluginInstance.h>
#include <lamppost/plugin/PluginTemplateInfo.h>

namespace
{
  struct Script
  {
    int createMs = 0, initMs = 0, runMs = -1, deinitMs = 0, publishMs = 0;
    int at = 0, signal = 0, times = 0, own = 0;
  };

  std::vector<Script> sScripts;
  std::atomic<int> sMade(0);

  void read()
  {
    const char* all = getenv("LPBT_SCRIPT");
    std::istringstream in(all != nullptr ? all : "");
    Script s;
    while(in >> s.createMs >> s.initMs >> s.runMs >> s.deinitMs >> s.publishMs >> s.at >> s.signal >> s.times >> s.own)
    {
      sScripts.push_back(s);
    }
  }

  void journal(char what, int n)
  {
    const char* fd = getenv("LPBT_JOURNAL");
    char line[32];
    int size = snprintf(line, sizeof line, "%c%d\n", what, n);
    if(fd == nullptr || write(atoi(fd), line, size) != size)
    {
      abort();
    }
  }

  class Journal : public lp::PluginInstance
  {
  public:
    Journal(lp::PluginConfiguration configuration, int n, Script s) : PluginInstance(configuration), n(n), s(s)
    {
      point(1, 'c');
      Sleep(std::chrono::milliseconds(s.createMs));
    }
    void Initialize() override
    {
      point(2, 'i');
      if(s.publishMs > 0)
      {
        publisher = GetPublisher("/journal");
        subscriber = GetSubscriber("/journal", [this](lp::messages::Datagram) {
          if(!heard)
          {
            heard = true;
            point(4, 'h');
          }
        });
      }
      Sleep(std::chrono::milliseconds(s.initMs));
    }
    void Run() override
    {
      point(3, 'r');
      int t = 0;
      while(mShouldRun && (s.runMs < 0 || t < s.runMs))
      {
        if(publisher != nullptr && t % s.publishMs == 0)
        {
          publisher->Publish(lp::messages::Datagram(std::string("hello")));
        }
        Sleep(std::chrono::milliseconds(5));
        t += 5;
      }
      journal('R', n);
    }
    void Deinitialize() override
    {
      point(5, 'd');
      Sleep(std::chrono::milliseconds(s.deinitMs));
      if(publisher != nullptr)
      {
        DeletePublisher(publisher);
        DeleteSubscriber(subscriber);
      }
      journal('D', n);
    }

  private:
    int n;
    Script s;
    bool heard = false;
    std::shared_ptr<lp::bus::Publisher> publisher;
    std::shared_ptr<lp::bus::Subscriber> subscriber;

    void point(int p, char what)
    {
      journal(what, n);
      for(int i = 0; s.at == p && i < s.times; ++i)
      {
        s.own ? raise(s.signal) : kill(getpid(), s.signal);
      }
    }
  };
} // namespace

extern "C"
{
  lp::PluginTemplateInfo* CreateInfo()
  {
    read();
    lp::PluginTemplateInfo* i = new lp::PluginTemplateInfo;
    i->mIdentifier = "Journal";
    return i;
  }
  lp::PluginInstance* CreateInstance(lp::PluginConfiguration configuration)
  {
    int n = sMade++;
    return new Journal(configuration, n, n < (int)sScripts.size() ? sScripts[n] : Script());
  }
}
