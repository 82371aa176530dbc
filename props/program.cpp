// L02: the real program is sent termination signals.
#include <gen.h>

#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iterator>
#include <map>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using pbt::Case;
using pbt::Src;

namespace
{
  std::string sDirectory;

  std::string readFile(const std::string& path)
  {
    std::ifstream f(path, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  }

  void copy(const char* variable, const std::string& to)
  {
    const char* from = getenv(variable);
    if(from == nullptr)
    {
      pbt::failNow(std::string("no ") + variable);
    }
    std::ofstream(to, std::ios::binary) << readFile(from);
    chmod(to.c_str(), 0755);
  }

  void once()
  {
    sDirectory = Case::scratch() + "/program";
    mkdir(sDirectory.c_str(), 0755);
    mkdir((sDirectory + "/lib").c_str(), 0755);
    copy("LPBT_PROGRAM_LAMPPOST", sDirectory + "/lamppost");
    copy("LPBT_PLUGIN_JOURNAL", sDirectory + "/lib/libplugin_journal.so");
    copy("LPBT_PLUGIN_SYSINFO", sDirectory + "/lib/libplugin_sysinfo.so");
  }

  double now() { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

  struct Sending
  {
    size_t event;     // after how many journal lines
    int delay;
    int signal;
  };

  struct Process
  {
    pid_t pid = -1;
    int out = -1, journal = -1, status = 0;
    bool ended = false;

    ~Process()
    {
      if(pid > 0 && !ended)
      {
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
      }
      close(out);
      close(journal);
    }
    bool over()
    {
      if(!ended && waitpid(pid, &status, WNOHANG) == pid)
      {
        ended = true;
      }
      return ended;
    }
    // Whether a signal no longer has its default effect: it is caught, or blocked for good.
    bool handles(int signal)
    {
      if(mask("SigCgt:", signal))
      {
        return true;
      }
      blocked[signal == SIGINT] = mask("SigBlk:", signal) ? blocked[signal == SIGINT] + 1 : 0;
      return blocked[signal == SIGINT] > 50;
    }
    int blocked[2] = {0, 0};
    bool mask(const std::string& name, int signal)
    {
      std::ifstream f("/proc/" + std::to_string(pid) + "/status");
      std::string line;
      unsigned long long mask = 0;
      while(std::getline(f, line))
      {
        if(line.compare(0, 7, name) == 0)
        {
          mask = strtoull(line.c_str() + 7, nullptr, 16);
        }
      }
      return mask & (1ull << (signal - 1));
    }
  };

  void signals(Case& c)
  {
    Src& s = c.s;
    std::string script, config = "{\"plugins\": [";
    size_t instances = s.draw(5), entries = 0;
    // Signals as early as possible only, with the program stopped in its tracks by its first lines of output.
    bool early = s.chance(1, 5);
    bool own = false;
    static const std::vector<int> waits = {0, 0, 1, 10, 60};
    for(size_t i = 0; i < instances; ++i)
    {
      int at = !early && s.chance(1, 5) ? 1 + (int)s.draw(5) : 0;
      int publish = s.flip() || at == 4 ? 5 * (1 + (int)s.draw(3)) : 0;
      own = own || at;
      std::ostringstream o;
      o << s.pick(waits) << " " << s.pick(waits) << " " << s.pick(std::vector<int>{-1, -1, 0, 5, 50}) << " " << s.pick(waits) << " " << publish << " " << at << " " << (s.flip() ? SIGTERM : SIGINT) << " "
        << 1 + s.draw(3) << " " << s.draw(2) << "\n";
      script += o.str();
      config += std::string(entries++ ? ", " : "") + "{\"type\": \"Journal\"}";
    }
    switch(s.draw(6))
    {
      case 4: config += std::string(entries++ ? ", " : "") + "{\"type\": \"SysInfo\", \"configuration\": {\"send-datagram\": true}}"; break;
      case 5: config += std::string(entries++ ? ", " : "") + "{\"type\": \"Nothing\"}"; break;
      default: break;
    }
    config += "]}";
    bool stalled = early || s.chance(1, 4);
    int drainAfter = s.pick(std::vector<int>{0, 30, 150});
    bool file = !s.chance(1, 10);
    std::vector<Sending> sendings;
    for(pbt::List l(s, 5, 1); l.more();)
    {
      Sending x;
      x.event = early ? 0 : s.draw(3 + instances * 5);
      x.delay = s.pick(std::vector<int>{0, 0, 0, 1, 3, 30, 120, 250});
      x.signal = s.chance(1, 3) ? SIGINT : SIGTERM;
      sendings.push_back(x);
      c << "signal " << x.signal << " " << x.delay << " ms after journal line " << x.event << "\n";
    }
    c << "scripts (create, init, run, deinit, publish ms; point, signal, times, own thread):\n" << script << (file ? "configuration " : "no configuration: ") << config << (stalled ? ", output not read at first" : "") << "\n";
    std::ofstream(sDirectory + "/c.json") << config;

    int out[2], journal[2];
    if(pipe2(out, O_CLOEXEC) != 0 || pipe2(journal, O_CLOEXEC) != 0)
    {
      pbt::failNow("no pipes");
    }
    if(stalled)
    {
      fcntl(out[1], F_SETPIPE_SZ, 4096);
      std::string fill(early || s.flip() ? 4096 - s.draw(80) : 4096 - s.draw(2000), '.');
      if(write(out[1], fill.data(), fill.size()) < 0)
      {
      }
    }
    Process p;
    p.out = out[0];
    p.journal = journal[0];
    p.pid = fork();
    if(p.pid == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int j = dup(journal[1]);
      dup2(out[1], 1);
      dup2(out[1], 2);
      signal(SIGTERM, SIG_DFL);
      signal(SIGINT, SIG_DFL);
      sigset_t none;
      sigemptyset(&none);
      sigprocmask(SIG_SETMASK, &none, nullptr);
      setenv("LPBT_JOURNAL", std::to_string(j).c_str(), 1);
      setenv("LPBT_SCRIPT", script.c_str(), 1);
      setenv("ASAN_OPTIONS", "detect_leaks=0:detect_odr_violation=0:abort_on_error=0:exitcode=99", 1);
      setenv("UBSAN_OPTIONS", "print_stacktrace=1", 1);
      if(chdir(sDirectory.c_str()) == 0)
      {
        execl("./lamppost", "./lamppost", file ? "c.json" : nullptr, nullptr);
      }
      _exit(98);
    }
    close(out[1]);
    close(journal[1]);
    fcntl(out[0], F_SETFL, O_NONBLOCK);
    fcntl(journal[0], F_SETFL, O_NONBLOCK);

    std::string text, lines;
    bool draining = !stalled, journalOpen = true;
    size_t sent = 0;
    double begin = now(), waiting = begin, due = -1, allSent = -1;
    for(;;)
    {
      char b[4096];
      ssize_t n;
      while(draining && (n = read(p.out, b, sizeof b)) > 0)
      {
        text.append(b, n);
      }
      while(journalOpen && (n = read(p.journal, b, sizeof b)) != -1)
      {
        journalOpen = n > 0;
        lines.append(b, n);
      }
      if(p.over())
      {
        break;
      }
      double t = now();
      // It may be stalled before it handles any signal.
      draining = draining || (sent == 0 && due < 0 && t > begin + 1200);
      if(sent < sendings.size())
      {
        Sending& x = sendings[sent];
        size_t seen = (size_t)std::count(lines.begin(), lines.end(), '\n');
        if(due < 0 && (seen >= x.event || (t > waiting + 400 && sent > 0) || t > waiting + 1000) && p.handles(x.signal))
        {
          due = t + x.delay;
        }
        if(due >= 0 && now() >= due)
        {
          if(sent == 0 && !own && p.over())
          {
            break;
          }
          kill(p.pid, x.signal);
          ++sent;
          due = -1;
          waiting = allSent = now();
          continue;
        }
      }
      else
      {
        draining = draining || t > allSent + drainAfter;
      }
      double since = sent < sendings.size() ? waiting : allSent;
      if(t > since + 30000)
      {
        c.fail(sent < sendings.size() ? "the program does not get going" : "the program does not end within 30 s of the last signal; journal: " + pbt::quote(lines, 400) + ", output ends with: " + pbt::quote(text.size() > 600 ? text.substr(text.size() - 600) : text, 700));
      }
      pollfd f[2] = {{p.journal, POLLIN, 0}, {p.out, POLLIN, 0}};
      poll(f + !journalOpen, journalOpen + draining, 1);
    }
    ssize_t n;
    char b[4096];
    while((n = read(p.out, b, sizeof b)) > 0)
    {
      text.append(b, n);
    }
    while((n = read(p.journal, b, sizeof b)) > 0)
    {
      lines.append(b, n);
    }
    std::string tail = "; journal: " + pbt::quote(lines, 400) + ", output ends with: " + pbt::quote(text.size() > 1500 ? text.substr(text.size() - 1500) : text, 1600);
    c.checkf(sent > 0 || own, [&] { return "the program ended before it was asked to" + tail; });
    c.checkf(WIFEXITED(p.status), [&] { return "the program was ended by signal " + std::to_string(WTERMSIG(p.status)) + tail; });
    c.checkf(WEXITSTATUS(p.status) == 0, [&] { return "the program ended with status " + std::to_string(WEXITSTATUS(p.status)) + tail; });

    std::map<int, std::string> per;
    std::istringstream in(lines);
    std::string line;
    while(std::getline(in, line))
    {
      if(line.size() > 1 && line[0] != 'h')
      {
        per[atoi(line.c_str() + 1)] += line[0];
      }
    }
    bool any = false;
    for(auto& e : per)
    {
      if(e.second.find('i') != std::string::npos)
      {
        any = true;
        c.checkf(e.second == "cirRdD" || e.second == "cidD", [&] { return "instance " + std::to_string(e.first) + " went through " + e.second + tail; });
      }
    }
    if(any)
    {
      c.nontrivial();
    }
    c.label(stalled ? "output stalled" : "output read");
    if(own)
    {
      c.label("signals from within");
    }
  }

  PBT_PROP({"L02.signals",
            "the real program (main.cpp, signal handling) with a plugin library whose 0 to 4 instances write down what happens to them and up to 5 signals (SIGTERM, SIGINT) sent from outside at any point from when they are handled, "
            "or by a plugin thread at a point of its life (process-wide or to itself), possibly while its output is not being read; oracle: exit status 0 within 30 s of the last signal and not before the first, every initialised "
            "instance has run at most once, its worker ended before it was deinitialised, once; non-trivial: an instance was initialised",
            signals, 300, 20000, 90, pbt::RealThreads, once});
} // namespace
