#include "lpbt.h"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C"
{
  const char* __asan_default_options()
  {
    return "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:"
#ifdef LPBT_FAILING_ALLOCATIONS
           // For libraries that deal with it.
           "allocator_may_return_null=1:"
#endif
           "detect_odr_violation=0:max_allocation_size_mb=4096:"
           "hard_rss_limit_mb=3500:malloc_context_size=8:handle_abort=1:print_legend=0:quarantine_size_mb=32";
  }
  const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
  const char* __tsan_default_options()
  {
    return "exitcode=66:halt_on_error=1:report_thread_leaks=0:report_signal_unsafe=0:report_destroy_locked=0:"
           "report_mutex_bugs=0:detect_deadlocks=0:history_size=4:ignore_noninstrumented_modules=0:die_after_fork=0";
  }
}

namespace pbt
{
  static const size_t cMaxLabels = 64;
  static const int cFailExit = 77;

  struct Shared
  {
    volatile uint64_t caseIndex;   // index + 1 of the running case, 0 if none
    volatile uint64_t startMs;
    volatile uint64_t recCount;
    volatile uint64_t cases, nontrivial, discarded, done;
    volatile uint64_t labelCount[cMaxLabels];
    volatile uint64_t choices;
    char labelName[cMaxLabels][40];
    char message[16384];
    char description[65536];
    volatile uint64_t nontrivialCase[8];  // first few non-trivial case indices, + 1
    uint64_t rec[Src::cMaxRec];
  };

  uint64_t* Src::sRec = nullptr;
  volatile uint64_t* Src::sRecCount = nullptr;

  static Shared* sShared = nullptr;
  static std::string sScratch;
  static uint64_t sSeed = 1;

  static std::vector<Prop>& props()
  {
    static std::vector<Prop> p;
    return p;
  }

  Register::Register(Prop p) { props().push_back(p); }

  static uint64_t splitmix(uint64_t& x)
  {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }

  void Src::InitRandom(uint64_t seed)
  {
    mMode = Random;
    for(uint64_t& s : mState)
    {
      s = splitmix(seed);
    }
    mCount = 0;
    if(sRecCount)
    {
      *sRecCount = 0;
    }
  }

  void Src::InitReplay(const std::vector<uint64_t>& choices)
  {
    mMode = Replay;
    mReplay = choices;
    mCount = 0;
    mPos = 0;
    if(sRecCount)
    {
      *sRecCount = 0;
    }
  }

  const size_t Src::cMaxRec;

  void Src::InitBytes(const uint8_t* data, size_t size)
  {
    mMode = Bytes;
    mData = data;
    mSize = size;
    mPos = 0;
    mCount = 0;
    if(sRecCount)
    {
      *sRecCount = 0;
    }
  }

  static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

  std::string Src::blob(size_t n)
  {
    if(mMode == Bytes)
    {
      std::string r((const char*)mData + std::min(mPos, mSize), mSize - std::min(mPos, mSize));
      mPos = mSize;
      return r;
    }
    std::string r;
    for(size_t i = 0; i < n; ++i)
    {
      r += (char)draw(256);
    }
    return r;
  }

  uint64_t Src::draw(uint64_t n)
  {
    uint64_t v = 0;

    if(n > 1)
    {
      switch(mMode)
      {
        case Random:
        {
          uint64_t r = rotl(mState[1] * 5, 7) * 9, t = mState[1] << 17;
          mState[2] ^= mState[0];
          mState[3] ^= mState[1];
          mState[1] ^= mState[2];
          mState[0] ^= mState[3];
          mState[2] ^= t;
          mState[3] = rotl(mState[3], 45);
          v = (uint64_t)(((unsigned __int128)r * n) >> 64);
        } break;

        case Replay:
          if(mPos < mReplay.size())
          {
            v = mReplay[mPos] % n;
          }
          break;

        case Bytes:
        {
          int bytes = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
          uint64_t r = 0;
          for(int i = 0; i < bytes && mPos < mSize; ++i)
          {
            r |= (uint64_t)mData[mPos++] << (8 * i);
          }
          v = r % n;
        } break;
      }
    }

    if(mMode == Replay)
    {
      ++mPos;
    }

    if(sRec && mCount < cMaxRec)
    {
      sRec[mCount] = v;
    }
    ++mCount;
    if(sRecCount)
    {
      *sRecCount = mCount;
    }
    mHash = (mHash ^ v) * 1099511628211ull;
    mHash ^= mHash >> 29;

    return v;
  }

  std::vector<uint64_t> Src::Recorded() const
  {
    return std::vector<uint64_t>(sRec, sRec + std::min(mCount, cMaxRec));
  }

  size_t Src::weighted(std::initializer_list<unsigned> weights)
  {
    unsigned sum = 0;
    for(unsigned w : weights)
    {
      sum += w;
    }
    uint64_t v = draw(sum);
    size_t i = 0;
    for(unsigned w : weights)
    {
      if(v < w)
      {
        return i;
      }
      v -= w;
      ++i;
    }
    return 0;
  }

  size_t Src::size(size_t max)
  {
    size_t cap = max;
    switch(weighted({8, 6, 3, 1}))
    {
      case 0: cap = std::min<size_t>(max, 3); break;
      case 1: cap = std::min<size_t>(max, 10); break;
      case 2: cap = std::min<size_t>(max, std::max<size_t>(16, max / 8)); break;
      default: break;
    }
    return draw(cap + 1);
  }

  List::List(Src& src, size_t max, size_t min) : mSrc(src), mMax(max), mMin(min)
  {
    static const unsigned dens[] = {3, 6, 16, 48, 160};
    unsigned options = 1;
    while(options < 5 && dens[options] < 2 * max)
    {
      ++options;
    }
    // Weighted towards short lists.
    uint64_t d = src.draw(12);
    unsigned which = d < 4 ? 0 : d < 8 ? 1 : d < 10 ? 2 : d < 11 ? 3 : 4;
    mDen = dens[std::min(which, options - 1)];
  }

  bool List::more()
  {
    bool result = mIndex < mMin || (mIndex < mMax && mSrc.chance(mDen - 1, mDen));
    if(result)
    {
      ++mIndex;
    }
    return result;
  }

  void Case::label(const char* name)
  {
    if(!sShared)
    {
      return;
    }
    for(size_t i = 0; i < cMaxLabels; ++i)
    {
      if(sShared->labelName[i][0] == 0)
      {
        strncpy(sShared->labelName[i], name, 39);
      }
      if(strncmp(sShared->labelName[i], name, 39) == 0)
      {
        sShared->labelCount[i] = sShared->labelCount[i] + 1;
        return;
      }
    }
  }

  void Case::show()
  {
    if(sShared)
    {
      // Kept up to date, so that it is there after a crash.
      std::string d = mDesc.str();
      size_t n = std::min(d.size(), sizeof(sShared->description) - 1);
      memcpy(sShared->description, d.data(), n);
      sShared->description[n] = 0;
    }
  }

  std::string Case::scratch() { return sScratch; }
  uint64_t Case::seed() { return sSeed; }

  std::string quote(const std::string& s, size_t max)
  {
    std::string r = "\"";
    for(size_t i = 0; i < s.size() && i < max; ++i)
    {
      unsigned char c = s[i];
      if(c == '"' || c == '\\')
      {
        r += '\\';
        r += c;
      }
      else if(c >= 32 && c < 127)
      {
        r += c;
      }
      else
      {
        char b[8];
        snprintf(b, sizeof b, "\\x%02x", c);
        r += b;
      }
    }
    r += "\"";
    if(s.size() > max)
    {
      r += "...(" + std::to_string(s.size()) + " bytes)";
    }
    return r;
  }

  static uint64_t nowMs()
  {
    // clock_gettime as a system call, not through anything a harness may wrap.
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
  }

  static void setMessage(const std::string& m)
  {
    if(sShared)
    {
      size_t n = std::min(m.size(), sizeof(sShared->message) - 1);
      memcpy(sShared->message, m.data(), n);
      sShared->message[n] = 0;
    }
  }

  bool (*failAtOnce)() = nullptr;

  void Case::fail(const std::string& message)
  {
    if(failAtOnce != nullptr && failAtOnce())
    {
      failNow(message);
    }
    throw Fail{message};
  }

  void failNow(const std::string& message)
  {
    setMessage(message);
    _exit(cFailExit);
  }

  static int rmOne(const char* path, const struct stat*, int, struct FTW*) { return remove(path); }
  static void removeTree(const std::string& path)
  {
    if(path.size() > 12 && path.find("/lpbt-") != std::string::npos)
    {
      nftw(path.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS);
    }
  }

  static uint64_t caseSeed(const Prop& p, uint64_t index)
  {
    uint64_t h = 1469598103934665603ull ^ (sSeed * 0x9e3779b97f4a7c15ull);
    for(const char* c = p.name; *c; ++c)
    {
      h = (h ^ (unsigned char)*c) * 1099511628211ull;
    }
    h ^= index * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull;
    return splitmix(h);
  }

  // Runs one case; returns true if it passed (or was discarded).
  static bool runCase(const Prop& p, Src& src, bool verbose, bool* discarded, bool* nontrivial)
  {
    bool ok = true;
    Case c(src, verbose);
    *discarded = false;
    try
    {
      p.run(c);
    }
    catch(const Fail& f)
    {
      setMessage(f.message);
      ok = false;
    }
    catch(const Discard&)
    {
      *discarded = true;
    }
    catch(const std::exception& e)
    {
      setMessage(std::string("unexpected exception: ") + e.what());
      ok = false;
    }
    *nontrivial = c.isNontrivial();
    return ok;
  }

  static Shared* newShared()
  {
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(m == MAP_FAILED)
    {
      perror("mmap");
      exit(3);
    }
    return static_cast<Shared*>(m);
  }

  static std::string sTmpRoot;

  static void childSetup(const Prop& p, Shared* sh, const std::string& errPath, const char* tag)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    sShared = sh;
    Src::sRec = sh->rec;
    Src::sRecCount = &sh->recCount;
    sScratch = sTmpRoot + "/" + tag + "-" + std::to_string(getpid());
    mkdir(sScratch.c_str(), 0777);
    int fd = open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
    if(fd >= 0)
    {
      dup2(fd, 2);
      close(fd);
    }
    if(!(p.flags & KeepStdout))
    {
      int null = open("/dev/null", O_WRONLY);
      dup2(null, 1);
      close(null);
    }
    int null = open("/dev/null", O_RDONLY);
    dup2(null, 0);
    close(null);
    if(chdir(sScratch.c_str()) != 0)
    {
      _exit(3);
    }
    if(p.once)
    {
      p.once();
    }
  }

  static std::string readFile(const std::string& path, size_t max = 1 << 20)
  {
    std::string r;
    FILE* f = fopen(path.c_str(), "rb");
    if(f)
    {
      char b[65536];
      size_t n;
      while((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < max)
      {
        r.append(b, n);
      }
      fclose(f);
    }
    return r;
  }

  static std::string summarise(const std::string& err)
  {
    size_t pos = err.find("SUMMARY: ");
    if(pos != std::string::npos)
    {
      return err.substr(pos, err.find('\n', pos) - pos);
    }
    for(const char* key : {"runtime error:", "ERROR: ", "terminate called", "WARNING: ThreadSanitizer", "what():", "Assertion"})
    {
      pos = err.find(key);
      if(pos != std::string::npos)
      {
        size_t start = err.rfind('\n', pos);
        start = start == std::string::npos ? 0 : start + 1;
        return err.substr(start, err.find('\n', pos) - start);
      }
    }
    return err.substr(0, 300);
  }

  enum class Outcome { Pass, Fail, Crash, Hang, Infra };
  static const char* outcomeName(Outcome o)
  {
    switch(o)
    {
      case Outcome::Pass: return "pass";
      case Outcome::Fail: return "fail";
      case Outcome::Crash: return "crash";
      case Outcome::Hang: return "hang";
      default: return "infra";
    }
  }

  struct Result
  {
    Outcome outcome = Outcome::Pass;
    std::string message;
    std::string err;
    std::vector<uint64_t> choices;
    std::string description;
    bool nontrivial = false;
  };

  static Outcome classify(int status)
  {
    if(WIFEXITED(status))
    {
      int code = WEXITSTATUS(status);
      return code == 0 ? Outcome::Pass : code == cFailExit ? Outcome::Fail : code == 3 ? Outcome::Infra : Outcome::Crash;
    }
    int sig = WTERMSIG(status);
    return sig == SIGKILL ? Outcome::Infra : Outcome::Crash;
  }

  struct Range
  {
    uint64_t first = 0, step = 1, last = 0;
  };

  static void killGroup(pid_t pid)
  {
    kill(-pid, SIGKILL);
    kill(pid, SIGKILL);
  }

  // Runs one case given by its choices (or a range of random cases) in a child of its own.
  static Result runIsolated(const Prop& p, const std::vector<uint64_t>* choices, const Range* range, bool verbose, int timeoutS)
  {
    static Shared* sh = newShared();
    static int serial = 0;
    memset((void*)sh, 0, offsetof(Shared, rec));
    std::string errPath = sTmpRoot + "/iso-" + std::to_string(serial++ % 4) + ".err";
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0)
    {
      childSetup(p, sh, errPath, "iso");
      bool d, nt;
      bool ok = true;
      if(choices)
      {
        Src src;
        src.InitReplay(*choices);
        ok = runCase(p, src, verbose, &d, &nt);
        sh->nontrivial = nt;
      }
      else
      {
        for(uint64_t i = range->first; ok && i <= range->last; i += range->step)
        {
          Src src;
          src.InitRandom(caseSeed(p, i));
          ok = runCase(p, src, verbose && i == range->last, &d, &nt);
          sh->nontrivial = nt;
        }
      }
      fflush(stdout);
      _exit(ok ? 0 : cFailExit);
    }
    Result r;
    uint64_t start = nowMs();
    int status = 0;
    bool hang = false;
    useconds_t nap = 200;
    while(waitpid(pid, &status, WNOHANG) == 0)
    {
      if(nowMs() - start > (uint64_t)timeoutS * 1000)
      {
        hang = true;
        killGroup(pid);
        waitpid(pid, &status, 0);
        break;
      }
      usleep(nap);
      nap = std::min<useconds_t>(nap * 2, 5000);
    }
    killGroup(pid);
    removeTree(sTmpRoot + "/iso-" + std::to_string(pid));
    r.outcome = hang ? Outcome::Hang : classify(status);
    r.message = sh->message;
    r.description = sh->description;
    r.nontrivial = sh->nontrivial;
    r.choices.assign(sh->rec, sh->rec + std::min<uint64_t>((uint64_t)sh->recCount, (uint64_t)Src::cMaxRec));
    if(r.outcome == Outcome::Crash)
    {
      r.err = readFile(errPath);
      r.message = summarise(r.err);
      if(WIFSIGNALED(status))
      {
        r.message = "signal " + std::to_string(WTERMSIG(status)) + ": " + r.message;
      }
      else
      {
        r.message = "exit " + std::to_string(WEXITSTATUS(status)) + ": " + r.message;
      }
    }
    if(r.outcome == Outcome::Hang)
    {
      r.message = "the case does not finish within " + std::to_string(timeoutS) + " s";
    }
    return r;
  }

  static bool smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
  {
    if(a.size() != b.size())
    {
      return a.size() < b.size();
    }
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
  }

  static Result shrink(const Prop& p, Result best, int budgetS, uint64_t* tried)
  {
    uint64_t deadline = nowMs() + (uint64_t)budgetS * 1000;
    int timeoutS = std::min(p.hangSeconds, 20);

    while(!best.choices.empty() && best.choices.back() == 0)
    {
      best.choices.pop_back();
    }

    auto attempt = [&](std::vector<uint64_t> candidate)
    {
      while(!candidate.empty() && candidate.back() == 0)
      {
        candidate.pop_back();
      }
      if(nowMs() >= deadline || !smaller(candidate, best.choices))
      {
        return false;
      }
      ++*tried;
      Result r = runIsolated(p, &candidate, nullptr, false, timeoutS);
      if(r.outcome != best.outcome)
      {
        return false;
      }
      while(!r.choices.empty() && r.choices.back() == 0)
      {
        r.choices.pop_back();
      }
      if(!smaller(r.choices, candidate))
      {
        r.choices = candidate;
      }
      best = r;
      return true;
    };

    bool progress = true;
    while(progress && nowMs() < deadline)
    {
      progress = false;
      // Truncate.
      for(size_t keep = 0; keep < best.choices.size() && nowMs() < deadline; keep = keep == 0 ? best.choices.size() / 2 : keep + std::max<size_t>(1, (best.choices.size() - keep) / 2))
      {
        std::vector<uint64_t> c(best.choices.begin(), best.choices.begin() + keep);
        if(attempt(c))
        {
          progress = true;
          keep = 0;
        }
        if(keep + 1 >= best.choices.size())
        {
          break;
        }
      }
      // Delete blocks.
      size_t block = 1;
      while(block * 2 <= std::min<size_t>(best.choices.size(), 4096))
      {
        block *= 2;
      }
      for(; block >= 1 && nowMs() < deadline; block = block > 8 ? block / 2 : block - 1)
      {
        size_t i = best.choices.size() >= block ? best.choices.size() - block : 0;
        while(nowMs() < deadline && best.choices.size() >= block)
        {
          std::vector<uint64_t> c = best.choices;
          c.erase(c.begin() + i, c.begin() + std::min(c.size(), i + block));
          if(attempt(c))
          {
            progress = true;
            i = std::min(i, best.choices.size() >= block ? best.choices.size() - block : 0);
            if(best.choices.size() < block)
            {
              break;
            }
          }
          else
          {
            if(i == 0)
            {
              break;
            }
            i = i > std::max<size_t>(1, block / 2) ? i - std::max<size_t>(1, block / 2) : 0;
          }
        }
      }
      // Reduce values.
      for(size_t i = 0; i < best.choices.size() && nowMs() < deadline; ++i)
      {
        if(best.choices[i] == 0)
        {
          continue;
        }
        std::vector<uint64_t> c = best.choices;
        c[i] = 0;
        if(attempt(c))
        {
          progress = true;
          continue;
        }
        uint64_t lo = 0;
        while(i < best.choices.size() && best.choices[i] - lo > 1 && nowMs() < deadline)
        {
          uint64_t mid = lo + (best.choices[i] - lo) / 2;
          c = best.choices;
          c[i] = mid;
          if(attempt(c))
          {
            progress = true;
          }
          else
          {
            lo = mid;
          }
        }
      }
    }

    return best;
  }

  static std::string jsonString(const std::string& s)
  {
    std::string r = "\"";
    for(unsigned char c : s)
    {
      if(c == '"' || c == '\\')
      {
        r += '\\';
        r += c;
      }
      else if(c >= 32 && c < 127)
      {
        r += c;
      }
      else
      {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      }
    }
    return r + "\"";
  }

  static void writeReplay(const std::string& path, const Prop& p, const Result& r, const Range* range, int reproduced)
  {
    FILE* f = fopen(path.c_str(), "w");
    if(!f)
    {
      perror(path.c_str());
      return;
    }
    fprintf(f, "lpbt-replay 1\nprop %s\nseed %llu\noutcome %s\nreproduced %d/3\n", p.name, (unsigned long long)sSeed, outcomeName(r.outcome), reproduced);
    if(range)
    {
      fprintf(f, "range %llu %llu %llu\n", (unsigned long long)range->first, (unsigned long long)range->step, (unsigned long long)range->last);
    }
    else
    {
      fprintf(f, "choices %zu", r.choices.size());
      for(uint64_t c : r.choices)
      {
        fprintf(f, " %llu", (unsigned long long)c);
      }
      fprintf(f, "\n");
    }
    fprintf(f, "message %s\n----\n%s\n----\n%s\n", jsonString(r.message).c_str(), r.description.c_str(), r.err.substr(0, 20000).c_str());
    fclose(f);
  }

  static const Prop* findProp(const std::string& name)
  {
    for(const Prop& p : props())
    {
      if(name == p.name)
      {
        return &p;
      }
    }
    fprintf(stderr, "no property %s here\n", name.c_str());
    exit(3);
  }

  static int cmdReplay(const std::string& path)
  {
    FILE* f = fopen(path.c_str(), "r");
    if(!f)
    {
      perror(path.c_str());
      return 3;
    }
    char name[128] = "";
    unsigned long long seed = 1, a, b, c;
    std::vector<uint64_t> choices;
    Range range;
    bool haveRange = false, haveChoices = false;
    char line[256];
    char word[64];
    (void)line;
    while(fscanf(f, "%63s", word) == 1)
    {
      std::string w = word;
      if(w == "prop")
      {
        if(fscanf(f, "%127s", name) != 1) break;
      }
      else if(w == "seed")
      {
        if(fscanf(f, "%llu", &seed) != 1) break;
      }
      else if(w == "range")
      {
        if(fscanf(f, "%llu %llu %llu", &a, &b, &c) != 3) break;
        range.first = a;
        range.step = b;
        range.last = c;
        haveRange = true;
      }
      else if(w == "choices")
      {
        if(fscanf(f, "%llu", &a) != 1) break;
        haveChoices = true;
        for(; a > 0 && fscanf(f, "%llu", &b) == 1; --a)
        {
          choices.push_back(b);
        }
      }
      else if(w == "message" || w == "----")
      {
        break;
      }
    }
    fclose(f);
    const Prop* p = findProp(name);
    sSeed = seed;
    Result r = runIsolated(*p, haveChoices ? &choices : nullptr, haveRange ? &range : nullptr, true, p->hangSeconds);
    printf("property %s: %s\n%s\n----\n%s\n----\n%s\n", name, outcomeName(r.outcome), r.message.c_str(), r.description.c_str(), r.err.substr(0, 20000).c_str());
    return r.outcome == Outcome::Pass ? 0 : 1;
  }

  static int cmdRun(int argc, char** argv)
  {
    std::string name, out, replayDir = ".";
    uint64_t cases = 0;
    int workers = 8, capS = 300, shrinkS = 40;
    bool thorough = false;
    for(int i = 2; i + 1 < argc; i += 2)
    {
      std::string a = argv[i], v = argv[i + 1];
      if(a == "--prop") name = v;
      else if(a == "--out") out = v;
      else if(a == "--cases") cases = strtoull(v.c_str(), nullptr, 10);
      else if(a == "--seed") sSeed = strtoull(v.c_str(), nullptr, 10);
      else if(a == "--workers") workers = atoi(v.c_str());
      else if(a == "--cap") capS = atoi(v.c_str());
      else if(a == "--shrink") shrinkS = atoi(v.c_str());
      else if(a == "--replays") replayDir = v;
      else if(a == "--tier") thorough = v == "thorough";
    }
    const Prop& p = *findProp(name);
    if(cases == 0)
    {
      cases = thorough ? p.thorough : p.quick;
    }
    if(p.flags & Sequential)
    {
      workers = 1;
    }
    if(p.flags & HalfWorkers)
    {
      workers = std::max(1, workers / 2);
    }
    workers = (int)std::min<uint64_t>(workers, cases);

    struct Worker
    {
      pid_t pid = -1;
      Shared* sh = nullptr;
      uint64_t next = 0;
      uint64_t rangeFirst = 0;
      uint64_t lastMemKill = ~0ull;
      int infra = 0;
      std::string err;
      uint64_t* hashes = nullptr;
      bool finished = false;
    };
    std::vector<Worker> ws(workers);
    size_t perWorker = cases / workers + 2;
    uint64_t t0 = nowMs();

    auto start = [&](int w)
    {
      Worker& k = ws[w];
      k.rangeFirst = k.next;
      fflush(stdout);
      pid_t pid = fork();
      if(pid == 0)
      {
        childSetup(p, k.sh, k.err, ("w" + std::to_string(w)).c_str());
        for(uint64_t i = k.next; i < cases; i += workers)
        {
          if(nowMs() - t0 > (uint64_t)capS * 1000)
          {
            break;
          }
          k.sh->startMs = nowMs();
          k.sh->caseIndex = i + 1;
          Src src;
          src.InitRandom(caseSeed(p, i));
          bool d, nt;
          if(!runCase(p, src, false, &d, &nt))
          {
            _exit(cFailExit);
          }
          k.sh->cases = k.sh->cases + 1;
          k.sh->choices = k.sh->choices + src.Count();
          if(d)
          {
            k.sh->discarded = k.sh->discarded + 1;
          }
          else if(nt)
          {
            if(k.sh->nontrivial < perWorker)
            {
              k.hashes[k.sh->nontrivial] = src.Hash();
            }
            if(k.sh->nontrivial < 8)
            {
              k.sh->nontrivialCase[k.sh->nontrivial] = i + 1;
            }
            k.sh->nontrivial = k.sh->nontrivial + 1;
          }
        }
        fflush(stdout);
        _exit(0);
      }
      setpgid(pid, pid);
      k.pid = pid;
    };

    for(int w = 0; w < workers; ++w)
    {
      ws[w].sh = newShared();
      ws[w].hashes = static_cast<uint64_t*>(mmap(nullptr, perWorker * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      ws[w].next = w;
      ws[w].err = sTmpRoot + "/w" + std::to_string(w) + ".err";
      start(w);
    }

    Result failure;
    bool failed = false;
    uint64_t failCase = 0;
    Range failRange;
    int running = workers, inconclusive = 0;
    while(running > 0 && !failed)
    {
      usleep(2000);
      for(int w = 0; w < workers && !failed; ++w)
      {
        Worker& k = ws[w];
        if(k.finished)
        {
          continue;
        }
        int status = 0;
        pid_t done = waitpid(k.pid, &status, WNOHANG);
        bool hang = false;
        if(done == 0)
        {
          uint64_t started = k.sh->startMs;
          if(k.sh->caseIndex && started && nowMs() > started && nowMs() - started > (uint64_t)p.hangSeconds * 1000)
          {
            hang = true;
            killGroup(k.pid);
            waitpid(k.pid, &status, 0);
          }
          else
          {
            continue;
          }
        }
        killGroup(k.pid);
        removeTree(sTmpRoot + "/w" + std::to_string(w) + "-" + std::to_string(k.pid));
        Outcome o = hang ? Outcome::Hang : classify(status);
        if(o == Outcome::Pass)
        {
          k.finished = true;
          --running;
        }
        else if(o == Outcome::Infra)
        {
          // Killed from outside (out of memory, say): try the case again, then skip it.
          ++inconclusive;
          uint64_t at = k.sh->caseIndex ? k.sh->caseIndex - 1 : k.next;
          k.next = k.lastMemKill == at ? at + workers : at;
          k.lastMemKill = at;
          if(++k.infra > 5 || k.next >= cases)
          {
            k.finished = true;
            --running;
          }
          else
          {
            start(w);
          }
        }
        else
        {
          failed = true;
          failCase = k.sh->caseIndex ? k.sh->caseIndex - 1 : k.next;
          failure.outcome = o;
          failure.choices.assign(k.sh->rec, k.sh->rec + std::min<uint64_t>((uint64_t)k.sh->recCount, (uint64_t)Src::cMaxRec));
          failure.message = k.sh->message;
          if(o == Outcome::Crash)
          {
            failure.err = readFile(k.err);
            failure.message = (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status))) + ": " + summarise(failure.err);
          }
          if(o == Outcome::Hang)
          {
            failure.message = "the case does not finish within " + std::to_string(p.hangSeconds) + " s";
          }
          failRange.first = k.rangeFirst;
          failRange.step = workers;
          failRange.last = failCase;
          k.finished = true;
          k.pid = -1;
        }
      }
    }
    for(Worker& k : ws)
    {
      if(!k.finished && k.pid > 0)
      {
        killGroup(k.pid);
        int status;
        waitpid(k.pid, &status, 0);
      }
    }
    double exploreS = (nowMs() - t0) / 1000.0;

    bool violation = false;
    std::string replayPath, note;
    uint64_t shrinkRuns = 0;
    int reproduced = 0;
    if(failed)
    {
      // Does it reproduce from its choices alone?
      Result again;
      for(int i = 0; i < 3; ++i)
      {
        again = runIsolated(p, &failure.choices, nullptr, true, p.hangSeconds);
        reproduced += again.outcome != Outcome::Pass && again.outcome != Outcome::Infra;
      }
      bool useRange = false;
      if(reproduced == 3)
      {
        if(again.outcome != Outcome::Pass && again.outcome != Outcome::Infra)
        {
          failure = again;
        }
        Result small = failure;
        if(failure.outcome != Outcome::Hang)
        {
          small = shrink(p, failure, shrinkS, &shrinkRuns);
        }
        int smallReproduced = 0;
        Result shown;
        for(int i = 0; i < 3; ++i)
        {
          shown = runIsolated(p, &small.choices, nullptr, true, p.hangSeconds);
          smallReproduced += shown.outcome == failure.outcome;
        }
        if(smallReproduced == 3)
        {
          shown.choices = small.choices;
          failure = shown;
          reproduced = 3;
        }
        violation = true;
      }
      else if(reproduced > 0)
      {
        note = "reproduces only sometimes";
        violation = failure.outcome != Outcome::Hang;
      }
      else
      {
        // State carried over from earlier cases of that worker?
        int rangeReproduced = 0;
        Result r;
        for(int i = 0; i < 3; ++i)
        {
          r = runIsolated(p, nullptr, &failRange, true, std::max(120, 4 * p.hangSeconds));
          rangeReproduced += r.outcome != Outcome::Pass && r.outcome != Outcome::Infra;
        }
        if(rangeReproduced > 0)
        {
          useRange = true;
          reproduced = rangeReproduced;
          r.choices = failure.choices;
          failure = r;
          violation = true;
          note = "needs the cases before it in the same process";
        }
        else
        {
          note = "did not reproduce";
          violation = failure.outcome == Outcome::Fail || failure.outcome == Outcome::Crash;
        }
      }
      uint64_t h = 1469598103934665603ull;
      for(uint64_t c : failure.choices)
      {
        h = (h ^ c) * 1099511628211ull;
      }
      char hex[32];
      snprintf(hex, sizeof hex, "%016llx", (unsigned long long)h);
      replayPath = replayDir + "/" + p.name + "-" + hex + ".replay";
      writeReplay(replayPath, p, failure, useRange ? &failRange : nullptr, reproduced);
    }

    uint64_t total = 0, nontrivial = 0, discarded = 0, choices = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<uint64_t> sampleCases;
    for(Worker& k : ws)
    {
      total += k.sh->cases;
      nontrivial += k.sh->nontrivial;
      discarded += k.sh->discarded;
      choices += k.sh->choices;
      for(uint64_t i = 0; i < k.sh->nontrivial && i < perWorker; ++i)
      {
        distinct.insert(k.hashes[i]);
      }
      for(size_t i = 0; i < cMaxLabels && k.sh->labelName[i][0]; ++i)
      {
        labels[k.sh->labelName[i]] += k.sh->labelCount[i];
      }
      for(uint64_t c : k.sh->nontrivialCase)
      {
        if(c)
        {
          sampleCases.push_back(c - 1);
        }
      }
    }
    std::sort(sampleCases.begin(), sampleCases.end());
    std::vector<std::string> samples;
    for(size_t i = 0; i < sampleCases.size() && samples.size() < 4 && !failed; ++i)
    {
      Range r;
      r.first = r.last = sampleCases[i];
      Result s = runIsolated(p, nullptr, &r, true, p.hangSeconds);
      if(s.outcome == Outcome::Pass && !s.description.empty() && (s.description.size() < 3000 || i + 4 > sampleCases.size()))
      {
        samples.push_back("case " + std::to_string(sampleCases[i]) + ": " + s.description.substr(0, 3000));
      }
    }

    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if(!f)
    {
      perror(out.c_str());
      return 3;
    }
    fprintf(f, "{\"prop\": %s, \"rule\": %s, \"seed\": %llu, \"requested\": %llu, \"evaluations\": %llu, \"nontrivial\": %llu, "
               "\"distinct_nontrivial\": %zu, \"discarded\": %llu, \"choices\": %llu, \"explore_s\": %.2f, \"inconclusive\": %d, \"labels\": {",
      jsonString(p.name).c_str(), jsonString(p.rule).c_str(), (unsigned long long)sSeed, (unsigned long long)cases, (unsigned long long)total,
      (unsigned long long)nontrivial, distinct.size(), (unsigned long long)discarded, (unsigned long long)choices, exploreS, inconclusive);
    bool first = true;
    for(auto& l : labels)
    {
      fprintf(f, "%s%s: %llu", first ? "" : ", ", jsonString(l.first).c_str(), (unsigned long long)l.second);
      first = false;
    }
    fprintf(f, "}, \"samples\": [");
    first = true;
    for(auto& s : samples)
    {
      fprintf(f, "%s%s", first ? "" : ", ", jsonString(s).c_str());
      first = false;
    }
    fprintf(f, "], \"failed\": %s, \"violation\": %s, \"case\": %llu, \"outcome\": %s, \"message\": %s, \"replay\": %s, \"reproduced\": %d, \"note\": %s, \"shrink_runs\": %llu, \"description\": %s, \"err\": %s}\n",
      failed ? "true" : "false", violation ? "true" : "false", (unsigned long long)failCase, jsonString(outcomeName(failure.outcome)).c_str(),
      jsonString(failure.message).c_str(), jsonString(replayPath).c_str(), reproduced, jsonString(note).c_str(), (unsigned long long)shrinkRuns,
      jsonString(failure.description.substr(0, 4000)).c_str(), jsonString(failure.err.substr(0, 6000)).c_str());
    if(f != stdout)
    {
      fclose(f);
    }
    return violation ? 1 : 0;
  }

#ifndef LPBT_FUZZ
  static int mainImpl(int argc, char** argv)
  {
    signal(SIGPIPE, SIG_IGN);
    char tmpl[] = "/tmp/lpbt-XXXXXX";
    if(!mkdtemp(tmpl))
    {
      perror("mkdtemp");
      return 3;
    }
    sTmpRoot = tmpl;
    chmod(tmpl, 0755);
    int rc = 3;
    std::string cmd = argc > 1 ? argv[1] : "";
    if(cmd == "run")
    {
      rc = cmdRun(argc, argv);
    }
    else if(cmd == "replay" && argc > 2)
    {
      rc = cmdReplay(argv[2]);
    }
    else if(cmd == "determinism" && argc > 3)
    {
      // Whether cases replay exactly: each is run as drawn and again from its recorded choices.
      const Prop& p = *findProp(argv[2]);
      sShared = newShared();
      Src::sRec = sShared->rec;
      Src::sRecCount = &sShared->recCount;
      sScratch = sTmpRoot;
      if(p.once)
      {
        p.once();
      }
      rc = 0;
      for(uint64_t i = 0; i < strtoull(argv[3], nullptr, 10); ++i)
      {
        Src a, b;
        bool d, n;
        a.InitRandom(caseSeed(p, i));
        runCase(p, a, false, &d, &n);
        std::vector<uint64_t> choices = a.Recorded();
        if(choices.size() < a.Count())
        {
          fprintf(stderr, "case %llu: %zu choices are too many to be replayed\n", (unsigned long long)i, a.Count());
          continue;
        }
        b.InitReplay(choices);
        runCase(p, b, false, &d, &n);
        if(a.Count() != b.Count() || a.Hash() != b.Hash())
        {
          std::vector<uint64_t> again = b.Recorded();
          size_t k = 0;
          while(k < choices.size() && k < again.size() && choices[k] == again[k])
          {
            ++k;
          }
          fprintf(stderr, "case %llu: %zu choices, replayed %zu, differing from %zu on\n", (unsigned long long)i, a.Count(), b.Count(), k);
          rc = 1;
        }
      }
    }
    else if(cmd == "list")
    {
      for(const Prop& p : props())
      {
        printf("%s\n", p.name);
      }
      rc = 0;
    }
    else
    {
      fprintf(stderr, "usage: run --prop P ... | replay FILE | list\n");
    }
    removeTree(sTmpRoot);
    return rc;
  }
#endif
} // namespace pbt

#ifndef LPBT_FUZZ
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
#else
// libFuzzer entry: LPBT_PROP names the property, LPBT_FAIL_OUT where the failing choices go.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
  static const pbt::Prop* prop = nullptr;
  if(!prop)
  {
    const char* name = getenv("LPBT_PROP");
    prop = pbt::findProp(name ? name : "");
    pbt::sShared = pbt::newShared();
    pbt::Src::sRec = pbt::sShared->rec;
    pbt::Src::sRecCount = &pbt::sShared->recCount;
    pbt::sScratch = "/tmp";
    if(prop->once)
    {
      prop->once();
    }
  }
  pbt::Src src;
  src.InitBytes(data, size);
  bool d, nt;
  if(!pbt::runCase(*prop, src, false, &d, &nt))
  {
    fprintf(stderr, "LPBT-FAIL %s\n", pbt::sShared->message);
    abort();
  }
  return 0;
}
#endif
