// A small property-based testing engine.
//
// A case is a function of a sequence of bounded choices (Src::draw).  Random cases take the choices
// from a PRNG, replayed cases from a recorded sequence, fuzzed cases from the fuzzer's bytes.  Cases
// run in forked workers; their choices are recorded in shared memory, so that a failing assertion, a
// crash, a sanitizer report and a hang are all attributed to a case, shrunk and written to a file.
#ifndef LPBT_H
#define LPBT_H

#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
  struct Fail
  {
    std::string message;
  };

  struct Discard
  {
  };

  class Src
  {
  public:
    enum Mode { Random, Replay, Bytes };

    // A number in [0, n).  0 is the simplest choice: the shrinker drives choices towards it.
    uint64_t draw(uint64_t n);

    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    // True with probability num/den; shrinks to false.
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    bool flip() { return draw(2) == 1; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    // Index into weights; shrinks to the first.
    size_t weighted(std::initializer_list<unsigned> weights);
    // A size in [0, max], mostly small, sometimes up to max.
    size_t size(size_t max);
    // Bytes: the rest of the input when fuzzing, else n drawn ones.
    std::string blob(size_t n);
    bool fuzzing() const { return mMode == Bytes; }
    uint64_t bits64() { uint64_t a = draw(1ull << 32); return (a << 32) | draw(1ull << 32); }

    void InitRandom(uint64_t seed);
    void InitReplay(const std::vector<uint64_t>& choices);
    void InitBytes(const uint8_t* data, size_t size);

    std::vector<uint64_t> Recorded() const;
    size_t Count() const { return mCount; }
    uint64_t Hash() const { return mHash; }

    // Where recorded choices go (shared memory).
    static uint64_t* sRec;
    static volatile uint64_t* sRecCount;
    static const size_t cMaxRec = 1u << 20;

  private:
    Mode mMode = Random;
    uint64_t mState[4] = {};
    std::vector<uint64_t> mReplay;
    const uint8_t* mData = nullptr;
    size_t mSize = 0, mPos = 0;
    size_t mCount = 0;
    uint64_t mHash = 1469598103934665603ull;
  };

  // List-like repetition that shrinks by deleting elements: for(List l(src, max); l.more();) ...
  class List
  {
  public:
    List(Src& src, size_t max, size_t min = 0);
    bool more();
    size_t index() const { return mIndex; }

  private:
    Src& mSrc;
    size_t mMax, mMin, mIndex = 0;
    unsigned mDen = 2;
  };

  class Case
  {
  public:
    explicit Case(Src& src, bool verbose) : s(src), mVerbose(verbose) {}

    Src& s;

    void nontrivial() { mNontrivial = true; }
    void label(const char* name);
    bool verbose() const { return mVerbose; }
    // Description of the case; only kept when the case is shown.
    template<class T> Case& operator<<(const T& x)
    {
      if(mVerbose)
      {
        mDesc << x;
        show();
      }
      return *this;
    }
    std::string description() const { return mDesc.str(); }
    bool isNontrivial() const { return mNontrivial; }

    [[noreturn]] void fail(const std::string& message);
    void check(bool condition, const std::string& message)
    {
      if(!condition)
      {
        fail(message);
      }
    }
    template<class F> void checkf(bool condition, F message)
    {
      if(!condition)
      {
        fail(message());
      }
    }
    [[noreturn]] void discard() { throw Discard{}; }

    // A directory private to the current process, removed by the runner.
    static std::string scratch();
    static uint64_t seed();

  private:
    void show();

    bool mVerbose;
    bool mNontrivial = false;
    std::ostringstream mDesc;
  };

  struct Prop
  {
    const char* name;       // "B01" or "B01.part"
    const char* rule;       // how cases are made, what is non-trivial
    void (*run)(Case&);
    uint64_t quick;         // cases in the quick tier
    uint64_t thorough;      // cases in the thorough tier
    int hangSeconds;        // a case that takes longer hangs
    int flags;
    void (*once)();         // run once in each worker, before its first case
  };

  enum Flags
  {
    Deterministic = 0,
    RealThreads = 1,        // failures may not reproduce; the oracle is timing-independent
    KeepStdout = 2,
    Sequential = 4,         // one worker only
    HalfWorkers = 8
  };

  struct Register
  {
    Register(Prop p);
  };

  std::string quote(const std::string& s, size_t max = 120);
  // Reports a failure from any thread and ends the process (for use where exceptions cannot be thrown).
  [[noreturn]] void failNow(const std::string& message);
  // Whether to report failures like that rather than by unwinding, as other threads are running.
  extern bool (*failAtOnce)();
} // namespace pbt

#define PBT_CONCAT2(a, b) a##b
#define PBT_CONCAT(a, b) PBT_CONCAT2(a, b)
#define PBT_PROP(...) static pbt::Register PBT_CONCAT(pbtRegister, __LINE__)(pbt::Prop __VA_ARGS__)

#endif
