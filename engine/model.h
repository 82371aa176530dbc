// The reference model of datagrams: a plain tree of values, with generators, builders that construct the
// real thing from it by different routes, and a comparison through the public interface only.
#ifndef LPBT_MODEL_H
#define LPBT_MODEL_H

#include <gen.h>

#include <climits>
#include <cmath>
#include <limits>
#include <map>
#include <memory>

#include <lamppost/messages/Datagram.h>

namespace model
{
  using lp::messages::Datagram;
  using lp::messages::RawDatagram;
  using lp::messages::RawDatagramType;
  using pbt::Src;

  // Other kinds of values than the four that the wire format knows.
  struct Opaque
  {
    int id;
    bool operator==(const Opaque& o) const { return id == o.id; }
    friend std::ostream& operator<<(std::ostream& o, const Opaque& v) { return o << "opaque-" << v.id; }
  };

  struct Val
  {
    enum Kind { Null, Text, Int, Real, Bool, List, Dict, Float, Opaq };
    Kind kind = Null;
    std::string text;
    int integer = 0;
    double real = 0;
    bool boolean = false;
    std::vector<Val> list;
    std::map<std::string, Val> dict;

    static Val T(std::string s)
    {
      Val v;
      v.kind = Text;
      v.text = std::move(s);
      return v;
    }
    static Val I(int i)
    {
      Val v;
      v.kind = Int;
      v.integer = i;
      return v;
    }
    static Val R(double d)
    {
      Val v;
      v.kind = Real;
      v.real = d;
      return v;
    }
    static Val B(bool b)
    {
      Val v;
      v.kind = Bool;
      v.boolean = b;
      return v;
    }
    static Val L()
    {
      Val v;
      v.kind = List;
      return v;
    }
    static Val D()
    {
      Val v;
      v.kind = Dict;
      return v;
    }

    size_t nodes() const
    {
      size_t n = 1;
      for(const Val& v : list)
      {
        n += v.nodes();
      }
      for(auto& p : dict)
      {
        n += p.second.nodes();
      }
      return n;
    }
    size_t depth() const
    {
      size_t n = 0;
      for(const Val& v : list)
      {
        n = std::max(n, v.depth());
      }
      for(auto& p : dict)
      {
        n = std::max(n, p.second.depth());
      }
      return n + 1;
    }
    size_t weight() const
    {
      size_t n = 1 + text.size() / 32;
      for(const Val& v : list)
      {
        n += v.weight();
      }
      for(auto& p : dict)
      {
        n += p.second.weight() + p.first.size() / 32;
      }
      return n;
    }

    // Structural equality; reals compare as numbers (a NaN equals nothing).
    bool equals(const Val& o) const
    {
      if(kind != o.kind)
      {
        return false;
      }
      switch(kind)
      {
        case Null: return true;
        case Text: return text == o.text;
        case Int: return integer == o.integer;
        case Real: return real == o.real;
        case Bool: return boolean == o.boolean;
        case Float: return (float)real == (float)o.real;
        case Opaq: return integer == o.integer;
        case List:
          if(list.size() != o.list.size())
          {
            return false;
          }
          for(size_t i = 0; i < list.size(); ++i)
          {
            if(!list[i].equals(o.list[i]))
            {
              return false;
            }
          }
          return true;
        case Dict:
          if(dict.size() != o.dict.size())
          {
            return false;
          }
          for(auto i = dict.begin(), j = o.dict.begin(); i != dict.end(); ++i, ++j)
          {
            if(i->first != j->first || !i->second.equals(j->second))
            {
              return false;
            }
          }
          return true;
      }
      return false;
    }
  };

  inline void show(std::ostream& o, const Val& v, int budget = 40)
  {
    switch(v.kind)
    {
      case Val::Null: o << "null"; break;
      case Val::Text: o << pbt::quote(v.text, 24); break;
      case Val::Int: o << v.integer; break;
      case Val::Real:
      {
        char b[40];
        snprintf(b, sizeof b, "%.17gr", v.real);
        o << b;
        break;
      }
      case Val::Bool: o << (v.boolean ? "true" : "false"); break;
      case Val::Float: o << "float " << v.real; break;
      case Val::Opaq: o << "opaque " << v.integer; break;
      case Val::List:
      {
        o << "[";
        int n = 0;
        for(const Val& e : v.list)
        {
          if(n++ >= 6 || budget <= 0)
          {
            o << " ..." << v.list.size();
            break;
          }
          o << (n > 1 ? ", " : "");
          show(o, e, budget - 3);
        }
        o << "]";
        break;
      }
      case Val::Dict:
      {
        o << "{";
        int n = 0;
        for(auto& e : v.dict)
        {
          if(n++ >= 6 || budget <= 0)
          {
            o << " ..." << v.dict.size();
            break;
          }
          o << (n > 1 ? ", " : "") << pbt::quote(e.first, 16) << ": ";
          show(o, e.second, budget - 3);
        }
        o << "}";
        break;
      }
    }
  }

  inline std::string str(const Val& v)
  {
    std::ostringstream o;
    show(o, v);
    return o.str();
  }

  inline RawDatagramType typeOf(const Val& v)
  {
    switch(v.kind)
    {
      case Val::Null: return RawDatagramType::Empty;
      case Val::List: return RawDatagramType::List;
      case Val::Dict: return RawDatagramType::Dictionary;
      default: return RawDatagramType::Value;
    }
  }

  // ------------------------------------------------------------------------------------ generators

  inline const std::vector<std::string>& keyPool()
  {
    static const std::vector<std::string> pool = {"a", "b", "c", "key", "", "a/b", "/", "invocationId", "response", "A", std::string("a\0b", 3), "\xc3\xa9", "0", "key2", " "};
    return pool;
  }

  inline std::string key(Src& s)
  {
    switch(s.weighted({10, 2, 1}))
    {
      case 0: return keyPool()[s.draw(keyPool().size())];
      case 1: return "k" + std::to_string(s.draw(2000));
      default: return gen::bytes(s, gen::length(s, 70000));
    }
  }

  inline int integer(Src& s)
  {
    static const std::vector<int> edges = {0, 1, -1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 127, 128, -128, 255, 256, 32767, 32768, -32768, 65535, 65536, 1 << 24, (1 << 24) + 1, 1000000, -1000000};
    switch(s.weighted({4, 3, 2}))
    {
      case 0: return (int)s.range(-10, 10);
      case 1: return s.pick(edges);
      default: return (int)(uint32_t)s.draw(1ull << 32);
    }
  }

  inline double real(Src& s, bool nan = true)
  {
    typedef std::numeric_limits<double> L;
    static const std::vector<double> edges = {0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1e-5, 1e300, -1e300, 1e-300, L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), 2147483648.0, 4294967296.0, 9007199254740993.0,
      16777217.0, 3.4028234663852886e38, 3.5e38, 1e-46, 3.141592653589793, 1.0 + L::epsilon(), 100000.0, 1000000.0, 1234567.0, 0.1f};
    switch(s.weighted({4, 3, 2, 2, 1}))
    {
      case 0: return (double)s.range(-10, 10);
      case 1: return s.pick(edges);
      case 2: return (double)s.range(-1000000, 1000000) / 1000.0;
      case 3:
      {
        uint64_t b = s.bits64();
        double d;
        memcpy(&d, &b, 8);
        return std::isnan(d) || std::isinf(d) ? 1.5 : d;
      }
      default:
        switch(s.draw(nan ? 3 : 2))
        {
          case 0: return L::infinity();
          case 1: return -L::infinity();
          default: return L::quiet_NaN();
        }
    }
  }

  struct Options
  {
    bool nan = true;
    bool opaque = false;
    size_t maxText = 70000;
    size_t budget = 60;         // nodes
    size_t maxDepth = 8;
  };

  inline Val leaf(Src& s, const Options& o)
  {
    switch(s.weighted({3, 4, 4, 3, 2, o.opaque ? 1u : 0u, o.opaque ? 1u : 0u}))
    {
      case 0: return Val();
      case 1: return Val::T(gen::bytes(s, gen::length(s, o.maxText)));
      case 2: return Val::I(integer(s));
      case 3: return Val::R(real(s, o.nan));
      case 4: return Val::B(s.flip());
      case 5:
      {
        Val v;
        v.kind = Val::Float;
        v.real = (float)s.range(-4, 4);
        return v;
      }
      default:
      {
        Val v;
        v.kind = Val::Opaq;
        v.integer = (int)s.range(0, 3);
        return v;
      }
    }
  }

  inline Val tree(Src& s, const Options& o, size_t depth, size_t& budget)
  {
    if(budget > 0)
    {
      --budget;
    }
    if(depth == 0 || budget == 0 || s.weighted({3, 5}) == 0)
    {
      return leaf(s, o);
    }
    Val v;
    v.kind = s.flip() ? Val::Dict : Val::List;
    for(pbt::List l(s, std::min<size_t>(budget, 30)); l.more();)
    {
      if(v.kind == Val::List)
      {
        v.list.push_back(tree(s, o, depth - 1, budget));
      }
      else
      {
        std::string k = key(s);
        v.dict[k] = tree(s, o, depth - 1, budget);
      }
      if(budget == 0)
      {
        break;
      }
    }
    return v;
  }

  // Trees of any shape: ordinary, wide lists, wide dictionaries, deep chains.
  inline Val any(Src& s, const Options& o, size_t wide = 3000, size_t deep = 200)
  {
    size_t budget = o.budget;
    switch(s.weighted({40, 2, 2, 2, 1}))
    {
      case 0: return tree(s, o, o.maxDepth, budget);
      case 1:
      case 2:
      {
        static const std::vector<size_t> sizes = {64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4096, 5000, 16384, 32768, 65535, 65536, 65537};
        size_t n = s.flip() ? s.draw(300) : s.pick(sizes);
        n = std::min(n, s.chance(1, 6) ? wide : std::min<size_t>(wide, 600));
        Val v;
        v.kind = s.flip() ? Val::List : Val::Dict;
        Options small = o;
        small.maxText = 20;
        Val common = leaf(s, small);
        unsigned other = 1 + (unsigned)s.draw(50);
        for(size_t i = 0; i < n; ++i)
        {
          Val e = i % other == 0 && i < 400 ? leaf(s, small) : common;
          if(v.kind == Val::List)
          {
            v.list.push_back(e);
          }
          else
          {
            v.dict["k" + std::to_string(i)] = e;
          }
        }
        return v;
      }
      case 3:
      {
        Options small = o;
        small.maxText = 40;
        static const std::vector<size_t> depths = {16, 20, 31, 32, 33, 40, 50, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 500, 800, 1000};
        size_t n = std::min(deep, s.flip() ? s.draw(80) : s.pick(depths));
        Val v = leaf(s, small);
        unsigned style = (unsigned)s.draw(3);
        for(size_t i = 0; i < n; ++i)
        {
          Val p;
          p.kind = style == 0 ? Val::List : style == 1 ? Val::Dict : i % 2 ? Val::List : Val::Dict;
          if(p.kind == Val::List)
          {
            if(s.chance(1, 8))
            {
              p.list.push_back(leaf(s, small));
            }
            p.list.push_back(std::move(v));
          }
          else
          {
            p.dict[keyPool()[s.draw(4)]] = std::move(v);
          }
          v = std::move(p);
        }
        return v;
      }
      default: return leaf(s, o);
    }
  }

  // ---------------------------------------------------------------------------------------- builders

  inline void assignLeaf(Datagram& d, const Val& v)
  {
    switch(v.kind)
    {
      case Val::Null: d = Datagram(); break;
      case Val::Text: d = v.text; break;
      case Val::Int: d = v.integer; break;
      case Val::Real: d = v.real; break;
      case Val::Bool: d = v.boolean; break;
      case Val::Float: d = Datagram((float)v.real); break;
      case Val::Opaq: d = Datagram(Opaque{v.integer}); break;
      default: break;
    }
  }

  inline std::shared_ptr<RawDatagram> rawLeaf(const Val& v)
  {
    switch(v.kind)
    {
      case Val::Text: return std::make_shared<RawDatagram>(v.text);
      case Val::Int: return std::make_shared<RawDatagram>(v.integer);
      case Val::Real: return std::make_shared<RawDatagram>(v.real);
      case Val::Bool: return std::make_shared<RawDatagram>(v.boolean);
      case Val::Float: return std::make_shared<RawDatagram>((float)v.real);
      case Val::Opaq: return std::make_shared<RawDatagram>(Opaque{v.integer});
      default: return std::make_shared<RawDatagram>();
    }
  }

  // Without choices: raw construction.
  inline std::shared_ptr<RawDatagram> raw(const Val& v)
  {
    if(v.kind == Val::List)
    {
      std::shared_ptr<RawDatagram> r = std::make_shared<RawDatagram>(RawDatagramType::List);
      for(const Val& e : v.list)
      {
        r->Add(raw(e));
      }
      return r;
    }
    if(v.kind == Val::Dict)
    {
      std::shared_ptr<RawDatagram> r = std::make_shared<RawDatagram>(RawDatagramType::Dictionary);
      for(auto& e : v.dict)
      {
        (*r)[e.first] = raw(e.second);
      }
      return r;
    }
    return rawLeaf(v);
  }

  // Makes d show v, by subscripts and assignments, with detours that leave nothing behind.
  inline void writeAt(Src& s, Datagram& d, const Val& v, int detours)
  {
    unsigned detour = detours > 0 ? (unsigned)s.draw(12) : 0;
    switch(detour)
    {
      case 8: d = std::string("left over"); break;
      case 9:
        d["left"]["over"] = 1;
        d["left over"] = true;
        break;
      case 10:
        d.Add(std::make_shared<RawDatagram>(5));
        d.Add(std::make_shared<RawDatagram>(RawDatagramType::Dictionary));
        break;
      case 11: d = 2.5; break;
      default: break;
    }
    if(v.kind == Val::List)
    {
      if(d.GetType() != RawDatagramType::List || detour == 10)
      {
        if(s.flip() && detours > 0 && d.GetType() != RawDatagramType::List)
        {
          // Adding converts.
          d.Add(std::make_shared<RawDatagram>());
          d.Remove(0u);
        }
        else
        {
          d = Datagram(RawDatagramType::List);
        }
      }
      unsigned i = 0;
      for(const Val& e : v.list)
      {
        unsigned how = detours > 0 ? (unsigned)s.draw(4) : 0;
        if(how == 0 || v.list.size() > 300)
        {
          d.Add(raw(e));
        }
        else if(how == 1)
        {
          d.Add(std::make_shared<RawDatagram>());
          d.Add(std::make_shared<RawDatagram>(7));
          d.Remove(i + 1);
          Datagram item = d[i];
          writeAt(s, item, e, detours - 1);
        }
        else
        {
          d.Add(std::make_shared<RawDatagram>(how == 2 ? RawDatagramType::Empty : RawDatagramType::Value));
          Datagram item = d[i];
          writeAt(s, item, e, detours - 1);
        }
        ++i;
      }
    }
    else if(v.kind == Val::Dict)
    {
      if(d.GetType() != RawDatagramType::Dictionary || detour == 9)
      {
        if(s.flip() && detours > 0 && d.GetType() != RawDatagramType::Dictionary)
        {
          d["x"] = 1;
          d.Remove(std::string("x"));
        }
        else
        {
          d = Datagram(RawDatagramType::Dictionary);
        }
      }
      bool backwards = detours > 0 && s.flip();
      std::vector<const std::pair<const std::string, Val>*> entries;
      for(auto& e : v.dict)
      {
        entries.push_back(&e);
      }
      if(backwards)
      {
        std::reverse(entries.begin(), entries.end());
      }
      for(auto* e : entries)
      {
        if(detours > 0 && v.dict.size() <= 300)
        {
          if(s.chance(1, 10) && !v.dict.count("extra"))
          {
            d["extra"] = 1;
            d.Remove(std::string("extra"));
          }
          Datagram item = d[e->first];
          writeAt(s, item, e->second, detours - 1);
        }
        else
        {
          d[e->first] = Datagram(raw(e->second));
        }
      }
    }
    else
    {
      assignLeaf(d, v);
    }
  }

  inline Datagram build(Src& s, const Val& v)
  {
    switch(s.weighted({2, 3, 1}))
    {
      case 0: return Datagram(raw(v));
      case 1:
      {
        Datagram d;
        writeAt(s, d, v, 3);
        return d;
      }
      default:
      {
        Datagram d(raw(v));
        Datagram e(5);
        e["wrapped"] = d;
        return Datagram(e["wrapped"]);
      }
    }
  }

  // -------------------------------------------------------------------------------------- comparison

  template<class T> bool refuses(Datagram& d)
  {
    try
    {
      d.Get<T>();
    }
    catch(const lp::exceptions::InvalidOperationException&)
    {
      return true;
    }
    return false;
  }

  // Whether zeros of different signs count as different.
  inline bool& signedZeros()
  {
    static bool signedZeros = true;
    return signedZeros;
  }

  inline bool sameReal(double a, double b)
  {
    return std::isnan(a) ? std::isnan(b) : a == b && (a != 0 || !signedZeros() || std::signbit(a) == std::signbit(b));
  }

  // "" if d shows exactly v, else what is different.  Uses only operations that do not change d, provided
  // that the answers so far were right.
  inline std::string differsAt(Datagram& d, const Val& v, const std::string& at, bool thorough = true)
  {
    if(d.GetType() != typeOf(v))
    {
      return at + " has type " + std::to_string((int)d.GetType()) + " instead of " + std::to_string((int)typeOf(v));
    }
    if(d.IsEmpty() != (v.kind == Val::Null))
    {
      return at + " has the wrong emptiness";
    }
    if(thorough)
    {
      bool refusalsRight = refuses<std::string>(d) == (v.kind != Val::Text) && refuses<int>(d) == (v.kind != Val::Int) && refuses<double>(d) == (v.kind != Val::Real) &&
                           refuses<bool>(d) == (v.kind != Val::Bool) && refuses<float>(d) == (v.kind != Val::Float) && refuses<Opaque>(d) == (v.kind != Val::Opaq);
      if(!refusalsRight)
      {
        return at + " can be read as another type than that of " + str(v) + ", or not as its own";
      }
    }
    switch(v.kind)
    {
      case Val::Text:
        if(d.Get<std::string>() != v.text)
        {
          return at + " has the text " + pbt::quote(d.Get<std::string>()) + " instead of " + pbt::quote(v.text);
        }
        if(static_cast<std::string>(d) != v.text)
        {
          return at + " converts to the text " + pbt::quote(static_cast<std::string>(d)) + " instead of " + pbt::quote(v.text);
        }
        break;
      case Val::Int:
        if(d.Get<int>() != v.integer)
        {
          return at + " has the value " + std::to_string(d.Get<int>()) + " instead of " + std::to_string(v.integer);
        }
        break;
      case Val::Real:
        if(!sameReal(d.Get<double>(), v.real))
        {
          return at + " has the value " + std::to_string(d.Get<double>()) + " instead of " + std::to_string(v.real);
        }
        break;
      case Val::Bool:
        if(d.Get<bool>() != v.boolean)
        {
          return at + " has the wrong truth value";
        }
        break;
      case Val::Float:
        if(d.Get<float>() != (float)v.real)
        {
          return at + " has the wrong float";
        }
        break;
      case Val::Opaq:
        if(!(d.Get<Opaque>() == Opaque{v.integer}))
        {
          return at + " has the wrong opaque value";
        }
        break;
      case Val::List:
      {
        if(d.GetCount() != v.list.size())
        {
          return at + " has " + std::to_string(d.GetCount()) + " items instead of " + std::to_string(v.list.size());
        }
        // Long lists: indexing is linear, so look at a few hundred places.
        size_t step = v.list.size() > 700 ? v.list.size() / 300 : 1;
        for(size_t i = 0; i < v.list.size(); i += (i < 130 || i + 130 > v.list.size()) ? 1 : step)
        {
          Datagram item = d[(unsigned)i];
          std::string r = differsAt(item, v.list[i], thorough || i < 5 ? at + "[" + std::to_string(i) + "]" : at, thorough && v.list.size() < 100);
          if(!r.empty())
          {
            return r;
          }
        }
        if(thorough)
        {
          try
          {
            d[(unsigned)v.list.size()];
            return at + " has more items than it should";
          }
          catch(const lp::exceptions::IndexOutOfBoundsException&)
          {
          }
        }
        break;
      }
      case Val::Dict:
      {
        if(d.GetCount() != v.dict.size())
        {
          return at + " has " + std::to_string(d.GetCount()) + " entries instead of " + std::to_string(v.dict.size());
        }
        for(auto& e : v.dict)
        {
          if(!d.KeyExists(e.first))
          {
            return at + " lacks the key " + pbt::quote(e.first);
          }
          Datagram item = d[e.first];
          std::string r = differsAt(item, e.second, at + "[" + pbt::quote(e.first, 20) + "]", thorough && v.dict.size() < 100);
          if(!r.empty())
          {
            return r;
          }
        }
        break;
      }
      case Val::Null: break;
    }
    if(thorough && v.kind != Val::List && v.kind != Val::Dict)
    {
      bool refused = false;
      try
      {
        d.GetCount();
      }
      catch(const lp::exceptions::InvalidOperationException&)
      {
        refused = true;
      }
      if(!refused)
      {
        return at + " can be counted though it is " + str(v);
      }
    }
    if(thorough && v.kind != Val::Dict)
    {
      for(const char* k : {"a", "key", ""})
      {
        if(d.KeyExists(k))
        {
          return at + " has a key though it is no dictionary";
        }
      }
    }
    return "";
  }

} // namespace model

#endif
