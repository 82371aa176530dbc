// D01, D02, D03, D07: datagrams against the reference tree.
#include <model.h>

#include <lamppost/messages/Message.h>

using namespace model;
using pbt::Case;
using pbt::quote;

namespace
{
  struct Step
  {
    bool isKey;
    std::string key;
    unsigned index;
    bool operator==(const Step& o) const { return isKey == o.isKey && key == o.key && index == o.index; }
  };
  typedef std::vector<Step> Path;

  std::string show(const Path& p)
  {
    std::string r;
    for(const Step& s : p)
    {
      r += s.isKey ? "[" + quote(s.key, 16) + "]" : "[" + std::to_string(s.index) + "]";
    }
    return r;
  }

  struct Handle
  {
    std::unique_ptr<Datagram> d;
    size_t root;
    Path path;
  };

  struct World
  {
    Case& c;
    std::vector<std::unique_ptr<Datagram>> roots;
    std::vector<Val> models;
    std::vector<Handle> handles;
    std::vector<std::unique_ptr<Datagram>> detached;

    explicit World(Case& c_) : c(c_) {}

    void add(const Val& v)
    {
      roots.emplace_back(new Datagram(build(c.s, v)));
      models.push_back(v);
    }

    // Handles into what was replaced are kept, but no longer compared.
    void replaced(size_t root, const Path& at, bool including = false)
    {
      for(size_t i = handles.size(); i > 0; --i)
      {
        Handle& h = handles[i - 1];
        if(h.root == root && (including ? h.path.size() >= at.size() : h.path.size() > at.size()) && std::equal(at.begin(), at.end(), h.path.begin()))
        {
          detached.push_back(std::move(h.d));
          handles.erase(handles.begin() + (i - 1));
        }
      }
    }
    void removedIndex(size_t root, const Path& at, unsigned index)
    {
      Path gone = at;
      gone.push_back(Step{false, "", index});
      replaced(root, gone, true);
      for(Handle& h : handles)
      {
        if(h.root == root && h.path.size() > at.size() && std::equal(at.begin(), at.end(), h.path.begin()) && !h.path[at.size()].isKey && h.path[at.size()].index > index)
        {
          --h.path[at.size()].index;
        }
      }
    }

    Val& model(size_t root, const Path& p)
    {
      Val* v = &models[root];
      for(const Step& s : p)
      {
        v = s.isKey ? &v->dict[s.key] : &v->list[s.index];
      }
      return *v;
    }
  };

  // Picks a place, and goes there in the real tree and in the model at once; the way may create and convert
  // (if creating is allowed).
  struct Place
  {
    size_t root = 0;
    Path path;
    std::unique_ptr<Datagram> d;     // a live view of the part; null: the root itself
    Datagram& real(World& w) { return d ? *d : *w.roots[root]; }
  };

  void toDict(World& w, size_t root, const Path& p, Val& v)
  {
    if(v.kind != Val::Dict)
    {
      w.replaced(root, p);
      v = Val::D();
    }
  }

  Place pickPlace(World& w, bool creating)
  {
    pbt::Src& s = w.c.s;
    Place p;
    if(!w.handles.empty() && s.chance(1, 4))
    {
      Handle& h = w.handles[s.draw(w.handles.size())];
      p.root = h.root;
      p.path = h.path;
      // A view of the same part, reached without a detour through the root: the handle itself lends it.
      p.d = std::move(h.d);
      w.handles.erase(w.handles.begin() + (&h - &w.handles[0]));
      return p;
    }
    p.root = s.draw(w.roots.size());
    Val* v = &w.models[p.root];
    while(p.path.size() < 60)
    {
      bool go = s.chance(v->kind == Val::Dict || v->kind == Val::List ? 2 : 1, v->kind == Val::Dict || v->kind == Val::List ? 3 : 12);
      if(!go)
      {
        break;
      }
      Datagram& here = p.real(w);
      if(v->kind == Val::List && !v->list.empty() && !(creating && s.chance(1, 30)))
      {
        unsigned i = (unsigned)s.draw(v->list.size());
        p.d.reset(new Datagram(here[i]));
        p.path.push_back(Step{false, "", i});
        v = &v->list[i];
      }
      else if(v->kind == Val::Dict && !v->dict.empty() && !(creating && s.chance(1, 6)))
      {
        auto it = v->dict.begin();
        std::advance(it, s.draw(v->dict.size()));
        std::string k = it->first;
        p.d.reset(new Datagram(here[k]));
        p.path.push_back(Step{true, k, 0});
        v = &it->second;
      }
      else if(creating)
      {
        std::string k = model::key(s);
        toDict(w, p.root, p.path, *v);
        p.d.reset(new Datagram(here[k]));
        p.path.push_back(Step{true, k, 0});
        v = &v->dict[k];
      }
      else
      {
        break;
      }
    }
    return p;
  }

  template<class E, class F> void mustRefuse(Case& c, F f, const char* what, std::function<void(E&)> inspect = nullptr)
  {
    bool refused = false;
    try
    {
      f();
    }
    catch(E& e)
    {
      refused = true;
      if(inspect)
      {
        inspect(e);
      }
    }
    catch(const lp::exceptions::Exception& e)
    {
      c.fail(std::string(what) + " was refused with the wrong error: " + e.what());
    }
    c.check(refused, std::string(what) + " was not refused");
    c.label("refused operation");
  }

  const Options& small()
  {
    static Options o = []
    {
      Options x;
      x.budget = 12;
      x.maxDepth = 4;
      x.maxText = 5000;
      x.opaque = true;
      return x;
    }();
    return o;
  }

  // One operation on a place; returns whether it was one that writes.
  void operate(World& w, Place& p, bool refusals)
  {
    Case& c = w.c;
    pbt::Src& s = c.s;
    Datagram& d = p.real(w);
    Val& m = w.model(p.root, p.path);
    std::string where = c.verbose() ? "#" + std::to_string(p.root) + ::show(p.path) : "";
    bool big = m.nodes() > 1500;
    using namespace lp::exceptions;
    size_t op = refusals ? s.weighted({3, 3, 3, 3, 2, 2, 3, 6, 3, 3, 2, 2, 2, 3, 3, 2}) : s.weighted({3, 3, 3, 3, 2, 2, 3, 6, 3, 3, 2});
    switch(op)
    {
      case 0:
      {
        std::string t = gen::bytes(s, gen::length(s, 5000));
        c << where << " = " << quote(t, 20) << "; ";
        d = t;
        w.replaced(p.root, p.path);
        m = Val::T(t);
        break;
      }
      case 1:
      {
        int i = integer(s);
        c << where << " = " << i << "; ";
        d = i;
        w.replaced(p.root, p.path);
        m = Val::I(i);
        break;
      }
      case 2:
      {
        double r = real(s);
        c << where << " = " << r << "r; ";
        d = r;
        w.replaced(p.root, p.path);
        m = Val::R(r);
        break;
      }
      case 3:
      {
        bool b = s.flip();
        c << where << " = " << (b ? "true; " : "false; ");
        d = b;
        w.replaced(p.root, p.path);
        m = Val::B(b);
        break;
      }
      case 4:
      {
        // A text given as a literal.
        static const std::vector<const char*> literals = {"literal", "", "true", "0", "x"};
        const char* t = s.pick(literals);
        c << where << " = literal " << quote(t) << "; ";
        if(s.flip())
        {
          d = t;
        }
        else
        {
          d = Datagram(t);
        }
        w.replaced(p.root, p.path);
        m = Val::T(t);
        break;
      }
      case 5:
      {
        unsigned k = (unsigned)s.draw(4);
        c << where << " = type " << k << "; ";
        if(s.flip())
        {
          d = (RawDatagramType)k;
        }
        else
        {
          d = Datagram((RawDatagramType)k);
        }
        w.replaced(p.root, p.path);
        m = k == 0 ? Val() : k == 1 ? Val::L() : k == 2 ? Val::D() : Val::I(0);
        break;
      }
      case 6:
      {
        size_t budget = 12;
        Val v = tree(s, small(), 4, budget);
        c << where << " = " << str(v) << "; ";
        d = build(s, v);
        w.replaced(p.root, p.path);
        m = v;
        break;
      }
      case 7:
      {
        size_t budget = 6;
        Val v = s.chance(1, 3) ? tree(s, small(), 3, budget) : leaf(s, small());
        c << where << ".Add(" << str(v) << "); ";
        d.Add(raw(v));
        if(m.kind != Val::List)
        {
          w.replaced(p.root, p.path);
          m = Val::L();
        }
        m.list.push_back(v);
        break;
      }
      case 8:
      {
        std::string k = m.kind == Val::Dict && !m.dict.empty() && s.chance(3, 4) ? std::next(m.dict.begin(), s.draw(m.dict.size()))->first : model::key(s);
        if(m.kind == Val::Dict && m.dict.count(k))
        {
          c << where << ".Remove(" << quote(k, 20) << "); ";
          d.Remove(k);
          Path gone = p.path;
          gone.push_back(Step{true, k, 0});
          w.replaced(p.root, gone, true);
          m.dict.erase(k);
        }
        else if(refusals && m.kind == Val::Dict)
        {
          c << where << ".Remove(" << quote(k, 20) << ") fails; ";
          mustRefuse<KeyNotFoundException>(c, [&] { d.Remove(k); }, "removing a missing key", [&](KeyNotFoundException& e) { c.check(e.GetKey() == k, "the error names another key"); });
        }
        else if(refusals)
        {
          c << where << ".Remove(" << quote(k, 20) << ") fails; ";
          mustRefuse<InvalidOperationException>(c, [&] { d.Remove(k); }, "removing a key from something else than a dictionary");
        }
        break;
      }
      case 9:
      {
        unsigned i = m.kind == Val::List && !m.list.empty() && s.chance(3, 4) ? (unsigned)s.draw(m.list.size()) : (unsigned)s.draw(INT_MAX);
        if(m.kind == Val::List && i < m.list.size())
        {
          c << where << ".Remove(" << i << "); ";
          d.Remove(i);
          w.removedIndex(p.root, p.path, i);
          m.list.erase(m.list.begin() + i);
        }
        else if(refusals && m.kind == Val::List)
        {
          if(s.flip())
          {
            i = (unsigned)m.list.size();
          }
          c << where << ".Remove(" << i << ") fails; ";
          mustRefuse<IndexOutOfBoundsException>(c, [&] { d.Remove(i); }, "removing an index out of range", [&](IndexOutOfBoundsException& e) { c.check(e.GetIndex() == (int)i, "the error names another index"); });
        }
        else if(refusals)
        {
          c << where << ".Remove(" << i << ") fails; ";
          mustRefuse<InvalidOperationException>(c, [&] { d.Remove(i); }, "removing an index from something else than a list");
        }
        break;
      }
      case 10:
      {
        // Copies between places, also within one tree.
        size_t from = s.draw(w.roots.size());
        if(w.models[from].nodes() + w.models[p.root].nodes() > 3000 || w.models[from].depth() + w.models[p.root].depth() > 300)
        {
          break;
        }
        Place q;
        q.root = from;
        Val* v = &w.models[from];
        while((v->kind == Val::Dict && !v->dict.empty()) || (v->kind == Val::List && !v->list.empty()))
        {
          if(!s.flip())
          {
            break;
          }
          Datagram& here = q.real(w);
          if(v->kind == Val::List)
          {
            unsigned i = (unsigned)s.draw(v->list.size());
            q.d.reset(new Datagram(here[i]));
            q.path.push_back(Step{false, "", i});
            v = &v->list[i];
          }
          else
          {
            auto it = std::next(v->dict.begin(), s.draw(v->dict.size()));
            q.d.reset(new Datagram(here[it->first]));
            q.path.push_back(Step{true, it->first, 0});
            v = &it->second;
          }
        }
        c << where << " = #" << q.root << ::show(q.path) << "; ";
        Val value = *v;
        d = q.real(w);
        w.replaced(p.root, p.path);
        w.model(p.root, p.path) = value;
        c.label("copy between places");
        break;
      }
      case 11:
        if(m.kind == Val::List || m.kind == Val::Dict)
        {
          c << where << ".Clear(); ";
          d.Clear();
          w.replaced(p.root, p.path);
          m.list.clear();
          m.dict.clear();
        }
        else
        {
          c << where << ".Clear() fails; ";
          mustRefuse<InvalidOperationException>(c, [&] { d.Clear(); }, "clearing something without elements");
        }
        break;
      case 12:
        if(m.kind == Val::List || m.kind == Val::Dict)
        {
          c.check(d.GetCount() == m.list.size() + m.dict.size(), "the count is wrong");
        }
        else
        {
          mustRefuse<InvalidOperationException>(c, [&] { d.GetCount(); }, "counting something without elements");
        }
        break;
      case 13:
      {
        static const std::vector<unsigned> far = {0, 1, 2, 100, 65536, (unsigned)INT_MAX};
        unsigned i = m.kind == Val::List ? (unsigned)m.list.size() + (unsigned)s.draw(3) : s.pick(far);
        if(m.kind == Val::List && s.chance(1, 4))
        {
          i = std::max(s.pick(far), i);
        }
        c << where << "[" << i << "] fails; ";
        mustRefuse<IndexOutOfBoundsException>(c, [&] { d[i]; }, "an index out of range", [&](IndexOutOfBoundsException& e) { c.check(e.GetIndex() == (int)i, "the error names another index"); });
        break;
      }
      case 14:
      {
        std::string r = big ? "" : differsAt(d, m, "#" + std::to_string(p.root) + ::show(p.path));
        c.check(r.empty(), r);
        break;
      }
      default:
      {
        std::string k = m.kind == Val::Dict && !m.dict.empty() && s.flip() ? std::next(m.dict.begin(), s.draw(m.dict.size()))->first : s.chance(1, 3) && m.kind == Val::Dict && !m.dict.empty() ? gen::nearMiss(s, m.dict.begin()->first) : model::key(s);
        c.check(d.KeyExists(k) == (m.kind == Val::Dict && m.dict.count(k) > 0), "existence of the key " + quote(k) + " is wrong");
        break;
      }
    }
  }

  void keepHandle(World& w, Place& p)
  {
    if(p.d && w.handles.size() < 4 && w.c.s.chance(1, 3))
    {
      w.handles.push_back(Handle{std::move(p.d), p.root, p.path});
    }
  }

  void compareAll(World& w, bool thorough)
  {
    for(size_t i = 0; i < w.roots.size(); ++i)
    {
      std::string r = differsAt(*w.roots[i], w.models[i], w.c.verbose() ? "#" + std::to_string(i) : "#", thorough);
      w.c.check(r.empty(), r);
    }
    for(Handle& h : w.handles)
    {
      std::string r = differsAt(*h.d, w.model(h.root, h.path), "the part kept from #" + std::to_string(h.root) + ::show(h.path), thorough);
      w.c.check(r.empty(), r);
    }
  }
} // namespace

// ---------------------------------------------------------------------------------------------- D01

static void d01(Case& c)
{
  World w(c);
  size_t n = 1 + c.s.draw(2);
  for(size_t i = 0; i < n; ++i)
  {
    Val v = c.s.chance(1, 3) ? any(c.s, small(), 600, 120) : Val();
    c << "#" << i << " " << str(v) << "; ";
    w.add(v);
    std::string r = differsAt(*w.roots[i], w.models[i], "#" + std::to_string(i), w.models[i].nodes() < 100);
    c.check(r.empty(), r);
  }
  size_t ops = 0;
  for(pbt::List l(c.s, 80); l.more();)
  {
    Place p = pickPlace(w, true);
    operate(w, p, true);
    keepHandle(w, p);
    ++ops;
    if(w.models[p.root].nodes() < 120 || ops % 8 == 0)
    {
      std::string r = differsAt(*w.roots[p.root], w.models[p.root], "#" + std::to_string(p.root), false);
      c.check(r.empty(), r);
    }
  }
  size_t nodes = 0, depth = 0;
  for(Val& v : w.models)
  {
    nodes += v.nodes();
    depth = std::max(depth, v.depth());
  }
  compareAll(w, nodes < 200);
  if(ops >= 3)
  {
    c.nontrivial();
  }
  if(depth > 4)
  {
    c.label("deeper than 4");
  }
  if(nodes > 200)
  {
    c.label("more than 200 nodes");
  }
}
PBT_PROP({"D01", "1-2 datagrams built by random routes, then up to 80 operations (assign every type, literals, kinds, trees, copies between places; subscript, add, remove, clear, count, read, refused operations) "
                 "at random places reached through nested subscripts or kept parts, against a tree model after every operation; non-trivial: at least 3 operations", d01, 24000, 3000000, 30, 0, nullptr});

// ---------------------------------------------------------------------------------------------- D02

static Val vary(pbt::Src& s, Val v);

static Val varyHere(pbt::Src& s, Val v)
{
  switch(v.kind)
  {
    case Val::Null:
    {
      static const std::vector<int> kinds = {0, 1, 2, 3, 4, 5};
      switch(s.draw(6))
      {
        case 0: return Val::T("");
        case 1: return Val::I(0);
        case 2: return Val::R(0);
        case 3: return Val::B(false);
        case 4: return Val::L();
        default: return Val::D();
      }
    }
    case Val::Text:
      if(s.chance(1, 4))
      {
        return v.text.empty() ? Val() : Val::I(0);
      }
      v.text = gen::nearMiss(s, v.text);
      return v;
    case Val::Int:
      switch(s.draw(6))
      {
        case 0: return Val::R(v.integer);
        case 1: return Val::B(v.integer != 0);
        case 2: return Val::T(std::to_string(v.integer));
        case 3: return Val::I((int)((unsigned)v.integer ^ (1u << s.draw(32))));
        case 4: return Val::I((int)(0u - (unsigned)v.integer));
        default: return Val::I((int)((unsigned)v.integer + 1));
      }
    case Val::Real:
      switch(s.draw(5))
      {
        case 0: return Val::R(std::nextafter(v.real, 1e308));
        case 1: return Val::R(-v.real);
        case 2: return std::fabs(v.real) < 1e9 ? Val::I((int)v.real) : Val::I(0);
        case 3: return Val::R((float)v.real);
        default: return Val::R(v.real + 1e-9);
      }
    case Val::Bool:
      return s.flip() ? Val::B(!v.boolean) : Val::I(v.boolean);
    case Val::List:
      switch(s.draw(6))
      {
        case 0: v.list.push_back(Val()); return v;
        case 1:
          if(!v.list.empty())
          {
            v.list.pop_back();
          }
          return v;
        case 2:
          if(v.list.size() > 1)
          {
            size_t i = s.draw(v.list.size()), j = s.draw(v.list.size());
            std::swap(v.list[i], v.list[j]);
          }
          return v;
        case 3:
          if(v.list.empty())
          {
            return Val::D();
          }
          v.list.insert(v.list.begin() + s.draw(v.list.size()), v.list[s.draw(v.list.size())]);
          return v;
        case 4:
          if(!v.list.empty())
          {
            v.list.erase(v.list.begin() + s.draw(v.list.size()));
          }
          return v;
        default:
        {
          Val d = Val::D();
          for(size_t i = 0; i < v.list.size(); ++i)
          {
            d.dict[std::to_string(i)] = v.list[i];
          }
          return d;
        }
      }
    case Val::Dict:
      switch(s.draw(5))
      {
        case 0: v.dict[model::key(s)]; return v;
        case 1:
          if(!v.dict.empty())
          {
            v.dict.erase(std::next(v.dict.begin(), s.draw(v.dict.size())));
          }
          return v;
        case 2:
          if(!v.dict.empty())
          {
            auto it = std::next(v.dict.begin(), s.draw(v.dict.size()));
            std::string k = gen::nearMiss(s, it->first);
            Val e = it->second;
            v.dict.erase(it);
            v.dict[k] = e;
          }
          return v;
        case 3:
          if(v.dict.size() > 1)
          {
            auto i = std::next(v.dict.begin(), s.draw(v.dict.size())), j = std::next(v.dict.begin(), s.draw(v.dict.size()));
            std::swap(i->second, j->second);
          }
          return v;
        default:
        {
          if(v.dict.empty())
          {
            return Val::L();
          }
          Val l = Val::L();
          for(auto& e : v.dict)
          {
            l.list.push_back(e.second);
          }
          return l;
        }
      }
    default:
      v.integer ^= 1;
      v.real += 1;
      return v;
  }
}

static Val vary(pbt::Src& s, Val v)
{
  Val* at = &v;
  while(s.chance(5, 6))
  {
    if(at->kind == Val::List && !at->list.empty())
    {
      at = &at->list[s.draw(at->list.size())];
    }
    else if(at->kind == Val::Dict && !at->dict.empty())
    {
      at = &std::next(at->dict.begin(), s.draw(at->dict.size()))->second;
    }
    else
    {
      break;
    }
  }
  *at = varyHere(s, *at);
  return v;
}

static Datagram byValue(Datagram d) { return d; }

static void checkPair(Case& c, Datagram& a, Datagram& b, const Val& va, const Val& vb, const char* what)
{
  bool expected = va.equals(vb);
  c.label(expected ? "equal pair" : "unequal pair");
  auto text = [&] { return std::string(what) + ": " + str(va) + " and " + str(vb) + (expected ? " do not compare equal" : " compare equal"); };
  c.checkf((a == b) == expected, text);
  c.checkf((b == a) == expected, text);
}

static void d02(Case& c)
{
  World w(c);
  Options o = small();
  Val first = any(c.s, o, 400, 120);
  c << "#0 " << str(first) << "; ";
  w.add(first);
  bool copied = false, changed = false;
  for(pbt::List l(c.s, 40, 1); l.more();)
  {
    size_t op = c.s.weighted({4, 3, 2, 6, 1});
    if(op < 3 && (w.roots.size() >= 5 || w.models[0].nodes() > 2000))
    {
      op = 3;
    }
    switch(op)
    {
      case 0:
      {
        // A copy of a root or a part, by different ways.
        Place p = pickPlace(w, false);
        Datagram& d = p.real(w);
        Val v = w.model(p.root, p.path);
        unsigned how = (unsigned)c.s.draw(6);
        c << "#" << w.roots.size() << " copy of #" << p.root << ::show(p.path) << " way " << how << "; ";
        std::unique_ptr<Datagram> n;
        switch(how)
        {
          case 0: n.reset(new Datagram(d)); break;
          case 1:
            n.reset(new Datagram(12));
            *n = d;
            break;
          case 2:
          {
            lp::messages::Message m("sender", "/topic", d);
            n.reset(new Datagram(m.GetDatagram()));
            break;
          }
          case 3: n.reset(new Datagram(byValue(d))); break;
          case 4:
          {
            Datagram holder;
            holder["in"]["side"] = d;
            n.reset(new Datagram(holder["in"]["side"]));
            break;
          }
          default:
          {
            lp::messages::Message m("sender", "/topic", d);
            lp::messages::Message m2 = m;
            lp::messages::Message m3;
            m3 = m2;
            // What is read from a message is a copy, too.
            m2.GetDatagram()["changed"] = 1;
            m.GetDatagram() = 5;
            n.reset(new Datagram(m3.GetDatagram()));
            break;
          }
        }
        c.check(*n == d || !v.equals(v), "a copy does not equal its original");
        w.roots.push_back(std::move(n));
        w.models.push_back(v);
        keepHandle(w, p);
        copied = true;
        break;
      }
      case 1:
      {
        // A variation of an existing one, built anew.
        Val v = vary(c.s, w.models[c.s.draw(w.models.size())]);
        c << "#" << w.roots.size() << " built as " << str(v) << "; ";
        w.add(v);
        break;
      }
      case 2:
      {
        Val v = w.models[c.s.draw(w.models.size())];
        c << "#" << w.roots.size() << " built as " << str(v) << "; ";
        w.add(v);
        break;
      }
      case 3:
      {
        Place p = pickPlace(w, true);
        operate(w, p, false);
        keepHandle(w, p);
        changed = true;
        break;
      }
      default:
        if(w.roots.size() > 1)
        {
          size_t i = c.s.draw(w.roots.size());
          c << "discard #" << i << "; ";
          for(Handle& h : w.handles)
          {
            w.detached.push_back(std::move(h.d));
          }
          w.handles.clear();
          w.roots.erase(w.roots.begin() + i);
          w.models.erase(w.models.begin() + i);
        }
        break;
    }
    compareAll(w, false);
  }
  for(size_t i = 0; i < w.roots.size(); ++i)
  {
    for(size_t j = 0; j <= i; ++j)
    {
      checkPair(c, *w.roots[i], *w.roots[j], w.models[i], w.models[j], "datagrams");
      lp::messages::Message a("s", "/t", *w.roots[i]), b("s", "/t", *w.roots[j]);
      c.check((a == b) == w.models[i].equals(w.models[j]), "messages with these datagrams compare wrongly");
    }
    // The raw form, built anew, with its inequality.
    Val other = c.s.flip() ? vary(c.s, w.models[i]) : w.models[i];
    std::shared_ptr<RawDatagram> a = raw(w.models[i]), b = raw(other);
    bool expected = w.models[i].equals(other);
    c.checkf((*a == *b) == expected && (*a != *b) == !expected && (*b == *a) == expected, [&] { return "raw datagrams " + str(w.models[i]) + " and " + str(other) + " compare wrongly"; });
    Datagram fresh = build(c.s, other);
    checkPair(c, *w.roots[i], fresh, w.models[i], other, "a datagram and one built anew");
  }
  lp::messages::Message m1("s", "/t", *w.roots[0]), m2("s", "/t2", *w.roots[0]), m3("s2", "/t", *w.roots[0]);
  c.check(!(m1 == m2) && !(m1 == m3), "messages with different topics or senders compare equal");
  compareAll(w, w.models[0].nodes() < 60);
  if(copied && changed)
  {
    c.nontrivial();
  }
}
PBT_PROP({"D02", "up to 5 datagrams that are copies (6 routes) or small variations of each other or built anew, changed at random places; all compared with their models after every step, all pairs for equality both ways; "
                 "non-trivial: a copy was made and something changed", d02, 14000, 2000000, 30, 0, nullptr});

// ---------------------------------------------------------------------------------------------- D03

static const Val* resolve(const Val* v, const std::vector<std::string>& tokens)
{
  for(const std::string& t : tokens)
  {
    if(v->kind != Val::Dict)
    {
      return nullptr;
    }
    auto it = v->dict.find(t);
    if(it == v->dict.end())
    {
      return nullptr;
    }
    v = &it->second;
  }
  return v;
}

static void d03(Case& c)
{
  Options o = small();
  o.budget = 40;
  o.maxDepth = 7;
  Val v = any(c.s, o, 300, 150);
  if(v.kind != Val::Dict && c.s.chance(3, 4))
  {
    Val d = Val::D();
    d.dict["a"] = v;
    v = d;
  }
  Datagram d = build(c.s, v);
  c << str(v) << "; ";
  size_t hits = 0;
  for(pbt::List l(c.s, 30, 4); l.more();)
  {
    // A path: along the tree, with a deviation now and then.
    std::vector<std::string> tokens;
    const Val* at = &v;
    while(tokens.size() < 300)
    {
      if(at && at->kind == Val::Dict && !at->dict.empty() && c.s.chance(9, 10))
      {
        auto it = std::next(at->dict.begin(), c.s.draw(at->dict.size()));
        std::string k = it->first;
        at = &it->second;
        if(k.find('/') != std::string::npos || c.s.chance(1, 25))
        {
          k = gen::nearMiss(c.s, k);
          k.erase(std::remove(k.begin(), k.end(), '/'), k.end());
          at = nullptr;
        }
        tokens.push_back(k);
      }
      else if(c.s.chance(1, 8))
      {
        std::string k = c.s.flip() ? std::string(c.s.flip() ? "0" : "") : model::key(c.s);
        k.erase(std::remove(k.begin(), k.end(), '/'), k.end());
        tokens.push_back(k);
        at = nullptr;
      }
      else
      {
        break;
      }
    }
    bool trailing = !tokens.empty() && c.s.chance(1, 5);
    std::string path;
    for(size_t i = 0; i < tokens.size(); ++i)
    {
      path += (i ? "/" : "") + tokens[i];
    }
    // A last key that is empty can only be written with a slash after it.
    if(!tokens.empty() && tokens.back().empty())
    {
      trailing = true;
    }
    if(trailing)
    {
      path += "/";
    }
    // What "/" alone addresses (the datagram itself or the empty key) is not specified.
    if(path == "/" && (v.kind != Val::Dict || v.dict.count("")))
    {
      continue;
    }
    const Val* target = resolve(&v, tokens);
    c << quote(path, 60) << " ";
    c.label(target ? (target->kind == Val::Dict || target->kind == Val::List || target->kind == Val::Null ? "addresses no value" : "addresses a value") : "addresses nothing");
    bool noDefault = c.s.chance(1, 5);
    auto look = [&](auto def, Val::Kind kind, auto value, const char* name)
    {
      typedef decltype(def) T;
      T r = noDefault ? (def = T(), d.Get<T>(path)) : d.Get<T>(path, def);
      bool has = target && target->kind == kind;
      T expected = has ? value : def;
      bool same = memcmp(&r, &expected, sizeof r) == 0;
      c.checkf(same, [&] { return std::string("looking up ") + quote(path) + " as " + name + " does not give " + (has ? "the value there" : "the default"); });
      hits += has;
    };
    Val none;
    const Val& t = target ? *target : none;
    look((int)integer(c.s), Val::Int, t.integer, "integer");
    look((double)c.s.range(-1000, 1000) / 8, Val::Real, t.real, "real");
    look((bool)c.s.flip(), Val::Bool, t.boolean, "truth value");
    look((float)c.s.range(-1000, 1000) / 8, Val::Float, (float)t.real, "float");
    {
      std::string def = gen::bytes(c.s, gen::length(c.s, 300));
      std::string r = noDefault ? (def = "", d.Get<std::string>(path)) : d.Get<std::string>(path, def);
      bool has = t.kind == Val::Text;
      c.checkf(r == (has ? t.text : def), [&] { return "looking up " + quote(path) + " as text does not give " + (has ? "the value there" : "the default"); });
      hits += has;
    }
  }
  std::string r = differsAt(d, v, "after looking up, the datagram", v.nodes() < 100);
  c.check(r.empty(), r);
  if(hits > 0)
  {
    c.nontrivial();
  }
}
PBT_PROP({"D03", "trees up to 150 deep with keys that are empty, contain slashes or odd bytes; 4-30 paths along the tree or deviating from it, each looked up as integer, real, truth value, float and text with a default; "
                 "oracle: walk of the model, the value or the default bit for bit, and the tree unchanged; non-trivial: some look-up found a value", d03, 20000, 2000000, 30, 0, nullptr});

// ---------------------------------------------------------------------------------------------- D07

namespace
{
  // Matches the printed form, tolerating white space after separators.
  struct Printed
  {
    const std::string& text;
    size_t pos = 0;
    const std::ostream& style;
    std::string error;

    bool expect(const std::string& s, const char* what)
    {
      if(text.compare(pos, s.size(), s) == 0)
      {
        pos += s.size();
        return true;
      }
      error = std::string(what) + " expected at " + std::to_string(pos) + ": " + quote(s, 30) + ", there is " + quote(text.substr(pos, 30));
      return false;
    }
    void space()
    {
      while(pos < text.size() && (text[pos] == ' ' || text[pos] == '\n' || text[pos] == '\t'))
      {
        ++pos;
      }
    }
    template<class T> std::string plain(const T& x)
    {
      std::ostringstream o;
      o.copyfmt(style);
      o << x;
      return o.str();
    }
    bool match(const Val& v)
    {
      switch(v.kind)
      {
        case Val::Null: return expect("null", "null");
        case Val::Text: return expect("\"" + v.text + "\"", "text");
        case Val::Int: return expect(plain(v.integer), "integer");
        case Val::Real: return expect(plain(v.real), "real");
        case Val::Bool: return expect(plain(v.boolean), "truth value");
        case Val::Float: return expect(plain((float)v.real), "float");
        case Val::Opaq: return expect(plain(Opaque{v.integer}), "opaque");
        case Val::List:
        {
          if(!expect("[", "list"))
          {
            return false;
          }
          bool first = true;
          for(const Val& e : v.list)
          {
            if(!first && !expect(",", "separator"))
            {
              return false;
            }
            first = false;
            space();
            if(!match(e))
            {
              return false;
            }
          }
          return expect("]", "end of list");
        }
        case Val::Dict:
        {
          if(!expect("{", "dictionary"))
          {
            return false;
          }
          bool first = true;
          for(auto& e : v.dict)
          {
            if(!first && !expect(",", "separator"))
            {
              return false;
            }
            if(e.first.empty() || !(e.first[0] == ' ' || e.first[0] == '\n' || e.first[0] == '\t'))
            {
              space();
            }
            else if(!first)
            {
              // One space of our own before a key that starts with white space.
              if(text.compare(pos, 1 + e.first.size(), " " + e.first) == 0)
              {
                ++pos;
              }
            }
            first = false;
            if(!expect(e.first, "key") || !expect(":", "colon"))
            {
              return false;
            }
            space();
            if(!match(e.second))
            {
              return false;
            }
          }
          return expect("}", "end of dictionary");
        }
      }
      return false;
    }
  };
} // namespace

static void d07(Case& c)
{
  Options o = small();
  o.budget = 40;
  o.maxDepth = 7;
  Val v = any(c.s, o, 5000, 300);
  Datagram d = build(c.s, v);
  c << str(v);
  std::ostringstream out;
  unsigned style = (unsigned)c.s.draw(8);
  if(style & 1)
  {
    out << std::boolalpha;
  }
  if((style & 6) == 2)
  {
    out << std::hex << std::showbase;
  }
  if((style & 6) == 4)
  {
    out.precision(17);
  }
  if((style & 6) == 6)
  {
    out << std::fixed;
  }
  if(c.s.chance(7, 8))
  {
    out.copyfmt(std::ostringstream());
  }
  std::ostringstream reference;
  reference.copyfmt(out);
  out << d;
  std::string text = out.str();
  Printed p{text, 0, reference, ""};
  bool ok = p.match(v);
  c.checkf(ok && p.pos == text.size(), [&] { return "printed as " + quote(text, 400) + ": " + (p.error.empty() ? "something follows the end" : p.error); });
  c.check(out.good(), "the stream fails");
  {
    std::ostringstream again;
    again.copyfmt(reference);
    again << d;
    c.check(again.str() == text, "printing twice gives different texts");
  }
  {
    Datagram other = build(c.s, v);
    std::ostringstream o2;
    o2.copyfmt(reference);
    o2 << other;
    c.check(o2.str() == text, "equal datagrams print different texts");
  }
  std::string r = differsAt(d, v, "after printing, the datagram", v.nodes() < 60);
  c.check(r.empty(), r);
  // A message.
  std::string sender = gen::bytes(c.s, gen::length(c.s, 300)), topic = gen::bytes(c.s, gen::length(c.s, 300));
  lp::messages::Message m(sender, topic, d);
  std::ostringstream mo;
  mo.copyfmt(reference);
  mo << m;
  std::string mt = mo.str();
  size_t at = mt.find(sender);
  c.check(at != std::string::npos, "a printed message lacks its sender");
  c.check(mt.find(topic) != std::string::npos, "a printed message lacks its topic");
  c.check(mt.find(text) != std::string::npos, "a printed message lacks its datagram");
  c.check(mt.size() >= sender.size() + topic.size() + text.size(), "a printed message is shorter than what it has to show");
  if(v.nodes() > 2)
  {
    c.nontrivial();
  }
  if(v.depth() > 30)
  {
    c.label("deeper than 30");
  }
  if(v.nodes() > 300)
  {
    c.label("more than 300 nodes");
  }
}
PBT_PROP({"D07", "trees of any shape (up to 5000 items, 300 levels), printed with various stream formats; oracle: a matcher of the model against the text that tolerates white space between items, equal datagrams printing alike, "
                 "the tree unchanged, messages containing sender, topic and datagram; non-trivial: more than 2 nodes", d07, 20000, 2000000, 30, 0, nullptr});
