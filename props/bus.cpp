// B01 to B05: busses in a single thread, next to a model.
#include <busworld.h>

#include <set>

using namespace busworld;

namespace
{
  const char* cRule = "operations on several bus trees mirrored in a model; runs are ended from inside by a sentinel message; oracle: per subscriber, "
                      "the publications it is entitled to in publication order, each with the right content, sender, topic and callback, at the run "
                      "in which they were due; non-trivial: more than 3 deliveries, or 3 kinds of changes with a delivery";

  //                child out pub sub publ burst setcb dels delp stop start det destr pump query ids  aP aSO aSOt aD aC aSt aSR aDP roots ops burst
  Weights wB01() { return {8,  1, 10, 12, 40, 0,    1,   1,   1,   1,   1,    0,  0,    10,  1, false, 0, 0,  0,   0, 0, 0,  0,  0,  3,    60, 0}; }
  Weights wB02() { return {5,  1, 8,  10, 60, 1,    2,   2,   2,   2,   2,    0,  0,    20,  0, true, 20, 2,  1,   1, 1, 1,  1,  1,  2,    50, 20000}; }
  Weights wB03() { return {4,  0, 10, 12, 30, 0,    12,  12,  8,   1,   1,    0,  0,    12,  8, true, 5,  5,  5,   5, 5, 1,  0,  5,  2,    60, 0}; }
  Weights wB04() { return {10, 1, 8,  12, 30, 0,    1,   1,   1,   10,  12,   3,  1,    14,  1, true, 3,  0,  0,   1, 1, 8,  6,  0,  2,    60, 0}; }

  void b01(Case& c) { World(c, wB01()).run(); }
  void b02(Case& c) { World(c, wB02()).run(); }
  void b03(Case& c) { World(c, wB03()).run(); }
  void b04(Case& c) { World(c, wB04()).run(); }

  PBT_PROP({"B01", cRule, b01, 36000, 1500000, 20, 0, nullptr});
  PBT_PROP({"B02", cRule, b02, 9000, 300000, 20, 0, nullptr});
  PBT_PROP({"B03", cRule, b03, 45000, 1500000, 20, 0, nullptr});
  PBT_PROP({"B04", cRule, b04, 45000, 1500000, 20, 0, nullptr});

  // ---------------------------------------------------------------------------------------- B05

  std::string b05Name(Case& c, const std::vector<std::string>& known)
  {
    pbt::Src& s = c.s;
    static const std::vector<std::string> pool = {"a", "b", "bus", "child", "root", "0", "a/b", "/", " ", "\n", "name", "child-0", "child-1"};
    switch(s.weighted({6, 4, 3, 2, 1}))
    {
      case 0: return s.pick(pool);
      case 1: return known.empty() ? "a" : known[s.draw(known.size())];
      case 2: return known.empty() ? "A" : gen::nearMiss(s, known[s.draw(known.size())]);
      case 3: return gen::bytes(s, gen::length(s, 5000));
      default: return "";
    }
  }

  void b05(Case& c)
  {
    struct Node
    {
      Bus* bus;
      std::shared_ptr<Bus> ref;
      std::string name;
      std::map<std::string, size_t> kids;
      size_t depth;
    };
    pbt::Src& s = c.s;
    std::vector<std::unique_ptr<Bus>> roots;
    std::vector<Node> nodes;
    std::vector<std::string> known;
    size_t outlet = 0;
    for(size_t i = 1 + s.draw(2); i > 0; --i)
    {
      std::string name = b05Name(c, known);
      if(name.empty())
      {
        try
        {
          Bus b(name);
          c.fail("a bus with an empty name was created");
        }
        catch(const lp::exceptions::ArgumentNullException&)
        {
        }
        name = "root";
      }
      known.push_back(name);
      if(s.flip())
      {
        roots.emplace_back(new Bus(name));
      }
      else
      {
        roots.emplace_back(new Bus(name, [&outlet](Message) { ++outlet; }));
      }
      nodes.push_back({roots.back().get(), nullptr, name, {}, 0});
    }
    size_t lookups = 0, refused = 0;
    bool many = s.chance(1, 60);
    size_t serial = 0;
    for(pbt::List l(s, many ? 3000 : 80, 3); l.more();)
    {
      size_t at = s.draw(nodes.size());
      if(many && s.chance(9, 10))
      {
        at = 0;
      }
      std::string name = many && s.chance(3, 4) ? "n" + std::to_string(serial++) : b05Name(c, known);
      if(s.chance(3, 5))
      {
        c << "create " << quote(name) << " below " << at << "\n";
        bool taken = nodes[at].kids.count(name) != 0;
        try
        {
          std::shared_ptr<Bus> b = nodes[at].bus->CreateChildBus(name);
          c.checkf(!name.empty(), [&] { return std::string("a bus with an empty name was created"); });
          c.checkf(!taken, [&] { return "a second bus named " + quote(name) + " was created"; });
          c.checkf(b != nullptr && b->GetIdentifier() == name, [&] { return "the bus created as " + quote(name) + " has another name"; });
          for(Node& n : nodes)
          {
            c.checkf(n.bus != b.get(), [&] { return "creating " + quote(name) + " yields a bus that exists already"; });
          }
          nodes[at].kids[name] = nodes.size();
          size_t depth = nodes[at].depth + 1;
          nodes.push_back({b.get(), b, name, {}, depth});
          known.push_back(name);
        }
        catch(lp::exceptions::ArgumentNullException& e)
        {
          c.checkf(name.empty(), [&] { return quote(name) + " was refused as if it were empty"; });
          ++refused;
        }
        catch(lp::exceptions::DuplicateKeyException& e)
        {
          c.checkf(taken, [&] { return quote(name) + " was refused as a duplicate"; });
          c.checkf(e.GetKey() == name, [&] { return "the error about the duplicate " + quote(name) + " names " + quote(e.GetKey()); });
          ++refused;
        }
      }
      else
      {
        c << "look up " << quote(name) << " below " << at << "\n";
        auto k = nodes[at].kids.find(name);
        try
        {
          std::shared_ptr<Bus> b = nodes[at].bus->GetChildBus(name);
          c.checkf(k != nodes[at].kids.end(), [&] { return "looking up the unknown " + quote(name) + " yields a bus"; });
          c.checkf(b == nodes[k->second].ref, [&] { return "looking up " + quote(name) + " yields another bus"; });
          ++lookups;
        }
        catch(lp::exceptions::KeyNotFoundException& e)
        {
          c.checkf(k == nodes[at].kids.end(), [&] { return "the existing " + quote(name) + " is not found"; });
          c.checkf(e.GetKey() == name, [&] { return "the error about the unknown " + quote(name) + " names " + quote(e.GetKey()); });
          ++refused;
        }
      }
    }
    for(size_t i = 0; i < nodes.size(); ++i)
    {
      for(auto& k : nodes[i].kids)
      {
        c.checkf(nodes[i].bus->GetChildBus(k.first) == nodes[k.second].ref, [&] { return "in the end, looking up " + quote(k.first) + " yields another bus"; });
      }
      c.checkf(nodes[i].bus->GetIdentifier() == nodes[i].name, [&] { return "a bus has changed its name from " + quote(nodes[i].name); });
    }
    if(nodes.size() > roots.size() && (refused > 0 || lookups > 0))
    {
      c.nontrivial();
    }
  }

  PBT_PROP({"B05", "creations and look-ups under known, unknown, empty, near-miss and arbitrary names over several trees; oracle: a map from names to "
                   "busses per parent; non-trivial: a bus was created and a call was refused or a look-up succeeded",
    b05, 200000, 4000000, 20, 0, nullptr});
} // namespace
