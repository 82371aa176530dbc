// A model of bus trees and the machinery that drives the real thing next to it in a single thread.
//
// The model keeps, per tree, the log of all publications in order, and per subscriber the history of its
// entitlement (may it receive, with which callback) as a function of the position in that log.  Runs are
// ended from inside: a sentinel message is published last, and its receiver stops the root bus.
#ifndef LPBT_BUSWORLD_H
#define LPBT_BUSWORLD_H

#include <model.h>

#include <algorithm>

#include <lamppost/bus/Bus.h>

namespace busworld
{
  using lp::bus::Bus;
  using lp::bus::Publisher;
  using lp::bus::Subscriber;
  using lp::messages::Datagram;
  using lp::messages::Message;
  using lp::messages::RawDatagramType;
  using model::Val;
  using pbt::Case;
  using pbt::quote;

  inline bool matches(const std::string& pattern, const std::string& topic) { return pattern == topic || pattern == "/**/*"; }

  struct Weights
  {
    // Operations between runs.
    unsigned child, outlet, publisher, subscriber, publish, burst, setCallback, deleteSubscriber, deletePublisher, stopChild, startChild,
      detach, destroy, pump, query;
    // Actions taken by callbacks.
    bool ids;              // messages carry ids, and callbacks act
    unsigned actPublish, actSetOwn, actSetOther, actDelete, actCreate, actStopChild, actStopRoot, actDeletePublisher;
    size_t roots;
    size_t ops;
    size_t burstMax;
  };

  class World
  {
  public:
    World(Case& c, const Weights& w) : c(c), s(c.s), w(w)
    {
      static const std::vector<std::string> base = {"/a", "/b", "/a/b", "/a/request", "", "/", "topic", "/**/*", "/**", "/*", "/**/*/"};
      for(size_t i = 0; i < 3; ++i)
      {
        topics.push_back(s.pick(base));
      }
      topics.push_back(gen::nearMiss(s, topics[0]));
      topics.push_back(s.chance(1, 4) ? gen::bytes(s, s.draw(40)) : "/x/y");
    }

    ~World()
    {
      inWorld = false;
    }

    void run()
    {
      size_t n = 1 + s.draw(w.roots);
      for(size_t i = 0; i < n; ++i)
      {
        createRoot(i > 0 && w.outlet > 0 && s.chance(1, 2));
      }
      for(size_t k = s.draw(6); k > 0; --k)
      {
        createChild(s.draw(nodes.size()));
      }
      for(size_t k = 1 + s.draw(3); k > 0; --k)
      {
        createPublisher(s.draw(nodes.size()));
      }
      for(size_t k = 1 + s.draw(5); k > 0; --k)
      {
        createSubscriber(s.draw(nodes.size()));
      }
      for(size_t i = 0; i < trees.size(); ++i)
      {
        refreshNow(i);
      }
      for(pbt::List l(s, w.ops, 4); l.more();)
      {
        step();
      }
      for(size_t i = 0; i < trees.size(); ++i)
      {
        while(runnable(i) && !pump(i))
        {
        }
      }
      queries();
      if(deliveries > 0 && (deliveries > 3 || kinds > 3))
      {
        c.nontrivial();
      }
    }

  private:
    struct State
    {
      int may = 0;        // 0: must not receive, 1: must, 2: unspecified
      int version = -1;   // callback, -1: none
      bool operator==(const State& o) const { return may == o.may && version == o.version; }
    };
    struct Change
    {
      size_t at;
      bool fuzzy;         // whether the message at that position sees the old or the new state is unspecified
      State state;
    };
    struct Received
    {
      int version;
      bool hasSender;
      std::string topic, sender;
      Datagram datagram;
    };
    struct Sub
    {
      size_t node;
      std::string topic;
      std::shared_ptr<Subscriber> real;
      bool alive = true;
      int version = -1;   // current callback
      std::vector<Change> changes;
      std::vector<Received> received;
      size_t cursor = 0;  // position in the tree's log up to which deliveries were checked
      size_t matched = 0; // received up to here were checked
    };
    struct Pub
    {
      size_t node;
      std::string topic;
      std::shared_ptr<Publisher> real;
      bool alive = true;
    };
    struct Node
    {
      std::string name;
      size_t tree;
      int parent;
      Bus* bus = nullptr;
      std::shared_ptr<Bus> ref;
      std::unique_ptr<Bus> owner;
      std::vector<size_t> kids;
      bool running = true;
      bool cut = false;        // publishing has no effect
      bool silent = false;     // nothing is delivered any more
      bool unspecified = false;// whether something is delivered is unspecified
      bool gone = false;       // destroyed
    };
    struct Item
    {
      std::string topic, sender;
      std::shared_ptr<Val> content;
      bool lossy = false;
      bool sentinel = false;
    };
    struct Tree
    {
      size_t root;
      bool outlet = false;
      int relay = -1;          // tree to which the outlet passes on, -1: none
      std::vector<Item> log;   // publications (of an outlet tree: what the outlet must have been given)
      std::vector<Received> outletReceived;
      size_t outletChecked = 0;
      std::shared_ptr<Publisher> sentinelPublisher;
      std::shared_ptr<Subscriber> sentinelSubscriber;
      long sentinel = -1;      // current sentinel's position
      bool stopped = false;    // stopped by an action during the current run
      size_t stoppedAt = 0, stoppedSize = 0;
      bool running = false;
    };
    Case& c;
    pbt::Src& s;
    Weights w;
    std::vector<std::string> topics;
    std::vector<Node> nodes;
    std::vector<std::unique_ptr<Sub>> subs;
    std::vector<Pub> pubs;
    std::vector<Tree> trees;
    size_t deliveries = 0, kinds = 0, published = 0;
    std::vector<bool> actDone;
    bool inWorld = true;
    bool busy = false;

    static constexpr const char* cSentinelTopic = "\x01/sentinel";

    // ------------------------------------------------------------------------------ model

    State current(const Sub& u) const
    {
      State st;
      st.version = u.version;
      if(!u.alive || u.version < 0)
      {
        return st;
      }
      const Tree& t = trees[nodes[u.node].tree];
      if(t.outlet)
      {
        return st;
      }
      st.may = 1;
      for(int n = (int)u.node; n >= 0; n = nodes[n].parent)
      {
        const Node& k = nodes[n];
        if(k.silent || k.gone || !k.running)
        {
          st.may = 0;
          break;
        }
        if(k.unspecified)
        {
          st.may = 2;
        }
      }
      return st;
    }

    // Records the states of all subscribers of a tree as from a position in its log.
    void refresh(size_t tree, size_t at, bool fuzzy)
    {
      for(auto& u : subs)
      {
        if(nodes[u->node].tree != tree)
        {
          continue;
        }
        State st = current(*u);
        if(u->changes.empty() || !(u->changes.back().state == st))
        {
          u->changes.push_back({at, fuzzy, st});
        }
      }
    }

    void refreshNow(size_t tree) { refresh(tree, trees[tree].log.size() - pendingOf(tree), false); }
    // Everything still in the log behind the last completed run will see the new state.
    size_t pendingOf(size_t tree) const { return trees[tree].log.size() - doneUpTo(tree); }
    size_t doneUpTo(size_t tree) const { return done.size() > tree ? done[tree] : 0; }
    std::vector<size_t> done;

    bool dead(size_t n) const
    {
      for(int k = (int)n; k >= 0; k = nodes[k].parent)
      {
        if(nodes[k].gone)
        {
          return nodes[n].gone || true;
        }
      }
      return false;
    }
    bool usable(size_t n) const { return !nodes[n].gone; }
    bool runnable(size_t t) const
    {
      const Node& r = nodes[trees[t].root];
      return !trees[t].outlet && !r.gone && !r.cut;
    }

    // ------------------------------------------------------------------------------ operations

    size_t anyNode(bool cutToo)
    {
      std::vector<size_t> v;
      for(size_t i = 0; i < nodes.size(); ++i)
      {
        if(usable(i) && (cutToo || !nodes[i].cut))
        {
          v.push_back(i);
        }
      }
      return v.empty() ? SIZE_MAX : v[s.draw(v.size())];
    }

    std::string freshName(int parent)
    {
      static const std::vector<std::string> pool = {"a", "b", "root", "child", "A", "a/b", "a/", " ", "*", "bus-1"};
      std::string n = s.chance(3, 4) ? s.pick(pool) : gen::bytes(s, 1 + s.draw(24));
      for(;;)
      {
        bool taken = false;
        if(parent >= 0)
        {
          for(size_t k : nodes[parent].kids)
          {
            taken = taken || nodes[k].name == n;
          }
        }
        if(!taken)
        {
          return n;
        }
        n += '\'';
      }
    }

    void createRoot(bool outlet)
    {
      Node n;
      n.name = freshName(-1);
      n.parent = -1;
      n.tree = trees.size();
      Tree t;
      t.root = nodes.size();
      t.outlet = outlet;
      size_t self = trees.size();
      if(outlet)
      {
        if(s.chance(1, 3) && !trees[0].outlet)
        {
          t.relay = 0;
        }
        n.owner.reset(new Bus(n.name, [this, self](Message m) { onOutlet(self, m); }));
      }
      else
      {
        n.owner.reset(new Bus(n.name));
      }
      n.bus = n.owner.get();
      c << (outlet ? "outlet bus " : "root bus ") << t.root << " " << quote(n.name) << (t.relay >= 0 ? " relaying to tree 0" : "") << "\n";
      nodes.push_back(std::move(n));
      trees.push_back(std::move(t));
      done.push_back(0);
      if(!outlet)
      {
        Tree& k = trees.back();
        k.sentinelPublisher = nodes[k.root].bus->CreatePublisher(cSentinelTopic);
        k.sentinelSubscriber = nodes[k.root].bus->CreateSubscriber(cSentinelTopic);
        k.sentinelSubscriber->SetDatagramCallback([this, self](Datagram d) { onSentinel(self, d); });
      }
    }

    size_t createChild(size_t parent)
    {
      Node n;
      n.name = freshName((int)parent);
      n.parent = (int)parent;
      n.tree = nodes[parent].tree;
      n.ref = nodes[parent].bus->CreateChildBus(n.name);
      c.check(n.ref != nullptr, "no child bus was created");
      n.bus = n.ref.get();
      c.checkf(n.bus->GetIdentifier() == n.name, [&] { return "a child bus is named " + quote(n.bus->GetIdentifier()) + " instead of " + quote(n.name); });
      size_t id = nodes.size();
      c << "bus " << id << " " << quote(n.name) << " below " << parent << "\n";
      nodes.push_back(std::move(n));
      nodes[parent].kids.push_back(id);
      return id;
    }

    const std::string& topic() { return topics[s.flip() ? 0 : s.draw(topics.size())]; }

    Sub& createSubscriber(size_t node)
    {
      std::string t = s.chance(1, 4) ? "/**/*" : topic();
      size_t id = subs.size();
      std::unique_ptr<Sub> u(new Sub);
      u->node = node;
      u->topic = t;
      // Messages still pending at its creation belong to it as well: the history starts with its tree's next message.
      u->cursor = busy && trees[nodes[node].tree].running ? 0 : doneUpTo(nodes[node].tree);
      Sub& r = *u;
      subs.push_back(std::move(u));
      bool withCallback = s.chance(2, 3);
      if(withCallback)
      {
        r.version = 0;
        r.real = nodes[node].bus->CreateSubscriber(t, lp::bus::DatagramCallbackType([this, id](Datagram d) { onDatagram(id, 0, d); }));
      }
      else
      {
        r.real = nodes[node].bus->CreateSubscriber(t);
        if(s.chance(5, 6))
        {
          setCallback(id, false);
        }
      }
      c << "subscriber " << id << " for " << quote(t) << " on bus " << node << (r.version < 0 ? " without callback" : "") << "\n";
      return r;
    }

    void setCallback(size_t id, bool tell = true)
    {
      Sub& u = *subs[id];
      switch(s.draw(s.chance(1, 4) ? 4 : 2))
      {
        case 0:
        {
          int v = nextVersion++;
          u.version = v;
          u.real->SetMessageCallback([this, id, v](Message m) { onMessage(id, v, m); });
          if(tell) c << "subscriber " << id << " gets message callback " << v << "\n";
        } break;
        case 1:
        {
          int v = nextVersion++;
          u.version = v;
          u.real->SetDatagramCallback([this, id, v](Datagram d) { onDatagram(id, v, d); });
          if(tell) c << "subscriber " << id << " gets datagram callback " << v << "\n";
        } break;
        case 2:
          u.version = -1;
          u.real->SetMessageCallback(nullptr);
          if(tell) c << "subscriber " << id << " loses its callback\n";
          break;
        default:
          u.version = -1;
          u.real->SetDatagramCallback(nullptr);
          if(tell) c << "subscriber " << id << " loses its callback.\n";
          break;
      }
    }
    int nextVersion = 1;

    std::shared_ptr<Val> content(size_t tree, bool act)
    {
      auto v = std::make_shared<Val>();
      model::Options o;
      o.nan = false;
      o.maxText = w.burstMax > 100 ? 300 : 5000;
      o.budget = 12;
      o.maxDepth = 4;
      if(w.ids)
      {
        v->kind = Val::Dict;
        v->dict["id"] = Val::I((int)trees[tree].log.size());
        if(act)
        {
          v->dict["act"] = Val::I((int)actDone.size());
          actDone.push_back(false);
        }
        if(s.chance(1, 3))
        {
          size_t b = 6;
          v->dict["x"] = model::tree(s, o, 3, b);
        }
      }
      else
      {
        size_t b = s.chance(3, 4) ? 3 : 12;
        *v = model::tree(s, o, 4, b);
      }
      return v;
    }

    // Books a publication on a node; false if it has no effect.
    void book(size_t node, const std::string& t, const std::string& sender, const std::shared_ptr<Val>& v, bool sentinel = false)
    {
      if(nodes[node].cut || dead(node))
      {
        return;
      }
      Tree& k = trees[nodes[node].tree];
      Item i;
      i.topic = t;
      i.sender = sender;
      i.content = v;
      i.sentinel = sentinel;
      k.log.push_back(i);
      ++published;
      if(k.outlet && k.relay >= 0)
      {
        book(trees[k.relay].root, t, sender, v);
      }
    }

    static void spoil(Datagram& d, pbt::Src& s)
    {
      switch(s.draw(4))
      {
        case 0: break;
        case 1: d["spoiled"] = std::string("by someone else"); break;
        case 2: d = 12345; break;
        default:
          if(d.GetType() == RawDatagramType::Dictionary || d.GetType() == RawDatagramType::List)
          {
            d.Clear();
          }
          else
          {
            d["id"] = -1;
          }
          break;
      }
    }

    void publishOn(size_t pubIndex, bool act)
    {
      Pub& p = pubs[pubIndex];
      size_t tree = nodes[p.node].tree;
      // Publications of an outlet tree with ids take the id of where they finally arrive.
      size_t target = trees[tree].outlet && trees[tree].relay >= 0 ? (size_t)trees[tree].relay : tree;
      std::shared_ptr<Val> v = content(target, act && p.alive);
      Datagram d = model::build(s, *v);
      if(c.verbose())
      {
        c << "publish " << model::str(*v).substr(0, 200) << " through publisher " << pubIndex << (p.alive ? "" : " (deleted)") << "\n";
      }
      if(p.alive)
      {
        book(p.node, p.topic, nodes[p.node].name, v);
      }
      p.real->Publish(d);
      spoil(d, s);
    }

    void publishMessage(size_t node, bool act)
    {
      size_t tree = nodes[node].tree;
      size_t target = trees[tree].outlet && trees[tree].relay >= 0 ? (size_t)trees[tree].relay : tree;
      std::shared_ptr<Val> v = content(target, act);
      Datagram d = model::build(s, *v);
      std::string sender = s.chance(1, 2) ? nodes[s.draw(nodes.size())].name : gen::bytes(s, s.draw(20));
      std::string t = topic();
      Message m(sender, t, d);
      spoil(d, s);
      if(c.verbose())
      {
        c << "publish message from " << quote(sender) << " to " << quote(t) << " " << model::str(*v).substr(0, 200) << " on bus " << node << "\n";
      }
      book(node, t, sender, v);
      nodes[node].bus->Publish(m);
      m.PrependSender("other");
    }

    void step()
    {
      size_t node = anyNode(true);
      switch(s.weighted({w.publish, w.pump, w.subscriber, w.publisher, w.child, w.burst, w.setCallback, w.deleteSubscriber, w.deletePublisher,
        w.stopChild, w.startChild, w.detach, w.destroy, w.query}))
      {
        case 0:
          doPublish(true);
          break;
        case 1:
        {
          size_t t = s.draw(trees.size());
          if(runnable(t))
          {
            pump(t);
          }
        } break;
        case 2:
          if(node != SIZE_MAX && subs.size() < 40)
          {
            createSubscriber(node);
            refreshNow(nodes[node].tree);
          }
          break;
        case 3:
          if(node != SIZE_MAX)
          {
            createPublisher(node);
          }
          break;
        case 4:
        {
          size_t n = anyNode(false);
          if(n != SIZE_MAX && nodes.size() < 30)
          {
            createChild(n);
          }
        } break;
        case 5:
        {
          static const std::vector<size_t> sizes = {10, 33, 65, 100, 129, 257, 513, 1025, 2050, 4100, 10001, 20000};
          size_t n = std::min(w.burstMax, sizes[s.draw(s.chance(1, 12) ? sizes.size() : 6)]);
          burst(n);
        } break;
        case 6:
        {
          size_t id = anySub();
          if(id != SIZE_MAX)
          {
            setCallback(id);
            refreshNow(nodes[subs[id]->node].tree);
            ++kinds;
          }
        } break;
        case 7:
        {
          size_t id = anySub();
          if(id != SIZE_MAX)
          {
            deleteSubscriber(id);
            refreshNow(nodes[subs[id]->node].tree);
            ++kinds;
          }
        } break;
        case 8:
        {
          size_t id = anyPub();
          if(id != SIZE_MAX)
          {
            deletePublisher(id);
            ++kinds;
          }
        } break;
        case 9:
        {
          size_t n = anyChild();
          if(n != SIZE_MAX)
          {
            c << "stop bus " << n << "\n";
            nodes[n].bus->Stop();
            nodes[n].running = false;
            refreshNow(nodes[n].tree);
            ++kinds;
          }
        } break;
        case 10:
        {
          size_t n = anyChild();
          if(n != SIZE_MAX && !nodes[n].silent)
          {
            c << "start bus " << n << "\n";
            nodes[n].bus->Start();
            nodes[n].running = true;
            refreshNow(nodes[n].tree);
            ++kinds;
          }
        } break;
        case 11:
          if(node != SIZE_MAX && !nodes[node].cut && !relayTarget(node))
          {
            detach(node);
            ++kinds;
          }
          break;
        case 12:
        {
          size_t t = s.draw(trees.size());
          if(!nodes[trees[t].root].gone && !relayTarget(trees[t].root))
          {
            destroy(t);
            ++kinds;
          }
        } break;
        default:
          queries();
          break;
      }
    }

    // The tree an outlet relays to stays, so that the expectation stays simple.
    bool relayTarget(size_t node)
    {
      for(Tree& t : trees)
      {
        if(t.relay >= 0 && nodes[node].tree == (size_t)t.relay && nodes[node].parent < 0)
        {
          return true;
        }
      }
      return false;
    }

    void doPublish(bool act)
    {
      bool useAct = w.ids && act && s.chance(1, 2);
      size_t id = anyPub(true);
      if(id == SIZE_MAX || s.chance(1, 5))
      {
        size_t node = anyNode(true);
        if(node != SIZE_MAX)
        {
          publishMessage(node, useAct && !nodes[node].cut && !dead(node));
        }
        return;
      }
      if(!nodes[pubs[id].node].gone)
      {
        publishOn(id, useAct && !nodes[pubs[id].node].cut && !dead(pubs[id].node));
      }
    }

    void burst(size_t n)
    {
      std::vector<size_t> v;
      for(size_t i = 0; i < pubs.size(); ++i)
      {
        if(pubs[i].alive && !nodes[pubs[i].node].gone)
        {
          v.push_back(i);
        }
      }
      if(v.empty() || published > 40000)
      {
        return;
      }
      size_t a = v[s.draw(v.size())], b = v[s.draw(v.size())];
      c << "publish " << n << " messages through publishers " << a << " and " << b << "\n";
      for(size_t i = 0; i < n; ++i)
      {
        Pub& p = pubs[i % 2 ? b : a];
        size_t tree = nodes[p.node].tree;
        size_t target = trees[tree].outlet && trees[tree].relay >= 0 ? (size_t)trees[tree].relay : tree;
        auto val = std::make_shared<Val>(Val::I((int)i));
        if(w.ids)
        {
          Val d;
          d.kind = Val::Dict;
          d.dict["id"] = Val::I((int)trees[target].log.size());
          *val = d;
        }
        Datagram d;
        if(w.ids)
        {
          d["id"] = (int)trees[target].log.size();
        }
        else
        {
          d = (int)i;
        }
        book(p.node, p.topic, nodes[p.node].name, val);
        p.real->Publish(d);
      }
      ++kinds;
      c.label("burst");
    }

    void createPublisher(size_t node)
    {
      Pub p;
      p.node = node;
      p.topic = topic();
      p.real = nodes[node].bus->CreatePublisher(p.topic);
      c << "publisher " << pubs.size() << " for " << quote(p.topic) << " on bus " << node << "\n";
      pubs.push_back(p);
    }

    size_t anySub()
    {
      std::vector<size_t> v;
      for(size_t i = 0; i < subs.size(); ++i)
      {
        if(subs[i]->alive && usable(subs[i]->node))
        {
          v.push_back(i);
        }
      }
      return v.empty() ? SIZE_MAX : v[s.draw(v.size())];
    }
    size_t anyPub(bool deletedToo = false)
    {
      std::vector<size_t> v;
      for(size_t i = 0; i < pubs.size(); ++i)
      {
        if((deletedToo || pubs[i].alive) && usable(pubs[i].node))
        {
          v.push_back(i);
        }
      }
      return v.empty() ? SIZE_MAX : v[s.draw(v.size())];
    }
    size_t anyChild()
    {
      std::vector<size_t> v;
      for(size_t i = 0; i < nodes.size(); ++i)
      {
        if(usable(i) && nodes[i].parent >= 0)
        {
          v.push_back(i);
        }
      }
      return v.empty() ? SIZE_MAX : v[s.draw(v.size())];
    }

    void deleteSubscriber(size_t id)
    {
      Sub& u = *subs[id];
      c << "delete subscriber " << id << "\n";
      nodes[u.node].bus->DeleteSubscriber(u.real);
      u.alive = false;
    }

    void deletePublisher(size_t id)
    {
      c << "delete publisher " << id << "\n";
      nodes[pubs[id].node].bus->DeletePublisher(pubs[id].real);
      pubs[id].alive = false;
    }

    void cutBelow(size_t n)
    {
      for(size_t k : nodes[n].kids)
      {
        nodes[k].cut = true;
        nodes[k].silent = true;
        cutBelow(k);
      }
    }

    void detach(size_t n)
    {
      c << "detach bus " << n << "\n";
      nodes[n].bus->Detach();
      nodes[n].cut = true;
      nodes[n].unspecified = true;
      cutBelow(n);
      refreshNow(nodes[n].tree);
      c.label("detach");
    }

    void destroy(size_t t)
    {
      size_t r = trees[t].root;
      c << "destroy bus " << r << "\n";
      trees[t].sentinelPublisher.reset();
      trees[t].sentinelSubscriber.reset();
      for(size_t i = 0; i < pubs.size(); ++i)
      {
        if(pubs[i].node == r)
        {
          pubs[i].real.reset();
          pubs[i].alive = false;
        }
      }
      nodes[r].owner.reset();
      nodes[r].bus = nullptr;
      nodes[r].gone = true;
      cutBelow(r);
      refreshNow(t);
      c.label("destroy");
    }

    void queries()
    {
      for(size_t i = 0; i < nodes.size(); ++i)
      {
        if(!usable(i))
        {
          continue;
        }
        for(size_t k = 0; k < subs.size(); ++k)
        {
          bool expected = subs[k]->alive && subs[k]->node == i;
          c.checkf(nodes[i].bus->ContainsSubscriber(subs[k]->real) == expected, [&] {
            return "bus " + std::to_string(i) + (expected ? " does not contain its subscriber " : " contains the foreign or deleted subscriber ") + std::to_string(k);
          });
        }
        for(size_t k = 0; k < pubs.size(); ++k)
        {
          if(!pubs[k].real)
          {
            continue;
          }
          bool expected = pubs[k].alive && pubs[k].node == i;
          c.checkf(nodes[i].bus->ContainsPublisher(pubs[k].real) == expected, [&] {
            return "bus " + std::to_string(i) + (expected ? " does not contain its publisher " : " contains the foreign or deleted publisher ") + std::to_string(k);
          });
        }
        c.checkf(nodes[i].bus->GetIdentifier() == nodes[i].name, [&] { return "bus " + std::to_string(i) + " has changed its name to " + quote(nodes[i].bus->GetIdentifier()); });
        if(!nodes[i].cut)
        {
          for(size_t k : nodes[i].kids)
          {
            c.checkf(nodes[i].bus->GetChildBus(nodes[k].name) == nodes[k].ref, [&] { return "bus " + std::to_string(i) + " yields another bus than " + std::to_string(k) + " for its name"; });
          }
        }
      }
    }

    // ------------------------------------------------------------------------------ running

    void publishSentinel(size_t t)
    {
      Tree& k = trees[t];
      k.sentinel = (long)k.log.size();
      auto v = std::make_shared<Val>();
      v->kind = Val::Dict;
      v->dict["id"] = Val::I((int)k.log.size());
      Datagram d;
      d["id"] = (int)k.log.size();
      book(k.root, cSentinelTopic, nodes[k.root].name, v, true);
      k.sentinelPublisher->Publish(d);
    }

    void onSentinel(size_t t, Datagram d)
    {
      Tree& k = trees[t];
      if(d.Get<int>("id", -1) != (int)k.sentinel || !k.running)
      {
        return;
      }
      if(k.log.size() == (size_t)k.sentinel + 1 || k.stopped)
      {
        nodes[k.root].bus->Stop();
      }
      else
      {
        publishSentinel(t);
      }
    }

    bool pump(size_t t)
    {
      Tree& k = trees[t];
      c << "run bus " << k.root << "\n";
      busy = true;
      k.running = true;
      k.stopped = false;
      publishSentinel(t);
      nodes[k.root].bus->Start();
      k.running = false;
      busy = false;
      c << "... returned\n";
      if(k.stopped)
      {
        c.label("stopped by a callback");
        ++kinds;
        // What was still pending may be lost, or be delivered when the bus runs again; what was published
        // after the stop is delivered then.
        for(size_t i = k.stoppedAt; i < k.stoppedSize; ++i)
        {
          k.log[i].lossy = true;
        }
        done[t] = k.stoppedAt + 1;
        k.sentinel = -1;
        return false;
      }
      done[t] = k.log.size();
      verify(t);
      for(size_t i = 0; i < trees.size(); ++i)
      {
        if(trees[i].outlet)
        {
          verifyOutlet(i);
        }
      }
      return true;
    }
    // ------------------------------------------------------------------------------ receiving

    void onMessage(size_t id, int version, Message& m)
    {
      Received r;
      r.version = version;
      r.hasSender = true;
      r.topic = m.GetTopic();
      r.sender = m.GetSender();
      r.datagram = m.GetDatagram();
      Datagram d = m.GetDatagram();
      receive(id, std::move(r), d);
      m.PrependSender("spoiled");
    }

    void onDatagram(size_t id, int version, Datagram& d)
    {
      Received r;
      r.version = version;
      r.hasSender = false;
      r.datagram = d;
      receive(id, std::move(r), d);
    }

    void receive(size_t id, Received r, Datagram& d)
    {
      if(!inWorld)
      {
        pbt::failNow("a callback is invoked after the end");
      }
      if(!busy)
      {
        c.fail("subscriber " + std::to_string(id) + " is invoked although no bus is running");
      }
      ++deliveries;
      Sub& u = *subs[id];
      if(c.verbose())
      {
        std::ostringstream o;
        o << d;
        c << "  subscriber " << id << " (callback " << r.version << ") receives " << o.str().substr(0, 160) << "\n";
      }
      u.received.push_back(r);
      if(w.ids && d.GetType() == RawDatagramType::Dictionary)
      {
        int a = d.Get<int>("act", -1);
        int at = d.Get<int>("id", -1);
        if(a >= 0 && a < (int)actDone.size() && !actDone[a] && at >= 0)
        {
          actDone[a] = true;
          act(id, (size_t)at);
        }
      }
      spoil(d, s);
    }

    // Whether a callback of a subscriber on bus b may create busses below bus n.
    bool ancestor(size_t n, size_t of) const
    {
      for(int k = nodes[of].parent; k >= 0; k = nodes[k].parent)
      {
        if((size_t)k == n)
        {
          return true;
        }
      }
      return false;
    }

    void act(size_t self, size_t at)
    {
      size_t own = subs[self]->node;
      size_t tree = nodes[own].tree;
      if(actions > 60)
      {
        return;
      }
      ++actions;
      switch(s.weighted({w.actPublish, w.actSetOwn, w.actSetOther, w.actDelete, w.actCreate, w.actStopChild, w.actStopRoot, w.actDeletePublisher, 1}))
      {
        case 0:
        {
          size_t n = 1 + s.draw(4);
          for(size_t i = 0; i < n; ++i)
          {
            doPublish(true);
          }
          c.label("published by a callback");
        } break;
        case 1:
          setCallback(self);
          refresh(tree, at, true);
          c.label("callback changed by itself");
          break;
        case 2:
        {
          size_t id = anySub();
          if(id != SIZE_MAX)
          {
            setCallback(id);
            refreshFor(id, tree, at);
            c.label("callback changed by another");
          }
        } break;
        case 3:
        {
          size_t id = anySub();
          if(id != SIZE_MAX && subs[id]->node != own)
          {
            deleteSubscriber(id);
            refreshFor(id, tree, at);
            c.label("deleted by a callback");
          }
        } break;
        case 4:
        {
          size_t n = anyNode(false);
          if(n == SIZE_MAX || nodes.size() >= 40 || subs.size() >= 60)
          {
            return;
          }
          if(!ancestor(n, own) && s.flip())
          {
            n = createChild(n);
          }
          if(n != own)
          {
            createSubscriber(n);
            Sub& u = *subs.back();
            if(nodes[n].tree == tree)
            {
              u.cursor = at;
            }
            refreshFor(subs.size() - 1, tree, at);
            c.label("created by a callback");
          }
        } break;
        case 5:
        {
          size_t n = anyChild();
          if(n != SIZE_MAX && nodes[n].tree == tree && !nodes[n].silent)
          {
            bool go = !nodes[n].running;
            c << "callback " << (go ? "starts" : "stops") << " bus " << n << "\n";
            if(go)
            {
              nodes[n].bus->Start();
            }
            else
            {
              nodes[n].bus->Stop();
            }
            nodes[n].running = go;
            refresh(tree, at, true);
            c.label("stopped or started by a callback");
          }
        } break;
        case 6:
          if(trees[tree].running && !trees[tree].stopped)
          {
            c << "callback stops bus " << trees[tree].root << "\n";
            trees[tree].stopped = true;
            trees[tree].stoppedAt = at;
            trees[tree].stoppedSize = trees[tree].log.size();
            nodes[trees[tree].root].bus->Stop();
          }
          break;
        case 7:
        {
          size_t id = anyPub();
          if(id != SIZE_MAX)
          {
            deletePublisher(id);
          }
        } break;
        default: break;
      }
    }
    size_t actions = 0;

    void refreshFor(size_t id, size_t tree, size_t at)
    {
      size_t t = nodes[subs[id]->node].tree;
      if(t == tree)
      {
        refresh(tree, at, true);
      }
      else
      {
        refreshNow(t);
      }
    }

    // ------------------------------------------------------------------------------ outlets

    void onOutlet(size_t t, Message& m)
    {
      Tree& k = trees[t];
      Received r;
      r.version = 0;
      r.hasSender = true;
      r.topic = m.GetTopic();
      r.sender = m.GetSender();
      r.datagram = m.GetDatagram();
      k.outletReceived.push_back(r);
      if(k.relay >= 0)
      {
        nodes[trees[k.relay].root].bus->Publish(m);
      }
    }

    std::string differs(const Received& r, const Item& i, const std::string& topicSeen) const
    {
      if(r.hasSender && r.sender != i.sender)
      {
        return "sender is " + quote(r.sender) + " instead of " + quote(i.sender);
      }
      if(r.hasSender && r.topic != i.topic)
      {
        return "topic is " + quote(r.topic) + " instead of " + quote(i.topic);
      }
      (void)topicSeen;
      Datagram d = r.datagram;
      return model::differsAt(d, *i.content, "content", false);
    }

    void verifyOutlet(size_t t)
    {
      Tree& k = trees[t];
      for(; k.outletChecked < k.log.size(); ++k.outletChecked)
      {
        c.checkf(k.outletChecked < k.outletReceived.size(), [&] { return "the outlet of bus " + std::to_string(k.root) + " was not given message " + std::to_string(k.outletChecked); });
        std::string e = differs(k.outletReceived[k.outletChecked], k.log[k.outletChecked], "");
        c.checkf(e.empty(), [&] { return "outlet of bus " + std::to_string(k.root) + ", message " + std::to_string(k.outletChecked) + ": " + e; });
      }
      c.checkf(k.outletReceived.size() == k.log.size(), [&] { return "the outlet of bus " + std::to_string(k.root) + " was given " + std::to_string(k.outletReceived.size()) + " messages instead of " + std::to_string(k.log.size()); });
      for(auto& u : subs)
      {
        if(nodes[u->node].tree == t)
        {
          c.check(u->received.empty(), "a subscriber below a bus with an outlet of its own received something");
        }
      }
    }

    // ------------------------------------------------------------------------------ the oracle

    void verify(size_t t)
    {
      Tree& k = trees[t];
      for(size_t n = 0; n < subs.size(); ++n)
      {
        Sub& u = *subs[n];
        if(nodes[u.node].tree != t)
        {
          continue;
        }
        size_t change = 0;
        State st;
        auto at = [&](size_t i, bool exact) {
          for(; change < u.changes.size() && (u.changes[change].at < i || (u.changes[change].at == i && !u.changes[change].fuzzy && exact)); ++change)
          {
            st = u.changes[change].state;
          }
        };
        for(size_t i = u.cursor; i < k.log.size(); ++i)
        {
          at(i, true);
          const Item& it = k.log[i];
          if(!matches(u.topic, it.topic))
          {
            continue;
          }
          bool must = st.may == 1 && !it.lossy, may = st.may != 0;
          std::vector<int> versions = {st.version};
          for(size_t x = change; x < u.changes.size() && u.changes[x].at == i; ++x)
          {
            must = must && u.changes[x].state.may == 1;
            may = may || u.changes[x].state.may != 0;
            versions.push_back(u.changes[x].state.version);
          }
          bool have = u.matched < u.received.size();
          std::string e = have ? differs(u.received[u.matched], it, "") : "nothing more arrived";
          if(it.lossy && have && e.empty())
          {
            ++u.matched;
          }
          else if(may && have && e.empty())
          {
            int v = u.received[u.matched].version;
            c.checkf(std::find(versions.begin(), versions.end(), v) != versions.end(), [&] {
              return "subscriber " + std::to_string(n) + " received message " + std::to_string(i) + " of tree " + std::to_string(t) + " with callback " + std::to_string(v) + " instead of " + std::to_string(versions.back());
            });
            ++u.matched;
          }
          else if(must)
          {
            c.fail("subscriber " + std::to_string(n) + " (" + quote(u.topic) + ", bus " + std::to_string(u.node) + ") did not get message " + std::to_string(i) + " of tree " + std::to_string(t) + " (" +
              quote(it.topic) + " " + model::str(*it.content).substr(0, 200) + ") when it was due: " + e);
          }
        }
        if(u.matched < u.received.size())
        {
          std::ostringstream o;
          o << u.received[u.matched].datagram;
          c.fail("subscriber " + std::to_string(n) + " (" + quote(u.topic) + ", bus " + std::to_string(u.node) + ") received something it should not have, or out of order or twice: " + o.str().substr(0, 300));
        }
        u.cursor = k.log.size();
        u.received.clear();
        u.matched = 0;
        at(u.cursor, false);
        // Compact the history.
        std::vector<Change> rest;
        rest.push_back({u.cursor, false, u.changes.empty() ? State() : u.changes.back().state});
        u.changes.swap(rest);
      }
    }
  };
} // namespace busworld

#endif
