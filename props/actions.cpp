// A01, A03: actions in a single thread.
#include <model.h>

#include <chrono>
#include <set>

#include <lamppost/bus/Bus.h>

using lp::bus::ActionConsumer;
using lp::bus::ActionProvider;
using lp::bus::Bus;
using lp::bus::Publisher;
using lp::bus::Subscriber;
using lp::messages::Datagram;
using lp::messages::RawDatagramType;
using model::Val;
using pbt::Case;
using pbt::quote;

namespace
{
  class World
  {
  public:
    World(Case& c, bool malformed) : c(c), s(c.s), malformed(malformed), root("root")
    {
      static const std::vector<std::string> base = {"/action", "action", "/a/b", "", "/a", "/action/request"};
      topics.push_back(s.pick(base));
      topics.push_back(s.chance(1, 2) ? s.pick(base) : gen::nearMiss(s, topics[0]));
      topics.push_back("/other");
      busses.push_back(&root);
    }

    void run()
    {
      // Whoever watches the channels learns the invocation ids first-hand.
      std::set<std::string> unique(topics.begin(), topics.end());
      for(const std::string& t : unique)
      {
        watchers.push_back(root.CreateSubscriber(t + "/request", lp::bus::DatagramCallbackType([this, t](Datagram d) { onWire(t, d); })));
      }
      sentinelSub = root.CreateSubscriber("\x01/sentinel", lp::bus::DatagramCallbackType([this](Datagram d) { onSentinel(d); }));
      sentinelPub = root.CreatePublisher("\x01/sentinel");
      for(size_t k = s.draw(4); k > 0; --k)
      {
        size_t at = s.draw(busses.size());
        kids.push_back(busses[at]->CreateChildBus("k" + std::to_string(k)));
        busses.push_back(kids.back().get());
      }
      addConsumer();
      addProvider();
      for(size_t k = s.draw(3); k > 0; --k)
      {
        addConsumer();
      }
      for(size_t k = s.draw(3); k > 0; --k)
      {
        addProvider();
      }
      for(pbt::List l(s, 60, 2); l.more();)
      {
        step();
      }
      pump();
      size_t answered = 0;
      for(Request& r : requests)
      {
        answered += r.calls.size();
      }
      if(malformed ? badSent > 0 && answered > 0 : answered > 1)
      {
        c.nontrivial();
      }
    }

  private:
    struct Seen
    {
      size_t provider;
      std::string id;
      std::shared_ptr<Datagram> datagram;
    };
    struct Request
    {
      size_t consumer;
      std::string topic;
      std::shared_ptr<Val> content;
      std::string id;
      std::vector<std::shared_ptr<Val>> answers;        // in the order given
      std::vector<std::shared_ptr<Datagram>> calls;
      std::map<size_t, size_t> seenBy;
      std::set<size_t> due;                             // providers that must see it
      bool loose = false;                               // got an answer whose effect is unspecified
      bool blocking = false;
      bool checkedDue = false;
      int again = 0;                                    // the callback makes another request
    };
    struct Provider
    {
      std::shared_ptr<ActionProvider> real;
      std::string topic;
      size_t bus;
      bool handler;
      bool reset = false;
      unsigned style;
      std::vector<std::string> withheld;
    };
    struct Consumer
    {
      std::shared_ptr<ActionConsumer> real;
      std::string topic;
      size_t bus;
    };

    Case& c;
    pbt::Src& s;
    bool malformed;
    Bus root;
    std::vector<std::shared_ptr<Bus>> kids;
    std::vector<Bus*> busses;
    std::vector<std::string> topics;
    std::vector<std::shared_ptr<Subscriber>> watchers;
    std::shared_ptr<Subscriber> sentinelSub;
    std::shared_ptr<Publisher> sentinelPub;
    std::vector<Provider> providers;
    std::vector<Consumer> consumers;
    std::deque<Request> requests;
    std::map<std::string, size_t> byId;
    std::vector<std::string> ids;          // all invocation ids seen, own and foreign
    std::set<std::string> foreign;         // well-formed ids of requests made by raw publishers
    int published = 0, sentinel = 0, badSent = 0, events = 0;
    std::vector<size_t> unseen;            // requests whose id is not known yet, in order, per topic

    const std::string& topic() { return topics[s.weighted({6, 3, 1})]; }

    std::shared_ptr<Val> content()
    {
      model::Options o;
      o.nan = false;
      o.maxText = s.chance(1, 10) ? 3000 : 20;
      size_t b = s.chance(3, 4) ? 1 : s.chance(3, 4) ? 4 : 15;
      return std::make_shared<Val>(model::tree(s, o, 4, b));
    }

    void addConsumer()
    {
      Consumer k;
      k.topic = topic();
      k.bus = s.draw(busses.size());
      k.real = busses[k.bus]->CreateActionConsumer(k.topic);
      c << "consumer " << consumers.size() << " of " << quote(k.topic) << " on bus " << k.bus << "\n";
      consumers.push_back(k);
    }

    void addProvider()
    {
      Provider p;
      p.topic = topic();
      p.bus = s.draw(busses.size());
      size_t id = providers.size();
      p.handler = !malformed || !s.chance(1, 6);
      p.style = (unsigned)s.draw(5);
      providers.push_back(p);
      c << "provider " << id << " of " << quote(p.topic) << " on bus " << p.bus << (p.handler ? "" : " without handler") << ", style " << p.style << "\n";
      std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)> f;
      if(p.handler)
      {
        f = [this, id](std::shared_ptr<ActionProvider> self, std::string invocation, Datagram d) { onRequest(id, self, invocation, d); };
      }
      providers[id].real = busses[p.bus]->CreateActionProvider(p.topic, f);
    }

    size_t newRequest(size_t consumer, bool blocking)
    {
      Request r;
      r.consumer = consumer;
      r.topic = consumers[consumer].topic;
      r.content = content();
      r.blocking = blocking;
      requests.push_back(r);
      unseen.push_back(requests.size() - 1);
      ++published;
      return requests.size() - 1;
    }

    void request(size_t consumer)
    {
      size_t n = newRequest(consumer, false);
      requests[n].again = s.chance(1, 5) ? 1 + (int)s.draw(2) : 0;
      Datagram d = model::build(s, *requests[n].content);
      c << "request " << n << " by consumer " << consumer << ": " << model::str(*requests[n].content).substr(0, 100) << "\n";
      consumers[consumer].real->RequestAsync(d, [this, n](Datagram response) { onResponse(n, response); });
      d["spoiled"] = true;
    }

    void blockingRequest(size_t consumer)
    {
      if(requests.size() > 400)
      {
        return;
      }
      size_t n = newRequest(consumer, true);
      int timeout = (int)s.draw(3);
      c << "blocking request " << n << " by consumer " << consumer << ", timeout " << timeout << " ms\n";
      Datagram d = model::build(s, *requests[n].content);
      auto start = std::chrono::steady_clock::now();
      Datagram r = consumers[consumer].real->Request(d, timeout);
      auto took = std::chrono::steady_clock::now() - start;
      c.checkf(r.IsEmpty(), [&] { return std::string("a blocking request that nobody can have answered yields a response"); });
      c.checkf(took >= std::chrono::milliseconds(timeout), [&] { return std::string("an unanswered blocking request returned before its timeout"); });
      c.label("blocking request");
    }

    void step()
    {
      switch(s.weighted({12, 6, 2, 2, 6, 2, 1, 1, 2, malformed ? 14u : 0u, malformed ? 1u : 0u}))
      {
        case 0:
          if(!consumers.empty())
          {
            request(s.draw(consumers.size()));
          }
          break;
        case 1: pump(); break;
        case 2: if(consumers.size() < 8) addConsumer(); break;
        case 3: if(providers.size() < 8) addProvider(); break;
        case 4: stray(); break;
        case 5: rawRequest(); break;
        case 6:
        {
          size_t k = s.draw(consumers.size());
          c << "request without callback by consumer " << k << "\n";
          size_t before = wire;
          try
          {
            Datagram d = model::build(s, *content());
            consumers[k].real->RequestAsync(d, nullptr);
            c.fail("a request without a callback was accepted");
          }
          catch(const lp::exceptions::ArgumentNullException&)
          {
          }
          c.check(wire == before, "a refused request was sent");
        } break;
        case 7:
        {
          size_t n = 1 + s.draw(s.chance(1, 60) ? 1200 : 12), k = s.draw(consumers.size());
          if(requests.size() > 3000)
          {
            break;
          }
          for(size_t i = 0; i < n; ++i)
          {
            Request r;
            r.consumer = k;
            r.topic = consumers[k].topic;
            r.content = std::make_shared<Val>(Val::I((int)i));
            requests.push_back(r);
            size_t id = requests.size() - 1;
            unseen.push_back(id);
            ++published;
            Datagram d = (int)i;
            consumers[k].real->RequestAsync(d, [this, id](Datagram response) { onResponse(id, response); });
          }
          c << n << " requests by consumer " << k << "\n";
          c.label("burst");
        } break;
        case 8: blockingRequest(s.draw(consumers.size())); break;
        case 9: bad(); break;
        default:
        {
          size_t k = s.draw(providers.size());
          // Only between runs, when nothing is pending, so that it is clear which requests it still sees.
          pump();
          c << "reset provider " << k << "\n";
          providers[k].real->Reset();
          providers[k].reset = true;
        } break;
      }
    }

    // An answer given outside a handler, to an open, answered or unknown request, by any provider or publisher.
    void stray()
    {
      std::string id = anyId();
      answer(id, s.draw(providers.size()), s.chance(1, 3));
    }

    std::string anyId()
    {
      if(!ids.empty() && !s.chance(1, 8))
      {
        std::string id = s.flip() && ids.size() > 8 ? ids[ids.size() - 1 - s.draw(8)] : ids[s.draw(ids.size())];
        return s.chance(1, 12) ? gen::nearMiss(s, id) : id;
      }
      return s.chance(1, 2) ? "unknown" : gen::bytes(s, s.draw(40));
    }

    void answer(const std::string& id, size_t provider, bool raw)
    {
      if(id.empty())
      {
        return;
      }
      auto v = content();
      Datagram d = model::build(s, *v);
      const std::string& t = providers[provider].topic;
      if(c.verbose())
      {
        auto q = byId.find(id);
        c << "answer " << model::str(*v).substr(0, 100) << " to " << (q == byId.end() ? quote(id) : "request " + std::to_string(q->second)) << " on " << quote(t) << (raw ? " (by hand)" : "") << "\n";
      }
      auto k = byId.find(id);
      if(k != byId.end() && requests[k->second].topic == t)
      {
        requests[k->second].answers.push_back(v);
      }
      ++published;
      if(raw)
      {
        auto p = busses[s.draw(busses.size())]->CreatePublisher(t + "/response");
        Datagram w;
        w["response"] = d;
        w["invocationId"] = id;
        p->Publish(w);
      }
      else
      {
        providers[provider].real->Respond(id, d);
      }
      d["spoiled"] = true;
    }

    // A well-formed request by someone who is not a consumer.
    void rawRequest()
    {
      std::string t = topic();
      std::string id = "raw-" + std::to_string(requests.size()) + "-" + std::to_string(published);
      Datagram d;
      d["invocationId"] = id;
      d["request"] = 1;
      foreign.insert(id);
      ids.push_back(id);
      ++published;
      busses[s.draw(busses.size())]->CreatePublisher(t + "/request")->Publish(d);
    }

    void bad()
    {
      ++badSent;
      ++published;
      bool response = s.flip();
      std::string t = topic();
      Val v;
      std::string id;
      bool known = false;
      if(s.chance(1, 4))
      {
        v = *content();
        if(v.kind == Val::Dict)
        {
          v.dict.erase("invocationId");
        }
      }
      else
      {
        v.kind = Val::Dict;
        size_t style = s.draw(response ? 8 : 6);
        if(style == 0)
        {
        }
        else if(style == 1)
        {
          v.dict["invocationId"] = Val::T("");
        }
        else if(style == 2)
        {
          v.dict["invocationId"] = Val();
        }
        else if(style <= 5)
        {
          Val w = *content();
          v.dict["invocationId"] = w.kind == Val::Text ? Val::I(1) : w;
        }
        else
        {
          // An open request's id, or nearly so; with or without a response.
          id = anyId();
          if(id.empty() || style == 6)
          {
            id += "?";
            v.dict["response"] = Val::T("wrong");
          }
          known = true;
          v.dict["invocationId"] = Val::T(id);
        }
        if(style < 6 && s.flip())
        {
          v.dict[response ? "response" : "request"] = *content();
        }
        if(s.chance(1, 3))
        {
          v.dict["extra"] = *content();
        }
        if(s.chance(1, 6))
        {
          v.dict["invocationid"] = Val::T(anyId());
        }
      }
      if(known)
      {
        auto k = byId.find(id);
        if(k != byId.end())
        {
          requests[k->second].loose = true;
        }
      }
      if(c.verbose())
      {
        c << "publish " << model::str(v).substr(0, 150) << " on " << quote(t + (response ? "/response" : "/request")) << "\n";
      }
      Datagram d = model::build(s, v);
      busses[s.draw(busses.size())]->CreatePublisher(t + (response ? "/response" : "/request"))->Publish(d);
    }

    // ------------------------------------------------------------------------------ events

    size_t wire = 0;

    void onWire(const std::string& t, Datagram d)
    {
      ++wire;
      std::string id = d.Get<std::string>("invocationId", "");
      if(id.empty())
      {
        c.check(malformed, "a request without an invocation id is on its way");
        return;
      }
      c.checkf(wired.insert(id).second, [&] { return "two requests have the invocation id " + quote(id); });
      learn(t, id, d);
    }
    std::set<std::string> wired;

    // The first time that an invocation id is seen.
    void learn(const std::string& t, const std::string& id, Datagram d)
    {
      if(foreign.count(id) || byId.count(id))
      {
        return;
      }
      // Requests appear in the order in which they were made.
      size_t at = SIZE_MAX;
      for(size_t i = 0; i < unseen.size(); ++i)
      {
        if(requests[unseen[i]].topic == t)
        {
          at = i;
          break;
        }
      }
      c.checkf(at != SIZE_MAX, [&] { return "a request that nobody made appears on " + quote(t); });
      Request& r = requests[unseen[at]];
      Datagram got = d["request"];
      std::string e = model::differsAt(got, *r.content, "request", false);
      c.checkf(e.empty(), [&] { return "request " + std::to_string(unseen[at]) + " is sent changed: " + e; });
      r.id = id;
      byId[id] = unseen[at];
      ids.push_back(id);
      for(size_t i = 0; i < providers.size(); ++i)
      {
        if(providers[i].topic == t && providers[i].handler && !providers[i].reset)
        {
          r.due.insert(i);
        }
      }
      unseen.erase(unseen.begin() + (long)at);
    }

    void onRequest(size_t provider, const std::shared_ptr<ActionProvider>& self, const std::string& id, Datagram& d)
    {
      Provider& p = providers[provider];
      c.check(self == p.real, "a handler is given another provider than its own");
      c.checkf(!p.reset, [&] { return "a provider that was reset handles a request"; });
      c.checkf(!id.empty(), [&] { return "a handler is invoked with an empty invocation id"; });
      if(foreign.count(id))
      {
        if(s.chance(1, 3))
        {
          p.real->Respond(id, d);
          ++published;
        }
        return;
      }
      learn(p.topic, id, d);
      auto k = byId.find(id);
      c.checkf(k != byId.end(), [&] { return "a handler is invoked with the invocation id " + quote(id) + ", which no request has"; });
      Request& r = requests[k->second];
      c.checkf(r.topic == p.topic, [&] { return "provider of " + quote(p.topic) + " is given a request for " + quote(r.topic); });
      c.checkf(++r.seenBy[provider] == 1, [&] { return "a provider is given request " + std::to_string(k->second) + " twice"; });
      Datagram got = d["request"];
      std::string e = model::differsAt(got, *r.content, "request", false);
      c.checkf(e.empty(), [&] { return "provider " + std::to_string(provider) + " sees request " + std::to_string(k->second) + " changed: " + e; });
      d["request"] = std::string("spoiled");
      if(++events > 1500)
      {
        return;
      }
      c << "  provider " << provider << " handles request " << k->second << "\n";
      switch(p.style)
      {
        case 0: answer(id, provider, false); break;
        case 1:
          for(size_t n = s.draw(4); n > 0; --n)
          {
            answer(id, s.chance(1, 4) ? s.draw(providers.size()) : provider, s.chance(1, 4));
          }
          break;
        case 2: p.withheld.push_back(id); break;
        case 3:
          // Answers are given out of order, to earlier requests.
          p.withheld.push_back(id);
          while(!p.withheld.empty() && s.chance(2, 3))
          {
            size_t i = s.draw(p.withheld.size());
            answer(p.withheld[i], provider, false);
            if(!s.chance(1, 5))
            {
              p.withheld.erase(p.withheld.begin() + (long)i);
            }
          }
          break;
        default:
          if(s.chance(1, 12) && !malformed)
          {
            for(size_t i = 0; i < consumers.size(); ++i)
            {
              if(s.chance(1, 3))
              {
                blockingRequest(i);
                break;
              }
            }
          }
          answer(id, provider, false);
          break;
      }
    }

    void onResponse(size_t n, Datagram& d)
    {
      Request& r = requests[n];
      c << "  request " << n << " is answered\n";
      r.calls.push_back(std::make_shared<Datagram>(d));
      c.checkf(r.calls.size() == 1, [&] { return "the callback of request " + std::to_string(n) + " is invoked " + std::to_string(r.calls.size()) + " times"; });
      d["spoiled"] = true;
      int again = r.again;
      if(again > 0 && requests.size() < 500)
      {
        size_t k = s.chance(3, 4) ? r.consumer : s.draw(consumers.size());
        for(int i = 0; i < again; ++i)
        {
          request(k);
        }
        c.label("request made by a callback");
      }
    }

    void onSentinel(Datagram& d)
    {
      if(d.Get<int>("id", -1) != sentinel)
      {
        return;
      }
      if(published == sentinel)
      {
        root.Stop();
      }
      else
      {
        publishSentinel();
      }
    }

    void publishSentinel()
    {
      Datagram d;
      sentinel = ++published;
      d["id"] = sentinel;
      sentinelPub->Publish(d);
    }

    void pump()
    {
      c << "run\n";
      publishSentinel();
      root.Start();
      c << "... returned\n";
      c.checkf(unseen.empty(), [&] { return "request " + std::to_string(unseen[0]) + " was not sent"; });
      for(size_t n = 0; n < requests.size(); ++n)
      {
        Request& r = requests[n];
        if(!r.checkedDue)
        {
          r.checkedDue = true;
          for(size_t i : r.due)
          {
            c.checkf(r.seenBy[i] == 1, [&] { return "provider " + std::to_string(i) + " did not see request " + std::to_string(n); });
          }
        }
        if(r.blocking)
        {
          continue;
        }
        if(r.answers.empty())
        {
          c.checkf(r.calls.empty() || r.loose, [&] { return "the callback of request " + std::to_string(n) + " is invoked although it was not answered"; });
        }
        else
        {
          c.checkf(r.calls.size() == 1, [&] { return "the callback of request " + std::to_string(n) + " is not invoked although it was answered"; });
          if(!r.loose)
          {
            std::string e = model::differsAt(*r.calls[0], *r.answers[0], "response", false);
            c.checkf(e.empty(), [&] { return "request " + std::to_string(n) + " gets something else than its first answer: " + e; });
          }
        }
      }
    }
  };

  void a01(Case& c) { World(c, false).run(); }
  void a03(Case& c) { World(c, true).run(); }

  PBT_PROP({"A01", "requests by several consumers to several providers over a tree of busses, answered at once, later, out of order, repeatedly, by others or "
                   "never, by callbacks that make requests themselves; oracle: the record of requests and answers given; non-trivial: at least two answered requests",
    a01, 12000, 500000, 30, 0, nullptr});
  PBT_PROP({"A03", "as A01, mixed with malformed requests and responses, near misses of invocation ids, providers without handler and reset ones; oracle: "
                   "as A01, and no handler sees what has no textual invocation id; non-trivial: something malformed was sent and a request was answered",
    a03, 13000, 600000, 30, 0, nullptr});
} // namespace
