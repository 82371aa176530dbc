// N01, N02: real links over loopback sockets.
#include <lpbt.h>

#include <gen.h>
#include <model.h>

#include <algorithm>
#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <set>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <zmq.h>

#include <lamppost/plugin/PluginTemplate.h>
#include <lamppost/plugin/PluginTemplateInfo.h>

extern "C"
{
  lp::PluginInstance* CreateInstance(lp::PluginConfiguration configuration);
  lp::PluginTemplateInfo* CreateInfo();
}

using lp::bus::Bus;
using lp::messages::Datagram;
using lp::messages::Message;
using model::Val;
using pbt::Case;
using pbt::Src;

namespace
{
  const char* cPing = "/lpbt-ping";
  const char* cEnd = "/lpbt-end";

  struct Quiet
  {
    struct Null : std::streambuf
    {
      int overflow(int c) override { return c == EOF ? 0 : c; }
      std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
    } null;
    std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(&null)) {}
    ~Quiet() { std::cout.rdbuf(old); }
  };

  double now() { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  void nap(double ms) { std::this_thread::sleep_for(std::chrono::duration<double, std::milli>(ms)); }

  int bound(int port, bool reuse)
  {
    int f = socket(AF_INET, SOCK_STREAM, 0);
    int on = 1;
    if(reuse)
    {
      setsockopt(f, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
    }
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_port = htons((uint16_t)port);
    a.sin_addr.s_addr = htonl(INADDR_ANY);
    if(bind(f, (sockaddr*)&a, sizeof(a)) == 0)
    {
      return f;
    }
    close(f);
    return -1;
  }

  // A port below the ephemeral ones.  Each process has a range of its own, whose first port it occupies.
  int port()
  {
    const int cRange = 250;
    static int base = 0, next = 0;
    static pid_t owner = 0;
    while(owner != getpid())
    {
      for(base = 10000; base < 32000; base += cRange)
      {
        int f = bound(base, false);
        if(f >= 0)
        {
          listen(f, 1);
          owner = getpid();
          break;
        }
      }
    }
    for(;;)
    {
      next = next % (cRange - 1) + 1;
      int f = bound(base + next, true);
      if(f >= 0)
      {
        close(f);
        return base + next;
      }
    }
  }

  struct Heard
  {
    std::string sender, topic;
    Datagram content;
  };

  // An instance of the application, less its main program.
  struct Node
  {
    std::string name;
    std::shared_ptr<Bus> bus;
    std::thread runner;
    std::unique_ptr<lp::PluginTemplate> plugin;
    std::vector<std::shared_ptr<lp::PluginInstance>> links;
    std::shared_ptr<lp::bus::Subscriber> listener;
    std::map<std::string, std::shared_ptr<Bus>> places;
    std::mutex mutex;
    std::vector<Heard> heard;
    std::set<std::string> pings;         // nodes heard of
    std::set<std::string> ends;
    std::atomic<bool> running{false};

    explicit Node(const std::string& name) : name(name)
    {
      bus = std::make_shared<Bus>("root");
      listener = bus->CreateSubscriber("/**/*");
      listener->SetMessageCallback([this](Message m) {
        std::lock_guard<std::mutex> l(mutex);
        if(m.GetTopic() == cPing)
        {
          running = true;
          Datagram d = m.GetDatagram();
          pings.insert(d.Get<std::string>("", ""));
        }
        else if(m.GetTopic() == cEnd)
        {
          Datagram d = m.GetDatagram();
          ends.insert(d.Get<std::string>("", ""));
        }
        else
        {
          heard.push_back({m.GetSender(), m.GetTopic(), m.GetDatagram()});
        }
      });
      lp::PluginTemplateConfiguration c("Link", lp::Version(0, 1, 0, 0), [](lp::PluginConfiguration p) { return std::shared_ptr<lp::PluginInstance>(CreateInstance(p)); });
      plugin.reset(new lp::PluginTemplate(c));
      std::shared_ptr<Bus> b = bus;
      runner = std::thread([b] { b->Start(); });
      while(!running)
      {
        say(cPing, name);
        nap(0.2);
      }
    }
    void say(const std::string& topic, const std::string& text) { bus->Publish(Message("", topic, Datagram(text))); }
    void link(const Datagram& configuration)
    {
      lp::PluginConfiguration p;
      p.mCustomConfiguration = configuration;
      links.push_back(plugin->Instantiate(p, bus));
      links.back()->Initialize();
      links.back()->Start();
    }
    void unlink()
    {
      links.clear();
      if(plugin != nullptr)
      {
        plugin->Unload();
      }
    }
    ~Node()
    {
      unlink();
      bus->Stop();
      runner.join();
    }
    bool knows(const std::string& n)
    {
      std::lock_guard<std::mutex> l(mutex);
      return pings.count(n) > 0;
    }
    bool ended(const std::string& n)
    {
      std::lock_guard<std::mutex> l(mutex);
      return ends.count(n) > 0;
    }
    std::vector<Heard> all()
    {
      std::lock_guard<std::mutex> l(mutex);
      return heard;
    }
  };

  Datagram server(Src& s, int pub, int sub)
  {
    Datagram d;
    d["server-role"]["enabled"] = true;
    d["server-role"]["port-pub"] = pub;
    d["server-role"]["port-sub"] = sub;
    if(s.flip())
    {
      d["server-role"]["interface"] = std::string(s.flip() ? "127.0.0.1" : "*");
    }
    return d;
  }
  void client(Src& s, Datagram& d, int pub, int sub)
  {
    d["client-role"]["enabled"] = true;
    d["client-role"]["port-pub"] = pub;
    d["client-role"]["port-sub"] = sub;
    if(s.flip())
    {
      d["client-role"]["server-host"] = std::string(s.flip() ? "127.0.0.1" : "localhost");
    }
  }

  struct Shot
  {
    std::string topic, sender;
    int way;
    Val v;
    Datagram d;
    double pause;
  };

  std::string topicFor(Src& s)
  {
    switch(s.weighted({5, 2, 1}))
    {
      case 0: return s.pick(std::vector<std::string>{"/a", "/a/b", "/sysinfo", "/a/request", "/x/y/z"});
      case 1: return s.pick(std::vector<std::string>{"", "/", "topic", "//", "A", "/**/*", "/a/", std::string("/n\0l", 4), "/\xc3\xa4", "Link0/", "/Link0"});
      default: return gen::bytes(s, gen::length(s, 2000));
    }
  }
  Val content(Src& s)
  {
    model::Options o;
    o.maxText = 3000;
    size_t budget = 15;
    if(s.chance(1, 12))
    {
      Val v = Val::D();
      v.dict["large"] = Val::T(std::string(s.pick(std::vector<size_t>{5000, 8192, 65535, 65536, 200000, 1000000}), (char)('a' + s.draw(26))));
      return v;
    }
    return model::tree(s, o, 4, budget);
  }

  // ---------------------------------------------------------------------------------------------
  // N01

  class Network
  {
  public:
    explicit Network(Case& c) : c(c), s(c.s) {}

    void run()
    {
      model::signedZeros() = false;
      Quiet quiet;
      // Who is linked to whom, and under which name each link is known on either side.
      static const char* shapes[] = {"a pair", "a star", "a chain", "a hub of both roles"};
      shape = s.weighted({4, 2, 2, 2});
      names = shape == 0 ? std::vector<std::string>{"A", "B"} : std::vector<std::string>{"A", "B", "C"};
      c << shapes[shape] << "\n";
      // The first one serves, unless the pair is the other way round.
      a = configurations();
      for(const std::string& n : names)
      {
        size_t threads = s.draw(3);
        for(size_t t = 0; t < threads; ++t)
        {
          std::string id = n + std::to_string(t) + "#";
          std::vector<Shot>& shots = plan[id];
          for(pbt::List l(s, 50, 1); l.more();)
          {
            Shot x;
            x.topic = topicFor(s);
            x.way = (int)s.draw(4);
            x.sender = id + (x.way == 3 ? s.pick(std::vector<std::string>{"", "/Link0", "/", "x", "\xff"}) : "");
            if(x.way == 3 && s.flip())
            {
              // Looks like a link's, but is not.
              x.sender = s.pick(std::vector<std::string>{"Link0", "Link", "Link01/", "xLink0/", "/"}) + x.sender;
            }
            x.v = content(s);
            x.d = model::build(s, x.v);
            x.pause = s.chance(1, 6) ? s.pick(std::vector<double>{1, 5, 20}) : 0;
            c << id << ": " << pbt::quote(x.topic, 60) << (x.way == 3 ? " from " + pbt::quote(x.sender, 60) : x.way == 2 ? " from a bus of its own" : "") << " " << pbt::quote(model::str(x.v), 100) << "\n";
            shots.push_back(std::move(x));
          }
          total += shots.size();
        }
      }
      asks = s.chance(1, 3) ? 1 + s.draw(3) : 0;
      asker = s.draw(names.size());
      // Only neighbours hear each other in a star.
      answerer = asker == 0 ? 1 + s.draw(names.size() - 1) : 0;
      bool restarts = s.chance(1, 8);
      size_t restarted = s.draw(names.size());
      for(const std::string& n : names)
      {
        nodes[n].reset(new Node(n));
        for(Datagram& d : a[n])
        {
          nodes[n]->link(d);
        }
      }
      connect();
      traffic(0);
      if(restarts)
      {
        c << names[restarted] << " restarts\n";
        nodes[names[restarted]].reset();
        // The others go on meanwhile.
        for(auto& n : nodes)
        {
          if(n.second != nullptr)
          {
            n.second->say("/meanwhile", "x");
            std::lock_guard<std::mutex> l(n.second->mutex);
            n.second->pings.clear();
            n.second->ends.clear();
          }
        }
        nap(s.draw(20));
        nodes[names[restarted]].reset(new Node(names[restarted]));
        for(Datagram& d : a[names[restarted]])
        {
          nodes[names[restarted]]->link(d);
        }
        connect();
        for(auto& n : nodes)
        {
          std::lock_guard<std::mutex> l(n.second->mutex);
          n.second->heard.clear();
        }
        traffic(1);
      }
      if(total > 0)
      {
        c.nontrivial();
      }
      c.label(shapes[shape]);
      nodes.clear();
    }

  private:
    Case& c;
    Src& s;
    size_t shape = 0, total = 0, asks = 0, asker = 0, answerer = 0;
    std::vector<std::string> names;
    std::map<std::string, std::vector<Datagram>> a;
    std::map<std::string, std::unique_ptr<Node>> nodes;
    std::map<std::string, std::vector<Shot>> plan;

    std::map<std::string, std::vector<Datagram>> configurations()
    {
      std::map<std::string, std::vector<Datagram>> r;
      int p = port(), q = port();
      switch(shape)
      {
        case 0:
        case 1:
        {
          r["A"].push_back(server(s, p, q));
          for(size_t i = 1; i < names.size(); ++i)
          {
            Datagram d;
            client(s, d, q, p);
            r[names[i]].push_back(d);
          }
          break;
        }
        case 2:
        {
          // B - A - C, with two links on A.
          int p2 = port(), q2 = port();
          Datagram d;
          client(s, d, q2, p2);
          r["A"].push_back(server(s, p, q));
          r["A"].push_back(d);
          Datagram e;
          client(s, e, q, p);
          r["B"].push_back(e);
          r["C"].push_back(server(s, p2, q2));
          break;
        }
        default:
        {
          int p2 = port(), q2 = port();
          Datagram d = server(s, p, q);
          client(s, d, q2, p2);
          r["A"].push_back(d);
          Datagram e;
          client(s, e, q, p);
          r["B"].push_back(e);
          r["C"].push_back(server(s, p2, q2));
          break;
        }
      }
      return r;
    }

    // What is prepended to the sender on the way; "-" if nothing goes this way.
    std::string route(const std::string& from, const std::string& to)
    {
      bool toA = to == "A";
      if(from == "A" || toA)
      {
        return shape == 2 && from == "C" ? "Link1/" : "Link0/";
      }
      return shape != 2 ? "-" : from == "B" ? "Link0/Link0/" : "Link0/Link1/";
    }

    void connect()
    {
      double t0 = now();
      for(;;)
      {
        bool all = true;
        for(auto& x : nodes)
        {
          for(auto& y : nodes)
          {
            if(x.first != y.first && route(x.first, y.first) != "-" && !y.second->knows(x.first))
            {
              all = false;
            }
          }
        }
        if(all)
        {
          break;
        }
        if(now() - t0 > 30000)
        {
          c.fail("no connection comes about");
        }
        for(auto& x : nodes)
        {
          x.second->say(cPing, x.first);
        }
        nap(5);
      }
    }

    void traffic(int round)
    {
      std::vector<std::thread> threads;
      std::vector<std::string> answers;
      std::atomic<int> asked{0}, callbacks{0};
      for(auto& p : plan)
      {
        std::string id = p.first;
        std::vector<Shot>* shots = &p.second;
        Node* n = nodes[id.substr(0, 1)].get();
        std::shared_ptr<Bus> own = n->bus->CreateChildBus(id + std::to_string(round));
        // The sender is told from the topic's bus; messages made on the root bus carry the thread's name.
        std::shared_ptr<lp::bus::Publisher> none;
        threads.emplace_back([this, id, shots, n, own] {
          for(Shot& x : *shots)
          {
            switch(x.way)
            {
              case 0:
              case 1:
              {
                auto p = own->CreatePublisher(x.topic);
                p->Publish(x.d);
                own->DeletePublisher(p);
                break;
              }
              case 2:
              {
                // One level deeper.
                std::shared_ptr<Bus> deep;
                try
                {
                  deep = own->CreateChildBus(id + "deep");
                }
                catch(const std::runtime_error&)
                {
                  deep = own->GetChildBus(id + "deep");
                }
                auto p = deep->CreatePublisher(x.topic);
                p->Publish(x.d);
                deep->DeletePublisher(p);
                break;
              }
              default: n->bus->Publish(Message(x.sender, x.topic, x.d)); break;
            }
            if(x.pause > 0)
            {
              nap(x.pause);
            }
          }
        });
      }
      std::shared_ptr<lp::bus::ActionProvider> provider;
      if(asks > 0)
      {
        Node& there = *nodes[names[answerer]];
        provider = there.bus->CreateActionProvider("/lpbt-act", [&](std::shared_ptr<lp::bus::ActionProvider> p, std::string id, Datagram request) {
          ++asked;
          Datagram d;
          d["you asked"] = request["request"];
          p->Respond(id, d);
        });
        threads.emplace_back([&] {
          auto consumer = nodes[names[asker]]->bus->CreateActionConsumer("/lpbt-act");
          for(size_t i = 0; i < asks; ++i)
          {
            Datagram d = consumer->Request(Datagram((int)i), 20000);
            answers.push_back(d.IsEmpty() ? "nothing" : "something");
          }
        });
      }
      for(std::thread& t : threads)
      {
        t.join();
      }
      // Wait until everything has arrived.
      for(auto& x : nodes)
      {
        x.second->say(cEnd, x.first);
      }
      double t0 = now();
      for(;;)
      {
        bool all = true;
        for(auto& x : nodes)
        {
          for(auto& y : nodes)
          {
            all &= route(x.first, y.first) == "-" || y.second->ended(x.first);
          }
        }
        if(all)
        {
          break;
        }
        if(now() - t0 > 40000)
        {
          c.fail("messages do not arrive");
        }
        nap(1);
      }
      // An echo would take a while.
      nap(s.chance(1, 4) ? 30 : 5);
      for(auto& x : nodes)
      {
        std::vector<Heard> local = x.second->all();
        std::vector<Heard> mine;
        std::map<std::string, size_t> next;
        for(Heard& h : local)
        {
          std::string id = origin(h, x.first);
          if(id.empty())
          {
            continue;
          }
          expect(x.first, h, id, next[id]++);
          mine.push_back(h);
        }
        for(auto& p : plan)
        {
          if(p.first.substr(0, 1) == x.first && next[p.first] != p.second.size())
          {
            c.fail("only " + std::to_string(next[p.first]) + " of " + std::to_string(p.second.size()) + " messages of " + p.first + " are seen where they were published");
          }
        }
        for(auto& y : nodes)
        {
          std::string prefix = y.first == x.first ? "" : route(x.first, y.first);
          if(prefix.empty() || prefix == "-")
          {
            continue;
          }
          std::vector<Heard> there = y.second->all();
          size_t k = 0;
          for(Heard& h : there)
          {
            std::string id = origin(h, x.first);
            if(id.empty())
            {
              continue;
            }
            if(k >= mine.size())
            {
              c.fail(y.first + " receives more messages from " + x.first + " than were published, last one by " + pbt::quote(h.sender));
            }
            Heard& m = mine[k++];
            if(h.sender != prefix + m.sender || h.topic != m.topic)
            {
              c.fail(y.first + " receives " + pbt::quote(h.topic) + " from " + pbt::quote(h.sender) + ", expecting " + pbt::quote(m.topic) + " from " + pbt::quote(prefix + m.sender));
            }
            if(!(h.content.GetType() == m.content.GetType()))
            {
              c.fail(y.first + " receives a message of another type from " + x.first);
            }
          }
          if(k != mine.size())
          {
            c.fail(y.first + " receives " + std::to_string(k) + " of " + std::to_string(mine.size()) + " messages from " + x.first);
          }
          // Contents, by thread.
          std::map<std::string, size_t> at;
          for(Heard& h : there)
          {
            std::string id = origin(h, x.first);
            if(!id.empty())
            {
              expect(y.first, h, id, at[id]++);
            }
          }
        }
      }
      if(asks > 0)
      {
        for(const std::string& r : answers)
        {
          if(r != "something")
          {
            c.fail("a request over the link is not answered");
          }
        }
        if((size_t)asked != asks || answers.size() != asks)
        {
          c.fail(std::to_string(asks) + " requests over the link arrive " + std::to_string(asked) + " times");
        }
        provider->Reset();
      }
    }

    // The thread of a node that sent a message, "" if it was none.
    std::string origin(const Heard& h, const std::string& node)
    {
      for(auto& p : plan)
      {
        if(p.first.substr(0, 1) == node && h.sender.find(p.first) != std::string::npos)
        {
          return p.first;
        }
      }
      return "";
    }

    void expect(const std::string& where, Heard& h, const std::string& id, size_t i)
    {
      std::vector<Shot>& shots = plan[id];
      if(i >= shots.size())
      {
        c.fail(where + " hears more messages of " + id + " than were published, the last one as from " + pbt::quote(h.sender));
      }
      Shot& x = shots[i];
      if(h.topic != x.topic)
      {
        c.fail(where + " hears message " + std::to_string(i) + " of " + id + " on " + pbt::quote(h.topic) + " instead of " + pbt::quote(x.topic) + ", from " + pbt::quote(h.sender));
      }
      std::string d = model::differsAt(h.content, x.v, "");
      if(!d.empty())
      {
        c.fail("message " + std::to_string(i) + " of " + id + " on " + pbt::quote(h.topic) + " changes on its way to " + where + ": " + d);
      }
    }
  };

  void n01(Case& c) { Network(c).run(); }

  void once()
  {
    std::unique_ptr<lp::PluginTemplateInfo> info(CreateInfo());
    if(info->mIdentifier != "Link")
    {
      pbt::failNow("the plugin is called " + info->mIdentifier);
    }
  }

  PBT_PROP({"N01",
            "two or three instances linked over loopback sockets as a pair, star, chain or by one link in both roles; up to two threads on each publish up to 50 messages of any topic, sender and content (to 1 MB), "
            "actions are requested over the link, instances restart; oracle: what local subscribers see on each side, end markers instead of time limits; non-trivial: some message was published",
            n01, 650, 40000, 120, pbt::RealThreads, once});

  // ---------------------------------------------------------------------------------------------
  // N02

  class Peers
  {
  public:
    explicit Peers(Case& c) : c(c), s(c.s) {}

    void run()
    {
      model::signedZeros() = false;
      Quiet quiet;
      // The link under test serves, is a client, or both.
      role = (int)s.draw(3);
      int ports[4] = {port(), port(), port(), port()};
      Datagram d;
      if(role != 1)
      {
        d = server(s, ports[0], ports[1]);
      }
      if(role != 0)
      {
        client(s, d, ports[2], ports[3]);
      }
      c << (role == 0 ? "server" : role == 1 ? "client" : "both roles") << "\n";
      draw();
      context = zmq_ctx_new();
      node.reset(new Node("N"));
      int linger = 0;
      if(role != 1)
      {
        open("tcp://127.0.0.1:" + std::to_string(ports[1]), false);
        serverPorts = {ports[0], ports[1]};
      }
      if(role != 0)
      {
        // Publishes to the link's client role.
        open("tcp://127.0.0.1:" + std::to_string(ports[3]), true);
      }
      if(role != 1 && s.chance(1, 3))
      {
        // A second client.
        open("tcp://127.0.0.1:" + std::to_string(ports[1]), false);
      }
      if(stalls)
      {
        // A subscriber that never takes anything.
        stalled = zmq_socket(context, ZMQ_SUB);
        int one = 1, small = 2000;
        zmq_setsockopt(stalled, ZMQ_RCVHWM, &one, sizeof(one));
        zmq_setsockopt(stalled, ZMQ_RCVBUF, &small, sizeof(small));
        zmq_setsockopt(stalled, ZMQ_LINGER, &linger, sizeof(linger));
        zmq_setsockopt(stalled, ZMQ_SUBSCRIBE, "", 0);
        if(role != 1)
        {
          zmq_connect(stalled, ("tcp://127.0.0.1:" + std::to_string(ports[0])).c_str());
        }
        else
        {
          zmq_bind(stalled, ("tcp://127.0.0.1:" + std::to_string(ports[2])).c_str());
        }
      }
      node->link(d);
      // Connected when a ping arrives.
      double t0 = now();
      for(size_t p = 0; p < peers.size(); ++p)
      {
        while(!node->knows("peer" + std::to_string(p)))
        {
          well(p, cPing, Datagram("peer" + std::to_string(p)));
          nap(3);
          if(now() - t0 > 30000)
          {
            c.fail("no connection comes about");
          }
        }
      }
      std::map<size_t, std::vector<Heard>> expected;
      for(Item& x : items)
      {
        perform(x, expected);
      }
      for(size_t p = 0; p < peers.size(); ++p)
      {
        well(p, cEnd, Datagram("peer" + std::to_string(p)));
      }
      t0 = now();
      for(size_t p = 0; p < peers.size(); ++p)
      {
        while(!node->ended("peer" + std::to_string(p)))
        {
          nap(1);
          if(now() - t0 > 40000)
          {
            c.fail("well-formed messages do not arrive any more");
          }
        }
      }
      nap(3);
      std::vector<Heard> heard = node->all();
      // By peer, in order; those of different peers may be in any order.
      std::vector<size_t> at(peers.size());
      for(Heard& h : heard)
      {
        if(h.sender.compare(0, 6, "Link0/") != 0)
        {
          continue;
        }
        bool found = false;
        std::string why;
        for(size_t p = 0; p < peers.size() && !found; ++p)
        {
          if(at[p] < expected[p].size())
          {
            Heard& e = expected[p][at[p]];
            if(h.sender == "Link0/" + e.sender && h.topic == e.topic && same(h.content, e.content))
            {
              found = true;
              ++at[p];
            }
            else
            {
              why += ", expecting " + pbt::quote(e.topic) + " from " + pbt::quote(e.sender) + " of peer " + std::to_string(p);
            }
          }
        }
        if(!found)
        {
          c.fail("a message to " + pbt::quote(h.topic) + " from " + pbt::quote(h.sender) + " is published that nobody sent, or not then, or with another content" + why);
        }
      }
      for(size_t p = 0; p < peers.size(); ++p)
      {
        if(at[p] != expected[p].size())
        {
          c.fail("peer " + std::to_string(p) + " sent " + std::to_string(expected[p].size()) + " well-formed messages, of which " + std::to_string(at[p]) + " arrived");
        }
      }
      if(stalls)
      {
        // More than fits anywhere.
        std::string large(300000, 'x');
        for(int i = 0; i < 60; ++i)
        {
          node->say("/large", large);
        }
        node->say(cEnd, "itself");
        t0 = now();
        while(!node->ended("itself"))
        {
          nap(1);
          if(now() - t0 > 30000)
          {
            c.fail("the bus stands still while a peer does not take its messages");
          }
        }
        c.label("stalled peer");
      }
      t0 = now();
      node->unlink();
      if(now() - t0 > 20000)
      {
        c.fail("it takes " + std::to_string(now() - t0) + " ms to end the link");
      }
      node.reset();
      for(void* p : peers)
      {
        zmq_close(p);
      }
      if(stalled != nullptr)
      {
        zmq_close(stalled);
      }
      zmq_ctx_term(context);
      if(frames > 0)
      {
        c.nontrivial();
      }
    }

  private:
    struct Item
    {
      enum Kind { Frames, Raw, Own } kind = Frames;
      size_t peer = 0;
      std::vector<std::string> parts;
      double pause = 0;
      bool abrupt = false;
    };

    Case& c;
    Src& s;
    int role = 0;
    bool stalls = false;
    size_t frames = 0;
    void* context = nullptr;
    void* stalled = nullptr;
    std::vector<void*> peers;
    std::vector<int> serverPorts;
    std::unique_ptr<Node> node;
    std::vector<Item> items;

    void open(const std::string& endpoint, bool serve)
    {
      void* p = zmq_socket(context, ZMQ_PUB);
      int linger = 0;
      zmq_setsockopt(p, ZMQ_LINGER, &linger, sizeof(linger));
      if((serve ? zmq_bind(p, endpoint.c_str()) : zmq_connect(p, endpoint.c_str())) != 0)
      {
        c.fail("cannot open a socket for the check");
      }
      peers.push_back(p);
    }

    static std::string bytes(Message m)
    {
      std::shared_ptr<lp::data::RawBytes> b = m.SerializeToBytes();
      return std::string((const char*)b->GetContent(), (size_t)b->GetSize());
    }

    void send(size_t p, const std::vector<std::string>& parts)
    {
      for(size_t i = 0; i < parts.size(); ++i)
      {
        zmq_send(peers[p], parts[i].data(), parts[i].size(), i + 1 < parts.size() ? ZMQ_SNDMORE : 0);
      }
    }

    void well(size_t p, const std::string& topic, Datagram d) { send(p, {"A", bytes(Message("", topic, d))}); }

    static bool same(Datagram& a, Datagram& b)
    {
      // By their encoding: what was received was decoded from it.
      return bytes(Message("", "", a)) == bytes(Message("", "", b));
    }

    std::string wellFormed()
    {
      Val v = content(s);
      return bytes(Message(s.pick(std::vector<std::string>{"x", "", "Link0", "a/b", "\xff"}), topicFor(s), model::build(s, v)));
    }

    void draw()
    {
      stalls = s.chance(1, 10);
      for(pbt::List l(s, 40, 1); l.more();)
      {
        Item x;
        x.peer = s.draw(2);
        x.pause = s.chance(1, 10) ? s.pick(std::vector<double>{1, 5, 20}) : 0;
        switch(s.weighted({8, 3, 3, 3, 2, 2, 1, 2, 1, 2}))
        {
          case 0: x.parts = {"A", wellFormed()}; break;
          case 1:
          {
            // Damaged.
            std::string b = wellFormed();
            for(size_t n = 1 + s.draw(4), i = 0; i < n && !b.empty(); ++i)
            {
              size_t at = s.draw(std::min<size_t>(b.size(), 400));
              b[at] = (char)(s.flip() ? b[at] ^ (1 << s.draw(8)) : (int)s.draw(256));
            }
            x.parts = {"A", b};
            break;
          }
          case 2:
          {
            std::string b = wellFormed();
            x.parts = {"A", b.substr(0, s.draw(b.size() + 1))};
            break;
          }
          case 3: x.parts = {"A", gen::bytes(s, gen::length(s, 5000))}; break;
          case 4:
          {
            // In several parts.
            std::string b = wellFormed();
            x.parts = {"A"};
            size_t from = 0;
            for(size_t n = 1 + s.draw(4), i = 0; i < n; ++i)
            {
              size_t to = i + 1 == n ? b.size() : from + s.draw(b.size() - from + 1);
              x.parts.push_back(b.substr(from, to - from));
              from = to;
            }
            if(s.chance(1, 4))
            {
              x.parts.push_back(gen::bytes(s, 1 + s.draw(10)));
            }
            break;
          }
          case 5:
          {
            size_t n = s.draw(8);
            x.parts = {"A"};
            for(size_t i = 0; i < n; ++i)
            {
              x.parts.push_back(gen::bytes(s, gen::length(s, 300)));
            }
            break;
          }
          case 6: x.parts = {"A" + gen::bytes(s, 1 + gen::length(s, 300)), wellFormed()}; break;
          case 7: x.parts = {s.pick(std::vector<std::string>{"B", "", "a", "topic"}), wellFormed()}; break;
          case 8:
            // Not even the protocol.
            x.kind = Item::Raw;
            x.peer = s.draw(2);
            x.parts = {s.flip() ? gen::bytes(s, gen::length(s, 500)) : std::string("\xff\0\0\0\0\0\0\0\1\x7f\3\0NULL", 16).substr(0, s.draw(17)) + gen::bytes(s, s.draw(100))};
            x.abrupt = s.flip();
            break;
          default:
            // Something is published here.
            x.kind = Item::Own;
            x.parts = {topicFor(s)};
            break;
        }
        c << (x.kind == Item::Raw ? "raw" : x.kind == Item::Own ? "own" : "peer " + std::to_string(x.peer)) << ":";
        for(const std::string& p : x.parts)
        {
          c << " " << pbt::quote(p, 60);
        }
        c << "\n";
        items.push_back(x);
      }
    }

    void perform(Item& x, std::map<size_t, std::vector<Heard>>& expected)
    {
      switch(x.kind)
      {
        case Item::Frames:
        {
          size_t p = x.peer % peers.size();
          send(p, x.parts);
          ++frames;
          if(x.parts[0].compare(0, 1, "A") != 0)
          {
            break;
          }
          std::string all;
          for(size_t i = 1; i < x.parts.size(); ++i)
          {
            all += x.parts[i];
          }
          if(all.empty())
          {
            break;
          }
          auto raw = std::make_shared<lp::data::RawBytes>();
          raw->Append((void*)all.data(), all.size());
          try
          {
            Message m = Message::Deserialize(raw);
            expected[p].push_back({m.GetSender(), m.GetTopic(), m.GetDatagram()});
          }
          catch(const std::exception&)
          {
            // Not well-formed.
          }
          break;
        }
        case Item::Raw:
          if(!serverPorts.empty())
          {
            int f = socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in a = {};
            a.sin_family = AF_INET;
            a.sin_port = htons((uint16_t)serverPorts[x.peer]);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if(connect(f, (sockaddr*)&a, sizeof(a)) == 0)
            {
              ::send(f, x.parts[0].data(), x.parts[0].size(), MSG_NOSIGNAL);
              if(x.abrupt)
              {
                linger l = {1, 0};
                setsockopt(f, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
              }
            }
            close(f);
          }
          break;
        case Item::Own: node->say(x.parts[0], "local"); break;
      }
      if(x.pause > 0)
      {
        nap(x.pause);
      }
    }
  };

  void n02(Case& c) { Peers(c).run(); }

  PBT_PROP({"N02",
            "up to three raw ZeroMQ peers of a link in either or both roles send up to 40 frame sequences: well-formed, damaged, truncated, arbitrary, in any number of parts, with other topics, and raw bytes on "
            "its ports; in some cases a subscribed peer takes nothing; oracle: exactly the well-formed messages are published, in order, by end markers; the link ends; non-trivial: some frames were sent",
            n02, 1300, 60000, 120, pbt::RealThreads, once});
} // namespace
