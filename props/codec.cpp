// D04, D05, D06: the wire format and JSON.
#include <model.h>

#include <atomic>
#include <thread>
#include <time.h>

#include <sanitizer/allocator_interface.h>

#include <lamppost/exceptions/Exception.h>
#include <lamppost/messages/Message.h>

using namespace model;
using lp::data::RawBytes;
using lp::messages::Message;
using pbt::Case;
using pbt::quote;
namespace fb = flatbuffers;
namespace sch = lp::schemas;

namespace
{
  // ------------------------------------------------------------------------------ memory accounting

  volatile bool sCount = false;
  long long sLive = 0, sPeak = 0;
  bool sHooked = false;

  void onMalloc(const volatile void*, size_t n)
  {
    if(sCount)
    {
      sLive += (long long)n;
      if(sLive > sPeak)
      {
        sPeak = sLive;
      }
    }
  }

  void onFree(const volatile void* p)
  {
    if(sCount && p)
    {
      sLive -= (long long)__sanitizer_get_allocated_size(const_cast<void*>((const void*)p));
    }
  }

  struct Counting
  {
    Counting()
    {
      if(!sHooked)
      {
        sHooked = true;
        __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
      }
      sLive = sPeak = 0;
      sCount = true;
    }
    ~Counting() { sCount = false; }
    long long peak() const { return sPeak; }
  };

  double cpu()
  {
    timespec t;
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
  }

  // ---------------------------------------------------------------------------------------- D04

  Val wire(const Val& v)
  {
    if(v.kind == Val::Float || v.kind == Val::Opaq)
    {
      return Val();
    }
    Val r = v;
    for(Val& e : r.list)
    {
      e = wire(e);
    }
    for(auto& e : r.dict)
    {
      e.second = wire(e.second);
    }
    return r;
  }

  std::string name(pbt::Src& s)
  {
    static const std::vector<std::string> pool = {"", "a", "/", "/**/*", "sender", "/topic/sub", std::string("\0", 1), std::string("a\0b", 3), "\xff\xfe", "Link#0/bus", "\xc3\xa4\xc3\xb6"};
    return s.weighted({3, 1}) == 0 ? s.pick(pool) : gen::bytes(s, gen::length(s, 70000));
  }

  std::string hasContent(Message& m, const std::string& sender, const std::string& topic, const Val& v, bool thorough = true)
  {
    if(m.GetSender() != sender)
    {
      return "the sender is " + quote(m.GetSender()) + " instead of " + quote(sender);
    }
    if(m.GetTopic() != topic)
    {
      return "the topic is " + quote(m.GetTopic()) + " instead of " + quote(topic);
    }
    Datagram d(m.GetDatagram());
    return differsAt(d, v, "the datagram", thorough);
  }

  bool plain(const Val& v)
  {
    if(v.kind == Val::Float || v.kind == Val::Opaq || (v.kind == Val::Real && std::isnan(v.real)))
    {
      return false;
    }
    for(const Val& e : v.list)
    {
      if(!plain(e))
      {
        return false;
      }
    }
    for(auto& e : v.dict)
    {
      if(!plain(e.second))
      {
        return false;
      }
    }
    return true;
  }

  struct Item
  {
    std::string sender, topic;
    Val v;
    std::shared_ptr<Message> message;
    std::shared_ptr<RawBytes> bytes;
  };

  std::shared_ptr<RawBytes> received(pbt::Src& s, RawBytes& b)
  {
    const char* p = static_cast<const char*>(b.GetContent());
    if(s.chance(1, 3))
    {
      // Put together from chunks.
      std::shared_ptr<RawBytes> r = std::make_shared<RawBytes>();
      size_t cut = b.GetSize() ? s.draw(b.GetSize()) : 0;
      std::vector<char> first(p, p + cut), second(p + cut, p + b.GetSize());
      if(cut)
      {
        r->Append(first.data(), first.size());
      }
      r->Append(second.data(), second.size());
      return r;
    }
    std::vector<char> all(p, p + b.GetSize());
    return std::make_shared<RawBytes>(all.data(), all.size());
  }
} // namespace

static void d04(Case& c)
{
  // The wire format leaves out zeros; they come back equal, but without their sign.
  signedZeros() = false;
  Options o;
  o.opaque = true;
  o.maxText = 1048576;
  size_t count = 1 + c.s.weighted({6, 2, 1});
  std::vector<Item> items;
  for(size_t i = 0; i < count; ++i)
  {
    Item it;
    it.sender = name(c.s);
    it.topic = name(c.s);
    it.v = any(c.s, o, 70000, 1000);
    c << "message " << i << " from " << quote(it.sender, 30) << " on " << quote(it.topic, 30) << ": ";
    if(c.verbose())
    {
      c << str(it.v) << " (" << it.v.nodes() << " nodes, " << it.v.depth() << " levels)";
    }
    if(it.v.nodes() > 1 || !it.sender.empty())
    {
      c.nontrivial();
    }
    size_t depth = it.v.depth();
    c.label(depth > 500 ? "depth > 500" : depth > 64 ? "depth > 64" : depth > 10 ? "depth > 10" : "shallow");
    size_t nodes = it.v.nodes();
    c.label(nodes > 10000 ? "nodes > 10000" : nodes > 255 ? "nodes > 255" : "small");
    it.message = std::make_shared<Message>(it.sender, it.topic, build(c.s, it.v));
    if(c.s.chance(1, 6))
    {
      it.message->PrependSender("relay");
      it.sender = "relay/" + it.sender;
    }
    if(c.s.chance(1, 6))
    {
      it.message = std::make_shared<Message>(*it.message);
    }
    items.push_back(it);
    if(c.s.flip())
    {
      items.back().bytes = items.back().message->SerializeToBytes();
    }
    c << "; ";
  }
  for(Item& it : items)
  {
    if(!it.bytes)
    {
      it.bytes = it.message->SerializeToBytes();
    }
    std::string r = hasContent(*it.message, it.sender, it.topic, it.v, it.v.nodes() < 200);
    c.checkf(r.empty(), [&] { return "serialising changed the message: " + r; });
  }
  for(Item& it : items)
  {
    Val expected = wire(it.v);
    std::shared_ptr<RawBytes> in = received(c.s, *it.bytes);
    Message m;
    try
    {
      m = Message::Deserialize(in);
    }
    catch(const std::exception& e)
    {
      c.fail(std::string("a serialised message is refused: ") + e.what());
    }
    in = nullptr;
    std::string r = hasContent(m, it.sender, it.topic, expected, it.v.nodes() < 200);
    c.checkf(r.empty(), [&] { return "after serialisation, " + r; });
    if(plain(it.v))
    {
      c.check(m == *it.message && *it.message == m, "the deserialised message does not equal the original");
    }
    // Again, from what was decoded.
    Message again = Message::Deserialize(m.SerializeToBytes());
    r = hasContent(again, it.sender, it.topic, expected, false);
    c.checkf(r.empty(), [&] { return "after the second serialisation, " + r; });

    // The datagram alone, in a buffer of its own.
    if(c.s.chance(1, 4))
    {
      Datagram d(it.message->GetDatagram());
      fb::FlatBufferBuilder builder(c.s.flip() ? 1024 : 1);
      fb::Offset<sch::FBDatagram> other;
      if(c.s.flip())
      {
        other = Datagram(std::string("unrelated")).SerializeToStructure(builder);
      }
      builder.Finish(d.SerializeToStructure(builder));
      Datagram e = Datagram::DeserializeFromStructure(sch::GetFBDatagram(builder.GetBufferPointer()));
      r = differsAt(e, expected, "the datagram", it.v.nodes() < 200);
      c.checkf(r.empty(), [&] { return "after serialisation to a structure, " + r; });
      r = differsAt(d, it.v, "the datagram", false);
      c.checkf(r.empty(), [&] { return "serialising to a structure changed it: " + r; });
    }
  }
}

PBT_PROP({"D04", "1-3 messages with any senders and topics and trees of any shape (up to 70000 items, 1000 levels, 1 MiB texts, extreme numbers, unknown types), serialised in any order, decoded from exact or chunked buffers; "
                 "oracle: the model tree with unknown types as null, equality, original unchanged, second round trip; non-trivial: more than one node or a sender", d04, 6000, 800000, 60, 0, nullptr});

// Serialisation in several threads at once.
static void d04threads(Case& c)
{
  signedZeros() = false;
  Options o;
  o.maxText = 200;
  o.nan = false;
  std::vector<Item> items;
  for(int i = 0; i < 4; ++i)
  {
    Item it;
    it.sender = name(c.s);
    it.topic = name(c.s);
    it.v = any(c.s, o, 300, 50);
    it.message = std::make_shared<Message>(it.sender, it.topic, Datagram(raw(it.v)));
    c << quote(it.sender, 20) << " " << quote(it.topic, 20) << " ";
    if(c.verbose())
    {
      c << str(it.v) << "; ";
    }
    items.push_back(it);
  }
  c.nontrivial();
  std::vector<std::thread> threads;
  std::vector<std::string> results(items.size());
  for(size_t i = 0; i < items.size(); ++i)
  {
    threads.emplace_back([&, i] {
      for(int n = 0; n < 8 && results[i].empty(); ++n)
      {
        try
        {
          Message m = Message::Deserialize(items[i].message->SerializeToBytes());
          results[i] = hasContent(m, items[i].sender, items[i].topic, items[i].v, false);
        }
        catch(const std::exception& e)
        {
          results[i] = std::string("refused: ") + e.what();
        }
      }
    });
  }
  for(std::thread& t : threads)
  {
    t.join();
  }
  for(const std::string& r : results)
  {
    c.checkf(r.empty(), [&] { return "with several threads serialising: " + r; });
  }
}

PBT_PROP({"D04.threads", "4 threads round-tripping a message of their own 8 times each; non-trivial: all", d04threads, 3000, 40000, 60, pbt::RealThreads, nullptr});

// ------------------------------------------------------------------------------------------------ D05

namespace
{
  // Deserialises what the bytes are; checks every promise.
  void decodeArbitrary(Case& c, const std::string& in)
  {
    std::shared_ptr<RawBytes> bytes = std::make_shared<RawBytes>(const_cast<char*>(in.data()), in.size());
    std::shared_ptr<Message> m;
    double before = cpu();
    long long peak;
    {
      Counting counting;
      try
      {
        m = std::make_shared<Message>(Message::Deserialize(bytes));
      }
      catch(const lp::exceptions::Exception&)
      {
      }
      catch(const std::exception& e)
      {
        sCount = false;
        c.fail(std::string("decoding fails with something else than one of the library's errors: ") + e.what());
      }
      peak = counting.peak();
    }
    double spent = cpu() - before;
    c.checkf(peak <= 300 * (long long)in.size() + 200000, [&] { return "decoding " + std::to_string(in.size()) + " bytes takes " + std::to_string(peak) + " bytes of memory"; });
    c.checkf(spent <= 10 + 40e-6 * (double)in.size(), [&] { return "decoding " + std::to_string(in.size()) + " bytes takes " + std::to_string(spent) + " seconds"; });
    c.check(memcmp(bytes->GetContent() ? bytes->GetContent() : "", in.data(), in.size()) == 0, "decoding changed the bytes");
    bytes = nullptr;

    if(!m)
    {
      c.label("refused");
      return;
    }
    c.label("accepted");
    c.nontrivial();
    std::ostringstream text;
    text << *m;
    Message copy(*m);
    bool self = *m == *m;      // false if there are values that differ from themselves
    c.check((copy == *m) == self, "the copy of a decoded message does not equal it");
    std::shared_ptr<RawBytes> out = m->SerializeToBytes();
    Message again;
    try
    {
      again = Message::Deserialize(out);
    }
    catch(const std::exception& e)
    {
      c.fail(std::string("the serialised form of a decoded message is refused: ") + e.what());
    }
    std::ostringstream textAgain, textCopy;
    textCopy << copy;
    c.check(text.str() == textCopy.str(), "the copy of a decoded message prints another text");
    if(self)
    {
      c.check(again == *m && *m == again, "the serialised form of a decoded message decodes to another message");
    }
    else
    {
      // Compared as texts, after zeros have lost their sign.
      Message third = Message::Deserialize(again.SerializeToBytes());
      std::ostringstream textThird;
      textAgain << again;
      textThird << third;
      c.check(textThird.str() == textAgain.str() && std::llabs((long long)text.str().size() - (long long)textAgain.str().size()) <= (long long)in.size(), "the serialised form of a decoded message prints another text");
    }
  }

  typedef fb::Offset<sch::FBDatagram> Node;
  typedef fb::Offset<fb::String> Str;

  struct Forge
  {
    pbt::Src& s;
    fb::FlatBufferBuilder b;
    std::vector<Node> nodes;
    std::vector<Str> strings;
    size_t budget;

    explicit Forge(pbt::Src& s_) : s(s_), budget(60) {}

    Str string()
    {
      if(!strings.empty() && s.chance(1, 4))
      {
        return s.pick(strings);
      }
      std::string t = gen::bytes(s, gen::length(s, 5000));
      strings.push_back(b.CreateString(t));
      return strings.back();
    }

    Node node(size_t depth)
    {
      if(!nodes.empty() && s.chance(1, 6))
      {
        return s.pick(nodes);
      }
      if(budget > 0)
      {
        --budget;
      }
      int type = s.chance(1, 16) ? (int)s.range(-128, 127) : (int)s.draw(4);
      int value = s.chance(1, 16) ? (int)s.range(-128, 127) : (int)s.draw(4);
      Str text;
      std::vector<Node> list, contents;
      std::vector<Str> keys;
      bool hasText = s.chance(type == 1 ? 7 : 1, 8), hasList = s.chance(type == 2 ? 7 : 1, 8), hasKeys = s.chance(type == 3 ? 7 : 1, 8), hasContents = s.chance(type == 3 ? 7 : 1, 8);
      if(hasText)
      {
        text = string();
      }
      if(depth > 0 && budget > 0)
      {
        for(pbt::List l(s, hasList ? 12 : 0); l.more();)
        {
          list.push_back(node(depth - 1));
        }
        for(pbt::List l(s, hasContents ? 12 : 0); l.more();)
        {
          contents.push_back(node(depth - 1));
        }
        for(size_t k = hasKeys ? (s.chance(3, 4) ? contents.size() : s.draw(14)) : 0; k > 0; --k)
        {
          keys.push_back(string());
        }
      }
      fb::Offset<fb::Vector<Node>> listOffset, contentsOffset;
      fb::Offset<fb::Vector<Str>> keysOffset;
      if(hasList)
      {
        listOffset = b.CreateVector(list);
      }
      if(hasKeys)
      {
        keysOffset = b.CreateVector(keys);
      }
      if(hasContents)
      {
        contentsOffset = b.CreateVector(contents);
      }
      uint8_t boolean = (uint8_t)(s.chance(1, 4) ? s.draw(256) : s.draw(2));
      double real = model::real(s);
      int32_t integer = model::integer(s);
      uint32_t start = b.StartTable();
      // Fields in a random order, some of them absent.
      unsigned mask = s.chance(3, 4) ? 0xff : (unsigned)s.draw(256), first = (unsigned)s.draw(9);
      for(unsigned k = 0; k < 9; ++k)
      {
        switch((k + first) % 9)
        {
          case 0: if(mask & 1) b.AddElement<int8_t>(sch::FBDatagram::VT_DATAGRAM_TYPE, (int8_t)type, 0); break;
          case 1: if(mask & 2) b.AddElement<int8_t>(sch::FBDatagram::VT_VALUE_TYPE, (int8_t)value, 0); break;
          case 2: if(hasText) b.AddOffset(sch::FBDatagram::VT_STRING_CONTENT, text); break;
          case 3: if(mask & 4) b.AddElement<int32_t>(sch::FBDatagram::VT_INTEGER_CONTENT, integer, 0); break;
          case 4: if(mask & 8) b.AddElement<double>(sch::FBDatagram::VT_DOUBLE_CONTENT, real, 0.0); break;
          case 5: if(mask & 16) b.AddElement<uint8_t>(sch::FBDatagram::VT_BOOLEAN_CONTENT, boolean, 0); break;
          case 6: if(hasList) b.AddOffset(sch::FBDatagram::VT_LIST_CONTENT, listOffset); break;
          case 7: if(hasKeys) b.AddOffset(sch::FBDatagram::VT_DICTIONARY_KEYS, keysOffset); break;
          case 8: if(hasContents) b.AddOffset(sch::FBDatagram::VT_DICTIONARY_CONTENTS, contentsOffset); break;
        }
      }
      Node n(b.EndTable(start));
      nodes.push_back(n);
      return n;
    }

    std::string finish(Node n)
    {
      Str sender, topic;
      bool hasSender = !s.chance(1, 12), hasTopic = !s.chance(1, 12), hasDatagram = !s.chance(1, 12);
      if(hasSender)
      {
        sender = string();
      }
      if(hasTopic)
      {
        topic = string();
      }
      uint32_t start = b.StartTable();
      if(hasSender)
      {
        b.AddOffset(sch::FBMessage::VT_SENDER, sender);
      }
      if(hasTopic)
      {
        b.AddOffset(sch::FBMessage::VT_TOPIC, topic);
      }
      if(hasDatagram)
      {
        b.AddOffset(sch::FBMessage::VT_DATAGRAM, n);
      }
      b.Finish(fb::Offset<sch::FBMessage>(b.EndTable(start)));
      return std::string((const char*)b.GetBufferPointer(), b.GetSize());
    }
  };

  // Small buffers that claim to be much.
  std::string amplified(pbt::Src& s)
  {
    Forge f(s);
    size_t scale = s.pick(std::vector<size_t>{4, 20, 100, 1000, 4000, 20000});
    Node n;
    switch(s.draw(5))
    {
      case 0:
      {
        // A diamond of shared tables: 2^scale paths.
        n = sch::CreateFBDatagram(f.b, sch::DatagramType_Value, sch::ValueType_Integer);
        size_t levels = std::min<size_t>(scale, 900);
        unsigned fan = 2 + (unsigned)s.draw(3);
        for(size_t i = 0; i < levels; ++i)
        {
          auto v = f.b.CreateVector(std::vector<Node>(fan, n));
          n = sch::CreateFBDatagram(f.b, sch::DatagramType_List, sch::ValueType_String, 0, 0, 0, false, v);
        }
        break;
      }
      case 1:
      {
        // One long text, many times.
        Str t = f.b.CreateString(std::string(scale * 4, 'x'));
        std::vector<Node> v;
        for(size_t i = 0; i < scale; ++i)
        {
          v.push_back(sch::CreateFBDatagram(f.b, sch::DatagramType_Value, sch::ValueType_String, t));
        }
        n = sch::CreateFBDatagram(f.b, sch::DatagramType_List, sch::ValueType_String, 0, 0, 0, false, f.b.CreateVector(v));
        break;
      }
      case 2:
      {
        // One vector of keys, many times.
        Str t = f.b.CreateString("k");
        auto keys = f.b.CreateVector(std::vector<Str>(scale * 4, t));
        std::vector<Node> v;
        for(size_t i = 0; i < scale; ++i)
        {
          v.push_back(sch::CreateFBDatagram(f.b, sch::DatagramType_Dictionary, sch::ValueType_String, 0, 0, 0, false, 0, keys));
        }
        n = sch::CreateFBDatagram(f.b, sch::DatagramType_List, sch::ValueType_String, 0, 0, 0, false, f.b.CreateVector(v));
        break;
      }
      case 3:
      {
        // One item, many times.
        n = sch::CreateFBDatagram(f.b, sch::DatagramType_Value, sch::ValueType_String, f.b.CreateString(std::string(s.draw(200), 'y')));
        auto v = f.b.CreateVector(std::vector<Node>(scale * 8, n));
        if(s.flip())
        {
          n = sch::CreateFBDatagram(f.b, sch::DatagramType_List, sch::ValueType_String, 0, 0, 0, false, v);
        }
        else
        {
          std::vector<Str> keys;
          for(size_t i = 0; i < scale * 8; ++i)
          {
            keys.push_back(f.b.CreateString(std::to_string(i)));
          }
          n = sch::CreateFBDatagram(f.b, sch::DatagramType_Dictionary, sch::ValueType_String, 0, 0, 0, false, 0, f.b.CreateVector(keys), v);
        }
        break;
      }
      default:
      {
        // A deep chain.
        n = sch::CreateFBDatagram(f.b, sch::DatagramType_Value, sch::ValueType_Boolean);
        bool dictionary = s.flip();
        Str k = f.b.CreateString("k");
        for(size_t i = 0; i < scale * 8; ++i)
        {
          auto v = f.b.CreateVector(std::vector<Node>(1, n));
          if(dictionary)
          {
            if(s.flip())
            {
              k = f.b.CreateString("k");
            }
            auto keys = f.b.CreateVector(std::vector<Str>(1, k));
            n = sch::CreateFBDatagram(f.b, sch::DatagramType_Dictionary, sch::ValueType_String, 0, 0, 0, false, 0, keys, v);
            if(i > 2000)
            {
              dictionary = false;
            }
          }
          else
          {
            n = sch::CreateFBDatagram(f.b, sch::DatagramType_List, sch::ValueType_String, 0, 0, 0, false, v);
          }
        }
        break;
      }
    }
    auto sender = f.b.CreateString("s"), topic = f.b.CreateString("t");
    f.b.Finish(sch::CreateFBMessage(f.b, sender, topic, n));
    return std::string((const char*)f.b.GetBufferPointer(), f.b.GetSize());
  }

  void mutate(pbt::Src& s, std::string& in)
  {
    for(pbt::List l(s, 12, 1); l.more() && !in.empty();)
    {
      size_t at = s.draw(in.size());
      switch(s.weighted({4, 4, 6, 2, 2, 1, 1, 2, 2}))
      {
        case 0: in[at] = (char)s.draw(256); break;
        case 1: in[at] = (char)(in[at] ^ (1 << s.draw(8))); break;
        case 2:
        {
          // An offset or a length.
          at &= ~(size_t)3;
          if(at + 4 <= in.size())
          {
            uint32_t old;
            memcpy(&old, &in[at], 4);
            static const std::vector<uint32_t> special = {0, 1, 2, 3, 4, 5, 8, 12, 16, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xfffffffc, 0x40000000, 0x3fffffff, 0x20000000, 0xffff, 0x10000};
            uint32_t v;
            switch(s.draw(5))
            {
              case 0: v = s.pick(special); break;
              case 1: v = (uint32_t)s.draw(in.size() * 2 + 1); break;
              case 2: v = old + (uint32_t)s.range(-16, 16); break;
              case 3: v = (uint32_t)(in.size() - at + (size_t)s.range(-8, 8)); break;
              default: v = (uint32_t)s.draw(1ull << 32); break;
            }
            memcpy(&in[at], &v, 4);
          }
          break;
        }
        case 3:
        {
          at &= ~(size_t)1;
          if(at + 2 <= in.size())
          {
            static const std::vector<uint16_t> special = {0, 1, 2, 3, 4, 5, 6, 8, 10, 20, 22, 24, 0x7fff, 0x8000, 0xffff, 0xfffe};
            uint16_t v = s.flip() ? s.pick(special) : (uint16_t)s.draw(64);
            memcpy(&in[at], &v, 2);
          }
          break;
        }
        case 4: in.resize(at); break;
        case 5: in.insert(at, gen::bytes(s, gen::length(s, 300))); break;
        case 6: in.erase(at, 1 + s.draw(std::min<size_t>(in.size() - at, 40))); break;
        case 7:
        {
          // Copy a part elsewhere.
          size_t from = s.draw(in.size()), n = std::min({in.size() - from, in.size() - at, (size_t)(1 + s.draw(64))});
          if(n)
          {
            std::string part = in.substr(from, n);
            in.replace(at, n, part);
          }
          break;
        }
        default: in += gen::bytes(s, gen::length(s, 100)); break;
      }
    }
  }

  std::string serialised(pbt::Src& s)
  {
    Options o;
    o.maxText = 3000;
    Message m(name(s), name(s), Datagram(raw(any(s, o, 600, 300))));
    std::shared_ptr<RawBytes> b = m.SerializeToBytes();
    return std::string((const char*)b->GetContent(), b->GetSize());
  }
} // namespace

static void d05(Case& c)
{
  std::string in;
  switch(c.s.weighted({6, 6, 2, 1}))
  {
    case 0:
    {
      c << "changed serialised message ";
      in = serialised(c.s);
      mutate(c.s, in);
      c.label("mutated");
      break;
    }
    case 1:
    {
      c << "forged message ";
      Forge f(c.s);
      in = f.finish(f.node(6));
      if(c.s.chance(1, 4))
      {
        mutate(c.s, in);
      }
      c.label("forged");
      break;
    }
    case 2:
      c << "random bytes ";
      in = gen::bytes(c.s, gen::length(c.s, 5000));
      c.label("random");
      break;
    default:
      c << "amplifying message ";
      in = amplified(c.s);
      c.label("amplified");
      break;
  }
  c << "of " << in.size() << " bytes";
  if(c.verbose())
  {
    c << ": " << quote(in, 400);
  }
  decodeArbitrary(c, in);
}

PBT_PROP({"D05", "serialised messages with 1-12 changes (bytes, offsets, lengths, vtables, cuts, insertions, moved parts), buffers forged by hand (absent fields, unknown types, shared tables, texts and vectors, unequal keys and contents), random bytes, "
                 "and small buffers that stand for enormous or deep messages; oracle: a message or a library error, no sanitizer report, memory and time proportionate, and the message copies, prints and round-trips; non-trivial: accepted",
  d05, 110000, 3000000, 60, 0, nullptr});

static void d05bytes(Case& c)
{
  std::string in = c.s.blob(c.s.size(300));
  decodeArbitrary(c, in);
}

PBT_PROP({"D05.bytes", "the bytes themselves", d05bytes, 1000, 1000, 60, 0, nullptr});

// ------------------------------------------------------------------------------------------------ D06

namespace
{
  // A strict reference parser (RFC 8259) for JSON.  Numbers with more digits than 64 bits, lone surrogates, keys
  // with null characters, invalid UTF-8 and nesting beyond 900 levels are outside of what is compared.
  struct Reference
  {
    const std::string& t;
    size_t at = 0;
    bool outside = false;

    explicit Reference(const std::string& t_) : t(t_) {}

    bool parse(Val& v)
    {
      space();
      if(!value(v, 0))
      {
        return false;
      }
      space();
      return at == t.size();
    }

    void space()
    {
      while(at < t.size() && (t[at] == ' ' || t[at] == '\t' || t[at] == '\n' || t[at] == '\r'))
      {
        ++at;
      }
    }

    bool literal(const char* w)
    {
      size_t n = strlen(w);
      if(t.compare(at, n, w) == 0)
      {
        at += n;
        return true;
      }
      return false;
    }

    bool hex(uint32_t& u)
    {
      u = 0;
      for(int i = 0; i < 4; ++i, ++at)
      {
        if(at >= t.size() || !isxdigit((unsigned char)t[at]))
        {
          return false;
        }
        char ch = t[at];
        u = u * 16 + (uint32_t)(ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10);
      }
      return true;
    }

    bool string(std::string& out)
    {
      if(at >= t.size() || t[at] != '"')
      {
        return false;
      }
      ++at;
      while(at < t.size())
      {
        unsigned char ch = (unsigned char)t[at];
        if(ch == '"')
        {
          ++at;
          return true;
        }
        if(ch < 32)
        {
          return false;
        }
        if(ch == '\\')
        {
          ++at;
          if(at >= t.size())
          {
            return false;
          }
          char e = t[at++];
          switch(e)
          {
            case '"': case '\\': case '/': out += e; break;
            case 'b': out += '\b'; break;
            case 'f': out += '\f'; break;
            case 'n': out += '\n'; break;
            case 'r': out += '\r'; break;
            case 't': out += '\t'; break;
            case 'u':
            {
              uint32_t u;
              if(!hex(u))
              {
                return false;
              }
              if(u >= 0xd800 && u < 0xdc00 && t.compare(at, 2, "\\u") == 0)
              {
                size_t back = at;
                uint32_t l;
                at += 2;
                if(!hex(l))
                {
                  return false;
                }
                if(l >= 0xdc00 && l < 0xe000)
                {
                  u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                }
                else
                {
                  at = back;
                }
              }
              if(u >= 0xd800 && u < 0xe000)
              {
                outside = true;
                break;
              }
              if((u & 0xf800) == 0xd800)
              {
                outside = true;   // A known finding.
              }
              gen::utf8(out, u);
              break;
            }
            default: return false;
          }
        }
        else if(ch < 0x80)
        {
          out += (char)ch;
          ++at;
        }
        else
        {
          int n = ch >= 0xf0 ? 3 : ch >= 0xe0 ? 2 : 1;
          uint32_t u = ch & (0x3f >> n);
          bool bad = ch < 0xc2 || ch > 0xf4;
          size_t i = 1;
          for(; (int)i <= n && !bad; ++i)
          {
            if(at + i >= t.size() || ((unsigned char)t[at + i] & 0xc0) != 0x80)
            {
              bad = true;
            }
            else
            {
              u = (u << 6) | ((unsigned char)t[at + i] & 0x3f);
            }
          }
          if(bad || (n == 2 && (u < 0x800 || (u >= 0xd800 && u < 0xe000))) || (n == 3 && (u < 0x10000 || u > 0x10ffff)))
          {
            outside = true;
            ++at;
            continue;
          }
          out.append(t, at, (size_t)n + 1);
          at += (size_t)n + 1;
        }
      }
      return false;
    }

    bool digits()
    {
      size_t from = at;
      while(at < t.size() && isdigit((unsigned char)t[at]))
      {
        ++at;
      }
      return at > from;
    }

    bool number(Val& v)
    {
      size_t from = at;
      bool whole = true;
      if(at < t.size() && t[at] == '-')
      {
        ++at;
      }
      if(at < t.size() && t[at] == '0')
      {
        ++at;
      }
      else if(!digits())
      {
        return false;
      }
      if(at < t.size() && t[at] == '.')
      {
        whole = false;
        ++at;
        if(!digits())
        {
          return false;
        }
      }
      if(at < t.size() && (t[at] == 'e' || t[at] == 'E'))
      {
        whole = false;
        ++at;
        if(at < t.size() && (t[at] == '+' || t[at] == '-'))
        {
          ++at;
        }
        if(!digits())
        {
          return false;
        }
      }
      std::string text = t.substr(from, at - from);
      v.real = strtod(text.c_str(), nullptr);
      if(text == "-0" || std::isinf(v.real))
      {
        outside = true;
      }
      v.kind = Val::Real;
      if(whole)
      {
        if(std::abs(v.real) >= 9.2e18)
        {
          outside = true;
        }
        else
        {
          long long i = strtoll(text.c_str(), nullptr, 10);
          if(i >= INT_MIN && i <= INT_MAX)
          {
            v = Val::I((int)i);
          }
        }
      }
      return true;
    }

    bool value(Val& v, size_t depth)
    {
      v = Val();
      if(at >= t.size())
      {
        return false;
      }
      if(depth > 900)
      {
        outside = true;
        return false;
      }
      switch(t[at])
      {
        case 'n': return literal("null");
        case 't': v = Val::B(true); return literal("true");
        case 'f': v = Val::B(false); return literal("false");
        case '"': v = Val::T(""); return string(v.text);
        case '[':
          v = Val::L();
          ++at;
          space();
          if(at < t.size() && t[at] == ']')
          {
            ++at;
            return true;
          }
          while(true)
          {
            space();
            v.list.emplace_back();
            if(!value(v.list.back(), depth + 1))
            {
              return false;
            }
            space();
            if(at < t.size() && t[at] == ',')
            {
              ++at;
              continue;
            }
            if(at < t.size() && t[at] == ']')
            {
              ++at;
              return true;
            }
            return false;
          }
        case '{':
          v = Val::D();
          ++at;
          space();
          if(at < t.size() && t[at] == '}')
          {
            ++at;
            return true;
          }
          while(true)
          {
            space();
            std::string k;
            if(!string(k))
            {
              return false;
            }
            if(k.find('\0') != std::string::npos)
            {
              outside = true;
            }
            space();
            if(at >= t.size() || t[at] != ':')
            {
              return false;
            }
            ++at;
            space();
            if(!value(v.dict[k], depth + 1))
            {
              return false;
            }
            space();
            if(at < t.size() && t[at] == ',')
            {
              ++at;
              continue;
            }
            if(at < t.size() && t[at] == '}')
            {
              ++at;
              return true;
            }
            return false;
          }
        default: return number(v);
      }
    }
  };

  struct Writer
  {
    pbt::Src& s;
    std::string out;
    bool fancy;
    // Places of structural characters that a document cannot do without.
    std::vector<size_t> closers, colons, commas, openers, quotes, values;

    explicit Writer(pbt::Src& s_) : s(s_), fancy(s_.flip()) {}

    void space()
    {
      if(fancy && s.chance(1, 3))
      {
        static const std::vector<std::string> ws = {" ", "\n", "\t", "\r", "  ", "\r\n", " \t \n "};
        out += s.pick(ws);
      }
    }

    void escape(uint32_t u)
    {
      char b[8];
      snprintf(b, sizeof b, s.flip() ? "\\u%04x" : "\\u%04X", u);
      out += b;
    }

    void string(const std::vector<uint32_t>& t)
    {
      quotes.push_back(out.size());
      out += '"';
      unsigned style = fancy ? (unsigned)s.draw(4) : 0;
      for(uint32_t u : t)
      {
        if((style == 1 && s.flip()) || style == 2)
        {
          if(u >= 0x10000 && (u & 0xf800) == 0xd800)
          {
            gen::utf8(out, u);      // A known finding: json-c does not understand these when escaped.
          }
          else if(u >= 0x10000)
          {
            escape(0xd800 + ((u - 0x10000) >> 10));
            escape(0xdc00 + ((u - 0x10000) & 0x3ff));
          }
          else
          {
            escape(u);
          }
          continue;
        }
        switch(u)
        {
          case '"': out += "\\\""; break;
          case '\\': out += "\\\\"; break;
          case '\b': out += "\\b"; break;
          case '\f': out += "\\f"; break;
          case '\n': out += "\\n"; break;
          case '\r': out += "\\r"; break;
          case '\t': out += "\\t"; break;
          case '/': out += style == 3 ? "\\/" : "/"; break;
          default:
            if(u < 32)
            {
              escape(u);
            }
            else
            {
              gen::utf8(out, u);
            }
        }
      }
      out += '"';
    }

    static std::string utf8(const std::vector<uint32_t>& t)
    {
      std::string r;
      for(uint32_t u : t)
      {
        gen::utf8(r, u);
      }
      return r;
    }

    std::vector<uint32_t> text(size_t max, bool key)
    {
      std::vector<uint32_t> r;
      size_t n = gen::length(s, max);
      size_t block = std::min<size_t>(n, 24);
      for(size_t i = 0; i < block; ++i)
      {
        uint32_t u = gen::codepoint(s);
        r.push_back(key && u == 0 ? 'z' : u);
      }
      for(size_t i = block; i < n; ++i)
      {
        r.push_back(r[i % block]);
      }
      return r;
    }

    Val number()
    {
      std::string t;
      switch(s.weighted({4, 3, 3, 3, 2}))
      {
        case 0:
        {
          int i = model::integer(s);
          out += std::to_string(i);
          return Val::I(i);
        }
        case 1:
        {
          static const std::vector<long long> edges = {2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, 9007199254740993ll, 9223372036854775807ll, -9223372036854775807ll - 1, 1099511627776ll, 999999999999ll, -5000000000ll};
          long long i = s.flip() ? s.pick(edges) : (long long)s.bits64();
          out += std::to_string(i);
          return i >= INT_MIN && i <= INT_MAX ? Val::I((int)i) : Val::R((double)i);
        }
        case 2:
        {
          double d = model::real(s, false);
          if(std::isinf(d))
          {
            d = 0.25;
          }
          char b[400];
          static const char* formats[] = {"%.17g", "%.3f", "%.20e", "%g", "%.17E", "%.1f"};
          snprintf(b, sizeof b, formats[s.draw(6)], d);
          t = b;
          break;
        }
        case 3:
        {
          t = (s.flip() ? "-" : "") + std::to_string(s.draw(2000)) + "." + std::to_string(s.draw(100000));
          if(s.flip())
          {
            t += std::string(s.flip() ? "e" : "E") + (s.flip() ? "+" : s.flip() ? "-" : "") + std::to_string(s.draw(300));
          }
          break;
        }
        default:
          t = std::to_string(s.draw(30)) + (s.flip() ? "e" : "E") + (s.flip() ? "-" : "") + std::to_string(s.draw(20));
          break;
      }
      if(t.find_first_of(".eE") == std::string::npos)
      {
        t += ".0";
      }
      out += t;
      return Val::R(strtod(t.c_str(), nullptr));
    }

    Val value(size_t depth, size_t& budget, size_t maxText)
    {
      if(budget > 0)
      {
        --budget;
      }
      values.push_back(out.size());
      unsigned kind = depth == 0 || budget == 0 ? (unsigned)s.draw(4) : (unsigned)s.weighted({1, 1, 2, 2, 3, 4});
      switch(kind)
      {
        case 0: out += "null"; return Val();
        case 1:
        {
          bool b = s.flip();
          out += b ? "true" : "false";
          return Val::B(b);
        }
        case 2: return number();
        case 3:
        {
          std::vector<uint32_t> t = text(maxText, false);
          string(t);
          return Val::T(utf8(t));
        }
        case 4:
        {
          Val v = Val::L();
          openers.push_back(out.size());
          out += '[';
          space();
          for(pbt::List l(s, std::min<size_t>(30, budget)); l.more();)
          {
            if(l.index() > 1 || !v.list.empty())
            {
              commas.push_back(out.size());
              out += ',';
              space();
            }
            v.list.push_back(value(depth - 1, budget, maxText));
            space();
          }
          closers.push_back(out.size());
          out += ']';
          return v;
        }
        default:
        {
          Val v = Val::D();
          openers.push_back(out.size());
          out += '{';
          space();
          std::vector<std::vector<uint32_t>> keys;
          bool any = false;
          for(pbt::List l(s, std::min<size_t>(30, budget)); l.more();)
          {
            if(any)
            {
              commas.push_back(out.size());
              out += ',';
              space();
            }
            any = true;
            static const std::vector<std::vector<uint32_t>> pool = {{'a'}, {'b'}, {}, {'a', '/', 'b'}, {0xe9}, {'A'}, {'"'}, {'k', 'e', 'y'}};
            std::vector<uint32_t> k = !keys.empty() && s.chance(1, 6) ? s.pick(keys) : s.weighted({3, 1}) == 0 ? s.pick(pool) : text(maxText, true);
            keys.push_back(k);
            string(k);
            space();
            colons.push_back(out.size());
            out += ':';
            space();
            v.dict[utf8(k)] = value(depth - 1, budget, maxText);
            space();
          }
          closers.push_back(out.size());
          out += '}';
          return v;
        }
      }
    }

    Val document()
    {
      space();
      Val v;
      size_t budget = 60;
      switch(s.weighted({20, 2, 2, 1}))
      {
        case 0: v = value(7, budget, 3000); break;
        case 1:
        {
          // Wide.
          size_t n = s.flip() ? 100 + s.draw(300) : s.pick(std::vector<size_t>{31, 32, 33, 64, 255, 256, 1000, 5000, 20000});
          bool dict = s.flip();
          v = dict ? Val::D() : Val::L();
          out += dict ? '{' : '[';
          std::string prefix = "k";
          for(size_t i = 0; i < n; ++i)
          {
            out += i ? "," : "";
            if(dict)
            {
              out += "\"" + prefix + std::to_string(i) + "\":";
            }
            Val& e = dict ? v.dict[prefix + std::to_string(i)] : (v.list.emplace_back(), v.list.back());
            if(i < 40)
            {
              size_t one = 1;
              e = value(0, one, 20);
            }
            else
            {
              out += std::to_string(i);
              e = Val::I((int)i);
            }
          }
          closers.push_back(out.size());
          out += dict ? '}' : ']';
          break;
        }
        case 2:
        {
          // Deep.
          size_t n = s.flip() ? s.draw(100) : s.pick(std::vector<size_t>{31, 32, 33, 63, 64, 65, 127, 128, 200, 255, 256, 500, 800, 890});
          std::vector<bool> kinds;
          for(size_t i = 0; i < n; ++i)
          {
            kinds.push_back(i < 32 ? s.flip() : kinds[i % 32]);
            out += kinds[i] ? "{\"k\":" : "[";
          }
          size_t one = 1;
          v = value(0, one, 100);
          for(size_t i = n; i > 0; --i)
          {
            Val p = kinds[i - 1] ? Val::D() : Val::L();
            if(kinds[i - 1])
            {
              p.dict["k"] = std::move(v);
            }
            else
            {
              p.list.push_back(std::move(v));
            }
            v = std::move(p);
            closers.push_back(out.size());
            out += kinds[i - 1] ? '}' : ']';
          }
          break;
        }
        default: v = value(0, budget, 300000); break;
      }
      return v;
    }
  };

  std::shared_ptr<Datagram> decode(Case& c, const std::string& json)
  {
    try
    {
      return std::shared_ptr<Datagram>(new Datagram(Datagram::DeserializeFromJson(json)));
    }
    catch(const std::exception& e)
    {
      c.fail(std::string("decoding the text throws: ") + e.what());
    }
  }

  // Decodes; the memory in use must afterwards be what it was.
  void retains(Case& c, const std::string& json)
  {
    {
      decode(c, json);
    }
    size_t before = __sanitizer_get_current_allocated_bytes();
    {
      decode(c, json);
    }
    size_t after = __sanitizer_get_current_allocated_bytes();
    c.checkf(after <= before, [&] { return "decoding the text retains " + std::to_string(after - before) + " bytes"; });
  }

  void mustBeEmpty(Case& c, const std::string& json, const char* why)
  {
    std::shared_ptr<Datagram> d = decode(c, json);
    if(!d->IsEmpty())
    {
      std::ostringstream o;
      o << *d;
      c.fail(std::string("a text that is ") + why + " decodes to " + quote(o.str(), 200) + ": " + quote(json, 400));
    }
  }

  // Any text: agrees with the reference when that accepts it.
  void anyText(Case& c, const std::string& json)
  {
    Reference r(json);
    Val v;
    bool ok = r.parse(v);
    std::shared_ptr<Datagram> d = decode(c, json);
    if(ok && !r.outside)
    {
      c.nontrivial();
      c.label("valid");
      std::string x = differsAt(*d, v, "the datagram", v.nodes() < 200);
      c.checkf(x.empty(), [&] { return x + ", decoded from " + quote(json, 400); });
    }
    std::ostringstream o;
    o << *d;
    d = nullptr;
    retains(c, json);
  }
} // namespace

static void d06(Case& c)
{
  signedZeros() = true;
  Writer w(c.s);
  Val v = w.document();
  std::string doc = w.out;
  size_t end = doc.size();
  w.space();
  doc = w.out;
  c << "document of " << doc.size() << " bytes ";
  if(c.verbose())
  {
    c << quote(doc, 300) << "; ";
  }
  size_t depth = v.depth();
  c.label(depth > 100 ? "depth > 100" : depth > 10 ? "depth > 10" : "shallow");
  c.label(v.kind == Val::Dict || v.kind == Val::List ? "container" : "top-level value");
  if(v.nodes() > 1)
  {
    c.nontrivial();
  }
  std::shared_ptr<Datagram> d = decode(c, doc);
  std::string x = differsAt(*d, v, "the decoded document", v.nodes() < 200);
  c.check(x.empty(), x);
  d = nullptr;
  retains(c, doc);

  // Cut off.
  size_t start = doc.find_first_not_of(" \t\r\n");
  bool isNumber = v.kind == Val::Int || v.kind == Val::Real;
  if(!isNumber)
  {
    for(unsigned n = doc.size() > 5000 ? 2 : 5; n > 0; --n)
    {
      size_t cut = c.s.flip() ? end - 1 - c.s.draw(std::min<size_t>(end - start, 6)) : start + c.s.draw(end - start);
      c << "cut at " << cut << "; ";
      std::string part = doc.substr(0, cut);
      mustBeEmpty(c, part, "cut off");
      if(n == 1)
      {
        retains(c, part);
      }
    }
  }

  // Broken.
  for(unsigned n = doc.size() > 5000 ? 1 : 4; n > 0; --n)
  {
    std::string b = doc;
    const char* what = nullptr;
    switch(c.s.draw(8))
    {
      case 0:
        if(!w.colons.empty())
        {
          static const std::vector<std::string> no = {" ", ";", "=", ",", "::", "]"};
          b.replace(c.s.pick(w.colons), 1, c.s.pick(no));
          what = "broken (no colon)";
        }
        break;
      case 1:
        if(!w.closers.empty())
        {
          size_t at = c.s.pick(w.closers);
          b[at] = b[at] == ']' ? '}' : ']';
          what = "broken (wrong bracket)";
        }
        break;
      case 2:
        if(!w.closers.empty())
        {
          // Without one closing bracket, the last one is missing, or a wrong one comes first.
          b.erase(c.s.pick(w.closers), 1);
          what = "broken (no closing bracket)";
        }
        break;
      case 3:
        if(!w.commas.empty())
        {
          static const std::vector<std::string> no = {" ; ", " : ", " . ", " \"x\" \"y\" ", " [] "};
          b.replace(c.s.pick(w.commas), 1, c.s.pick(no));
          what = "broken (no comma)";
        }
        break;
      case 4:
        if(w.values.size() > 1)
        {
          // Not at the top, where a value could be complete before.
          static const std::vector<std::string> no = {"xyz ", "tru ", ", ", ": ", "+", "@", "nul ", "\\", "=1 "};
          b.insert(w.values[1 + c.s.draw(w.values.size() - 1)], c.s.pick(no));
          what = "broken (no value)";
        }
        break;
      case 5:
        if(!w.quotes.empty())
        {
          static const std::vector<std::string> no = {"\\x41", "\\u12G4", "\\uD", "\\ ", "\\0", "\\U0041", "\\a"};
          b.insert(c.s.pick(w.quotes) + 1, c.s.pick(no) + "\"");
          what = "broken (bad escape)";
        }
        break;
      case 6:
        if(!w.openers.empty())
        {
          size_t at = c.s.pick(w.openers);
          b[at] = b[at] == '[' ? '{' : '[';
          // {} and [] with nothing inside end with the wrong bracket, too.
          what = "broken (wrong opening bracket)";
        }
        break;
      default:
        if(!w.openers.empty())
        {
          b.insert(c.s.pick(w.openers), c.s.flip() ? "[" : "{");
          what = "broken (extra opening bracket)";
        }
        break;
    }
    if(what)
    {
      c << what << "; ";
      c.label("broken");
      mustBeEmpty(c, b, what);
      if(n == 1)
      {
        retains(c, b);
      }
    }
  }
}

PBT_PROP({"D06", "documents of any structure (up to 20000 items, 890 levels, 300000 characters, all escapes and planes, duplicate keys, all number forms, every kind at the top) written with a model, decoded; then cut off at up to 5 places and "
                 "broken in up to 4 ways that no reading can repair; oracle: the model, the empty datagram, and the memory in use unchanged; non-trivial: more than one node", d06, 18000, 1000000, 60, 0, nullptr});

static void d06text(Case& c)
{
  std::string t;
  if(c.s.fuzzing())
  {
    t = c.s.blob(0);
  }
  else if(c.s.chance(1, 3))
  {
    Writer w(c.s);
    size_t budget = 20;
    w.value(4, budget, 40);
    t = w.out;
    for(pbt::List l(c.s, 4, 1); l.more() && !t.empty();)
    {
      size_t at = c.s.draw(t.size());
      switch(c.s.draw(4))
      {
        case 0: t[at] = (char)c.s.draw(256); break;
        case 1: t.erase(at, 1); break;
        case 2: t.insert(at, 1, "{}[]\",:0\\-e. tfn\0"[c.s.draw(17)]); break;
        default: t[at] = "{}[]\",:0\\-e. tfn\0"[c.s.draw(17)]; break;
      }
    }
  }
  else
  {
    static const std::vector<std::string> tokens = {"{", "}", "[", "]", ":", ",", "\"", "\"a\"", "\"b\"", "1", "-", "0", "1.5", "e5", "true", "false", "null", " ", "\\", "\\u", "00e9", "\\ud83d\\ude00", "\n", "NaN", "Infinity", "//", "/*", "*/", "'",
      "-2147483648", "2147483648", "1e400", "\xc3\xa9", "\xff", std::string("\0", 1), "[]", "{}", "{\"a\":", "[1,2]", "12345678901234567890123", "-0", "1E-5", "truE", "nan"};
    for(pbt::List l(c.s, 40); l.more();)
    {
      t += c.s.pick(tokens);
    }
  }
  if(c.verbose())
  {
    c << quote(t, 400);
  }
  anyText(c, t);
}

PBT_PROP({"D06.text", "token sequences and documents with 1-4 changed characters (any bytes when fuzzing), against a strict reference parser; non-trivial: valid JSON", d06text, 200000, 5000000, 30, 0, nullptr});
