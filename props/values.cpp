// T01, F02, M01, R01, C01, U01: pure functions and value types.
#include <gen.h>
#include <lpbt.h>

#include <algorithm>
#include <memory>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>

#include <lamppost/Filesystem.h>
#include <lamppost/LampPostConfiguration.h>
#include <lamppost/bus/Bus.h>
#include <lamppost/data/RawBytes.h>
#include <lamppost/messages/Message.h>
#include <lamppost/plugin/PluginManagerConfiguration.h>
#include <lamppost/settings/SettingsManager.h>
#include <lamppost/utilities/AntMatcher.h>
#include <lamppost/utilities/Uuid.h>

using pbt::Case;
using pbt::quote;

// ---------------------------------------------------------------------------------------------- T01

static std::string topicText(pbt::Src& s)
{
  static const std::vector<std::string> pieces = {"/", "a", "sub", "*", "**", "/**/*", "?", "A", ".", "{", "}", "x/y", " ", std::string(1, '\0'), "\xc3\xa9", "[a-z]", "\\", "+", "(.*)", "#", "/request", "/response"};
  switch(s.weighted({6, 3, 2, 2}))
  {
    case 0:
    {
      std::string r;
      for(pbt::List l(s, 60); l.more();)
      {
        r += s.pick(pieces);
      }
      return r;
    }
    case 1:
    {
      // Ordinary looking: /seg/seg/...
      std::string r;
      for(pbt::List l(s, 12, 1); l.more();)
      {
        r += "/";
        for(pbt::List k(s, 12, 1); k.more();)
        {
          r += "abcxyzABC019-_*"[s.draw(15)];
        }
      }
      return r;
    }
    case 2: return "/**/*";
    default: return gen::bytes(s, gen::length(s, 70000));
  }
}

static void t01(Case& c)
{
  std::string pattern = topicText(c.s);
  std::string topic;
  switch(c.s.weighted({4, 4, 2, 1, 1}))
  {
    case 0: topic = pattern; break;
    case 1: topic = gen::nearMiss(c.s, pattern); break;
    case 2: topic = topicText(c.s); break;
    case 3: topic = gen::nearMiss(c.s, gen::nearMiss(c.s, pattern)); break;
    default:
      topic = pattern;
      pattern = gen::nearMiss(c.s, "/**/*");
      break;
  }
  bool expected = pattern == topic || pattern == "/**/*";
  c << "pattern " << quote(pattern) << " topic " << quote(topic) << " expected " << expected;
  c.label(pattern == "/**/*" ? "catch-all" : pattern == topic ? "same text" : "different text");
  if(!pattern.empty() && !topic.empty())
  {
    c.nontrivial();
  }
  std::string p = pattern, t = topic;
  c.checkf(lp::utilities::AntMatcher::Matches(pattern, topic) == expected, [&] { return "Matches(" + quote(pattern) + ", " + quote(topic) + ") is not " + (expected ? "true" : "false"); });
  c.check(p == pattern && t == topic, "matching changed its arguments");
}
PBT_PROP({"T01", "pattern and topic texts up to 70 kB (segments, wildcard-like pieces, arbitrary bytes, the catch-all), topics equal to, near misses of, or independent of the pattern; "
                 "oracle: equality or catch-all; non-trivial: both texts non-empty", t01, 6000000, 60000000, 20, 0, nullptr});

// ---------------------------------------------------------------------------------------------- F02

static std::string pathName(pbt::Src& s)
{
  std::string r;
  switch(s.weighted({5, 3, 2, 2}))
  {
    case 0:
      for(pbt::List l(s, 20); l.more();)
      {
        r += "ab.-_ X9"[s.draw(8)];
      }
      break;
    case 1:
    {
      static const std::vector<std::string> names = {".", "..", "...", ".hidden", "a.", "lib.so", "libplugin_x.so", "a.b.c", ".so", "x.tar.gz", "no-dot", "\\", "a\\b.c", "so", "a.so.1"};
      r = s.pick(names);
      break;
    }
    case 2: r = gen::bytes(s, gen::length(s, 70000)); break;
    default:
      r = gen::bytes(s, s.draw(12)) + "." + gen::bytes(s, s.draw(6));
      break;
  }
  std::replace(r.begin(), r.end(), '/', '_');
  return r;
}

static void f02(Case& c)
{
  std::string dir;
  switch(c.s.weighted({6, 2, 1}))
  {
    case 0:
      dir = c.s.flip() ? "" : c.s.flip() ? "." : "/";
      for(pbt::List l(c.s, 20); l.more();)
      {
        if(l.index() > 1)
        {
          dir += "/";
        }
        dir += pathName(c.s);
      }
      break;
    case 1: dir = gen::bytes(c.s, gen::length(c.s, 70000)); break;
    default: dir = ""; break;
  }
  std::string name = pathName(c.s);
  c << "directory " << quote(dir) << " name " << quote(name);
  std::string combined = lp::Filesystem::CombinePaths(dir, name);
  c.checkf(combined == dir + "/" + name, [&] { return "CombinePaths gives " + quote(combined); });
  c.checkf(lp::Filesystem::GetFilename(combined) == name, [&] { return "GetFilename gives " + quote(lp::Filesystem::GetFilename(combined)); });
  c.checkf(lp::Filesystem::GetBaseDirectory(combined) == dir, [&] { return "GetBaseDirectory gives " + quote(lp::Filesystem::GetBaseDirectory(combined)); });
  size_t dot = name.rfind('.');
  std::string extension = dot == std::string::npos ? "" : name.substr(dot + 1);
  c.checkf(lp::Filesystem::GetFileExtension(combined) == extension, [&] { return "GetFileExtension gives " + quote(lp::Filesystem::GetFileExtension(combined)) + " instead of " + quote(extension); });
  if(dir.find('.') != std::string::npos && dot == std::string::npos)
  {
    c.label("dot in the directory only");
  }
  if(dot != std::string::npos)
  {
    c.label("dot in the name");
  }
  if(!name.empty() && !dir.empty())
  {
    c.nontrivial();
  }
}
PBT_PROP({"F02", "directories (any bytes, nested, dotted, empty) and separator-free names (dots anywhere, long, arbitrary bytes); oracle: combination is dir + '/' + name, and splitting gives the parts back; "
                 "non-trivial: both non-empty", f02, 4000000, 30000000, 20, 0, nullptr});

// ---------------------------------------------------------------------------------------------- M01

static std::string senderName(pbt::Src& s, const std::vector<std::string>& pool)
{
  static const std::vector<std::string> fixed = {"", "a", "a/b", "a/", "/", "ab", "Link0", "Link1", "Link10", "root", "b", "//", "a/b/c"};
  switch(s.weighted({5, 4, 2, 1}))
  {
    case 0: return s.pick(fixed);
    case 1: return pool.empty() ? "" : s.pick(pool);
    case 2: return pool.empty() ? "x" : gen::nearMiss(s, s.pick(pool));
    default: return gen::bytes(s, gen::length(s, 70000));
  }
}

static bool cameThrough(const std::string& sender, const std::string& name)
{
  return sender.size() > name.size() && sender.compare(0, name.size(), name) == 0 && sender[name.size()] == '/';
}

static void m01(Case& c)
{
  std::vector<std::string> pool;
  std::string sender = senderName(c.s, pool);
  pool.push_back(sender);
  std::string topic = c.s.flip() ? "/topic" : gen::bytes(c.s, gen::length(c.s, 300));
  lp::messages::Datagram datagram;
  if(c.s.flip())
  {
    datagram["key"] = (int)c.s.range(-5, 5);
    datagram["list"].Add(std::make_shared<lp::messages::RawDatagram>(std::string("item")));
  }
  lp::messages::Datagram original(datagram);
  lp::messages::Message message(sender, topic, datagram);
  std::string model = sender;
  c << "sender " << quote(sender);
  bool tagged = false, removed = false, kept = false;
  for(pbt::List l(c.s, 60, 1); l.more();)
  {
    std::string name = senderName(c.s, pool);
    size_t op = c.s.weighted({4, 4, 3, 1});
    if(op == 1 && c.s.flip())
    {
      // A name under which a prefix of the sender is removed.
      size_t slash = model.find('/', c.s.draw(std::min<size_t>(model.size(), 20) + 1));
      if(slash != std::string::npos)
      {
        name = model.substr(0, slash);
      }
    }
    if(pool.size() < 12)
    {
      pool.push_back(name);
    }
    switch(op)
    {
      case 0:
        if(model.size() > 400000)
        {
          break;
        }
        c << "; tag " << quote(name);
        message.PrependSender(name);
        model = name + "/" + model;
        tagged = true;
        break;
      case 1:
        c << "; remove " << quote(name);
        message.RemoveSender(name);
        if(cameThrough(model, name))
        {
          model = model.substr(name.size() + 1);
          removed = true;
        }
        else
        {
          kept = true;
        }
        break;
      case 2:
      {
        c << "; through " << quote(name) << "?";
        bool expected = cameThrough(model, name);
        c.checkf(message.WasSentBySender(name) == expected, [&] { return "WasSentBySender(" + quote(name) + ") is not " + (expected ? "true" : "false") + " for sender " + quote(model); });
        break;
      }
      default:
      {
        // Tagging and removing undo each other.
        c << "; tag and remove " << quote(name);
        lp::messages::Message other(message);
        other.PrependSender(name);
        c.check(other.WasSentBySender(name), "a tagged message did not come through its relay");
        other.RemoveSender(name);
        c.check(other.GetSender() == model, "removing does not undo tagging");
        c.check(other == message, "tagging and removing does not give the message back");
        break;
      }
    }
    c.checkf(message.GetSender() == model, [&] { return "the sender is " + quote(message.GetSender()) + " instead of " + quote(model); });
  }
  c.check(message.GetTopic() == topic, "the topic changed");
  c.check(message.GetDatagram() == original, "the datagram changed");
  if((tagged && removed) || kept)
  {
    c.nontrivial();
  }
}
PBT_PROP({"M01", "senders and relay names from a pool of nested, prefix-related, empty, slash-only and arbitrary texts; sequences of up to 60 tag/remove/query operations against a string model; "
                 "non-trivial: something was tagged and removed, or a removal had nothing to remove", m01, 1500000, 8000000, 20, 0, nullptr});

// ---------------------------------------------------------------------------------------------- R01

static std::string content(lp::data::RawBytes& b)
{
  return b.GetSize() == 0 ? std::string() : std::string(static_cast<const char*>(b.GetContent()), b.GetSize());
}

static void r01(Case& c)
{
  using lp::data::RawBytes;
  struct Buffer
  {
    std::unique_ptr<RawBytes> real;
    std::string model;
  };
  std::vector<Buffer> buffers;
  size_t total = 0;
  bool appended = false, copied = false, self = false;
  auto create = [&]()
  {
    Buffer b;
    if(c.s.weighted({3, 1}) == 0)
    {
      std::string bytes = gen::bytes(c.s, gen::length(c.s, 1048576));
      c << "create(" << bytes.size() << "); ";
      std::vector<char> source(bytes.begin(), bytes.end());
      source.reserve(1);
      b.real.reset(new RawBytes(source.data(), source.size()));
      std::fill(source.begin(), source.end(), '!');
      b.model = bytes;
    }
    else
    {
      c << "create(); ";
      b.real.reset(new RawBytes());
    }
    buffers.push_back(std::move(b));
  };
  create();
  for(pbt::List l(c.s, 60); l.more();)
  {
    size_t i = c.s.draw(buffers.size());
    Buffer& b = buffers[i];
    switch(c.s.weighted({8, 3, 2, 2, 1, 1, 1}))
    {
      case 0:
      {
        std::string bytes = gen::bytes(c.s, gen::length(c.s, 1048576));
        if(total + bytes.size() > 6000000)
        {
          break;
        }
        total += bytes.size();
        c << i << ".append(" << bytes.size() << "); ";
        std::vector<char> source(bytes.begin(), bytes.end());
        source.reserve(1);
        b.real->Append(source.data(), source.size());
        std::fill(source.begin(), source.end(), '!');
        b.model += bytes;
        appended = true;
        break;
      }
      case 1:
      {
        // Part of the buffer itself.
        if(b.model.empty() || total + b.model.size() > 6000000)
        {
          break;
        }
        size_t from = c.s.flip() ? 0 : c.s.draw(b.model.size());
        size_t n = c.s.flip() ? b.model.size() - from : c.s.draw(b.model.size() - from + 1);
        total += n;
        c << i << ".append(itself, " << from << ", " << n << "); ";
        b.real->Append(static_cast<const char*>(b.real->GetContent()) + from, n);
        b.model += b.model.substr(from, n);
        self = true;
        break;
      }
      case 2:
      {
        // Bytes of another buffer.
        Buffer& other = buffers[c.s.draw(buffers.size())];
        if(other.model.empty() || total + other.model.size() > 6000000)
        {
          break;
        }
        total += other.model.size();
        c << i << ".append(other, " << other.model.size() << "); ";
        b.real->Append(other.real->GetContent(), other.real->GetSize());
        b.model += std::string(other.model);
        appended = true;
        break;
      }
      case 3:
        if(buffers.size() < 5)
        {
          c << "copy of " << i << "; ";
          Buffer n;
          n.real.reset(new RawBytes(*b.real));
          n.model = b.model;
          buffers.push_back(std::move(n));
          copied = true;
        }
        break;
      case 4:
      {
        size_t j = c.s.draw(buffers.size());
        c << i << " = " << j << "; ";
        *b.real = *buffers[j].real;
        b.model = std::string(buffers[j].model);
        copied = true;
        break;
      }
      case 5:
        if(buffers.size() > 1)
        {
          c << "discard " << i << "; ";
          buffers.erase(buffers.begin() + i);
        }
        break;
      default:
        if(buffers.size() < 5)
        {
          create();
        }
        break;
    }
    for(size_t k = 0; k < buffers.size(); ++k)
    {
      c.checkf(buffers[k].real->GetSize() == buffers[k].model.size(), [&] { return "buffer " + std::to_string(k) + " has size " + std::to_string(buffers[k].real->GetSize()) + " instead of " + std::to_string(buffers[k].model.size()); });
      c.checkf(content(*buffers[k].real) == buffers[k].model, [&] { return "buffer " + std::to_string(k) + " has the wrong content"; });
    }
  }
  if(c.s.chance(1, 8))
  {
    size_t n = c.s.draw(5);
    bool refused = false;
    try
    {
      RawBytes none(nullptr, n);
    }
    catch(const lp::exceptions::ArgumentNullException&)
    {
      refused = true;
    }
    c.check(refused, "creating a buffer from a null pointer was not refused");
    c.label("null");
  }
  if(appended)
  {
    c.label("append");
  }
  if(copied)
  {
    c.label("copy");
  }
  if(self)
  {
    c.label("self-append");
  }
  if(appended || copied || self)
  {
    c.nontrivial();
  }
}
PBT_PROP({"R01", "up to 5 buffers, sequences of up to 60 creations, appends (own, foreign and separate memory, which is overwritten afterwards), copies, assignments and disposals, chunk sizes 0 to 1 MiB, against byte strings; "
                 "non-trivial: something was appended or copied", r01, 60000, 1500000, 30, 0, nullptr});

// ---------------------------------------------------------------------------------------------- C01

static std::list<std::string> someList(pbt::Src& s, const std::vector<std::list<std::string>>& previous)
{
  static const std::vector<std::string> items = {"/usr/lib", "lib", "", "a", "b", "c", ".", "/usr/lib/", "LIB"};
  std::list<std::string> r;
  if(!previous.empty() && s.chance(3, 4))
  {
    r = s.pick(previous);
    switch(s.weighted({4, 1, 1, 1, 1, 1, 1}))
    {
      case 1:
        if(!r.empty())
        {
          r.pop_back();
        }
        break;
      case 2: r.push_back(s.pick(items)); break;
      case 3:
        if(!r.empty())
        {
          r.pop_front();
        }
        break;
      case 4: r.reverse(); break;
      case 5:
        if(!r.empty())
        {
          auto it = r.begin();
          std::advance(it, s.draw(r.size()));
          *it = gen::nearMiss(s, *it);
        }
        break;
      case 6:
        if(r.size() > 1)
        {
          auto it = r.begin(), jt = r.begin();
          std::advance(it, s.draw(r.size()));
          std::advance(jt, s.draw(r.size()));
          std::swap(*it, *jt);
        }
        break;
      default: break;
    }
    return r;
  }
  for(pbt::List l(s, 200); l.more();)
  {
    r.push_back(s.chance(1, 20) ? gen::bytes(s, gen::length(s, 5000)) : s.pick(items));
  }
  return r;
}

static void c01(Case& c)
{
  static const std::vector<std::shared_ptr<lp::bus::Bus>> busses = {nullptr, std::make_shared<lp::bus::Bus>("one"), std::make_shared<lp::bus::Bus>("one")};
  struct Entry
  {
    std::list<std::string> paths;
    size_t bus;
    std::list<std::string> files;
    lp::PluginManagerConfiguration manager;
    lp::LampPostConfiguration lamppost;
  };
  std::vector<Entry> entries;
  std::vector<std::list<std::string>> paths, files;
  size_t n = 2 + c.s.draw(3);
  for(size_t i = 0; i < n; ++i)
  {
    Entry e;
    e.paths = someList(c.s, paths);
    e.files = someList(c.s, files);
    e.bus = i > 0 && c.s.chance(2, 3) ? entries[0].bus : c.s.draw(busses.size());
    paths.push_back(e.paths);
    files.push_back(e.files);
    if(c.s.flip())
    {
      e.manager = lp::PluginManagerConfiguration(e.paths, busses[e.bus]);
      e.lamppost = lp::LampPostConfiguration(e.manager, e.files);
    }
    else
    {
      e.manager.mTemplateSearchPaths = e.paths;
      e.manager.mBus = busses[e.bus];
      e.lamppost.mPluginManagerConfiguration = e.manager;
      e.lamppost.mConfigurationFiles = e.files;
    }
    c << "configuration " << i << ": bus " << e.bus << ", paths";
    for(auto& p : e.paths)
    {
      c << " " << quote(p, 20);
    }
    c << ", files";
    for(auto& p : e.files)
    {
      c << " " << quote(p, 20);
    }
    c << "; ";
    entries.push_back(e);
  }
  bool same = false, different = false;
  for(size_t i = 0; i < n; ++i)
  {
    for(size_t j = 0; j < n; ++j)
    {
      Entry &a = entries[i], &b = entries[j];
      bool managerEqual = a.paths == b.paths && a.bus == b.bus;
      bool allEqual = managerEqual && a.files == b.files;
      auto which = [&] { return std::to_string(i) + " and " + std::to_string(j); };
      c.checkf((a.manager == b.manager) == managerEqual, [&] { return "plugin manager configurations " + which() + ": equality is wrong"; });
      c.checkf((a.manager != b.manager) == !managerEqual, [&] { return "plugin manager configurations " + which() + ": inequality is wrong"; });
      c.checkf((a.lamppost == b.lamppost) == allEqual, [&] { return "application configurations " + which() + ": equality is wrong"; });
      c.checkf((a.lamppost != b.lamppost) == !allEqual, [&] { return "application configurations " + which() + ": inequality is wrong"; });
      same = same || (i != j && allEqual);
      different = different || !allEqual;
    }
  }
  lp::settings::SettingsManager settings;
  std::list<std::string> added;
  c.check(settings.GetPluginTemplateSearchPaths().empty(), "new settings have search paths");
  bool interleave = c.s.flip();
  for(const std::string& p : entries[0].paths)
  {
    settings.AddPluginTemplateSearchPath(p);
    added.push_back(p);
    if(interleave)
    {
      c.check(settings.GetPluginTemplateSearchPaths() == added, "the settings do not return the search paths added so far in order");
    }
  }
  c.check(settings.GetPluginTemplateSearchPaths() == added, "the settings do not return the added search paths in order");
  c.label(same ? "equal pair" : "no equal pair");
  if(same || (different && !entries[0].paths.empty()))
  {
    c.nontrivial();
  }
}
PBT_PROP({"C01", "2-4 configurations whose lists are equal, prefixes, extensions, reorderings or single-item changes of each other, all pairs compared both ways against list equality; search paths added to the settings; "
                 "non-trivial: an equal pair, or unequal ones with a non-empty list", c01, 200000, 1500000, 20, 0, nullptr});

// ---------------------------------------------------------------------------------------------- U01

static void u01sem(Case& c)
{
  using lp::utilities::Uuid;
  std::vector<Uuid> uuids;
  std::vector<std::string> texts;   // "" if unset
  for(pbt::List l(c.s, 20, 2); l.more();)
  {
    switch(uuids.empty() ? c.s.draw(2) : c.s.draw(5))
    {
      case 0:
        uuids.push_back(Uuid());
        texts.push_back("");
        c << "unset; ";
        break;
      case 1:
        uuids.push_back(Uuid::CreateUuid());
        texts.push_back(static_cast<std::string>(uuids.back()));
        c << "new; ";
        break;
      case 2:
      {
        size_t i = c.s.draw(uuids.size());
        uuids.push_back(Uuid(uuids[i]));
        texts.push_back(texts[i]);
        c << "copy of " << i << "; ";
        break;
      }
      case 3:
      {
        size_t i = c.s.draw(uuids.size()), j = c.s.draw(uuids.size());
        uuids[i] = uuids[j];
        texts[i] = std::string(texts[j]);
        c << i << " = " << j << "; ";
        break;
      }
      default:
      {
        size_t i = c.s.draw(uuids.size());
        Uuid moved(std::move(uuids[i]));
        uuids[i] = moved;
        c << "move " << i << "; ";
        break;
      }
    }
  }
  for(size_t i = 0; i < uuids.size(); ++i)
  {
    c.checkf(static_cast<std::string>(uuids[i]) == texts[i], [&] { return "identifier " + std::to_string(i) + " has the text " + quote(uuids[i]) + " instead of " + quote(texts[i]); });
    std::ostringstream o;
    o << uuids[i];
    c.checkf(o.str() == texts[i], [&] { return "identifier " + std::to_string(i) + " prints as " + quote(o.str()); });
    for(char ch : texts[i])
    {
      c.checkf(ch > 32 && ch < 127, [&] { return "unprintable text " + quote(texts[i]); });
    }
    for(size_t j = 0; j < uuids.size(); ++j)
    {
      c.checkf((uuids[i] == uuids[j]) == (texts[i] == texts[j]), [&] { return "comparison of identifiers " + std::to_string(i) + " (" + texts[i] + ") and " + std::to_string(j) + " (" + texts[j] + ") is wrong"; });
    }
  }
  for(size_t i = 0; i < uuids.size(); ++i)
  {
    Uuid fresh = Uuid::CreateUuid();
    std::string text = fresh;
    c.check(!text.empty(), "an empty identifier was generated");
    c.check(std::find(texts.begin(), texts.end(), text) == texts.end(), "an identifier was generated twice");
    c.check(!(fresh == uuids[i]), "a fresh identifier equals an old one");
  }
  c.nontrivial();
}
PBT_PROP({"U01.semantics", "2-20 identifiers, unset, created, copied, assigned, moved; texts, printing and all pairwise comparisons against their texts; non-trivial: all", u01sem, 30000, 600000, 20, 0, nullptr});

// Uniqueness: identifiers from several threads of several processes in one case, and across all cases of
// the run through a file in the runner's directory is not needed, as one case draws hundreds of thousands.
static void u01unique(Case& c)
{
  using lp::utilities::Uuid;
  size_t processes = 1 + c.s.draw(4), threads = 1 + c.s.draw(6);
  size_t each = 20000 / (processes * threads) + c.s.draw(60000 / (processes * threads));
  size_t before = c.s.draw(3);
  bool together = c.s.flip();
  c << processes << " processes of " << threads << " threads, " << each << " identifiers each, " << before << " before";
  std::vector<std::string> all;
  for(size_t i = 0; i < before; ++i)
  {
    all.push_back(Uuid::CreateUuid());
  }
  auto produce = [&](std::vector<std::string>& into)
  {
    std::vector<std::vector<std::string>> parts(threads);
    std::vector<std::thread> ts;
    for(size_t t = 0; t < threads; ++t)
    {
      ts.emplace_back([&parts, t, each]
      {
        parts[t].reserve(each);
        for(size_t i = 0; i < each; ++i)
        {
          parts[t].push_back(Uuid::CreateUuid());
        }
      });
      if(!together)
      {
        ts.back().join();
      }
    }
    for(std::thread& t : ts)
    {
      if(t.joinable())
      {
        t.join();
      }
    }
    for(auto& p : parts)
    {
      into.insert(into.end(), p.begin(), p.end());
    }
  };
  std::vector<std::pair<pid_t, int>> children;
  for(size_t p = 1; p < processes; ++p)
  {
    int fds[2];
    if(pipe(fds) != 0)
    {
      c.discard();
    }
    pid_t pid = fork();
    if(pid == 0)
    {
      close(fds[0]);
      std::vector<std::string> mine;
      produce(mine);
      FILE* f = fdopen(fds[1], "w");
      for(const std::string& s : mine)
      {
        fprintf(f, "%s\n", s.c_str());
      }
      fclose(f);
      _exit(0);
    }
    close(fds[1]);
    if(pid < 0)
    {
      close(fds[0]);
      continue;
    }
    children.push_back({pid, fds[0]});
  }
  produce(all);
  for(auto& child : children)
  {
    FILE* f = fdopen(child.second, "r");
    char line[4096];
    while(fgets(line, sizeof line, f))
    {
      size_t n = strlen(line);
      all.push_back(std::string(line, n > 0 && line[n - 1] == '\n' ? n - 1 : n));
    }
    fclose(f);
    int status;
    waitpid(child.first, &status, 0);
  }
  std::unordered_set<std::string> seen;
  for(const std::string& s : all)
  {
    c.check(!s.empty(), "an empty identifier was generated");
    for(char ch : s)
    {
      c.checkf(ch > 32 && ch < 127, [&] { return "unprintable identifier " + quote(s); });
    }
    c.checkf(seen.insert(s).second, [&] { return "identifier " + s + " was generated twice among " + std::to_string(all.size()); });
  }
  if(all.size() > 10000)
  {
    c.nontrivial();
  }
}
PBT_PROP({"U01.unique", "20-80 thousand identifiers from 1-6 threads in each of 1-4 processes, all distinct, non-empty, printable; non-trivial: more than 10000", u01unique, 48, 2000, 60, pbt::RealThreads, nullptr});
