// Generators shared by the harnesses.
#ifndef LPBT_GEN_H
#define LPBT_GEN_H

#include <lpbt.h>

namespace gen
{
  using pbt::Src;

  // A length: mostly small, often around the sizes where representations change, sometimes large.
  inline size_t length(Src& s, size_t max)
  {
    static const std::vector<size_t> edges = {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097};
    static const std::vector<size_t> large = {8191, 8192, 10000, 16384, 20000, 32767, 32768, 65535, 65536, 65537, 100000, 131072, 200000, 1048576};
    size_t r;
    switch(s.weighted({60, 25, 12, 2, 1}))
    {
      case 0: r = s.draw(8); break;
      case 1: r = s.draw(40); break;
      case 2: r = s.pick(edges); break;
      case 3: r = s.draw(3000); break;
      default: r = s.pick(large); break;
    }
    return r > max ? max : r;
  }

  // Arbitrary bytes; long ones repeat a short block with a few changed places, so that they stay cheap.
  inline std::string bytes(Src& s, size_t n)
  {
    std::string r;
    size_t block = n < 24 ? n : 24;
    unsigned style = (unsigned)s.draw(4);
    for(size_t i = 0; i < block; ++i)
    {
      switch(style)
      {
        case 0: r += (char)('a' + s.draw(26)); break;
        case 1: r += (char)(32 + s.draw(95)); break;
        case 2: r += (char)s.draw(256); break;
        default: r += (char)"ab/\0\"\\\n\x80\xff .*"[s.draw(13)]; break;
      }
    }
    if(n > block)
    {
      std::string first = r;
      r.reserve(n);
      while(r.size() < n)
      {
        r.append(first, 0, std::min(first.size(), n - r.size()));
      }
      for(unsigned k = (unsigned)s.draw(3); k > 0; --k)
      {
        r[s.draw(n)] = (char)s.draw(256);
      }
    }
    return r;
  }

  inline void utf8(std::string& r, uint32_t c)
  {
    if(c < 0x80)
    {
      r += (char)c;
    }
    else if(c < 0x800)
    {
      r += (char)(0xc0 | (c >> 6));
      r += (char)(0x80 | (c & 63));
    }
    else if(c < 0x10000)
    {
      r += (char)(0xe0 | (c >> 12));
      r += (char)(0x80 | ((c >> 6) & 63));
      r += (char)(0x80 | (c & 63));
    }
    else
    {
      r += (char)(0xf0 | (c >> 18));
      r += (char)(0x80 | ((c >> 12) & 63));
      r += (char)(0x80 | ((c >> 6) & 63));
      r += (char)(0x80 | (c & 63));
    }
  }

  inline uint32_t codepoint(Src& s)
  {
    static const std::vector<uint32_t> special = {0, 1, 7, 8, 9, 10, 12, 13, 27, 31, '"', '\\', '/', 127, 0x80, 0xff, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff};
    switch(s.weighted({10, 5, 2, 1}))
    {
      case 0: return 'a' + (uint32_t)s.draw(26);
      case 1: return 32 + (uint32_t)s.draw(95);
      case 2: return s.pick(special);
      default:
      {
        uint32_t c = (uint32_t)s.draw(0x110000);
        return c >= 0xd800 && c < 0xe000 ? c - 0x1000 : c;
      }
    }
  }

  // A text that differs from t in one small way (or, rarely, not at all).
  inline std::string nearMiss(Src& s, const std::string& t)
  {
    std::string r = t;
    switch(s.draw(12))
    {
      case 0: r += '/'; break;
      case 1: r += (char)s.draw(256); break;
      case 2: r.insert(0, 1, '/'); break;
      case 3: r.insert(0, 1, (char)s.draw(256)); break;
      case 4:
        if(!r.empty())
        {
          r.pop_back();
        }
        break;
      case 5:
        if(!r.empty())
        {
          r.erase(0, 1);
        }
        break;
      case 6:
        if(!r.empty())
        {
          size_t i = s.draw(r.size());
          r[i] = (char)(r[i] ^ 0x20);
        }
        break;
      case 7:
        if(!r.empty())
        {
          r[s.draw(r.size())] = (char)s.draw(256);
        }
        break;
      case 8: r.insert(s.draw(r.size() + 1), 1, "/*? \0"[s.draw(5)]); break;
      case 9:
      {
        // Another segment.
        size_t i = r.find('/', s.draw(r.size() + 1));
        static const std::vector<std::string> seg = {"*", "**", "?", "x", "", "."};
        if(i != std::string::npos)
        {
          size_t j = r.find('/', i + 1);
          r.replace(i + 1, (j == std::string::npos ? r.size() : j) - i - 1, s.pick(seg));
        }
        break;
      }
      case 10: r += t; break;
      default:
        if(!r.empty())
        {
          r.resize(s.draw(r.size()));
        }
        break;
    }
    return r;
  }
} // namespace gen

#endif
