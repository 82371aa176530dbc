// F01: file system queries against what was created.
#include <gen.h>

#include <algorithm>
#include <fcntl.h>
#include <grp.h>
#include <map>
#include <set>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

#include <lamppost/Filesystem.h>

using lp::Filesystem;
using lp::FilesystemObjectType;
using pbt::Case;
using pbt::quote;

namespace
{
  // Leaves root's privileges, so that permissions matter; where that is not possible, they just do not.
  void dropPrivileges()
  {
    if(getuid() == 0)
    {
      std::string dir = Case::scratch();
      if(chown(dir.c_str(), 65534, 65534) == 0 && setgroups(0, nullptr) == 0 && setgid(65534) == 0)
      {
        if(setuid(65534) != 0)
        {
        }
      }
    }
    umask(0);
  }

  const std::vector<std::string>& names()
  {
    static const std::vector<std::string> n = {"a", "b", "file.txt", ".hidden", "...", "..x", "-", " ", "a\nb", "*", "\xc3\xa4", "\xff", "A", "a.b.c", "lib.so", "x ", "~", "\\", "..hidden", ".", "dir", "sub"};
    return n;
  }

  enum Kind { File, Dir, Fifo, Socket, LinkFile, LinkDir, LinkDangling, LinkLoop, LinkUp, LinkSelf, Unreadable, Executable };
  const char* cKinds[] = {"file", "directory", "fifo", "socket", "link to a file", "link to a directory", "dangling link", "link loop", "link to the parent", "link to itself", "file without permissions", "executable"};

  struct Tree
  {
    Case& c;
    std::string root, outside;
    std::map<std::string, std::set<std::string>> dirs;   // relative directory -> names

    explicit Tree(Case& c_) : c(c_)
    {
      root = Case::scratch() + "/t";
      outside = Case::scratch() + "/o";
      remove(root);
      remove(outside);
      mkdir(root.c_str(), 0755);
      mkdir(outside.c_str(), 0755);
      mkdir((outside + "/directory").c_str(), 0755);
      touch(outside + "/file", 0644);
      touch(outside + "/directory/inner", 0644);
      dirs[""];
    }

    ~Tree()
    {
      remove(root);
      remove(outside);
    }

    static void touch(const std::string& p, int mode)
    {
      int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, mode);
      if(fd >= 0)
      {
        close(fd);
      }
    }

    // Only within the scratch directory.
    static void remove(const std::string& p)
    {
      if(p.compare(0, Case::scratch().size() + 1, Case::scratch() + "/") != 0)
      {
        return;
      }
      struct stat st;
      if(lstat(p.c_str(), &st) != 0)
      {
        return;
      }
      if(!S_ISDIR(st.st_mode))
      {
        unlink(p.c_str());
        return;
      }
      chmod(p.c_str(), 0755);
      std::vector<std::string> inner;
      if(DIR* d = opendir(p.c_str()))
      {
        while(dirent* e = readdir(d))
        {
          if(strcmp(e->d_name, ".") != 0 && strcmp(e->d_name, "..") != 0)
          {
            inner.push_back(e->d_name);
          }
        }
        closedir(d);
      }
      for(const std::string& n : inner)
      {
        remove(p + "/" + n);
      }
      rmdir(p.c_str());
    }

    std::string at(const std::string& dir) const { return dir.empty() ? root : root + "/" + dir; }

    void create(const std::string& dir, const std::string& name, Kind k)
    {
      std::string p = at(dir) + "/" + name;
      bool ok = true;
      switch(k)
      {
        case File: touch(p, 0644); break;
        case Executable: touch(p, 0755); break;
        case Unreadable: touch(p, 0); break;
        case Dir:
          ok = mkdir(p.c_str(), 0755) == 0;
          if(ok)
          {
            dirs[dir.empty() ? name : dir + "/" + name];
          }
          break;
        case Fifo: ok = mkfifo(p.c_str(), 0644) == 0; break;
        case Socket:
        {
          int fd = socket(AF_UNIX, SOCK_DGRAM, 0);
          sockaddr_un a = {};
          a.sun_family = AF_UNIX;
          ok = p.size() < sizeof a.sun_path;
          if(ok)
          {
            memcpy(a.sun_path, p.c_str(), p.size());
            ok = bind(fd, (sockaddr*)&a, sizeof a) == 0;
          }
          close(fd);
          break;
        }
        case LinkFile: ok = symlink((outside + "/file").c_str(), p.c_str()) == 0; break;
        case LinkDir: ok = symlink((outside + "/directory").c_str(), p.c_str()) == 0; break;
        case LinkDangling: ok = symlink((outside + "/missing").c_str(), p.c_str()) == 0; break;
        case LinkLoop: ok = symlink("/proc/self/cwd/../nowhere-at-all/x", p.c_str()) == 0; break;
        case LinkUp: ok = symlink("..", p.c_str()) == 0; break;
        case LinkSelf: ok = symlink(name.c_str(), p.c_str()) == 0; break;
      }
      if(ok)
      {
        dirs[dir].insert(name);
      }
    }

    void destroy(const std::string& dir, const std::string& name)
    {
      remove(at(dir) + "/" + name);
      dirs[dir].erase(name);
      std::string d = dir.empty() ? name : dir + "/" + name;
      for(auto i = dirs.begin(); i != dirs.end();)
      {
        if(i->first == d || i->first.compare(0, d.size() + 1, d + "/") == 0)
        {
          i = dirs.erase(i);
        }
        else
        {
          ++i;
        }
      }
    }
  };

  void query(Case& c, const std::string& p)
  {
    struct stat st;
    bool exists = fstatat(AT_FDCWD, p.c_str(), &st, 0) == 0;
    bool file = exists && (st.st_mode & S_IFMT) == S_IFREG, dir = exists && (st.st_mode & S_IFMT) == S_IFDIR;
    c.checkf(Filesystem::PathExists(p) == exists, [&] { return quote(p, 300) + (exists ? " exists, but is reported missing" : " does not exist, but is reported to"); });
    c.checkf(Filesystem::IsFile(p) == file, [&] { return quote(p, 300) + (file ? " is a file, but not reported as one" : " is no file, but reported as one"); });
    c.checkf(Filesystem::IsDirectory(p) == dir, [&] { return quote(p, 300) + (dir ? " is a directory, but not reported as one" : " is no directory, but reported as one"); });
  }

  void list(Case& c, const std::string& p, const std::set<std::string>& names)
  {
    bool readable = false;
    int fd = open(p.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    std::vector<std::string> files, directories, any;
    if(fd >= 0)
    {
      readable = true;
      for(const std::string& n : names)
      {
        struct stat st;
        if(fstatat(fd, n.c_str(), &st, 0) == 0)
        {
          if((st.st_mode & S_IFMT) == S_IFREG)
          {
            files.push_back(n);
            any.push_back(n);
          }
          if((st.st_mode & S_IFMT) == S_IFDIR)
          {
            directories.push_back(n);
            any.push_back(n);
          }
        }
      }
      close(fd);
    }
    unsigned first = (unsigned)c.s.draw(3);
    for(unsigned k = 0; k < 3; ++k)
    {
      unsigned i = (first + k) % 3;
      FilesystemObjectType filter = i == 0 ? FilesystemObjectType::Any : i == 1 ? FilesystemObjectType::File : FilesystemObjectType::Directory;
      std::vector<std::string>& expected = i == 0 ? any : i == 1 ? files : directories;
      std::list<std::string> got = Filesystem::GetDirectoryContents(p, filter);
      std::vector<std::string> sorted(got.begin(), got.end());
      std::sort(sorted.begin(), sorted.end());
      std::sort(expected.begin(), expected.end());
      if(!expected.empty())
      {
        c.nontrivial();
      }
      if(sorted != expected)
      {
        std::string m = "listing " + std::string(i == 0 ? "everything" : i == 1 ? "files" : "directories") + " in " + quote(p, 200) + (readable ? "" : " (which cannot be listed)") + " gives " + std::to_string(sorted.size()) + " names instead of " + std::to_string(expected.size());
        std::vector<std::string> x, y;
        std::set_difference(sorted.begin(), sorted.end(), expected.begin(), expected.end(), std::back_inserter(x));
        std::set_difference(expected.begin(), expected.end(), sorted.begin(), sorted.end(), std::back_inserter(y));
        for(size_t n = 0; n < x.size() && n < 5; ++n)
        {
          m += "; wrongly " + quote(x[n], 60);
        }
        for(size_t n = 0; n < y.size() && n < 5; ++n)
        {
          m += "; without " + quote(y[n], 60);
        }
        c.fail(m);
      }
    }
  }
} // namespace

static void f01(Case& c)
{
  Tree t(c);
  int before = open("/dev/null", O_RDONLY);
  close(before);
  static const std::set<std::string> inner = {"inner"}, none;

  auto somewhere = [&]() -> std::string {
    auto i = t.dirs.begin();
    std::advance(i, c.s.draw(t.dirs.size()));
    return i->first;
  };
  auto newName = [&]() -> std::string {
    switch(c.s.weighted({8, 2, 1}))
    {
      case 0: return c.s.pick(names());
      case 1: return "n" + std::to_string(c.s.draw(100));
      default:
      {
        std::string n = gen::bytes(c.s, 1 + c.s.draw(255));
        for(char& ch : n)
        {
          if(ch == '/' || ch == 0)
          {
            ch = '_';
          }
        }
        return n;
      }
    }
  };
  auto check = [&](const std::string& dir, const std::string& name) {
    std::string p = t.at(dir) + "/" + name;
    query(c, p);
    switch(c.s.draw(8))
    {
      case 0: query(c, p + "/"); break;
      case 1: query(c, p + "/."); break;
      case 2: query(c, p + "/.."); break;
      case 3: query(c, p + "/inner"); break;
      case 4: query(c, p + gen::bytes(c.s, 1 + c.s.draw(3)).c_str()); break;
      case 5: query(c, t.at(dir) + "//" + name); break;
      case 6: query(c, t.at(dir) + "/./" + name); break;
      default: break;
    }
  };

  for(pbt::List l(c.s, 40, 1); l.more();)
  {
    std::string dir = somewhere();
    switch(c.s.weighted({12, 3, 3, 4, 1, 1, 1, 1}))
    {
      case 0:
      {
        std::string n = newName();
        Kind k = (Kind)c.s.draw(12);
        if(n != "." && !t.dirs[dir].count(n) && t.at(dir).size() + n.size() < 3500)
        {
          c << "create " << cKinds[k] << " " << quote(dir, 30) << "/" << quote(n, 30) << "; ";
          t.create(dir, n, k);
          check(dir, n);
        }
        break;
      }
      case 1:
        if(!t.dirs[dir].empty())
        {
          auto i = t.dirs[dir].begin();
          std::advance(i, c.s.draw(t.dirs[dir].size()));
          std::string n = *i;
          c << "remove " << quote(dir, 30) << "/" << quote(n, 30) << "; ";
          t.destroy(dir, n);
          check(dir, n);
          if(c.s.flip())
          {
            Kind k = (Kind)c.s.draw(12);
            c << "create in its place " << cKinds[k] << "; ";
            t.create(dir, n, k);
            check(dir, n);
          }
        }
        break;
      case 2:
        if(!t.dirs[dir].empty())
        {
          auto i = t.dirs[dir].begin();
          std::advance(i, c.s.draw(t.dirs[dir].size()));
          c << "query " << quote(dir, 30) << "/" << quote(*i, 30) << "; ";
          check(dir, *i);
          // List it, whatever it is.
          std::string d = dir.empty() ? *i : dir + "/" + *i;
          struct stat a, b;
          const std::set<std::string>* expected = t.dirs.count(d) ? &t.dirs[d] : &none;
          if(stat(t.at(d).c_str(), &a) == 0 && stat((t.outside + "/directory").c_str(), &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev)
          {
            expected = &inner;
          }
          struct stat ls;
          if(lstat(t.at(d).c_str(), &ls) == 0 && (!S_ISLNK(ls.st_mode) || expected == &inner || stat(t.at(d).c_str(), &a) != 0 || !S_ISDIR(a.st_mode)))
          {
            list(c, t.at(d), *expected);
          }
        }
        break;
      case 3:
        c << "list " << quote(dir, 40) << "; ";
        list(c, t.at(dir) + (c.s.chance(1, 4) ? "/" : ""), t.dirs[dir]);
        break;
      case 4:
      {
        // Many entries.
        size_t n = c.s.chance(1, 8) ? 300 + c.s.draw(1500) : 20 + c.s.draw(150);
        c << n << " more in " << quote(dir, 40) << "; ";
        Kind k = c.s.flip() ? File : c.s.flip() ? LinkFile : Fifo;
        for(size_t i = 0; i < n; ++i)
        {
          std::string name = "many" + std::to_string(i);
          if(!t.dirs[dir].count(name))
          {
            t.create(dir, name, i % 7 == 0 ? LinkDir : k);
          }
        }
        break;
      }
      case 5:
      {
        // Missing and odd paths.
        static const std::vector<std::string> odd = {"", "/", ".", "..", "/missing", "/dev/null", "/dev/null/x", "/proc/self/exe", "missing", "//", "/dev", "/proc/self/fd/999", "./", "../"};
        std::string p = c.s.flip() ? c.s.pick(odd) : c.s.flip() ? t.at(dir) + "/" + std::string(256 + c.s.draw(4000), 'x') : t.at(dir) + "/missing" + std::to_string(c.s.draw(10));
        c << "query " << quote(p, 60) << "; ";
        query(c, p);
        struct stat st;
        if(stat(p.c_str(), &st) != 0 || !S_ISDIR(st.st_mode))
        {
          list(c, p, none);
        }
        break;
      }
      case 6:
      {
        int mode = (int)c.s.pick(std::vector<int>{0, 0444, 0111, 0755, 0333});
        if(!dir.empty())
        {
          c << "mode of " << quote(dir, 40) << " " << mode << "; ";
          chmod(t.at(dir).c_str(), (mode_t)mode);
          query(c, t.at(dir));
          for(const std::string& n : t.dirs[dir])
          {
            query(c, t.at(dir) + "/" + n);
          }
          list(c, t.at(dir), t.dirs[dir]);
          chmod(t.at(dir).c_str(), 0755);
        }
        break;
      }
      default:
      {
        // Rename.
        std::string to = newName();
        if(!t.dirs[dir].empty() && to != "." && !t.dirs[dir].count(to) && t.at(dir).size() + to.size() < 3500)
        {
          auto i = t.dirs[dir].begin();
          std::advance(i, c.s.draw(t.dirs[dir].size()));
          std::string from = *i, d = dir.empty() ? from : dir + "/" + from;
          if(!t.dirs.count(d) && rename((t.at(dir) + "/" + from).c_str(), (t.at(dir) + "/" + to).c_str()) == 0)
          {
            c << "rename " << quote(dir, 30) << "/" << quote(from, 30) << " to " << quote(to, 30) << "; ";
            t.dirs[dir].erase(from);
            t.dirs[dir].insert(to);
            check(dir, from);
            check(dir, to);
          }
        }
        break;
      }
    }
  }
  for(auto& d : t.dirs)
  {
    list(c, t.at(d.first), d.second);
  }
  int after = open("/dev/null", O_RDONLY);
  close(after);
  c.check(after == before, "the queries left files open; listing will fail once there are too many");
}

PBT_PROP({"F01", "trees of files, directories, fifos, sockets and links (to files, directories, nothing, themselves, upwards), odd and long names, directories of up to 1800 entries, permissions (as an unprivileged user where possible), "
                 "in sequences of up to 40 creations, removals, replacements, renames, queries with path variants and listings with all filters; oracle: what was created and fstatat; non-trivial: a listing that is not empty", f01, 3000, 800000, 60, 0, dropPrivileges});
