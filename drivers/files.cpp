// Paths and file operations. Everything happens in the scratch directory the runner starts the driver in, as an
// unprivileged user when the runner is root, so that a wrong path cannot reach anything else.
#include "vt.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/stat.h>
#include <sys/xattr.h>
#include <memory>
using namespace jm;

static std::string root;
static bool tagsWork;

static std::string text(const String& s)
{
   ByteArray b = s.toCString();
   return std::string(b.constData(), (size_t)b.size());
}
// Half of the paths are absolute, half relative to the current directory
static bool absolute(const vt::Arg& a) {return a.v.size() % 2 == 0;}
static String path(const vt::Arg& a) {return absolute(a) ? String((root + "/").c_str()) + vt::str(a) : vt::str(a);}
static String raw(const vt::Arg& a) {return String((root + "/").c_str()) + vt::str(a);}
static std::string rel(const String& s)
{
   std::string t = text(s);
   if(t.compare(0, root.size() + 1, root + "/") == 0)return vt::JS(String(t.substr(root.size() + 1).c_str()));
   return vt::JS(s);
}
static bool isDir(const File& f)
{
   struct stat st;
   return stat(text(f.absolutePath()).c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}
static void wipe(const std::string& dir)
{
   if(DIR* p = opendir(dir.c_str()))
   {
      while(dirent* e = readdir(p))
      {
         std::string n = e->d_name, f = dir + "/" + n;
         if(n == "." || n == "..")continue;
         struct stat st;
         if(lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
         {
            wipe(f);
            rmdir(f.c_str());
         }
         else unlink(f.c_str());
      }
      closedir(p);
   }
}
static std::string comps(const std::string& r)
{
   std::string out = "[", cur;
   bool first = true;
   for(size_t i = 0; i <= r.size(); i++)
   {
      if(i == r.size() || r[i] == '/')
      {
         if(cur.size())
         {
            out += std::string(first ? "" : ",") + vt::JS(String(cur.c_str()));
            first = false;
         }
         cur = "";
      }
      else cur += r[i];
   }
   return out + "]";
}
static void walk(const std::string& at, std::vector<std::string>& out)
{
   std::string dir = at.empty() ? root : root + "/" + at;
   if(DIR* p = opendir(dir.c_str()))
   {
      while(dirent* e = readdir(p))
      {
         std::string n = e->d_name;
         if(n == "." || n == "..")continue;
         std::string r = at.empty() ? n : at + "/" + n, f = root + "/" + r;
         struct stat st;
         if(lstat(f.c_str(), &st) != 0)continue;
         std::string node;
         if(S_ISDIR(st.st_mode))node = "[\"d\"]";
         else if(S_ISFIFO(st.st_mode))node = "[\"p\"]";
         else if(S_ISLNK(st.st_mode))
         {
            char b[4096];
            ssize_t k = readlink(f.c_str(), b, sizeof b);
            node = "[\"l\"," + comps(std::string(b + root.size(), (size_t)k - root.size())) + "]";
         }
         else
         {
            std::string s;
            if(FILE* h = fopen(f.c_str(), "rb"))
            {
               int c;
               while((c = fgetc(h)) != EOF)s += (char)c;
               fclose(h);
            }
            node = "[\"f\"," + vt::JB(s) + "]";
         }
         out.push_back("[" + comps(r) + "," + node + "]");
         if(S_ISDIR(st.st_mode))walk(r, out);
      }
      closedir(p);
   }
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   root = getenv("VT_SCRATCH");
   if(chdir(root.c_str()) != 0)return 2;
   vt::Driver d;
   d.opened = []
   {
      if(geteuid() == 0 && (setgroups(0, nullptr) != 0 || setgid(65534) != 0 || setuid(65534) != 0))exit(2);
      FILE* f = fopen("probe", "wb");
      if(!f)exit(2);
      fclose(f);
      tagsWork = setxattr("probe", "user.xdg.tags", "a", 1, 0) == 0;
      unlink("probe");
   };
   std::string none = "[]";
   typedef const vt::Args& A;
   d.obs = []
   {
      std::vector<std::string> o;
      walk("", o);
      return vt::J(o);
   };
   d.ops["new"] = [&](A) {wipe(root); return none;};
   auto about = [](const File& f)
   {
      return "[" + vt::JS(f.absolutePath()) + "," + vt::JS(f.name()) + "," + vt::JS(f.parent()) + "," +
             vt::JS(f.extension()) + "," + vt::J(f.isAbsolute()) + "]";
   };
   d.ops["path"] = [&](A a)
   {
      File f(vt::str(a[0])), g, h(f);
      if(g.isNull() != true || f.isNull() != (a[0].v.size() == 0))abort();
      g = f;
      if(!g.path().equals(f.path()) || !h.absolutePath().equals(f.path()))abort();
      return about(g);
   };
   d.ops["hidden"] = [&](A a) {return "[" + vt::J(File(vt::str(a[0])).isHidden()) + "]";};
   d.ops["join"] = [&](A a) {return about(File(vt::str(a[0]), vt::str(a[1])));};
   d.ops["joinfile"] = [&](A a) {return about(File(File(vt::str(a[0])), vt::str(a[1])));};
   d.ops["mknode"] = [&](A a)
   {
      std::string p = text(File(raw(a[0])).absolutePath()), k = a[1].v[0].s;
      int r = 0;
      if(k == "d")r = mkdir(p.c_str(), 0755);
      else if(k == "p")r = mkfifo(p.c_str(), 0644);
      else if(k == "l")
      {
         String t(root.c_str());
         for(auto& c : a[1].v[1].v)t = t + String("/") + vt::str(c);
         r = symlink(text(t).c_str(), p.c_str());
      }
      else
      {
         std::string b = vt::bytes(a[1].v[1]);
         FILE* f = fopen(p.c_str(), "wb");
         if(!f)exit(2);
         fwrite(b.data(), 1, b.size(), f);
         fclose(f);
      }
      if(r != 0)exit(2);
      return none;
   };
   d.ops["create"] = [&](A a) {return "[" + vt::J(File(path(a[0])).createNewFile()) + "]";};
   d.ops["mkdir"] = [&](A a) {return "[" + vt::J(File(path(a[0])).makeDirectory()) + "]";};
   d.ops["remove"] = [&](A a) {return "[" + vt::J(File(path(a[0])).remove()) + "]";};
   d.ops["rename"] = [&](A a)
   {
      File f(path(a[0]));
      bool ok = f.renameTo(path(a[1]));
      return "[" + vt::J(ok) + "," + rel(f.absolutePath()) + "]";
   };
   d.ops["about"] = [&](A a)
   {
      File f(path(a[0]));
      return "[" + vt::J(f.exists()) + "," + vt::J(f.isFile()) + "," + vt::J(f.isDirectory()) + "," + vt::J(f.isLink()) + "," +
             vt::J(f.isPipe()) + "," + vt::J(f.canRead()) + "," + vt::J(f.canWrite()) + "]";
   };
   d.ops["size"] = [&](A a)
   {
      File f(path(a[0]));
      return "[" + vt::J(isDir(f) ? 0 : f.size()) + "]";
   };
   d.ops["list"] = [&](A a)
   {
      Array<File>* l = File(path(a[0])).listFiles();
      if(!l)return none;
      std::vector<std::string> o;
      for(int64 i = 0; i < l->size(); i++)o.push_back(rel(l->get(i).absolutePath()));
      delete l;
      return "[" + vt::J(o) + "]";
   };
   d.ops["open"] = [&](A a)
   {
      File f(path(a[0]));
      Status s = f.open(a[1].s == "r" ? FileMode::kRead : a[1].s == "w" ? FileMode::kWrite : FileMode::kReadWrite);
      if(f.isOpen() != (s == Status::eOK))abort();
      if(f.isOpen())f.close();
      std::string n = s == Status::eOK ? "ok" : s == Status::eNotFound ? "notfound" : s == Status::eNoDirectory ? "nodirectory" : "other";
      return "[\"" + n + "\"]";
   };
   d.ops["mtime"] = [&](A a)
   {
      std::string p = text(File(raw(a[0])).absolutePath());
      timespec t[2] = {{a[1].i, a[2].i * 1000000L + 999999L}, {a[1].i, a[2].i * 1000000L + 999999L}};
      if(utimensat(AT_FDCWD, p.c_str(), t, 0) != 0)exit(2);
      int64 ms = File(path(a[0])).lastModified().time();
      int64 s = ms >= 0 ? ms / 1000 : -((999 - ms) / 1000);
      return "[" + vt::J(s) + "," + vt::J(ms - s * 1000) + "]";
   };
   d.ops["compare"] = [&](A a)
   {
      int32 r = File(raw(a[0])).compareTo(File(raw(a[1])));
      return "[" + vt::J(r < 0 ? -1 : r > 0 ? 1 : 0) + "]";
   };
   auto tags = [](const vt::Arg& a, Status s)
   {
      StringList l = File(path(a)).getTags();
      std::vector<std::string> o;
      for(int64 i = 0; i < l.size(); i++)o.push_back(vt::JS(l[i]));
      return std::string("[\"") + (s == Status::eOK ? "ok" : "failed") + "\"," + vt::J(o) + "]";
   };
   std::string no = "[\"none\"]";
   d.ops["tags"] = [&](A a) {return tagsWork ? tags(a[0], Status::eOK) : no;};
   d.ops["addtag"] = [&](A a) {return tagsWork ? tags(a[0], File(path(a[0])).addTag(vt::str(a[1]))) : no;};
   d.ops["deltag"] = [&](A a) {return tagsWork ? tags(a[0], File(path(a[0])).removeTag(vt::str(a[1]))) : no;};
   return d.run(argc, argv);
}
