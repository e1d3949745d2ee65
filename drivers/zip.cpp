// Archives, in the scratch directory the runner starts the driver in.
#include "vt.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <memory>
using namespace jm;

static std::string root;
static std::string paths[4];
struct Slot
{
   File* file = nullptr;
   ZipOutputFile* out = nullptr;
   std::vector<ZipEntry*> put;
   Stream* in = nullptr;
   uint8* mem = nullptr;
   ZipFile* zip = nullptr;
   std::vector<ZipEntry*> entries;
};
static Slot slot[4];

static std::string slurp(const std::string& p)
{
   std::string r;
   if(FILE* f = fopen(p.c_str(), "rb"))
   {
      char c[4096];
      size_t n;
      while((n = fread(c, 1, sizeof c, f)) > 0)r.append(c, n);
      fclose(f);
   }
   return r;
}
static void spit(const std::string& p, const std::string& s)
{
   FILE* f = fopen(p.c_str(), "wb");
   if(s.size())fwrite(s.data(), 1, s.size(), f);
   fclose(f);
}
static void endRead(int v)
{
   Slot& s = slot[v];
   if(s.zip)
   {
      s.zip->close();
      s.zip->release();
   }
   if(s.in)s.in->release();
   delete[] s.mem;
   s.zip = nullptr;
   s.in = nullptr;
   s.mem = nullptr;
   s.entries.clear();
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   root = getenv("VT_SCRATCH");
   if(chdir(root.c_str()) != 0)return 2;
   mkdir("sub", 0755);
   paths[1] = root + "/one.zip";
   paths[2] = "two.zip";
   paths[3] = root + "/sub/three.zip";
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   auto names = [](const std::string& dir, std::vector<std::string>& out)
   {
      DIR* p = opendir(dir.c_str());
      while(dirent* e = readdir(p))
      {
         std::string n = e->d_name;
         if(n[0] == '.' || n.find(".zip") != std::string::npos || n == "sub" || n.find(".script") != std::string::npos)continue;
         out.push_back("[\"" + n + "\"," + vt::JB(slurp(dir + "/" + n)) + "]");
      }
      closedir(p);
   };
   d.obs = [&]
   {
      std::vector<std::string> o;
      names(root, o);
      names(root + "/sub", o);
      return vt::J(o);
   };
   d.ops["new"] = [&](A)
   {
      for(int v = 1; v < 4; v++)
      {
         endRead(v);
         if(slot[v].file && slot[v].file->isOpen())slot[v].file->close();
         slot[v] = Slot();
         unlink(paths[v].c_str());
      }
      for(std::string dir :{root, root + "/sub"})
      {
         DIR* p = opendir(dir.c_str());
         while(dirent* e = readdir(p))
         {
            std::string n = e->d_name;
            if(n[0] != '.' && n != "sub" && n.find(".script") == std::string::npos)unlink((dir + "/" + n).c_str());
         }
         closedir(p);
      }
      return none;
   };
   d.ops["user"] = [&](A a) {spit(root + "/" + a[0].s, vt::bytes(a[1])); return none;};
   d.ops["wopen"] = [&](A a)
   {
      Slot& s = slot[a[0].i];
      s.file = new File(String(paths[a[0].i].c_str()));
      s.out = new ZipOutputFile(s.file);
      s.out->open();
      return none;
   };
   d.ops["put"] = [&](A a)
   {
      Slot& s = slot[a[0].i];
      ZipEntry* e = new ZipEntry(vt::str(a[1]));
      s.put.push_back(e);
      s.out->putNextEntry(e);
      return none;
   };
   d.ops["write"] = [&](A a)
   {
      std::string b = vt::bytes(a[1]);
      std::unique_ptr<uint8[]> p(new uint8[b.size() + 1]);
      std::copy(b.begin(), b.end(), p.get());
      slot[a[0].i].out->write(p.get(), a[2].i, a[3].i);
      return none;
   };
   d.ops["closeentry"] = [&](A a) {slot[a[0].i].out->closeEntry(); return none;};
   d.ops["writefile"] = [&](A a)
   {
      std::string p = root + "/source.zip.data";
      spit(p, vt::bytes(a[1]));
      File f(String(p.c_str()));
      slot[a[0].i].out->writeAndClose(&f);
      unlink(p.c_str());
      return none;
   };
   d.ops["wclose"] = [&](A a)
   {
      Slot& s = slot[a[0].i];
      s.out->close();
      s.out->release();
      s.file->release();
      for(auto e : s.put)e->release();
      s.put.clear();
      s.out = nullptr;
      s.file = nullptr;
      return "[" + vt::JB(slurp(paths[a[0].i])) + "]";
   };
   d.ops["load"] = [&](A a) {spit(paths[a[0].i], vt::bytes(a[1])); return none;};
   d.ops["ropen"] = [&](A a)
   {
      Slot& s = slot[a[0].i];
      if(s.zip)s.zip->close();
      else if(a[1].i)
      {
         std::string b = slurp(paths[a[0].i]);
         s.mem = new uint8[b.size()];
         std::copy(b.begin(), b.end(), s.mem);
         s.in = new MemoryStream(s.mem, (int64)b.size());
      }
      else s.in = new File(String(paths[a[0].i].c_str()));
      if(!s.zip)s.zip = new ZipFile(s.in);
      s.entries.clear();
      std::vector<std::string> o;
      try
      {
         s.zip->open();
         LinkedListIterator it = s.zip->entryIterator();
         while(it.hasNext())
         {
            ZipEntry* e = static_cast<ZipEntry*>(it.next());
            s.entries.push_back(e);
            o.push_back("[" + vt::JS(e->name()) + "," + vt::J(std::min<int64>(e->uncompressedSize(), 1 << 30)) + "," + vt::J(e->isDirectory()) + "]");
         }
         if(s.zip->entryCount() != s.entries.size())abort();
      }
      catch(...)
      {
         endRead((int)a[0].i);
         throw;
      }
      return "[" + vt::J(o) + "," + vt::JS(s.zip->comment()) + "]";
   };
   d.ops["find"] = [&](A a)
   {
      Slot& s = slot[a[0].i];
      ZipEntry* e = s.zip->entry(vt::str(a[1]));
      long long k = 0;
      for(size_t i = 0; i < s.entries.size(); i++)if(s.entries[i] == e)k = (long long)i + 1;
      if(e && !k)abort();
      return "[" + vt::J(k) + "]";
   };
   d.ops["read"] = [&](A a)
   {
      Slot& s = slot[a[0].i];
      size_t k = (size_t)a[1].i;
      Stream* st = s.zip->stream(k > s.entries.size() ? nullptr : s.entries[k - 1]);
      if(!st)return none;
      ByteArray b(st->size(), 0);
      if(st->Stream::readFully(b) != st->size())abort();
      std::string r((const char*)b.constData(), (size_t)b.size());
      st->release();
      return "[" + vt::JB(r) + "]";
   };
   d.ops["tryread"] = [&](A a) {return slot[a[0].i].zip ? d.ops["read"](a) : none;};
   d.ops["tryclose"] = [&](A a) {endRead((int)a[0].i); return none;};
   d.ops["rclose"] = [&](A a) {endRead((int)a[0].i); return none;};
   return d.run(argc, argv);
}
