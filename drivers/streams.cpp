// File and memory streams, in the scratch directory the runner starts the driver in.
#include "vt.hpp"
#include <memory>
using namespace jm;

static std::string root;
static File* file[4];
static MemoryStream* mem[4];
static uint8* buf[4];
static size_t len[4];
static std::string path(long long p) {return root + "/f" + std::to_string(p) + ".bin";}

static Stream* S(long long v) {return file[v] ? (Stream*)file[v] : (Stream*)mem[v];}
static void drop(long long v)
{
   if(file[v])
   {
      if(file[v]->isOpen())file[v]->close();
      file[v]->release();
   }
   if(mem[v])
   {
      mem[v]->release();
      if(v % 2)delete[] buf[v];
   }
   file[v] = nullptr;
   mem[v] = nullptr;
   buf[v] = nullptr;
   len[v] = 0;
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   root = getenv("VT_SCRATCH");
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   d.obs = []
   {
      std::vector<std::string> a, b, c;
      for(int v = 1; v < 4; v++)
      {
         if(file[v] && !file[v]->isOpen())a.push_back("[0]");
         else if(S(v))a.push_back("[" + vt::J(S(v)->isOpen()) + "," + vt::J(S(v)->position()) + "]");
         else a.push_back("[]");
         c.push_back(mem[v] ? vt::JL(mem[v]->buffer(), (long long)len[v]) : "[]");
      }
      for(int p = 1; p < 3; p++)
      {
         FILE* f = fopen(path(p).c_str(), "rb");
         if(!f)
         {
            b.push_back("[]");
            continue;
         }
         std::string s;
         int k;
         while((k = fgetc(f)) != EOF)s += (char)k;
         fclose(f);
         b.push_back("[" + vt::JB(s) + "]");
      }
      return "[" + vt::J(a) + "," + vt::J(b) + "," + vt::J(c) + "]";
   };
   d.ops["new"] = [&](A)
   {
      for(int v = 1; v < 4; v++)drop(v);
      for(int p = 1; p < 3; p++)unlink(path(p).c_str());
      return none;
   };
   d.ops["file"] = [&](A a)
   {
      drop(a[0].i);
      file[a[0].i] = new File(String(path(a[1].i).c_str()));
      return none;
   };
   d.ops["mem"] = [&](A a)
   {
      long long v = a[0].i;
      drop(v);
      std::string b = vt::bytes(a[1]);
      buf[v] = new uint8[b.size()];
      len[v] = b.size();
      std::copy(b.begin(), b.end(), buf[v]);
      mem[v] = new MemoryStream(buf[v], (int64)b.size(), v % 2 == 0);
      return none;
   };
   d.ops["create"] = [&](A a) {return "[" + vt::J(file[a[0].i]->createNewFile()) + "]";};
   d.ops["open"] = [&](A a)
   {
      Status s = S(a[0].i)->open(a[1].s == "r" ? FileMode::kRead : a[1].s == "w" ? FileMode::kWrite : FileMode::kReadWrite);
      std::string n = s == Status::eOK ? "ok" : s == Status::eNotFound ? "notfound" : "other";
      return "[\"" + n + "\"]";
   };
   d.ops["read"] = [&](A a)
   {
      std::unique_ptr<uint8[]> p(new uint8[a[1].i]);
      int64 n = S(a[0].i)->read(p.get(), a[1].i);
      return "[" + vt::JL(p.get(), n) + "]";
   };
   d.ops["readfully"] = [&](A a)
   {
      ByteArray b(a[1].i, 0x55);
      int64 n = a[1].i % 2 ? S(a[0].i)->readFully(b, a[1].i) : S(a[0].i)->Stream::readFully(b);
      return "[" + vt::JL((const uint8*)b.constData(), n) + "]";
   };
   d.ops["write"] = [&](A a)
   {
      std::string b = vt::bytes(a[1]);
      std::unique_ptr<uint8[]> p(new uint8[b.size()]);
      std::copy(b.begin(), b.end(), p.get());
      return "[" + vt::J(S(a[0].i)->write(p.get(), (int64)b.size())) + "]";
   };
   d.ops["writetext"] = [&](A a) {return "[" + vt::J(S(a[0].i)->Stream::write(vt::str(a[1]))) + "]";};
   d.ops["seek"] = [&](A a) {S(a[0].i)->seek(a[1].i); return none;};
   d.ops["move"] = [&](A a) {S(a[0].i)->move(a[1].i); return none;};
   d.ops["close"] = [&](A a) {S(a[0].i)->close(); return none;};
   d.ops["size"] = [&](A a) {return "[" + vt::J(S(a[0].i)->size()) + "]";};
   return d.run(argc, argv);
}
