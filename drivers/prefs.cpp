// Preferences, their file, and translation catalogs.
#include "vt.hpp"
#include <sys/stat.h>
using namespace jm;

static I18nBundle* pf = nullptr;
static std::string dir;

static std::string slurp(const std::string& p)
{
   std::string s;
   FILE* f = fopen(p.c_str(), "rb");
   if(!f)return s;
   int c;
   while((c = fgetc(f)) != EOF)s += (char)c;
   fclose(f);
   return s;
}
static void spill(const std::string& p, const std::string& s)
{
   FILE* f = fopen(p.c_str(), "wb");
   fwrite(s.data(), 1, s.size(), f);
   fclose(f);
}
static long long num(const vt::Arg& a) {return strtoll(vt::bytes(a).c_str(), nullptr, 10);}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   dir = std::string(argv[2]) + ".d";
   std::string path = dir + "/p.cfg";
   auto file = [&] {return File(String(path.c_str()));};
   auto fresh = [&] {delete pf; pf = new I18nBundle(String("de_DE"));};
   d.opened = [&] {mkdir(dir.c_str(), 0755); fresh();};
   d.obs = [&] {return vt::J({vt::J((long long)pf->size())});};
   d.ops["new"] = [&](A) {unlink(path.c_str()); fresh(); return none;};
   d.ops["fresh"] = [&](A) {fresh(); return none;};
   d.ops["set"] = [&](A a) {pf->setValue(vt::str(a[0]), vt::str(a[1])); return none;};
   // a text literal
   d.ops["setlit"] = [&](A a) {pf->setValue(vt::str(a[0]), vt::bytes(a[1]).c_str()); return none;};
   d.ops["setint"] = [&](A a) {pf->setValue(vt::str(a[0]), (int64)num(a[1])); return none;};
   d.ops["setreal"] = [&](A a)
   {
      double v = (double)a[2].i + (double)a[3].i / 8;
      pf->setValue(vt::str(a[0]), a[1].i ? -v : v);
      return none;
   };
   d.ops["getreal"] = [&](A a)
   {
      double v = 8 * pf->valueDouble(vt::str(a[0]), (double)a[1].i / 8);
      return vt::J({vt::J(v == (double)(long long)v ? (long long)v : 999999999)});
   };
   d.ops["setbool"] = [&](A a) {pf->setValue(vt::str(a[0]), a[1].i != 0); return none;};
   d.ops["get"] = [&](A a) {return vt::J({vt::JS(pf->value(vt::str(a[0]))), vt::J(pf->hasValue(vt::str(a[0])))});};
   d.ops["getor"] = [&](A a) {return vt::J({vt::JS(pf->value(vt::str(a[0]), vt::str(a[1])))});};
   d.ops["getint"] = [&](A a) {return vt::J({vt::JB(std::to_string((long long)pf->valueInt(vt::str(a[0]), num(a[1]))))});};
   d.ops["getbool"] = [&](A a) {return vt::J({vt::J(pf->valueBool(vt::str(a[0]), a[1].i != 0))});};
   d.ops["save"] = [&](A) {pf->save(file()); return vt::J({vt::JB(slurp(path))});};
   d.ops["write"] = [&](A a) {spill(path, vt::bytes(a[0])); return none;};
   d.ops["load"] = [&](A) {pf->load(file()); return none;};
   d.ops["mo"] = [&](A a)
   {
      std::string b = vt::bytes(a[0]);
      if(b.empty())b = "";
      spill(path + ".mo", b);
      File f(String((path + ".mo").c_str()));
      pf->appendMo(&f);
      return none;
   };
   // a catalog of n entries, its texts as long as the places of its tables need
   d.ops["momany"] = [&](A a)
   {
      size_t n = (size_t)a[0].i;
      std::string head, keys, vals, pool;
      auto put = [](std::string & s, size_t x) {for(int i = 0; i < 4; i++)s += (char)(x >> (8 * i));};
      for(size_t i = 0; i < n; i++)
         for(int j = 0; j < 2; j++)
         {
            std::string t = (char)a[1 + j].i + std::to_string(i);
            put(j ? vals : keys, t.size());
            put(j ? vals : keys, 20 + 16 * n + pool.size());
            pool += t + '\0';
         }
      for(size_t x : {(size_t)0x950412de, (size_t)0, n, (size_t)20, 20 + 8 * n})put(head, x);
      spill(path + ".mo", head + keys + vals + pool);
      File f(String((path + ".mo").c_str()));
      pf->appendMo(&f);
      return none;
   };
   d.ops["tr"] = [&](A a) {return vt::J({vt::JS(pf->translate(vt::str(a[0])))});};
   return d.run(argc, argv);
}
