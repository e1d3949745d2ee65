// Tests of a user, with assertions told by the script; what a run of them counts, writes and returns.
#include "vt.hpp"
#include <fcntl.h>
#include <limits>
#include <sys/stat.h>
using namespace jm;

static int gone = 0;
static std::vector<std::string> counts;
static long long num(const std::string& s) {return s[0] == '-' ? strtoll(s.c_str(), nullptr, 10) : (long long)strtoull(s.c_str(), nullptr, 10);}
static double real(const vt::Arg& a)
{
   if(a.v.empty())return std::numeric_limits<double>::quiet_NaN();
   if(a.v.size() == 1)return std::numeric_limits<double>::infinity();
   return (double)a.v[0].i + (double)a.v[1].i * 0.25 * RESABS;
}
struct Told: public Test
{
   vt::Arg list;
   Told(const String& n, const vt::Arg& l): Test(), list(l) {setName(n);}
   ~Told() override {gone++;}
   void doTest() override
   {
      std::vector<std::string> mine;
      counts.push_back("[]");
      for(auto& s : list.v)
      {
         std::string k = s.v[0].s, x = vt::bytes(s.v[1]), y = vt::bytes(s.v[2]);
         String m = vt::str(s.v[3]);
         if(k == "ll")testEquals((int64)num(x), (int64)num(y), m);
         else if(k == "li")testEquals((int64)num(x), (int32)num(y), m);
         else if(k == "uu")testEquals((uint64)num(x), (uint64)num(y), m);
         else if(k == "ui")testEquals((uint64)num(x), (int32)num(y), m);
         else if(k == "uj")testEquals((uint64)num(x), (uint32)num(y), m);
         else if(k == "ii")testEquals((int32)num(x), (int32)num(y), m);
         else if(k == "jj")testEquals((uint32)num(x), (uint32)num(y), m);
         else if(k == "ij")testEquals((int32)num(x), (uint32)num(y), m);
         else if(k == "ji")testEquals((uint32)num(x), (int32)num(y), m);
         else if(k == "pp")testEquals((void*)num(x), (void*)num(y), m);
         else if(k == "ss")testEquals(vt::str(s.v[1]), vt::str(s.v[2]), m);
         else if(k == "ic")testEqualsIgnoreCase(vt::str(s.v[1]), vt::str(s.v[2]), m);
         else if(k == "dd")testEquals(real(s.v[1]), real(s.v[2]), m);
         else if(k == "null")testNull((void*)num(x), m);
         else if(k == "some")testNotNull((void*)num(x), m);
         else if(k == "true")testTrue(x == "1", m);
         else if(k == "false")testFalse(x == "1", m);
         else if(k == "fail")testFail(m);
         else if(k == "unexp")testUnexpectedException(m);
         else if(k != "throw")abort();
         // what is thrown is counted after this method: the one who wants to see it comes too late
         long long late = k == "throw" ? 1 : 0;
         mine.push_back(vt::J({vt::J((long long)gTestCount + late), vt::J((long long)gErrorCount + late)}));
         counts.back() = vt::J(mine);
         if(late)throw Exception(m);
      }
   }
};

int main(int argc, char** argv)
{
   std::string out = std::string(getenv("VT_SCRATCH")) + "/stdout";
   vt::init(argc, argv);
   System::logEnableDate(false);
   vt::Driver d;
   typedef const vt::Args& A;
   TestVector* all = nullptr;
   std::vector<Told*> made;
   int alive = 0;
   d.opened = [&]
   {
      int o = open(out.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
      if(o < 0 || dup2(o, 1) < 0)exit(2);
   };
   d.ops["new"] = [&](A a)
   {
      delete all;
      // all tests that were added are gone with their vector
      int left = alive - gone;
      alive = gone = 0;
      made.clear();
      std::string one = vt::bytes(a[0]);
      const char* v[] = {"tests", one.c_str(), nullptr};
      all = new TestVector(one.empty() ? 1 : 2, v);
      return vt::J({vt::J(left)});
   };
   d.ops["add"] = [&](A a)
   {
      Told* t = new Told(vt::str(a[0]), a[1]);
      made.push_back(t);
      alive++;
      all->addTest(t);
      return std::string("[]");
   };
   d.ops["none"] = [&](A) {all->addTest(nullptr); made.push_back(nullptr); return std::string("[]");};
   d.ops["name"] = [&](A a)
   {
      Told* t = made[(size_t)a[0].i - 1];
      t->setName(vt::str(a[1]));
      return vt::J({vt::JS(t->name())});
   };
   d.ops["run"] = [&](A)
   {
      counts.clear();
      std::cout.flush();
      fflush(stdout);
      if(ftruncate(1, 0) != 0)exit(2);
      long long r = all->execute();
      std::cout.flush();
      fflush(stdout);
      std::string s;
      if(FILE* f = fopen(out.c_str(), "rb"))
      {
         int c;
         while((c = fgetc(f)) != EOF)s += (char)c;
         fclose(f);
      }
      return vt::J({vt::J({vt::J(r), vt::J((long long)gTotalTestCount), vt::J((long long)gTotalErrorCount), vt::J((long long)gTestCount), vt::J((long long)gErrorCount)}),
                    vt::J(counts), vt::JB(s)});
   };
   int rc = d.run(argc, argv);
   delete all;
   return rc;
}
