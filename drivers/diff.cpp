// Differences between two sequences of objects.
#include "vt.hpp"
#include <sstream>
using namespace jm;

static std::vector<std::string> lines;
class Thing: public Object
{
   public:
      long long id, value;
      Thing(long long i, long long v): id(i), value(v) {}
      bool equals(const Object* o) const override {return value == ((const Thing*)o)->value;}
      String displayName() const override {return String::valueOf((int64)id);}
      void printDiffInfo(DiffOperation op, Object* o) const override
      {
         std::cout << "=" << (int)op << " " << ((Thing*)o)->id << std::endl;
      }
};
static std::map<long long, Thing*> things;
static Thing* thing(const vt::Args& a)
{
   Thing*& t = things[a[0].i];
   t = new Thing(a[0].i, a[1].i);
   return t;
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   typedef const vt::Args& A;
   DiffDistance* dd = nullptr;
   d.ops["new"] = [&](A)
   {
      delete dd;
      dd = new DiffDistance();
      return std::string("[]");
   };
   d.ops["clear"] = [&](A) {dd->clear(); return std::string("[]");};
   d.ops["u"] = [&](A a) {dd->addU(thing(a)); return std::string("[]");};
   d.ops["v"] = [&](A a) {dd->addV(thing(a)); return std::string("[]");};
   d.ops["solve"] = [&](A)
   {
      std::ostringstream out;
      auto* old = std::cout.rdbuf(out.rdbuf());
      DiffBacktrace* b = dd->solve();
      out.str("");
      b->print();
      std::cout.rdbuf(old);
      long long dist = dd->distance();
      delete b;
      std::istringstream in(out.str());
      std::string s, r;
      auto obj = [](long long id)
      {
         Thing* t = things[id];
         return vt::J({vt::J(id), vt::J(t ? t->value : -1)});
      };
      while(std::getline(in, s))
      {
         long long id = atoll(s.c_str() + (s.size() > 2 ? 2 : 0));
         std::string k = s.substr(0, 1);
         std::string c = "[\"" + k + "\"," + obj(id);
         if(k == "M")
         {
            std::getline(in, s);
            size_t p = s.find(' ');
            c += "," + obj(p == std::string::npos ? -1 : atoll(s.c_str() + p));
         }
         r += (r.empty() ? "" : ",") + c + "]";
      }
      return vt::J({vt::J(dist), "[" + r + "]"});
   };
   return d.run(argc, argv);
}
