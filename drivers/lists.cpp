// Lists of texts and tokenizers.
#include "vt.hpp"
using namespace jm;

static StringList* ls[3];
static Array<String>* ar = nullptr;       // list 3
static Array<String*>* ap = nullptr;      // list 4, its texts stay alive to the end
static Array<String>* ar2 = nullptr;
static Array<String*>* ap2 = nullptr;
static FloatArray* fa = nullptr;          // list 5, its texts are single numbers
static FloatArray* fa2 = nullptr;

static String* keep(const String& s)
{
   return new String(s);
}
static StringTokenizer* tok = nullptr;

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   auto L = [](A a) -> StringList& {return *ls[a[0].i];};
   auto renew = [](const vt::Arg& v, StringList* l) {delete ls[v.i]; ls[v.i] = l;};
   d.ops["new"] = [&](A)
   {
      for(int i = 1; i < 3; i++) {delete ls[i]; ls[i] = new StringList();}
      delete tok;
      tok = nullptr;
      delete ar;
      ar = new Array<String>();
      delete ap;
      ap = new Array<String*>();
      delete fa;
      fa = new FloatArray();
      return none;
   };
   d.ops["make"] = [&](A a)
   {
      if(a[0].i == 3) {delete ar; ar = new Array<String>(a[1].i); return none;}
      if(a[0].i == 4)
      {
         delete ap;
         ap = new Array<String*>((uint32)a[1].i);
         for(int64 i = 0; i < a[1].i; i++)ap->set((uint32)i, keep(String()));
         return none;
      }
      renew(a[0], new StringList(a[1].i));
      return none;
   };
   d.ops["floats"] = [&](A a)
   {
      delete fa;
      auto f = [&](size_t i) {return (float)a[0].v[i].i;};
      switch(a[0].v.size())
      {
         case 0: fa = new FloatArray(); break;
         case 1: fa = new FloatArray({f(0)}); break;
         case 2: fa = new FloatArray({f(0), f(1)}); break;
         case 3: fa = new FloatArray({f(0), f(1), f(2)}); break;
         default:
            fa = new FloatArray((uint32)a[0].v.size());
            for(size_t i = 0; i < a[0].v.size(); i++)
            {
               if(i % 2)fa->Set((uint32)i, f(i));
               else (*fa)[(uint32)i] = f(i);
            }
      }
      return none;
   };
   d.ops["fset"] = [&](A a) {fa->Set((uint32)a[0].i, (float)a[1].i); return none;};
   d.ops["fsetidx"] = [&](A a) {(*fa)[(uint32)a[0].i] = (float)a[1].i; return none;};
   d.ops["fsort"] = [&](A) {fa->Sort(); return none;};
   d.ops["fassign"] = [&](A)
   {
      if(fa2 == nullptr)fa2 = new FloatArray({7, 8});
      *fa2 = *fa;
      if(fa->Length() > 0)fa->Set(0, 77);
      std::swap(fa, fa2);
      *fa = *fa;
      return none;
   };
   d.ops["fcopy"] = [&](A)
   {
      FloatArray* n = new FloatArray(*fa);
      if(fa->Length() > 0)fa->Set(0, 77);
      delete fa;
      fa = n;
      return none;
   };
   d.ops["makeone"] = [&](A a) {renew(a[0], new StringList(vt::str(a[1]))); return none;};
   d.ops["append"] = [&](A a) {L(a).append(vt::str(a[1])); return none;};
   d.ops["shl"] = [&](A a) {L(a) << vt::str(a[1]); return none;};
   d.ops["appendown"] = [&](A a) {L(a).append(L(a).get(a[1].i)); return none;};
   d.ops["remove"] = [&](A a) {L(a).remove(vt::str(a[1])); return none;};
   d.ops["removeown"] = [&](A a) {L(a).remove(L(a).get(a[1].i)); return none;};
   d.ops["set"] = [&](A a) {if(a[0].i == 3){ar->set(a[1].i, vt::str(a[2])); return none;} if(a[0].i == 4){ap->set((uint32)a[1].i, keep(vt::str(a[2]))); return none;} L(a).set(a[1].i, vt::str(a[2])); return none;};
   d.ops["setidx"] = [&](A a) {if(a[0].i == 3){(*ar)[a[1].i] = vt::str(a[2]); return none;} if(a[0].i == 4){(*ap)[(uint32)a[1].i] = keep(vt::str(a[2])); return none;} L(a)[a[1].i] = vt::str(a[2]); return none;};
   d.ops["get"] = [&](A a) {if(a[0].i == 3){return vt::J({vt::JS(ar->get(a[1].i))});} if(a[0].i == 4){return vt::J({vt::JS(*ap->get((uint32)a[1].i))});} return vt::J({vt::JS(L(a).get(a[1].i))});};
   d.ops["getidx"] = [&](A a) {if(a[0].i == 3){return vt::J({vt::JS((*ar)[a[1].i])});} if(a[0].i == 4){return vt::J({vt::JS(*(*ap)[(uint32)a[1].i])});} return vt::J({vt::JS(L(a)[a[1].i])});};
   d.ops["sort"] = [&](A a) {if(a[0].i == 3){ar->sort(); return none;} if(a[0].i == 4){ap->sort(); return none;} L(a).sort(); return none;};
   d.ops["clear"] = [&](A a) {L(a).clear(); return none;};
   d.ops["assign"] = [&](A a) {if(a[0].i == 3){if(ar2 == nullptr)ar2 = new Array<String>(); *ar2 = *ar; *ar = *ar2; *ar = *ar; return none;} if(a[0].i == 4){if(ap2 == nullptr)ap2 = new Array<String*>(2); *ap2 = *ap; *ap = *ap2; *ap = *ap; return none;} L(a) = *ls[a[1].i]; return none;};
   d.ops["copy"] = [&](A a) {if(a[0].i == 3){delete ar2; ar2 = new Array<String>(*ar); std::swap(ar, ar2); if(ar2->size() > 0)ar2->set(0, String("old")); return none;} if(a[0].i == 4){delete ap2; ap2 = new Array<String*>(*ap); std::swap(ap, ap2); if(ap2->size() > 0)ap2->set(0, nullptr); return none;} renew(a[0], new StringList(*ls[a[1].i])); return none;};
   d.ops["reserve"] = [&](A a) {L(a).reserve(a[1].i); return none;};
   d.ops["contains"] = [&](A a) {return vt::J({vt::J(L(a).contains(vt::str(a[1])))});};
   d.ops["join"] = [&](A a) {return vt::J({vt::JS(L(a).join(Char((uint16)a[1].i)))});};
   d.ops["split"] = [&](A a) {L(a) = vt::str(a[1]).split(Char((uint16)a[2].i)); return none;};
   d.ops["tok"] = [&](A a)
   {
      delete tok;
      tok = new StringTokenizer(vt::str(a[0]), vt::str(a[1]), a[2].i != 0);
      return none;
   };
   d.ops["more"] = [&](A) {return vt::J({vt::J(tok != nullptr && tok->hasNext())});};
   d.ops["take"] = [&](A)
   {
      if(tok == nullptr)throw Exception("none");
      return vt::J({vt::JS(tok->next())});
   };
   d.obs = []
   {
      std::vector<std::string> r;
      for(int v = 1; v < 3; v++)
      {
         std::vector<std::string> e;
         for(int64 i = 0; i < ls[v]->size(); i++)e.push_back(vt::JS(ls[v]->get(i)));
         // the range-based loop shows the same
         size_t k = 0;
         for(String& s : *ls[v])if(k >= e.size() || e[k++] != vt::JS(s)) {e.push_back("[-1]"); break;}
         r.push_back(vt::J(e));
      }
      for(int v = 3; v < 5; v++)
      {
         std::vector<std::string> e;
         int64 n = v == 3 ? ar->size() : ap->size();
         for(int64 i = 0; i < n; i++)e.push_back(vt::JS(v == 3 ? ar->get(i) : *ap->get((uint32)i)));
         r.push_back(vt::J(e));
      }
      std::vector<std::string> e;
      for(uint32 i = 0; i < fa->Length(); i++)
      {
         float x = fa->Get(i);
         e.push_back(vt::J({vt::J(x == (*fa)[i] && x == (float)(int)x ? (long long)x : -99999)}));
      }
      r.push_back(vt::J(e));
      return vt::J(r);
   };
   return d.run(argc, argv);
}
