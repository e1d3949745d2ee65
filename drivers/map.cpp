// Hash table sessions.
#include "vt.hpp"
using namespace jm;

static Hashtable* ht = nullptr;

// The same key, come about in different ways.
static String key(const vt::Arg& k, long long how)
{
   String s = vt::str(k);
   if(how == 1)
   {
      String t("something else");
      t.hashCode();
      t = s;
      return t;
   }
   if(how == 2)
   {
      String t = s;
      t.append(Char('x'));
      t.hashCode();
      t.deleteCharAt(t.size() - 1);
      return t;
   }
   if(how == 3)
   {
      s.hashCode();
      return s;
   }
   return s;
}
int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   auto num = [](void* p) {return vt::J({vt::J((long long)(intptr_t)p)});};
   d.ops["new"] = [&](A) {delete ht; ht = new Hashtable(); return none;};
   d.ops["put"] = [&](A a) {return num(ht->put(key(a[0], a[2].i), (void*)(intptr_t)a[1].i));};
   d.ops["get"] = [&](A a) {return num(ht->get(key(a[0], a[1].i)));};
   d.ops["remove"] = [&](A a) {return num(ht->remove(key(a[0], a[1].i)));};
   d.ops["has"] = [&](A a) {return vt::J({vt::J(ht->containsKey(key(a[0], a[1].i)))});};
   d.ops["putmany"] = [&](A a)
   {
      for(long long i = a[0].i; i <= a[1].i; i++)ht->put("k" + String::valueOf((int64)i), (void*)(intptr_t)a[2].i);
      return none;
   };
   d.ops["removemany"] = [&](A a)
   {
      for(long long i = a[0].i; i <= a[1].i; i++)ht->remove("k" + String::valueOf((int64)i));
      return none;
   };
   d.ops["clear"] = [&](A) {ht->clear(); return none;};
   d.ops["keys"] = [&](A)
   {
      std::vector<std::string> r;
      Iterator* it = ht->keys();
      while(it->hasNext() && r.size() < 100000)
      {
         it->hasNext();
         r.push_back(vt::JS(*reinterpret_cast<String*>(it->next())));
      }
      delete it;
      return vt::J(r);
   };
   d.ops["values"] = [&](A)
   {
      std::vector<std::string> r;
      Iterator* it = ht->values();
      while(it->hasNext() && r.size() < 100000)r.push_back(vt::J((long long)(intptr_t)it->next()));
      delete it;
      return vt::J(r);
   };
   // without asking first; at the end there is nothing more
   d.ops["keysNow"] = [&](A)
   {
      std::vector<std::string> r;
      Iterator* it = ht->keys();
      while(Object* o = it->next())
      {
         r.push_back(vt::JS(*reinterpret_cast<String*>(o)));
         if(r.size() > 100000)break;
      }
      if(it->hasNext() || it->next() != nullptr)r.push_back("[-1]");
      delete it;
      return vt::J(r);
   };
   d.ops["valuesNow"] = [&](A)
   {
      std::vector<std::string> r;
      Iterator* it = ht->values();
      for(int64 i = 0; i < ht->size(); i++)r.push_back(vt::J((long long)(intptr_t)it->next()));
      if(it->hasNext() || it->next() != nullptr)r.push_back("-1");
      delete it;
      return vt::J(r);
   };
   d.obs = [] {return vt::J({vt::J(ht->size())});};
   return d.run(argc, argv);
}
