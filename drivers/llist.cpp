// Editing a linked list, with and without editing history.
#include "vt.hpp"
using namespace jm;

struct D: public Object
{
   int no;
   explicit D(int n): no(n) {}
};
static D* data[10];
static LinkedList* list = nullptr;
static UndoManager* um = nullptr;
static bool tracked = true;

static int code(const Status& s)
{
   if(s == Status::eOK)return 1;
   if(s == Status::eNotFound)return 5;
   return 9;
}
static int no(Object* o)
{
   return o ? static_cast<D*>(o)->no : 0;
}
static std::string rest(LinkedListIterator it)
{
   std::vector<long long> v;
   while(it.hasNext() && v.size() < 100000)
   {
      Object* s = it.seek();
      Object* n = it.next();
      if(s != n)v.push_back(-1);
      v.push_back(no(n));
   }
   // at the end there is nothing more
   if(it.seek() != nullptr || it.next() != nullptr || it.hasNext())v.push_back(-2);
   return vt::JL(v.data(), (long long)v.size());
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   for(int i = 1; i < 10; i++)data[i] = new D(i);
   vt::Driver d;
   std::string none = "[]";
   auto u = [] {return tracked ? um : nullptr;};
   d.ops["new"] = [&](const vt::Args&)
   {
      if(um)um->clearStacks();
      if(list)list->release();
      if(um)um->release();
      um = new UndoManager();
      um->setActive(true);
      list = new LinkedList(nullptr);
      tracked = true;
      return none;
   };
   d.ops["add"] = [&](const vt::Args & a) {list->add(data[a[0].i], u()); return none;};
   d.ops["before"] = [&](const vt::Args & a) {list->addBefore(data[a[0].i], data[a[1].i], u()); return none;};
   d.ops["remove"] = [&](const vt::Args & a) {return vt::J({vt::J(code(list->remove(data[a[0].i], u())))});};
   d.ops["swap"] = [&](const vt::Args & a) {list->swapData(data[a[0].i], data[a[1].i], u()); return none;};
   d.ops["clear"] = [&](const vt::Args&) {list->clear(u()); return none;};
   d.ops["close"] = [&](const vt::Args&) {um->close(); return none;};
   d.ops["undo"] = [&](const vt::Args&) {return vt::J({vt::J(um->undo())});};
   d.ops["redo"] = [&](const vt::Args&) {return vt::J({vt::J(um->redo())});};
   d.ops["forget"] = [&](const vt::Args & a) {um->clearStacks(); tracked = a[0].i == 1; return none;};
   d.ops["scan"] = [&](const vt::Args&)
   {
      std::vector<long long> v;
      list->rewind();
      while(list->hasNext() && v.size() < 100000)v.push_back(no(list->next()));
      LinkedListIterator nothing(nullptr);
      if(nothing.hasNext() || nothing.next() != nullptr)v.push_back(-3);
      return vt::JL(v.data(), (long long)v.size());
   };
   // An iterator advanced n times, copied; the copy runs to the end; a fresh one assigned over it starts anew.
   d.ops["copies"] = [&](const vt::Args & a)
   {
      LinkedListIterator it = list->iterator();
      for(long long i = 0; i < a[0].i; i++)it.next();
      LinkedListIterator cp(it);
      std::string r1 = rest(cp);
      cp = list->iterator();
      return "[" + r1 + "," + rest(cp) + "]";
   };
   d.obs = []
   {
      auto one = [](Object * o) {return o ? "[" + std::to_string(no(o)) + "]" : std::string("[]");};
      return "{\"i\":" + rest(list->iterator()) + ",\"n\":" + vt::J(list->size()) + ",\"f\":" + one(list->first()) +
      ",\"l\":" + one(list->last()) + "}";
   };
   return d.run(argc, argv);
}
