// Life of reference counted objects: explicit holds, references between objects with and without editing
// history, delayed releases.
#include "vt.hpp"
using namespace jm;

static const int N = 8;
struct Obj;
static Obj* obj[N + 1];
static int life[N + 1];
static int dtor[N + 1];

struct Obj: public Object
{
   int no;
   int mode;
   Object* ref = nullptr;
   Obj(int n, int m): no(n), mode(m) {}
   ~Obj() override
   {
      if(no > 0)
      {
         life[no] = 2;
         dtor[no]++;
      }
      if(ref != nullptr)
      {
         if(mode == 1)ref->autorelease();
         else ref->release();
      }
   }
};

static UndoManager* um = nullptr;

static void reset()
{
   // What is left of the previous scenario is let go of without being observed (cycles stay).
   if(um != nullptr)
   {
      while(um->hasOpenTransaction())um->rollback();
      delete um;
   }
   System::autoreleasePool()->drain();
   for(int i = 1; i <= N; i++)
   {
      if(life[i] == 1)
      {
         obj[i]->no = 0;
         obj[i]->ref = nullptr;
      }
      obj[i] = nullptr;
      life[i] = 0;
      dtor[i] = 0;
   }
   {um = new UndoManager(); um->setActive(true);}
}

static void change(Obj* o, Object* n, UndoManager* u)
{
   if(u)u->registerChange(o, &o->ref);
   // The new reference is taken before the old one is given up.
   Object* old = o->ref;
   o->ref = n;
   if(n != nullptr)
   {
      if(u)u->registerRetain(n);
      n->retain();
   }
   if(old != nullptr)
   {
      if(u)u->registerRelease(old);
      old->release();
   }
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   std::string none = "[]";
   auto at = [](const vt::Arg & a)
   {
      return a.i == 0 ? nullptr : obj[a.i];
   };
   d.ops["new"] = [&](const vt::Args&) {reset(); return none;};
   d.ops["make"] = [&](const vt::Args & a)
   {
      obj[a[0].i] = new Obj((int)a[0].i, (int)a[1].i);
      life[a[0].i] = 1;
      return none;
   };
   d.ops["retain"] = [&](const vt::Args & a) {at(a[0])->retain(); return none;};
   d.ops["release"] = [&](const vt::Args & a) {at(a[0])->release(); return none;};
   d.ops["autorelease"] = [&](const vt::Args & a) {at(a[0])->autorelease(); return none;};
   d.ops["drain"] = [&](const vt::Args&) {System::autoreleasePool()->drain(); return none;};
   d.ops["high"] = [&](const vt::Args & a) {at(a[0])->setHighBit(a[1].i == 1); return none;};
   d.ops["set"] = [&](const vt::Args & a) {change(at(a[0]), at(a[1]), nullptr); return none;};
   d.ops["edit"] = [&](const vt::Args & a) {change(at(a[0]), at(a[1]), um); return none;};
   d.ops["close"] = [&](const vt::Args&) {um->close(); return none;};
   d.ops["undo"] = [&](const vt::Args&) {um->undo(); return none;};
   d.ops["redo"] = [&](const vt::Args&) {um->redo(); return none;};
   d.ops["clear"] = [&](const vt::Args&) {um->clearStacks(); return none;};
   d.ops["drop"] = [&](const vt::Args&) {delete um; {um = new UndoManager(); um->setActive(true);} return none;};
   d.ops["clearu"] = [&](const vt::Args&) {um->clearUndoStack(); return none;};
   d.ops["clearr"] = [&](const vt::Args&) {um->clearRedoStack(); return none;};
   d.ops["begin"] = [&](const vt::Args&) {um->openTransaction(); return none;};
   d.ops["commit"] = [&](const vt::Args&) {um->commit(); return none;};
   d.ops["rollback"] = [&](const vt::Args&) {um->rollback(); return none;};
   d.obs = []
   {
      int c[N + 1] = {0}, r[N + 1] = {0}, h[N + 1] = {0};
      for(int i = 1; i <= N; i++)if(life[i] == 1)
         {
            c[i] = obj[i]->referenceCount();
            h[i] = obj[i]->highBit();
            Obj* o = static_cast<Obj*>(obj[i]->ref);
            r[i] = o ? o->no : 0;
         }
      return "{\"s\":" + vt::JL(life + 1, N) + ",\"d\":" + vt::JL(dtor + 1, N) + ",\"c\":" + vt::JL(c + 1, N) +
      ",\"r\":" + vt::JL(r + 1, N) + ",\"h\":" + vt::JL(h + 1, N) + "}";
   };
   return d.run(argc, argv);
}
