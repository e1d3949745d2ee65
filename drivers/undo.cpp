// Editing sessions on a document: all kinds of tracked members, both ways of editing them, steps,
// transactions and flags.
#include "vt.hpp"
using namespace jm;

struct Doc: public Document
{
   Status initNewDocument(Preferences*) override
   {
      return Status::eOK;
   }
   bool saveDocument() override
   {
      return true;
   }
   bool loadDocument() override
   {
      return true;
   }
};

struct Kid: public Object
{
   int no;
   explicit Kid(int n): no(n) {}
};

static std::vector<Kid*> kids;
static const char* FILES[3] = {"/nowhere/new.doc", "/nowhere/a.doc", "/nowhere/b.doc"};

// A value is known to the specification by its index in the table of its type.
static const int NV = 6;
static const int8 TI8[NV] = {0, -1, 127, -128, 1, 64};
static const uint8 TU8[NV] = {0, 1, 255, 128, 127, 2};
static const int16 TI16[NV] = {0, -1, 32767, -32768, 256, 255};
static const uint16 TU16[NV] = {0, 1, 65535, 256, 255, 32768};
static const int32 TI32[NV] = {0, -1, INT32_MAX, INT32_MIN, 65536, 65535};
static const uint32 TU32[NV] = {0, 1, UINT32_MAX, 65536, 2147483648u, 7};
static const int64 TI64[NV] = {0, -1, INT64_MAX, INT64_MIN, 4294967296LL, 4294967295LL};
static const uint64 TU64[NV] = {0, 1, UINT64_MAX, 4294967296ULL, 9223372036854775808ULL, 3};
static const float TF[NV] = {0.f, -1.5f, 1e30f, 1e-30f, 0.1f, 3.f};
static const double TD[NV] = {0., -1.5, 1e300, 1e-3, 0.1, 3.};
static const bool TB[2] = {false, true};
static const int64 TRANGE[NV] = {0, 10, 20, 30, 40, 50};

static String S(int k)
{
   switch(k)
   {
      case 0:
         return String("");
      case 1:
         return String("a");
      case 2:
         return String("Waldstraße 51");
      case 3:
      {
         String s;
         for(int i = 0; i < 3000; i++)s.append(Char((uint16)('a' + i % 26)));
         return s;
      }
      case 4:
         return String("b");
      default:
         return String("ab");
   }
}
static Vertex2 V2(int k)
{
   return Vertex2(k, k == 0 ? 0 : 10 - k);
}
static Vertex3 V3(int k)
{
   return Vertex3(k, k == 0 ? 0 : -k, k * 3);
}
static Date DT(int k)
{
   return Date((int64)(k == 0 ? 0 : k * 86400000LL * 31 - 5));
}
static Color CO(int k)
{
   if(k == 0)return Color();
   if(k < 3)return Color::fromRgb((uint8)k, (uint8)(k * 3), (uint8)(255 - k));
   if(k == 3)return Color::fromGrey(77);
   return Color::fromCmyk((uint8)k, 1, 2, (uint8)(k + 3));
}

struct Obj: public EditableObject
{
   int8 i8 = 0;
   uint8 u8 = 0;
   int16 i16 = 0;
   uint16 u16 = 0;
   int32 i32 = 0;
   uint32 u32 = 0;
   int64 i64 = 0;
   uint64 u64 = 0;
   float f = 0;
   double d = 0;
   bool b = false;
   int64 l2 = 0;
   Vertex2 v2 = V2(0);
   Vertex3 v3 = V3(0);
   String s;
   Date dt = DT(0);
   Color co = CO(0);
   Object* ref = nullptr;
   int64 ranged = 0;

   explicit Obj(Document* doc): EditableObject(doc) {}

   static const int KINDS = 19;

   template<class T> static int idx(const T* t, const T& v, int n = NV)
   {
      for(int i = 0; i < n; i++)if(t[i] == v)return i;
      return -1;
   }

   int get(int k)
   {
      switch(k)
      {
         case 0:
            return idx(TI8, i8);
         case 1:
            return idx(TU8, u8);
         case 2:
            return idx(TI16, i16);
         case 3:
            return idx(TU16, u16);
         case 4:
            return idx(TI32, i32);
         case 5:
            return idx(TU32, u32);
         case 6:
            return idx(TI64, i64);
         case 7:
            return idx(TU64, u64);
         case 8:
            return idx(TF, f);
         case 9:
            return idx(TD, d);
         case 10:
            return idx(TB, b, 2);
         case 11:
            return idx(TI64, l2);
         case 12:
            for(int i = 0; i < NV; i++)if(v2.x == V2(i).x && v2.y == V2(i).y)return i;
            return -1;
         case 13:
            for(int i = 0; i < NV; i++)if(v3.x == V3(i).x && v3.y == V3(i).y && v3.z == V3(i).z)return i;
            return -1;
         case 14:
            for(int i = 0; i < NV; i++)if(vt::JS(s) == vt::JS(S(i)))return i;
            return -1;
         case 15:
            for(int i = 0; i < NV; i++)if(dt.time() == DT(i).time())return i;
            return -1;
         case 16:
            for(int i = 0; i < NV; i++)if(co == CO(i))return i;
            return -1;
         case 17:
            if(ref == nullptr)return 0;
            for(size_t i = 0; i < kids.size(); i++)if(ref == kids[i])return (int)i + 1;
            return -1;
         case 18:
            return idx(TRANGE, ranged);
      }
      return -1;
   }

   // Announce the change, then make it.
   void edit(int k, int v)
   {
      UndoManager* um = document()->undoManager();
      switch(k)
      {
         case 0:
            um->registerChange(this, &i8);
            i8 = TI8[v];
            break;
         case 1:
            um->registerChange(this, &u8);
            u8 = TU8[v];
            break;
         case 2:
            um->registerChange(this, &i16);
            i16 = TI16[v];
            break;
         case 3:
            um->registerChange(this, &u16);
            u16 = TU16[v];
            break;
         case 4:
            um->registerChange(this, &i32);
            i32 = TI32[v];
            break;
         case 5:
            um->registerChange(this, &u32);
            u32 = TU32[v];
            break;
         case 6:
            um->registerChange(this, &i64);
            i64 = TI64[v];
            break;
         case 7:
            um->registerChange(this, &u64);
            u64 = TU64[v];
            break;
         case 8:
            um->registerChange(this, &f);
            f = TF[v];
            break;
         case 9:
            um->registerChange(this, &d);
            d = TD[v];
            break;
         case 10:
            um->registerChange(this, &b);
            b = TB[v];
            break;
         case 11:
            um->registerChange(this, &l2);
            l2 = TI64[v];
            break;
         case 12:
            um->registerChange(this, &v2);
            v2 = V2(v);
            break;
         case 13:
            um->registerChange(this, &v3);
            v3 = V3(v);
            break;
         case 14:
            um->registerChange(this, &s);
            s = S(v);
            break;
         case 15:
            um->registerChange(this, &dt);
            dt = DT(v);
            break;
         case 16:
            um->registerChange(this, &co);
            co = CO(v);
            break;
         case 17:
            um->registerChange(this, &ref);
            ref = v == 0 ? nullptr : kids[(size_t)v - 1];
            break;
         case 18:
            um->registerChange(this, &ranged);
            ranged = TRANGE[v];
            break;
      }
   }

   // Through the member setters, where the type has one.
   Status member(int k, int v)
   {
      switch(k)
      {
         case 1:
            return setMember(&u8, TU8[v]);
         case 2:
            return setMember(&i16, TI16[v]);
         case 6:
            return setMember(&i64, TI64[v]);
         case 9:
            return setMember(&d, TD[v]);
         case 10:
            return setMember(&b, TB[v]);
         case 13:
            return setMember(&v3, V3(v));
         case 14:
            return setMember(&s, S(v));
         case 18:
            return setMember(&ranged, TRANGE[v]);
      }
      fprintf(stderr, "driver: unknown op member kind\n");
      exit(2);
   }
};

static int code(Status s)
{
   if(s == Status::eOK)return 1;
   if(s == Status::eNotChanged)return 2;
   if(s == Status::eInvalidInput)return 3;
   if(s == Status::eError)return 4;
   if(s == Status::eNotFound)return 5;
   return 99;
}
static Status status(long long c)
{
   switch(c)
   {
      case 1:
         return Status::eOK;
      case 2:
         return Status::eNotChanged;
      case 3:
         return Status::eInvalidInput;
      case 4:
         return Status::eError;
      default:
         return Status::eNotFound;
   }
}

static const int NOBJ = 2;
static const int NF = 40;
static Doc* doc = nullptr;
static Obj* obj[NOBJ] = {nullptr, nullptr};

// Field n of the specification is member kind (n / 2) of object n % 2; the scenario may restrict itself to
// few fields by a map.
static std::vector<int> kindOf(NF, 0);

static void reset()
{
   if(doc != nullptr)
   {
      if(doc->hasUndoManager())
      {
         while(doc->undoManager()->hasOpenTransaction())doc->undoManager()->rollback();
         doc->undoManager()->clearStacks();
      }
      for(auto*& o : obj)o->release();
      delete doc;
   }
   if(kids.empty())for(int i = 1; i < NV; i++)kids.push_back(new Kid(i));
   doc = new Doc();
   doc->setFile(File(FILES[0]));
   for(auto*& o : obj)o = new Obj(doc);
}

static Obj* of(const vt::Arg& f)
{
   return obj[f.i % 2];
}
static int kind(const vt::Arg& f)
{
   return kindOf[(size_t)f.i];
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   auto um = [] {return doc->undoManager();};

   // new [kinds]: field 2i and 2i+1 are the member of kinds[i % len] of the two objects.
   d.ops["new"] = [](const vt::Args & a)
   {
      reset();
      for(int i = 0; i < NF; i++)
      {
         int slot = i / 2;
         if(a.empty() || a[0].v.empty())kindOf[(size_t)i] = slot < Obj::KINDS ? slot : -1;
         else kindOf[(size_t)i] = slot < (int)a[0].v.size() ? (int)a[0].v[(size_t)slot].i : -1;
      }
      return std::string("[]");
   };
   d.ops["edit"] = [](const vt::Args & a)
   {
      of(a[0])->edit(kind(a[0]), (int)a[1].i);
      return std::string("[]");
   };
   d.ops["member"] = [](const vt::Args & a)
   {
      return vt::J({vt::J(code(of(a[0])->member(kind(a[0]), (int)a[1].i)))});
   };
   d.ops["ranged"] = [](const vt::Args & a)
   {
      Obj* o = of(a[0]);
      return vt::J({vt::J(code(o->setMember(&o->ranged, TRANGE[a[1].i], TRANGE[a[2].i], TRANGE[a[3].i])))});
   };
   d.ops["nan"] = [](const vt::Args & a)
   {
      Obj* o = of(a[0]);
      return vt::J({vt::J(code(o->setMember(&o->d, std::nan(""))))});
   };
   d.ops["mark"] = [&](const vt::Args & a)
   {
      um()->registerRegenerationMarker(obj[a[0].i]);
      return std::string("[]");
   };
   d.ops["close"] = [&](const vt::Args&)
   {
      doc->closeUndoStep();
      return std::string("[]");
   };
   d.ops["undo"] = [&](const vt::Args&)
   {
      return vt::J({vt::J(um()->undo() ? 1 : 0)});
   };
   d.ops["redo"] = [&](const vt::Args&)
   {
      return vt::J({vt::J(um()->redo() ? 1 : 0)});
   };
   d.ops["clear"] = [&](const vt::Args&)
   {
      um()->clearStacks();
      return std::string("[]");
   };
   d.ops["clearu"] = [&](const vt::Args&)
   {
      um()->clearUndoStack();
      return std::string("[]");
   };
   d.ops["clearr"] = [&](const vt::Args&)
   {
      um()->clearRedoStack();
      return std::string("[]");
   };
   d.ops["begin"] = [&](const vt::Args&)
   {
      obj[0]->openTransaction();
      return std::string("[]");
   };
   d.ops["end"] = [&](const vt::Args&)
   {
      return vt::J({vt::J(code(obj[1]->closeTransaction()))});
   };
   d.ops["commit"] = [&](const vt::Args&)
   {
      um()->commit();
      return std::string("[]");
   };
   d.ops["rollback"] = [&](const vt::Args&)
   {
      um()->rollback();
      return std::string("[]");
   };
   d.ops["report"] = [&](const vt::Args & a)
   {
      um()->registerTransactionStatus(status(a[0].i));
      return std::string("[]");
   };
   d.ops["saved"] = [&](const vt::Args&)
   {
      doc->setDocumentChanged(false);
      return std::string("[]");
   };
   d.ops["touched"] = [&](const vt::Args&)
   {
      doc->setDocumentChanged(true);
      return std::string("[]");
   };
   d.ops["pause"] = [&](const vt::Args&)
   {
      um()->setActive(false);
      return std::string("[]");
   };
   d.ops["resume"] = [&](const vt::Args&)
   {
      um()->setActive(true);
      return std::string("[]");
   };
   d.ops["drop"] = [&](const vt::Args&)
   {
      doc->setUndoManager(false);
      return std::string("[]");
   };
   d.ops["keep"] = [&](const vt::Args&)
   {
      doc->setUndoManager(true);
      return std::string("[]");
   };
   d.ops["docregen"] = [&](const vt::Args&)
   {
      doc->regenerate();
      return std::string("[]");
   };
   d.ops["docdone"] = [&](const vt::Args&)
   {
      doc->regenerationDone();
      return std::string("[]");
   };
   d.ops["docfile"] = [&](const vt::Args& a)
   {
      doc->setFile(File(FILES[a[0].i]));
      return std::string("[]");
   };
   d.ops["regen"] = [&](const vt::Args & a)
   {
      obj[a[0].i]->regenerate();
      return std::string("[]");
   };
   d.ops["regendone"] = [&](const vt::Args & a)
   {
      obj[a[0].i]->regenerationDone();
      return std::string("[]");
   };
   d.obs = [&]
   {
      std::string v = "[";
      for(int i = 0; i < NF; i++)
         v += (i ? "," : "") + std::to_string(kindOf[(size_t)i] < 0 ? 0 : obj[i % 2]->get(kindOf[(size_t)i]));
      v += "]";
      UndoManager* m = doc->undoManager();
      int file = -1;
      for(int i = 0; i < 3; i++)if(vt::JS(doc->file().absolutePath()) == vt::JS(File(FILES[i]).absolutePath()) && doc->fileRef() == &doc->file())file = i;
      std::string own = ",\"h\":\"" + std::string(!doc->hasUndoManager() ? "none" : m->isActive() ? "on" : "paused") +
      "\",\"d\":" + vt::J({vt::J(doc->shouldRegenerate()), vt::J(file)});
      if(m == nullptr)
         return "{\"v\":" + v + ",\"u\":0,\"r\":0,\"s\":0,\"t\":0,\"ts\":1,\"c\":" + vt::J(doc->isDocumentChanged()) +
         ",\"g\":[" + vt::J(obj[0]->shouldRegenerate()) + "," + vt::J(obj[1]->shouldRegenerate()) + "]" + own + "}";
      return "{\"v\":" + v + ",\"u\":" + vt::J(m->undoCount()) + ",\"r\":" + vt::J(m->redoCount()) +
      ",\"s\":" + vt::J(m->hasOpenUndoStep()) + ",\"t\":" + vt::J(m->hasOpenTransaction()) +
      ",\"ts\":" + vt::J(code(m->transactionStatus())) + ",\"c\":" + vt::J(doc->isDocumentChanged()) +
      ",\"g\":[" + vt::J(obj[0]->shouldRegenerate()) + "," + vt::J(obj[1]->shouldRegenerate()) + "]" + own + "}";
   };
   return d.run(argc, argv);
}
