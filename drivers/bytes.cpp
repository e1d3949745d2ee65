// Byte arrays and a stack.
#include "vt.hpp"
using namespace jm;

static ByteArray* b[4];
static Stack<int64>* stk = nullptr;

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   auto L = [](A a) -> ByteArray& {return *b[a[0].i];};
   auto renew = [](const vt::Arg& v, ByteArray* n) {delete b[v.i]; b[v.i] = n;};
   d.ops["new"] = [&](A)
   {
      for(int i = 1; i < 4; i++) {delete b[i]; b[i] = new ByteArray();}
      delete stk;
      stk = new Stack<int64>();
      return none;
   };
   d.ops["make"] = [&](A a)
   {
      std::string s = vt::bytes(a[1]);
      renew(a[0], new ByteArray((const uint8*)s.data(), (int64)s.size()));
      return none;
   };
   d.ops["makel"] = [&](A a)
   {
      std::string t = vt::bytes(a[1]);
      auto u = [&](size_t i) {return (uint8)t[i];};
      switch(t.size())
      {
         case 1: renew(a[0], new ByteArray({u(0)})); break;
         case 2: renew(a[0], new ByteArray({u(0), u(1)})); break;
         case 3: renew(a[0], new ByteArray({u(0), u(1), u(2)})); break;
         default: renew(a[0], new ByteArray({u(0), u(1), u(2), u(3), u(4), u(5), u(6)})); break;
      }
      return none;
   };
   d.ops["makes"] = [&](A a)
   {
      std::string s = vt::bytes(a[1]);
      renew(a[0], new ByteArray((const int8*)s.data(), (int64)s.size()));
      return none;
   };
   d.ops["makez"] = [&](A a)
   {
      std::string s = vt::bytes(a[1]);
      renew(a[0], new ByteArray((const int8*)s.c_str()));
      return none;
   };
   d.ops["makenull"] = [&](A a) {renew(a[0], new ByteArray((const uint8*)nullptr, 5)); return none;};
   d.ops["filled"] = [&](A a) {renew(a[0], new ByteArray(a[1].i, (uint8)a[2].i)); return none;};
   d.ops["assign"] = [&](A a) {L(a) = *b[a[1].i]; return none;};
   d.ops["copy"] = [&](A a) {renew(a[0], new ByteArray(*b[a[1].i])); return none;};
   d.ops["set"] = [&](A a) {L(a).set(a[1].i, (uint8)a[2].i); return none;};
   d.ops["setidx"] = [&](A a) {L(a)[a[1].i] = (uint8)a[2].i; return none;};
   d.ops["setptr"] = [&](A a) {L(a).data()[a[1].i] = (int8)a[2].i; return none;};
   d.ops["get"] = [&](A a) {return vt::J({vt::J(L(a).get(a[1].i))});};
   d.ops["getidx"] = [&](A a) {const ByteArray& c = L(a); return vt::J({vt::J(c[a[1].i])});};
   d.ops["fill"] = [&](A a) {L(a).fill((uint8)a[1].i); return none;};
   d.ops["swap"] = [&](A a) {L(a).replace((uint8)a[1].i, (uint8)a[2].i); return none;};
   d.ops["splice"] = [&](A a) {L(a).replace(a[1].i, a[2].i, *b[a[3].i], a[4].i); return none;};
   d.ops["resize"] = [&](A a) {L(a).resize(a[1].i); return none;};
   d.ops["sort"] = [&](A a) {L(a).sort(); return none;};
   d.ops["equal"] = [&](A a) {return vt::J({vt::J(L(a) == *b[a[1].i])});};
   d.ops["push"] = [&](A a) {stk->push(a[0].i); return none;};
   auto need = [] {if(!stk->hasElements())abort();};
   d.ops["pop"] = [&](A) {need(); return vt::J({vt::J((long long)stk->pop())});};
   d.ops["top"] = [&](A) {need(); return vt::J({vt::J((long long)(stk->top() == *stk->topRef() ? stk->top() : -1))});};
   d.ops["settop"] = [&](A a) {need(); *stk->topRef() = a[0].i; return none;};
   d.ops["nth"] = [&](A a) {return vt::J({vt::J((long long)(a[0].i == 2 ? stk->top2() : stk->top3()))});};
   d.ops["reverse"] = [&](A) {stk->reverse(); return none;};
   d.ops["clearstack"] = [&](A) {stk->clear(); return none;};
   d.obs = []
   {
      std::vector<std::string> r, f;
      for(int v = 1; v < 4; v++)
      {
         ByteArray& x = *b[v];
         r.push_back(vt::JL((const unsigned char*)x.constData(), x.size()));
         bool term = x.isNull() || (x.constData()[x.size()] == 0 && (const char*)x.data() == x.constData());
         f.push_back(vt::J({vt::J(x.isNull()), vt::J(x.isEmpty()), vt::J(term)}));
      }
      return vt::J({vt::J(r), vt::J(f), vt::J({vt::J((long long)stk->size()), vt::J(stk->hasElements())})});
   };
   return d.run(argc, argv);
}
