// Properties and variants.
#include "vt.hpp"
#include <cmath>
using namespace jm;

static Property p[3];
static Variant v[2];
static std::string whole(int64 n) {return vt::J({vt::J((long long)(n >> 60)), vt::J((long long)((n >> 30) & 0x3fffffff)), vt::J((long long)(n & 0x3fffffff))});}
static int64 wholeOf(const vt::Arg& a) {return (int64)((uint64)a.v[0].i * (1ULL << 60) + (uint64)a.v[1].i * (1ULL << 30) + (uint64)a.v[2].i);}
// a number that is no quarter, or too large, cannot have been set by the script
static std::string quarters(double d)
{
   double q = d * 4;
   return vt::J(q == std::floor(q) && std::fabs(q) < 1e9 ? (long long)q : -999999999LL);
}
static std::string number(int64 i, bool b, double d) {return vt::J({whole(i), vt::J(b ? 1 : 0), quarters(d)});}
static bool truth(const void* q) {return *(const unsigned char*)q != 0;}
static std::string show(const Property& q)
{
   std::string d = vt::J({vt::JS(q.id()), vt::JS(q.group()), vt::JS(q.name()), vt::JS(q.hint()), vt::JS(q.editor()), vt::J(q.isReadOnly()),
                          vt::J((int)q.changeMode()), vt::J(q.allowEmpty())});
   int64 n = q.integerValue();
   // asked for only where it is one: any other byte would be no boolean
   bool b = (n & 255) <= 1 ? q.boolValue() : truth(&n);
   return vt::J({d, vt::JS(q.icon()), vt::JS(q.stringValue()), vt::J((int)q.type()), number(n, b, q.doubleValue())});
}
static std::string show(const Variant& q)
{
   return vt::J({vt::J((int)q.mType), vt::JS(q.toString()), number(q.toInt64(), truth(&q.mNumberValue), q.toDouble())});
}
static Property make(const vt::Arg& a)
{
   PropertyChangeMode m[] = {PropertyChangeMode::kItself, PropertyChangeMode::kOthers, PropertyChangeMode::kCount};
   return Property(vt::str(a.v[0]), vt::str(a.v[1]), vt::str(a.v[2]), vt::str(a.v[3]), vt::str(a.v[4]), a.v[5].i != 0, m[a.v[6].i], a.v[7].i != 0);
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   typedef const vt::Args& A;
   std::string none = "[]";
   auto P = [](const vt::Arg& a) -> Property& {return p[a.i - 1];};
   auto V = [](const vt::Arg& a) -> Variant& {return v[a.i - 1];};
   d.obs = [] {return vt::J({vt::J({show(p[0]), show(p[1]), show(p[2])}), vt::J({show(v[0]), show(v[1])})});};
   d.ops["new"] = [&](A)
   {
      for(Property& q : p) q = Property();
      for(Variant& q : v) q = Variant();
      return none;
   };
   d.ops["make"] = [&](A a) {P(a[0]) = make(a[1]); return none;};
   d.ops["short"] = [&](A a)
   {
      P(a[0]) = Property(vt::str(a[1].v[0]), vt::str(a[1].v[1]), vt::str(a[1].v[2]), vt::str(a[1].v[3]), vt::str(a[1].v[4]));
      return none;
   };
   d.ops["named"] = [&](A a) {P(a[0]) = Property(vt::str(a[1])); return none;};
   d.ops["text"] = [&](A a) {return vt::J(P(a[0]).setStringValue(vt::str(a[1])) == Status::eOK);};
   d.ops["whole"] = [&](A a) {return vt::J(P(a[0]).setIntegerValue(wholeOf(a[1])) == Status::eOK);};
   d.ops["real"] = [&](A a) {return vt::J(P(a[0]).setDoubleValue(a[1].i / 4.0) == Status::eOK);};
   d.ops["truth"] = [&](A a) {return vt::J(P(a[0]).setBoolValue(a[1].i != 0) == Status::eOK);};
   d.ops["unit"] = [&](A a) {return vt::J(P(a[0]).setUnitValue(a[1].i / 4.0, vt::str(a[2])) == Status::eOK);};
   d.ops["kind"] = [&](A a) {P(a[0]).setType((PropertyType)a[1].i); return none;};
   d.ops["icon"] = [&](A a) {P(a[0]).setIcon(vt::str(a[1])); return none;};
   d.ops["take"] = [&](A a) {P(a[0]).setValue(P(a[1])); return none;};
   d.ops["assign"] = [&](A a) {Property q(P(a[1])); P(a[0]) = q; return none;};
   d.ops["equals"] = [&](A a) {return vt::J(P(a[0]).isValueEquals(P(a[1])));};
   d.ops["same"] = [&](A a) {return vt::J(P(a[0]) == P(a[1]));};
   d.ops["is"] = [&](A a) {return vt::J(P(a[0]).is(vt::str(a[1])));};
   d.ops["vwhole"] = [&](A a) {V(a[0]) = Variant(wholeOf(a[1])); return none;};
   d.ops["vreal"] = [&](A a) {V(a[0]) = Variant(a[1].i / 4.0); return none;};
   d.ops["vtext"] = [&](A a) {V(a[0]) = Variant(vt::str(a[1])); return none;};
   d.ops["vnew"] = [&](A a) {V(a[0]) = Variant(); return none;};
   d.ops["vassign"] = [&](A a) {V(a[0]) = V(a[1]); return none;};
   d.ops["vcopy"] = [&](A a) {Variant w(V(a[0])); return show(w);};
   d.ops["vsmall"] = [&](A a) {return whole(V(a[0]).toInt32());};
   return d.run(argc, argv);
}
