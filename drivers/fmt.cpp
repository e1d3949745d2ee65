// Numbers as texts, and templates.
#include "vt.hpp"
#include <cmath>
using namespace jm;

static String s;

static std::string dec(const vt::Arg& neg, const vt::Arg& ds)
{
   std::string r = neg.i ? "-" : "";
   for(auto& d : ds.v)r += (char)('0' + d.i);
   return r;
}
static double dbl(const vt::Args& a)
{
   double v = (double)a[1].i + (double)a[2].i / (double)(1LL << a[3].i);
   return a[0].i ? -v : v;
}
int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   auto i64 = [](A a) {return (int64)strtoll(dec(a[0], a[1]).c_str(), nullptr, 10);};
   auto u64 = [](A a) {return (uint64)strtoull(dec(a[0], a[1]).c_str(), nullptr, 10);};
   auto c = [](const vt::Arg& x) {return Char((uint16)x.i);};
   d.ops["new"] = [&](A) {s = String(); return none;};
   d.ops["tmpl"] = [&](A a) {s = vt::str(a[0]); return none;};
   d.ops["args"] = [&](A a) {s = s.arg(vt::str(a[0]), a[1].i, c(a[2])); return none;};
   d.ops["argc"] = [&](A a) {s = s.arg(c(a[0]), a[1].i, c(a[2])); return none;};
   d.ops["argi"] = [&](A a) {s = s.arg(i64(a), a[2].i, c(a[3])); return none;};
   d.ops["argi32"] = [&](A a) {s = s.arg((int32)i64(a), a[2].i, c(a[3])); return none;};
   d.ops["argu"] = [&](A a) {s = s.arg(u64(a), a[2].i, c(a[3])); return none;};
   d.ops["argu32"] = [&](A a) {s = s.arg((uint32)u64(a), a[2].i, c(a[3])); return none;};
   d.ops["argd"] = [&](A a) {s = s.arg(dbl(a), a[5].i, a[4].i, c(a[6])); return none;};
   d.ops["int"] = [&](A a)
   {
      String r = String::valueOf(i64(a));
      if(i64(a) == (int32)i64(a) && !r.equals(String::valueOf((int32)i64(a))))r = String("int32 differs");
      return vt::J({vt::JS(r)});
   };
   d.ops["uint"] = [&](A a)
   {
      String r = String::valueOf(u64(a));
      if(u64(a) == (uint32)u64(a) && !r.equals(String::valueOf((uint32)u64(a))))r = String("uint32 differs");
      return vt::J({vt::JS(r)});
   };
   d.ops["shl"] = [&](A a) {String r; r << i64(a); return vt::J({vt::JS(r)});};
   d.ops["dbl"] = [&](A a) {return vt::J({vt::JS(String::valueOf(dbl(a), a[4].i, a[5].i != 0))});};
   auto real = [](const vt::Arg& neg, const vt::Arg& ds, const vt::Arg& e)
   {
      std::string t = neg.i ? "-" : "";
      for(size_t k = 0; k < ds.v.size(); k++)t += (k == 1 ? "." : "") + std::string(1, (char)('0' + ds.v[k].i));
      return strtod((t + "e" + std::to_string(e.i)).c_str(), nullptr);
   };
   d.ops["real"] = [&, real](A a) {return vt::J({vt::JS(String::valueOf(real(a[0], a[1], a[2])))});};
   d.ops["truth"] = [&](A a) {return vt::J({vt::JS(String::valueOf(a[0].i == 1))});};
   d.ops["cat"] = [&](A a)
   {
      std::string t = dec(a[1], a[2]);
      int64 i = strtoll(t.c_str(), nullptr, 10);
      uint64 u = strtoull(t.c_str(), nullptr, 10);
      if(a[0].i == 0)s << i;
      else if(a[0].i == 1)s << u;
      else if(a[0].i == 2)s << (int32)i;
      else if(a[0].i == 3)s << (uint32)u;
      else s = s + i;
      return none;
   };
   d.ops["pre"] = [&](A a) {int64 v = i64(a); s = v + s; return none;};
   d.ops["catr"] = [&, real](A a)
   {
      double v = real(a[1], a[2], a[3]);
      if(a[0].i == 0)s << v;
      else s = s + v;
      return none;
   };
   d.ops["prer"] = [&, real](A a) {double v = real(a[0], a[1], a[2]); s = v + s; return none;};
   d.ops["catt"] = [&](A a)
   {
      std::string b = vt::bytes(a[1]);
      const char* p = b.c_str();
      if(a[0].i == 0)s = s + p;
      else if(a[0].i == 1)s += String(p);
      else if(a[0].i == 2)s << p[0];
      else if(a[0].i == 3)s = s + (int8)p[0];
      else s << Char((uint16)p[0]);
      return none;
   };
   d.ops["pret"] = [&](A a)
   {
      std::string b = vt::bytes(a[1]);
      const char* p = b.c_str();
      if(a[0].i == 0)s = p + s;
      else s = (int8)p[0] + s;
      return none;
   };
   d.ops["comma"] = [&](A a)
   {
      double v = (double)a[2].i + (double)a[3].i / (double)(1LL << a[4].i);
      return vt::J({vt::J(ConvertToDouble(vt::str(a[0])) == (a[1].i ? -v : v))});
   };
   d.ops["toint"] = [&](A a)
   {
      std::string t = std::to_string(vt::str(a[0]).toInt());
      bool neg = t[0] == '-';
      std::string r = "[";
      for(size_t i = neg; i < t.size(); i++)r += (i > neg ? "," : "") + std::string(1, t[i]);
      return vt::J({vt::J(neg), r + "]"});
   };
   d.ops["bool"] = [&](A a) {return vt::J({vt::J(vt::str(a[0]).toBool())});};
   d.ops["todbl"] = [&](A a)
   {
      // text, and the value it stands for
      double v = (double)a[2].i + (double)a[3].i / (double)(1LL << a[4].i);
      return vt::J({vt::J(vt::str(a[0]).toDouble() == (a[1].i ? -v : v))});
   };
   d.obs = [] {return vt::JS(s);};
   return d.run(argc, argv);
}
