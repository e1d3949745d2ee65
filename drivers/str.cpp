// String variables: edits, queries, comparison and hashing.
#include "vt.hpp"
using namespace jm;

static const int NV = 4;
static String* var[NV + 1];

static String& V(const vt::Arg& a)
{
   return *var[a.i];
}
static Char C(const vt::Arg& a)
{
   return Char((uint16)a.i);
}
static String fresh(const String& s)
{
   std::vector<uint16> u;
   for(int64 i = 0; i < s.size(); i++)u.push_back(s.charAt(i).unicode());
   u.push_back(0);
   return String(u.data(), s.size());
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   for(int i = 1; i <= NV; i++)var[i] = new String();
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   d.ops["new"] = [&](A)
   {
      for(int i = 1; i <= NV; i++)
      {
         delete var[i];
         var[i] = new String();
      }
      return none;
   };
   // ---- edits
   d.ops["lit"] = [&](A a)
   {
      std::vector<uint16> u;
      for(auto& e : a[1].v)u.push_back((uint16)e.i);
      u.push_back(0);
      V(a[0]) = String(u.data(), (int64)u.size() - 1);
      return none;
   };
   d.ops["litc"] = [&](A a) {V(a[0]) = String(vt::bytes(a[1]).c_str()); return none;};
   d.ops["litn"] = [&](A a)
   {
      std::string b = vt::bytes(a[1]);
      delete var[a[0].i];
      var[a[0].i] = new String(b.data(), (int64)b.size());
      return none;
   };
   d.ops["assign"] = [&](A a) {V(a[0]) = V(a[1]); return none;};
   d.ops["copy"] = [&](A a)
   {
      String* n = new String(V(a[1]));
      delete var[a[0].i];
      var[a[0].i] = n;
      return none;
   };
   d.ops["append"] = [&](A a) {V(a[0]).append(V(a[1])); return none;};
   d.ops["pluseq"] = [&](A a) {V(a[0]) += V(a[1]); return none;};
   d.ops["shl"] = [&](A a) {V(a[0]) << V(a[1]); return none;};
   d.ops["appendc"] = [&](A a) {V(a[0]).append(C(a[1])); return none;};
   d.ops["plus"] = [&](A a) {V(a[0]) = V(a[1]) + V(a[2]); return none;};
   d.ops["insertc"] = [&](A a) {V(a[0]).insert(a[1].i, C(a[2])); return none;};
   d.ops["inserts"] = [&](A a) {V(a[0]).insert(a[1].i, V(a[2])); return none;};
   d.ops["deletec"] = [&](A a) {V(a[0]).deleteCharAt(a[1].i); return none;};
   d.ops["deleter"] = [&](A a) {V(a[0]).deleteCharRangeAt(a[1].i, a[2].i); return none;};
   d.ops["setc"] = [&](A a) {V(a[0]).setCharAt(a[1].i, C(a[2])); return none;};
   d.ops["clear"] = [&](A a) {V(a[0]).clear(); return none;};
   d.ops["zero"] = [&](A a) {V(a[0]).zero(); return none;};
   d.ops["sub"] = [&](A a) {V(a[0]) = V(a[1]).substring(a[2].i, a[3].i); return none;};
   d.ops["tail"] = [&](A a) {V(a[0]) = V(a[1]).substring(a[2].i); return none;};
   d.ops["lower"] = [&](A a) {V(a[0]) = V(a[1]).toLowerCase(); return none;};
   d.ops["upper"] = [&](A a) {V(a[0]) = V(a[1]).toUpperCase(); return none;};
   d.ops["trim"] = [&](A a) {V(a[0]) = V(a[1]).trim(); return none;};
   d.ops["reverse"] = [&](A a) {V(a[0]) = V(a[1]).reverse(); return none;};
   d.ops["replc"] = [&](A a) {V(a[0]) = V(a[1]).replace(C(a[2]), C(a[3])); return none;};
   d.ops["repls"] = [&](A a) {V(a[0]) = V(a[1]).replace(V(a[2]), V(a[3])); return none;};
   // ---- queries
   d.ops["get"] = [&](A a) {return vt::J({vt::J(V(a[0]).charAt(a[1].i).unicode())});};
   d.ops["size"] = [&](A a) {return vt::J({vt::J(V(a[0]).size()), vt::J(V(a[0]).isEmpty())});};
   d.ops["units"] = [&](A a)
   {
      uint16* w = V(a[0]).toWString();
      std::string r = vt::JL(w, V(a[0]).size() + 1);
      delete[] w;
      return r;
   };
   d.ops["idxc"] = [&](A a)
   {
      return vt::J({vt::J(V(a[0]).indexOf(C(a[1]), a[2].i)), vt::J(V(a[0]).indexOf(C(a[1])))});
   };
   d.ops["idxs"] = [&](A a)
   {
      return vt::J({vt::J(V(a[0]).indexOf(V(a[1]), a[2].i)), vt::J(V(a[0]).indexOf(V(a[1])))});
   };
   d.ops["lidxc"] = [&](A a) {return vt::J({vt::J(V(a[0]).lastIndexOf(C(a[1])))});};
   d.ops["lidxcf"] = [&](A a) {return vt::J({vt::J(V(a[0]).lastIndexOf(C(a[1]), a[2].i))});};
   d.ops["lidxs"] = [&](A a)
   {
      return vt::J({vt::J(V(a[0]).lastIndexOf(V(a[1]), a[2].i)), vt::J(V(a[0]).lastIndexOf(V(a[1])))});
   };
   d.ops["starts"] = [&](A a)
   {
      return vt::J({vt::J(V(a[0]).startsWith(V(a[1]))), vt::J(V(a[0]).endsWith(V(a[1])))});
   };
   d.ops["at"] = [&](A a)
   {
      return vt::J({vt::J(V(a[0]).atIs(a[1].i, V(a[2]))), vt::J(V(a[0]).atIsIgnoreCase(a[1].i, V(a[2])))});
   };
   d.ops["count"] = [&](A a) {return vt::J({vt::J(V(a[0]).count(C(a[1])))});};
   d.ops["split"] = [&](A a)
   {
      StringList l = V(a[0]).split(C(a[1]));
      std::vector<std::string> r;
      for(int64 i = 0; i < l.size(); i++)r.push_back(vt::JS(l.get(i)));
      return vt::J(r);
   };
   // ---- agreement
   d.ops["eq"] = [&](A a)
   {
      const String& s = V(a[0]);
      const String& t = V(a[1]);
      const Object* o = &t;
      return vt::J({vt::J(s.equals(t)), vt::J(s == t), vt::J(s != t), vt::J(s.equals(o)), vt::J(s.compareTo(t)),
                    vt::J(s < t), vt::J(s.equalsIgnoreCase(t))});
   };
   d.ops["natural"] = [&](A a) {return vt::J({vt::J(V(a[0]).compareFancyTo(V(a[1])))});};
   d.ops["chars"] = [&](A a)
   {
      std::vector<std::string> r;
      for(long long x = a[1].i; x <= a[2].i; x++)
      {
         Char c = Char((uint16)x);
         r.push_back(vt::J({vt::J(c.isWhitespace()), vt::J(c.isDigit()), vt::J(c.isLetter()), vt::J(c.isUpperCase()), vt::J(c.isLowerCase()),
                            vt::J(c.digitValue()), vt::J(c.toLowerCase().unicode()), vt::J(c.toUpperCase().unicode())}));
      }
      return vt::J(r);
   };
   d.ops["charcmp"] = [&](A a)
   {
      Char x = C(a[1]), y = C(a[2]);
      return vt::J({vt::J(x == y), vt::J(x != y), vt::J(x < y), vt::J(x <= y), vt::J(x > y), vt::J(x >= y)});
   };
   // How the code was obtained must not matter: remembered or not, through the const method or not, from
   // this variable, another equal one or a new string with the same characters.
   d.ops["hash"] = [&](A a)
   {
      String& s = V(a[0]);
      String& t = V(a[1]);
      bool c1 = a[2].i == 0 || s.constHashCode() == fresh(s).constHashCode();
      int64 h = s.hashCode();
      String n = fresh(s);
      bool c2 = h == s.hashCode() && h == s.constHashCode();
      bool c3 = h == n.constHashCode() && h == n.hashCode() && h == String(s).hashCode();
      bool c4 = !(s == t) || (t.constHashCode() == h && t.hashCode() == h);
      return vt::J({vt::J(c1), vt::J(c2), vt::J(c3), vt::J(c4)});
   };
   d.obs = []
   {
      std::vector<std::string> r;
      for(int i = 1; i <= NV; i++)r.push_back(vt::JS(*var[i]));
      return vt::J(r);
   };
   return d.run(argc, argv);
}
