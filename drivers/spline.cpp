// NURBS curves.
#include "vt.hpp"
#include <cmath>
using namespace jm;

static const long long BAD = -2000000001;
static std::string S(double v)
{
   double k = std::floor(v * 100 + .5);
   return vt::J(std::fabs(k) < 2e9 ? (long long)k : BAD);
}
static std::string show(const Vertex3& v) {return vt::J({S(v.x), S(v.y), S(v.z)});}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   typedef const vt::Args& A;
   std::string none = "[]";
   Nurbs* c = nullptr;
   auto fresh = [&](Nurbs* n)
   {
      if(c) c->release();
      c = n;
   };
   d.obs = [&] {return vt::J({vt::J(c->controlPointCount())});};
   d.ops["new"] = [&](A) {fresh(new Nurbs()); return none;};
   d.ops["curve"] = [&](A t)
   {
      std::vector<Vertex3> p;
      std::vector<double> w, u;
      for(auto& x : t[1].v) p.push_back(Vertex3((double)x.v[0].i, (double)x.v[1].i, (double)x.v[2].i));
      for(auto& x : t[2].v) w.push_back((double)x.i);
      for(auto& x : t[3].v) u.push_back((double)x.i);
      fresh(new Nurbs((uint32)t[0].i, p.data(), (uint32)p.size(), u.data(), (uint32)u.size(), w.data(), (uint32)w.size()));
      return none;
   };
   d.ops["noCurve"] = [&](A)
   {
      Vertex3 p(1, 2, 3);
      double w = 1, u[2] = {0, 1};
      Nurbs n(0, &p, 1, u, 2, &w, 1);
      return none;
   };
   d.ops["at"] = [&](A t) {return show(c->point((double)t[0].i / (double)t[1].i));};
   d.ops["ends"] = [&](A) {return vt::J({show(c->point(c->knot(0))), show(c->point(c->end()))});};
   d.ops["facts"] = [&](A)
   {
      std::vector<std::string> u;
      for(uint32 i = 0; i < c->knotCount(); i++) u.push_back(vt::J((long long)c->knot(i)));
      return vt::J({vt::J(c->controlPointCount()), vt::J(u), vt::J((long long)c->end())});
   };
   return d.run(argc, argv);
}
