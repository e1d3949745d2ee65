// Geometry of lines, planes, circles and arcs.
#include "vt.hpp"
#include <cmath>
using namespace jm;

static const long long BAD = -2000000001;
static std::string S(double v, double scale)
{
   double k = std::floor(v * scale + .5);
   return vt::J(std::fabs(k) < 2e9 ? (long long)k : BAD);
}
static std::string show(const Vertex3& v, double s)
{
   return v.isValid() ? vt::J({S(v.x, s), S(v.y, s), S(v.z, s)}) : "[]";
}
static std::string show(const Vertex2& v, double s)
{
   return v.isValid() ? vt::J({S(v.x, s), S(v.y, s)}) : "[]";
}
static double D(const vt::Arg& a) {return (double)a.i;}
static Vertex3 V3(const vt::Arg& a) {return Vertex3(D(a.v[0]), D(a.v[1]), D(a.v[2]));}
static Vertex2 V2(const vt::Arg& a) {return Vertex2(D(a.v[0]), D(a.v[1]));}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   typedef const vt::Args& A;
   std::string none = "[]";
   d.obs = [&] {return none;};
   d.ops["new"] = [&](A) {return none;};
   d.ops["meetPlane"] = [&](A t) {return show(intersectionPointLineAndPlane(V3(t[0]), V3(t[1]), V3(t[2]), V3(t[3]), t[4].i != 0), 1000);};
   d.ops["plane"] = [&](A t)
   {
      Vertex3 p = V3(t[0]), q = V3(t[1]), n = V3(t[2]);
      return vt::J({show(closestPointOnPlane(p, q, n), 1000), S(distancePointToPlane(p, q, n), 100), vt::J(isPointOnPlane(p, q, n)),
                    vt::J(isPointOnPlane(p, q, n, D(t[3]) / 10))});
   };
   d.ops["line"] = [&](A t)
   {
      Vertex3 p = V3(t[0]), q = V3(t[1]), v = V3(t[2]);
      return vt::J({show(closestPointOnLine(p, q, v), 1000), S(distancePointToLine(p, q, v), 100), vt::J(isPointOnLine(p, q, v))});
   };
   d.ops["segment"] = [&](A t)
   {
      Vertex3 p = V3(t[0]), q = V3(t[1]), s = V3(t[2]);
      return vt::J({show(closestPointOnLine(p, q, s, false), 1000), show(closestPointOnLine(p, q, s, true), 1000),
                    S(distancePointToLine(p, q, s, false), 100), S(distancePointToLine(p, q, s, true), 100),
                    vt::J(isPointOnLine(p, q, s, false)), vt::J(isPointOnLine(p, q, s, true))});
   };
   d.ops["lines"] = [&](A t)
   {
      Vertex3 p = V3(t[0]), u = V3(t[1]), q = V3(t[2]), v = V3(t[3]);
      return vt::J({show(closestPointOnLine(p, u, q, v), 1000), show(closestPointOnLine(q, v, p, u), 1000), S(distanceLineToLine(p, u, q, v), 50),
                    show(intersectionPoint(p, u, q, v), 1000)});
   };
   d.ops["circle"] = [&](A t)
   {
      Vertex3 p = V3(t[0]), c = V3(t[1]), n = V3(t[3]);
      double r = D(t[2]);
      return vt::J({show(closestPointOnCircle(p, c, r, n), 100), S(distancePointToCircle(p, c, r, n), 100), vt::J(isPointOnCircle(p, c, r, n))});
   };
   d.ops["points3"] = [&](A t) {return vt::J({S(distancePointToPoint(V3(t[0]), V3(t[1])), 100), vt::J(isSamePoint(V3(t[0]), V3(t[1])))});};
   d.ops["points2"] = [&](A t) {return vt::J({S(distancePointToPoint(V2(t[0]), V2(t[1])), 100)});};
   d.ops["meet2"] = [&](A t) {return show(intersectionPoint(V2(t[0]), V2(t[1]), V2(t[2]), V2(t[3])), 1000);};
   d.ops["foot2"] = [&](A t) {return show(closestPointOnLine(V2(t[0]), V2(t[1]), V2(t[2])), 1000);};
   d.ops["crosses"] = [&](A t) {return vt::J({vt::J(crosses(V2(t[0]), V2(t[1]), V2(t[2]), V2(t[3])))});};
   d.ops["ray"] = [&](A t) {return show(extensionPointOnLine(V2(t[0]), V2(t[1]), V2(t[2]), V2(t[3])), 1000);};
   d.ops["arc"] = [&](A t)
   {
      Vertex2 u = V2(t[4]), w = V2(t[5]);
      return show(extensionPointOnArc(V2(t[0]), V2(t[1]), V2(t[2]), std::sqrt(D(t[3])), std::atan2(u.y, u.x) + 2 * M_PI * D(t[6]),
                                      std::atan2(w.y, w.x) + 2 * M_PI * D(t[7])), 1000);
   };
   d.ops["ellipse"] = [&](A t)
   {
      return show(extensionPointOnEllipse(V2(t[0]), V2(t[1]), V2(t[2]), D(t[4]) * V2(t[3]), D(t[5]) / D(t[6]), D(t[7]) * M_PI / 2, D(t[8]) * M_PI / 2), 1000);
   };
   d.ops["circles"] = [&](A t)
   {
      double s = D(t[4]);
      Vertex2 c = V2(t[0]) / s, e = V2(t[2]) / s, x(1, 1), y(2, 2);
      intersectionPointsOfCircles(c, D(t[1]) / s, e, D(t[3]) / s, x, y);
      return vt::J({show(x, 100 * s), show(y, 100 * s)});
   };
   d.ops["bisector"] = [&](A t)
   {
      Vertex3 u = V3(t[0]), v = V3(t[2]);
      return vt::J({show(angleBisector(u, v), 1000), show(angleBisector(Vertex2(u.x, u.y), Vertex2(v.x, v.y)), 1000)});
   };
   d.ops["through"] = [&](A t)
   {
      Vertex2 c;
      double r = -1;
      Status s = circleParameterBy3Points(c, r, V2(t[0]), V2(t[1]), V2(t[2]));
      return vt::J({vt::J(s == Status::eOK), show(c, 1000), S(r, 50)});
   };
   d.ops["touching"] = [&](A t)
   {
      Vertex2 c;
      Status s = circleParameterBy2TangentsRadius(c, D(t[0]), V2(t[1]), V2(t[2]), V2(t[3]), V2(t[4]));
      return vt::J({vt::J(s == Status::eOK), show(c, 100)});
   };
   return d.run(argc, argv);
}
