// Points, sizes, rectangles and bounding boxes.
#include "vt.hpp"
#include <cmath>
using namespace jm;

// whole numbers only; -2000000001 for everything else
static std::string N(double v)
{
   return vt::J(std::floor(v) == v && std::fabs(v) < 2e9 ? (long long)v : -2000000001);
}
static std::string show(const Rect& r) {return vt::J({N(r.x()), N(r.y()), N(r.width()), N(r.height())});}
static std::string two(const Point& p) {return vt::J({N(2 * p.x()), N(2 * p.y())});}
static std::string one(const Point& p) {return vt::J({N(p.x()), N(p.y())});}
static std::string one(const Size& p) {return vt::J({N(p.width()), N(p.height())});}
static std::string box(const Extents& e)
{
   const Vertex3& a = e.minPoint(), &b = e.maxPoint();
   return vt::J({vt::J({N(a.x), N(b.x)}), vt::J({N(a.y), N(b.y)}), vt::J({N(a.z), N(b.z)})});
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   typedef const vt::Args& A;
   std::string none = "[]";
   Rect r, q;
   Extents b, c;
   auto D = [](const vt::Arg& a) {return (double)a.i;};
   d.obs = [&] {return vt::J({show(r), show(q), box(b), box(c)});};
   d.ops["new"] = [&](A) {r = Rect(); q = Rect(); b = Extents(); c = Extents(); return none;};
   int way = 0;
   auto make = [&](A t)
   {
      switch(way++ % 3)
      {
         case 0: return Rect(D(t[0]), D(t[1]), D(t[2]), D(t[3]));
         case 1: return Rect(Point(D(t[0]), D(t[1])), Size(D(t[2]), D(t[3])));
         default: return Rect(D(t[0]), D(t[1]), Size(Point(D(t[2]), D(t[3]))));
      }
   };
   d.ops["rect"] = [&](A t) {r = make(t); return none;};
   d.ops["other"] = [&](A t) {q = make(t); return none;};
   d.ops["swap"] = [&](A) {Rect x = r; r = q; q = x; return none;};
   d.ops["at"] = [&](A t)
   {
      switch(way++ % 3)
      {
         case 0: r.setX(D(t[0])); r.setY(D(t[1])); break;
         case 1: r.setOrigin(D(t[0]), D(t[1])); break;
         default: r.setOrigin(Point(D(t[0]), D(t[1])));
      }
      return none;
   };
   d.ops["size"] = [&](A t)
   {
      switch(way++ % 3)
      {
         case 0: r.setWidth(D(t[0])); r.setHeight(D(t[1])); break;
         case 1: r.setSize(D(t[0]), D(t[1])); break;
         default: r.setSize(Size(D(t[0]), D(t[1])));
      }
      return none;
   };
   d.ops["move"] = [&](A t)
   {
      if(way++ % 2) r.move(Point(D(t[0]), D(t[1])));
      else
      {
         r.moveHorizontal(D(t[0]));
         r.moveVertical(D(t[1]));
      }
      return none;
   };
   d.ops["top"] = [&](A t) {r.setTop(D(t[0])); return none;};
   d.ops["left"] = [&](A t) {r.setLeft(D(t[0])); return none;};
   d.ops["right"] = [&](A t) {r.setRight(D(t[0])); return none;};
   d.ops["bottom"] = [&](A t) {r.setBottom(D(t[0])); return none;};
   d.ops["shiftTop"] = [&](A t) {r.shiftTop(D(t[0])); return none;};
   d.ops["shiftLeft"] = [&](A t) {way++ % 2 ? r.shiftLeft(D(t[0])) : r.moveLeft(D(t[0])); return none;};
   d.ops["shiftRight"] = [&](A t) {way++ % 2 ? r.shiftRight(D(t[0])) : r.moveRight(D(t[0])); return none;};
   d.ops["shiftBottom"] = [&](A t) {way++ % 2 ? r.shiftBottom(D(t[0])) : r.moveBottom(D(t[0])); return none;};
   d.ops["alignTopLeft"] = [&](A) {r.alignTopLeft(q); return none;};
   d.ops["alignBottomLeft"] = [&](A) {r.alignBottomLeft(q); return none;};
   d.ops["normalize"] = [&](A) {r.normalize(); return none;};
   d.ops["unite"] = [&](A) {r.unionWith(q); return none;};
   d.ops["intersect"] = [&](A) {r.intersect(q); return none;};
   d.ops["relation"] = [&](A) {return vt::J({vt::J(r.intersects(q)), show(r.intersection(q))});};
   d.ops["contains"] = [&](A t)
   {
      return vt::J({vt::J(r.contains(D(t[0]), D(t[1]))), vt::J(r.contains(Point(D(t[0]), D(t[1])))), vt::J(r.contains(Vertex2(D(t[0]), D(t[1]))))});
   };
   d.ops["empty"] = [&](A) {return vt::J({vt::J(r.isEmpty())});};
   d.ops["points"] = [&](A)
   {
      return vt::J({two(r.topLeft()), two(r.topRight()), two(r.bottomLeft()), two(r.bottomRight()), two(r.topCenter()), two(r.bottomCenter()),
                    two(r.leftCenter()), two(r.rightCenter()), two(r.center()), one(r.origin()), one(r.size())});
   };
   d.ops["pair"] = [&](A t)
   {
      Point x(D(t[0].v[0]), D(t[0].v[1])), y(D(t[1].v[0]), D(t[1].v[1])), s = x, m = x;
      double k = D(t[2]);
      s += y;
      m -= y;
      Size u(x), v(y);
      return vt::J({one(x + y), one(x - y), one(s), one(m), one(x.cWiseMin(y)), one(x.cWiseMax(y)), one(k * x), one(x * k),
                    one(u.cWiseMin(v)), one(u.cWiseMax(v)), one(u - v), one(k * u), vt::J(u == v), vt::J(u != v)});
   };
   d.ops["add2"] = [&](A t) {b.add(Vertex2(D(t[0]), D(t[1]))); return none;};
   d.ops["add3"] = [&](A t) {b.add(Vertex3(D(t[0]), D(t[1]), D(t[2]))); return none;};
   d.ops["addBox"] = [&](A) {b.add(c); return none;};
   d.ops["swapBoxes"] = [&](A) {Extents x = b; b = c; c = x; return none;};
   d.ops["box"] = [&](A)
   {
      Vertex3 e = b.delta();
      return vt::J({vt::J(b.isValid()), box(b), vt::J({N(e.x), N(e.y), N(e.z)})});
   };
   return d.run(argc, argv);
}
