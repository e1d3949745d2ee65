// Matrices, vectors, transformations.
#include "vt.hpp"
#include <cmath>
using namespace jm;

static const long long BAD = -2000000001;
// a number that should be whole
static std::string N(double v)
{
   double k = std::floor(v + .5);
   return vt::J(std::fabs(v - k) < 1e-6 && std::fabs(k) < 2e9 ? (long long)k : BAD);
}
// to the nearest
static std::string S(double v, double scale)
{
   double k = std::floor(v * scale + .5);
   return vt::J(std::fabs(k) < 2e9 ? (long long)k : BAD);
}
static std::string show(const Matrix& m, double scale = 0)
{
   std::vector<std::string> rows;
   for(int64 i = 0; i < m.m; i++)
   {
      std::vector<std::string> r;
      for(int64 j = 0; j < m.n; j++) r.push_back(scale ? S(m.get(i, j), scale) : N(m.get(i, j)));
      rows.push_back(vt::J(r));
   }
   return vt::J(rows);
}
static std::string show(const Vertex3& v, double s = 0)
{
   return s ? vt::J({S(v.x, s), S(v.y, s), S(v.z, s)}) : vt::J({N(v.x), N(v.y), N(v.z)});
}
static std::string show(const Vertex2& v, double s = 0)
{
   return s ? vt::J({S(v.x, s), S(v.y, s)}) : vt::J({N(v.x), N(v.y)});
}
static std::string show(const Vector& v, double s = 0)
{
   std::vector<std::string> r;
   for(int64 i = 0; i < v.m; i++) r.push_back(s ? S(v.data[i], s) : N(v.data[i]));
   return vt::J(r);
}
static double D(const vt::Arg& a) {return (double)a.i;}
static Vertex3 V3(const vt::Arg& a) {return Vertex3(D(a.v[0]), D(a.v[1]), D(a.v[2]));}
static Vertex2 V2(const vt::Arg& a) {return Vertex2(D(a.v[0]), D(a.v[1]));}
static Vector VN(const vt::Arg& a)
{
   Vector v((int64)a.v.size());
   for(size_t i = 0; i < a.v.size(); i++) v.data[i] = D(a.v[i]);
   return v;
}
static Matrix make(const vt::Arg& a)
{
   int64 r = (int64)a.v.size(), c = r ? (int64)a.v[0].v.size() : 0;
   if(r == 1 && c == 1) return Matrix(D(a.v[0].v[0]));
   Matrix m(r, c);
   for(int64 i = 0; i < r; i++)
      for(int64 j = 0; j < c; j++) m.set(i, j, D(a.v[(size_t)i].v[(size_t)j]));
   return m;
}
static double quarter(const vt::Arg& a) {return (double)a.i * M_PI / 2;}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   typedef const vt::Args& A;
   std::string none = "[]";
   Matrix a, b;
   d.obs = [&] {return vt::J({show(a), show(b)});};
   d.ops["new"] = [&](A) {a = Matrix(); b = Matrix(); return none;};
   d.ops["zero"] = [&](A t) {a = Matrix(t[0].i, t[1].i); return none;};
   d.ops["mat"] = [&](A t) {a = make(t[0]); return none;};
   d.ops["rhs"] = [&](A t) {b = make(t[0]); return none;};
   d.ops["swap"] = [&](A) {Matrix x(a); a = b; b = x; return none;};
   d.ops["copy"] = [&](A) {Matrix x(&a); b = x; return none;};
   d.ops["set"] = [&](A t) {a.set(t[0].i - 1, t[1].i - 1, D(t[2])); return none;};
   d.ops["inc"] = [&](A t) {a.add(t[0].i - 1, t[1].i - 1, D(t[2])); return none;};
   d.ops["diag"] = [&](A t) {a.diag(D(t[0])); return none;};
   d.ops["zeros"] = [&](A) {a.zeros(); return none;};
   d.ops["transpose"] = [&](A) {a.transpose(); return none;};
   d.ops["insert"] = [&](A t) {t[0].i || t[1].i ? a.insert(b, t[0].i, t[1].i) : a.insert(b); return none;};
   d.ops["mul"] = [&](A) {a = a * b; return none;};
   d.ops["plus"] = [&](A) {a = a + b; return none;};
   d.ops["minus"] = [&](A) {a = a - b; return none;};
   int way = 0;
   d.ops["times"] = [&](A t) {a = way++ % 2 ? D(t[0]) * a : a * D(t[0]); return none;};
   d.ops["over"] = [&](A t) {a = a / D(t[0]); return none;};
   d.ops["rows3"] = [&](A t) {a = Matrix(V3(t[0]), V3(t[1]), V3(t[2]), t[3].i != 0); return none;};
   d.ops["det"] = [&](A)
   {
      double v = 0.5;
      Status s = a.det(v);
      return vt::J({vt::J(s == Status::eOK), N(v)});
   };
   d.ops["inverse"] = [&](A)
   {
      Matrix m(a);
      Status s = m.inverse();
      return vt::J({vt::J(s == Status::eOK), show(m, 1000)});
   };
   d.ops["noinverse"] = d.ops["inverse"];
   d.ops["facts"] = [&](A) {return vt::J({N(a.norm(MatrixNorm::kNormInf)), N(a.norm(MatrixNorm::kNorm1)), N(a.trace()), vt::J(a.nonZeroElementCount())});};
   d.ops["apply"] = [&](A t) {return show(a * VN(t[0]));};
   d.ops["apply3"] = [&](A t) {return show(a * V3(t[0]));};
   d.ops["eigen"] = [&](A) {return show(a.eigen(), 100);};
   d.ops["eigenInt"] = d.ops["eigen"];
   d.ops["identity"] = [&](A) {b = a; a.initIdentity(); return none;};
   d.ops["moving"] = [&](A t) {b = a; a.initMoving(V3(t[0])); return none;};
   d.ops["scaling"] = [&](A t) {b = a; a.initScaling(V3(t[0])); return none;};
   d.ops["scalingAt"] = [&](A t) {b = a; a.initScaling(V3(t[0]), D(t[1])); return none;};
   d.ops["mirroring"] = [&](A t) {b = a; a.initMirroring(V3(t[0]), V3(t[1])); return none;};
   d.ops["rotationZ"] = [&](A t) {b = a; a.initRotationZ(quarter(t[0])); return none;};
   d.ops["rotation"] = [&](A t) {b = a; a.initRotation(V3(t[0]), V3(t[1]), quarter(t[2])); return none;};
   d.ops["image"] = [&](A t) {return vt::J({show(a.trans(V3(t[0])))});};
   d.ops["length"] = [&](A t) {return vt::J({S(a.trans(D(t[0])), 100)});};
   d.ops["angle"] = [&](A t)
   {
      double g = a.transAngle(quarter(t[0]));
      return vt::J({S(std::cos(g), 10000), S(std::sin(g), 10000)});
   };
   d.ops["turned"] = [&](A t)
   {
      Matrix m;
      m.initRotation(V3(t[0]), V3(t[1]) / D(t[2]), quarter(t[4]));
      return show(m.trans(V3(t[3])), 1000);
   };
   d.ops["mirrored"] = [&](A t)
   {
      Matrix m;
      m.initMirroring(V3(t[0]), V3(t[1]) / D(t[2]));
      return show(m.trans(V3(t[3])), 1000);
   };
   d.ops["ocs"] = [&](A t)
   {
      Vertex3 n = V3(t[0]) / D(t[1]), p = V3(t[2]);
      Matrix w;
      w.initWcs(n);
      // into the system and back, by the functions and by the transformation
      return vt::J({show(ocsMatrix(n), 10000), show(ocsToWcs(wcsToOcs(p, n), n), 1000), show(w.trans(ocsMatrix(n) * p), 1000)});
   };
   d.ops["uv"] = [&](A t)
   {
      Vertex3 u = V3(t[0]), v = V3(t[1]);
      Matrix m = Matrix::generate3x3RotationMatrix(u, v);
      double det = 0;
      m.det(det);
      return vt::J({show(m * u, 1000), show(m * u.crossProduct(v), 1000), show(m * V3(t[2]), 1000), S(det, 1000)});
   };
   d.ops["v3"] = [&](A t)
   {
      Vertex3 u = V3(t[0]), v = V3(t[1]), s = u, m = u;
      double k = D(t[2]);
      s += v;
      m -= v;
      return vt::J({show(u.crossProduct(v)), N(u.dotProduct(v)), show(u + v), show(u - v), show(s), show(m), show(k * u), show(u * k), show(u.scale(v)),
                    show((u * k) / k), N(u.biggest()), vt::J(u.isCollinear(v)), vt::J(u.isOrthogonal(v)), vt::J(u.isNull()), vt::J(u == v), vt::J(u != v),
                    vt::J(u.isValid() && !Vertex3(0, 0, std::nan("")).isValid())});
   };
   d.ops["v2"] = [&](A t)
   {
      Vertex2 u = V2(t[0]), v = V2(t[1]), s = u, m = u;
      double k = D(t[2]);
      s += v;
      m -= v;
      return vt::J({N(u.crossProduct(v)), N(u.dotProduct(v)), show(u + v), show(u - v), show(s), show(m), show(k * u), show(u * k), show(u.scale(v)),
                    show((u * k) / k), vt::J(u.isRightTo(v)), vt::J(u.isLeftTo(v)), vt::J(u.isCollinear(v)), vt::J(u.isOrthogonal(v)), vt::J(u == v),
                    vt::J(u != v), vt::J(u.isValid() && !Vertex2(std::nan(""), 0).isValid())});
   };
   d.ops["vn"] = [&](A t)
   {
      Vector u = VN(t[0]), v = VN(t[1]);
      Vector s = u + v, m = u - v, k = D(t[2]) * u, z(u), o;
      z.zeros();
      o = u;
      o.ones();
      return vt::J({N(u.dotProduct(v)), show(s), show(m), show(k), show(z), show(o)});
   };
   d.ops["conv"] = [&](A t)
   {
      Vertex3 v = V3(t[0]), c(v), e;
      Vertex2 w(v), g;
      e = v;
      return vt::J({show(w), show(Vertex3(w, D(t[1]))), show(Vertex3(w)), show(c), show(e), show(Vertex3()), show(g), show(Point(w).toVertex2()),
                    show(Point(v.x, v.z).toVertex2())});
   };
   d.ops["len"] = [&](A t)
   {
      bool null = true;
      for(auto& e : t[0].v) null = null && e.i == 0;
      Vector n = VN(t[0]);
      double len = n.abs();
      if(!null) n.normalize();
      if(t[0].v.size() == 3)
      {
         Vertex3 v = V3(t[0]), w = v;
         w.normalize();
         return vt::J({S(v.abs(), 100), show(w, 1000), show(v.normalized(), 1000), show(n, 1000)});
      }
      if(t[0].v.size() == 2)
      {
         Vertex2 v = V2(t[0]), w = v;
         w.normalize();
         return vt::J({S(v.abs(), 100), show(w, 1000), show(v.normalized(), 1000), show(n, 1000)});
      }
      return vt::J({S(len, 100), show(n, 1000)});
   };
   d.ops["between"] = [&](A t)
   {
      double g = t[0].v.size() == 3 ? V3(t[0]).angleTo(V3(t[1])) : V2(t[0]).angleTo(V2(t[1]));
      return vt::J({S(g / (M_PI / 2), 10000)});
   };
   d.ops["turn2"] = [&](A t)
   {
      Vertex2 v = V2(t[0]), w = v.rotated(quarter(t[1]));
      v.rotate(quarter(t[1]));
      return vt::J({show(v), show(w)});
   };
   d.ops["turn3"] = [&](A t)
   {
      Vertex3 x = V3(t[0]), y = x, z = x, u = x, v = x, w = x, s = x;
      double q = quarter(t[1]);
      x.rotateX(q);
      y.rotateY(q);
      z.rotateZ(q);
      u.rotate(q, Vertex3(1, 0, 0));
      v.rotate(q, Vertex3(0, 1, 0));
      w.rotate(q, Vertex3(0, 0, 1));
      return vt::J({show(x), show(y), show(z), show(s.rotatedZ(q)), show(u), show(v), show(w)});
   };
   d.ops["independent"] = [&](A t) {return vt::J({vt::J(isLinearIndependent(V3(t[0]), V3(t[1]), V3(t[2])))});};
   d.ops["solve"] = [&](A t) {return show(solveLinearSystem(V2(t[0]), V2(t[1]), V2(t[2])), 1000);};
   return d.run(argc, argv);
}
