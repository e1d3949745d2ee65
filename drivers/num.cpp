// Numeric helpers.
#include "vt.hpp"
#include <cmath>
#include <algorithm>
using namespace jm;

static std::string N(double v)
{
   return vt::J(std::floor(v) == v && std::fabs(v) < 2e9 ? (long long)v : -2000000001);
}
static std::string near(double v)
{
   double k = std::floor(v + .5);
   return std::fabs(v - k) < .1 ? N(k) : N(.5);
}
template<class T> static std::string swapped(long long x, long long y)
{
   T a = (T)x, b = (T)y;
   jm::swap(a, b);
   return vt::J({vt::J((long long)a), vt::J((long long)b)});
}
template<class T> static std::string same(long long x)
{
   T a = (T)x;
   T& b = a;
   jm::swap(a, b);
   return vt::J({vt::J((long long)a)});
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   typedef const vt::Args& A;
   d.ops["new"] = [&](A) {return std::string("[]");};
   d.ops["div"] = [&](A t) {return vt::J({vt::J(divFloor(t[0].i, t[1].i)), vt::J(modFloor(t[0].i, t[1].i))});};
   d.ops["mod0"] = [&](A t) {return vt::J({vt::J(modFloor(t[0].i, 0))});};
   d.ops["round"] = [&](A t) {return vt::J({vt::J(jm::round((double)t[0].i / 8))});};
   d.ops["frac"] = [&](A t)
   {
      double p = std::pow(10, (double)t[1].i);
      return vt::J({near(roundFrac((double)t[0].i / 8, (int64)t[1].i) * p), near((double)roundFrac((float)t[0].i / 8, (int32)t[1].i) * p)});
   };
   // a million and some eighths
   d.ops["fracBig"] = [&](A t)
   {
      double m = t[0].i * 1e6, p = std::pow(10, (double)t[2].i);
      return vt::J({near((roundFrac(m + (double)t[1].i / 8, (int64)t[2].i) - m) * p)});
   };
   d.ops["divBig"] = [&](A t)
   {
      int64 y = t[2].i, x = (t[0].i * 1000000000 + t[1].i) * y + t[3].i, q = divFloor(x, y);
      int64 lo = ((q % 1000000000) + 1000000000) % 1000000000;
      return vt::J({vt::J((q - lo) / 1000000000), vt::J(lo), vt::J(modFloor(x, y))});
   };
   d.ops["cmp"] = [&](A t)
   {
      double x = (double)t[0].i + (double)t[1].i * 1e-7, y = (double)t[0].i + (double)t[2].i * 1e-7;
      return vt::J({vt::J(isEqual(x, y)), vt::J(isNotEqual(x, y)), vt::J(isLess(x, y)), vt::J(isLessEqual(x, y)), vt::J(isGreater(x, y)),
                    vt::J(isGreaterEqual(x, y))});
   };
   d.ops["sign"] = [&](A t) {return vt::J({vt::J(sign((double)t[0].i / 8))});};
   d.ops["pow2"] = [&](A t)
   {
      uint32 x = (uint32)t[0].i << 16 | (uint32)t[1].i;
      uint32 p = ceilPowerOf2(x);
      return vt::J({vt::J(powerOf2((int32)x)), vt::J(p >> 16), vt::J(p & 65535)});
   };
   d.ops["nopow"] = [&](A t) {return vt::J({vt::J(powerOf2((int32)t[0].i))});};
   d.ops["swap"] = [&](A t)
   {
      long long x = t[1].i, y = t[2].i;
      switch(t[0].i)
      {
         case 0: return swapped<uint8>(x, y);
         case 1: return swapped<uint16>(x, y);
         case 2: return swapped<uint32>(x, y);
         case 3: return swapped<int32>(x, y);
         default: return swapped<double>(x, y);
      }
   };
   d.ops["swapSame"] = [&](A t)
   {
      long long x = t[1].i;
      switch(t[0].i)
      {
         case 0: return same<uint8>(x);
         case 1: return same<uint16>(x);
         case 2: return same<uint32>(x);
         case 3: return same<int32>(x);
         default: return same<double>(x);
      }
   };
   d.ops["random"] = [&](A t)
   {
      long long lo = 1LL << 40, hi = -lo;
      for(int i = 0; i < 2000; i++)
      {
         long long v = jm::random((int32)t[0].i, (int32)t[1].i);
         lo = std::min(lo, v);
         hi = std::max(hi, v);
      }
      return vt::J({vt::J(lo), vt::J(hi)});
   };
   d.ops["unit"] = [&](A)
   {
      bool in = true, sure = true;
      for(int i = 0; i < 2000; i++)
      {
         double v = jm::random();
         in = in && v >= 0 && v <= 1;
         sure = sure && probability(1.0);
      }
      return vt::J({vt::J(in), vt::J(sure)});
   };
   d.ops["mix"] = [&](A t)
   {
      double x = (double)t[0].i, y = (double)t[1].i, k = (double)t[2].i / 8;
      return vt::J({N(8 * interpolate(x, y, k)), N(8.0 * (double)interpolate((float)x, (float)y, (float)k))});
   };
   d.ops["mix5"] = [&](A t)
   {
      return vt::J({N((double)(t[3].i - t[2].i) * interpolate((double)t[0].i, (double)t[1].i, (double)t[2].i, (double)t[3].i, (double)t[4].i))});
   };
   d.ops["deg"] = [&](A t)
   {
      double r = degToRad((double)t[0].i);
      return vt::J({N(std::floor(r * 1e6 + .5)), near(radToDeg(r) * 1000)});
   };
   d.ops["nan"] = [&](A) {return vt::J({vt::J(isNaN(std::nan(""))), vt::J(isNaN(0)), vt::J(isNaN(INFINITY))});};
   d.ops["eps"] = [&](A)
   {
      return vt::J({vt::J(doubleMaschineEpsilon() == std::ldexp(1.0, -53)), vt::J(floatMaschineEpsilon() == std::ldexp(1.0f, -24))});
   };
   return d.run(argc, argv);
}
