// Colours of the three modes and what is computed from them.
#include "vt.hpp"
#include <cmath>
using namespace jm;

static Color a, b;
static Color make(const vt::Args& t)
{
   auto p = [&](size_t i) {return (uint8)t[1].v[i].i;};
   uint8 al = (uint8)t[2].i;
   return t[0].i == 0 ? Color::fromGrey(p(0), al) : t[0].i == 1 ? Color::fromRgb(p(0), p(1), p(2), al) : Color::fromCmyk(p(0), p(1), p(2), p(3), al);
}
static std::string show(const Color& c)
{
   std::string q;
   switch(c.mode())
   {
      case ColorMode::kGrey: q = vt::J({vt::J(c.grey())}); break;
      case ColorMode::kRgb: q = vt::J({vt::J(c.red()), vt::J(c.green()), vt::J(c.blue())}); break;
      case ColorMode::kCmyk: q = vt::J({vt::J(c.cyan()), vt::J(c.magenta()), vt::J(c.yellow()), vt::J(c.key())}); break;
   }
   return vt::J({vt::J((int)c.mode()), q, vt::J(c.alpha())});
}
// -999999: not a number, or too large for the trace
static std::string milli(float f)
{
   double d = std::floor((double)f * 1000 + .5);
   return vt::J(d > -1e6 && d < 1e6 ? (long long)d : -999999);
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   typedef const vt::Args& A;
   std::string none = "[]";
   d.obs = [] {return vt::J({show(a), show(b)});};
   d.ops["new"] = [&](A) {a = Color(); b = Color(); return none;};
   d.ops["a"] = [&](A t) {a = make(t); return none;};
   d.ops["b"] = [&](A t) {b = make(t); return none;};
   d.ops["copy"] = [&](A) {Color c(a); b = c; return none;};
   d.ops["part"] = [&](A t)
   {
      uint8 v = (uint8)t[1].i;
      switch(a.mode())
      {
         case ColorMode::kGrey: a.setGrey(v); break;
         case ColorMode::kRgb: t[0].i == 1 ? a.setRed(v) : t[0].i == 2 ? a.setGreen(v) : a.setBlue(v); break;
         case ColorMode::kCmyk: t[0].i == 1 ? a.setCyan(v) : t[0].i == 2 ? a.setMagenta(v) : t[0].i == 3 ? a.setYellow(v) : a.setKey(v); break;
      }
      return none;
   };
   d.ops["alpha"] = [&](A t) {a.setAlpha((uint8)t[0].i); return none;};
   d.ops["rgb"] = [&](A) {a.toRgb(); return none;};
   d.ops["grey"] = [&](A) {a.toGreyScale(); return none;};
   d.ops["cmyk"] = [&](A) {a.toCmyk(); return none;};
   d.ops["plus"] = [&](A) {a = a + b; return none;};
   d.ops["minus"] = [&](A) {a = a - b; return none;};
   d.ops["same"] = [&](A) {return vt::J({vt::J(a == b), vt::J(a != b)});};
   d.ops["white"] = [&](A) {return vt::J({vt::J(a.isWhite())});};
   d.ops["hsv"] = [&](A)
   {
      float h = -1, s = -1, v = -1;
      a.hsvModel(h, s, v);
      return vt::J({milli(h), milli(s), milli(v)});
   };
   d.ops["fromhsv"] = [&](A t)
   {
      return show(Color::FromHsv((float)t[0].i, (float)t[1].i / 100.0f, (float)t[2].i / 100.0f, (float)t[3].i / 100.0f));
   };
   d.ops["viahsv"] = [&](A)
   {
      float h = -1, s = -1, v = -1;
      a.hsvModel(h, s, v);
      return show(Color::FromHsv(h, s, v));
   };
   d.ops["blend"] = [&](A t) {return show(blend(b, a, (uint8)t[0].i));};
   d.ops["mix"] = [&](A t) {return show(interpolate(a, b, (float)t[0].i / 8.0f));};
   return d.run(argc, argv);
}
