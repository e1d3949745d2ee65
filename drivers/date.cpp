// Dates and their texts. A time is a day number and the milliseconds of the day.
#include "vt.hpp"
using namespace jm;

static Date cur(int64(0));
static const int64 DAY = 86400000LL;
static int64 ms(const vt::Arg& d, const vt::Arg& m) {return d.i * DAY + m.i;}
static std::string time2(int64 t)
{
   int64 d = t / DAY, m = t % DAY;
   if(m < 0)
   {
      m += DAY;
      d--;
   }
   return "[" + vt::J(d) + "," + vt::J(m) + "]";
}
static std::string text(const String& s)
{
   std::string o = "[";
   for(int64 i = 0; i < s.size(); i++)o += (i ? "," : "") + std::to_string(s.charAt(i).unicode());
   return o + "]";
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   d.obs = [] {return cur.isEmpty() ? std::string("[]") : time2(cur.time());};
   d.ops["new"] = [&](A) {cur = Date(int64(0)); return none;};
   d.ops["set"] = [&](A a) {cur = Date(ms(a[0], a[1])); return none;};
   d.ops["settime"] = [&](A a) {cur.setTime(ms(a[0], a[1])); return none;};
   d.ops["empty"] = [&](A) {cur.setTime(Date::EMPTY); return none;};
   d.ops["day"] = [&](A a) {cur = Date((uint16)a[0].i, (uint16)a[1].i, (uint16)a[2].i); return none;};
   d.ops["moment"] = [&](A a)
   {
      Date t((uint16)a[0].i, (uint16)a[1].i, (uint16)a[2].i, (uint16)a[3].i, (uint16)a[4].i, (uint16)a[5].i, (uint16)a[6].i);
      Date u(t);
      cur = u;
      return none;
   };
   // seconds and eighths of a second since 2001
   d.ops["ns"] = [&](A a) {cur = Date::fromNSDate((double)a[0].i + (double)a[1].i / 8.0); return none;};
   d.ops["fields"] = [&](A)
   {
      const Date& c = cur;
      if(c.year() != c.utcYear() || c.month() != c.utcMonth() || c.date() != c.utcDate() || c.day() != c.utcDay() || c.hours() != c.utcHours() ||
         c.minutes() != c.utcMinutes() || c.seconds() != c.utcSeconds() || c.milliseconds() != c.utcMilliseconds())return std::string("[\"local\"]");
      return "[" + vt::J(c.year()) + "," + vt::J(c.month()) + "," + vt::J(c.date()) + "," + vt::J(c.day()) + "," + vt::J(c.dayOfYear()) + "," +
             vt::J(c.hours()) + "," + vt::J(c.minutes()) + "," + vt::J(c.seconds()) + "," + vt::J(c.milliseconds()) + "]";
   };
   d.ops["text"] = [&](A) {return "[" + text(cur.toString()) + "]";};
   d.ops["compare"] = [&](A a)
   {
      Date o(ms(a[0], a[1]));
      return "[" + vt::J(cur.compareTo(o)) + "," + vt::J(cur < o) + "," + vt::J(cur <= o) + "," + vt::J(cur == o) + "," + vt::J(cur != o) + "," +
             vt::J(cur >= o) + "," + vt::J(cur > o) + "]";
   };
   d.ops["format"] = [&](A a)
   {
      String p = vt::str(a[0]);
      DateFormatter f(p);
      String r = f.format(cur);
      if(!r.equals(f.format(cur)) || !r.equals(DateFormatter::format(p, cur)))return std::string("[\"differs\"]");
      return "[" + text(r) + "]";
   };
   return d.run(argc, argv);
}
