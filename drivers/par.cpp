// Threads with things of their own, and things all of them only read, under every schedule.
#include "sched.hpp"
#include <streambuf>
using namespace jm;

typedef const std::vector<vt::Arg>& Ops;
static std::string show(const vt::Arg& a)
{
   if(a.kind == vt::Arg::STR)return "\"" + a.s + "\"";
   if(a.kind == vt::Arg::INT)return std::to_string(a.i);
   std::string s = "[";
   for(size_t i = 0; i < a.v.size(); i++)s += (i ? "," : "") + show(a.v[i]);
   return s + "]";
}
static void say(const std::string& s)
{
   sched::In in;
   sched::event(s);
}
// what the library prints: the place it prints to is one that all threads use
struct Out: public std::streambuf
{
   std::string text;
   void place() {sched::access(&text, 8, true);}
   int overflow(int c) override
   {
      place();
      sched::In in;
      text += (char)c;
      return c;
   }
   std::streamsize xsputn(const char* p, std::streamsize n) override
   {
      place();
      sched::In in;
      text.append(p, (size_t)n);
      return n;
   }
};
static Out* out;

// ---- read by all
static String* given;
static Hashtable* table;
static DateFormatter* form;
static Matrix* factor;
// ---- each thread's own
struct Own
{
   String s;
   Hashtable* m;
};
static Own* own[8];

static int64 i64(const vt::Arg& neg, const vt::Arg& ds)
{
   uint64 v = 0;
   for(auto& e : ds.v)v = v * 10 + (uint64)e.i;
   return (int64)(neg.i ? 0 - v : v);
}
static const int64 DAY = 86400000LL;
static std::string one(const std::string& v) {return "[" + v + "]";}
static std::string num(void* p) {return one(vt::J((long long)(intptr_t)p));}
struct Tags: public SAXParser
{
   long long n = 0;
   void characters(const String&) override {}
   void ignorableWhiteSpaces(const String&) override {}
   void startDocument() override {}
   void endDocument() override {}
   void startElement(const String&, const String&, const String&, const SAXAttributes&) override {n++;}
   void endElement(const String&, const String&, const String&) override {}
};
static std::string call(int t, const vt::Arg& o)
{
   const std::string& k = o.v[0].s;
   auto a = [&](size_t i) -> const vt::Arg& {return o.v[i + 1];};
   Own& w = *own[t];
   std::string none = "[]";
   if(k == "set")return w.s = vt::str(a(0)), none;
   if(k == "app")return w.s.append(vt::str(a(0))), none;
   if(k == "num")return w.s << String::valueOf(i64(a(0), a(1))), none;
   if(k == "up")return w.s = w.s.toUpperCase(), none;
   if(k == "low")return w.s = w.s.toLowerCase(), none;
   if(k == "rep")return w.s = w.s.replace(vt::str(a(0)), vt::str(a(1))), none;
   if(k == "trim")return w.s = w.s.trim(), none;
   if(k == "arg")return w.s = w.s.arg(vt::str(a(0))), none;
   if(k == "sub")return one(vt::JS(w.s.substring(a(0).i, a(1).i)));
   if(k == "get")return one(vt::JS(w.s));
   if(k == "put")return num(w.m->put(vt::str(a(0)), (void*)(intptr_t)a(1).i));
   if(k == "del")return num(w.m->remove(vt::str(a(0))));
   if(k == "look")return num(w.m->get(vt::str(a(0))));
   if(k == "roman")return one(vt::JS(Integer::toRomanString(a(0).i)));
   if(k == "hex")return one(vt::JS(Integer::toHexString(i64(a(0), a(1)))));
   if(k == "toint")return one(vt::J((long long)vt::str(a(0)).toInt()));
   if(k == "dbl")
   {
      double v = (double)a(1).i + (double)a(2).i / (double)(1LL << a(3).i);
      return one(vt::JS(String::valueOf(a(0).i ? -v : v, (int32)a(4).i, a(5).i != 0)));
   }
   if(k == "enc64")
   {
      std::string b = vt::bytes(a(0));
      int64 n = (int64)b.size();
      uint8* r = Base64::encode((uint8*)b.data(), n);
      std::string s = vt::JL(r, n);
      delete[] r;
      return one(s);
   }
   if(k == "dec64")
   {
      std::string b = vt::bytes(a(0));
      uint32 n = (uint32)b.size();
      uint8* r = Base64::decode((uint8*)b.data(), n);
      std::string s = vt::JL(r, n);
      delete[] r;
      return one(s);
   }
   if(k == "crc")
   {
      std::string b = vt::bytes(a(1));
      return one(vt::J(CRC::crc8((uint16)a(0).i, (uint8*)b.data(), (uint32)b.size())));
   }
   if(k == "enc" || k == "dec")
   {
      Charset* c = Charset::forName(String(a(0).s.c_str()));
      if(k == "dec")
      {
         std::string b = vt::bytes(a(1));
         return one(vt::JS(String(ByteArray((const uint8*)b.data(), (int64)b.size()), c)));
      }
      ByteArray r = vt::str(a(1)).toCString(c);
      return one(vt::JL((const uint8*)r.constData(), r.size()));
   }
   if(k == "urlenc")return one(vt::JS(URLEncode(vt::str(a(0)))));
   if(k == "date")return one(vt::JS(DateFormatter::format(vt::str(a(0)), Date(a(1).i * DAY + a(2).i))));
   if(k == "iso")return one(vt::JS(Date(a(0).i * DAY + a(1).i).toString()));
   if(k == "zip")
   {
      std::string b = vt::bytes(a(0));
      Deflater def;
      Inflater inf;
      uint8* z = nullptr;
      uint8* back = nullptr;
      int64 n = -1, m = -1;
      def.setInput((uint8*)b.data(), (int64)b.size());
      def.deflate(z, n);
      inf.SetInput(z, n);
      inf.Inflate(back, m);
      std::string s = vt::JL(back, m);
      delete[] z;
      delete[] back;
      return one(s);
   }
   if(k == "xml")
   {
      Tags p;
      p.parse(vt::str(a(0)));
      return one(vt::J(p.n));
   }
   if(k == "mul")
   {
      Matrix x(2, 2), y;
      for(int i = 0; i < 4; i++)x.set(i / 2, i % 2, (double)a(0).v[(size_t)i].i);
      y = x * *factor;
      long long r[4];
      for(int i = 0; i < 4; i++)r[i] = (long long)y.get(i / 2, i % 2);
      return one(vt::JL(r, 4));
   }
   if(k == "gup")return one(vt::JS(given->toUpperCase()));
   if(k == "gcopy")
   {
      w.s = *given;
      return none;
   }
   if(k == "gsub")return one(vt::JS(given->substring(a(0).i, a(1).i)));
   if(k == "gfind")return one(vt::J(given->indexOf(vt::str(a(0)))));
   if(k == "gsame")return one(vt::J(given->equals(vt::str(a(0)))));
   if(k == "glook")return num(table->get(vt::str(a(0))));
   if(k == "gdate")return one(vt::JS(form->format(Date(a(0).i * DAY + a(1).i))));
   if(k == "tr")return one(vt::JS(Tr(vt::str(a(0)))));
   if(k == "log")
   {
      System::log(vt::str(a(1)), a(0).i == 3 ? LogLevel::kError : a(0).i == 2 ? LogLevel::kWarning : LogLevel::kInformation);
      return none;
   }
   if(k == "err")
   {
      String e = System::lastErrorMessage();
      return one(vt::JS(e));
   }
   abort();
}
struct Script {int t; const vt::Arg* ops;};
static void* work(void* p)
{
   Script& x = *(Script*)p;
   for(auto& o : x.ops->v)
   {
      {
         sched::In in;
         say("[\"call\"," + std::to_string(x.t) + "," + show(o) + "]");
      }
      std::string r;
      try
      {
         r = call(x.t, o);
      }
      catch(Exception* e)
      {
         r = "[]";
      }
      catch(Exception& e)
      {
         r = "[]";
      }
      {
         sched::In in;
         say("[\"ret\"," + std::to_string(x.t) + "," + r + "]");
      }
   }
   return nullptr;
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   d.opSeconds = 600;
   typedef const vt::Args& A;
   System::logEnableDate(false);
   out = new Out();
   long long last = 0;
   bool all = false;
   d.obs = [&] {return vt::J({vt::J(last), vt::J(all)});};
   d.ops["new"] = [&](A) {last = 0; return std::string("[]");};
   // the text and the table all read; the calls of each thread; preemptions; schedules
   d.ops["par"] = [&](A a)
   {
      sched::Result r = sched::exploreConflicts([&]
      {
         sched::active = false;
         size_t nt = a[2].v.size();
         given = new String(vt::str(a[0]));
         table = new Hashtable();
         for(auto& e : a[1].v)table->put(vt::str(e.v[0]), (void*)(intptr_t)e.v[1].i);
         form = new DateFormatter("yyyy-MM-dd HH:mm:ss");
         factor = new Matrix(2, 2);
         for(int i = 0; i < 4; i++)factor->set(i / 2, i % 2, (double)(i + 1));
         auto old = std::cout.rdbuf(out);
         std::vector<Script> sc(nt);
         std::vector<pthread_t> id(nt);
         for(size_t t = 0; t < nt; t++)
         {
            own[t + 1] = new Own();
            own[t + 1]->m = new Hashtable();
            sc[t] = {(int)t + 1, &a[2].v[t]};
         }
         sched::active = true;
         for(size_t t = 0; t < nt; t++)sched::spawn(&id[t], work, &sc[t]);
         for(auto t : id)sched::join(t);
         sched::active = false;
         std::cout.rdbuf(old);
         std::string s = "[\"end\",[";
         for(size_t t = 0; t < nt; t++)s += (t ? "," : "") + vt::JS(own[t + 1]->s);
         s += "],[";
         std::string line;
         bool first = true;
         for(char c : out->text)
         {
            if(c != '\n')
            {
               line += c;
               continue;
            }
            s += (first ? "" : ",") + vt::JB(line);
            first = false;
            line = "";
         }
         if(!line.empty())s += std::string(first ? "" : ",") + vt::JB(line);
         sched::event(s + "]]");
      }, (int)a[3].i, a[4].i, 1);
      last = r.runs;
      all = r.all;
      return vt::J(r.histories);
   };
   return d.run(argc, argv);
}
