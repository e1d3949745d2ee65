// Writing and reading XML.
#include "vt.hpp"
#include <memory>
using namespace jm;

static std::vector<long long> units(const String& s)
{
   std::vector<long long> o;
   for(int64 i = 0; i < s.size(); i++)o.push_back(s.charAt(i).unicode());
   return o;
}
static std::string js(const std::vector<long long>& v) {return vt::JL(v.data(), (long long)v.size());}
static std::string js(const String& s) {return js(units(s));}

struct Reader: public SAXParser
{
   std::vector<std::string> items;
   std::vector<long long> pending;
   int depth = 0, documents = 0;
   void text(const String& s)
   {
      if(depth < 1)return;
      for(auto u : units(s))pending.push_back(u);
   }
   void flush()
   {
      if(pending.size())items.push_back("[\"text\"," + js(pending) + "]");
      pending.clear();
   }
   void characters(const String& s) override {text(s);}
   void ignorableWhiteSpaces(const String& s) override {text(s);}
   void startDocument() override {documents++;}
   void endDocument() override {documents += 10;}
   void startElement(const String&, const String& local, const String& q, const SAXAttributes& in) override
   {
      flush();
      depth++;
      SAXAttributes a(in), b;
      b.addAttribute("", "x", "x", "y");
      b = a;
      std::vector<std::string> at;
      for(uint32 i = 0; i < b.count(); i++)
      {
         String n = b.qualifiedName(i), v = b.value(i);
         if(!b.value(n).equals(v) || !b.hasValue(n) || b.indexOf(n) != (int32)i)n = "?";
         if(b.indexOf("", n) != (int32)i || !b.value("", n).equals(v) || !b.type(i).equals("CDATA") || !b.type(n).equals("CDATA") ||
               !b.type("", n).equals("CDATA") || b.uri(i).size() != 0 || (n.indexOf(Char(':')) < 0 && !b.localName(i).equals(n)))n = "!";
         at.push_back("[" + js(n) + "," + js(v) + "]");
      }
      if(b.hasValue("\"") || b.indexOf("\"") != -1 || b.value("\"").size() || b.value("", "\"").size() || !local.equals(q.substring(q.lastIndexOf(':') + 1)))at.push_back("[[0],[0]]");
      items.push_back("[\"start\"," + js(q) + "," + vt::J(at) + "]");
   }
   void endElement(const String&, const String& local, const String& q) override
   {
      flush();
      depth--;
      if(!local.equals(q.substring(q.lastIndexOf(':') + 1)))items.push_back("[\"local\"]");
      items.push_back("[\"end\"," + js(q) + "]");
   }
   std::string all()
   {
      flush();
      if(documents != 11)items.push_back("[\"documents\"]");
      return vt::J(items);
   }
};

static std::string slurp(const char* n)
{
   std::string s;
   if(FILE* h = fopen(n, "rb"))
   {
      int c;
      while((c = fgetc(h)) != EOF)s += (char)c;
      fclose(h);
   }
   return s;
}
// UTF-8 without characters beyond U+FFFF
static std::vector<long long> decode(const std::string& s)
{
   std::vector<long long> o;
   for(size_t i = 0; i < s.size();)
   {
      unsigned char c = (unsigned char)s[i];
      int n = c < 0x80 ? 0 : c >= 0xC0 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : -1;
      long long v = n == 0 ? c : n == 1 ? c & 31 : c & 15;
      if(n < 0 || i + (size_t)n >= s.size())return {0};
      for(int k = 1; k <= n; k++)v = v << 6 | (s[i + (size_t)k] & 63);
      o.push_back(v);
      i += (size_t)n + 1;
   }
   return o;
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   std::string none = "[]", dir = getenv("VT_SCRATCH");
   typedef const vt::Args& A;
   std::unique_ptr<File> file;
   std::unique_ptr<XMLWriter> w;
   auto begin = [&]
   {
      file.reset(new File(String((dir + "/w.xml").c_str())));
      w.reset(new XMLWriter(file.get()));
      w->startDocument();
   };
   d.obs = [] {return std::string("[]");};
   d.ops["new"] = [&](A)
   {
      if(file && file->isOpen())file->close();
      begin();
      return none;
   };
   d.ops["start"] = [&](A a) {w->startElement(vt::str(a[0])); return none;};
   d.ops["attr"] = [&](A a)
   {
      String n = vt::str(a[0]), v = vt::str(a[1]);
      std::string k = a.size() > 2 ? a[2].s : "s", t = vt::bytes(a[1]);
      if(k == "i32")w->writeAttribute(n, (int32)strtol(t.c_str(), nullptr, 10));
      else if(k == "u32")w->writeAttribute(n, (uint32)strtoul(t.c_str(), nullptr, 10));
      else if(k == "i64")w->writeAttribute(n, (int64)strtoll(t.c_str(), nullptr, 10));
      else if(k == "u64")w->writeAttribute(n, (uint64)strtoull(t.c_str(), nullptr, 10));
      else if(k == "d")w->writeAttribute(n, strtod(t.c_str(), nullptr));
      else if(k == "f")w->writeAttribute(n, strtof(t.c_str(), nullptr));
      else w->writeAttribute(n, v);
      return none;
   };
   d.ops["text"] = [&](A a) {w->writeCData(vt::str(a[0])); return none;};
   d.ops["raw"] = [&](A a) {w->writeCData(vt::str(a[0]), false); return none;};
   d.ops["base64"] = [&](A a)
   {
      std::string b = vt::bytes(a[0]);
      std::unique_ptr<uint8[]> p(new uint8[b.size()]);
      std::copy(b.begin(), b.end(), p.get());
      w->WriteBase64(p.get(), (int64)b.size());
      return none;
   };
   d.ops["indent"] = [&](A) {w->startIndent(); return none;};
   d.ops["unindent"] = [&](A) {w->endIndent(); return none;};
   d.ops["end"] = [&](A) {w->endElement(); return none;};
   d.ops["finish"] = [&](A)
   {
      w->endDocument();
      std::vector<long long> t = decode(slurp((dir + "/w.xml").c_str()));
      Reader r;
      File f(String((dir + "/w.xml").c_str()));
      r.parse(f);
      std::string o = "[" + js(t) + "," + r.all() + "]";
      begin();
      return o;
   };
   auto parse = [&](const vt::Arg& a)
   {
      String t = vt::str(a);
      Reader r;
      if(a.v.size() % 2)r.parse(t);
      else
      {
         std::string n = dir + "/r.xml";
         ByteArray b = t.toCString();
         FILE* h = fopen(n.c_str(), "wb");
         fwrite(b.constData(), 1, (size_t)b.size(), h);
         fclose(h);
         File f(String(n.c_str()));
         r.parse(f);
      }
      return r.all();
   };
   d.ops["parse"] = [&](A a) {return "[" + parse(a[0]) + "]";};
   d.ops["typed"] = [&](A a)
   {
      struct Typed: public SAXParser
      {
         SAXAttributes at;
         void characters(const String&) override {}
         void ignorableWhiteSpaces(const String&) override {}
         void startDocument() override {}
         void endDocument() override {}
         void startElement(const String&, const String&, const String&, const SAXAttributes& in) override {at = in;}
         void endElement(const String&, const String&, const String&) override {}
      } p;
      String t = "<a";
      for(auto& x : a[0].v)
      {
         t << String(" ") << vt::str(x.v[0]) << String("=\"") << vt::str(x.v[1]) << String("\"");
      }
      p.parse(t << String("/>"));
      std::vector<std::string> r;
      for(auto& x : a[0].v)
      {
         String n = vt::str(x.v[0]);
         std::string i = "[]";
         try
         {
            std::string s = std::to_string(p.at.valueAsInt(n)), g;
            bool neg = s[0] == '-';
            for(size_t k = neg; k < s.size(); k++)g += (k > neg ? "," : "") + std::string(1, s[k]);
            i = "[" + vt::J(neg) + ",[" + g + "]]";
         }
         catch(const Exception&) {}
         long long e = 0;
         if(x.v[2].i)
         {
            double v = 8 * p.at.valueAsDouble(n);
            e = v == (double)(long long)v && 8 * p.at.valueAsFloat(n) == (float)v ? (long long)v : 999999999;
         }
         r.push_back(vt::J({i, vt::J(p.at.valueAsBool(n)), vt::J(e)}));
      }
      return vt::J(r);
   };
   d.ops["junk"] = [&](A a)
   {
      try {parse(a[0]);}
      catch(const Exception&) {}
      return none;
   };
   return d.run(argc, argv);
}
