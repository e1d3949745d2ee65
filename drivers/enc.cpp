// Character sets.
#include "vt.hpp"
using namespace jm;

static String t;
static std::string b;

static std::string bytesOf(const ByteArray& a)
{
   // Encoded texts are used as C strings as well
   if(a.size() > 0 && a.constData()[a.size()] != 0)abort();
   return std::string(a.constData(), (size_t)a.size());
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   auto cs = [](A a) {return Charset::forName(String(a[0].s.c_str()));};
   d.ops["new"] = [&](A) {t = String(); b = ""; return none;};
   d.ops["text"] = [&](A a) {t = vt::str(a[0]); return none;};
   d.ops["bytes"] = [&](A a) {b = vt::bytes(a[0]); return none;};
   d.ops["enc"] = [&](A a)
   {
      std::string n = a[0].s;
      b = bytesOf(n == "UTF-8" ? t.toCString() : t.toCString(cs(a)));
      return none;
   };
   d.ops["encarr"] = [&](A a)
   {
      CharArray c(t.size());
      for(int64 i = 0; i < t.size(); i++)c.buffer[i] = t.charAt(i);
      CharArray copy(c), other(1);
      other = copy;
      b = bytesOf(cs(a)->encode(other));
      return none;
   };
   // byte array
   d.ops["dec"] = [&](A a)
   {
      ByteArray x((const uint8*)b.data(), (int64)b.size());
      t = a[0].s == "UTF-8" ? String(x) : String(x, cs(a));
      return none;
   };
   // buffer of stated size, not terminated
   d.ops["decn"] = [&](A a)
   {
      std::vector<char> x(b.begin(), b.end());
      x.shrink_to_fit();
      t = a[0].s == "UTF-8" && b.size() % 2 ? String(x.data(), (int64)x.size())
          : String(x.data(), (int64)x.size(), cs(a));
      return none;
   };
   // terminated buffer
   d.ops["decz"] = [&](A a)
   {
      std::vector<char> x(b.begin(), b.end());
      x.insert(x.end(), 2 + b.size() % 2, 0);
      x.shrink_to_fit();
      t = a[0].s == "UTF-8" && b.size() % 2 ? String(x.data()) : String(x.data(), cs(a));
      return none;
   };
   d.ops["decarr"] = [&](A a)
   {
      std::vector<char> x(b.begin(), b.end());
      x.insert(x.end(), 2 + b.size() % 2, 0);
      CharArray c = cs(a)->decode(x.data());
      t = String((const uint16*)c.buffer, c.length);
      return none;
   };
   d.ops["guess"] = [&](A)
   {
      std::vector<char> x(b.begin(), b.end());
      x.shrink_to_fit();
      return vt::J({"\"" + bytesOf(Charset::guess(x.data(), (int64)x.size()).toCString()) + "\""});
   };
   d.ops["known"] = [&](A a)
   {
      Charset* c = cs(a);
      return vt::J({"\"" + (c == nullptr ? std::string() : bytesOf(c->name().toCString())) + "\""});
   };
   // a character set of one's own, with a name and others
   d.ops["alias"] = [&](A a)
   {
      std::vector<String> names;
      for(auto& n : a[1].v)names.push_back(String(n.s.c_str()));
      Charset c(names[0], names.data() + 1, (uint8)(names.size() - 1), new RawDecoder());
      return vt::J({vt::J(c.hasName(String(a[0].s.c_str())))});
   };
   d.ops["urlenc"] = [&](A) {t = URLEncode(t); return none;};
   d.ops["urldec"] = [&](A) {t = URLDecode(t); return none;};
   d.obs = [] {return vt::J({vt::JS(t), vt::JB(b)});};
   return d.run(argc, argv);
}
