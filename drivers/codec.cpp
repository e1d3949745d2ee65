// Notations of bytes and numbers.
#include "vt.hpp"
#include <memory>
using namespace jm;

static std::string b, t;
static int64 h;

static std::string nibbles(int64 v)
{
   std::string s = "[";
   for(int i = 15; i >= 0; i--)s += std::to_string((unsigned)(((uint64)v >> (4 * i)) & 15)) + (i ? "," : "");
   return s + "]";
}

static std::unique_ptr<uint8[]> exact(const std::string& s)
{
   std::unique_ptr<uint8[]> p(new uint8[s.size()]);
   std::copy(s.begin(), s.end(), p.get());
   return p;
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   d.obs = [] {return "[" + vt::JB(b) + "," + vt::JB(t) + "," + nibbles(h) + "]";};
   d.ops["new"] = [&](A) {b = t = ""; h = 0; return none;};
   d.ops["bytes"] = [&](A a) {b = vt::bytes(a[0]); return none;};
   d.ops["text"] = [&](A a) {t = vt::bytes(a[0]); return none;};
   d.ops["enc64"] = [&](A)
   {
      auto in = exact(b);
      int64 n = (int64)b.size();
      uint8* r = Base64::encode(in.get(), n);
      t = std::string((const char*)r, (size_t)n);
      delete[] r;
      return none;
   };
   d.ops["dec64"] = [&](A)
   {
      auto in = exact(t);
      uint32 n = (uint32)t.size();
      uint8* r = Base64::decode(in.get(), n);
      b = std::string((const char*)r, n);
      delete[] r;
      return none;
   };
   d.ops["crc"] = [&](A a)
   {
      auto in = exact(b);
      return "[" + vt::J(CRC::crc8((uint16)a[0].i, in.get(), (uint32)b.size())) + "]";
   };
   auto num = [](A a)
   {
      uint64 v = 0;
      for(auto& e : a[1].v)v = v * 10 + (uint64)e.i;
      h = (int64)(a[0].i ? 0 - v : v);
   };
   d.ops["num"] = [&](A a) {num(a); return none;};
   d.ops["digits"] = [&](A a) {num(a); return "[" + vt::J(Integer::digits(h)) + "]";};
   d.ops["hex"] = [&](A) {return "[" + vt::JS(Integer::toHexString(h)) + "]";};
   d.ops["fromhex"] = [&](A a) {h = Integer::fromHex(vt::str(a[0])); return none;};
   d.ops["parthex"] = [&](A a) {h = Integer::fromHex(vt::str(a[0]), (uint32)a[1].i, (uint32)a[2].i); return none;};
   d.ops["roman"] = [&](A a) {return "[" + vt::JS(Integer::toRomanString(a[0].i)) + "]";};
   d.ops["latin"] = [&](A) {return "[" + vt::JS(Integer::toLatinAlphabetString(h)) + "]";};
   return d.run(argc, argv);
}
