// Numbers in a buffer.
#include "vt.hpp"
using namespace jm;

static uint8* buf = nullptr;
static long long size = 0;

static std::string wide(uint64_t v)
{
   unsigned char b[8];
   for(int i = 7; i >= 0; i--, v >>= 8)b[i] = (unsigned char)v;
   return vt::JL(b, 8);
}
static std::string wf(float f) {uint32_t v; memcpy(&v, &f, 4); return wide(v);}
static std::string wd(double f) {uint64_t v; memcpy(&v, &f, 8); return wide(v);}
#define S(x) wide((uint64_t)(int64_t)(x))
#define U(x) wide((uint64_t)(x))

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   typedef const vt::Args& A;
   d.obs = [] {return vt::JL(buf, size);};
   d.ops["new"] = [&](A a)
   {
      delete[] buf;
      size = (long long)a[0].v.size();
      buf = new uint8[size];
      for(long long i = 0; i < size; i++)buf[i] = (uint8)a[0].v[i].i;
      return std::string("[]");
   };
   d.ops["put"] = [&](A a)
   {
      std::string k = a[0].s;
      uint32 at = (uint32)a[1].i;
      uint64_t v = a[2].v[0].i > 127 && k != "LEU16" && k != "LED" && k != "LEF" ? ~0ULL : 0;
      for(auto& x : a[2].v)v = v << 8 | (uint64_t)x.i;
      int r = -1;
      if(k == "BE16")r = serializeBEInt16(buf, at, (int16)v);
      if(k == "BE24")r = serializeBEInt24(buf, at, (int32)v);
      if(k == "BE32")r = serializeBEInt32(buf, at, (int32)v);
      if(k == "BE64")r = serializeBEInt64(buf, at, (int64)v);
      if(k == "LE16")r = serializeLEInt16(buf, at, (int16)v);
      if(k == "LEU16")r = serializeLEUInt16(buf, at, (uint16)v);
      if(k == "LE24")r = serializeLEInt24(buf, at, (int32)v);
      if(k == "LE32")r = serializeLEInt32(buf, at, (int32)v);
      if(k == "LE64")r = serializeLEInt64(buf, at, (int64)v);
      if(k == "LED")
      {
         double f;
         memcpy(&f, &v, 8);
         r = serializeLEDouble(buf, at, f);
      }
      if(k == "LEF")
      {
         uint32_t w = (uint32_t)v;
         float f;
         memcpy(&f, &w, 4);
         r = serializeLEFloat(buf, at, f);
      }
      return vt::J({vt::J(r)});
   };
   d.ops["get"] = [&](A a)
   {
      std::string k = a[0].s;
      uint32 at = (uint32)a[1].i;
      ByteArray b(size, 0);
      for(long long i = 0; i < size; i++)b[i] = buf[i];
      const ByteArray& c = b;
      std::vector<std::string> r;
      if(k == "BE16")r = {S(deserializeBEInt16(buf, at)), S(deserializeBEInt16(c, at))};
      if(k == "BEU16")r = {U(deserializeBEUInt16(buf, at))};
      if(k == "BEU32")r = {U(deserializeBEUInt32(buf, (int64)at)), U(deserializeBEUInt32(c, (int64)at))};
      if(k == "BE32")r = {S(deserializeBEInt32(c, at))};
      if(k == "BE64")r = {S(deserializeBEInt64(buf, at)), S(deserializeBEInt64(c, at))};
      if(k == "LEU16")r = {U(deserializeLEUInt16(buf, at)), U(deserializeLEUInt16(c, at))};
      if(k == "LE16")r = {S(deserializeLEInt16(buf, at)), S(deserializeLEInt16(c, at))};
      if(k == "LEU32")r = {U(deserializeLEUInt32(buf, at)), U(deserializeLEUInt32(c, at))};
      if(k == "LE32")r = {S(deserializeLEInt32(buf, at)), S(deserializeLEInt32(c, at))};
      if(k == "LE64")r = {S(deserializeLEInt64(buf, at)), S(deserializeLEInt64(c, at))};
      if(k == "LED")r = {wd(deserializeLEDouble(buf, at)), wd(deserializeLEDouble(c, at))};
      if(k == "LEF")r = {wf(deserializeLEFloat(buf, at))};
      return vt::J(r);
   };
   return d.run(argc, argv);
}
