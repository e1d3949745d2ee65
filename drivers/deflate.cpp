// Decompression and compression. Streams are written by the specification; only the reading calls are real.
#include "vt.hpp"
using namespace jm;

static Inflater* reused[2] = {nullptr, nullptr};
static int turn = 0;

static std::string inflate(bool raw, const std::string& s)
{
   std::vector<uint8> in(s.begin(), s.end());
   in.shrink_to_fit();
   uint8* out = nullptr;
   int64 n = -1;
   Inflater* inf;
   turn++;
   // a fresh object, with or without reset, or one that has been used before
   if(turn % 3 == 0)inf = raw ? new Inflater(true) : new Inflater();
   else
   {
      Inflater*& r = reused[raw];
      if(r == nullptr || turn % 3 == 1)r = raw ? new Inflater(true) : new Inflater();
      inf = r;
      inf->Reset();
   }
   inf->SetInput(in.data(), (int64)in.size());
   inf->Inflate(out, n);
   std::string ret = vt::J({vt::JL(out, n), vt::J(inf->GetTotalOut()), vt::J(inf->Finished() && !inf->NeedsInput())});
   delete[] out;
   return ret;
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   for(auto name : {"header", "stored", "fix", "dyn", "type3", "tokens", "close"})d.ops[name] = [&](A) {return none;};
   d.ops["new"] = [&](A)
   {
      for(auto& r : reused)
      {
         delete r;
         r = nullptr;
      }
      turn = 0;
      return none;
   };
   d.ops["inflate"] = [&](A a) {return inflate(false, vt::bytes(a[1]));};
   d.ops["inflraw"] = [&](A a) {return inflate(true, vt::bytes(a[1]));};
   static Deflater* def = new Deflater();
   d.ops["deflate"] = [&](A a)
   {
      std::string s = vt::bytes(a[0]);
      std::vector<uint8> in(s.begin(), s.end());
      in.shrink_to_fit();
      // how: 0 a new compressor, 1 one used before and reset, 2 the same one goes on
      if(a[1].i == 0)
      {
         delete def;
         def = new Deflater();
      }
      else if(a[1].i == 1)def->reset();
      uint8* out = nullptr;
      int64 n = -1;
      def->setInput(in.data(), (int64)in.size());
      def->deflate(out, n);
      std::string z((char*)out, (size_t)n);
      uint8* back = nullptr;
      int64 m = -1;
      Inflater inf;
      inf.SetInput(out, n);
      inf.Inflate(back, m);
      std::string ret = vt::J({vt::JB(z), vt::J(def->totalInSize()), vt::J(def->totalOutSize()), vt::JL(back, m)});
      delete[] out;
      delete[] back;
      return ret;
   };
   return d.run(argc, argv);
}
