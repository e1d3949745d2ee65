// Script interpreter shared by the conformance drivers.
//
// A script line is "op tok tok ...": a token is an integer, a quoted word or a (nested) list without
// blanks, i.e. each token is a JSON value. For every line the driver performs the call on the real code
// and appends one JSON event to the trace:
//    {"op":op,"a":[tok,...],"x":0|1,"r":[...],"o":{...}}
// x = the call threw, r = what it returned, o = the observable state after it. The event is written only
// once the call has returned, so a call that crashes or hangs is the one missing from the trace.
#pragma once
#include "PrecompiledCore.hpp"
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>

namespace vt
{
   struct Arg
   {
      enum Kind {INT, STR, LIST} kind = INT;
      long long i = 0;
      std::string s;
      std::vector<Arg> v;

      std::vector<long long> ints() const
      {
         std::vector<long long> r;
         for(auto& e : v) r.push_back(e.i);
         return r;
      }
   };

   inline Arg parse(const char*& p)
   {
      Arg a;
      if(*p == '[')
      {
         a.kind = Arg::LIST;
         p++;
         while(*p && *p != ']')
         {
            a.v.push_back(parse(p));
            if(*p == ',') p++;
         }
         if(*p == ']') p++;
      }
      else if(*p == '"')
      {
         a.kind = Arg::STR;
         p++;
         while(*p && *p != '"') a.s += *p++;
         if(*p == '"') p++;
      }
      else
      {
         char* e;
         a.i = strtoll(p, &e, 10);
         a.s = std::string(p, (size_t)(e - p));
         if(e == p) p++;
         else p = e;
      }
      return a;
   }

   // JSON helpers. Everything is built from integers, so that a trace only holds numbers and lists.
   inline std::string J(long long v)
   {
      return std::to_string(v);
   }
   inline std::string J(const std::vector<std::string>& v)
   {
      std::string s = "[";
      for(size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i];
      return s + "]";
   }
   template<class T> std::string JL(const T* d, long long n)
   {
      std::string s = "[";
      for(long long i = 0; i < n; i++) s += (i ? "," : "") + std::to_string((long long)d[i]);
      return s + "]";
   }
   inline std::string JB(const std::string& bytes)
   {
      return JL((const unsigned char*)bytes.data(), (long long)bytes.size());
   }
   // The code units of a string, only through the public interface.
   inline std::string JS(const jm::String& str)
   {
      std::string s = "[";
      for(long long i = 0; i < str.size(); i++) s += (i ? "," : "") + std::to_string((int)str.charAt(i).unicode());
      return s + "]";
   }
   // A decimal text as a digit list (the trace checker has 32-bit integers only): sign first.
   inline std::string JD(const std::string& dec)
   {
      return JL((const unsigned char*)dec.data(), (long long)dec.size());
   }
   inline jm::String str(const Arg& a)
   {
      jm::String r;
      for(auto& e : a.v) r.append(jm::Char((uint16)e.i));
      return r;
   }
   inline std::string bytes(const Arg& a)
   {
      std::string r;
      for(auto& e : a.v) r += (char)e.i;
      return r;
   }

   typedef std::vector<Arg> Args;
   // Returns the "r" list (JSON text).
   typedef std::function<std::string(const Args&)> Handler;

   struct Driver
   {
      std::map<std::string, Handler> ops;
      std::function<std::string()> obs = [] {return std::string("0");};
      // called once the script and the trace are open
      std::function<void()> opened = [] {};
      unsigned opSeconds = 20;

      int run(int argc, char** argv)
      {
         if(argc < 3) return 2;
         FILE* in = fopen(argv[1], "r");
         int out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
         if(!in || out < 0) return 2;
         opened();
         char* line = nullptr;
         size_t cap = 0;
         ssize_t n;
         while((n = getline(&line, &cap, in)) > 0)
         {
            while(n > 0 && (line[n - 1] == '\n' || line[n - 1] == ' ')) line[--n] = 0;
            if(n == 0) continue;
            const char* p = line;
            std::string op;
            while(*p && *p != ' ') op += *p++;
            Args args;
            std::string json = "[";
            while(*p)
            {
               while(*p == ' ') p++;
               if(!*p) break;
               const char* b = p;
               args.push_back(parse(p));
               if(json.size() > 1) json += ",";
               json += std::string(b, p - b);
            }
            json += "]";
            auto it = ops.find(op);
            if(it == ops.end())
            {
               fprintf(stderr, "driver: unknown op %s\n", op.c_str());
               return 2;
            }
            std::string r = "[]";
            int x = 0;
            alarm(opSeconds);
            try
            {
               r = it->second(args);
            }
            catch(jm::Exception* e)
            {
               x = 1;
               delete e;
            }
            catch(jm::Exception&)
            {
               x = 1;
            }
            catch(std::exception&)
            {
               x = 1;
            }
            std::string o = obs();
            alarm(0);
            std::string ev = "{\"op\":\"" + op + "\",\"a\":" + json + ",\"x\":" + std::to_string(x) +
                             ",\"r\":" + (x ? "[]" : r) + ",\"o\":" + o + "}\n";
            const char* q = ev.data();
            size_t left = ev.size();
            while(left > 0)
            {
               ssize_t w = write(out, q, left);
               if(w <= 0) return 2;
               q += w;
               left -= (size_t)w;
            }
         }
         free(line);
         fclose(in);
         close(out);
         return 0;
      }
   };

   inline void init(int argc, char** argv)
   {
      (void)argc;
      (void)argv;
      jm::System::init(jm::String(""));
   }
}
