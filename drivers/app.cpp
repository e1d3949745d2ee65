// Runs of an application: settings, language, log. Every run is a process of its own; the driver sends it one call at a time.
// The directories an installed application looks into are redirected to the scratch directory, where all of this happens, as
// an unprivileged user when the runner is root.
#include "vt.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <grp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <cmath>
#include <thread>
#include <zlib.h>
using namespace jm;

static std::string root;

// ---- the resources of the application are in the scratch directory
static const char* over(const char* p, std::string& hold)
{
   if(p && !root.empty() && strncmp(p, "/usr/share/", 11) == 0)
   {
      const char* q = strchr(p + 11, '/');
      hold = root + "/res" + (q ? q : "");
      return hold.c_str();
   }
   return p;
}
#define NEXT(f) static auto next = (decltype(&f))dlsym(RTLD_NEXT, #f); std::string hold
extern "C"
{
   FILE* fopen(const char* p, const char* m) {NEXT(fopen); return next(over(p, hold), m);}
   FILE* fopen64(const char* p, const char* m) {NEXT(fopen64); return next(over(p, hold), m);}
   int open(const char* p, int f, ...)
   {
      va_list l;
      va_start(l, f);
      int m = va_arg(l, int);
      va_end(l);
      NEXT(open);
      return next(over(p, hold), f, m);
   }
   int open64(const char* p, int f, ...)
   {
      va_list l;
      va_start(l, f);
      int m = va_arg(l, int);
      va_end(l);
      NEXT(open64);
      return next(over(p, hold), f, m);
   }
   int access(const char* p, int m) noexcept {NEXT(access); return next(over(p, hold), m);}
   int stat(const char* __restrict p, struct stat* __restrict s) noexcept {NEXT(stat); return next(over(p, hold), s);}
   int stat64(const char* __restrict p, struct stat64* __restrict s) noexcept {NEXT(stat64); return next(over(p, hold), s);}
   int lstat(const char* __restrict p, struct stat* __restrict s) noexcept {NEXT(lstat); return next(over(p, hold), s);}
   int lstat64(const char* __restrict p, struct stat64* __restrict s) noexcept {NEXT(lstat64); return next(over(p, hold), s);}
   DIR* opendir(const char* p) {NEXT(opendir); return next(over(p, hold));}
}

static std::string home() {return root + "/home";}
static std::string text(const String& s)
{
   ByteArray b = s.toCString();
   return std::string(b.constData(), (size_t)b.size());
}
static void wipe(const std::string& dir)
{
   if(DIR* p = opendir(dir.c_str()))
   {
      while(dirent* e = readdir(p))
      {
         std::string n = e->d_name, f = dir + "/" + n;
         if(n == "." || n == "..")continue;
         struct stat st;
         if(lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
         {
            wipe(f);
            rmdir(f.c_str());
         }
         else unlink(f.c_str());
      }
      closedir(p);
   }
}
static std::string slurp(const std::string& p, size_t from)
{
   std::string s;
   FILE* f = fopen(p.c_str(), "rb");
   if(!f)return s;
   fseek(f, (long)from, SEEK_SET);
   int c;
   while((c = fgetc(f)) != EOF)s += (char)c;
   fclose(f);
   return s;
}
static std::string show(const vt::Arg& a)
{
   if(a.kind == vt::Arg::INT)return std::to_string(a.i);
   if(a.kind == vt::Arg::STR)return "\"" + a.s + "\"";
   std::vector<std::string> v;
   for(auto& e : a.v)v.push_back(show(e));
   return vt::J(v);
}

// ---- one run
static int made = 0, gone = 0, wrong = 0;
struct Thing: public Object
{
   bool dead = false;
   Thing() {made++;}
   ~Thing()
   {
      if(dead)wrong++;
      dead = true;
      gone++;
   }
};
static std::string out;
static size_t mark()
{
   std::cout.flush();
   fflush(stdout);
   struct stat st;
   return stat(out.c_str(), &st) == 0 ? (size_t)st.st_size : 0;
}
static String numbered(int t, int j)
{
   std::string s = "m" + std::to_string(t) + "." + std::to_string(j) + std::string((size_t)(t * 7 + j * 3) % 40, 'x');
   return String(s.c_str());
}
static std::string err() {return vt::JS(System::lastErrorMessage());}
static std::string call(const std::string& op, const vt::Args& a)
{
   std::string none = "[]";
   Preferences* p = System::preferences();
   if(op == "who")return vt::J({vt::JS(System::bundleId()), vt::JS(System::userId()), vt::J(p != nullptr), vt::JS(System::language().replace('-', '_'))});
   if(op == "set") {p->setValue(vt::str(a[1]), vt::str(a[2])); return none;}
   if(op == "get")return vt::J({vt::JS(p->value(vt::str(a[1]))), vt::J(p->hasValue(vt::str(a[1])))});
   if(op == "save") {System::savePreferences(); return vt::J({err()});}
   if(op == "tr")return vt::J({vt::JS(Tr(vt::str(a[1])))});
   if(op == "pick")
   {
      Resource r = I18nBundle::transFileByBundleId(vt::str(a[1]), vt::str(a[2]));
      I18nBundle b(vt::str(a[2]));
      bool there = r.exists();
      if(there)b.appendMo(&r);
      return vt::J({vt::J(there), vt::JS(b.translate(vt::str(a[3])))});
   }
   if(op == "date") {System::logEnableDate(a[1].i != 0); return none;}
   if(op == "label") {System::logEnableLabel((LogLevel)a[1].i); return none;}
   if(op == "log")
   {
      size_t m = mark();
      std::string before = text(Date().toString());
      System::log(vt::str(a[2]), (LogLevel)a[1].i);
      std::string after = text(Date().toString());
      mark();
      return vt::J({vt::JB(slurp(out, m)), vt::JB(before), vt::JB(after)});
   }
   if(op == "logs")
   {
      size_t m = mark();
      std::vector<std::thread> t;
      std::atomic<int> ready(0);
      int n = (int)a[1].i;
      for(int i = 1; i <= n; i++)t.emplace_back([&, i]
      {
         ready++;
         while(ready < n)std::this_thread::yield();
         for(int j = 1; j <= a[2].i; j++)System::log(numbered(i, j), (LogLevel)a[3].i);
      });
      for(auto& x : t)x.join();
      mark();
      return vt::J({vt::JB(slurp(out, m)), err()});
   }
   if(op == "err")return vt::J({err()});
   if(op == "auto")
   {
      for(int i = 0; i < a[1].i; i++)(new Thing())->autorelease();
      return vt::J({vt::J(made - gone)});
   }
   if(op == "drain") {System::autoreleasePool()->drain(); return vt::J({vt::J(made - gone)});}
   if(op == "places")
   {
      char b[4096];
      ssize_t k = readlink("/proc/self/exe", b, sizeof b);
      std::string exe(b, (size_t)k), name = exe.substr(exe.rfind('/') + 1), dir = exe.substr(0, exe.rfind('/'));
      const char* h = getenv("HOME");
      return vt::J({vt::J(text(ExecPath()) == exe), vt::J(text(ExecName()) == name), vt::J(text(ExecDir()) == dir), vt::J(text(UserDir().path()) == h),
                    vt::J(text(PropertyDir().path()) == h + std::string("/.") + name), vt::J(text(ResourceDir(System::bundleId()).path()) == "/usr/share/" + name)});
   }
   if(op == "library")
   {
      Dl_info i;
      if(!dladdr((void*)zlibVersion, &i))return std::string("[1,1,1,0,0]");
      File f(String(i.dli_fname)), bad(String((root + "/no.so").c_str()));
      void* l = System::loadDynamicLibrary(&f);
      bool found = l && System::findSymbol(l, String("zlibVersion")) == dlsym(l, "zlibVersion"), other = l && System::findSymbol(l, String("crc32")) == dlsym(l, "crc32");
      bool none = l && System::findSymbol(l, String("noSuchSymbol")) != nullptr;
      if(l)System::unloadDynamicLibrary(l);
      return vt::J({vt::J(l != nullptr), vt::J(found), vt::J(other), vt::J(none), vt::J(System::loadDynamicLibrary(&bad) != nullptr)});
   }
   if(op == "quit") {System::quit(); return vt::J({vt::J(made - gone + wrong), vt::J(System::preferences() != nullptr)});}
   abort();
}
[[noreturn]] static void serve(int fd)
{
   FILE* f = fdopen(fd, "r");
   char* line = nullptr;
   size_t cap = 0;
   while(getline(&line, &cap, f) > 0)
   {
      const char* p = line;
      std::string op;
      while(*p && *p != ' ' && *p != '\n')op += *p++;
      vt::Args a;
      while(*p)
      {
         while(*p == ' ')p++;
         if(!*p || *p == '\n')break;
         a.push_back(vt::parse(p));
      }
      std::string r = call(op, a) + "\n";
      for(size_t o = 0; o < r.size();)
      {
         ssize_t w = write(fd, r.data() + o, r.size() - o);
         if(w <= 0)_exit(3);
         o += (size_t)w;
      }
      if(op == "quit")_exit(0);
   }
   _exit(0);
}

struct Run
{
   pid_t pid = 0;
   FILE* f = nullptr;
};
static Run runs[3];
static std::string ask(int s, const std::string& op, const vt::Args& a)
{
   std::string q = op;
   for(auto& x : a)q += " " + show(x);
   q += "\n";
   if(write(fileno(runs[s].f), q.data(), q.size()) != (ssize_t)q.size())abort();
   char* line = nullptr;
   size_t cap = 0;
   ssize_t n = getline(&line, &cap, runs[s].f);
   if(n <= 0)
   {
      fprintf(stderr, "the run ended in %s\n", op.c_str());
      abort();
   }
   std::string r(line, (size_t)n - 1);
   free(line);
   return r;
}
static void stop(int s, bool kill9)
{
   if(!runs[s].pid)return;
   if(kill9)kill(runs[s].pid, SIGKILL);
   int st;
   waitpid(runs[s].pid, &st, 0);
   fclose(runs[s].f);
   runs[s] = Run();
   if(!kill9 && st != 0)abort();
}
static void env(const char* n, const vt::Arg& a)
{
   std::string v = vt::bytes(a);
   if(v.empty())unsetenv(n);
   else setenv(n, v.c_str(), 1);
}

int main(int argc, char** argv)
{
   std::string top = getenv("VT_SCRATCH");
   vt::Driver d;
   std::string none = "[]";
   typedef const vt::Args& A;
   d.opSeconds = 60;
   d.opened = [&]
   {
      if(geteuid() == 0 && (setgroups(0, nullptr) != 0 || setgid(65534) != 0 || setuid(65534) != 0))exit(2);
      root = top;
      signal(SIGPIPE, SIG_IGN);
   };
   d.ops["new"] = [&](A)
   {
      for(int s = 1; s <= 2; s++)stop(s, true);
      wipe(root);
      if(mkdir((root + "/res").c_str(), 0755) != 0 || mkdir((root + "/res/translations").c_str(), 0755) != 0 || mkdir(home().c_str(), 0755) != 0)exit(2);
      return none;
   };
   // slot, bundle, (LC_ALL, LC_MESSAGES, LANG, LC_NUMERIC), user, home exists
   d.ops["start"] = [&](A a)
   {
      int s = (int)a[0].i, p[2];
      if(runs[s].pid || socketpair(AF_UNIX, SOCK_STREAM, 0, p) != 0)exit(2);
      pid_t pid = fork();
      if(pid == 0)
      {
         close(p[0]);
         for(int k = 1; k <= 2; k++)if(runs[k].pid)close(fileno(runs[k].f));
         out = root + "/out" + std::to_string(s);
         int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
         dup2(o, 1);
         setvbuf(stdout, nullptr, _IONBF, 0);
         env("LC_ALL", a[2].v[0]);
         env("LC_MESSAGES", a[2].v[1]);
         env("LANG", a[2].v[2]);
         env("LC_NUMERIC", a[2].v[3]);
         env("USER", a[3]);
         setenv("HOME", a[4].i ? home().c_str() : (root + "/none/none").c_str(), 1);
         System::init(vt::str(a[1]));
         std::string r = vt::J({err()}) + "\n";
         if(write(p[1], r.data(), r.size()) != (ssize_t)r.size())_exit(3);
         serve(p[1]);
      }
      close(p[1]);
      runs[s].pid = pid;
      runs[s].f = fdopen(p[0], "r+");
      char* line = nullptr;
      size_t cap = 0;
      ssize_t n = getline(&line, &cap, runs[s].f);
      if(n <= 0)abort();
      std::string r(line, (size_t)n - 1);
      free(line);
      return r;
   };
   d.ops["kill"] = [&](A a) {stop((int)a[0].i, true); return none;};
   d.ops["quit"] = [&](A a)
   {
      std::string r = ask((int)a[0].i, "quit", a);
      stop((int)a[0].i, false);
      return r;
   };
   for(const char* n : {"who", "set", "get", "save", "tr", "pick", "date", "label", "log", "logs", "err", "auto", "drain", "places", "library"})
   {
      std::string op = n;
      d.ops[op] = [op](A a) {return ask((int)a[0].i, op, a);};
   }
   // a catalog of (key, translation)
   d.ops["res"] = [&](A a)
   {
      std::string keys, vals, tk, tv;
      auto le = [](size_t n) {std::string s; for(int i = 0; i < 4; i++)s += (char)(n >> (8 * i) & 255); return s;};
      size_t n = a[1].v.size(), at = 20 + 16 * n;
      std::string pool;
      for(auto& e : a[1].v)
      {
         std::string k = vt::bytes(e.v[0]), v = vt::bytes(e.v[1]);
         tk += le(k.size()) + le(at + pool.size());
         pool += k + '\0';
         tv += le(v.size()) + le(at + pool.size());
         pool += v + '\0';
      }
      std::string b = std::string("\xde\x12\x04\x95") + le(0) + le(n) + le(20) + le(20 + 8 * n) + tk + tv + pool;
      FILE* f = fopen((root + "/res/translations/" + vt::bytes(a[0])).c_str(), "wb");
      if(!f)exit(2);
      fwrite(b.data(), 1, b.size(), f);
      fclose(f);
      return none;
   };
   d.ops["unres"] = [&](A a) {unlink((root + "/res/translations/" + vt::bytes(a[0])).c_str()); return none;};
   int rc = d.run(argc, argv);
   for(int s = 1; s <= 2; s++)stop(s, true);
   return rc;
}
