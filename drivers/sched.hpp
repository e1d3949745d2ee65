// Runs several threads one at a time and explores their schedules.
//
// The library is compiled with the instrumentation of the thread sanitizer, whose runtime is replaced by this file, and the
// pthread functions are replaced as well: every access to memory that is not the thread's own stack and every operation on a
// mutex, a condition or a thread is a place where another thread can be scheduled. A schedule is the list of decisions at these
// places. Every schedule with at most a given number of preemptions runs in a process of its own. Time is simulated: a sleeping
// thread is woken at any place once its time has come, that is whenever the schedule says so.
//
// exploreConflicts() first watches which places in memory and which mutexes more than one thread uses, one of them to write, while
// the threads run one after the other in every order; only at these places are threads interrupted. Where there are none, the
// orders stand for all schedules.
#pragma once
#include "vt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cxxabi.h>
#include <cstdlib>
#include <deque>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <random>

namespace sched
{
   enum State {RUN, LOCK, WAIT, NAP, WOKEN, JOIN, DONE};
   struct Th
   {
      sem_t sem;
      State st = RUN;
      void* mutex = nullptr;    // wanted, or given back while waiting
      void* cond = nullptr;
      int join = -1;
      bool timedout = false, joined = false, detached = false;
      int64_t until = 0;        // ns
      pthread_t id = 0;
      void* (*fn)(void*) = nullptr;
      void* arg = nullptr;
      char* lo = nullptr;
      char* hi = nullptr;
   };
   struct Shared
   {
      int nchoice;
      // number of options, the one taken, whether another one than the first is a preemption
      struct C {short n, c; short cost;} choice[8000];
      int len;
      char text[1 << 16];
   };
   static Shared* sh = nullptr;
   static Th th[16];
   static int nth = 0;
   static thread_local int self = -1;
   static bool active = false;
   static std::vector<int> script;
   static int64_t now = 1000000000LL * 1000000;
   static int streak = 0, points = 0;
   struct Mx {int owner = -1; int depth = 0;};
   static std::map<void*, Mx> mx;
   // blocks of memory handed out and taken back
   static std::map<char*, size_t> freed;
   static bool bad = false;
   // places of eight bytes, and which threads have read and written them
   struct Place {uintptr_t at; uint32_t run; uint16_t by, wrote;};
   static const size_t NPLACES = 1 << 18;
   static Place* places = nullptr;
   // places where threads are interrupted
   static const std::set<uintptr_t>* only = nullptr;
   static bool watch = false;
   // the run of the schedule, and the places found to be used by several threads in any of them
   static uint32_t turn = 0;
   struct Found {int n; uintptr_t at[20000];};
   static Found* found = nullptr;
   // memory of each thread, at the same addresses in every schedule
   static const size_t ROOM = 1 << 26;
   static char* room = nullptr;
   static size_t used[16];
   inline bool roomy(void* p) {return room && (char*)p >= room && (char*)p < room + 16 * ROOM;}
   // the thread that got a name last (-1: none)
   static int named = -1;

   // inside this file: its own memory is of no interest
   static thread_local int inside = 0;
   struct In {In() {inside++;} ~In() {inside--;}};

   template<class F> F real(const char* n) {return (F)dlsym(RTLD_NEXT, n);}

   inline void event(const std::string& s)
   {
      In in;
      if(sh->len + (int)s.size() + 2 >= (int)sizeof sh->text)return;
      if(sh->len)sh->text[sh->len++] = ',';
      memcpy(sh->text + sh->len, s.data(), s.size());
      sh->len += (int)s.size();
      sh->text[sh->len] = 0;
   }
   inline bool enabled(int t)
   {
      Th& x = th[t];
      switch(x.st)
      {
         case RUN: return true;
         case LOCK: return mx[x.mutex].owner < 0;
         case WOKEN: return !x.mutex || mx[x.mutex].owner < 0;
         case NAP: return !x.mutex || mx[x.mutex].owner < 0;
         case JOIN: return th[x.join].st == DONE;
         default: return false;
      }
   }
   inline void stuck(const char* why)
   {
      std::string s;
      for(int t = 0; t < nth; t++)
         if(th[t].st != DONE)s += (s.empty() ? "" : ",") + ("[" + std::to_string(t) + ",\"" +
                  (th[t].st == LOCK ? "lock" : th[t].st == WAIT ? "sleep" : th[t].st == WOKEN ? "lock" : th[t].st == JOIN ? "join" : "run") + "\"]");
      event(std::string("[\"") + why + "\",[" + s + "]]");
      _exit(0);
   }
   // Decides between n options.
   inline int choose(int n, int cost)
   {
      if(n < 2)return 0;
      int k = sh->nchoice;
      if(k >= 8000)stuck("endless");
      int c = k < (int)script.size() ? script[k] : 0;
      if(c >= n)c = 0;
      sh->choice[k] = {(short)n, (short)c, (short)cost};
      sh->nchoice = k + 1;
      return c;
   }
   // Lets a thread run. Returns once it is this thread's turn again.
   inline void point()
   {
      In in;
      int me = self;
      if(++points > 60000)stuck("endless");
      std::vector<int> en;
      bool mine = enabled(me) && th[me].st != NAP;
      if(mine)en.push_back(me);
      for(int t = 0; t < nth; t++)if(t != me && enabled(t) && th[t].st != NAP)en.push_back(t);
      size_t awake = en.size();
      for(int t = 0; t < nth; t++)if(th[t].st == NAP && enabled(t))en.push_back(t);
      if(en.empty())stuck("stuck");
      int next;
      // a thread that does not let others run is not scheduled for ever
      if(mine && awake > 1 && streak > 400)next = en[1];
      else next = en[choose((int)en.size(), mine ? 1 : 0)];
      streak = next == me ? streak + 1 : 0;
      if(th[next].st == NAP)
      {
         th[next].timedout = true;
         now = std::max(now, th[next].until);
      }
      if(next != me)
      {
         bool done = th[me].st == DONE;
         sem_post(&th[next].sem);
         if(done)return;
         while(sem_wait(&th[me].sem) != 0);
      }
      th[me].st = RUN;
   }
   inline bool managed() {return active && self >= 0;}
   // Is this a place where threads are interrupted?
   inline bool use(void* p, size_t n, bool write)
   {
      if(!watch)return true;
      if(self == 0)return false;
      bool stop = false;
      uintptr_t b = (uintptr_t)p / 8, e = ((uintptr_t)p + (n ? n : 1) - 1) / 8;
      if(e > b + 512)e = b + 512;
      for(uintptr_t a = b; a <= e; a++)
      {
         if(only->count(a))stop = true;
         size_t h = (a * 0x9E3779B97F4A7C15ULL) >> 40, k = 0;
         while(places[(h + k) % NPLACES].run == turn && places[(h + k) % NPLACES].at != a && k < 1000)k++;
         Place& x = places[(h + k) % NPLACES];
         if(k == 1000)continue;
         if(x.run != turn)x = {a, turn, 0, 0};
         x.by |= 1u << self;
         if(write)x.wrote |= 1u << self;
         if(x.wrote && (x.by & (x.by - 1)) && !stop && found->n < 20000)found->at[found->n++] = a;
      }
      return stop;
   }
   inline void access(void* p, size_t size = 8, bool write = true)
   {
      if(!managed() || inside)return;
      In in;
      char* c = (char*)p;
      Th& x = th[self];
      if(c >= x.lo && c < x.hi)return;
      if(!freed.empty())
      {
         auto it = freed.upper_bound(c);
         if(it != freed.begin())
         {
            --it;
            if(c < it->first + it->second && !bad)
            {
               bad = true;
               event("[\"bad\"]");
            }
         }
      }
      if(use(p, size, write))point();
   }
   inline void lock(void* m, bool guard = false)
   {
      In in;
      Mx& x = mx[m];
      bool rec = !guard && (((pthread_mutex_t*)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
      if(rec && x.owner == self)
      {
         x.depth++;
         return;
      }
      if(use(m, 8, true) || x.owner >= 0)
      {
         th[self].st = LOCK;
         th[self].mutex = m;
         point();
      }
      mx[m].owner = self;
      mx[m].depth = 1;
   }
   inline int unlock(void* m)
   {
      In in;
      if(mx[m].owner != self)
      {
         event("[\"unlock\"]");
         return EPERM;
      }
      if(--mx[m].depth == 0)mx[m].owner = -1;
      if(use(m, 8, true))point();
      return 0;
   }
   // hook: this thread is now asleep
   static std::function<void(int)> asleep = [](int) {};
   inline int wait(void* c, void* m, bool timed, int64_t until)
   {
      In in;
      point();
      if(mx[m].owner == self)mx[m].owner = -1;
      else event("[\"unlock\"]");
      Th& x = th[self];
      x.st = timed ? NAP : WAIT;
      x.cond = c;
      x.mutex = m;
      x.until = until;
      x.timedout = false;
      asleep(self);
      point();
      mx[m].owner = self;
      mx[m].depth = 1;
      x.cond = nullptr;
      return x.timedout ? ETIMEDOUT : 0;
   }
   inline void signal(void* c, bool all)
   {
      In in;
      point();
      std::vector<int> w;
      for(int t = 0; t < nth; t++)if((th[t].st == WAIT || th[t].st == NAP) && th[t].cond == c)w.push_back(t);
      if(w.empty())return;
      if(!all)w = {w[choose((int)w.size(), 0)]};
      for(int t : w)th[t].st = WOKEN;
   }
   inline void bounds(Th& x)
   {
      pthread_attr_t a;
      void* lo;
      size_t n;
      pthread_getattr_np(pthread_self(), &a);
      pthread_attr_getstack(&a, &lo, &n);
      pthread_attr_destroy(&a);
      x.lo = (char*)lo;
      x.hi = (char*)lo + n;
   }
   inline void finish()
   {
      th[self].st = DONE;
      point();
      self = -1;
   }
   inline void* trampoline(void* p)
   {
      int t = (int)(intptr_t)p;
      bounds(th[t]);
      while(sem_wait(&th[t].sem) != 0);
      self = t;
      th[t].st = RUN;
      void* r = th[t].fn(th[t].arg);
      if(self >= 0)finish();
      // a thread that ends would leave its memory to others
      while(watch)pause();
      return r;
   }
   inline int spawn(pthread_t* id, void* (*fn)(void*), void* arg)
   {
      typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
      static F f = real<F>("pthread_create");
      if(nth >= 16)return EAGAIN;
      int t = nth;
      sem_init(&th[t].sem, 0, 0);
      th[t].fn = fn;
      th[t].arg = arg;
      int r = f(&th[t].id, nullptr, trampoline, (void*)(intptr_t)t);
      if(r)return r;
      *id = th[t].id;
      nth++;
      point();
      return 0;
   }
   inline int join(pthread_t id)
   {
      typedef int (*F)(pthread_t, void**);
      static F f = real<F>("pthread_join");
      for(int t = 0; t < nth; t++)
         if(th[t].id == id && !th[t].joined && t > 0)
         {
            if(t == self)return EDEADLK;
            if(th[t].detached)break;
            th[t].joined = true;
            th[self].st = JOIN;
            th[self].join = t;
            point();
            if(!watch)f(id, nullptr);
            return 0;
         }
      event("[\"bad\"]");
      return ESRCH;
   }
   // ---- one schedule
   inline void child(const std::function<void()>& body)
   {
      alarm(20);
      self = 0;
      nth = 1;
      sem_init(&th[0].sem, 0, 0);
      th[0].id = pthread_self();
      bounds(th[0]);
      th[0].st = RUN;
      active = true;
      body();
      active = false;
      _exit(0);
   }
   struct Result
   {
      std::vector<std::string> histories;
      long long runs = 0;
      bool all = false;
   };
   inline Result explore(const std::function<void()>& body, int bound, long long cap, unsigned seed)
   {
      if(!sh)sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      Result res;
      std::set<std::string> seen;
      std::mt19937 rng(seed);
      struct Job {std::vector<int> script; int cost;};
      std::vector<Job> todo = {{{}, 0}};
      while(!todo.empty() && res.runs < cap)
      {
         // the first ones in order, afterwards anywhere
         size_t k = res.runs < cap / 2 ? todo.size() - 1 : rng() % todo.size();
         Job j = todo[k];
         todo[k] = todo.back();
         todo.pop_back();
         sh->nchoice = 0;
         sh->len = 0;
         turn++;
         sh->text[0] = 0;
         script = j.script;
         fflush(nullptr);
         pid_t p = fork();
         if(p == 0)child(body);
         int status = 0;
         while(waitpid(p, &status, 0) < 0 && errno == EINTR);
         if(!WIFEXITED(status) || WEXITSTATUS(status) != 0)event("[\"crash\"," + std::to_string(WIFSIGNALED(status) ? WTERMSIG(status) : 0) + "]");
         res.runs++;
         std::string h = "[" + std::string(sh->text, sh->len) + "]";
         if(seen.insert(h).second)res.histories.push_back(h);
         int cost = j.cost;
         for(int i = (int)j.script.size(); i < sh->nchoice; i++)
         {
            auto& c = sh->choice[i];
            if(cost + c.cost > bound)continue;
            for(int a = 1; a < c.n; a++)
            {
               Job n;
               for(int q = 0; q < i; q++)n.script.push_back(sh->choice[q].c);
               n.script.push_back(a);
               n.cost = cost + c.cost;
               todo.push_back(n);
            }
         }
         if(todo.size() > 400000)todo.resize(400000);
      }
      res.all = todo.empty();
      return res;
   }
   // The main thread only starts and joins the others.
   inline Result exploreConflicts(const std::function<void()>& body, int bound, long long cap, unsigned seed)
   {
      auto map = [](size_t n, int how) {return mmap(nullptr, n, PROT_READ | PROT_WRITE, how | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);};
      if(!places)
      {
         places = (Place*)map(NPLACES * sizeof(Place), MAP_PRIVATE);
         found = (Found*)map(sizeof(Found), MAP_SHARED);
         room = (char*)map(16 * ROOM, MAP_PRIVATE);
      }
      std::set<uintptr_t> shared;
      only = &shared;
      watch = true;
      Result all;
      std::set<std::string> seen;
      for(int round = 0; round < 4; round++)
      {
         found->n = 0;
         Result r = explore(body, round ? bound : 0, cap, seed + (unsigned)round);
         for(auto& h : r.histories)if(seen.insert(h).second)all.histories.push_back(h);
         all.runs += r.runs;
         all.all = r.all;
         size_t before = shared.size();
         for(int k = 0; k < found->n; k++)shared.insert(found->at[k]);
         if(shared.size() == before)break;
      }
      watch = false;
      only = nullptr;
      return all;
   }
}

// ---- replaced functions
template<class T> using sched_type = T;
#define SCHED_REAL(name, ...) static sched_type<__VA_ARGS__> f = sched::real<sched_type<__VA_ARGS__>>(name)
extern "C"
{
   int pthread_mutex_lock(pthread_mutex_t* m) noexcept
   {
      if(sched::managed())
      {
         sched::lock(m);
         return 0;
      }
      SCHED_REAL("pthread_mutex_lock", int (*)(pthread_mutex_t*));
      return f(m);
   }
   int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
   {
      if(sched::managed())
      {
         sched::point();
         if(sched::mx[m].owner >= 0 && sched::mx[m].owner != sched::self)return EBUSY;
         sched::lock(m);
         return 0;
      }
      SCHED_REAL("pthread_mutex_trylock", int (*)(pthread_mutex_t*));
      return f(m);
   }
   int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
   {
      if(sched::managed())return sched::unlock(m);
      SCHED_REAL("pthread_mutex_unlock", int (*)(pthread_mutex_t*));
      return f(m);
   }
   int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
   {
      sched::mx.erase(m);
      return 0;
   }
   int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
   {
      if(sched::managed())return sched::wait(c, m, false, 0);
      SCHED_REAL("pthread_cond_wait", int (*)(pthread_cond_t*, pthread_mutex_t*));
      return f(c, m);
   }
   int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
   {
      if(t->tv_nsec < 0 || t->tv_nsec >= 1000000000L)return EINVAL; // as the system does, at once
      if(sched::managed())return sched::wait(c, m, true, t->tv_sec * 1000000000LL + t->tv_nsec);
      SCHED_REAL("pthread_cond_timedwait", int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*));
      return f(c, m, t);
   }
   int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
   {
      if(t->tv_nsec < 0 || t->tv_nsec >= 1000000000L)return EINVAL; // as the system does, at once
      if(sched::managed())return sched::wait(c, m, true, t->tv_sec * 1000000000LL + t->tv_nsec);
      SCHED_REAL("pthread_cond_clockwait", int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*));
      return f(c, m, k, t);
   }
   int pthread_cond_signal(pthread_cond_t* c) noexcept
   {
      if(sched::managed())
      {
         sched::signal(c, false);
         return 0;
      }
      SCHED_REAL("pthread_cond_signal", int (*)(pthread_cond_t*));
      return f(c);
   }
   int pthread_cond_broadcast(pthread_cond_t* c) noexcept
   {
      if(sched::managed())
      {
         sched::signal(c, true);
         return 0;
      }
      SCHED_REAL("pthread_cond_broadcast", int (*)(pthread_cond_t*));
      return f(c);
   }
   int pthread_create(pthread_t* id, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
   {
      if(sched::managed())return sched::spawn(id, fn, arg);
      SCHED_REAL("pthread_create", int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*));
      return f(id, a, fn, arg);
   }
   int pthread_join(pthread_t id, void** r)
   {
      if(sched::managed())
      {
         if(r)*r = nullptr;
         return sched::join(id);
      }
      SCHED_REAL("pthread_join", int (*)(pthread_t, void**));
      return f(id, r);
   }
   // a thread that has been joined, or never was one, has no name
   int pthread_setname_np(pthread_t id, const char* name) noexcept
   {
      if(sched::managed())
      {
         for(int t = 0; t < sched::nth; t++)
            if(sched::th[t].id == id && !(sched::th[t].joined && sched::th[t].st == sched::DONE))
            {
               sched::named = t;
               return 0;
            }
         sched::event("[\"bad\"]");
         return ESRCH;
      }
      SCHED_REAL("pthread_setname_np", int (*)(pthread_t, const char*));
      return f(id, name);
   }
   int pthread_detach(pthread_t id) noexcept
   {
      if(sched::managed())
      {
         for(int t = 0; t < sched::nth; t++)if(sched::th[t].id == id)sched::th[t].detached = true;
         return 0;
      }
      SCHED_REAL("pthread_detach", int (*)(pthread_t));
      return f(id);
   }
   void pthread_exit(void* r)
   {
      if(sched::managed())sched::finish();
      typedef void (*F)(void*);
      F f = sched::real<F>("pthread_exit");
      f(r);
      abort();
   }
   // objects that are made when they are first needed
   int __cxa_guard_acquire(__cxxabiv1::__guard* g)
   {
      if(*(volatile char*)g)return 0;
      if(sched::managed() && !sched::inside)
      {
         sched::lock(g, true);
         if(*(volatile char*)g == 0)return 1;
         sched::unlock(g);
         return 0;
      }
      return 1;
   }
   void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept
   {
      *(volatile char*)g = 1;
      if(sched::managed() && sched::mx[g].owner == sched::self)sched::unlock(g);
   }
   void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept
   {
      if(sched::managed() && sched::mx[g].owner == sched::self)sched::unlock(g);
   }
   int pthread_once(pthread_once_t* o, void (*f)(void))
   {
      if(sched::managed() && !sched::inside)
      {
         sched::lock(o, true);
         if(*(volatile int*)o == 0)
         {
            f();
            *(volatile int*)o = 2;
         }
         sched::unlock(o);
         return 0;
      }
      static auto once = sched::real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
      return once(o, f);
   }
   int sched_yield() noexcept
   {
      if(sched::managed())sched::point();
      return 0;
   }
   int gettimeofday(timeval* t, void*) noexcept
   {
      timespec s;
      clock_gettime(CLOCK_REALTIME, &s);
      t->tv_sec = s.tv_sec;
      t->tv_usec = s.tv_nsec / 1000;
      return 0;
   }
   int clock_gettime(clockid_t k, timespec* t) noexcept
   {
      if(sched::managed())
      {
         t->tv_sec = sched::now / 1000000000LL;
         t->tv_nsec = sched::now % 1000000000LL;
         return 0;
      }
      SCHED_REAL("clock_gettime", int (*)(clockid_t, timespec*));
      return f(k, t);
   }
   // ---- the instrumentation
   void __tsan_init() {}
   void __tsan_func_entry(void*) {}
   void __tsan_func_exit() {}
#define ACC(f, n, w) void f##n(void* p) {sched::access(p, n, w);}
#define ACCN(f, w) ACC(__tsan_##f, 1, w) ACC(__tsan_##f, 2, w) ACC(__tsan_##f, 4, w) ACC(__tsan_##f, 8, w) ACC(__tsan_##f, 16, w)
   ACCN(read, false)
   ACCN(write, true)
   ACCN(unaligned_read, false)
   ACCN(unaligned_write, true)
   ACCN(volatile_read, false)
   ACCN(volatile_write, true)
   ACCN(read_write, true)
   void __tsan_vptr_update(void** p, void*) {sched::access(p);}
   void __tsan_vptr_read(void** p) {sched::access(p, 8, false);}
   void* __tsan_memcpy(void* d, const void* s, size_t n)
   {
      if(n)sched::access((void*)s, n, false), sched::access(d, n, true);
      return memcpy(d, s, n);
   }
   void* __tsan_memmove(void* d, const void* s, size_t n)
   {
      if(n)sched::access((void*)s, n, false), sched::access(d, n, true);
      return memmove(d, s, n);
   }
   void* __tsan_memset(void* d, int c, size_t n)
   {
      if(n)sched::access(d, n, true);
      return memset(d, c, n);
   }
#define ATOM(N, T) \
   T __tsan_atomic##N##_load(const volatile T* p, int) {sched::access((void*)p, sizeof(T), false); return *p;} \
   void __tsan_atomic##N##_store(volatile T* p, T v, int) {sched::access((void*)p); *p = v;} \
   T __tsan_atomic##N##_exchange(volatile T* p, T v, int) {sched::access((void*)p); T o = *p; *p = v; return o;} \
   T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) {sched::access((void*)p); T o = *p; *p = o + v; return o;} \
   T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) {sched::access((void*)p); T o = *p; *p = o - v; return o;} \
   T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) {sched::access((void*)p); T o = *p; *p = o & v; return o;} \
   T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) {sched::access((void*)p); T o = *p; *p = o | v; return o;} \
   T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) {sched::access((void*)p); T o = *p; *p = o ^ v; return o;} \
   T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int) {sched::access((void*)p); T o = *p; *p = ~(o & v); return o;} \
   int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) \
   {sched::access((void*)p); if(*p == *e) {*p = v; return 1;} *e = *p; return 0;} \
   int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) {return __tsan_atomic##N##_compare_exchange_strong(p, e, v, a, b);} \
   T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) {sched::access((void*)p); T o = *p; if(o == e)*p = v; return o;}
   ATOM(8, uint8_t)
   ATOM(16, uint16_t)
   ATOM(32, uint32_t)
   ATOM(64, uint64_t)
   void __tsan_atomic_thread_fence(int) {}
   void __tsan_atomic_signal_fence(int) {}
}
// Memory taken back is not handed out again while a schedule runs.
void* operator new(size_t n)
{
   if(sched::watch && sched::self > 0 && !sched::inside)
   {
      size_t& u = sched::used[sched::self];
      size_t need = (n + 31) / 16 * 16;
      if(u + need > sched::ROOM)abort();
      char* p = sched::room + (size_t)sched::self * sched::ROOM + u;
      u += need;
      *(size_t*)p = need - 16;
      return p + 16;
   }
   void* p = malloc(n ? n : 1);
   if(!p)abort();
   return p;
}
void operator delete(void* p) noexcept
{
   if(!p)return;
   if(!sched::managed() || sched::inside)
   {
      if(!sched::roomy(p))free(p);
      return;
   }
   sched::In in;
   size_t n = sched::roomy(p) ? ((size_t*)p)[-2] : malloc_usable_size(p);
   if(!sched::freed.insert({(char*)p, n}).second)
   {
      sched::bad = true;
      sched::event("[\"bad\"]");
   }
}
void operator delete(void* p, size_t) noexcept {operator delete(p);}
void* operator new[](size_t n) {return operator new(n);}
void operator delete[](void* p) noexcept {operator delete(p);}
void operator delete[](void* p, size_t) noexcept {operator delete(p);}
