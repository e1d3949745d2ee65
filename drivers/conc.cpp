// Programs of several threads, run under every schedule.
#include "sched.hpp"
using namespace jm;

static std::string ev(const char* k, std::initializer_list<long long> v)
{
   std::string s = std::string("[\"") + k + "\"";
   for(auto x : v)s += "," + std::to_string(x);
   return s + "]";
}
static void say(const char* k, std::initializer_list<long long> v)
{
   sched::In in;
   sched::event(ev(k, v));
}
static void say(const char* k, const std::string& op, long long t, long long o)
{
   sched::In in;
   sched::event(std::string("[\"") + k + "\"," + std::to_string(t) + ",\"" + op + "\"," + std::to_string(o) + "]");
}

// ---- counted objects
static Object* obj[8];
static bool dead[8];
class Counted: public Object
{
   public:
      int n;
      Counted(int i): n(i) {}
      ~Counted() noexcept override
      {
         dead[n] = true;
         say("dtor", {sched::self, n + 1});
      }
};
typedef const std::vector<vt::Arg>& Ops;
static void pool(Ops ops)
{
   int t = sched::self;
   for(auto& o : ops)
   {
      const std::string& k = o.v[0].s;
      long long i = o.v.size() > 1 ? o.v[1].i : 0;
      long long r = 0;
      say("call", k, t, i);
      if(k == "retain")obj[i - 1]->retain();
      else if(k == "release")obj[i - 1]->release();
      else if(k == "auto")obj[i - 1]->autorelease();
      else if(k == "flag")obj[i - 1]->setHighBit(true);
      else if(k == "drain")System::autoreleasePool()->drain();
      say("ret", {t, r});
   }
}
static void* poolThread(void* p)
{
   pool(((vt::Arg*)p)->v);
   return nullptr;
}

// ---- threads
static std::vector<std::vector<vt::Arg>> scripts;
static void threadOps(int t, Ops ops);
class Worker: public Thread
{
   public:
      int n = 0;
      void lockIt() {lock();}
      void unlockIt() {unlock();}
   private:
      void run() override
      {
         say("begin", {sched::self, n});
         threadOps(n, scripts[n]);
         say("end", {sched::self, n});
      }
};
static Worker* wk[8];
static Mutex* mu[4];
static void threadOps(int t, Ops ops)
{
   int me = sched::self;
   for(auto& o : ops)
   {
      const std::string& k = o.v[0].s;
      long long i = o.v.size() > 1 && o.v[1].kind == vt::Arg::INT ? o.v[1].i : 0;
      if(k == "loop")
      {
         while(true)
         {
            say("call", "alive", me, t);
            bool a = wk[t]->isAlive();
            say("ret", {me, a});
            if(!a)break;
            threadOps(t, o.v[1].v);
         }
         continue;
      }
      long long r = 0;
      say("call", k, me, i);
      if(k == "start")wk[i]->start();
      else if(k == "alive")r = wk[i]->isAlive();
      else if(k == "wake")wk[i]->wakeUp();
      else if(k == "int")wk[i]->interrupt();
      else if(k == "name")
      {
         sched::named = -1;
         wk[i]->setName(String("jm.worker"));
         r = sched::named;
      }
      else if(k == "sleep")wk[t]->sleep();
      else if(k == "nap")
      {
         int64_t b = sched::now;
         wk[t]->sleep((int64)i);
         r = (sched::now - b) / 1000000;
      }
      else if(k == "tlock")wk[t]->lockIt();
      else if(k == "tunlock")wk[t]->unlockIt();
      else if(k == "lock")mu[i]->lock();
      else if(k == "unlock")mu[i]->unlock();
      else if(k == "msleep")mu[i]->sleep();
      else if(k == "mwake")mu[i]->wakeUp();
      say("ret", {me, r});
   }
}
static void* opsThread(void* p)
{
   threadOps(0, ((vt::Arg*)p)->v);
   return nullptr;
}

int main(int argc, char** argv)
{
   vt::init(argc, argv);
   vt::Driver d;
   d.opSeconds = 600;
   typedef const vt::Args& A;
   long long last = 0;
   bool all = false;
   auto done = [&](const sched::Result& r)
   {
      last = r.runs;
      all = r.all;
      return vt::J(r.histories);
   };
   d.obs = [&] {return vt::J({vt::J(last), vt::J(all)});};
   d.ops["new"] = [&](A) {last = 0; return std::string("[]");};
   // objects: [[refs held by thread 0, 1, ...], ...]; the threads' calls; preemptions; schedules
   d.ops["pool"] = [&](A a)
   {
      return done(sched::explore([&]
      {
         int no = (int)a[0].v.size(), nt = (int)a[1].v.size();
         for(int i = 0; i < no; i++)
         {
            sched::active = false;
            obj[i] = new Counted(i);
            for(auto& h : a[0].v[i].v)for(int k = 0; k < h.i; k++)obj[i]->retain();
            obj[i]->release();
            sched::active = true;
         }
         std::vector<pthread_t> id(nt);
         for(int t = 1; t < nt; t++)sched::spawn(&id[t], poolThread, (void*)&a[1].v[t]);
         pool(a[1].v[0].v);
         for(int t = 1; t < nt; t++)sched::join(id[t]);
         vt::Arg dr;
         dr.v.resize(1);
         dr.v[0].v.resize(1);
         dr.v[0].v[0].s = "drain";
         pool(dr.v);
         std::string s;
         for(int i = 0; i < no; i++)
         {
            long long c = dead[i] ? 0 : obj[i]->referenceCount();
            s += "," + std::to_string(c) + "," + std::to_string(dead[i] ? 0 : (int)obj[i]->highBit());
         }
         sched::event("[\"end\"" + s + "]");
      }, (int)a[2].i, a[3].i, 1));
   };
   // the main thread's calls, the calls of each thread's run(), of plain threads; preemptions; schedules
   d.ops["threads"] = [&](A a)
   {
      return done(sched::explore([&]
      {
         sched::active = false;
         scripts.assign(1, {});
         for(auto& w : a[1].v)scripts.push_back(w.v);
         for(size_t i = 1; i < scripts.size(); i++)
         {
            wk[i] = new Worker();
            wk[i]->n = (int)i;
         }
         for(int i = 0; i < 4; i++)mu[i] = new Mutex();
         sched::asleep = [](int t) {say("asleep", {t});};
         sched::active = true;
         std::vector<pthread_t> id(a[2].v.size());
         for(size_t t = 0; t < a[2].v.size(); t++)sched::spawn(&id[t], opsThread, (void*)&a[2].v[t]);
         threadOps(0, a[0].v);
         for(auto t : id)sched::join(t);
         say("done", {});
         // threads that were not interrupted may sleep for ever
         sched::finish();
         pause();
      }, (int)a[3].i, a[4].i, 1));
   };
   return d.run(argc, argv);
}
