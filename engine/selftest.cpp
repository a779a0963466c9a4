#include "/verif/engine/mc.h"
#include <stdexcept>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <memory>
struct S { std::mutex m; std::condition_variable cv; int x=0; bool flag=false; std::atomic<int> a{0}; int data=0; };
static S* s;
static void setup(){ s=new S; }
static void teardown(){ mc_outcome(s->x); delete s; }
static void inc(int t){ for(int i=0;i<2;i++){ std::lock_guard<std::mutex> l(s->m); s->x++; } }
static void racy(int t){ s->x++; }
static void cvok(int t){ std::unique_lock<std::mutex> l(s->m); if(t==1){ while(!s->flag) s->cv.wait(l);} else { s->flag=true; l.unlock(); s->cv.notify_one(); } }
static void cvlost(int t){ if(t==1){ std::unique_lock<std::mutex> l(s->m); while(s->a.load()==0) s->cv.wait(l);} else { s->a.store(1); s->cv.notify_one(); } }
static void mp(int t){ if(t==1){ s->data=1; s->a.store(1,std::memory_order_release);} else { if(s->a.load(std::memory_order_acquire)) s->x=s->data; } }
static void mprlx(int t){ if(t==1){ s->data=1; s->a.store(1,std::memory_order_relaxed);} else { if(s->a.load(std::memory_order_acquire)) s->x=s->data; } }
static void thr(int t){ try { if(t==1) throw 42; mc_yield("y"); throw std::runtime_error("abc"); } catch(int e){ mc_yield("in"); std::lock_guard<std::mutex> l(s->m); s->x++; } catch(std::exception&e){ std::lock_guard<std::mutex> l(s->m); s->x+=2; mc_yield("q"); } }
static void spin(int t){ int e=0; while(!s->a.compare_exchange_weak(e,1)) e=0; s->data++; s->a.store(0); }
static void uaf(int t){ if(t==1){ s->m.lock(); s->flag=true; s->m.unlock(); } else { bool go=false; while(!go){ s->m.lock(); go=s->flag; s->m.unlock(); } } }
static void dead(int t){ static std::mutex m2; if(t==1){ s->m.lock(); m2.lock(); m2.unlock(); s->m.unlock(); } else { m2.lock(); s->m.lock(); s->m.unlock(); m2.unlock(); } }
static void rec(int t){ struct R{ static int f(volatile int*n){ volatile int k=*n+1; return f(&k)+1; } }; volatile int z=0; R::f(&z); }
static void stat(int t){ static std::shared_ptr<int> p = std::make_shared<int>(5); std::lock_guard<std::mutex> l(s->m); s->x += *p; }
static void tlsv(int t){ static thread_local int q=3; q+=t; mc_yield("a"); if(q!=3+t) mc_fail("tls","bad"); }
static void dang_(int**out){ int loc=5; *out=&loc; asm volatile(""::"r"(&loc):"memory"); }
static void dang(int t){ static int*p; if(t==1){ dang_(&p); mc_yield("1"); mc_yield("2"); } else { mc_yield("3"); if(p) s->x=*p; } }
extern "C" void mc_programs(std::vector<mc_program>& o, const char*){
 auto add=[&](const char*n,void(*b)(int),int k,unsigned f){ mc_program p{}; p.name=n;p.nthreads=k;p.flags=f;p.setup=setup;p.body=b;p.teardown=teardown;o.push_back(p);};
 add("inc",inc,3,0); add("racy",racy,2,0); add("cvok",cvok,2,MC_SPUR); add("cvlost",cvlost,2,0); add("mp",mp,2,0); add("mprlx",mprlx,2,0); add("thr",thr,2,0); add("spin",spin,3,MC_WEAK); add("uaf",uaf,2,0); add("dead",dead,2,0); add("rec",rec,1,0); add("stat",stat,3,0); add("tls",tlsv,2,0); add("dang",dang,2,0);
}
