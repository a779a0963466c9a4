// Destruction by the thread that has learnt through the object itself that it is needed no more; the
// memory is freed at once, every later access is a violation.
#include "client.h"
#include <atomic>
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "fair_mutex.hpp"
#include "alternate_mutex.hpp"
#include "checked_mutex.hpp"
#include "posix_native_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "yamc_semaphore.hpp"
#include "yamc_latch.hpp"
#include "yamc_barrier.hpp"
#include <errno.h>
#include "posix_semaphore.hpp"
using namespace std::chrono;
static bool thorough;
static std::vector<mc_program>* out;
struct G { int32_t busy, left; };
static G* g() { return (G*)mc_aux(); }
static bool others_in(void*) { return g()->busy == 0; }
static void put(const std::string& n, int th, void (*s)(), void (*b)(int), unsigned fl = 0, std::initializer_list<uint64_t> par = {}) {
  mc_program p; memset((void*)&p, 0, sizeof p); p.name = client::nm(n); p.nthreads = th; p.flags = fl | MC_FRESH; p.setup = s; p.body = b; p.teardown = +[]() {};
  int i = 0; for (uint64_t v : par) p.param[i++] = v; p.param[15] = (uint64_t)th; out->push_back(p);
}
enum : uint64_t { TIMED = 1, SHARED = 2, REC = 4, EXACTTRY = 8 };

template <class L, uint64_t F> struct Mx {
  static L*& l() { static L* p; return p; }
  static int64_t*& left() { static int64_t* p; return p; }
  static void setup() { l() = new L(); left() = new int64_t((int64_t)mc_param(15)); g()->busy = (int)mc_param(15) - 1; }
  template <class T> static bool timed(T& x, std::true_type) { return x.try_lock_until(system_clock::now() + nanoseconds(10)); }
  template <class T> static bool timed(T& x, std::false_type) { return x.try_lock(); }
  template <class T> static void sl(T& x, std::true_type) { x.lock_shared(); }
  template <class T> static void sl(T&, std::false_type) {}
  template <class T> static void su(T& x, std::true_type) { x.unlock_shared(); }
  template <class T> static void su(T&, std::false_type) {}
  template <class T> static bool stimed(T& x, std::true_type) { return x.try_lock_shared_until(system_clock::now() + nanoseconds(10)); }
  template <class T> static bool stimed(T& x, std::false_type) { return x.try_lock_shared(); }
  template <class T> static bool stry(T& x, std::true_type) { return stimed(x, std::integral_constant<bool, (F & TIMED) != 0>()); }
  template <class T> static bool stry(T&, std::false_type) { return false; }
  typedef std::integral_constant<bool, (F & SHARED) != 0> sh; typedef std::integral_constant<bool, (F & TIMED) != 0> ti;
  // returns with the lock held; a failing attempt first is possible
  static void acquire(bool shared) {
    if (mc_choose(2, "attempt first?")) { if (shared ? stry(*l(), sh()) : timed(*l(), ti())) return; }
    if (shared) sl(*l(), sh()); else l()->lock();
  }
  static void destroy() { delete l(); l() = nullptr; mc_outcome(1); }
  // everybody locks; the last one out destroys
  static void last(int) {
    for (int k = 0; k < (int)mc_param(0); ++k) {
      bool fin = k == (int)mc_param(0) - 1, d = false; int64_t* p = left();
      acquire(false);
      if (F & REC) { l()->lock(); l()->unlock(); }
      if (fin) d = --*p == 0;
      l()->unlock();
      if (d) { destroy(); delete p; }
    }
  }
  // thread 1 destroys after having locked exclusively when all others are in their last critical section or beyond
  static void destroyer(int tid) {
    if (tid == 1) { mc_await(others_in, nullptr, "the others have entered"); l()->lock(); l()->unlock(); destroy(); delete left(); return; }
    bool s = (F & SHARED) && mc_choose(2, "shared?");
    acquire(s); mc_ghost_enter(); g()->busy--; mc_ghost_leave();
    if (s) su(*l(), sh()); else l()->unlock();
  }
  // as destroyer, but attempts until it succeeds
  static void trying(int tid) {
    if (tid == 1) { mc_await(others_in, nullptr, "the others have entered"); while (!timed(*l(), ti())) mc_park("retry"); l()->unlock(); destroy(); delete left(); return; }
    destroyer(tid);
  }
  static void add(const std::string& n) {
    const unsigned tk = F & TIMED ? MC_TICK : 0;
    put(n + "/last2", 2, setup, last, tk, {1}); put(n + "/last3", 3, setup, last, tk, {1}); put(n + "/last2x2", 2, setup, last, tk, {2});
    put(n + "/destroyer2", 2, setup, destroyer, tk); put(n + "/destroyer3", 3, setup, destroyer, tk); 
    put(n + "/trying2", 2, setup, trying, tk); 
    put(n + "/last2s", 2, setup, last, tk | MC_SPUR, {1}); put(n + "/destroyer3s", 3, setup, destroyer, MC_SPUR);
    if (thorough) { put(n + "/trying3", 3, setup, trying, tk); put(n + "/destroyer4", 4, setup, destroyer, 0); put(n + "/last4", 4, setup, last, 0, {1}); put(n + "/last3x2", 3, setup, last, 0, {2}); }
  }
};
template <class S, bool POSIX> struct Sm {
  static S*& s() { static S* p; return p; }
  static void setup() { s() = new S((std::ptrdiff_t)mc_param(1)); }
  // thread 1 takes all permits the others release, then destroys
  static void body(int tid) {
    int n = (int)mc_param(15) - 1, per = (int)mc_param(0);
    if (tid == 1) {
      for (int k = 0; k < n * per; ++k) switch (mc_choose(3, "acquire")) {
        case 0: s()->acquire(); break;
        case 1: while (!s()->try_acquire()) mc_park("retry"); break;
        case 2: while (!s()->try_acquire_until(system_clock::now() + nanoseconds(10))) mc_park("retry"); break;
      }
      delete s(); mc_outcome(1);
    } else { if (per == 2 && mc_choose(2, "one by one?")) { s()->release(); s()->release(); } else s()->release(per); }
  }
  static void add(const std::string& n) {
    for (unsigned fl : {(unsigned)MC_TICK, MC_TICK | (POSIX ? MC_EINTR : MC_SPUR)}) {
      std::string x = fl == MC_TICK ? "" : "s";
      put(n + "/sem2" + x, 2, setup, body, fl, {1, 0}); put(n + "/sem2p2" + x, 2, setup, body, fl, {2, 0}); put(n + "/sem3" + x, 3, setup, body, fl, {1, 0});
      if (thorough) { put(n + "/sem4" + x, 4, setup, body, fl, {1, 0}); put(n + "/sem3p2" + x, 3, setup, body, fl, {2, 0}); }
    }
  }
};
struct Lt {
  static yamc::latch*& l() { static yamc::latch* p; return p; }
  static void setup() { l() = new yamc::latch((std::ptrdiff_t)mc_param(0)); }
  static void body(int tid) {
    int n = (int)mc_param(15), cnt = (int)mc_param(0);
    if (tid == 1) {
      bool own = cnt == n;               // the destroyer has a count of its own
      switch (mc_choose(3, "wait")) {
        case 0: if (own) l()->arrive_and_wait(); else l()->wait(); break;
        case 1: if (own) l()->count_down(); while (!l()->try_wait()) mc_park("retry"); break;
        case 2: if (own) l()->count_down(); l()->wait(); break;
      }
      delete l(); mc_outcome(1);
    } else l()->count_down();
  }
  static void add() { for (unsigned fl : {0u, (unsigned)MC_SPUR}) for (int n = 2; n <= (thorough ? 4 : 3); ++n) for (int own = 0; own < 2; ++own)
    put("latch/" + std::to_string(n) + (own ? "own" : "") + (fl ? "s" : ""), n, setup, body, fl, {(uint64_t)(n - 1 + own)}); }
};
struct Comp { int64_t* c; void operator()() noexcept { ++*c; } };
struct Br {
  typedef yamc::barrier<Comp> B;
  static B*& b() { static B* p; return p; }
  static int64_t*& c() { static int64_t* p; return p; }
  static void setup() { c() = new int64_t(0); Comp cp = {c()}; b() = new B((std::ptrdiff_t)mc_param(15), cp); }
  static void body(int tid) {
    int rounds = (int)mc_param(0);
    for (int k = 0; k < rounds; ++k) {
      bool fin = k == rounds - 1;
      if (tid == 1) { if (mc_choose(2, "how")) b()->arrive_and_wait(); else b()->wait(b()->arrive()); if (fin) { delete b(); if (*c() != rounds) mc_fail("visibility", "completion ran %d times", (int)*c()); delete c(); mc_outcome(1); } }
      else if (!fin) b()->arrive_and_wait();
      else (void)b()->arrive();      // arrive_and_drop of this library stays in the call until the phase has ended (the test suite wants that)
    }
  }
  static void add() { for (unsigned fl : {0u, (unsigned)MC_SPUR}) { put(fl ? "barrier/2x1s" : "barrier/2x1", 2, setup, body, fl, {1}); put(fl ? "barrier/3x1s" : "barrier/3x1", 3, setup, body, fl, {1}); put(fl ? "barrier/2x2s" : "barrier/2x2", 2, setup, body, fl, {2});
    put(fl ? "barrier/3x2s" : "barrier/3x2", 3, setup, body, fl, {2}); if (thorough) { put(fl ? "barrier/4x1s" : "barrier/4x1", 4, setup, body, fl, {1}); put(fl ? "barrier/2x3s" : "barrier/2x3", 2, setup, body, fl, {3}); } } }
};
extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) {
  std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough"); out = &o;
  typedef yamc::backoff::yield BY;
#define M(F, ...) Mx<__VA_ARGS__, F>::add(#__VA_ARGS__)
#define A1(N, F, ...) Mx<__VA_ARGS__, F>::add(N)
  A1("spin.mutex", 0, yamc::spin::basic_mutex<BY>); A1("spin_weak.mutex", 0, yamc::spin_weak::basic_mutex<BY>); A1("spin_ttas.mutex", 0, yamc::spin_ttas::basic_mutex<BY>);
  A1("fair.mutex", 0, yamc::fair::mutex); A1("fair.timed_mutex", TIMED, yamc::fair::timed_mutex); A1("fair.recursive_mutex", REC, yamc::fair::recursive_mutex); A1("fair.recursive_timed_mutex", REC | TIMED, yamc::fair::recursive_timed_mutex);
  A1("alternate.recursive_mutex", REC, yamc::alternate::recursive_mutex); A1("alternate.timed_mutex", TIMED, yamc::alternate::timed_mutex); A1("alternate.recursive_timed_mutex", REC | TIMED, yamc::alternate::recursive_timed_mutex);
  A1("checked.mutex", 0, yamc::checked::mutex); A1("checked.timed_mutex", TIMED, yamc::checked::timed_mutex); A1("checked.recursive_mutex", REC, yamc::checked::recursive_mutex); A1("checked.recursive_timed_mutex", REC | TIMED, yamc::checked::recursive_timed_mutex);
  A1("posix.native_mutex", TIMED, yamc::posix::native_mutex); A1("posix.native_recursive_mutex", TIMED | REC, yamc::posix::native_recursive_mutex); A1("posix.rwlock", TIMED | SHARED, yamc::posix::rwlock); A1("posix.spinlock", 0, yamc::posix::spinlock);
  A1("alternate.shared_mutex.r", SHARED, yamc::alternate::basic_shared_mutex<yamc::rwlock::ReaderPrefer>); A1("alternate.shared_mutex.w", SHARED, yamc::alternate::basic_shared_mutex<yamc::rwlock::WriterPrefer>);
  A1("alternate.shared_timed_mutex.r", SHARED | TIMED, yamc::alternate::basic_shared_timed_mutex<yamc::rwlock::ReaderPrefer>); A1("alternate.shared_timed_mutex.w", SHARED | TIMED, yamc::alternate::basic_shared_timed_mutex<yamc::rwlock::WriterPrefer>);
  A1("fair.shared_mutex.t", SHARED, yamc::fair::basic_shared_mutex<yamc::rwlock::TaskFairness>); A1("fair.shared_mutex.p", SHARED, yamc::fair::basic_shared_mutex<yamc::rwlock::PhaseFairness>);
  A1("fair.shared_timed_mutex.t", SHARED | TIMED, yamc::fair::basic_shared_timed_mutex<yamc::rwlock::TaskFairness>); A1("fair.shared_timed_mutex.p", SHARED | TIMED, yamc::fair::basic_shared_timed_mutex<yamc::rwlock::PhaseFairness>);
  A1("checked.shared_mutex.r", SHARED, yamc::checked::basic_shared_mutex<yamc::rwlock::ReaderPrefer>); A1("checked.shared_mutex.w", SHARED, yamc::checked::basic_shared_mutex<yamc::rwlock::WriterPrefer>);
  A1("checked.shared_timed_mutex.r", SHARED | TIMED, yamc::checked::basic_shared_timed_mutex<yamc::rwlock::ReaderPrefer>); A1("checked.shared_timed_mutex.w", SHARED | TIMED, yamc::checked::basic_shared_timed_mutex<yamc::rwlock::WriterPrefer>);
  Sm<yamc::counting_semaphore<>, false>::add("semaphore"); Sm<yamc::binary_semaphore, false>::add("binary_semaphore"); Sm<yamc::posix::counting_semaphore<>, true>::add("posix.semaphore");
  Lt::add(); Br::add();
}
