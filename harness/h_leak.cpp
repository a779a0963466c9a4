// Lifetimes: construction, use, misuse and destruction give back all memory and native objects.
// -DG_STD: the portable types and the POSIX wrappers, -DG_WIN / -DG_GCD: the platform wrappers over the shims.
#include "client.h"
#include <system_error>
#if defined G_WIN
#include "win_native_mutex.hpp"
#include "win_semaphore.hpp"
#elif defined G_GCD
#include "gcd_semaphore.hpp"
#else
#include <errno.h>
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "fair_mutex.hpp"
#include "alternate_mutex.hpp"
#include "checked_mutex.hpp"
#include <pthread.h>
#ifdef NOINIT
#undef PTHREAD_RECURSIVE_MUTEX_INITIALIZER
#undef PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP
#endif
#include "posix_native_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "yamc_shared_lock.hpp"
#include "yamc_scoped_lock.hpp"
#include "yamc_semaphore.hpp"
#include "yamc_latch.hpp"
#include "yamc_barrier.hpp"
#include "posix_semaphore.hpp"
#endif
using namespace std::chrono;
static bool thorough;
static std::vector<mc_program>* out;
enum { TIMED = 1, SHARED = 2, REC = 4, MISUSE = 8, NOTRY = 16 };
static int handles() {
#if defined G_WIN
  return winshim::g()->open;
#else
  return mc_native_objects();
#endif
}
static int blocks() {
#if defined G_WIN
  return mc_live_blocks() - winshim::g()->made;
#else
  return mc_live_blocks();
#endif
}
struct G { int16_t blocks, natives; };
static G* g() { return (G*)mc_aux(); }
static void balance(const char* when) {
  if (blocks() > g()->blocks) mc_fail("leak", "%s: %d heap blocks are live, %d were before", when, blocks(), g()->blocks);
  if (handles() != g()->natives) mc_fail("leak", "%s: %d native objects exist, %d did before", when, handles(), g()->natives);
}
static void base() { g()->blocks = (int16_t)blocks(); g()->natives = (int16_t)handles(); }
static void put(const std::string& n, int th, void (*s)(), void (*b)(int), void (*t)(), unsigned fl, std::initializer_list<uint64_t> par = {}) {
  mc_program p; memset((void*)&p, 0, sizeof p); p.name = client::nm(n); p.nthreads = th; p.flags = fl; p.setup = s; p.body = b; p.teardown = t;
  int i = 0; for (uint64_t v : par) p.param[i++] = v; p.param[15] = (uint64_t)th; out->push_back(p);
}

// ---- mutexes
template <class L, int F> struct Mx {
  static L*& m(int i) { static L* p[2]; return p[i]; }
  typedef std::integral_constant<bool, (F & SHARED) != 0> sh; typedef std::integral_constant<bool, (F & TIMED) != 0> ti; typedef std::integral_constant<bool, (F & NOTRY) == 0> ty;
  template <class T> static bool tr(T& x, std::true_type) { return x.try_lock(); }
  template <class T> static bool tr(T& x, std::false_type) { x.lock(); return true; }
  template <class T> static bool timed(T& x, int k, std::true_type) { return k ? x.try_lock_until(system_clock::now() + nanoseconds(10)) : x.try_lock_for(nanoseconds(10)); }
  template <class T> static bool timed(T& x, int, std::false_type) { return tr(x, ty()); }
  template <class T> static int stimed(T& x, int k, std::true_type) { return k ? x.try_lock_shared_until(system_clock::now() + nanoseconds(10)) : x.try_lock_shared_for(nanoseconds(10)); }
  template <class T> static int stimed(T& x, int, std::false_type) { return x.try_lock_shared(); }
  template <class T> static int shared(T& x, int k, std::true_type) { if (k == 0) { x.lock_shared(); return 1; } if (k == 1) return x.try_lock_shared(); return stimed(x, k - 2, ti()); }
  template <class T> static int shared(T&, int, std::false_type) { return 0; }
  template <class T> static void unshare(T& x, std::true_type) { x.unlock_shared(); }
  template <class T> static void unshare(T&, std::false_type) {}
  template <class B> static void report(B b) { try { b(); mc_fail("missed-misuse", "a misuse is not reported"); } catch (const std::system_error&) {} }
  enum { NOPS = 8 };
  // one visit; op 0.. : lock, try, timed x2, shared x4; then misuse inside
  static void visit(L& x, int op, int extra) {
    bool s = op >= 4; int r = op == 0 ? (x.lock(), 1) : op == 1 ? (int)tr(x, ty()) : op < 4 ? (int)timed(x, op - 2, ti()) : shared(x, op - 4, sh());
    if (F & MISUSE) if (extra & 2) { if (!r) report([&] { if (s) unshare(x, sh()); else x.unlock(); }); }
    if (!r) return;
    if (extra & 1) {
      if (F & REC) { x.lock(); x.unlock(); }
      else if (F & MISUSE) { report([&] { x.lock(); }); if (s || !(F & SHARED)) {} else report([&] { unshare(x, sh()); }); }
    }
    if (s) unshare(x, sh()); else x.unlock();
    if ((F & MISUSE) && (extra & 1)) report([&] { if (s) unshare(x, sh()); else x.unlock(); });
  }
  static int pick() { static const int ex[] = {0, 1, 2, 3}, al[] = {0, 1, 2, 3, 4, 5, 6, 7}; return (F & SHARED) ? al[mc_choose(8, "operation")] : ex[mc_choose(F & TIMED ? 4 : 2, "operation")]; }
  static void warm() { L x; for (int op = 0; op < ((F & SHARED) ? 8 : 4); ++op) for (int e = 0; e < 4; ++e) visit(x, op, e); L* y = new L; visit(*y, 0, 0); delete y; }
  static void setup() { warm(); base(); m(0) = new L; m(1) = new L; }
  static void body(int tid) {
    for (int k = 0; k < (int)mc_param(0); ++k) visit(*m(mc_param(1) ? tid & 1 : 0), pick(), mc_param(2) ? (int)mc_choose(4, "nested / misuse") : 0);
  }
  static void teardown() { delete m(0); delete m(1); balance("after the destruction of all mutexes"); }
  // one thread: lifetimes in a row
  static void life_setup() { warm(); base(); }
  static void life_body(int) {
    for (int k = 0; k < (int)mc_param(0); ++k) {
      switch (mc_choose(3, "where")) {
        case 0: { L x; visit(x, pick(), (int)mc_choose(4, "nested / misuse")); break; }
        case 1: { L* x = new L; visit(*x, pick(), 0); visit(*x, 0, 1); delete x; break; }
        case 2: { L x; L y; x.lock(); y.lock(); x.unlock(); y.unlock(); break; }
      }
      balance("after a lifetime");
    }
  }
  static void none() { balance("at the end"); }
  static void add(const std::string& n) {
    const unsigned tk = (F & TIMED ? MC_TICK : 0) | MC_NORACE;
    put(n + "/life2", 1, life_setup, life_body, none, tk | MC_TIMEOUT_NORMAL, {2});
    put(n + "/use2x1", 2, setup, body, teardown, tk, {1, 0, 1}); put(n + "/use2x2", 2, setup, body, teardown, tk, {2, 0, 0}); put(n + "/use3x1", 3, setup, body, teardown, tk, {1, 0, 0}); put(n + "/own2x2", 2, setup, body, teardown, tk, {2, 1, 1});
    if (thorough) { put(n + "/life3", 1, life_setup, life_body, none, tk | MC_TIMEOUT_NORMAL, {3}); put(n + "/use3x1m", 3, setup, body, teardown, tk, {1, 0, 1}); }
  }
};
#if defined G_STD
// ---- deadlock reports
template <class L> struct Dead {
  static L*& m(int i) { static L* p[3]; return p[i]; }
  static void run(int a, int b) { m(a)->lock(); try { m(b)->lock(); m(b)->unlock(); } catch (const std::system_error&) {} m(a)->unlock(); }
  static void setup() { for (int i = 0; i < 3; ++i) m(i) = new L; run(0, 1); run(1, 2); run(2, 0); { L x; x.lock(); try { x.lock(); x.unlock(); } catch (const std::system_error&) {} x.unlock(); } for (int i = 0; i < 3; ++i) delete m(i); base(); for (int i = 0; i < 3; ++i) m(i) = new L; }
  static void body(int tid) { int n = (int)mc_param(15); run(tid - 1, tid % n); }
  static void teardown() { for (int i = 0; i < 3; ++i) delete m(i); balance("after deadlock reports and destruction"); }
  static void add(const std::string& n) { for (int th = 2; th <= 3; ++th) put(n + "/dead" + std::to_string(th), th, setup, body, teardown, MC_NORACE); }
};
// ---- guards
struct Gd {
  typedef yamc::fair::shared_timed_mutex S; typedef yamc::checked::mutex C;
  static void go() {
    S s; C c; 
    { yamc::shared_lock<S> a(s); yamc::shared_lock<S> b(std::move(a)); yamc::shared_lock<S> d(s, std::defer_lock); d = std::move(b); if (mc_choose(2, "release?")) { d.release(); s.unlock_shared(); } }
    { yamc::scoped_lock<S, C> l(s, c); } { yamc::scoped_lock<C> l(c); } { yamc::scoped_lock<> l; }
    { yamc::shared_lock<S> a; try { a.lock(); } catch (const std::system_error&) {} yamc::shared_lock<S> b(s, nanoseconds(10)); try { b.lock(); } catch (const std::system_error&) {} try { a.unlock(); } catch (const std::system_error&) {} }
    try { yamc::scoped_lock<S, C> l(s, c); throw 1; } catch (int) {}
  }
  static void setup() { go(); base(); }
  static void body(int) { go(); balance("after guards"); }
  static void none() {}
};
#endif
#if !defined G_SKIP_SEM
// ---- semaphores
template <class S> struct Sm {
  static S*& s() { static S* p; return p; }
  static void one(int k) { switch (k) { case 0: s()->acquire(); s()->release(); break; case 1: if (s()->try_acquire()) s()->release(); break; case 2: if (s()->try_acquire_for(nanoseconds(10))) s()->release(); break; case 3: if (s()->try_acquire_until(system_clock::now() + nanoseconds(10))) s()->release(); break; } }
  static void setup() { s() = new S(1); for (int k = 0; k < 4; ++k) one(k); delete s(); { S x(0); } base(); s() = new S(1); }
  static void body(int) { for (int k = 0; k < 2; ++k) one((int)mc_choose(4, "operation")); }
  static void teardown() { delete s(); balance("after the destruction of the semaphore"); { S x(0); x.release(); } balance("after another semaphore"); }
  static void add(const std::string& n) { put(n + "/use2", 2, setup, body, teardown, MC_TICK | MC_NORACE); }
};
#endif
#if defined G_STD
struct Comp { std::shared_ptr<int> c; void operator()() noexcept { ++*c; } };
struct LB {
  static yamc::latch*& l() { static yamc::latch* p; return p; }
  static yamc::barrier<Comp>*& b() { static yamc::barrier<Comp>* p; return p; }
  static yamc::barrier<>*& q() { static yamc::barrier<>* p; return p; }
  static void make(int n) { l() = new yamc::latch(n); b() = new yamc::barrier<Comp>(n, Comp{std::make_shared<int>(0)}); q() = new yamc::barrier<>(n); }
  static void kill() { delete l(); delete b(); delete q(); }
  static void setup() { make(1); l()->arrive_and_wait(); b()->arrive_and_wait(); q()->arrive_and_drop(); kill(); base(); make((int)mc_param(15)); }
  static void body(int) { l()->arrive_and_wait(); b()->arrive_and_wait(); if (mc_choose(2, "drop?")) q()->arrive_and_drop(); else q()->arrive_and_wait(); }
  static void teardown() { kill(); balance("after the destruction of latch and barriers"); }
};
#endif
extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) {
  std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough"); out = &o;
#define A1(N, F, ...) Mx<__VA_ARGS__, F>::add(N)
#if defined G_WIN
  A1("win.native_mutex", TIMED | REC, yamc::win::native_mutex); A1("win.critical_section", REC, yamc::win::critical_section); A1("win.slim_rwlock", SHARED, yamc::win::slim_rwlock);
  Sm<yamc::win::counting_semaphore<>>::add("win.semaphore"); Sm<yamc::win::binary_semaphore>::add("win.binary_semaphore");
#elif defined G_GCD
  Sm<yamc::gcd::counting_semaphore<>>::add("gcd.semaphore"); Sm<yamc::gcd::binary_semaphore>::add("gcd.binary_semaphore");
#else
  namespace f = yamc::fair; namespace a = yamc::alternate; namespace c = yamc::checked; namespace rw = yamc::rwlock; typedef yamc::backoff::yield BY;
  A1("spin.mutex", 0, yamc::spin::basic_mutex<BY>); A1("spin_weak.mutex", 0, yamc::spin_weak::basic_mutex<BY>); A1("spin_ttas.mutex", 0, yamc::spin_ttas::basic_mutex<BY>);
  A1("fair.mutex", 0, f::mutex); A1("fair.timed_mutex", TIMED, f::timed_mutex); A1("fair.recursive_mutex", REC, f::recursive_mutex); A1("fair.recursive_timed_mutex", REC | TIMED, f::recursive_timed_mutex);
  A1("alternate.recursive_mutex", REC, a::recursive_mutex); A1("alternate.timed_mutex", TIMED, a::timed_mutex); A1("alternate.recursive_timed_mutex", REC | TIMED, a::recursive_timed_mutex);
  A1("checked.mutex", MISUSE, c::mutex); A1("checked.timed_mutex", MISUSE | TIMED, c::timed_mutex); A1("checked.recursive_mutex", REC | MISUSE, c::recursive_mutex); A1("checked.recursive_timed_mutex", REC | MISUSE | TIMED, c::recursive_timed_mutex);
  A1("posix.native_mutex", TIMED, yamc::posix::native_mutex); A1("posix.native_recursive_mutex", TIMED | REC, yamc::posix::native_recursive_mutex); A1("posix.rwlock", TIMED | SHARED, yamc::posix::rwlock); A1("posix.spinlock", 0, yamc::posix::spinlock);
  A1("alternate.shared_mutex.r", SHARED, a::basic_shared_mutex<rw::ReaderPrefer>); A1("alternate.shared_timed_mutex.w", SHARED | TIMED, a::basic_shared_timed_mutex<rw::WriterPrefer>);
  A1("fair.shared_mutex.t", SHARED, f::basic_shared_mutex<rw::TaskFairness>); A1("fair.shared_timed_mutex.p", SHARED | TIMED, f::basic_shared_timed_mutex<rw::PhaseFairness>);
  A1("checked.shared_mutex.r", SHARED | MISUSE, c::basic_shared_mutex<rw::ReaderPrefer>); A1("checked.shared_timed_mutex.w", SHARED | TIMED | MISUSE, c::basic_shared_timed_mutex<rw::WriterPrefer>);
  Dead<c::mutex>::add("checked.mutex"); Dead<c::timed_mutex>::add("checked.timed_mutex"); Dead<c::recursive_mutex>::add("checked.recursive_mutex"); Dead<c::recursive_timed_mutex>::add("checked.recursive_timed_mutex"); Dead<c::basic_shared_mutex<rw::WriterPrefer>>::add("checked.shared_mutex.w");
  put("guards", 1, Gd::setup, Gd::body, Gd::none, MC_TICK | MC_TIMEOUT_NORMAL | MC_NORACE);
  Sm<yamc::counting_semaphore<>>::add("semaphore"); Sm<yamc::binary_semaphore>::add("binary_semaphore"); Sm<yamc::posix::counting_semaphore<>>::add("posix.semaphore");
  for (int n = 1; n <= 3; ++n) put("latch-barrier/" + std::to_string(n), n, LB::setup, LB::body, LB::teardown, MC_NORACE);
#endif
}
