// The mutex types used through the standard library: lock_guard, unique_lock, shared_lock, condition_variable_any, std::lock.
#include "client.h"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <system_error>
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "fair_mutex.hpp"
#include "alternate_mutex.hpp"
#include "checked_mutex.hpp"
#include "posix_native_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "yamc_shared_lock.hpp"
using namespace std::chrono;
static bool thorough;
static std::vector<mc_program>* out;
struct G { int8_t x, s; };
static G* g() { return (G*)mc_aux(); }
static void in(bool sh) { mc_ghost_enter(); if (sh) g()->s++; else g()->x++; bool bad = g()->x > 1 || (g()->x && g()->s); mc_ghost_leave(); if (bad) mc_fail("exclusion", "two owners at a time"); }
static void out_(bool sh) { mc_ghost_enter(); if (sh) g()->s--; else g()->x--; mc_ghost_leave(); }
enum { TIMED = 1, SHARED = 2, REC = 4, TICKET = 8 /* counts its owners for ever: no program whose waits may be woken for nothing without end */ };
static const int64_t D = 10;

template <class M, int F> struct Io {
  struct Box { M m; std::condition_variable_any cv, cv2; int full, data, data2, done; };
  static Box*& b() { static Box* p; return p; }
  typedef std::integral_constant<bool, (F & TIMED) != 0> ti; typedef std::integral_constant<bool, (F & SHARED) != 0> sh;
  static void touch() { if (b()->data != b()->data2) mc_fail("visibility", "half-finished update"); b()->data++; b()->data2++; }
  static void wait(std::unique_lock<M>& lk, std::condition_variable_any& cv, int want) {
    while (b()->full != want) { out_(false); cv.wait(lk); in(false); if (!lk.owns_lock()) mc_fail("not-held", "condition_variable_any::wait returned without the lock"); }
  }
  static void notify(std::condition_variable_any& cv) { if (mc_param(1)) cv.notify_all(); else cv.notify_one(); }
  // one slot, two conditions
  static void pingpong(int tid) {
    for (int k = 0; k < (int)mc_param(0); ++k) {
      std::unique_lock<M> lk(b()->m); in(false);
      if (tid == 1) { wait(lk, b()->cv, 0); touch(); b()->full = 1; } else { wait(lk, b()->cv2, 1); touch(); b()->full = 0; }
      std::condition_variable_any& cv = tid == 1 ? b()->cv2 : b()->cv;
      if (mc_param(2)) { notify(cv); out_(false); } else { out_(false); lk.unlock(); notify(cv); }
    }
  }
  // thread 1 opens the gate, the others wait for it
  static void gate(int tid) {
    if (tid == 1) { { std::lock_guard<M> lk(b()->m); in(false); touch(); b()->full = 1; out_(false); } b()->cv.notify_all(); return; }
    std::unique_lock<M> lk(b()->m, std::defer_lock); if (mc_choose(2, "try first?") && lk.try_lock()) {} else lk.lock();
    in(false); wait(lk, b()->cv, 1); touch(); out_(false);
  }
  // waiting with a timeout: whatever the answer, the lock is held afterwards
  static void timedwait(int tid) {
    if (tid == 1) { { std::lock_guard<M> lk(b()->m); in(false); touch(); b()->full = 1; out_(false); } b()->cv.notify_all(); return; }
    std::unique_lock<M> lk(b()->m); in(false); out_(false);
    bool got; int64_t t0 = mc_clock_now(1);
    if (mc_choose(2, "until?")) got = b()->cv.wait_until(lk, steady_clock::now() + nanoseconds(D), [] { in(false); bool r = b()->full == 1; out_(false); return r; });
    else got = b()->cv.wait_for(lk, nanoseconds(D), [] { in(false); bool r = b()->full == 1; out_(false); return r; });
    in(false);
    if (!lk.owns_lock()) mc_fail("not-held", "a timed wait returned without the lock");
    if (got != (b()->full == 1)) mc_fail("wrong-result", "the answer of the timed wait does not match the state under the lock");
    if (!got && mc_clock_now(1) < t0 + D) mc_fail("early-timeout", "early");
    touch(); out_(false); mc_outcome(got);
  }
  // every way to get a unique_lock
  static bool timed(std::unique_lock<M>& lk, int k, std::true_type) {
    if (k == 0) return lk.try_lock_for(nanoseconds(D));
    if (k == 1) return lk.try_lock_until(system_clock::now() + nanoseconds(D));
    std::unique_lock<M> t(b()->m, nanoseconds(D)); lk = std::move(t); return lk.owns_lock(); }
  static bool timed(std::unique_lock<M>& lk, int, std::false_type) { return lk.try_lock(); }
  static void ulock(int) {
    for (int k = 0; k < (int)mc_param(0); ++k) {
      std::unique_lock<M> lk(b()->m, std::defer_lock);
      switch (mc_choose(ti::value ? 7 : 5, "how")) {
        case 0: lk.lock(); break;
        case 1: lk = std::unique_lock<M>(b()->m); break;
        case 2: lk = std::unique_lock<M>(b()->m, std::try_to_lock); break;
        case 3: b()->m.lock(); lk = std::unique_lock<M>(b()->m, std::adopt_lock); break;
        case 4: timed(lk, 0, ti()); break;
        case 5: timed(lk, 1, ti()); break;
        case 6: timed(lk, 2, ti()); break;
      }
      if (!lk.owns_lock()) continue;
      in(false); touch(); out_(false);
      if (mc_choose(2, "release by hand?")) { M* m = lk.release(); m->unlock(); }
    }
  }
  // readers wait through shared_lock
  static void readers(int tid, std::true_type) {
    if (tid == 1) { { std::lock_guard<M> lk(b()->m); in(false); touch(); b()->full = 1; out_(false); } b()->cv.notify_all(); return; }
    yamc::shared_lock<M> lk(b()->m); in(true);
    while (!b()->full) { out_(true); b()->cv.wait(lk); in(true); if (!lk.owns_lock()) mc_fail("not-held", "condition_variable_any::wait returned without the shared lock"); }
    if (b()->data != 1 || b()->data2 != 1) mc_fail("visibility", "a reader does not see the update");
    out_(true);
  }
  static void readers(int, std::false_type) {}
  static void readers_(int tid) { readers(tid, sh()); }
  static void setup() { void* p = ::operator new(sizeof(Box)); memset(p, 0, sizeof(Box)); b() = new (p) Box(); b()->full = b()->data = b()->data2 = b()->done = 0; }
  static void teardown() { if (b()->data != b()->data2) mc_fail("visibility", "final state"); if (!b()->m.try_lock()) mc_fail("left-locked", "the mutex is still locked"); b()->m.unlock(); b()->~Box(); ::operator delete(b()); }
  static void put(const std::string& n, int th, void (*body)(int), unsigned fl, std::initializer_list<uint64_t> par) {
    mc_program p; memset((void*)&p, 0, sizeof p); p.name = client::nm(n); p.nthreads = th; p.flags = fl; p.setup = setup; p.body = body; p.teardown = teardown;
    int i = 0; for (uint64_t v : par) p.param[i++] = v; out->push_back(p);
  }
  static void add(const std::string& n, bool spin = false) {
    const unsigned tk = F & TIMED ? MC_TICK : 0, spur = F & TICKET ? 0 : MC_SPUR;
    put(n + "/pingpong2", 2, pingpong, 0, {2, 0, 1}); put(n + "/pingpong2u", 2, pingpong, spur, {1, 1, 0});
    put(n + "/gate2", 2, gate, spur, {}); put(n + "/timedwait2", 2, timedwait, MC_TICK, {});
    put(n + "/ulock2x2", 2, ulock, tk, {2});
    if (!spin || thorough) { put(n + "/gate3", 3, gate, MC_NORACE, {}); put(n + "/ulock3x1", 3, ulock, tk, {1}); }
    if (F & SHARED) { put(n + "/readers2", 2, readers_, spur, {}); put(n + "/readers3", 3, readers_, 0, {}); }
    if (thorough) { put(n + "/pingpong3", 3, pingpong, 0, {1, 1, 0}); put(n + "/pingpong2x3", 2, pingpong, spur, {3, 0, 0}); put(n + "/timedwait3", 3, timedwait, MC_TICK | MC_NORACE, {}); }
  }
};
// two mutexes of different types through std::lock
template <class M1, class M2> struct Two {
  struct Box { M1 a; M2 b; int data, data2; };
  static Box*& b() { static Box* p; return p; }
  static void body(int tid) {
    for (int k = 0; k < (int)mc_param(0); ++k) {
      std::unique_lock<M1> l1(b()->a, std::defer_lock); std::unique_lock<M2> l2(b()->b, std::defer_lock);
      if (tid == 1 || (tid == 3 && mc_choose(2, "order"))) std::lock(l1, l2); else std::lock(l2, l1);
      if (!l1.owns_lock() || !l2.owns_lock()) mc_fail("not-held", "std::lock returned without all the locks");
      in(false); b()->data++; b()->data2++; out_(false);
    }
  }
  static void setup() { void* p = ::operator new(sizeof(Box)); memset(p, 0, sizeof(Box)); b() = new (p) Box(); b()->data = b()->data2 = 0; }
  static void teardown() { if (!b()->a.try_lock()) mc_fail("left-locked", "the first mutex is still locked"); if (!b()->b.try_lock()) mc_fail("left-locked", "the second mutex is still locked"); b()->a.unlock(); b()->b.unlock(); b()->~Box(); ::operator delete(b()); }
  static void add(const std::string& n) {
    for (int th = 2; th <= (thorough ? 3 : 2); ++th) {
      mc_program p; memset((void*)&p, 0, sizeof p); p.name = client::nm("two/" + n + std::to_string(th)); p.nthreads = th; p.flags = 0; p.setup = setup; p.body = body; p.teardown = teardown; p.param[0] = th == 2 ? 2 : 1; out->push_back(p);
    }
  }
};
extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) {
  std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough"); out = &o;
  namespace f = yamc::fair; namespace a = yamc::alternate; namespace c = yamc::checked; namespace rw = yamc::rwlock;
#if defined P1
  typedef yamc::backoff::yield Y; Io<yamc::spin::basic_mutex<Y>, 0>::add("spin.mutex", true); Io<yamc::spin_weak::basic_mutex<Y>, 0>::add("spin_weak.mutex", true); Io<yamc::spin_ttas::basic_mutex<Y>, 0>::add("spin_ttas.mutex", true);
  Io<f::mutex, TICKET>::add("fair.mutex"); Io<f::recursive_mutex, REC | TICKET>::add("fair.recursive_mutex"); Io<f::timed_mutex, TIMED>::add("fair.timed_mutex"); Io<f::recursive_timed_mutex, TIMED | REC>::add("fair.recursive_timed_mutex");
  Io<a::recursive_mutex, REC>::add("alternate.recursive_mutex"); Io<a::timed_mutex, TIMED>::add("alternate.timed_mutex"); Io<a::recursive_timed_mutex, TIMED | REC>::add("alternate.recursive_timed_mutex");
  Io<yamc::posix::native_mutex, TIMED>::add("posix.native_mutex"); Io<yamc::posix::native_recursive_mutex, TIMED | REC>::add("posix.native_recursive_mutex"); Io<yamc::posix::spinlock, 0>::add("posix.spinlock"); Io<yamc::posix::rwlock, TIMED | SHARED>::add("posix.rwlock");
  Two<f::timed_mutex, a::timed_mutex>::add("fair_timed-alternate_timed"); Two<a::recursive_mutex, yamc::posix::native_mutex>::add("alternate_recursive-posix"); Two<yamc::posix::rwlock, f::recursive_timed_mutex>::add("posix_rwlock-fair_recursive_timed");
#elif defined P2
  Io<c::mutex, 0>::add("checked.mutex"); Io<c::recursive_mutex, REC>::add("checked.recursive_mutex"); Io<c::timed_mutex, TIMED>::add("checked.timed_mutex"); Io<c::recursive_timed_mutex, TIMED | REC>::add("checked.recursive_timed_mutex");
  Io<c::basic_shared_mutex<rw::ReaderPrefer>, SHARED>::add("checked.shared_mutex.r"); Io<c::basic_shared_mutex<rw::WriterPrefer>, SHARED>::add("checked.shared_mutex.w");
  Io<c::basic_shared_timed_mutex<rw::ReaderPrefer>, SHARED | TIMED>::add("checked.shared_timed_mutex.r"); Io<c::basic_shared_timed_mutex<rw::WriterPrefer>, SHARED | TIMED>::add("checked.shared_timed_mutex.w");
  Two<c::mutex, c::recursive_mutex>::add("checked-checked_recursive"); Two<c::basic_shared_mutex<rw::ReaderPrefer>, c::timed_mutex>::add("checked_shared-checked_timed");
#else
  Io<a::basic_shared_mutex<rw::ReaderPrefer>, SHARED>::add("alternate.shared_mutex.r"); Io<a::basic_shared_mutex<rw::WriterPrefer>, SHARED>::add("alternate.shared_mutex.w");
  Io<a::basic_shared_timed_mutex<rw::ReaderPrefer>, SHARED | TIMED>::add("alternate.shared_timed_mutex.r"); Io<a::basic_shared_timed_mutex<rw::WriterPrefer>, SHARED | TIMED>::add("alternate.shared_timed_mutex.w");
  Io<f::basic_shared_mutex<rw::TaskFairness>, SHARED>::add("fair.shared_mutex.t"); Io<f::basic_shared_mutex<rw::PhaseFairness>, SHARED>::add("fair.shared_mutex.p");
  Io<f::basic_shared_timed_mutex<rw::TaskFairness>, SHARED | TIMED>::add("fair.shared_timed_mutex.t"); Io<f::basic_shared_timed_mutex<rw::PhaseFairness>, SHARED | TIMED>::add("fair.shared_timed_mutex.p");
  Two<a::basic_shared_mutex<rw::WriterPrefer>, f::basic_shared_mutex<rw::PhaseFairness>>::add("alternate_shared-fair_shared"); Two<f::basic_shared_timed_mutex<rw::TaskFairness>, a::basic_shared_timed_mutex<rw::ReaderPrefer>>::add("fair_shared_timed-alternate_shared_timed");
#endif
}
