// Failures of platform calls, handles and limits of the native wrappers.  -DG_WIN, -DG_GCD, -DG_APPLE, -DG_POSIX
#include "client.h"
#include <system_error>
#if defined G_WIN
#include "win_native_mutex.hpp"
#include "win_semaphore.hpp"
#elif defined G_GCD
#include "gcd_semaphore.hpp"
#elif defined G_APPLE
#include "apple_native_mutex.hpp"
#elif defined G_POSIX
#include <errno.h>
#include "posix_native_mutex.hpp"
#include "posix_semaphore.hpp"
#endif
using namespace client; using namespace std::chrono;
static bool thorough; static std::vector<mc_program>* out;
static void* box_; static bool held_, done_, fault_on;
static const char* fault_name;
static bool fault_now(const char* w) { return fault_on && !strcmp(w, fault_name); }

// outcome of a call: 0 false, 1 true/returned, 2+errc thrown, -1 something else thrown
template <class F> static int run(F f) {
  try { return f() ? 1 : 0; }
  catch (const std::system_error& e) { return 2 + e.code().value(); }
  catch (...) { return -1; }
}
static void want(const char* what, int got, int exp) { if (got != exp) mc_fail("wrong-result", "%s: %s, expected %s (errc %d vs %d)", what, got == 0 ? "false" : got == 1 ? "success" : got < 0 ? "some exception" : "a system_error", exp == 0 ? "false" : exp == 1 ? "success" : "a system_error", got - 2, exp - 2); }
static void none() {}
static void put(const char* name, int n, void (*setup)(), void (*body)(int), void (*teardown)(), unsigned fl = MC_TICK, uint64_t a = 0) {
  mc_program p; memset((void*)&p, 0, sizeof p); p.name = strdup(name); p.nthreads = n; p.flags = fl; p.setup = setup; p.body = body; p.teardown = teardown; p.param[1] = a; out->push_back(p);
}
static bool is_held(void*) { return held_; } static bool is_done(void*) { return done_; }
enum { AGAIN = 2 + (int)std::errc::resource_unavailable_try_again, INVAL = 2 + (int)std::errc::invalid_argument };

#if defined G_WIN || defined G_GCD || defined G_POSIX
#if defined G_WIN
namespace ns = yamc::win; static const char* WAITNAME = "WaitForSingleObject"; static const char* CREATE = "CreateSemaphore";
#elif defined G_GCD
namespace ns = yamc::gcd; static const char* WAITNAME = "dispatch_semaphore_wait"; static const char* CREATE = "dispatch_semaphore_create";
#else
namespace ns = yamc::posix;
#endif
template <class S> struct Sm {
  static S& s() { return *(S*)box_; }
  static const int NOPS = 11;
  // what: 0..6 acquisitions, 7.. others
  static int call(int i) {
    switch (i) {
      case 0: return run([] { s().acquire(); return true; });
      case 1: return run([] { return s().try_acquire(); });
      case 2: return run([] { return s().try_acquire_for(milliseconds(3)); });
      case 3: return run([] { return s().try_acquire_for(nanoseconds(-1)); });
      case 4: return run([] { return s().try_acquire_until(steady_clock::now() + milliseconds(2)); });
      case 5: return run([] { return s().try_acquire_until(system_clock::now() + milliseconds(2)); });
      case 6: return run([] { return s().try_acquire_until(half_clock::now() + milliseconds(2)); });
      case 7: return run([] { return s().try_acquire_until(system_clock::now() - milliseconds(2)); });
      case 8: return run([] { s().release(1); return true; });
      case 9: return run([] { s().release(2); return true; });
      default: return run([] { s().release(0); return true; });
    }
  }
  static int drain() { int n = 0; while (n < 20 && s().try_acquire()) ++n; return n; }
  static void expect_permits(int n, const char* w) { int d = drain(); if (d != n) mc_fail("permits", "%s: %d permits are left, expected %d", w, d, n); }
#if !defined G_POSIX
  // creation fails: the constructor doesn't throw, operations do
  static void create_setup() { fault_name = CREATE; fault_on = true; box_ = nullptr; }
  static void create_body(int) {
    int k = run([] { box_ = new S(1); return true; }); want("constructor without a native semaphore", k, 1);
    fault_on = false; int i = mc_choose(NOPS, "operation"); 
    want("operation without a native semaphore", call(i), i == 1 ? 0 : INVAL);
    delete (S*)box_;
  }
  // a wait fails
  static void wait_setup() { fault_name = WAITNAME; fault_on = false; box_ = new S(2); }
  static void wait_body(int) {
    int i = mc_choose(8, "operation"); fault_on = true; want("acquisition whose wait fails", call(i), i == 1 ? 0 : AGAIN); fault_on = false; expect_permits(2, "after a failed wait");
    delete (S*)box_; }
#endif
  // no faults, plain sequences: results and permits
  static void seq_setup() { fault_on = false; box_ = new S((std::ptrdiff_t)mc_param(1)); }
  static void seq_body(int) {
    int n = (int)mc_param(1);
    for (int k = 0; k < 3; ++k) {
      int i = mc_choose(NOPS, "operation");
      if (i == 0 && n == 0) continue;
      int r = call(i);
      if (i >= 8) { want("release", r, 1); n += i == 8 ? 1 : i == 9 ? 2 : 0; }
      else if (SH && r == 0 && n > 0 && (i == 2 || i == 4 || i == 5 || i == 6)) mc_fail("timeout-false", "timed acquisition with a permit available is false");
      else { want("acquisition", r, n > 0); n -= r; }
    }
    expect_permits(n, "after a sequence"); delete (S*)box_;
  }
  static const bool SH = true;
  // limits
  static void limit_setup() { fault_on = false; box_ = new S(S::max()); }
  static void limit_body(int) {
    int r = run([] { s().release(1); return true; });
    if (r == 1) mc_fail("wrong-result", "release beyond max() is not reported"); if (r < 2) mc_fail("wrong-result", "release beyond max(): no system_error");
    if (S::max() < 20) expect_permits((int)S::max(), "after an excessive release");
    delete (S*)box_;
  }
};
typedef Sm<ns::counting_semaphore<>> SM;
static void sems() {
#if !defined G_POSIX
  put("sem/create-fails", 1, SM::create_setup, SM::create_body, none); put("sem/wait-fails", 1, SM::wait_setup, SM::wait_body, none);
#endif
  put("sem/sequence0", 1, SM::seq_setup, SM::seq_body, none, MC_TICK | MC_TIMEOUT_NORMAL, 0); put("sem/sequence2", 1, SM::seq_setup, SM::seq_body, none, MC_TICK | MC_TIMEOUT_NORMAL, 2);
#if defined G_WIN
  typedef Sm<ns::counting_semaphore<5>> S5; typedef Sm<ns::binary_semaphore> S1;
  put("sem/limit", 1, SM::limit_setup, SM::limit_body, none); put("sem/limit5", 1, S5::limit_setup, S5::limit_body, none); put("sem/limit1", 1, S1::limit_setup, S1::limit_body, none);
#elif defined G_POSIX
  put("sem/limit", 1, SM::limit_setup, SM::limit_body, none);
#endif
}
#endif

#if defined G_WIN
namespace W {
  typedef yamc::win::native_mutex M; static M& m() { return *(M*)box_; }
  static void open(int n, const char* w) { if (winshim::g()->open != n) mc_fail("handles", "%s: %d handles are open, expected %d", w, winshim::g()->open, n); }
  static void create_setup() { fault_name = "CreateMutex"; fault_on = true; box_ = nullptr; }
  static void create_body(int) { want("constructor without a native mutex", run([] { box_ = new M(); return true; }), INVAL); open(0, "after a failed constructor"); fault_on = false; box_ = new M(); open(1, "after the constructor"); delete (M*)box_; open(0, "after the destructor"); }
  static void wait_setup() { fault_name = "WaitForSingleObject"; fault_on = false; box_ = new M(); }
  static int call(int i) {
    switch (i) {
      case 0: return run([] { m().lock(); return true; }); case 1: return run([] { return m().try_lock(); });
      case 2: return run([] { return m().try_lock_for(milliseconds(2)); }); case 3: return run([] { return m().try_lock_for(seconds(-2)); });
      case 4: return run([] { return m().try_lock_until(steady_clock::now() + milliseconds(2)); }); case 5: return run([] { return m().try_lock_until(system_clock::now() + milliseconds(2)); });
      default: return run([] { return m().try_lock_until(half_clock::now() + milliseconds(2)); });
    } }
  static void wait_body(int) { int i = mc_choose(7, "operation"); fault_on = true; want("acquisition whose wait fails", call(i), i == 1 ? 0 : AGAIN); fault_on = false; want("later acquisition", call(mc_choose(7, "operation")), 1); m().unlock(); delete (M*)box_; open(0, "after the destructor"); }
  // the native handle is the mutex itself
  static void nh_setup() { fault_on = false; box_ = new M(); held_ = done_ = false; }
  static void nh_body(int tid) {
    if (tid == 1) { if (WaitForSingleObject(m().native_handle(), INFINITE) != WAIT_OBJECT_0) mc_fail("wrong-result", "native_handle() can't be waited for"); held_ = true; mc_await(is_done, nullptr, "hold"); ReleaseMutex(m().native_handle()); return; }
    mc_await(is_held, nullptr, "held"); int i = 1 + mc_choose(6, "operation"); want("acquisition while the native handle is owned by another thread", call(i), 0); done_ = true; }
  static void nh_teardown() { want("try_lock", call(1), 1); m().unlock(); delete (M*)box_; open(0, "after the destructor"); }
  typedef yamc::win::critical_section C; static C& c() { return *(C*)box_; }
  static void cs_setup() { box_ = new C(); held_ = done_ = false; }
  static void cs_body(int tid) {
    if (tid == 1) { EnterCriticalSection(c().native_handle()); held_ = true; mc_await(is_done, nullptr, "hold"); LeaveCriticalSection(c().native_handle()); return; }
    mc_await(is_held, nullptr, "held"); want("try_lock while the native handle is owned", c().try_lock(), 0); done_ = true; }
  static void cs_teardown() { want("try_lock", c().try_lock(), 1); want("try_lock", c().try_lock(), 1); c().unlock(); c().unlock(); delete (C*)box_; }
  typedef yamc::win::slim_rwlock R; static R& r() { return *(R*)box_; }
  static void sr_setup() { box_ = new R(); held_ = done_ = false; }
  static void sr_body(int tid) {
    bool sh = mc_param(1);
    if (tid == 1) { if (sh) AcquireSRWLockShared(r().native_handle()); else AcquireSRWLockExclusive(r().native_handle()); held_ = true; mc_await(is_done, nullptr, "hold"); if (sh) ReleaseSRWLockShared(r().native_handle()); else ReleaseSRWLockExclusive(r().native_handle()); return; }
    mc_await(is_held, nullptr, "held"); want("try_lock", r().try_lock(), 0); bool g = r().try_lock_shared(); want("try_lock_shared", g, sh); if (g) r().unlock_shared(); done_ = true; }
  static void sr_teardown() { want("try_lock", r().try_lock(), 1); r().unlock(); delete (R*)box_; }
  static void all() {
    put("mutex/create-fails", 1, create_setup, create_body, none); put("mutex/wait-fails", 1, wait_setup, wait_body, none, MC_TICK | MC_TIMEOUT_NORMAL); put("mutex/native-handle", 2, nh_setup, nh_body, nh_teardown, MC_TICK | MC_TIMEOUT_NORMAL);
    put("critical_section/native-handle", 2, cs_setup, cs_body, cs_teardown); put("slim_rwlock/native-handle0", 2, sr_setup, sr_body, sr_teardown, 0, 0); put("slim_rwlock/native-handle1", 2, sr_setup, sr_body, sr_teardown, 0, 1);
  }
}
#endif
#if defined G_APPLE
namespace Ap {
  typedef yamc::apple::unfair_lock U; static U& u() { return *(U*)box_; }
  static void setup() { box_ = new U(); held_ = done_ = false; }
  static void body(int tid) {
    if (tid == 1) { os_unfair_lock_lock(u().native_handle()); held_ = true; mc_await(is_done, nullptr, "hold"); os_unfair_lock_unlock(u().native_handle()); return; }
    mc_await(is_held, nullptr, "held"); want("try_lock while the native handle is owned", u().try_lock(), 0); done_ = true; }
  static void teardown() { want("try_lock", u().try_lock(), 1); os_unfair_lock_assert_owner(u().native_handle()); u().unlock(); delete (U*)box_; }
}
#endif
extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) {
  std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough"); out = &o;
#if defined G_WIN
  winshim::fault_fn() = fault_now; W::all();
#elif defined G_GCD
  gcdshim::fault_fn() = fault_now;
#elif defined G_APPLE
  put("unfair_lock/native-handle", 2, Ap::setup, Ap::body, Ap::teardown, 0);
#endif
#if !defined G_APPLE
  sems();
#endif
}
